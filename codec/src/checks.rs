use crate::alloc::metered;
use crate::model::*;
use crate::zoo::*;
use serde::ser::{self, Serialize};
use serde_xdr::opaque::{FixedArray, VariableArray};
use serde_xdr::error::Error;
use serde_xdr::{from_bytes, to_bytes};
use std::collections::*;
use std::rc::Rc;
use vhcore::driver::Check;
use vhcore::*;

fn g<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    guard(f).map_err(|m| format!("{what} panicked: {m}"))
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
fn encode(t: &Ty, v: &Val) -> Result<Vec<u8>, String> {
    encode_as(t, v, 0)
}
/// The same value under names chosen by `n`.
fn encode_as(t: &Ty, v: &Val, n: u64) -> Result<Vec<u8>, String> {
    name_from(digest(v) ^ n);
    g("encoding", || to_bytes(&S(t, v)))?.map_err(|e| format!("encoding failed: {e:?}"))
}
fn note_case(cx: &mut Cx, t: &Ty, v: &Val) {
    cx.note(|| clip(&format!("type {t:?}"), 400));
    cx.note(|| clip(&format!("value {v:?}"), 400));
    visit(t, &mut |t| {
        let k = kind(t);
        if !cx.labels.contains(&k) {
            cx.labels.push(k)
        }
    });
}
/// Non-trivial: the encoding has at least two four-octet units.
fn weigh(cx: &mut Cx, t: &Ty, b: &[u8]) {
    cx.nontrivial = b.len() >= 8;
    cx.key(&(t, b));
    cx.label_if(b.len() >= 256, "encoding>=256B");
    cx.label_if(depth(t) >= 4, "depth>=4");
}
fn diff(what: &str, want: &[u8], got: &[u8]) -> String {
    let at = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    format!("{what}: expected {} octets {}, got {} octets {} (first difference at {at})", want.len(), clip(&hex(want), 400), got.len(), clip(&hex(got), 400))
}

// ------------------------------------------------------------------ the zoo as a table

pub struct Entry {
    name: &'static str,
    encode: fn(&mut Src, &mut Cx) -> Outcome,
    decode: fn(&mut Src, &mut Cx) -> Outcome,
    prefix: fn(&mut Src, &mut Cx) -> Outcome,
    hostile: fn(&mut Src, &mut Cx) -> Outcome,
    stable: fn(&mut Src, &mut Cx) -> Outcome,
    context: fn(&mut Src, &mut Cx) -> Outcome,
    feed: fn(&mut Src, &mut Cx) -> Outcome,
    sized: bool,
    merges: bool,
    picky: bool,
}

fn z_make<T: Zoo>(s: &mut Src, cx: &mut Cx) -> (T, Vec<u8>) {
    let v = T::make(s);
    let mut e = vec![];
    v.enc(&mut e);
    cx.note(|| clip(&format!("{} = {v:?}", std::any::type_name::<T>()), 500));
    cx.nontrivial = e.len() >= 8;
    cx.key(&(std::any::type_name::<T>(), &e));
    (v, e)
}
fn z_encode<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (v, e) = z_make::<T>(s, cx);
    let b = g("encoding", || to_bytes(&v))?.map_err(|e| format!("encoding failed: {e:?}"))?;
    ensure!(b == e, "{}", diff("encoding", &e, &b));
    let b2 = g("encoding", || to_bytes(&v))?.map_err(|e| format!("second encoding failed: {e:?}"))?;
    ensure!(b2 == e, "{}", diff("second encoding of the same value", &e, &b2));
    Ok(())
}
fn z_decode<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (v, e) = z_make::<T>(s, cx);
    let r = g("decoding", || from_bytes::<T>(&e))?.map_err(|x| format!("decoding {} failed: {x:?}", clip(&hex(&e), 400)))?;
    ensure!(v.same(&r), "decoding {} gave {r:?} instead of {v:?}", clip(&hex(&e), 400));
    let b = g("encoding", || to_bytes(&v))?.map_err(|e| format!("encoding failed: {e:?}"))?;
    let r = g("decoding", || from_bytes::<T>(&b))?.map_err(|x| format!("decoding own output {} failed: {x:?}", clip(&hex(&b), 400)))?;
    ensure!(v.same(&r), "decoding own output {} gave {r:?} instead of {v:?}", clip(&hex(&b), 400));
    Ok(())
}
fn z_prefix<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (_, e) = z_make::<T>(s, cx);
    prefixes(s, cx, &e, |b| from_bytes::<T>(b).map(|v| format!("{v:?}")))
}
fn z_hostile<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (_, e) = z_make::<T>(s, cx);
    let b = hostile_bytes(s, &e, &[]);
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    cx.key(&(std::any::type_name::<T>(), &b));
    cx.nontrivial = b.len() >= 4;
    let r = bounded(&b, || from_bytes::<T>(&b).is_ok())?;
    cx.label(if r { "accepted" } else { "rejected" });
    Ok(())
}
fn z_stable<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (_, e) = z_make::<T>(s, cx);
    let same = s.chance(1, 4);
    let b = if same { e.clone() } else { hostile_bytes(s, &e, &[]) };
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    let Ok(v) = g("decoding", || from_bytes::<T>(&b))? else {
        ensure!(!same, "a conforming encoding {} was refused", clip(&hex(&b), 400));
        cx.nontrivial = false;
        return Ok(());
    };
    cx.nontrivial = b.len() >= 8;
    cx.key(&(std::any::type_name::<T>(), &b));
    let c = g("encoding", || to_bytes(&v))?.map_err(|x| format!("accepted {} but re-encoding {v:?} failed: {x:?}", clip(&hex(&b), 400)))?;
    ensure!(c.len() == b.len(), "accepted {} octets {}, re-encoded as {} octets {}", b.len(), clip(&hex(&b), 300), c.len(), clip(&hex(&c), 300));
    if b == e {
        ensure!(c == e, "{}", diff("re-encoding a conforming input", &e, &c));
    }
    let w = g("decoding", || from_bytes::<T>(&c))?.map_err(|x| format!("re-encoding {} is refused: {x:?}", clip(&hex(&c), 400)))?;
    ensure!(w.same(&v), "decoding the re-encoding gave {w:?} instead of {v:?}");
    Ok(())
}

macro_rules! zoo {
    ($($t:ty),* $(,)?) => { &[$(Entry {
        name: stringify!($t), encode: z_encode::<$t>, decode: z_decode::<$t>, prefix: z_prefix::<$t>, hostile: z_hostile::<$t>,
        stable: z_stable::<$t>, context: z_context::<$t>, feed: z_feed::<$t>, sized: true, merges: <$t as Zoo>::MERGES, picky: <$t as Zoo>::PICKY,
    }),*] };
}
macro_rules! zoo_unsized {
    ($($t:ty),* $(,)?) => { &[$(Entry {
        name: stringify!($t), encode: z_encode::<$t>, decode: z_decode::<$t>, prefix: z_prefix::<$t>, hostile: z_hostile::<$t>,
        stable: z_stable::<$t>, context: z_context::<$t>, feed: z_feed::<$t>, sized: false, merges: <$t as Zoo>::MERGES, picky: <$t as Zoo>::PICKY,
    }),*] };
}

static ZOO: &[Entry] = zoo![
    bool, i8, i16, i32, i64, u8, u16, u32, u64, usize, isize, f32, f64, char, String, (),
    Box<str>, std::path::PathBuf, std::borrow::Cow<'static, str>, std::ffi::CString,
    Option<u8>, Option<Option<bool>>, Option<String>, Option<()>, Box<u64>, Vec<u8>, Vec<i16>, Vec<bool>, Vec<char>, Vec<f64>,
    Vec<String>, Vec<Vec<u32>>, Vec<Option<i64>>, Vec<(u8, String)>, Vec<[u16; 3]>, Option<Vec<Option<String>>>,
    VecDeque<u32>, LinkedList<String>, BTreeSet<u32>, HashSet<String>, BinaryHeap<i16>, BTreeMap<u32, String>,
    BTreeMap<String, Vec<u8>>, HashMap<i64, Option<u8>>, HashMap<char, (u8, i8)>, BTreeMap<u8, BTreeMap<i8, bool>>,
    [u8; 0], [u8; 1], [u8; 5], [i64; 4], [f32; 32], [char; 7], [Option<u8>; 3], [[u16; 2]; 3],
    (u8,), (u8, String), (bool, i64, f32), (String, u8, String, Vec<u8>), (u8, u16, u32, u64, i8, i16, i32, i64),
    (u8, i16, u32, i64, bool, char, String, f32, f64, (), Option<u8>, Vec<u8>),
    Result<u32, String>, Result<(), Vec<u8>>, Result<Result<u8, i8>, bool>, std::ops::Range<i32>, std::ops::RangeInclusive<u64>,
    std::ops::RangeFrom<u8>, std::ops::Bound<i64>, std::time::Duration, std::time::SystemTime,
    std::num::Wrapping<i16>, std::cmp::Reverse<u8>, std::cell::Cell<i32>, std::cell::RefCell<u64>,
    std::sync::Mutex<bool>, std::sync::RwLock<char>, std::num::NonZeroU8, std::num::NonZeroI16, std::num::NonZeroU32,
    std::num::NonZeroI64, std::num::NonZeroU64, Option<std::num::NonZeroU32>, std::sync::atomic::AtomicBool,
    std::sync::atomic::AtomicU8, std::sync::atomic::AtomicI32, std::sync::atomic::AtomicU64,
    Empty, Scalars, Nested, Renamed, Transparent, NewInt, Pair, Mixed, Wide, Vec<Wide>, Vec<Mixed>, Option<Mixed>,
    Generic<u8, String>, Generic<Option<Mixed>, Vec<i16>>, Generic<(), u64>, ListNode, Option<ListNode>, Chain, Vec<Chain>, Tree, Skips, Shown, (Shown, u8), Envelope, Vec<Envelope>, (Envelope, u8), Even, Vec<Even>, UnitS,
    (UnitS, u8, ()), BTreeMap<String, Nested>, HashMap<u32, Mixed>, Option<UnitS>, std::marker::PhantomData<u8>,
    Opaques, OpqTuple, OpqNewV, OpqNewF, Vec<Opaques>, Vec<OpqTuple>, Option<OpqNewF>, BTreeMap<u8, OpqNewV>, ElemPlaces, VariableArray,
    Vec<VariableArray>, Numbered, NumTuple, NumNew, NumNest, Vec<Numbered>, Vec<OpqNewF>, Vec<NumNew>,
    FixedArray<3>, Vec<FixedArray<40>>,
];
static ZOO_ZST: &[Entry] = zoo_unsized![Vec<()>, Vec<UnitS>, Vec<Empty>, Vec<[u8; 0]>, Option<Vec<()>>];
static ZOO_OPAQUE: &[Entry] = zoo![
    Opaques, OpqTuple, OpqNewV, OpqNewF, Vec<Opaques>, Vec<OpqTuple>, Option<OpqNewF>, BTreeMap<u8, OpqNewV>, ElemPlaces,
    VariableArray, Vec<VariableArray>, Option<VariableArray>, Mixed, Vec<OpqNewF>, (VariableArray, u8, Option<Vec<VariableArray>>),
    BTreeMap<String, VariableArray>, Vec<Vec<VariableArray>>,
    FixedArray<0>, FixedArray<1>, FixedArray<300>, Vec<FixedArray<5>>, Option<FixedArray<8>>, BTreeMap<u8, FixedArray<33>>,
    (u8, FixedArray<2>, VariableArray),
];
static ZOO_NUM: &[Entry] = zoo![Numbered, NumTuple, NumNew, NumNest, Vec<Numbered>, Option<NumNew>, Vec<NumNew>, Mixed, BTreeMap<u8, NumTuple>];

fn pick_zoo(s: &mut Src, cx: &mut Cx, all: bool) -> &'static Entry {
    let e = if all && s.chance(1, 30) { s.pick(ZOO_ZST) } else { s.pick(ZOO) };
    cx.note(|| e.name.to_string());
    e
}

// ------------------------------------------------------------------ C01

fn dyn_encode(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &PLAIN);
    enc_check(cx, &t, &v)
}
fn enc_check(cx: &mut Cx, t: &Ty, v: &Val) -> Outcome {
    note_case(cx, t, v);
    let want = ref_encode(t, v);
    weigh(cx, t, &want);
    let got = encode(t, v)?;
    ensure!(got == want, "{}", diff("encoding", &want, &got));
    ensure!(got.len() % 4 == 0, "encoding has {} octets", got.len());
    let again = encode_as(t, v, 0x5eed)?;
    ensure!(again == want, "{}", diff("second encoding of the same value, under other names", &want, &again));
    Ok(())
}
fn zoo_encode(s: &mut Src, cx: &mut Cx) -> Outcome {
    (pick_zoo(s, cx, true).encode)(s, cx)
}
/// Every scalar value of the small types, and every length around the padding boundaries.
fn enc_sweep(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = match s.below(8) {
        0 => (Ty::U8, Val::U(s.below(256))),
        1 => (Ty::I8, Val::I(s.below(256) as i64 - 128)),
        2 => (Ty::U16, Val::U(s.below(65536))),
        3 => (Ty::I16, Val::I(s.below(65536) as i64 - 32768)),
        4 => (Ty::Char, Val::Char(gen_char(s))),
        5 => {
            let n = s.usize(1200);
            (Ty::Bytes, Val::Bytes(gen_bytes(s, n)))
        }
        6 => {
            let n = s.usize(300);
            (Ty::Str, Val::Str((0..n).map(|i| if i % 7 == 3 { 'é' } else { 'x' }).collect()))
        }
        _ => {
            let n = s.usize(300);
            (Ty::Seq(Box::new(Ty::U8)), Val::List((0..n).map(|i| Val::U(i as u64 % 256)).collect()))
        }
    };
    enc_check(cx, &t, &v)
}

/// Long strings, byte strings, opaque data and lists, between neighbours.
fn gen_long(s: &mut Src, cx: &mut Cx, opaque: bool) -> (Ty, Val) {
    let n = gen_large(s);
    cx.label(if n > 1 << 18 { "longer than 2^18" } else { "longer than 2^11" });
    let (t, v) = match s.below(if opaque { 3 } else { 6 }) {
        0 => (Ty::OpqV, Val::Bytes(gen_bytes(s, n))),
        1 => (Ty::OpqElem, Val::Bytes(gen_bytes(s, n))),
        2 => (Ty::Opt(Box::new(Ty::OpqV)), Val::Some(Box::new(Val::Bytes(gen_bytes(s, n))))),
        3 => (Ty::Bytes, Val::Bytes(gen_bytes(s, n))),
        4 => {
            let c = gen_char(s);
            (Ty::Str, Val::Str(std::iter::repeat_n(c, n / c.len_utf8()).chain("x".repeat(n % c.len_utf8()).chars()).collect()))
        }
        _ => {
            let n = n.min((1 << 17) + n % 16);
            (Ty::Seq(Box::new(Ty::U16)), Val::List((0..n).map(|i| Val::U(i as u64 % 65536)).collect()))
        }
    };
    let t = Ty::Tup(vec![Ty::U32, t, Ty::U8]);
    (t, Val::List(vec![Val::U(7), v, Val::U(9)]))
}
fn enc_long(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_long(s, cx, false);
    enc_check(cx, &t, &v)
}
fn dec_long(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_long(s, cx, false);
    dec_check(cx, &Rc::new(t), &v)
}
fn opq_long(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_long(s, cx, true);
    enc_check(cx, &t, &v)?;
    dec_check(cx, &Rc::new(t), &v)
}

// ------------------------------------------------------------------ C02

fn dec_check(cx: &mut Cx, t: &Rc<Ty>, v: &Val) -> Outcome {
    note_case(cx, t, v);
    let conf = ref_encode(t, v);
    weigh(cx, t, &conf);
    // The independent encoder's octets.
    let r = g("decoding", || decode(t, &conf))?.map_err(|e| format!("decoding the conforming encoding {} failed: {e:?}", clip(&hex(&conf), 400)))?;
    ensure!(r == *v, "decoding {} gave {} instead of {}", clip(&hex(&conf), 400), clip(&format!("{r:?}"), 400), clip(&format!("{v:?}"), 400));
    // The library's own octets.
    let own = encode(t, v)?;
    if own != conf {
        let r = g("decoding", || decode(t, &own))?.map_err(|e| format!("decoding the library's own encoding {} failed: {e:?}", clip(&hex(&own), 400)))?;
        ensure!(r == *v, "decoding own {} gave {}", clip(&hex(&own), 400), clip(&format!("{r:?}"), 400));
    }
    Ok(())
}
fn dyn_decode(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &PLAIN);
    dec_check(cx, &Rc::new(t), &v)
}
fn zoo_decode(s: &mut Src, cx: &mut Cx) -> Outcome {
    (pick_zoo(s, cx, true).decode)(s, cx)
}
/// What happened before on the thread: many attempts, good or bad, then a value.
fn repeats(s: &mut Src, cx: &mut Cx, cost: usize) -> usize {
    let n = match s.below(4) {
        0 => 1 + s.usize(8),
        1 => 1 + s.usize(300),
        2 => 1 + s.usize(5000),
        _ => {
            let n = 1 + s.usize(70000);
            s.least(n, 70000)
        }
    };
    let n = n.min(1 + 2_000_000 / (cost + 20));
    cx.label_if(n > 10000, "more than 10000 attempts before");
    n
}
fn enc_history(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, mut v) = gen_case(s, &SMALL);
    let (u, w) = gen_case(s, &SMALL);
    let bad = s.chance(3, 4);
    let keep = v.clone();
    if bad {
        let mut ps = vec![];
        places(&t, &mut v, &mut ps);
        let at = s.usize(ps.len());
        // SAFETY: the pointers come from one walk over `v`, which is not touched in between.
        unsafe { *ps[at] = Val::Poison(*s.pick(&[Poison::Fails, Poison::UnknownSeq, Poison::I128(1), Poison::HugeMap(1 << 33), Poison::VarTup(u32::MAX)])) };
    }
    let n = repeats(s, cx, ref_encode(&t, &keep).len());
    cx.note(|| format!("{n} times {}: {v:?}", if bad { "refused" } else { "encoded" }));
    for i in 0..n {
        let r = g("encoding", || to_bytes(&S(&t, &v)))?;
        ensure!(r.is_err() == bad, "attempt {i} to encode {v:?} gave {r:?}");
    }
    enc_check(cx, &t, &keep)?;
    enc_check(cx, &u, &w)?;
    cx.nontrivial = true;
    cx.key(&(&t, &v, n, &w));
    Ok(())
}
fn dec_history(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &SMALL);
    let (u, w) = gen_case(s, &SMALL);
    let e = ref_encode(&t, &v);
    let bad = !e.is_empty() && s.chance(3, 4);
    let b = match s.below(3) {
        _ if !bad => e.clone(),
        0 => hostile_bytes(s, &e, &[]),
        1 => e[..e.len() - 1].to_vec(),
        _ => e[..s.usize(e.len())].to_vec(),
    };
    let n = repeats(s, cx, b.len());
    let t = Rc::new(t);
    let first = g("decoding", || decode(&t, &b))?;
    cx.label(if first.is_ok() { "accepted before" } else { "refused before" });
    cx.note(|| format!("{n} times {}, which gave {first:?}", clip(&hex(&b), 300)));
    for i in 0..n {
        let r = g("decoding", || decode(&t, &b))?;
        ensure!(r.as_ref().ok() == first.as_ref().ok(), "attempt {i} to decode {} gave {r:?} instead of {first:?}", clip(&hex(&b), 300));
    }
    dec_check(cx, &t, &v)?;
    dec_check(cx, &Rc::new(u), &w)?;
    cx.nontrivial = true;
    cx.key(&(&*t, &b, n, &w));
    Ok(())
}
/// Standard types whose octets the RFC does not fix: only the round trip is judged.
fn std_roundtrip(s: &mut Src, cx: &mut Cx) -> Outcome {
    use std::net::*;
    fn rt<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(cx: &mut Cx, v: T) -> Outcome {
        cx.note(|| format!("{v:?}"));
        cx.key(&v);
        cx.nontrivial = true;
        let b = g("encoding", || to_bytes(&v))?.map_err(|e| format!("encoding {v:?} failed: {e:?}"))?;
        ensure!(b.len() % 4 == 0, "encoding of {v:?} has {} octets", b.len());
        let r = g("decoding", || from_bytes::<T>(&b))?.map_err(|e| format!("decoding {v:?} from {} failed: {e:?}", hex(&b)))?;
        ensure!(r == v, "decoding {} gave {r:?} instead of {v:?}", hex(&b));
        Ok(())
    }
    let v4 = Ipv4Addr::from(s.uint(32) as u32);
    let v6 = Ipv6Addr::from(((s.uint(64) as u128) << 64) | s.uint(64) as u128);
    let port = s.uint(16) as u16;
    match s.below(6) {
        0 => rt(cx, v4),
        1 => rt(cx, v6),
        2 => rt(cx, if s.bool() { IpAddr::V4(v4) } else { IpAddr::V6(v6) }),
        3 => rt(cx, SocketAddrV4::new(v4, port)),
        4 => rt(cx, SocketAddrV6::new(v6, port, 0, 0)),
        _ => rt(cx, if s.bool() { SocketAddr::new(v4.into(), port) } else { SocketAddr::new(v6.into(), port) }),
    }
}

// ------------------------------------------------------------------ C03

fn prefixes(s: &mut Src, cx: &mut Cx, e: &[u8], dec: impl Fn(&[u8]) -> Result<String, Error>) -> Outcome {
    let cuts: Vec<usize> = if e.len() <= 96 {
        (0..e.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..40).map(|_| s.usize(e.len())).collect();
        v.extend([0, 1, 3, 4, 5, 7, e.len() - 1, e.len() - 2, e.len() - 3, e.len() - 4, e.len() - 5]);
        v
    };
    let head = clip(&hex(&e[..e.len().min(200)]), 300);
    for n in cuts {
        let r = g(&format!("decoding the first {n} of {} octets of {head}", e.len()), || dec(&e[..n]))?;
        if let Ok(v) = r {
            return Err(format!("the first {n} of {} octets of {} were decoded to {}", e.len(), clip(&hex(e), 300), clip(&v, 300)));
        }
    }
    let extra = match s.below(4) {
        0 => 1,
        1 => 4,
        2 => 1 + s.usize(8),
        _ if s.chance(1, 50) => {
            let n = 1 + s.usize(3000);
            s.least(n, 1 << 18)
        }
        _ => 1 + s.usize(300),
    };
    cx.label_if(extra > 1000, "more than 1000 extra octets");
    cx.label_if(extra % 4 != 0, "extra not a multiple of four");
    let mut b = e.to_vec();
    b.extend(gen_bytes(s, extra));
    match g("decoding over-long input", || dec(&b))? {
        Err(Error::TrailingData(n)) if n == extra => Ok(()),
        Err(x) => Err(format!("{} followed by {extra} octets: expected TrailingData({extra}), got {x:?}", clip(&hex(e), 300))),
        Ok(v) => Err(format!("{} followed by {extra} octets was decoded to {}", clip(&hex(e), 300), clip(&v, 300))),
    }
}
fn dyn_prefix(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &PLAIN);
    note_case(cx, &t, &v);
    let e = ref_encode(&t, &v);
    weigh(cx, &t, &e);
    let t = Rc::new(t);
    prefixes(s, cx, &e, |b| decode(&t, b).map(|v| format!("{v:?}")))
}
fn zoo_prefix(s: &mut Src, cx: &mut Cx) -> Outcome {
    (pick_zoo(s, cx, true).prefix)(s, cx)
}

// ------------------------------------------------------------------ corrupted input

const WORDS: &[u32] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000,
    0x00ffffff, 0x01000000, 0x10000000, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffc, 0xfffffffe, 0xffffffff,
];
fn put(b: &mut [u8], at: usize, x: u32) {
    if at + 4 <= b.len() {
        b[at..at + 4].copy_from_slice(&x.to_be_bytes())
    }
}
/// A corrupted encoding, or octets from nowhere.
fn hostile_bytes(s: &mut Src, e: &[u8], marks: &[(usize, Mark)]) -> Vec<u8> {
    if s.chance(1, 6) {
        let mut b = vec![];
        for _ in 0..s.usize(72) {
            let w = if s.chance(1, 3) { s.u64() as u32 } else { *s.pick(WORDS) };
            b.extend(w.to_be_bytes());
        }
        let cut = s.usize(4);
        b.truncate(b.len().saturating_sub(cut));
        return b;
    }
    let mut b = e.to_vec();
    for _ in 0..1 + s.usize(3) {
        match s.below(7) {
            0 | 1 if !marks.is_empty() => target(s, &mut b, marks),
            0 | 1 | 2 if b.len() >= 4 => {
                let at = s.usize(b.len() / 4) * 4;
                let w = if s.chance(1, 4) { s.u64() as u32 } else { *s.pick(WORDS) };
                put(&mut b, at, w);
            }
            3 if !b.is_empty() => {
                let at = s.usize(b.len());
                b[at] ^= 1 << s.below(8);
            }
            4 => {
                let n = s.usize(b.len() + 1);
                b.truncate(n);
            }
            5 => {
                let n = 1 + s.usize(12);
                let x = gen_bytes(s, n);
                let at = s.usize(b.len() + 1);
                b.splice(at..at, x);
            }
            _ if !b.is_empty() => {
                let at = s.usize(b.len());
                b[at] = s.below(256) as u8;
            }
            _ => {}
        }
    }
    b
}
/// Corrupts a field whose meaning is known.
fn target(s: &mut Src, b: &mut [u8], marks: &[(usize, Mark)]) {
    let (at, m) = s.pick(marks).clone();
    match m {
        Mark::Len(n) => {
            let n = n as u32;
            let w = match s.below(5) {
                0 => n + 1,
                1 => n + 1 + s.below(8) as u32,
                2 => n.saturating_sub(1),
                3 => 1 << s.below(32),
                _ => *s.pick(WORDS),
            };
            put(b, at, w)
        }
        Mark::Flag => put(b, at, *s.pick(WORDS)),
        Mark::Disc(ds) => {
            let d = *s.pick(&ds);
            let w = match s.below(5) {
                0 => ds.len() as u32 + s.below(3) as u32,
                1 => d.wrapping_neg(),
                2 => d | 0x8000_0000,
                3 => d.wrapping_add(1 << s.below(32)),
                _ => *s.pick(WORDS),
            };
            put(b, at, w)
        }
        Mark::Number(ns) => {
            let d = *s.pick(&ns) as u32;
            let w = match s.below(4) {
                0 => d.wrapping_add(1),
                1 => d.wrapping_add(1 << s.below(32)),
                2 => d & 0xff,
                _ => *s.pick(WORDS),
            };
            put(b, at, w)
        }
        Mark::Char => {
            let w = match s.below(4) {
                0 => 0xd800 + s.below(0x800) as u32,
                1 => 0x110000 + s.below(4) as u32,
                2 => *s.pick(WORDS),
                _ => 1 << s.below(32),
            };
            put(b, at, w)
        }
        Mark::Text(n) => {
            let i = at + s.usize(n);
            if i < b.len() {
                b[i] = *s.pick(&[0xff, 0xc0, 0x80, 0xfe, 0xed, 0xf8, 0xc3, 0xe3, 0xf5, 0xa0]);
            }
        }
    }
}

// ------------------------------------------------------------------ C04

fn corrupt(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &HOSTILE);
    let (e, marks) = ref_encode_marks(&t, &v);
    note_case(cx, &t, &v);
    let mut b = e.clone();
    if !marks.is_empty() && s.chance(3, 4) {
        target(s, &mut b, &marks);
    } else {
        b = hostile_bytes(s, &e, &marks);
    }
    let t = Rc::new(t);
    let (want, gray) = ref_decode(&t, &b);
    cx.note(|| format!("input {} reads as {} gray={gray}", clip(&hex(&b), 300), clip(&format!("{want:?}"), 200)));
    let got = g("decoding", || decode(&t, &b))?;
    if gray {
        cx.label("tolerated non-canonical input, not judged");
        return Ok(());
    }
    match want {
        Ok(w) => {
            cx.label("still conforming");
            let r = got.map_err(|e| format!("conforming octets {} were refused: {e:?}", clip(&hex(&b), 400)))?;
            ensure!(r == w, "decoding {} gave {r:?} instead of {w:?}", clip(&hex(&b), 400));
        }
        Err(rej) => {
            cx.nontrivial = true;
            cx.key(&(&*t, &b));
            cx.label(match rej {
                Rej::Short => "length exceeds what remains",
                Rej::Utf8 => "not UTF-8",
                Rej::Char => "not a scalar value",
                Rej::Discriminant => "undeclared discriminant",
                Rej::Number => "refused number",
                Rej::Trailing(_) => "trailing octets",
            });
            if let Ok(v) = got {
                return Err(format!("octets {} encode no value ({rej:?}) but were decoded to {}", clip(&hex(&b), 400), clip(&format!("{v:?}"), 300)));
            }
        }
    }
    Ok(())
}
/// Real derived and std types with one bad field.
fn corrupt_real(s: &mut Src, cx: &mut Cx) -> Outcome {
    fn no<T: serde::de::DeserializeOwned + std::fmt::Debug>(cx: &mut Cx, b: Vec<u8>) -> Outcome {
        cx.note(|| format!("{} from {}", std::any::type_name::<T>(), hex(&b)));
        cx.key(&(std::any::type_name::<T>(), &b));
        cx.nontrivial = true;
        match g("decoding", || from_bytes::<T>(&b))? {
            Ok(v) => Err(format!("{} encodes no {} but was decoded to {v:?}", hex(&b), std::any::type_name::<T>())),
            Err(_) => Ok(()),
        }
    }
    fn w(x: u32) -> Vec<u8> {
        x.to_be_bytes().to_vec()
    }
    fn cat(v: &[&[u8]]) -> Vec<u8> {
        v.concat()
    }
    let big = |s: &mut Src, n: u32| match s.below(4) {
        0 => n + s.below(5) as u32,
        1 => (1u32 << s.below(32)).max(n),
        2 => 0x8000_0000 | s.below(400) as u32,
        _ => (s.u64() as u32).max(n),
    };
    let bad_utf8: &[u8] = s.pick(&[&[0xff, 0, 0, 0][..], &[0x61, 0xc3, 0, 0], &[0xed, 0xa0, 0x80, 0], &[0xc0, 0x80, 0, 0], &[0xf4, 0x90, 0x80, 0x80], &[0x80, 0, 0, 0]]);
    let bad_char = if s.bool() { 0xd800 + s.below(0x800) as u32 } else { (s.u64() as u32).max(0x110000) };
    match s.below(12) {
        0 => no::<Wide>(cx, w(big(s, 300))),
        1 => no::<Option<Wide>>(cx, cat(&[&w(1), &w(big(s, 300))])),
        2 => {
            let d = big(s, 10);
            let n = s.usize(6) * 4;
            let tail = gen_bytes(s, n);
            no::<Mixed>(cx, cat(&[&w(d), &tail]))
        }
        3 => no::<Result<u32, u32>>(cx, cat(&[&w(big(s, 2)), &w(0)])),
        4 => no::<std::ops::Bound<u32>>(cx, cat(&[&w(big(s, 3)), &w(0)])),
        5 => no::<String>(cx, cat(&[&w(if bad_utf8.len() > 3 && bad_utf8[3] != 0 { 4 } else { 2 + (bad_utf8[2] != 0) as u32 }), bad_utf8])),
        6 => no::<BTreeMap<String, u8>>(cx, cat(&[&w(1), &w(3), bad_utf8, &w(0)])),
        7 => no::<char>(cx, w(bad_char)),
        8 => no::<(u8, Vec<char>)>(cx, cat(&[&w(1), &w(2), &w(65), &w(bad_char)])),
        9 => no::<Vec<u32>>(cx, cat(&[&w(big(s, 3)), &w(1), &w(2)])),
        10 => no::<String>(cx, cat(&[&w(big(s, 9)), b"abcdefgh"])),
        _ => no::<Vec<Wide>>(cx, cat(&[&w(2), &w(299), &w(big(s, 300))])),
    }
}

// ------------------------------------------------------------------ C05

const MEM_CONST: usize = 16 << 20;
/// In-memory size of the biggest zoo element per encoded octet, with room for doubling growth.
const MEM_FACTOR: usize = 256;

fn bounded<R>(b: &[u8], f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, peak, max) = metered(|| guard(f));
    let r = r.map_err(|m| format!("decoding {} panicked: {m}", clip(&hex(b), 400)))?;
    let limit = MEM_CONST + MEM_FACTOR * b.len();
    ensure!(peak <= limit && max <= limit, "decoding {} octets {} requested {peak} bytes (largest request {max}), more than {limit}", b.len(), clip(&hex(b), 200));
    Ok(r)
}
fn dyn_hostile(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &HOSTILE);
    note_case(cx, &t, &v);
    let (e, marks) = ref_encode_marks(&t, &v);
    let b = hostile_bytes(s, &e, &marks);
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    cx.nontrivial = b.len() >= 4;
    cx.key(&(&t, &b));
    let t = Rc::new(t);
    // The interpreter's own values are bulky: judge panics here, memory on the real types.
    let (r, _, max) = metered(|| guard(|| decode(&t, &b)));
    let r = r.map_err(|m| format!("decoding {} panicked: {m}", clip(&hex(&b), 400)))?;
    let limit = MEM_CONST + 4096 * b.len();
    ensure!(max <= limit, "decoding {} octets {} made a request of {max} bytes", b.len(), clip(&hex(&b), 200));
    cx.label(if r.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}
fn zoo_hostile(s: &mut Src, cx: &mut Cx) -> Outcome {
    (pick_zoo(s, cx, false).hostile)(s, cx)
}
/// Claimed lengths and counts far above what is there, for every counted type, after some valid data.
fn claims(s: &mut Src, cx: &mut Cx) -> Outcome {
    let w = match s.below(3) {
        0 => s.u64() as u32,
        1 => 1u32 << s.below(32),
        _ => u32::MAX - s.below(8) as u32,
    };
    let n = if s.chance(1, 10) { 4 * s.usize(5000) } else { s.usize(40) };
    let mut tail = vec![0u8; n];
    if s.bool() && n < 100 {
        tail = gen_bytes(s, n);
    }
    let b = [&w.to_be_bytes()[..], &tail].concat();
    cx.note(|| format!("count {w} then {n} octets"));
    cx.nontrivial = true;
    let k = s.usize(12);
    cx.key(&(k, w, n, &tail));
    fn go<T: serde::de::DeserializeOwned>(b: &[u8]) -> Outcome {
        bounded(b, || from_bytes::<T>(b).is_ok()).map(|_| ()).map_err(|m| format!("{}: {m}", std::any::type_name::<T>()))
    }
    match k {
        0 => go::<String>(&b),
        1 => go::<Vec<u8>>(&b),
        2 => go::<Vec<u64>>(&b),
        3 => go::<Vec<String>>(&b),
        4 => go::<VariableArray>(&b),
        5 => go::<OpqNewV>(&b),
        6 => go::<Vec<VariableArray>>(&b),
        7 => go::<BTreeMap<u32, u32>>(&b),
        8 => go::<HashMap<u32, String>>(&b),
        9 => go::<std::ffi::CString>(&b),
        10 => go::<Vec<Vec<Vec<u16>>>>(&b),
        _ => go::<Option<Vec<[u8; 5]>>>(&[&[0, 0, 0, 1], &b[..]].concat()),
    }
}

// ------------------------------------------------------------------ C06

fn dyn_stable(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &HOSTILE);
    note_case(cx, &t, &v);
    let (e, marks) = ref_encode_marks(&t, &v);
    let mut b = e.clone();
    match s.below(5) {
        0 => {}
        1 => b = hostile_bytes(s, &e, &marks),
        _ => {
            // Corruptions that tend to stay acceptable.
            for _ in 0..1 + s.usize(3) {
                if b.len() >= 4 {
                    let at = s.usize(b.len());
                    if s.bool() {
                        b[at] = s.below(256) as u8
                    } else {
                        put(&mut b, at / 4 * 4, *s.pick(WORDS))
                    }
                }
            }
        }
    }
    let t = Rc::new(t);
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    let (want, gray) = ref_decode(&t, &b);
    let v = match g("decoding", || decode(&t, &b))? {
        Ok(v) => v,
        Err(x) => {
            ensure!(gray || want.is_err(), "conforming octets {} were refused: {x:?}", clip(&hex(&b), 400));
            cx.label("refused");
            return Ok(());
        }
    };
    cx.nontrivial = b.len() >= 8;
    cx.key(&(&*t, &b));
    cx.label(if gray { "accepted non-canonical" } else { "accepted canonical" });
    let c = g("encoding", || to_bytes(&S(&t, &v)))?.map_err(|x| format!("accepted {} but re-encoding failed: {x:?}", clip(&hex(&b), 400)))?;
    ensure!(c.len() == b.len(), "accepted {} octets {}, re-encoded as {} octets {}", b.len(), clip(&hex(&b), 300), c.len(), clip(&hex(&c), 300));
    let w = g("decoding", || decode(&t, &c))?.map_err(|x| format!("the re-encoding {} is refused: {x:?}", clip(&hex(&c), 400)))?;
    ensure!(w == v, "decoding the re-encoding gave {w:?} instead of {v:?}");
    if !gray && want.is_ok() {
        ensure!(c == b, "{}", diff("re-encoding a conforming input", &b, &c));
    }
    Ok(())
}
fn zoo_stable(s: &mut Src, cx: &mut Cx) -> Outcome {
    let e = loop {
        let e = pick_zoo(s, cx, false);
        if !e.merges && !e.picky && e.sized {
            break e;
        }
    };
    (e.stable)(s, cx)
}

// ------------------------------------------------------------------ C07

fn places<'a>(t: &'a Ty, v: &'a mut Val, out: &mut Vec<*mut Val>) {
    out.push(v as *mut Val);
    use Ty::*;
    match (t, v) {
        (Opt(t), Val::Some(v)) => places(t, v, out),
        (Newtype(t), Val::Newtype(v)) => places(t, v, out),
        (Seq(t), Val::List(vs)) => vs.iter_mut().for_each(|v| places(t, v, out)),
        (Tup(ts) | TupStruct(ts) | Struct(_, ts), Val::List(vs)) => ts.iter().zip(vs).for_each(|(t, v)| places(t, v, out)),
        (Map(kt, vt), Val::Map(kv)) => {
            for (k, v) in kv {
                places(kt, k, out);
                places(vt, v, out);
            }
        }
        (Enum(vs), Val::Var(i, p)) => match (&vs[*i].1, &mut **p) {
            (VarTy::New(t), p) => places(t, p, out),
            (VarTy::Tup(ts) | VarTy::Struct(_, ts), Val::List(ps)) => ts.iter().zip(ps).for_each(|(t, v)| places(t, v, out)),
            _ => {}
        },
        _ => {}
    }
}
fn poisoned(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, mut v) = gen_case(s, &PLAIN);
    let huge = |s: &mut Src| {
        let n = match s.below(4) {
            0 => 1u64 << 32,
            1 => (1u64 << 32) + s.below(9),
            2 => 1u64 << (32 + s.below(32)),
            _ => s.u64() | 1 << (32 + s.below(32)),
        };
        n.max(1 << 32)
    };
    let var = |s: &mut Src| (s.u64() as u32 | 0x8000_0000).max(if s.bool() { 0x8000_0000 } else { u32::MAX - s.below(3) as u32 });
    let k = s.below(11);
    let p = match k {
        0 => Poison::Fails,
        1 => Poison::UnknownSeq,
        2 => Poison::UnknownMap,
        3 => Poison::HugeSeq(huge(s)),
        4 => Poison::HugeMap(huge(s)),
        5 => Poison::VarUnit(var(s)),
        6 => Poison::VarNew(var(s)),
        7 => Poison::VarTup(var(s)),
        8 => Poison::VarStruct(var(s)),
        9 => Poison::I128(s.u64() as i128 - 1),
        _ => Poison::U128(s.u64() as u128),
    };
    cx.label(["part fails", "unknown-length seq", "unknown-length map", "seq count > u32::MAX", "map count > u32::MAX", "unit variant > i32::MAX", "newtype variant > i32::MAX", "tuple variant > i32::MAX", "struct variant > i32::MAX", "i128", "u128"][k as usize]);
    let mut ps = vec![];
    places(&t, &mut v, &mut ps);
    let at = s.usize(ps.len());
    cx.label_if(at > 0, "nested");
    // SAFETY: the pointers come from one walk over `v`, which is not touched in between.
    unsafe { *ps[at] = Val::Poison(p) };
    note_case(cx, &t, &v);
    cx.nontrivial = true;
    cx.key(&(&t, &v));
    match g("encoding", || to_bytes(&S(&t, &v)))? {
        Err(_) => Ok(()),
        Ok(b) => Err(format!("a value containing {p:?} was encoded as {}", clip(&hex(&b), 400))),
    }
}
/// Encodable neighbours of the limits: the refusal must not start early.
fn near_limit(s: &mut Src, cx: &mut Cx) -> Outcome {
    let idx = *s.pick(&[0u32, 1, 0x7fff_ffff, 0x7fff_fffe, 0x1_0000, 0xffff, 0x100]);
    let k = s.below(4);
    let vt = match k {
        0 => VarTy::Unit,
        1 => VarTy::New(Ty::U8),
        2 => VarTy::Tup(vec![Ty::U8, Ty::Str]),
        _ => VarTy::Struct(0, vec![Ty::U8]),
    };
    let t = Ty::Enum(vec![(idx, vt)]);
    let v = gen_val(s, &t, &PLAIN, &mut 10);
    enc_check(cx, &t, &v)
}
struct Len(Option<usize>, bool);
impl Serialize for Len {
    fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use ser::{SerializeMap, SerializeSeq};
        if self.1 { z.serialize_map(self.0)?.end() } else { z.serialize_seq(self.0)?.end() }
    }
}
struct Blob<'a>(&'a [u8], bool);
impl Serialize for Blob<'_> {
    fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        if self.1 {
            // SAFETY: the blob is all zero octets, which is UTF-8.
            z.serialize_str(unsafe { std::str::from_utf8_unchecked(self.0) })
        } else {
            z.serialize_bytes(self.0)
        }
    }
}
/// Counts at and above the limit, and a real string and byte string of 4 GiB (untouched zero pages).
fn limits(_cfg: &Cfg, rep: &mut Report) {
    let mut fail = |m: String| {
        rep.violations.push(Violation { sub: "limits".into(), message: m, choices: vec![], case: vec![], found_at: "fixed list".into(), data: serde_json::json!({}) })
    };
    let mut n = 0;
    for map in [false, true] {
        for c in [u32::MAX as usize, u32::MAX as usize - 1] {
            n += 1;
            match guard(|| to_bytes(&Len(Some(c), map))) {
                Ok(Ok(b)) if b == (c as u32).to_be_bytes() => {}
                r => fail(format!("a count of {c} must be encodable, got {r:?}")),
            }
        }
        for c in [1usize << 32, (1 << 32) + 1, (1 << 33) + 5, 1 << 63, usize::MAX] {
            n += 1;
            if let Ok(Ok(b)) = guard(|| to_bytes(&Len(Some(c), map))) {
                fail(format!("a count of {c} was encoded as {}", hex(&b)));
            }
        }
        n += 1;
        if let Ok(Ok(b)) = guard(|| to_bytes(&Len(None, map))) {
            fail(format!("an unknown length was encoded as {}", hex(&b)));
        }
    }
    let blob = vec![0u8; (1 << 32) + 6];
    for len in [1usize << 32, (1 << 32) + 3] {
        for text in [false, true] {
            n += 1;
            if let Ok(Ok(b)) = guard(|| to_bytes(&Blob(&blob[..len], text))) {
                fail(format!("{} of {len} octets was encoded, starting {}", if text { "a string" } else { "bytes" }, hex(&b[..8])));
            }
        }
    }
    rep.evaluations += n;
    rep.bump("limits/cases", n);
}
fn limits_replay(cfg: &Cfg, _: &serde_json::Value) -> Result<Option<String>, String> {
    let mut rep = Report::default();
    limits(cfg, &mut rep);
    Ok(rep.violations.first().map(|v| v.message.clone()))
}

// ------------------------------------------------------------------ C08, C09

fn has(t: &Ty, f: impl Fn(&Ty) -> bool) -> bool {
    let mut r = false;
    visit(t, &mut |t| r |= f(t));
    r
}
fn all_ways(s: &mut Src, cx: &mut Cx, t: Ty, v: Val) -> Outcome {
    enc_check(cx, &t, &v)?;
    let t = Rc::new(t);
    let labels = std::mem::take(&mut cx.labels);
    dec_check(cx, &t, &v)?;
    cx.labels = labels;
    let e = ref_encode(&t, &v);
    let mut cx2 = Cx::default();
    prefixes(s, &mut cx2, &e, |b| decode(&t, b).map(|v| format!("{v:?}")))
}
fn opq_anywhere(s: &mut Src, cx: &mut Cx) -> Outcome {
    let o = GenOpt { zst: true, opaque: true, signed: false, big: true, deep: true };
    let (t, v) = gen_case(s, &o);
    let is = |t: &Ty| matches!(t, Ty::OpqF(_) | Ty::OpqV | Ty::OpqElem);
    all_ways(s, cx, t.clone(), v)?;
    cx.nontrivial = has(&t, is);
    Ok(())
}
/// One opaque of a chosen length between two neighbours, in every kind of container.
fn opq_placed(s: &mut Src, cx: &mut Cx) -> Outcome {
    let n = s.usize(70);
    let which = s.below(3);
    let o = match which {
        0 => Ty::OpqV,
        1 => Ty::OpqElem,
        _ => Ty::OpqF(*s.pick(&FIXED)),
    };
    let n = if let Ty::OpqF(n) = o { n } else { n };
    let ov = Val::Bytes(gen_bytes(s, n));
    let l = gen_ty(s, 0, &PLAIN);
    let r = gen_ty(s, 0, &PLAIN);
    let lv = gen_val(s, &l, &HOSTILE, &mut 3);
    let rv = gen_val(s, &r, &HOSTILE, &mut 3);
    let (ts, vs) = (vec![l, o.clone(), r], vec![lv, ov.clone(), rv]);
    let (t, v) = match s.below(9) {
        0 => (Ty::Struct(0, ts), Val::List(vs)),
        1 => (Ty::Tup(ts), Val::List(vs)),
        2 => (Ty::TupStruct(ts), Val::List(vs)),
        3 => (Ty::Enum(vec![(3, VarTy::Tup(ts))]), Val::Var(0, Box::new(Val::List(vs)))),
        4 => (Ty::Enum(vec![(3, VarTy::Struct(0, ts))]), Val::Var(0, Box::new(Val::List(vs)))),
        5 => (Ty::Enum(vec![(0, VarTy::New(o))]), Val::Var(0, Box::new(ov))),
        6 => (Ty::Opt(Box::new(o)), Val::Some(Box::new(ov))),
        7 => {
            let k = s.usize(4);
            (Ty::Seq(Box::new(o)), Val::List(vec![ov; k]))
        }
        _ => (Ty::Map(Box::new(Ty::U8), Box::new(o)), Val::Map(vec![(Val::U(1), ov.clone()), (Val::U(2), ov)])),
    };
    all_ways(s, cx, t, v)?;
    cx.nontrivial = n > 0;
    Ok(())
}
fn opq_zoo(s: &mut Src, cx: &mut Cx) -> Outcome {
    let e = s.pick(ZOO_OPAQUE);
    zoo_all(s, cx, e)
}
fn zoo_all(s: &mut Src, cx: &mut Cx, e: &Entry) -> Outcome {
    match s.below(3) {
        0 => (e.encode)(s, cx),
        1 => (e.decode)(s, cx),
        _ => (e.prefix)(s, cx),
    }
}
fn opq_corrupt(s: &mut Src, cx: &mut Cx) -> Outcome {
    let o = GenOpt { zst: false, opaque: true, signed: false, big: false, deep: false };
    let (t, v) = gen_case(s, &o);
    note_case(cx, &t, &v);
    let (e, marks) = ref_encode_marks(&t, &v);
    let b = hostile_bytes(s, &e, &marks);
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    let t = Rc::new(t);
    let (want, gray) = ref_decode(&t, &b);
    let got = g("decoding", || decode(&t, &b))?;
    if gray {
        return Ok(());
    }
    cx.nontrivial = has(&t, |t| matches!(t, Ty::OpqF(_) | Ty::OpqV | Ty::OpqElem));
    match (want, got) {
        (Ok(w), Ok(r)) if w == r => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (w, r) => Err(format!("decoding {} gave {} instead of {}", clip(&hex(&b), 400), clip(&format!("{r:?}"), 300), clip(&format!("{w:?}"), 300))),
    }
}
fn num_anywhere(s: &mut Src, cx: &mut Cx) -> Outcome {
    let o = GenOpt { zst: true, opaque: false, signed: true, big: false, deep: false };
    let (t, v) = gen_case(s, &o);
    all_ways(s, cx, t.clone(), v)?;
    cx.nontrivial = has(&t, |t| matches!(t, Ty::Signed(_)));
    Ok(())
}
fn num_single(s: &mut Src, cx: &mut Cx) -> Outcome {
    let t = gen_signed(s);
    let Ty::Signed(ns) = &t else { unreachable!() };
    let ns = ns.clone();
    let i = s.usize(ns.len());
    cx.label_if(ns[i] < 0, "negative");
    cx.label_if(ns[i] == i32::MIN || ns[i] == i32::MAX, "extreme");
    all_ways(s, cx, t.clone(), Val::Signed(i))?;
    // A refused number.
    let d = match s.below(3) {
        0 => ns[i].wrapping_add(1),
        1 => ns[i].wrapping_add(1 << s.below(32)),
        _ => s.u64() as i32,
    };
    cx.key(&(&ns, i, d));
    cx.nontrivial = true;
    if !ns.contains(&d) {
        cx.label("refused number");
        let b = d.to_be_bytes();
        if let Ok(v) = g("decoding", || decode(&Rc::new(t), &b))? {
            return Err(format!("number {d} is not among {ns:?} but was decoded to {v:?}"));
        }
    }
    Ok(())
}
fn num_zoo(s: &mut Src, cx: &mut Cx) -> Outcome {
    let e = s.pick(ZOO_NUM);
    zoo_all(s, cx, e)
}
fn num_zoo_bad(s: &mut Src, cx: &mut Cx) -> Outcome {
    let d = match s.below(3) {
        0 => s.int(32) as i32,
        1 => s.below(8) as i32,
        _ => s.u64() as i32,
    };
    cx.note(|| format!("number {d}"));
    cx.key(&d);
    cx.nontrivial = true;
    let want = Extreme::ALL.iter().find(|x| x.number() == d);
    let got = g("decoding", || from_bytes::<NumNew>(&d.to_be_bytes()))?;
    match (want, got) {
        (Some(w), Ok(x)) if x.0 == *w => Ok(()),
        (None, Err(_)) => Ok(()),
        (w, r) => Err(format!("number {d}: expected {w:?}, got {r:?}")),
    }
}

// ------------------------------------------------------------------ C12

fn parts<'a>(t: &'a Ty, v: &'a Val) -> Option<(Vec<u8>, Vec<(&'a Ty, &'a Val)>)> {
    use Ty::*;
    let w = |x: usize| (x as u32).to_be_bytes().to_vec();
    Some(match (t, v) {
        (Opt(_), Val::None) => (w(0), vec![]),
        (Opt(t), Val::Some(v)) => (w(1), vec![(&**t, &**v)]),
        (Seq(t), Val::List(vs)) => (w(vs.len()), vs.iter().map(|v| (&**t, v)).collect()),
        (Tup(ts) | TupStruct(ts) | Struct(_, ts), Val::List(vs)) => (vec![], ts.iter().zip(vs).collect()),
        (Newtype(t), Val::Newtype(v)) => (vec![], vec![(&**t, &**v)]),
        (Map(kt, vt), Val::Map(kv)) => (w(kv.len()), kv.iter().flat_map(|(k, v)| [(&**kt, k), (&**vt, v)]).collect()),
        (Enum(vs), Val::Var(i, p)) => (
            w(vs[*i].0 as usize),
            match (&vs[*i].1, &**p) {
                (VarTy::New(t), p) => vec![(t, p)],
                (VarTy::Tup(ts) | VarTy::Struct(_, ts), Val::List(ps)) => ts.iter().zip(ps).collect(),
                _ => vec![],
            },
        ),
        _ => return None,
    })
}
/// Compared with the encodings of the parts, taken on their own (no reference encoder involved).
fn compose(s: &mut Src, cx: &mut Cx) -> Outcome {
    let d = 1 + s.usize(4);
    let t = loop {
        let t = gen_ty(s, d, &PLAIN);
        if s.rec.len() > 400 || depth(&t) > 1 {
            break t;
        }
    };
    let v = gen_val(s, &t, &PLAIN, &mut 40);
    note_case(cx, &t, &v);
    fn check(t: &Ty, v: &Val, n: &mut usize) -> Result<Vec<u8>, String> {
        let whole = encode(t, v)?;
        if let Some((head, ps)) = parts(t, v) {
            let mut want = head;
            for (t, v) in ps {
                *n += 1;
                want.extend(check(t, v, n)?);
            }
            ensure!(want == whole, "{} for {}", diff("concatenation of the parts' encodings", &want, &whole), clip(&format!("{t:?}"), 200));
        }
        Ok(whole)
    }
    let mut n = 0;
    let b = check(&t, &v, &mut n)?;
    weigh(cx, &t, &b);
    cx.nontrivial = n >= 2;
    Ok(())
}
/// The same part after different neighbours, under different names and wrappers.
fn context(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &PLAIN);
    let (lt, lv) = {
        let t = gen_ty(s, 1, &PLAIN);
        let v = gen_val(s, &t, &HOSTILE, &mut 5);
        (t, v)
    };
    note_case(cx, &t, &v);
    let alone = encode(&t, &v)?;
    let left = encode(&lt, &lv)?;
    weigh(cx, &t, &alone);
    cx.nontrivial = !alone.is_empty() && !left.is_empty();
    let x = S(&t, &v);
    let l = S(&lt, &lv);
    macro_rules! same {
        ($what:expr, $e:expr, $($p:expr),*) => {{
            let got = g("encoding", || to_bytes(&$e))?.map_err(|e| format!("encoding inside {} failed: {e:?}", $what))?;
            let want: Vec<u8> = [$(&$p[..]),*].concat();
            ensure!(got == want, "{}", diff(&format!("inside {}", $what), &want, &got));
        }};
    }
    #[derive(serde::Serialize)]
    struct A<'a, T>(&'a T);
    #[derive(serde::Serialize)]
    struct B<'a, T> {
        only: &'a T,
    }
    #[derive(serde::Serialize)]
    #[serde(rename = "something_else")]
    struct C<'a, T, U> {
        #[serde(rename = "zz")]
        first: &'a U,
        r#type: &'a T,
    }
    #[derive(serde::Serialize)]
    enum D<'a, T, U> {
        X(&'a T),
        #[serde(rename = "qq")]
        Y(&'a U, &'a T),
        Z {
            a: &'a T,
            b: &'a U,
        },
    }
    let one = [0u8, 0, 0, 1];
    let two = [0u8, 0, 0, 2];
    let zero = [0u8; 4];
    same!("a reference", &&x, alone);
    same!("a box", Box::new(&x), alone);
    same!("a Rc-like wrapper", std::borrow::Cow::Borrowed(&Blob2(&x)), alone);
    same!("a newtype", A(&x), alone);
    same!("a one-field struct", B { only: &x }, alone);
    same!("a tuple", (&l, &x), left, alone);
    same!("a tuple (first)", (&x, &l), alone, left);
    same!("a renamed struct", C { first: &l, r#type: &x }, left, alone);
    same!("Some", Some(&x), one, alone);
    same!("a list", vec![&x, &x], two, alone, alone);
    same!("a slice", &[&x][..], one, alone);
    same!("an array", [&x, &x], alone, alone);
    same!("a newtype variant", D::<S, S>::X(&x), zero, alone);
    same!("a tuple variant", D::Y(&l, &x), one, left, alone);
    same!("a struct variant", D::Z { a: &x, b: &l }, two, alone, left);
    same!("a map value", BTreeMap::from([(7u8, &x)]), one, [0, 0, 0, 7], alone);
    same!("nested wrappers", A(&A(&B { only: &Box::new(&x) })), alone);
    same!("a result", Ok::<_, ()>(&x), zero, alone);
    Ok(())
}
struct Blob2<'a>(&'a S<'a>);
impl Serialize for Blob2<'_> {
    fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.0.serialize(z)
    }
}
impl Clone for Blob2<'_> {
    fn clone(&self) -> Self {
        Blob2(self.0)
    }
}
/// Changing only names, newtype layers and struct-versus-tuple spelling of the schema.
fn rename(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (t, v) = gen_case(s, &PLAIN);
    note_case(cx, &t, &v);
    let (t2, v2) = respell(s, &t, &v);
    let a = encode(&t, &v)?;
    let b = encode_as(&t2, &v2, s.u64())?;
    weigh(cx, &t, &a);
    cx.nontrivial = t2 != t && a.len() >= 4;
    cx.note(|| clip(&format!("respelled {t2:?}"), 400));
    ensure!(a == b, "{}", diff("respelled type", &a, &b));
    Ok(())
}
fn respell(s: &mut Src, t: &Ty, v: &Val) -> (Ty, Val) {
    use Ty::*;
    fn many(s: &mut Src, ts: &[Ty], vs: &[Val]) -> (Vec<Ty>, Vec<Val>) {
        ts.iter().zip(vs).map(|(t, v)| respell(s, t, v)).unzip()
    }
    let (t, v) = match (t, v) {
        (Tup(ts) | TupStruct(ts) | Struct(_, ts), Val::List(vs)) => {
            let (ts, vs) = many(s, ts, vs);
            let t = match s.below(3) {
                0 => Tup(ts),
                1 => TupStruct(ts),
                _ => Struct(s.usize(72), ts),
            };
            (t, Val::List(vs))
        }
        (Newtype(t), Val::Newtype(v)) => {
            if s.bool() {
                return respell(s, t, v);
            }
            let (t, v) = respell(s, t, v);
            (Newtype(Box::new(t)), Val::Newtype(Box::new(v)))
        }
        (Opt(t), Val::Some(v)) => {
            let (t, v) = respell(s, t, v);
            (Opt(Box::new(t)), Val::Some(Box::new(v)))
        }
        (Unit, Val::Unit) => (UnitStruct, Val::Unit),
        (UnitStruct, Val::Unit) => (Unit, Val::Unit),
        (Enum(vs), Val::Var(i, p)) => {
            let (idx, vt) = &vs[*i];
            let (nt, p) = match (vt, &**p) {
                (VarTy::New(t), p) => {
                    let (t, p) = respell(s, t, p);
                    match s.below(3) {
                        0 => (VarTy::New(t), p),
                        1 => (VarTy::Tup(vec![t]), Val::List(vec![p])),
                        _ => (VarTy::Struct(3, vec![t]), Val::List(vec![p])),
                    }
                }
                (VarTy::Tup(ts) | VarTy::Struct(_, ts), Val::List(ps)) => {
                    let (ts, ps) = many(s, ts, ps);
                    (if s.bool() { VarTy::Tup(ts) } else { VarTy::Struct(s.usize(72), ts) }, Val::List(ps))
                }
                (vt, p) => (vt.clone(), p.clone()),
            };
            (Enum(vec![(*idx, nt)]), Val::Var(0, Box::new(p)))
        }
        (t, v) => (t.clone(), v.clone()),
    };
    if s.chance(1, 4) { (Newtype(Box::new(t)), Val::Newtype(Box::new(v))) } else { (t, v) }
}

// ------------------------------------------------------------------ C25

/// Octets for a type: valid, corrupted, or mostly acceptable.
fn some_octets(s: &mut Src, t: &Ty, v: &Val) -> Vec<u8> {
    let (mut b, marks) = ref_encode_marks(t, v);
    match s.below(6) {
        0 | 1 => {}
        2 => b = hostile_bytes(s, &b, &marks),
        3 if !marks.is_empty() => target(s, &mut b, &marks),
        _ => {
            for _ in 0..1 + s.usize(3) {
                if b.len() >= 4 {
                    let at = s.usize(b.len());
                    if s.bool() {
                        b[at] = s.below(256) as u8
                    } else {
                        put(&mut b, at / 4 * 4, *s.pick(WORDS))
                    }
                }
            }
        }
    }
    b
}
#[derive(Debug)]
enum Alone {
    /// Accepted, as this value.
    Value(Val),
    /// Refused for what the octets say, not for where they end.
    Refused(String),
    /// They end too early.
    Short,
}
/// What the octets mean on their own; what follows the first value is cut off.
fn alone(t: &Rc<Ty>, b: &mut Vec<u8>) -> Result<Alone, String> {
    let mut r = g("decoding", || decode(t, b))?;
    if let Err(Error::TrailingData(n)) = r {
        ensure!(n > 0 && n <= b.len(), "decoding {} reports {n} trailing octets", clip(&hex(b), 300));
        b.truncate(b.len() - n);
        r = g("decoding", || decode(t, b))?;
        if let Err(e) = &r {
            return Err(format!("all but the first {} octets were reported as trailing data, yet {} is refused: {e:?}", b.len(), clip(&hex(b), 300)));
        }
    }
    Ok(match r {
        Ok(v) => Alone::Value(v),
        Err(Error::NotEnoughData(_)) => Alone::Short,
        Err(e) => Alone::Refused(format!("{e:?}")),
    })
}
fn dec_context(s: &mut Src, cx: &mut Cx) -> Outcome {
    let o = if s.chance(1, 4) { GenOpt { zst: false, opaque: true, signed: true, big: false, deep: false } } else { HOSTILE };
    let (t, v) = gen_case(s, &o);
    let (lt, lv) = {
        let t = gen_ty(s, 1, &HOSTILE);
        let v = gen_val(s, &t, &HOSTILE, &mut 5);
        (t, v)
    };
    note_case(cx, &t, &v);
    let mut a = some_octets(s, &t, &v);
    let mut l = some_octets(s, &lt, &lv);
    cx.note(|| format!("octets {} and, as {lt:?}, {}", clip(&hex(&a), 300), clip(&hex(&l), 100)));
    let v2 = gen_val(s, &t, &o, &mut 8);
    let a2 = ref_encode(&t, &v2);
    let (rt, rlt) = (Rc::new(t.clone()), Rc::new(lt.clone()));
    let x = alone(&rt, &mut a)?;
    let y = alone(&rlt, &mut l)?;
    let z = match alone(&rt, &mut a2.clone())? {
        Alone::Value(v) => v,
        e => return Err(format!("conforming octets {} were refused: {e:?}", clip(&hex(&a2), 400))),
    };
    cx.key(&(&t, &lt, &a, &l));
    cx.nontrivial = a.len() + l.len() >= 8 && !matches!(x, Alone::Short);
    cx.label(match (&x, &y) {
        (Alone::Value(_), Alone::Value(_)) => "both accepted",
        (Alone::Refused(_), _) => "refused",
        (_, Alone::Refused(_)) => "neighbour refused",
        _ => "cut short",
    });
    let w = |n: u32| n.to_be_bytes().to_vec();
    let bx = |t: &Ty| Box::new(t.clone());
    // In each context: octets before, the parts in order, octets after nothing.
    let pick = |what: &str, ct: Ty, parts: &[(&[u8], &Alone)], head: Vec<u8>, mk: &dyn Fn(Vec<Val>) -> Val| -> Outcome {
        let mut b = head;
        let mut vs = vec![];
        let mut refused = None;
        for (p, r) in parts {
            b.extend(*p);
            match r {
                Alone::Value(v) => vs.push(v.clone()),
                Alone::Refused(e) => {
                    refused = Some(e.clone());
                    break;
                }
                // Whatever follows may be read as what is missing.
                Alone::Short => return Ok(()),
            }
        }
        let got = g(&format!("decoding inside {what}"), || decode(&Rc::new(ct.clone()), &b))?;
        match (refused, got) {
            (Some(_), Err(_)) => Ok(()),
            (Some(e), Ok(v)) => Err(format!("octets refused on their own ({e}) were accepted inside {what}: {} gave {}", clip(&hex(&b), 300), clip(&format!("{v:?}"), 300))),
            (None, Err(e)) => Err(format!("octets accepted on their own were refused inside {what}: {} gave {e:?}", clip(&hex(&b), 300))),
            (None, Ok(v)) => {
                let want = mk(vs);
                ensure!(v == want, "inside {what} {} gave {} instead of {}", clip(&hex(&b), 300), clip(&format!("{v:?}"), 300), clip(&format!("{want:?}"), 300));
                Ok(())
            }
        }
    };
    let z = Alone::Value(z);
    let (pa, pl, pz): ((&[u8], &Alone), (&[u8], &Alone), (&[u8], &Alone)) = ((&a, &x), (&l, &y), (&a2, &z));
    let one = |vs: Vec<Val>| vs.into_iter().next().unwrap();
    pick("a tuple", Ty::Tup(vec![t.clone(), lt.clone()]), &[pa, pl], vec![], &Val::List)?;
    pick("a tuple (last)", Ty::Tup(vec![lt.clone(), t.clone()]), &[pl, pa], vec![], &Val::List)?;
    pick("a tuple struct", Ty::TupStruct(vec![t.clone(), lt.clone(), t.clone()]), &[pz, pl, pa], vec![], &Val::List)?;
    pick("a struct", Ty::Struct(3, vec![t.clone(), t.clone(), lt.clone()]), &[pa, pz, pl], vec![], &Val::List)?;
    pick("a newtype", Ty::Newtype(bx(&t)), &[pa], vec![], &|v| Val::Newtype(Box::new(one(v))))?;
    pick("Some", Ty::Opt(bx(&t)), &[pa], w(1), &|v| Val::Some(Box::new(one(v))))?;
    pick("a newtype variant", Ty::Enum(vec![(0, VarTy::Unit), (1, VarTy::New(t.clone()))]), &[pa], w(1), &|v| Val::Var(1, Box::new(one(v))))?;
    pick("a tuple variant", Ty::Enum(vec![(0, VarTy::Tup(vec![lt.clone(), t.clone()]))]), &[pl, pa], w(0), &|v| Val::Var(0, Box::new(Val::List(v))))?;
    pick(
        "a struct variant",
        Ty::Enum(vec![(0, VarTy::Unit), (1, VarTy::Unit), (2, VarTy::Struct(5, vec![t.clone(), lt.clone()]))]),
        &[pa, pl],
        w(2),
        &|v| Val::Var(2, Box::new(Val::List(v))),
    )?;
    if min_size(&t) > 0 {
        pick("a list", Ty::Seq(bx(&t)), &[pa, pz, pa], w(3), &Val::List)?;
        pick("a list (last)", Ty::Seq(bx(&t)), &[pz, pz, pz, pa], w(4), &Val::List)?;
        pick("lists of lists", Ty::Seq(Box::new(Ty::Seq(bx(&t)))), &[pa], [w(1), w(1)].concat(), &|v| Val::List(vec![Val::List(v)]))?;
        pick("a map value", Ty::Map(Box::new(Ty::Unit), bx(&t)), &[pa, pz], w(2), &|v| Val::Map(v.into_iter().map(|v| (Val::Unit, v)).collect()))?;
        if min_size(&lt) > 0 {
            pick("a map", Ty::Map(bx(&t), bx(&lt)), &[pa, pl, pz, pl], w(2), &|v| Val::Map(v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()))?;
        }
    }
    Ok(())
}
#[derive(Debug, serde::Deserialize)]
enum Arm<T> {
    None,
    New(T),
    Pair(u8, T),
    Fields { text: String, it: T },
}
#[derive(Debug, serde::Deserialize)]
struct Around<T> {
    before: u16,
    it: T,
    maybe: Option<Box<T>>,
    two: (T, bool),
    arms: [Arm<T>; 4],
    after: i64,
}
#[derive(Debug, serde::Deserialize)]
struct Wrap<T>(T);
fn z_context<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (v, e) = z_make::<T>(s, cx);
    let mut b = if s.chance(1, 3) { e.clone() } else { hostile_bytes(s, &e, &[]) };
    cx.note(|| format!("input {}", clip(&hex(&b), 400)));
    let mut r = g("decoding", || from_bytes::<T>(&b))?;
    if let Err(Error::TrailingData(n)) = r {
        ensure!(n > 0 && n <= b.len(), "{n} trailing octets reported");
        b.truncate(b.len() - n);
        r = g("decoding", || from_bytes::<T>(&b))?;
        ensure!(r.is_ok(), "{n} octets were reported as trailing, yet without them {} is refused", clip(&hex(&b), 300));
    }
    cx.key(&(std::any::type_name::<T>(), &b));
    cx.nontrivial = b.len() >= 4;
    let w = |x: u32| x.to_be_bytes();
    let text = [0, 0, 0, 5, b'n', b'i', b'x', b'e', b'd', 0, 0, 0];
    let whole = [
        &w(513)[..], &b, &w(1), &e, &b, &w(1), &w(1), &e, &w(2), &w(255), &b, &w(3), &text, &e, &w(0), &[255, 255, 255, 255, 255, 255, 255, 254],
    ]
    .concat();
    // before, it, maybe, two, arms, after
    let got = g("decoding inside a struct", || from_bytes::<Around<T>>(&whole))?;
    match r {
        Ok(x) => {
            let a = got.map_err(|m| format!("{} is accepted on its own but not inside a struct: {m:?}", clip(&hex(&b), 300)))?;
            let ok = |y: &T, z: &T| y.same(z);
            let [Arm::New(n1), Arm::Pair(255, n2), Arm::Fields { text: tx, it: n3 }, Arm::None] = &a.arms else {
                return Err(format!("arms decoded to {:?}", a.arms));
            };
            ensure!(a.before == 513 && a.after == -2 && a.two.1 && tx == "nixed", "neighbours of {} decoded to {a:?}", clip(&hex(&b), 300));
            ensure!(ok(&a.it, &x) && ok(&a.two.0, &x) && ok(n2, &x), "inside a struct {} decoded to {a:?} instead of {x:?}", clip(&hex(&b), 300));
            ensure!(a.maybe.as_ref().is_some_and(|m| ok(m, &v)) && ok(n1, &v) && ok(n3, &v), "neighbours {v:?} decoded to {a:?}");
            let l = g("decoding a list", || from_bytes::<(Wrap<T>, Vec<Wrap<T>>, u32)>(&[&b[..], &w(3), &e, &b, &e, &w(77)].concat()))?
                .map_err(|m| format!("{} is accepted on its own but not in a list: {m:?}", clip(&hex(&b), 300)))?;
            ensure!(ok(&l.0.0, &x) && l.1.len() == 3 && ok(&l.1[1].0, &x) && ok(&l.1[0].0, &v) && ok(&l.1[2].0, &v) && l.2 == 77, "in a list {} decoded to {l:?}", clip(&hex(&b), 300));
            cx.label("accepted");
        }
        Err(Error::NotEnoughData(_)) => cx.label("cut short"),
        Err(e) => {
            cx.label("refused");
            if let Ok(a) = got {
                return Err(format!("{} is refused on its own ({e:?}) but accepted inside a struct: {a:?}", clip(&hex(&b), 300)));
            }
        }
    }
    Ok(())
}
fn zoo_context(s: &mut Src, cx: &mut Cx) -> Outcome {
    let e = s.pick(ZOO);
    cx.note(|| e.name.to_string());
    (e.context)(s, cx)
}

// ------------------------------------------------------------------ C27

/// Feeds a decoder as many more octets as it asks for until it has enough.
fn feed(cx: &mut Cx, e: &[u8], start: usize, dec: impl Fn(&[u8]) -> Result<bool, Error>) -> Outcome {
    let head = || clip(&hex(e), 300);
    let mut have = start;
    let mut rounds = 0;
    loop {
        match g(&format!("decoding the first {have} of {} octets of {}", e.len(), head()), || dec(&e[..have]))? {
            Ok(same) => {
                ensure!(have == e.len(), "the first {have} of {} octets of {} were decoded", e.len(), head());
                ensure!(same, "{} was decoded to another value", head());
                break;
            }
            Err(Error::NotEnoughData(n)) => {
                ensure!(n > 0, "with {have} of {} octets of {}: 0 octets reported missing", e.len(), head());
                ensure!(have + n <= e.len(), "with {have} of {} octets of {}: {n} octets reported missing", e.len(), head());
                have += n;
                rounds += 1;
            }
            Err(x) => return Err(format!("with {have} of {} octets of {}: {x:?} instead of a number of missing octets", e.len(), head())),
        }
    }
    cx.label_if(rounds >= 5, "asked for more >= 5 times");
    Ok(())
}
fn starts(s: &mut Src, n: usize) -> Vec<usize> {
    // Each round decodes anew, so that long encodings are only taken up towards their end.
    match n {
        0..=16 => (0..=n).collect(),
        17..=1000 => [0, n - 1, n - 2, n - 3, n - 4].into_iter().chain((0..5).map(|_| s.usize(n))).collect(),
        _ => [n - 1, n - 2, n - 3, n - 4].into_iter().chain((0..6).map(|_| n - s.usize(150))).collect(),
    }
}
fn dyn_feed(s: &mut Src, cx: &mut Cx) -> Outcome {
    let o = if s.chance(1, 4) { GenOpt { zst: true, opaque: true, signed: true, big: false, deep: false } } else { PLAIN };
    let (t, v) = gen_case(s, &o);
    note_case(cx, &t, &v);
    let e = ref_encode(&t, &v);
    weigh(cx, &t, &e);
    let t = Rc::new(t);
    for n in starts(s, e.len()) {
        feed(cx, &e, n, |b| decode(&t, b).map(|r| r == v))?;
    }
    Ok(())
}
fn z_feed<T: Zoo>(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (v, e) = z_make::<T>(s, cx);
    for n in starts(s, e.len()) {
        feed(cx, &e, n, |b| from_bytes::<T>(b).map(|r| r.same(&v)))?;
    }
    Ok(())
}
fn zoo_feed(s: &mut Src, cx: &mut Cx) -> Outcome {
    (pick_zoo(s, cx, true).feed)(s, cx)
}

// ------------------------------------------------------------------ registry

macro_rules! subs {
    ($($n:ident: $q:literal / $t:literal),* $(,)?) => { vec![$(Sub { name: stringify!($n), prop: |s, cx| { disturb_from(s); $n(s, cx) }, quick: $q, thorough: $t }),*] };
}
const MODEL: &str = "The reference encoder/decoder in codec/src/model.rs is a correct reading of RFC 4506 and the README table.";
const SERDE: &str = "serde and serde_derive behave as documented.";

pub fn all() -> Vec<Check> {
    let c = |id, rule, subs| Check { id, rule, assumptions: &[MODEL, SERDE], subs, extra: None, extra_replay: None };
    vec![
        c("C01", "random schema (nesting up to 5) x random value, and ~130 real types, encoded and compared with an independent RFC 4506 encoder; non-trivial: the encoding has at least 8 octets; distinct by (type, octets)",
          subs![dyn_encode: 960000 / 6000000, zoo_encode: 960000 / 4000000, enc_sweep: 480000 / 2000000, enc_long: 300 / 3000, enc_history: 400 / 8000]),
        c("C02", "random schema x random value, and ~130 real types, decoded from the independent encoder's octets and from the library's own; non-trivial: at least 8 octets (std_roundtrip: every address); distinct by (type, octets)",
          subs![dyn_decode: 960000 / 6000000, zoo_decode: 960000 / 4000000, std_roundtrip: 80000 / 500000, dec_long: 200 / 3000, dec_history: 600 / 8000]),
        c("C03", "every proper prefix (a sample of 51 above 96 octets) and one over-long extension of a valid encoding; non-trivial: the encoding has at least 8 octets; distinct by (type, octets)",
          subs![dyn_prefix: 300000 / 3000000, zoo_prefix: 300000 / 2000000]),
        c("C04", "a valid encoding with a known length, discriminant, character, text or arbitrary octet corrupted, classified by the independent decoder; non-trivial: the independent decoder says the octets encode no value; distinct by (type, octets)",
          subs![corrupt: 1600000 / 8000000, corrupt_real: 320000 / 1000000]),
        c("C05", "corrupted encodings, random words and absurd length claims decoded under a counting allocator; non-trivial: at least 4 octets of input; distinct by (type, octets)",
          subs![claims: 240000 / 600000, zoo_hostile: 1200000 / 6000000, dyn_hostile: 1200000 / 6000000]),
        c("C06", "conforming and corrupted encodings; whatever decodes is re-encoded and decoded again; non-trivial: accepted and at least 8 octets; distinct by (type, octets)",
          subs![dyn_stable: 1600000 / 8000000, zoo_stable: 800000 / 4000000]),
        Check { extra: Some(limits), extra_replay: Some(limits_replay),
          ..c("C07", "random value with one unencodable part planted at a random depth; limits: fixed counts around 2^32 and real 4 GiB strings; non-trivial: every planted case; distinct by (type, value)",
          subs![poisoned: 960000 / 5000000, near_limit: 40000 / 100000]) },
        c("C08", "random types made of opaque data, one opaque of chosen length in every container, and derived types with the helper attributes: encoded, decoded, truncated, extended, corrupted; non-trivial: opaque data is present (placed: non-empty); distinct by (type, octets)",
          subs![opq_long: 300 / 4000, opq_anywhere: 120000 / 2000000, opq_placed: 120000 / 3000000, opq_zoo: 120000 / 3000000, opq_corrupt: 120000 / 2000000]),
        c("C09", "random number assignments (boundary-weighted) alone, nested in random types and in derived types, with declared and refused numbers; non-trivial: a numbered field is present; distinct by (type, octets, number)",
          subs![num_single: 480000 / 3000000, num_anywhere: 320000 / 2000000, num_zoo: 320000 / 2000000, num_zoo_bad: 320000 / 1000000]),
        c("C12", "composite values compared with the concatenation of their parts' own encodings, the same value in 18 contexts, and the same value under a respelled type; non-trivial: at least two parts (compose), non-empty value and neighbour (context), a changed type (rename); distinct by (type, octets)",
          subs![compose: 480000 / 3000000, context: 320000 / 2000000, rename: 480000 / 3000000]),
        c("C25", "valid, corrupted and mostly acceptable octets decoded on their own and inside up to 14 contexts of a random schema, and inside a derived struct for ~130 real types; non-trivial: the octets on their own are accepted or refused for what they say, at least 8 octets with the neighbour's (4 for real types); distinct by (types, octets)",
          subs![dec_context: 320000 / 3000000, zoo_context: 240000 / 2000000]),
        c("C27", "a valid encoding handed over from several starting lengths, then as many more octets as the error asks for, until it decodes; non-trivial: the encoding has at least 8 octets; distinct by (type, octets)",
          subs![dyn_feed: 120000 / 1500000, zoo_feed: 60000 / 800000]),
    ]
}
