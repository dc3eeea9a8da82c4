//! Run-time schemas over the serde data model, values of them, an independent RFC 4506 encoder and
//! decoder, and Serialize/Deserialize implementations that interpret a schema.
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant,
};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;
use std::sync::OnceLock;
use vhcore::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tup(Vec<Ty>),
    TupStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    Struct(usize, Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Enum(Vec<(u32, VarTy)>),
    /// opaque::fixed of that length, opaque::variable, opaque::VariableArray
    OpqF(usize),
    OpqV,
    OpqElem,
    /// primitive::signed32 over a type with these numbers
    Signed(Rc<Vec<i32>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum VarTy {
    Unit,
    New(Ty),
    Tup(Vec<Ty>),
    Struct(usize, Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Val>),
    /// Seq, Tup, TupStruct, Struct
    List(Vec<Val>),
    Newtype(Box<Val>),
    Map(Vec<(Val, Val)>),
    /// position among the declared variants, payload (Unit, one value, or List)
    Var(usize, Box<Val>),
    /// position in the number list
    Signed(usize),
    Poison(Poison),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Poison {
    Fails,
    UnknownSeq,
    UnknownMap,
    HugeSeq(u64),
    HugeMap(u64),
    VarUnit(u32),
    VarNew(u32),
    VarTup(u32),
    VarStruct(u32),
    I128(i128),
    U128(u128),
}

pub const NAMES: [&str; 96] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "type", "r#try", "data", "len", "0",
    "1", "2", "3", "Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "x_y", "x_z", "_q", "__", "aa",
    "bb", "cc", "dd", "ee", "ff", "gg", "hh", "ii", "jj", "kk", "ll",
    // Names which mean something somewhere.
    "Default", "default", "None", "Some", "Ok", "Err", "Void", "void", "Unit", "Opaque", "opaque", "String", "string",
    "VariableArray", "FixedArray", "Bool", "bool", "TRUE", "FALSE", "True", "False", "Case0", "Case1", "_Reserved0",
    "_Reserved1", "value", "discriminant", "index", "tag", "content", "length", "size", "count", "padding", "pad",
    "Duration", "SystemTime", "Result", "Option", "Range", "Vec", "Box", "Enum", "Struct", "Union", "", "$private", "*",
];
pub fn names(off: usize, n: usize) -> &'static [&'static str] {
    static LONG: OnceLock<Vec<&'static str>> = OnceLock::new();
    let all = LONG.get_or_init(|| NAMES.iter().cycle().take(NAMES.len() * 4).copied().collect());
    assert!(n <= 256);
    &all[off % 72..off % 72 + n]
}
/// The names, and the texts which the code under test mentions.
fn any_names() -> &'static [&'static str] {
    static ALL: OnceLock<Vec<&'static str>> = OnceLock::new();
    ALL.get_or_init(|| {
        let more = vhcore::dict::get().words.iter().filter(|w| !w.contains('$') && !w.contains(':'));
        NAMES.iter().copied().chain(more.map(|w| &*w.clone().leak())).collect()
    })
}
thread_local! {
    static NAMING: Cell<u64> = const { Cell::new(0) };
}
/// The names the next encodings are given.
pub fn name_from(seed: u64) {
    NAMING.set(seed);
}
thread_local! {
    static PERIOD: Cell<(u32, u64)> = const { Cell::new((0, 0)) };
    static TICK: Cell<u32> = const { Cell::new(0) };
}
/// From here on the codec is used in between, or not, as the case says: a value may well encode or decode another
/// one while it is encoded or decoded itself, and the attempts before may have failed.
pub fn disturb_from(s: &mut Src) {
    PERIOD.set(if s.chance(1, 8) { (1 + s.usize(12) as u32, s.u64()) } else { (0, 0) });
    TICK.set(0);
    interlude();
}
fn interlude() {
    let (period, kind) = PERIOD.get();
    if period == 0 {
        return;
    }
    let tick = TICK.get();
    TICK.set((tick + 1) % period);
    if tick != 0 {
        return;
    }
    let good = [0, 0, 0, 2, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 1, 0, 0, 0, 1, b'x', 0, 0, 0];
    if kind & 1 != 0 {
        let r = serde_xdr::to_bytes(&(vec![5u16, 6], Some("x")));
        assert!(r.as_ref().is_ok_and(|b| *b == good), "encoding another value in between gave {r:?}");
    }
    if kind & 2 != 0 {
        let r = serde_xdr::to_bytes(&(7u64, vec![Some("abc")], [1u128]));
        assert!(r.is_err(), "encoding a 128-bit integer in between gave {r:?}");
    }
    if kind & 4 != 0 {
        let r = serde_xdr::from_bytes::<(Vec<u16>, Option<String>)>(&good);
        assert!(r.as_ref().is_ok_and(|v| v.0 == [5, 6] && v.1.as_deref() == Some("x")), "decoding another value in between gave {r:?}");
    }
    if kind & 8 != 0 {
        let n = (kind >> 8) as usize % good.len();
        let r = serde_xdr::from_bytes::<(Vec<u16>, Option<String>)>(&good[..n]);
        assert!(r.is_err(), "decoding the first {n} octets of another value in between gave {r:?}");
    }
}
fn nm() -> usize {
    let x = NAMING.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    NAMING.set(x);
    (x >> 33) as usize
}
fn name() -> &'static str {
    let all = any_names();
    all[nm() % all.len()]
}
/// A cheap summary of a value.
pub fn digest(v: &Val) -> u64 {
    let many = |h: u64, vs: &[Val]| vs.iter().fold(h, |h, v| (h ^ digest(v)).wrapping_mul(0x100000001b3));
    match v {
        Val::Bool(b) => *b as u64 + 11,
        Val::I(x) => *x as u64,
        Val::U(x) => *x ^ 5,
        Val::F32(x) => *x as u64,
        Val::F64(x) => *x,
        Val::Char(c) => *c as u64,
        Val::Str(x) => x.len() as u64 + 3,
        Val::Bytes(x) => x.len() as u64 + 7,
        Val::Unit => 1,
        Val::None => 2,
        Val::Some(v) | Val::Newtype(v) => digest(v).wrapping_mul(31) + 1,
        Val::List(vs) => many(vs.len() as u64, vs),
        Val::Map(kv) => kv.iter().fold(13, |h, (k, v)| (h ^ digest(k) ^ (digest(v) << 7)).wrapping_mul(0x100000001b3)),
        Val::Var(i, v) => (digest(v) ^ *i as u64).wrapping_mul(37),
        Val::Signed(i) => *i as u64,
        Val::Poison(_) => 3,
    }
}

// ------------------------------------------------------------------------------- schema facts

/// Smallest encoded size.
pub fn min_size(t: &Ty) -> usize {
    use Ty::*;
    match t {
        Bool | I8 | I16 | I32 | U8 | U16 | U32 | F32 | Char | Str | Bytes | Opt(_) | Seq(_) | Map(..) | OpqV | OpqElem
        | Signed(_) | Enum(_) => 4,
        I64 | U64 | F64 => 8,
        Unit | UnitStruct => 0,
        Tup(v) | TupStruct(v) | Struct(_, v) => v.iter().map(min_size).sum(),
        Newtype(t) => min_size(t),
        OpqF(n) => n.div_ceil(4) * 4,
    }
}

pub fn depth(t: &Ty) -> usize {
    use Ty::*;
    1 + match t {
        Opt(t) | Seq(t) | Newtype(t) => depth(t),
        Tup(v) | TupStruct(v) | Struct(_, v) => v.iter().map(depth).max().unwrap_or(0),
        Map(k, v) => depth(k).max(depth(v)),
        Enum(vs) => vs
            .iter()
            .map(|(_, v)| match v {
                VarTy::Unit => 0,
                VarTy::New(t) => depth(t),
                VarTy::Tup(v) | VarTy::Struct(_, v) => v.iter().map(depth).max().unwrap_or(0),
            })
            .max()
            .unwrap_or(0),
        _ => 0,
    }
}

pub fn visit(t: &Ty, f: &mut impl FnMut(&Ty)) {
    use Ty::*;
    f(t);
    match t {
        Opt(t) | Seq(t) | Newtype(t) => visit(t, f),
        Tup(v) | TupStruct(v) | Struct(_, v) => v.iter().for_each(|t| visit(t, f)),
        Map(k, v) => {
            visit(k, f);
            visit(v, f)
        }
        Enum(vs) => vs.iter().for_each(|(_, v)| match v {
            VarTy::Unit => {}
            VarTy::New(t) => visit(t, f),
            VarTy::Tup(v) | VarTy::Struct(_, v) => v.iter().for_each(|t| visit(t, f)),
        }),
        _ => {}
    }
}

pub fn kind(t: &Ty) -> &'static str {
    use Ty::*;
    match t {
        Bool => "bool",
        I8 => "i8",
        I16 => "i16",
        I32 => "i32",
        I64 => "i64",
        U8 => "u8",
        U16 => "u16",
        U32 => "u32",
        U64 => "u64",
        F32 => "f32",
        F64 => "f64",
        Char => "char",
        Str => "string",
        Bytes => "bytes",
        Unit => "unit",
        UnitStruct => "unit_struct",
        Opt(_) => "option",
        Seq(_) => "seq",
        Tup(_) => "tuple",
        TupStruct(_) => "tuple_struct",
        Newtype(_) => "newtype_struct",
        Struct(..) => "struct",
        Map(..) => "map",
        Enum(_) => "enum",
        OpqF(_) => "opaque_fixed",
        OpqV => "opaque_variable",
        OpqElem => "opaque_elem",
        Signed(_) => "signed32",
    }
}

// ------------------------------------------------------------------------------- generators

pub struct GenOpt {
    /// Sequence and map elements may occupy no octets.
    pub zst: bool,
    /// Weight towards opaque / signed leaves.
    pub opaque: bool,
    pub signed: bool,
    pub big: bool,
    /// Types may be nested hundreds of levels deep.
    pub deep: bool,
}

pub const PLAIN: GenOpt = GenOpt { zst: true, opaque: false, signed: false, big: true, deep: true };
pub const SMALL: GenOpt = GenOpt { zst: false, opaque: false, signed: false, big: false, deep: false };
pub const HOSTILE: GenOpt = GenOpt { zst: false, opaque: false, signed: false, big: false, deep: false };

fn gen_leaf(s: &mut Src, o: &GenOpt) -> Ty {
    if o.opaque && s.chance(2, 3) {
        return gen_opaque(s);
    }
    if o.signed && s.chance(2, 3) {
        return gen_signed(s);
    }
    match s.below(20) {
        0 => Ty::U32,
        1 => Ty::Bool,
        2 => Ty::I8,
        3 => Ty::I16,
        4 => Ty::I32,
        5 => Ty::I64,
        6 => Ty::U8,
        7 => Ty::U16,
        8 => Ty::U64,
        9 => Ty::F32,
        10 => Ty::F64,
        11 => Ty::Char,
        12 | 13 => Ty::Str,
        14 | 15 => Ty::Bytes,
        16 => Ty::Unit,
        17 => Ty::UnitStruct,
        18 => gen_opaque(s),
        _ => gen_signed(s),
    }
}

pub const FIXED: [usize; 46] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
    32, 33, 34, 35, 36, 39, 40, 63, 64, 65, 127, 255, 256, 1001,
];

pub fn gen_opaque(s: &mut Src) -> Ty {
    match s.below(3) {
        0 => Ty::OpqV,
        1 => Ty::OpqF(*s.pick(&FIXED)),
        _ => Ty::OpqElem,
    }
}

pub fn gen_signed(s: &mut Src) -> Ty {
    let mut v = vec![];
    while s.more(v.len(), 1, 8, 3, 4) {
        let x = s.int(32) as i32;
        if !v.contains(&x) {
            v.push(x)
        } else if v.len() > 3 {
            break;
        }
    }
    Ty::Signed(Rc::new(v))
}

fn gen_list(s: &mut Src, d: usize, o: &GenOpt, max: usize) -> Vec<Ty> {
    let mut v = vec![];
    let least = s.least(0, 140);
    while s.more(v.len(), least, max.max(least), 2, 3) {
        v.push(gen_ty(s, if v.len() < max { d } else { 0 }, o));
    }
    v
}

fn sized(s: &mut Src, d: usize, o: &GenOpt) -> Ty {
    let t = gen_ty(s, d, o);
    if !o.zst && min_size(&t) == 0 { Ty::Tup(vec![t, Ty::U32]) } else { t }
}

pub fn gen_ty(s: &mut Src, d: usize, o: &GenOpt) -> Ty {
    if d == 0 || s.chance(1, 3) {
        return gen_leaf(s, o);
    }
    let d = d - 1;
    match s.below(10) {
        0 => Ty::Tup(gen_list(s, d, o, 5)),
        1 => Ty::Struct(s.usize(72), gen_list(s, d, o, 14)),
        2 => Ty::Seq(Box::new(sized(s, d, o))),
        3 => Ty::Opt(Box::new(gen_ty(s, d, o))),
        4 => Ty::TupStruct(gen_list(s, d, o, 4)),
        5 => Ty::Newtype(Box::new(gen_ty(s, d, o))),
        6 => {
            let k = sized(s, 0, o);
            Ty::Map(Box::new(k), Box::new(gen_ty(s, d, o)))
        }
        7 => Ty::Seq(Box::new(sized(s, d, o))),
        _ => {
            let n = s.range(1, 5);
            let n = s.least(n, 140);
            let sparse = s.chance(1, 4);
            let mut vs: Vec<(u32, VarTy)> = vec![];
            for i in 0..n {
                let d = if i < 5 { d } else { 0 };
                let idx = if sparse { s.uint(31) as u32 } else { i as u32 };
                if vs.iter().any(|v| v.0 == idx) {
                    continue;
                }
                let v = match s.below(4) {
                    0 => VarTy::Unit,
                    1 => VarTy::New(gen_ty(s, d, o)),
                    2 => VarTy::Tup(gen_list(s, d, o, 4)),
                    _ => VarTy::Struct(s.usize(72), gen_list(s, d, o, 5)),
                };
                vs.push((idx, v));
            }
            Ty::Enum(vs)
        }
    }
}

pub fn gen_char(s: &mut Src) -> char {
    if let Some(c) = s.hint(0x10ffff) {
        return char::from_u32(c as u32).unwrap_or('x');
    }
    match s.below(6) {
        0 | 1 => char::from(b'a' + s.below(26) as u8),
        2 => char::from(s.below(128) as u8),
        3 => *s.pick(&['é', '\u{7ff}', '\u{800}', 'あ', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}']),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn gen_len(s: &mut Src, big: bool) -> usize {
    let most = match big {
        true if s.chance(1, 100) => 70_000,
        true => 5000,
        false => 600,
    };
    if let Some(n) = s.hint(most) {
        return n as usize;
    }
    match s.below(8) {
        0..=3 => s.usize(6),
        4 | 5 => s.usize(17),
        6 => s.usize(40),
        _ if big && s.chance(1, 8) => *s.pick(&[255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537]),
        _ => s.usize(130),
    }
}

/// A length around a power of two, up to four million.
pub fn gen_large(s: &mut Src) -> usize {
    if s.chance(1, 4) {
        return s.mentioned(1 << 22) as usize;
    }
    let n = 1usize << (13 + s.below(10));
    let k = *s.pick(&[1, 1, 1, 3, 5]);
    n / 4 * k + s.usize(9) - 4
}

pub fn gen_bytes(s: &mut Src, n: usize) -> Vec<u8> {
    if n > 200 {
        let x = s.u64() | 1;
        return (0..n as u64).map(|i| (x.wrapping_mul(i.wrapping_mul(i) + 7) >> 23) as u8).collect();
    }
    (0..n).map(|_| if s.chance(3, 4) { s.below(256) as u8 } else { *s.pick(&[0u8, 0xff, 1, 0x80]) }).collect()
}

pub fn gen_string(s: &mut Src, big: bool) -> String {
    if let Some(w) = s.word() {
        return w;
    }
    let n = gen_len(s, big);
    if n > 200 {
        let c = gen_char(s);
        return std::iter::repeat_n(c, n / c.len_utf8()).chain("x".repeat(n % c.len_utf8()).chars()).collect();
    }
    (0..n).map(|_| gen_char(s)).collect()
}

pub fn gen_f32(s: &mut Src) -> u32 {
    match s.below(5) {
        0 => (s.below(100) as f32 / 8.0).to_bits(),
        1 => *s.pick(&[
            0,
            0x8000_0000,
            0x7f80_0000,
            0xff80_0000,
            0x7fc0_0000,
            0x7f80_0001,
            0xffc1_2345,
            1,
            0x007f_ffff,
            0x0080_0000,
            0x7f7f_ffff,
        ]),
        _ => s.uint(32) as u32,
    }
}
pub fn gen_f64(s: &mut Src) -> u64 {
    match s.below(5) {
        0 => (s.below(100) as f64 / 8.0).to_bits(),
        1 => *s.pick(&[
            0,
            1 << 63,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7ff0_0000_0000_0001,
            0xfff8_1234_5678_9abc,
            1,
            0x000f_ffff_ffff_ffff,
            0x7fef_ffff_ffff_ffff,
        ]),
        _ => s.uint(64),
    }
}

pub fn gen_val(s: &mut Src, t: &Ty, o: &GenOpt, budget: &mut usize) -> Val {
    use Ty::*;
    let list = |s: &mut Src, v: &[Ty], b: &mut usize| Val::List(v.iter().map(|t| gen_val(s, t, o, b)).collect());
    match t {
        Bool => Val::Bool(s.bool()),
        I8 => Val::I(s.int(8)),
        I16 => Val::I(s.int(16)),
        I32 => Val::I(s.int(32)),
        I64 => Val::I(s.int(64)),
        U8 => Val::U(s.uint(8)),
        U16 => Val::U(s.uint(16)),
        U32 => Val::U(s.uint(32)),
        U64 => Val::U(s.uint(64)),
        F32 => Val::F32(gen_f32(s)),
        F64 => Val::F64(gen_f64(s)),
        Char => Val::Char(gen_char(s)),
        Str => Val::Str(gen_string(s, o.big)),
        Bytes | OpqV | OpqElem => {
            let n = gen_len(s, o.big);
            Val::Bytes(gen_bytes(s, n))
        }
        OpqF(n) => Val::Bytes(gen_bytes(s, *n)),
        Unit | UnitStruct => Val::Unit,
        Opt(t) => {
            if s.chance(2, 3) {
                Val::Some(Box::new(gen_val(s, t, o, budget)))
            } else {
                Val::None
            }
        }
        Seq(t) => {
            let n = gen_count(s, t, o, budget);
            Val::List((0..n).map(|_| gen_val(s, t, o, budget)).collect())
        }
        Map(k, v) => {
            let n = gen_count(s, v, o, budget).min(300);
            Val::Map((0..n).map(|_| (gen_val(s, k, o, budget), gen_val(s, v, o, budget))).collect())
        }
        Tup(v) | TupStruct(v) | Struct(_, v) => list(s, v, budget),
        Newtype(t) => Val::Newtype(Box::new(gen_val(s, t, o, budget))),
        Enum(vs) => {
            let i = s.usize(vs.len());
            let p = match &vs[i].1 {
                VarTy::Unit => Val::Unit,
                VarTy::New(t) => gen_val(s, t, o, budget),
                VarTy::Tup(v) | VarTy::Struct(_, v) => list(s, v, budget),
            };
            Val::Var(i, Box::new(p))
        }
        Signed(v) => Val::Signed(s.usize(v.len())),
    }
}

fn gen_count(s: &mut Src, t: &Ty, o: &GenOpt, budget: &mut usize) -> usize {
    if depth(t) == 1 && !matches!(t, Ty::Str | Ty::Bytes | Ty::OpqV | Ty::OpqElem | Ty::OpqF(_)) && s.chance(1, 4) {
        return gen_len(s, o.big);
    }
    if let Some(n) = s.hint(if depth(t) == 1 { 600 } else { 80 }) {
        let n = (n as usize).min(*budget * 4);
        *budget -= (*budget).min(n);
        return n;
    }
    let mut n = 0;
    while n < 12 && *budget > 0 && s.chance(2, 3) {
        n += 1;
        *budget -= 1;
    }
    n
}

/// A type nested deeply, by one or by all kinds of nesting, and a value which goes all the way down.
fn tower(s: &mut Src, o: &GenOpt) -> (Ty, Val) {
    let n = match s.hint(700) {
        Some(n) => n as usize + s.usize(3),
        None => {
            let most = *s.pick(&[20, 80, 300]);
            6 + s.usize(most)
        }
    };
    let mut t = sized(s, 0, o);
    let mut v = gen_val(s, &t, o, &mut 3);
    let only = if s.bool() { Some(s.below(9)) } else { None };
    for _ in 0..n {
        let inner = Box::new(t);
        (t, v) = match only.unwrap_or_else(|| s.below(9)) {
            0 => (Ty::Opt(inner), Val::Some(Box::new(v))),
            1 => (Ty::Newtype(inner), Val::Newtype(Box::new(v))),
            2 => (Ty::Seq(inner), Val::List(vec![v])),
            3 => (Ty::Tup(vec![*inner]), Val::List(vec![v])),
            4 => (Ty::TupStruct(vec![Ty::U8, *inner]), Val::List(vec![Val::U(s.uint(8)), v])),
            5 => (Ty::Struct(s.usize(72), vec![*inner, Ty::Bool]), Val::List(vec![v, Val::Bool(s.bool())])),
            6 => (Ty::Map(Box::new(Ty::Bool), inner), Val::Map(vec![(Val::Bool(s.bool()), v)])),
            7 => (Ty::Enum(vec![(0, VarTy::Unit), (1, VarTy::New(*inner))]), Val::Var(1, Box::new(v))),
            _ => {
                let p = if s.bool() { VarTy::Tup(vec![*inner]) } else { VarTy::Struct(s.usize(72), vec![*inner]) };
                (Ty::Enum(vec![(0, p)]), Val::Var(0, Box::new(Val::List(vec![v]))))
            }
        };
    }
    (t, v)
}

/// A type and a value of it.
pub fn gen_case(s: &mut Src, o: &GenOpt) -> (Ty, Val) {
    if o.deep && s.chance(1, 60) {
        return tower(s, o);
    }
    let d = s.usize(5);
    let t = gen_ty(s, d, o);
    let v = gen_val(s, &t, o, &mut 60);
    (t, v)
}

// ------------------------------------------------------------------------------- reference encoder

fn w32(out: &mut Vec<u8>, x: u32) {
    out.push((x >> 24) as u8);
    out.push((x >> 16) as u8);
    out.push((x >> 8) as u8);
    out.push(x as u8);
}
fn w64(out: &mut Vec<u8>, x: u64) {
    w32(out, (x >> 32) as u32);
    w32(out, x as u32);
}
fn raw(out: &mut Vec<u8>, b: &[u8]) {
    for x in b {
        out.push(*x);
    }
    while !out.len().is_multiple_of(4) {
        out.push(0);
    }
}

pub fn ref_encode(t: &Ty, v: &Val) -> Vec<u8> {
    ref_encode_marks(t, v).0
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mark {
    /// a length or count of that many
    Len(usize),
    Flag,
    Disc(Vec<u32>),
    Number(Rc<Vec<i32>>),
    Char,
    /// string contents of that length start here
    Text(usize),
}

pub fn ref_encode_marks(t: &Ty, v: &Val) -> (Vec<u8>, Vec<(usize, Mark)>) {
    let (mut out, mut m) = (vec![], vec![]);
    enc(t, v, &mut out, &mut m);
    (out, m)
}

fn enc(t: &Ty, v: &Val, out: &mut Vec<u8>, m: &mut Vec<(usize, Mark)>) {
    use Ty::*;
    let at = out.len();
    match (t, v) {
        (Bool, Val::Bool(b)) => w32(out, if *b { 1 } else { 0 }),
        (I8 | I16 | I32, Val::I(x)) => w32(out, (*x & 0xffff_ffff) as u32),
        (I64, Val::I(x)) => w64(out, *x as u64),
        (U8 | U16 | U32, Val::U(x)) => w32(out, *x as u32),
        (U64, Val::U(x)) => w64(out, *x),
        (F32, Val::F32(x)) => w32(out, *x),
        (F64, Val::F64(x)) => w64(out, *x),
        (Char, Val::Char(c)) => {
            m.push((at, Mark::Char));
            w32(out, *c as u32)
        }
        (Str, Val::Str(x)) => {
            m.push((at, Mark::Len(x.len())));
            if !x.is_empty() {
                m.push((at + 4, Mark::Text(x.len())));
            }
            w32(out, x.len() as u32);
            raw(out, x.as_bytes())
        }
        (Bytes | OpqV | OpqElem, Val::Bytes(b)) => {
            m.push((at, Mark::Len(b.len())));
            w32(out, b.len() as u32);
            raw(out, b)
        }
        (OpqF(n), Val::Bytes(b)) => {
            assert_eq!(*n, b.len());
            raw(out, b)
        }
        (Unit | UnitStruct, Val::Unit) => {}
        (Opt(_), Val::None) => {
            m.push((at, Mark::Flag));
            w32(out, 0)
        }
        (Opt(t), Val::Some(v)) => {
            m.push((at, Mark::Flag));
            w32(out, 1);
            enc(t, v, out, m)
        }
        (Seq(t), Val::List(vs)) => {
            m.push((at, Mark::Len(vs.len())));
            w32(out, vs.len() as u32);
            vs.iter().for_each(|v| enc(t, v, out, m))
        }
        (Tup(ts) | TupStruct(ts) | Struct(_, ts), Val::List(vs)) => {
            assert_eq!(ts.len(), vs.len());
            ts.iter().zip(vs).for_each(|(t, v)| enc(t, v, out, m))
        }
        (Newtype(t), Val::Newtype(v)) => enc(t, v, out, m),
        (Map(kt, vt), Val::Map(kv)) => {
            m.push((at, Mark::Len(kv.len())));
            w32(out, kv.len() as u32);
            for (k, v) in kv {
                enc(kt, k, out, m);
                enc(vt, v, out, m);
            }
        }
        (Enum(vs), Val::Var(i, p)) => {
            m.push((at, Mark::Disc(vs.iter().map(|v| v.0).collect())));
            w32(out, vs[*i].0);
            match (&vs[*i].1, &**p) {
                (VarTy::Unit, Val::Unit) => {}
                (VarTy::New(t), p) => enc(t, p, out, m),
                (VarTy::Tup(ts) | VarTy::Struct(_, ts), Val::List(ps)) => ts.iter().zip(ps).for_each(|(t, v)| enc(t, v, out, m)),
                _ => panic!("ill-typed payload"),
            }
        }
        (Signed(ns), Val::Signed(i)) => {
            m.push((at, Mark::Number(ns.clone())));
            w32(out, ns[*i] as u32)
        }
        _ => panic!("ill-typed value {v:?} for {t:?}"),
    }
}

// ------------------------------------------------------------------------------- reference decoder

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rej {
    Short,
    Utf8,
    Char,
    Discriminant,
    Number,
    Trailing(usize),
}

pub struct RefDec<'a> {
    b: &'a [u8],
    pos: usize,
    /// Something the library may or may not tolerate was met (non-canonical boolean, small integer
    /// out of range, non-zero padding): nothing after it is judged.
    pub gray: bool,
}

pub fn ref_decode(t: &Ty, b: &[u8]) -> (Result<Val, Rej>, bool) {
    let mut d = RefDec { b, pos: 0, gray: false };
    let r = match d.dec(t) {
        Ok(_) if d.pos < b.len() => Err(Rej::Trailing(b.len() - d.pos)),
        r => r,
    };
    (r, d.gray)
}

impl RefDec<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], Rej> {
        if self.b.len() - self.pos < n {
            return Err(Rej::Short);
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn r32(&mut self) -> Result<u32, Rej> {
        let b = self.take(4)?;
        Ok(b[0] as u32 * 0x100_0000 + b[1] as u32 * 0x1_0000 + b[2] as u32 * 0x100 + b[3] as u32)
    }
    fn r64(&mut self) -> Result<u64, Rej> {
        let h = self.r32()? as u64;
        Ok((h << 32) + self.r32()? as u64)
    }
    fn raw(&mut self, n: usize) -> Result<Vec<u8>, Rej> {
        let v = self.take(n)?.to_vec();
        self.pad(n)?;
        Ok(v)
    }
    fn pad(&mut self, n: usize) -> Result<(), Rej> {
        let k = (4 - n % 4) % 4;
        if self.take(k)?.iter().any(|x| *x != 0) {
            self.gray = true;
        }
        Ok(())
    }
    fn flag(&mut self) -> Result<bool, Rej> {
        let x = self.r32()?;
        if x > 1 {
            self.gray = true;
        }
        Ok(x != 0)
    }
    fn small(&mut self, lo: i64, hi: i64) -> Result<i64, Rej> {
        let x = self.r32()?;
        let x = if lo < 0 { x as i32 as i64 } else { x as i64 };
        if x < lo || x > hi {
            self.gray = true;
        }
        Ok(x)
    }
    fn list<'t>(&mut self, ts: impl Iterator<Item = &'t Ty>) -> Result<Val, Rej> {
        let mut v = vec![];
        for t in ts {
            v.push(self.dec(t)?);
        }
        Ok(Val::List(v))
    }
    pub fn dec(&mut self, t: &Ty) -> Result<Val, Rej> {
        use Ty::*;
        Ok(match t {
            Bool => Val::Bool(self.flag()?),
            I8 => Val::I(self.small(-128, 127)?),
            I16 => Val::I(self.small(-32768, 32767)?),
            I32 => Val::I(self.r32()? as i32 as i64),
            I64 => Val::I(self.r64()? as i64),
            U8 => Val::U(self.small(0, 255)? as u64),
            U16 => Val::U(self.small(0, 65535)? as u64),
            U32 => Val::U(self.r32()? as u64),
            U64 => Val::U(self.r64()?),
            F32 => Val::F32(self.r32()?),
            F64 => Val::F64(self.r64()?),
            Char => Val::Char(char::from_u32(self.r32()?).ok_or(Rej::Char)?),
            Str => {
                let n = self.r32()? as usize;
                let b = self.take(n)?.to_vec();
                // a string is judged before its padding
                let s = String::from_utf8(b).map_err(|_| Rej::Utf8)?;
                self.pad(n)?;
                Val::Str(s)
            }
            Bytes | OpqV | OpqElem => {
                let n = self.r32()? as usize;
                Val::Bytes(self.raw(n)?)
            }
            OpqF(n) => Val::Bytes(self.raw(*n)?),
            Unit | UnitStruct => Val::Unit,
            Opt(t) => {
                if self.flag()? {
                    Val::Some(Box::new(self.dec(t)?))
                } else {
                    Val::None
                }
            }
            Seq(t) => {
                let n = self.r32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.dec(t)?);
                }
                Val::List(v)
            }
            Map(k, v) => {
                let n = self.r32()?;
                let mut kv = vec![];
                for _ in 0..n {
                    let key = self.dec(k)?;
                    kv.push((key, self.dec(v)?));
                }
                Val::Map(kv)
            }
            Tup(v) | TupStruct(v) | Struct(_, v) => self.list(v.iter())?,
            Newtype(t) => Val::Newtype(Box::new(self.dec(t)?)),
            Enum(vs) => {
                let d = self.r32()?;
                let i = vs.iter().position(|v| v.0 == d).ok_or(Rej::Discriminant)?;
                let p = match &vs[i].1 {
                    VarTy::Unit => Val::Unit,
                    VarTy::New(t) => self.dec(t)?,
                    VarTy::Tup(v) | VarTy::Struct(_, v) => self.list(v.iter())?,
                };
                Val::Var(i, Box::new(p))
            }
            Signed(ns) => {
                let d = self.r32()? as i32;
                Val::Signed(ns.iter().position(|n| *n == d).ok_or(Rej::Number)?)
            }
        })
    }
}

// ------------------------------------------------------------------------------- Serialize

pub struct S<'a>(pub &'a Ty, pub &'a Val);

struct RawOctets<'a>(&'a [u8]);
impl AsRef<[u8]> for RawOctets<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0
    }
}
impl Serialize for RawOctets<'_> {
    fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_bytes(self.0)
    }
}

/// Displays the text in pieces of about that many octets.
struct Pieces<'a>(&'a str, usize);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut from = 0;
        for (at, c) in self.0.char_indices() {
            if at - from >= self.1 {
                f.write_str(&self.0[from..at])?;
                from = at;
                if at % 3 == 0 {
                    fmt::Write::write_char(f, c)?;
                    from += c.len_utf8();
                }
            }
        }
        f.write_str(&self.0[from..])
    }
}

struct Num(i32);
impl AsRef<i32> for Num {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}

impl Serialize for S<'_> {
    fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use Ty::*;
        interlude();
        let (t, v) = (self.0, self.1);
        if let Val::Poison(p) = v {
            return poison(*p, z);
        }
        match (t, v) {
            (Bool, Val::Bool(b)) => z.serialize_bool(*b),
            (I8, Val::I(x)) => z.serialize_i8(*x as i8),
            (I16, Val::I(x)) => z.serialize_i16(*x as i16),
            (I32, Val::I(x)) => z.serialize_i32(*x as i32),
            (I64, Val::I(x)) => z.serialize_i64(*x),
            (U8, Val::U(x)) => z.serialize_u8(*x as u8),
            (U16, Val::U(x)) => z.serialize_u16(*x as u16),
            (U32, Val::U(x)) => z.serialize_u32(*x as u32),
            (U64, Val::U(x)) => z.serialize_u64(*x),
            (F32, Val::F32(x)) => z.serialize_f32(f32::from_bits(*x)),
            (F64, Val::F64(x)) => z.serialize_f64(f64::from_bits(*x)),
            (Char, Val::Char(c)) => z.serialize_char(*c),
            (Str, Val::Str(x)) => match nm() % 4 {
                0 => z.collect_str(&Pieces(x, nm() % 40 + 1)),
                1 => z.collect_str(&format_args!("{x}")),
                _ => z.serialize_str(x),
            },
            (Bytes, Val::Bytes(b)) => z.serialize_bytes(b),
            (OpqV, Val::Bytes(b)) => serde_xdr::opaque::variable::serialize(&RawOctets(b), z),
            (OpqF(_), Val::Bytes(b)) => serde_xdr::opaque::fixed::serialize(&RawOctets(b), z),
            (OpqElem, Val::Bytes(b)) => serde_xdr::opaque::VariableArray { data: b.clone() }.serialize(z),
            (Unit, Val::Unit) => z.serialize_unit(),
            (UnitStruct, Val::Unit) => z.serialize_unit_struct(name()),
            (Opt(_), Val::None) => z.serialize_none(),
            (Opt(t), Val::Some(v)) => z.serialize_some(&S(t, v)),
            (Seq(t), Val::List(vs)) if nm().is_multiple_of(4) => z.collect_seq(vs.iter().map(|v| S(t, v))),
            (Seq(t), Val::List(vs)) => {
                let mut q = z.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&S(t, v))?;
                }
                q.end()
            }
            (Tup(ts), Val::List(vs)) => {
                let mut q = z.serialize_tuple(vs.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&S(t, v))?;
                }
                q.end()
            }
            (TupStruct(ts), Val::List(vs)) => {
                let mut q = z.serialize_tuple_struct(name(), vs.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&S(t, v))?;
                }
                q.end()
            }
            (Struct(off, ts), Val::List(vs)) => {
                let at = nm() + *off;
                let mut q = z.serialize_struct(name(), vs.len())?;
                for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                    q.serialize_field(any_names()[(at + i) % any_names().len()], &S(t, v))?;
                }
                q.end()
            }
            (Newtype(t), Val::Newtype(v)) => z.serialize_newtype_struct(name(), &S(t, v)),
            (Map(kt, vt), Val::Map(kv)) if nm().is_multiple_of(4) => z.collect_map(kv.iter().map(|(k, v)| (S(kt, k), S(vt, v)))),
            (Map(kt, vt), Val::Map(kv)) => {
                let mut q = z.serialize_map(Some(kv.len()))?;
                for (i, (k, v)) in kv.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_key(&S(kt, k))?;
                        q.serialize_value(&S(vt, v))?;
                    } else {
                        q.serialize_entry(&S(kt, k), &S(vt, v))?;
                    }
                }
                q.end()
            }
            (Enum(vs), Val::Var(i, p)) => {
                let idx = vs[*i].0;
                let variant = if idx % 3 == 0 { NAMES[(idx % 96) as usize] } else { name() };
                match (&vs[*i].1, &**p) {
                    (VarTy::Unit, _) => z.serialize_unit_variant(name(), idx, variant),
                    (VarTy::New(t), p) => z.serialize_newtype_variant(name(), idx, variant, &S(t, p)),
                    (VarTy::Tup(ts), Val::List(ps)) => {
                        let mut q = z.serialize_tuple_variant(name(), idx, variant, ps.len())?;
                        for (t, v) in ts.iter().zip(ps) {
                            q.serialize_field(&S(t, v))?;
                        }
                        q.end()
                    }
                    (VarTy::Struct(off, ts), Val::List(ps)) => {
                        let at = nm() + *off;
                        let mut q = z.serialize_struct_variant(name(), idx, variant, ps.len())?;
                        for (i, (t, v)) in ts.iter().zip(ps).enumerate() {
                            q.serialize_field(any_names()[(at + i) % any_names().len()], &S(t, v))?;
                        }
                        q.end()
                    }
                    (VarTy::Tup(_) | VarTy::Struct(..), Val::Poison(p)) => poison(*p, z),
                    _ => panic!("ill-typed payload"),
                }
            }
            (Signed(ns), Val::Signed(i)) => serde_xdr::primitive::signed32::serialize(&Num(ns[*i]), z),
            _ => panic!("ill-typed value {v:?} for {t:?}"),
        }
    }
}

fn poison<Z: ser::Serializer>(p: Poison, z: Z) -> Result<Z::Ok, Z::Error> {
    match p {
        Poison::Fails => Err(ser::Error::custom("this part does not serialize")),
        Poison::UnknownSeq => {
            let mut q = z.serialize_seq(None)?;
            q.serialize_element(&1u32)?;
            q.end()
        }
        Poison::UnknownMap => {
            let mut q = z.serialize_map(None)?;
            q.serialize_entry(&1u32, &2u32)?;
            q.end()
        }
        Poison::HugeSeq(n) => z.serialize_seq(Some(n as usize))?.end(),
        Poison::HugeMap(n) => z.serialize_map(Some(n as usize))?.end(),
        Poison::VarUnit(i) => z.serialize_unit_variant("E", i, "v"),
        Poison::VarNew(i) => z.serialize_newtype_variant("E", i, "v", &7u32),
        Poison::VarTup(i) => {
            let mut q = z.serialize_tuple_variant("E", i, "v", 1)?;
            q.serialize_field(&7u32)?;
            q.end()
        }
        Poison::VarStruct(i) => {
            let mut q = z.serialize_struct_variant("E", i, "v", 1)?;
            q.serialize_field("f", &7u32)?;
            q.end()
        }
        Poison::I128(x) => z.serialize_i128(x),
        Poison::U128(x) => z.serialize_u128(x),
    }
}

// ------------------------------------------------------------------------------- Deserialize

thread_local! {
    static SCHEMA: RefCell<Option<Rc<Ty>>> = const { RefCell::new(None) };
    static NUMBERS: RefCell<Option<Rc<Vec<i32>>>> = const { RefCell::new(None) };
}

/// Decoded under the schema given to `decode`.
pub struct Dyn(pub Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = SCHEMA.with(|s| s.borrow().clone()).expect("schema set");
        D1(&t).deserialize(d).map(Dyn)
    }
}

pub fn decode(t: &Rc<Ty>, b: &[u8]) -> Result<Val, serde_xdr::error::Error> {
    SCHEMA.with(|s| *s.borrow_mut() = Some(t.clone()));
    serde_xdr::from_bytes::<Dyn>(b).map(|d| d.0)
}

struct NumBy(usize);
impl TryFrom<i32> for NumBy {
    type Error = ();
    fn try_from(v: i32) -> Result<Self, ()> {
        NUMBERS.with(|n| n.borrow().as_ref().unwrap().iter().position(|x| *x == v).map(NumBy).ok_or(()))
    }
}

struct D1<'a>(&'a Ty);

macro_rules! prim {
    ($d:expr, $t:ty, $v:expr) => {
        <$t>::deserialize($d).map($v)
    };
}

macro_rules! fixed_dispatch {
    ($n:expr, $d:expr, $($k:literal)*) => {
        match $n {
            $($k => serde_xdr::opaque::fixed::deserialize::<$k, _>($d).map(|a: [u8; $k]| Val::Bytes(a.to_vec())),)*
            n => panic!("no fixed opaque of length {n}"),
        }
    };
}

impl<'de> DeserializeSeed<'de> for D1<'_> {
    type Value = Val;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        use Ty::*;
        interlude();
        match self.0 {
            Bool => prim!(d, bool, Val::Bool),
            I8 => prim!(d, i8, |x| Val::I(x as i64)),
            I16 => prim!(d, i16, |x| Val::I(x as i64)),
            I32 => prim!(d, i32, |x| Val::I(x as i64)),
            I64 => prim!(d, i64, Val::I),
            U8 => prim!(d, u8, |x| Val::U(x as u64)),
            U16 => prim!(d, u16, |x| Val::U(x as u64)),
            U32 => prim!(d, u32, |x| Val::U(x as u64)),
            U64 => prim!(d, u64, Val::U),
            F32 => prim!(d, f32, |x| Val::F32(x.to_bits())),
            F64 => prim!(d, f64, |x| Val::F64(x.to_bits())),
            Char => prim!(d, char, Val::Char),
            Str => prim!(d, String, Val::Str),
            Bytes => d.deserialize_byte_buf(BytesV).map(Val::Bytes),
            Unit => prim!(d, (), |_| Val::Unit),
            UnitStruct => d.deserialize_unit_struct(NAMES[50], UnitV),
            Opt(t) => d.deserialize_option(OptV(t)),
            Seq(t) => d.deserialize_seq(SeqV(t)),
            Tup(ts) => d.deserialize_tuple(ts.len(), ListV(ts)),
            TupStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), ListV(ts)),
            Struct(off, ts) => d.deserialize_struct(NAMES[*off + 24], names(*off, ts.len()), ListV(ts)),
            Newtype(t) => d.deserialize_newtype_struct("Newtype", NewV(t)),
            Map(k, v) => d.deserialize_map(MapV(k, v)),
            Enum(vs) => d.deserialize_enum(NAMES[(40 + vs.len()) % 96], names(44, vs.len()), EnumV(vs)),
            OpqF(n) => fixed_dispatch!(*n, d, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28
                29 30 31 32 33 34 35 36 39 40 63 64 65 127 255 256 1001),
            OpqV => serde_xdr::opaque::variable::deserialize(d).map(Val::Bytes),
            OpqElem => prim!(d, serde_xdr::opaque::VariableArray, |a| Val::Bytes(a.data)),
            Signed(ns) => {
                NUMBERS.with(|n| *n.borrow_mut() = Some(ns.clone()));
                serde_xdr::primitive::signed32::deserialize::<NumBy, _>(d).map(|n| Val::Signed(n.0))
            }
        }
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}
struct OptV<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        D1(self.0).deserialize(d).map(|v| Val::Some(Box::new(v)))
    }
}
struct SeqV<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("seq")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(D1(self.0))? {
            v.push(x);
        }
        Ok(Val::List(v))
    }
}
struct ListV<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for ListV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} elements", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(D1(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(Val::List(v))
    }
}
struct NewV<'a>(&'a Ty);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        D1(self.0).deserialize(d).map(|v| Val::Newtype(Box::new(v)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(D1(self.0))? {
            Some(v) => Ok(Val::Newtype(Box::new(v))),
            None => Err(de::Error::invalid_length(0, &self)),
        }
    }
}
struct MapV<'a>(&'a Ty, &'a Ty);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        loop {
            if v.len() % 2 == 0 {
                match a.next_key_seed(D1(self.0))? {
                    Some(k) => v.push((k, a.next_value_seed(D1(self.1))?)),
                    None => break,
                }
            } else {
                match a.next_entry_seed(D1(self.0), D1(self.1))? {
                    Some(kv) => v.push(kv),
                    None => break,
                }
            }
        }
        Ok(Val::Map(v))
    }
}
struct VarId<'a>(&'a [(u32, VarTy)]);
impl<'de> DeserializeSeed<'de> for VarId<'_> {
    type Value = usize;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VarId<'_> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        self.0
            .iter()
            .position(|x| x.0 as u64 == v)
            .ok_or_else(|| de::Error::invalid_value(de::Unexpected::Unsigned(v), &"a declared variant index"))
    }
}
struct EnumV<'a>(&'a [(u32, VarTy)]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (i, va) = a.variant_seed(VarId(self.0))?;
        let p = match &self.0[i].1 {
            VarTy::Unit => va.unit_variant().map(|_| Val::Unit)?,
            VarTy::New(t) => va.newtype_variant_seed(D1(t))?,
            VarTy::Tup(ts) => va.tuple_variant(ts.len(), ListV(ts))?,
            VarTy::Struct(off, ts) => va.struct_variant(names(*off, ts.len()), ListV(ts))?,
        };
        Ok(Val::Var(i, Box::new(p)))
    }
}
