//! Real Rust types (derived and from the standard library) with an independent RFC 4506 encoding.
use crate::model::{gen_bytes, gen_char, gen_f32, gen_f64, gen_len, gen_string};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_xdr::opaque::{FixedArray, VariableArray};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use vhcore::Src;

pub trait Zoo: Serialize + DeserializeOwned + Debug {
    fn make(s: &mut Src) -> Self;
    fn enc(&self, out: &mut Vec<u8>);
    /// Equality, floats bit for bit.
    fn same(&self, o: &Self) -> bool {
        let (mut a, mut b) = (vec![], vec![]);
        self.enc(&mut a);
        o.enc(&mut b);
        a == b
    }
    /// Decoding may merge what was sent (sets and maps drop duplicates).
    const MERGES: bool = false;
    /// Several encodings of a value may be accepted by std's own Deserialize, or it refuses some (NonZero).
    const PICKY: bool = false;
}

fn w32(out: &mut Vec<u8>, x: u32) {
    out.extend([(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]);
}
fn w64(out: &mut Vec<u8>, x: u64) {
    w32(out, (x >> 32) as u32);
    w32(out, x as u32);
}
fn counted(out: &mut Vec<u8>, b: &[u8]) {
    w32(out, b.len() as u32);
    raw(out, b);
}
fn raw(out: &mut Vec<u8>, b: &[u8]) {
    out.extend(b);
    out.extend(vec![0; (4 - b.len() % 4) % 4]);
}

macro_rules! ints {
    ($($t:ty, $bits:literal, $m:ident, $w:ident as $c:ty);* $(;)?) => { $(
        impl Zoo for $t {
            fn make(s: &mut Src) -> Self { s.$m($bits) as $t }
            fn enc(&self, out: &mut Vec<u8>) { $w(out, *self as $c) }
        })*
    };
}
ints! { i8, 8, int, w32 as u32; i16, 16, int, w32 as u32; i32, 32, int, w32 as u32; i64, 64, int, w64 as u64;
u8, 8, uint, w32 as u32; u16, 16, uint, w32 as u32; u32, 32, uint, w32 as u32; u64, 64, uint, w64 as u64;
usize, 64, uint, w64 as u64; isize, 64, int, w64 as u64 }

impl Zoo for bool {
    fn make(s: &mut Src) -> Self {
        s.bool()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w32(out, if *self { 1 } else { 0 })
    }
}
impl Zoo for f32 {
    fn make(s: &mut Src) -> Self {
        f32::from_bits(gen_f32(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w32(out, self.to_bits())
    }
}
impl Zoo for f64 {
    fn make(s: &mut Src) -> Self {
        f64::from_bits(gen_f64(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w64(out, self.to_bits())
    }
}
impl Zoo for char {
    fn make(s: &mut Src) -> Self {
        gen_char(s)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w32(out, *self as u32)
    }
}
impl Zoo for String {
    fn make(s: &mut Src) -> Self {
        gen_string(s, true)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.as_bytes())
    }
}
impl Zoo for Box<str> {
    fn make(s: &mut Src) -> Self {
        gen_string(s, false).into()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.as_bytes())
    }
}
impl Zoo for std::path::PathBuf {
    fn make(s: &mut Src) -> Self {
        gen_string(s, false).into()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.to_str().unwrap().as_bytes())
    }
}
impl Zoo for std::borrow::Cow<'static, str> {
    fn make(s: &mut Src) -> Self {
        gen_string(s, false).into()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.as_bytes())
    }
}
impl Zoo for std::ffi::CString {
    const PICKY: bool = true;
    fn make(s: &mut Src) -> Self {
        let n = gen_len(s, false);
        let b: Vec<u8> = gen_bytes(s, n).into_iter().map(|b| b.max(1)).collect();
        std::ffi::CString::new(b).unwrap()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.to_bytes())
    }
}
impl Zoo for () {
    fn make(_: &mut Src) -> Self {}
    fn enc(&self, _: &mut Vec<u8>) {}
}
impl<T> Zoo for std::marker::PhantomData<T>
where
    T: Debug,
{
    fn make(_: &mut Src) -> Self {
        std::marker::PhantomData
    }
    fn enc(&self, _: &mut Vec<u8>) {}
}
impl<T: Zoo> Zoo for Option<T> {
    fn make(s: &mut Src) -> Self {
        if s.chance(2, 3) { Some(T::make(s)) } else { None }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            None => w32(out, 0),
            Some(x) => {
                w32(out, 1);
                x.enc(out)
            }
        }
    }
    const MERGES: bool = T::MERGES;
    const PICKY: bool = T::PICKY;
}
impl<T: Zoo> Zoo for Box<T> {
    fn make(s: &mut Src) -> Self {
        Box::new(T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        (**self).enc(out)
    }
    const MERGES: bool = T::MERGES;
    const PICKY: bool = T::PICKY;
}
macro_rules! wrap1 {
    ($($t:ident, $new:path, |$x:ident| $get:expr);* $(;)?) => { $(
        impl<T: Zoo + Copy> Zoo for $t<T> {
            fn make(s: &mut Src) -> Self { $new(T::make(s)) }
            fn enc(&self, out: &mut Vec<u8>) { let $x = self; let v: T = $get; v.enc(out) }
            const MERGES: bool = T::MERGES;
            const PICKY: bool = T::PICKY;
        })*
    };
}
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::num::Wrapping;
use std::sync::{Mutex, RwLock};
wrap1! { Wrapping, Wrapping, |x| x.0; Reverse, Reverse, |x| x.0; Cell, Cell::new, |x| x.get();
RefCell, RefCell::new, |x| *x.borrow(); Mutex, Mutex::new, |x| *x.lock().unwrap(); RwLock, RwLock::new, |x| *x.read().unwrap() }

macro_rules! nonzero {
    ($($t:ident: $p:ty),*) => { $(
        impl Zoo for std::num::$t {
            fn make(s: &mut Src) -> Self { let v = <$p>::make(s); Self::new(v).unwrap_or(Self::MAX) }
            fn enc(&self, out: &mut Vec<u8>) { self.get().enc(out) }
            const PICKY: bool = true;
        })*
    };
}
nonzero! { NonZeroU8: u8, NonZeroI16: i16, NonZeroU32: u32, NonZeroI64: i64, NonZeroU64: u64 }
macro_rules! atomic {
    ($($t:ident: $p:ty),*) => { $(
        impl Zoo for std::sync::atomic::$t {
            fn make(s: &mut Src) -> Self { Self::new(<$p>::make(s)) }
            fn enc(&self, out: &mut Vec<u8>) { self.load(std::sync::atomic::Ordering::Relaxed).enc(out) }
        })*
    };
}
atomic! { AtomicBool: bool, AtomicU8: u8, AtomicI32: i32, AtomicU64: u64 }

/// How many elements.
fn some(s: &mut Src, most: usize) -> usize {
    match s.hint(most as u64 * 4) {
        Some(n) => n as usize,
        None if s.chance(1, 8) => s.usize(most),
        None => s.usize(6),
    }
}
macro_rules! seqs {
    ($($t:ident, $push:ident);*) => { $(
        impl<T: Zoo> Zoo for $t<T> {
            fn make(s: &mut Src) -> Self {
                let mut v = $t::new();
                let n = some(s, 70);
                for _ in 0..n { v.$push(T::make(s)); }
                v
            }
            fn enc(&self, out: &mut Vec<u8>) {
                w32(out, self.len() as u32);
                for x in self { x.enc(out) }
            }
            const MERGES: bool = T::MERGES;
            const PICKY: bool = T::PICKY;
        })*
    };
}
seqs! { Vec, push; VecDeque, push_back; LinkedList, push_back }
macro_rules! sets {
    ($($t:ident, $push:ident, $($b:path),*);*) => { $(
        impl<T: Zoo $(+ $b)*> Zoo for $t<T> {
            fn make(s: &mut Src) -> Self {
                let mut v = $t::new();
                let n = some(s, 40);
                for _ in 0..n { v.$push(T::make(s)); }
                v
            }
            fn enc(&self, out: &mut Vec<u8>) {
                w32(out, self.len() as u32);
                for x in self { x.enc(out) }
            }
            fn same(&self, o: &Self) -> bool { self.iter().all(|x| o.iter().any(|y| x == y)) && self.len() == o.len() }
            const MERGES: bool = true;
            const PICKY: bool = T::PICKY;
        })*
    };
}
sets! { BTreeSet, insert, Ord; HashSet, insert, Eq, std::hash::Hash; BinaryHeap, push, Ord }
macro_rules! maps {
    ($($t:ident, $($b:path),*);*) => { $(
        impl<K: Zoo $(+ $b)*, V: Zoo> Zoo for $t<K, V> {
            fn make(s: &mut Src) -> Self {
                let mut v = $t::new();
                let n = some(s, 40);
                for _ in 0..n { let k = K::make(s); v.insert(k, V::make(s)); }
                v
            }
            fn enc(&self, out: &mut Vec<u8>) {
                w32(out, self.len() as u32);
                for (k, x) in self { k.enc(out); x.enc(out) }
            }
            fn same(&self, o: &Self) -> bool {
                self.len() == o.len() && self.iter().all(|(k, x)| o.get(k).is_some_and(|y| x.same(y)))
            }
            const MERGES: bool = true;
            const PICKY: bool = K::PICKY || V::PICKY;
        })*
    };
}
maps! { BTreeMap, Ord; HashMap, Eq, std::hash::Hash }

impl<T: Zoo + Copy + Default, const N: usize> Zoo for [T; N]
where
    [T; N]: Serialize + DeserializeOwned,
{
    fn make(s: &mut Src) -> Self {
        let mut a = [T::default(); N];
        for x in &mut a {
            *x = T::make(s);
        }
        a
    }
    fn enc(&self, out: &mut Vec<u8>) {
        for x in self {
            x.enc(out)
        }
    }
    const PICKY: bool = T::PICKY;
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),*);)*) => { $(
        impl<$($t: Zoo),*> Zoo for ($($t,)*) {
            fn make(s: &mut Src) -> Self { ($($t::make(s),)*) }
            fn enc(&self, out: &mut Vec<u8>) { $(self.$i.enc(out);)* }
            const MERGES: bool = $($t::MERGES ||)* false;
            const PICKY: bool = $($t::PICKY ||)* false;
        })*
    };
}
tuples! { (A 0); (A 0, B 1); (A 0, B 1, C 2); (A 0, B 1, C 2, D 3); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11); }

impl<A: Zoo, B: Zoo> Zoo for Result<A, B> {
    fn make(s: &mut Src) -> Self {
        if s.bool() { Err(B::make(s)) } else { Ok(A::make(s)) }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            Ok(a) => {
                w32(out, 0);
                a.enc(out)
            }
            Err(b) => {
                w32(out, 1);
                b.enc(out)
            }
        }
    }
    const MERGES: bool = A::MERGES || B::MERGES;
    const PICKY: bool = A::PICKY || B::PICKY;
}
impl<T: Zoo> Zoo for std::ops::Range<T> {
    fn make(s: &mut Src) -> Self {
        T::make(s)..T::make(s)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.start.enc(out);
        self.end.enc(out)
    }
}
impl<T: Zoo> Zoo for std::ops::RangeInclusive<T> {
    fn make(s: &mut Src) -> Self {
        T::make(s)..=T::make(s)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.start().enc(out);
        self.end().enc(out)
    }
}
impl<T: Zoo> Zoo for std::ops::RangeFrom<T> {
    fn make(s: &mut Src) -> Self {
        T::make(s)..
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.start.enc(out);
    }
}
impl<T: Zoo> Zoo for std::ops::Bound<T> {
    fn make(s: &mut Src) -> Self {
        use std::ops::Bound::*;
        match s.below(3) {
            0 => Unbounded,
            1 => Included(T::make(s)),
            _ => Excluded(T::make(s)),
        }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        use std::ops::Bound::*;
        match self {
            Unbounded => w32(out, 0),
            Included(x) => {
                w32(out, 1);
                x.enc(out)
            }
            Excluded(x) => {
                w32(out, 2);
                x.enc(out)
            }
        }
    }
}
impl Zoo for std::time::Duration {
    const PICKY: bool = true;
    fn make(s: &mut Src) -> Self {
        std::time::Duration::new(s.uint(64), s.below(1_000_000_000) as u32)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w64(out, self.as_secs());
        w32(out, self.subsec_nanos())
    }
}
impl Zoo for std::time::SystemTime {
    const PICKY: bool = true;
    fn make(s: &mut Src) -> Self {
        std::time::UNIX_EPOCH + std::time::Duration::new(s.uint(40), s.below(1_000_000_000) as u32)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.duration_since(std::time::UNIX_EPOCH).unwrap().enc(out)
    }
}
impl Zoo for VariableArray {
    fn make(s: &mut Src) -> Self {
        let n = gen_len(s, true);
        VariableArray { data: gen_bytes(s, n) }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, &self.data)
    }
}

impl<const N: usize> Zoo for FixedArray<N> {
    fn make(s: &mut Src) -> Self {
        FixedArray { data: gen_bytes(s, N).try_into().unwrap() }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        raw(out, &self.data)
    }
}

// ---------------------------------------------------------------- derived types

/// A field type marked with a helper attribute needs its own make/enc.
macro_rules! field_make {
    (var, $t:ty, $s:expr) => {{
        let n = gen_len($s, true);
        gen_bytes($s, n)
    }};
    (fix, $t:ty, $s:expr) => {{
        let mut a: $t = [0; std::mem::size_of::<$t>()];
        let b = gen_bytes($s, a.len());
        a.copy_from_slice(&b);
        a
    }};
    (num, $t:ty, $s:expr) => { <$t>::ALL[$s.usize(<$t>::ALL.len())].clone() };
    (plain, $t:ty, $s:expr) => { <$t as Zoo>::make($s) };
}
macro_rules! field_enc {
    (var, $x:expr, $out:expr) => { counted($out, $x) };
    (fix, $x:expr, $out:expr) => { raw($out, $x) };
    (num, $x:expr, $out:expr) => { w32($out, $x.number() as u32) };
    (plain, $x:expr, $out:expr) => { $x.enc($out) };
}

macro_rules! field_merges {
    (plain, $t:ty) => { <$t as Zoo>::MERGES };
    ($k:ident, $t:ty) => { false };
}

macro_rules! zstruct {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty as $k:ident),* $(,)? }) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        #[allow(unused_variables)]
        impl Zoo for $n {
            const MERGES: bool = $(field_merges!($k, $t) ||)* false;
            fn make(s: &mut Src) -> Self { $n { $($f: field_make!($k, $t, s)),* } }
            fn enc(&self, out: &mut Vec<u8>) { $(field_enc!($k, &self.$f, out);)* }
        }
    };
}
macro_rules! ztuple {
    ($(#[$m:meta])* $n:ident ( $(@ $i:tt $(#[$fm:meta])* $t:ty as $k:ident),* $(,)? )) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        $(#[$m])*
        pub struct $n($($(#[$fm])* pub $t),*);
        impl Zoo for $n {
            const MERGES: bool = $(field_merges!($k, $t) ||)* false;
            fn make(s: &mut Src) -> Self { $n($(field_make!($k, $t, s)),*) }
            fn enc(&self, out: &mut Vec<u8>) { $(field_enc!($k, &self.$i, out);)* }
        }
    };
}

macro_rules! numbered {
    ($n:ident { $($v:ident = $x:expr),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum $n { $($v),* }
        impl $n {
            pub const ALL: &'static [$n] = &[$($n::$v),*];
            pub fn number(&self) -> i32 { match self { $($n::$v => $x),* } }
        }
        impl AsRef<i32> for $n {
            fn as_ref(&self) -> &'static i32 { match self { $($n::$v => &$x),* } }
        }
        impl TryFrom<i32> for $n {
            type Error = serde_xdr::error::Error;
            fn try_from(v: i32) -> Result<Self, Self::Error> {
                $(if v == $x { return Ok($n::$v); })*
                Err(serde_xdr::error::Error::Convert)
            }
        }
    };
}
numbered! { Colors { Red = 2, Yellow = 3, Blue = 5 } }
numbered! { Extreme { Min = i32::MIN, MinusOne = -1, Zero = 0, One = 1, Max = i32::MAX, Byte = 256, Word = 65536 } }
numbered! { Single { Only = -7 } }

zstruct! { Empty {} }
zstruct! { Scalars { a: i8 as plain, b: u16 as plain, c: i64 as plain, d: f32 as plain, e: f64 as plain, f: char as plain, g: bool as plain } }
zstruct! { Nested { x: Scalars as plain, list: Vec<Scalars> as plain, opt: Option<Box<Empty>> as plain, s: String as plain, t: (u8, String, [i16; 3]) as plain } }
zstruct! { #[serde(rename = "another", rename_all = "UPPERCASE", deny_unknown_fields)] Renamed { #[serde(rename = "zzz")] b: u32 as plain, #[serde(alias = "q")] a: String as plain, r#type: u8 as plain } }
zstruct! { Opaques {
    tag: u8 as plain,
    #[serde(with = "serde_xdr::opaque::variable")] v: Vec<u8> as var,
    #[serde(with = "serde_xdr::opaque::fixed")] f0: [u8; 0] as fix,
    #[serde(with = "serde_xdr::opaque::fixed")] f1: [u8; 1] as fix,
    #[serde(with = "serde_xdr::opaque::fixed")] f5: [u8; 5] as fix,
    mid: u64 as plain,
    #[serde(with = "serde_xdr::opaque::fixed")] f8: [u8; 8] as fix,
    #[serde(with = "serde_xdr::opaque::fixed")] f31: [u8; 31] as fix,
    #[serde(with = "serde_xdr::opaque::variable")] w: Vec<u8> as var,
    last: String as plain,
} }
ztuple! { OpqTuple(@0 bool as plain, @1 #[serde(with = "serde_xdr::opaque::fixed")] [u8; 3] as fix, @2 #[serde(with = "serde_xdr::opaque::variable")] Vec<u8> as var, @3 i32 as plain) }
ztuple! { OpqNewV(@0 #[serde(with = "serde_xdr::opaque::variable")] Vec<u8> as var) }
ztuple! { OpqNewF(@0 #[serde(with = "serde_xdr::opaque::fixed")] [u8; 6] as fix) }
ztuple! { #[serde(transparent)] Transparent(@0 Nested as plain) }
ztuple! { NewInt(@0 i16 as plain) }
ztuple! { Pair(@0 NewInt as plain, @1 String as plain) }
zstruct! { Numbered {
    a: u8 as plain,
    #[serde(with = "serde_xdr::primitive::signed32")] c: Colors as num,
    #[serde(with = "serde_xdr::primitive::signed32")] e: Extreme as num,
    z: String as plain,
    #[serde(with = "serde_xdr::primitive::signed32")] s: Single as num,
} }
ztuple! { NumTuple(@0 #[serde(with = "serde_xdr::primitive::signed32")] Extreme as num, @1 u8 as plain) }
ztuple! { NumNew(@0 #[serde(with = "serde_xdr::primitive::signed32")] Extreme as num) }
zstruct! { NumNest { l: Vec<NumNew> as plain, o: Option<NumTuple> as plain, m: BTreeMap<u32, NumNew> as plain } }
zstruct! { ElemPlaces { l: Vec<VariableArray> as plain, o: Option<VariableArray> as plain, m: BTreeMap<u32, VariableArray> as plain, t: (u8, VariableArray) as plain, n: Option<Vec<VariableArray>> as plain, x: [Option<NewInt>; 2] as plain } }
impl Copy for NewInt {}
impl Default for NewInt {
    fn default() -> Self {
        NewInt(0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mixed {
    A,
    B(u8),
    C(u16, String),
    D {
        x: i32,
        #[serde(with = "serde_xdr::opaque::variable")]
        y: Vec<u8>,
    },
    #[serde(rename = "A2")]
    E(Box<Mixed>),
    #[serde(with = "serde_xdr::opaque::fixed")]
    F([u8; 7]),
    G(#[serde(with = "serde_xdr::opaque::variable")] Vec<u8>, #[serde(with = "serde_xdr::primitive::signed32")] Colors),
    H {},
    I(Option<Vec<Mixed>>),
    J(()),
}
impl Zoo for Mixed {
    fn make(s: &mut Src) -> Self {
        fn go(s: &mut Src, d: u32) -> Mixed {
            match s.below(if d == 0 { 8 } else { 10 }) {
                0 => Mixed::A,
                1 => Mixed::B(u8::make(s)),
                2 => Mixed::C(u16::make(s), String::make(s)),
                3 => Mixed::D { x: i32::make(s), y: field_make!(var, Vec<u8>, s) },
                4 => Mixed::F(field_make!(fix, [u8; 7], s)),
                5 => Mixed::G(field_make!(var, Vec<u8>, s), field_make!(num, Colors, s)),
                6 => Mixed::H {},
                7 => Mixed::J(()),
                8 => Mixed::E(Box::new(go(s, d - 1))),
                _ => Mixed::I(if s.bool() { Some((0..s.usize(3)).map(|_| go(s, d - 1)).collect()) } else { None }),
            }
        }
        go(s, 3)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            Mixed::A => w32(out, 0),
            Mixed::B(x) => {
                w32(out, 1);
                x.enc(out)
            }
            Mixed::C(x, y) => {
                w32(out, 2);
                x.enc(out);
                y.enc(out)
            }
            Mixed::D { x, y } => {
                w32(out, 3);
                x.enc(out);
                counted(out, y)
            }
            Mixed::E(x) => {
                w32(out, 4);
                x.enc(out)
            }
            Mixed::F(x) => {
                w32(out, 5);
                raw(out, x)
            }
            Mixed::G(x, c) => {
                w32(out, 6);
                counted(out, x);
                w32(out, c.number() as u32)
            }
            Mixed::H {} => w32(out, 7),
            Mixed::I(x) => {
                w32(out, 8);
                match x {
                    None => w32(out, 0),
                    Some(v) => {
                        w32(out, 1);
                        w32(out, v.len() as u32);
                        v.iter().for_each(|x| x.enc(out))
                    }
                }
            }
            Mixed::J(()) => w32(out, 9),
        }
    }
}

macro_rules! wide_enum {
    ($($v:ident)*) => {
        /// More variants than an octet can number.
        #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
        pub enum Wide { $($v),* }
        const WIDE: &[Wide] = &[$(Wide::$v),*];
        impl Zoo for Wide {
            fn make(s: &mut Src) -> Self { WIDE[s.usize(WIDE.len())] }
            fn enc(&self, out: &mut Vec<u8>) { w32(out, *self as u32) }
        }
    };
}
macro_rules! wide16 {
    ($($p:ident)*) => { wide_enum! { $($p)* } };
}
include!("wide.in");

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Generic<T, U> {
    pub a: T,
    pub b: Vec<(U, T)>,
}
impl<T: Zoo, U: Zoo> Zoo for Generic<T, U> {
    fn make(s: &mut Src) -> Self {
        Generic { a: T::make(s), b: Vec::make(s) }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.a.enc(out);
        self.b.enc(out)
    }
}
/// How far something reaches which links to itself.
fn far(s: &mut Src) -> usize {
    match s.hint(800) {
        Some(n) => n as usize + s.usize(3),
        None if s.chance(1, 25) => s.usize(1200),
        None => s.usize(20),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Chain {
    End,
    Next(Box<Chain>),
    Both(String, Box<Chain>),
    Named { next: Option<Box<Chain>>, n: u16 },
}
impl Zoo for Chain {
    fn make(s: &mut Src) -> Self {
        let mut c = Chain::End;
        for _ in 0..far(s) {
            let next = Box::new(c);
            c = match s.below(3) {
                0 => Chain::Next(next),
                1 => Chain::Both(if s.chance(1, 9) { String::make(s) } else { "x".into() }, next),
                _ => Chain::Named { next: Some(next), n: u16::make(s) },
            }
        }
        c
    }
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            Chain::End => w32(out, 0),
            Chain::Next(c) => {
                w32(out, 1);
                c.enc(out)
            }
            Chain::Both(t, c) => {
                w32(out, 2);
                counted(out, t.as_bytes());
                c.enc(out)
            }
            Chain::Named { next, n } => {
                w32(out, 3);
                match next {
                    None => w32(out, 0),
                    Some(c) => {
                        w32(out, 1);
                        c.enc(out)
                    }
                }
                n.enc(out)
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    pub name: String,
    pub kids: Vec<Tree>,
}
impl Zoo for Tree {
    fn make(s: &mut Src) -> Self {
        fn leaf(s: &mut Src) -> Tree {
            Tree { name: if s.chance(1, 9) { String::make(s) } else { "leaf".into() }, kids: vec![] }
        }
        let mut t = leaf(s);
        for _ in 0..far(s) {
            let mut up = leaf(s);
            let n = s.usize(3);
            up.kids = (0..n).map(|_| leaf(s)).collect();
            let at = s.usize(n + 1);
            up.kids.insert(at, t);
            t = up;
        }
        t
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.name.as_bytes());
        w32(out, self.kids.len() as u32);
        self.kids.iter().for_each(|t| t.enc(out))
    }
}
/// Serializes by way of its Display.
#[derive(Clone, Debug, Deserialize)]
#[serde(transparent)]
pub struct Shown(String);
impl Serialize for Shown {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.collect_str(&format_args!("{}{}", &self.0[..0], self.0))
    }
}
impl Zoo for Shown {
    fn make(s: &mut Src) -> Self {
        Shown(gen_string(s, true))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        counted(out, self.0.as_bytes())
    }
}
/// A message which travels as the octets of its own encoding within another one.
#[derive(Clone, Debug)]
pub struct Envelope(Vec<u16>, Option<String>);
impl Serialize for Envelope {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let octets = serde_xdr::to_bytes(&(&self.0, &self.1)).map_err(serde::ser::Error::custom)?;
        z.serialize_bytes(&octets)
    }
}
impl<'de> Deserialize<'de> for Envelope {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Envelope;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("octets")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Envelope, E> {
                serde_xdr::from_bytes(v).map(|(a, b)| Envelope(a, b)).map_err(E::custom)
            }
        }
        d.deserialize_bytes(V)
    }
}
impl Zoo for Envelope {
    const PICKY: bool = true;
    fn make(s: &mut Src) -> Self {
        Envelope(Zoo::make(s), Zoo::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut octets = vec![];
        self.0.enc(&mut octets);
        self.1.enc(&mut octets);
        counted(out, &octets)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ListNode {
    pub v: u32,
    pub next: Option<Box<ListNode>>,
}
impl Zoo for ListNode {
    fn make(s: &mut Src) -> Self {
        let mut n = ListNode { v: u32::make(s), next: None };
        for _ in 0..far(s) {
            n = ListNode { v: u32::make(s), next: Some(Box::new(n)) };
        }
        n
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.v.enc(out);
        let mut n = &self.next;
        while let Some(x) = n {
            w32(out, 1);
            x.v.enc(out);
            n = &x.next;
        }
        w32(out, 0)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Skips {
    pub a: u32,
    #[serde(skip)]
    #[allow(dead_code)]
    pub cache: u64,
    pub b: String,
}
impl Zoo for Skips {
    fn make(s: &mut Src) -> Self {
        Skips { a: u32::make(s), cache: s.u64(), b: String::make(s) }
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.a.enc(out);
        self.b.enc(out)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(into = "u32", try_from = "u32")]
pub struct Even(u32);
impl From<Even> for u32 {
    fn from(e: Even) -> u32 {
        e.0
    }
}
impl TryFrom<u32> for Even {
    type Error = String;
    fn try_from(v: u32) -> Result<Self, String> {
        if v % 2 == 0 { Ok(Even(v)) } else { Err("odd".into()) }
    }
}
impl Zoo for Even {
    const PICKY: bool = true;
    fn make(s: &mut Src) -> Self {
        Even(u32::make(s) & !1)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        w32(out, self.0)
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct UnitS;
impl Zoo for UnitS {
    fn make(_: &mut Src) -> Self {
        UnitS
    }
    fn enc(&self, _: &mut Vec<u8>) {}
}
