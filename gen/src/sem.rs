//! Meaningful interfaces: a generator of well-defined ones, and a reference reading of their names, numbers and types.
use crate::idl::reserved;
use rpcgen::gen_code::Config;
use rpcgen::parser::*;
use std::collections::{HashMap, HashSet};
use vhcore::Src;

// ------------------------------------------------------------------ options

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EMode {
    Complement,
    Indexer,
    Std,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UMode {
    Complement,
    Indexer,
    Union,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mode {
    pub e: EMode,
    pub u: UMode,
    pub keep_typedefs: bool,
}
impl Mode {
    pub fn draw(s: &mut Src) -> Mode {
        Mode {
            e: *s.pick(&[EMode::Complement, EMode::Indexer, EMode::Std]),
            u: *s.pick(&[UMode::Complement, UMode::Indexer, UMode::Union]),
            keep_typedefs: s.chance(1, 5),
        }
    }
    pub fn config(&self) -> Config {
        Config {
            remove_typedef: !self.keep_typedefs,
            enum_impl_indexer: self.e == EMode::Indexer,
            enum_impl_std_trait: self.e == EMode::Std,
            union_impl_indexer: self.u == UMode::Indexer,
            union_impl_union: self.u == UMode::Union,
        }
    }
}
pub fn show(c: &Config) -> String {
    let mut v = vec![];
    for (b, n) in [
        (c.remove_typedef, "remove_typedef"),
        (c.enum_impl_indexer, "enum_impl_indexer"),
        (c.enum_impl_std_trait, "enum_impl_std_trait"),
        (c.union_impl_indexer, "union_impl_indexer"),
        (c.union_impl_union, "union_impl_union"),
    ] {
        if b {
            v.push(n)
        }
    }
    format!("Config {{ {} }}", v.join(", "))
}

// ------------------------------------------------------------------ names

pub const KEYWORDS: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
    "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
    "true", "type", "union", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "gen", "macro", "override",
    "priv", "try", "typeof", "unsized", "virtual", "yield",
];
pub fn escape(n: String) -> String {
    match n.as_str() {
        "self" | "Self" | "super" | "crate" => format!("{n}_"),
        _ if KEYWORDS.contains(&n.as_str()) => format!("r#{n}"),
        _ => n,
    }
}
/// The Rust name of a type or variant.
pub fn camel(n: &str) -> String {
    let up = |w: &str, low: bool| {
        let mut c = w.chars();
        let h: String = c.next().map(|c| c.to_ascii_uppercase()).into_iter().collect();
        h + &if low { c.as_str().to_ascii_lowercase() } else { c.as_str().to_string() }
    };
    escape(if n.contains('_') { n.split('_').map(|w| up(w, true)).collect() } else { up(n, false) })
}
/// The Rust name of a field, for the name styles the generator uses.
pub fn snake(n: &str) -> String {
    if n.contains('_') {
        return escape(n.to_ascii_lowercase());
    }
    let mut o = String::new();
    let mut last_upper = true;
    for c in n.chars() {
        if c.is_ascii_uppercase() && !last_upper {
            o.push('_');
        }
        last_upper = c.is_ascii_uppercase();
        o.push(c.to_ascii_lowercase());
    }
    escape(o)
}

// ------------------------------------------------------------------ the reference reading

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Int(u32, bool),
    F32,
    F64,
    Bool,
    /// With the bound of the length, as are the other two.
    Str(usize),
    OpF(usize),
    OpV(usize),
    Arr(Box<W>, usize),
    List(Box<W>, usize),
    Opt(Box<W>),
    Enum(String),
    Struct(String),
    Union(String),
}

#[derive(Default)]
pub struct Env {
    pub nums: HashMap<String, Value>,
    pub enums: HashMap<String, Vec<Assign>>,
    pub structs: HashMap<String, Vec<Declaration>>,
    pub unions: HashMap<String, UnionBody>,
    pub typedefs: HashMap<String, Declaration>,
    heights: std::cell::OnceCell<HashMap<String, usize>>,
}
pub fn literal(c: &Constant) -> Option<i128> {
    let (t, r) = match c {
        Constant::Decimal(d) => (d, 10),
        Constant::Hex(d) => (d, 16),
        Constant::Octal(d) => (d, 8),
    };
    // Longer numbers are out of every range.
    i128::from_str_radix(t, r).ok()
}
impl Env {
    pub fn new(defs: &[Definition]) -> Env {
        let mut e = Env::default();
        for d in defs {
            match d {
                Definition::Constant(a) => {
                    e.nums.entry(a.identifier.clone()).or_insert(a.value.clone());
                }
                Definition::Type(TypeDef::Enum(n, b)) => {
                    for a in b {
                        e.nums.entry(a.identifier.clone()).or_insert(a.value.clone());
                    }
                    e.enums.insert(n.clone(), b.clone());
                }
                Definition::Type(TypeDef::Struct(n, b)) => {
                    e.structs.insert(n.clone(), b.clone());
                }
                Definition::Type(TypeDef::Union(n, b)) => {
                    e.unions.insert(n.clone(), b.clone());
                }
                Definition::Type(TypeDef::Declaration(d)) => {
                    if let Some(n) = d.name() {
                        e.typedefs.insert(n.to_string(), d.clone());
                    }
                }
                _ => {}
            }
        }
        e
    }
    /// None: undefined, cyclic or absurd.
    pub fn num(&self, v: &Value) -> Option<i128> {
        let mut v = v.clone();
        for _ in 0..=self.nums.len() {
            match v {
                Value::Constant(c) => return literal(&c),
                Value::Identifier(i) => v = self.nums.get(&i)?.clone(),
            }
        }
        None
    }
    fn spec(&self, t: &TypeSpecifier) -> W {
        use TypeSpecifier::*;
        match t {
            Char(s) => W::Int(8, *s),
            Short(s) => W::Int(16, *s),
            Int(s) => W::Int(32, *s),
            Hyper(s) => W::Int(64, *s),
            Float => W::F32,
            Double => W::F64,
            Bool => W::Bool,
            Identifier(n) => {
                if let Some(d) = self.typedefs.get(n) {
                    return self.wire(d).expect("typedef of void");
                }
                let n = n.clone();
                if self.enums.contains_key(&n) {
                    W::Enum(n)
                } else if self.structs.contains_key(&n) {
                    W::Struct(n)
                } else {
                    assert!(self.unions.contains_key(&n), "{n}");
                    W::Union(n)
                }
            }
            _ => panic!("unsupported type specifier"),
        }
    }
    /// None for void.
    pub fn wire(&self, d: &Declaration) -> Option<W> {
        let n = |v: &Value| self.num(v).expect("size") as usize;
        let most = |b: &Option<Value>| b.as_ref().map_or(usize::MAX, |b| self.num(b).expect("bound") as usize);
        Some(match d {
            Declaration::Void => return None,
            Declaration::Variable(t, _) => self.spec(t),
            Declaration::FixedArray(t, _, v) => W::Arr(Box::new(self.spec(t)), n(v)),
            Declaration::VariableArray(t, _, b) => W::List(Box::new(self.spec(t)), most(b)),
            Declaration::OpaqueFixedArray(_, v) => W::OpF(n(v)),
            Declaration::OpaqueVariableArray(_, b) => W::OpV(most(b)),
            Declaration::String(_, b) => W::Str(most(b)),
            Declaration::OptionVariable(t, _) => W::Opt(Box::new(self.spec(t))),
        })
    }
    pub fn numbers(&self, e: &str) -> Vec<(String, i64)> {
        self.enums[e].iter().map(|a| (a.identifier.clone(), self.num(&a.value).expect("enumerator") as i64)).collect()
    }
    /// Discriminant type, and for every label its number, its Rust variant and its arm.
    pub fn arms(&self, u: &str) -> (W, Vec<(i64, String, Option<W>)>) {
        let b = &self.unions[u];
        let c = self.wire(&b.cond).expect("discriminant");
        let mut v = vec![];
        for sp in &b.specs {
            for l in &sp.values {
                let n = match l {
                    Value::Identifier(i) if c == W::Bool => (i == "TRUE") as i64,
                    l => self.num(l).expect("label") as i64,
                };
                let name = match l {
                    Value::Identifier(i) => camel(i),
                    Value::Constant(_) => format!("Case{n}"),
                };
                v.push((n, name, self.wire(&sp.declaration)));
            }
        }
        (c, v)
    }
    /// How many levels a value of a struct or union has at least; none if every value holds another one.
    /// `default`: whether default arms may end the recursion.
    fn levels(&self, default: bool) -> HashMap<String, usize> {
        fn need(w: &W, h: &HashMap<String, usize>) -> Option<usize> {
            match w {
                W::Arr(x, _) => need(x, h),
                W::Struct(n) | W::Union(n) => h.get(n).copied(),
                _ => Some(0),
            }
        }
        let mut h = HashMap::new();
        loop {
            let before = h.len();
            let mut next = vec![];
            let arm = |d: &Declaration| self.wire(d).map_or(Some(0), |w| need(&w, &h));
            for (n, b) in self.structs.iter().filter(|x| !h.contains_key(x.0)) {
                if let Some(l) = b.iter().map(arm).try_fold(0, |m: usize, x| x.map(|x| m.max(x))) {
                    next.push((n.clone(), l + 1));
                }
            }
            for (n, b) in self.unions.iter().filter(|x| !h.contains_key(x.0)) {
                let more = b.default.iter().filter(|_| default && self.reachable(n));
                if let Some(l) = b.specs.iter().map(|s| &s.declaration).chain(more).filter_map(arm).min() {
                    next.push((n.clone(), l + 1));
                }
            }
            h.extend(next);
            if h.len() == before {
                return h;
            }
        }
    }
    /// Whether a discriminant is left for the default arm.
    fn reachable(&self, union: &str) -> bool {
        let (c, arms) = self.arms(union);
        match c {
            W::Bool => arms.len() < 2,
            W::Enum(e) => self.numbers(&e).iter().any(|x| arms.iter().all(|a| a.0 != x.1)),
            _ => true,
        }
    }
    fn height(&self, w: &Option<W>) -> usize {
        let h = self.heights.get_or_init(|| self.levels(false));
        match w {
            Some(W::Struct(n) | W::Union(n)) => h.get(n).copied().unwrap_or(usize::MAX),
            Some(W::Arr(x, _)) => self.height(&Some((**x).clone())),
            _ => 0,
        }
    }
    /// Whether it holds the type at any depth.
    pub fn reaches(&self, w: &W, to: &str) -> bool {
        reaches(self, w, to, &mut HashSet::new())
    }
    /// Whether it holds a struct or union.
    fn nests(w: &W) -> bool {
        match w {
            W::Arr(x, _) | W::List(x, _) | W::Opt(x) => Self::nests(x),
            W::Struct(_) | W::Union(_) => true,
            _ => false,
        }
    }
    fn path(w: &W) -> String {
        match w {
            W::Arr(x, n) => format!("[{}; {n}]", Self::path(x)),
            W::List(x, _) => format!("Vec<{}>", Self::path(x)),
            W::Opt(x) => format!("Option<{}>", Self::path(x)),
            W::Enum(n) | W::Struct(n) | W::Union(n) => format!("g::{}", camel(n)),
            _ => unreachable!(),
        }
    }
    /// The expression for a field, which may be boxed as it may refer back.
    fn boxed(w: &W, e: String) -> String {
        if Self::nests(w) { format!("From::from({{ let x: {} = {e}; x }})", Self::path(w)) } else { e }
    }
    /// The Rust type, named ones with a `@`; `raw`: whether opaque data stands there as plain octets.
    pub fn rust(&self, w: &W, raw: bool) -> String {
        match w {
            W::Int(b, s) => format!("{}{b}", if *s { "i" } else { "u" }),
            W::F32 => "f32".into(),
            W::F64 => "f64".into(),
            W::Bool => "bool".into(),
            W::Str(_) => "String".into(),
            W::OpF(n) if raw => format!("[u8; {n}]"),
            W::OpV(_) if raw => "Vec<u8>".into(),
            W::OpF(n) => format!("FixedArray<{n}>"),
            W::OpV(_) => "VariableArray".into(),
            W::Arr(x, n) => format!("[{}; {n}]", self.rust(x, false)),
            W::List(x, _) => format!("Vec<{}>", self.rust(x, false)),
            W::Opt(x) => format!("Option<{}>", self.rust(x, false)),
            W::Enum(n) | W::Struct(n) | W::Union(n) => format!("@{}", camel(n)),
        }
    }
}

// ------------------------------------------------------------------ values

fn pad(out: &mut Vec<u8>) {
    while out.len() % 4 != 0 {
        out.push(0)
    }
}
pub struct Vals<'a> {
    pub env: &'a Env,
    pub u: UMode,
}
impl Vals<'_> {
    /// A Rust expression and the octets of the same value.
    pub fn make(&self, w: &W, s: &mut Src, fuel: usize, out: &mut Vec<u8>) -> String {
        let len = |s: &mut Src| if fuel == 0 { 0 } else { [0, 1, 2, 3, 5][s.usize(5)] };
        match w {
            W::Int(bits, signed) => {
                let u = s.uint(*bits);
                let v = if *signed { ((u << (64 - bits)) as i64) >> (64 - bits) } else { u as i64 };
                if *bits == 64 {
                    out.extend_from_slice(&v.to_be_bytes());
                } else {
                    out.extend_from_slice(&(v as i32).to_be_bytes());
                }
                match (bits, signed) {
                    (64, true) => format!("{v}i64"),
                    (64, false) => format!("{u}u64"),
                    (b, true) => format!("{v}i{b}"),
                    (b, false) => format!("{u}u{b}"),
                }
            }
            W::F32 => {
                let u = s.uint(32) as u32;
                let u = if f32::from_bits(u).is_nan() { 0x7f80_0000 } else { u };
                out.extend_from_slice(&u.to_be_bytes());
                format!("f32::from_bits({u})")
            }
            W::F64 => {
                let u = s.uint(64);
                let u = if f64::from_bits(u).is_nan() { 1 } else { u };
                out.extend_from_slice(&u.to_be_bytes());
                format!("f64::from_bits({u})")
            }
            W::Bool => {
                let b = s.bool();
                out.extend_from_slice(&(b as u32).to_be_bytes());
                b.to_string()
            }
            W::Str(max) => {
                let mut t = String::new();
                let mut n = 0;
                while s.more(n, 0, 9, 2, 3) {
                    n += 1;
                    let c = *s.pick(&['a', 'b', 'Z', ' ', '0', 'é', 'あ', '\u{1f600}', '\n', '"', '\\', '\0']);
                    if t.len() + c.len_utf8() <= *max {
                        t.push(c);
                    }
                }
                out.extend_from_slice(&(t.len() as u32).to_be_bytes());
                out.extend_from_slice(t.as_bytes());
                pad(out);
                format!("String::from({t:?})")
            }
            W::OpF(n) => {
                let b: Vec<u8> = (0..*n).map(|_| s.uint(8) as u8).collect();
                out.extend_from_slice(&b);
                pad(out);
                format!("crate::Mk::mk(&{b:?})")
            }
            W::OpV(max) => {
                let n = (len(s) + s.usize(4)).min(*max);
                let b: Vec<u8> = (0..n).map(|_| s.uint(8) as u8).collect();
                out.extend_from_slice(&(n as u32).to_be_bytes());
                out.extend_from_slice(&b);
                pad(out);
                format!("crate::Mk::mk(&{b:?})")
            }
            W::Arr(x, n) => {
                let v: Vec<String> = (0..*n).map(|_| self.make(x, s, fuel.saturating_sub(1), out)).collect();
                format!("[{}]", v.join(", "))
            }
            W::List(x, max) => {
                let n = len(s).min(*max);
                out.extend_from_slice(&(n as u32).to_be_bytes());
                let v: Vec<String> = (0..n).map(|_| self.make(x, s, fuel - 1, out)).collect();
                format!("vec![{}]", v.join(", "))
            }
            W::Opt(x) => {
                let y = fuel > 0 && s.bool();
                out.extend_from_slice(&(y as u32).to_be_bytes());
                if y { format!("Some({})", self.make(x, s, fuel - 1, out)) } else { "None".into() }
            }
            W::Enum(n) => {
                let v = self.env.numbers(n);
                let (name, num) = s.pick(&v).clone();
                out.extend_from_slice(&(num as i32).to_be_bytes());
                format!("g::{}::{}", camel(n), camel(&name))
            }
            W::Struct(n) => {
                let mut f = vec![];
                for d in &self.env.structs[n] {
                    let w = self.env.wire(d).expect("member");
                    let e = self.make(&w, s, fuel.saturating_sub(1), out);
                    let e = Env::boxed(&w, e);
                    f.push(format!("{}: {e}", snake(d.name().unwrap())));
                }
                format!("g::{} {{ {} }}", camel(n), f.join(", "))
            }
            W::Union(n) => {
                let arms = self.env.arms(n).1;
                let mut at = s.usize(arms.len());
                if fuel == 0 {
                    // The arm may hold the union again.
                    let least = arms.iter().map(|a| self.env.height(&a.2)).min().unwrap();
                    if self.env.height(&arms[at].2) > least {
                        at = arms.iter().position(|a| self.env.height(&a.2) == least).unwrap();
                    }
                }
                self.arm(n, at, s, fuel, out)
            }
        }
    }
    pub fn disc(&self, c: &W, n: i64) -> String {
        match c {
            W::Int(32, true) => format!("{n}i32"),
            W::Int(32, false) => format!("{n}u32"),
            W::Bool => (n == 1).to_string(),
            W::Enum(e) => {
                let v = self.env.numbers(e);
                let (name, _) = v.iter().find(|x| x.1 == n).expect("enumerator of the label");
                format!("g::{}::{}", camel(e), camel(name))
            }
            _ => panic!("discriminant {c:?}"),
        }
    }
    pub fn arm(&self, u: &str, at: usize, s: &mut Src, fuel: usize, out: &mut Vec<u8>) -> String {
        let (c, arms) = self.env.arms(u);
        let (n, name, w) = &arms[at];
        self.variant(u, &c, *n, name, w, s, fuel, out)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn variant(&self, u: &str, c: &W, n: i64, name: &str, w: &Option<W>, s: &mut Src, fuel: usize, out: &mut Vec<u8>) -> String {
        out.extend_from_slice(&(n as u32).to_be_bytes());
        let mut f = vec![];
        if self.u == UMode::Union {
            f.push(self.disc(c, n));
        }
        if let Some(w) = w {
            let e = self.make(w, s, fuel.saturating_sub(1), out);
            f.push(Env::boxed(w, e));
        }
        let head = format!("g::{}::{name}", camel(u));
        if f.is_empty() { head } else { format!("{head}({})", f.join(", ")) }
    }
}

// ------------------------------------------------------------------ the generator

#[derive(Clone, Debug)]
pub struct Opts {
    /// Upper limit of enumerators and case labels, as gaps are filled in some modes.
    pub enum_max: i64,
    pub enum_neg: bool,
    pub label_max: i64,
    pub opaque_typedefs: bool,
    /// Kinds of definitions to draw from, by weight: const, enum, struct, union, typedef.
    pub mix: [u64; 5],
    pub max: usize,
    pub defaults: bool,
    pub self_refs: bool,
    /// Default arms may be the only ones which end a recursion.
    pub default_ends: bool,
    /// Percent lines and programs in between.
    pub extras: bool,
    /// Constants and sizes of any magnitude.
    pub big: bool,
    /// Members of integer and enum types only.
    pub plain: bool,
    /// Now and then a larger number, although gaps are filled.
    pub leaps: bool,
    /// How often of ten types are made to refer to later ones.
    pub tangles: u64,
    /// Upper limit of members, cases, enumerators and definitions now and then.
    pub crowd: usize,
    /// Starts every global name, so that two interfaces can be joined.
    pub prefix: &'static str,
}
impl Opts {
    pub fn of(m: Mode) -> Opts {
        let far = i32::MAX as i64;
        // Enumerators serve as case labels too.
        let filled = m.e == EMode::Complement || m.u == UMode::Complement;
        Opts {
            enum_max: if filled { 60 } else { far },
            enum_neg: m.e != EMode::Complement,
            label_max: if m.u == UMode::Complement { 60 } else { u32::MAX as i64 },
            opaque_typedefs: !m.keep_typedefs,
            mix: [2, 3, 5, 3, 3],
            max: 8,
            defaults: true,
            self_refs: true,
            default_ends: false,
            extras: true,
            plain: false,
            big: false,
            leaps: filled,
            tangles: 3,
            crowd: 40,
            prefix: "",
        }
    }
}

const WORDS: &[&str] = &[
    "aa", "bb", "name", "file", "handle", "size", "mode", "data", "value", "index", "node", "next", "list", "key", "count", "status",
    "error", "ok", "len", "flag", "v2", "x3", "user", "info", "red", "blue", "ser", "seq", "variant", "item", "visitor", "field",
    "a", "b", "z", "x86", "ipv4",
];
const TRICKY_WORDS: &[&str] = &[
    "type", "ref", "match", "self", "super", "move", "loop", "fn", "in", "box", "dyn", "async", "abstract", "crate", "use", "impl", "gen",
    "state", "deserializer", "intx", "voider", "casey", "as_ref", "try_from", "Error",
];
const ACRONYMS: &[&str] = &["ID", "URL", "IO", "XDR", "UUID"];
/// Names which mean something in Rust, in its libraries or in generated code, and may be used all the same.
const STRANGE_WORDS: &[&str] = &[
    "option", "result", "Result", "Option", "String", "Vec", "Box", "Default", "default", "u8", "u32", "i32", "usize", "str", "f64", "std",
    "serde", "core", "alloc", "serde_xdr", "v", "index", "value", "seq", "ser", "variant", "formatter", "serializer", "deserializer",
    "a0", "r0", "Clone", "Debug", "PartialEq", "TryFrom", "From", "AsRef", "Send", "Sync", "Drop", "Fn", "Iterator", "Visitor", "Error",
    "Formatter", "e", "n", "data", "map", "key", "val", "arg0", "field0", "Reserved", "S", "D", "E", "A", "T", "V",
    "Cow", "Vec_u8", "bool_", "main", "g", "vec", "format", "i", "x", "len", "write", "Into", "into", "new", "raw", "bytes", "ByteBuf",
];
/// What generated code imports.
const IMPORTED: &[&str] = &["Serialize", "Deserialize", "SerializeTuple", "XdrIndexer", "XdrUnion"];
/// Patterns which every Rust program relies on.
const PATTERNS: &[&str] = &["Some", "None", "Ok", "Err"];

pub struct Gen<'a> {
    s: &'a mut Src,
    o: &'a Opts,
    types: HashSet<String>,
    globals: HashSet<String>,
    pub defs: Vec<Definition>,
    /// Named numbers: constants, and enumerators when `true`.
    nums: Vec<(String, i64, bool)>,
    /// How many names lead from a named number to a literal.
    steps: HashMap<String, usize>,
    enums: Vec<String>,
    /// Named types to use for members.
    usable: Vec<String>,
    /// Typedefs of enums.
    enum_aliases: Vec<(String, String)>,
}

/// The words of a text, in lower case.
fn parts(t: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    for c in t.chars() {
        if !c.is_ascii_alphabetic() || c.is_ascii_uppercase() {
            v.push(String::new());
        }
        if c.is_ascii_alphabetic() {
            v.last_mut().unwrap().push(c.to_ascii_lowercase());
        }
    }
    v.retain(|w| !w.is_empty());
    v
}
fn words(s: &mut Src, upper: bool) -> String {
    let tricky = s.chance(1, 6);
    let n = match s.below(8) {
        _ if tricky => 1,
        0 => 4 + s.usize(5),
        k => 1 + k as usize % 3,
    };
    let mut w: Vec<&str> = (0..n)
        .map(|_| match s.usize(if tricky { 4 } else { 1 }) {
            _ if !tricky => *s.pick(WORDS),
            0 | 1 => *s.pick(STRANGE_WORDS),
            2 => *s.pick(KEYWORDS),
            _ => *s.pick(TRICKY_WORDS),
        })
        .collect();
    // Parts which the code under test mentions.
    let part = s.word().and_then(|t| {
        let k: Vec<String> = parts(&t);
        if k.is_empty() { None } else { Some(s.pick(&k).clone()) }
    });
    if let Some(p) = &part {
        if tricky || s.chance(1, 3) {
            w = vec![p.as_str()];
        } else {
            let i = *s.pick(&[0, w.len()]);
            w.insert(i, p.as_str());
        }
    }
    if !tricky {
        // Long names.
        let least = s.least(0, 90);
        while w.len() < least {
            w.push(*s.pick(WORDS));
        }
    }
    // Runs of capitals only at the end, where there is no doubt about the words.
    if !tricky && s.chance(1, 8) {
        w.push(*s.pick(ACRONYMS));
    }
    let cap = |w: &str| w[..1].to_ascii_uppercase() + &w[1..];
    let camel = |w: &[&str]| w.iter().map(|w| cap(w)).collect::<String>();
    if tricky && s.chance(2, 3) {
        return w[0].to_string();
    }
    match s.below(if upper { 7 } else { 6 }) {
        0 | 1 => w.join("_"),
        2 => w[0].to_string() + &camel(&w[1..]),
        3 => camel(&w),
        4 => w.iter().map(|w| cap(w)).collect::<Vec<_>>().join("_"),
        _ => w.join("_").to_ascii_uppercase(),
    }
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, o: &'a Opts) -> Self {
        Gen {
            s,
            o,
            types: HashSet::new(),
            globals: HashSet::new(),
            defs: vec![],
            nums: vec![],
            steps: HashMap::new(),
            enums: vec![],
            usable: vec![],
            enum_aliases: vec![],
        }
    }
    fn fresh(&mut self, upper: bool, ok: impl Fn(&Self, &str) -> bool) -> String {
        let mut n = words(self.s, upper);
        if !self.o.prefix.is_empty() {
            n = format!("{}_{n}", self.o.prefix);
        }
        while reserved(&n) || ["char", "short", "TRUE", "FALSE"].contains(&n.as_str()) || !ok(self, &n) {
            let w = *self.s.pick(WORDS);
            if n.contains('_') {
                n = format!("{n}_{}", if n.chars().any(|c| c.is_ascii_lowercase()) { w.into() } else { w.to_ascii_uppercase() });
            } else {
                n = format!("{n}{}{}", w[..1].to_ascii_uppercase(), &w[1..]);
            }
        }
        n
    }
    fn type_name(&mut self) -> String {
        let n = self.fresh(true, |g, n| {
            let c = camel(n);
            !g.types.contains(&c) && !g.types.contains(n) && !IMPORTED.contains(&c.as_str())
        });
        self.types.insert(camel(&n));
        self.types.insert(n.clone());
        n
    }
    fn global(&mut self, local: &HashSet<String>, constant: bool) -> String {
        let n = self.fresh(true, |g, n| !g.globals.contains(n) && !local.contains(&camel(n)) && camel(n) != "Default" && !(constant && PATTERNS.contains(&n)));
        self.globals.insert(n.clone());
        n
    }
    fn literal(&mut self, v: i64) -> Value {
        Value::Constant(match self.s.below(4) {
            1 if v >= 0 => Constant::Hex(match self.s.below(3) {
                0 => format!("{v:x}"),
                1 => format!("{v:X}"),
                _ => format!("{v:04x}"),
            }),
            2 if v > 0 => Constant::Octal(format!("{v:o}")),
            3 if v >= 0 => Constant::Octal(format!("{v:03o}")),
            _ => Constant::Decimal(v.to_string()),
        })
    }
    /// A spelling of the number: a literal, or a name for it.
    fn value(&mut self, v: i64) -> Value {
        match self.s.below(8) {
            0..=4 => self.literal(v),
            5 | 6 => {
                // Chains of more than a hundred names may be refused.
                let named: Vec<String> = self.nums.iter().filter(|n| n.1 == v && self.steps[&n.0] < 97).map(|n| n.0.clone()).collect();
                if named.is_empty() { self.literal(v) } else { Value::Identifier(self.s.pick(&named).clone()) }
            }
            _ if v >= 0 => Value::Identifier(self.constant(v)),
            _ => self.literal(v),
        }
    }
    fn constant(&mut self, v: i64) -> String {
        if self.s.chance(1, 150) {
            let n = 1 + self.s.usize(90);
            let mut value = self.literal(v);
            for i in 0..n {
                let c = self.global(&HashSet::new(), true);
                self.defs.push(Definition::Constant(Assign { identifier: c.clone(), value }));
                self.steps.insert(c.clone(), i);
                if i + 1 == n || self.s.chance(1, 8) {
                    self.nums.push((c.clone(), v, false));
                }
                value = Value::Identifier(c);
            }
        }
        let value = self.value(v);
        let n = self.global(&HashSet::new(), true);
        self.lead(&n, &value);
        self.defs.push(Definition::Constant(Assign { identifier: n.clone(), value }));
        self.nums.push((n.clone(), v, false));
        n
    }
    fn number(&mut self, max: i64, neg: bool) -> i64 {
        if let Some(n) = self.s.hint(max as u64) {
            return if neg && self.s.chance(1, 4) { -(n as i64) } else { n as i64 };
        }
        if self.o.leaps && self.s.chance(1, 120) {
            return 100 + self.s.below(1100) as i64;
        }
        match self.s.below(8) {
            0..=4 => self.s.below(12.min(max as u64 + 1)) as i64,
            5 => self.s.below(max as u64 + 1) as i64,
            6 if neg => -1 - self.s.below(5) as i64,
            7 if neg => i32::MIN as i64 + self.s.below(3) as i64,
            7 => max - self.s.below(3) as i64,
            _ => max / 2 + self.s.below(4) as i64,
        }
    }
    fn lead(&mut self, n: &str, to: &Value) {
        let steps = match to {
            Value::Identifier(i) => self.steps[i] + 1,
            _ => 0,
        };
        self.steps.insert(n.into(), steps);
    }
    /// The least number of members, cases or enumerators.
    fn crowd(&mut self, most: usize) -> usize {
        if self.o.crowd > 0 && self.s.chance(1, if most > 100 { 120 } else { 400 }) {
            return most - self.s.usize(most / 4);
        }
        self.s.least(1, self.o.crowd)
    }
    fn enumeration(&mut self) {
        let name = self.type_name();
        let (mut local, mut used) = (HashSet::new(), HashSet::new());
        let mut body = vec![];
        let mut mine = vec![];
        let least = self.crowd(300).min(self.o.enum_max as usize / 2);
        while self.s.more(body.len(), least, 7.max(least), 3, 4) {
            let mut v = self.number(self.o.enum_max, self.o.enum_neg);
            while !used.insert(v) {
                v = if v == self.o.enum_max { 0 } else { v + 1 };
            }
            let value = self.value(v);
            let n = self.global(&local, false);
            local.insert(camel(&n));
            self.lead(&n, &value);
            body.push(Assign { identifier: n.clone(), value });
            mine.push((n, v, true));
        }
        self.nums.extend(mine);
        self.defs.push(Definition::Type(TypeDef::Enum(name.clone(), body)));
        self.enums.push(name.clone());
        self.usable.push(name);
    }
    fn spec(&mut self) -> TypeSpecifier {
        use TypeSpecifier::*;
        if self.o.plain {
            let ok = !self.usable.is_empty() && self.s.chance(5, 6);
            return if ok { Identifier(self.s.pick(&self.usable).clone()) } else { Int(true) };
        }
        let n = self.s.below(16);
        match n {
            0 => Int(true),
            1 => Int(false),
            2 => Hyper(true),
            3 => Hyper(false),
            4 => Float,
            5 => Double,
            6 => Bool,
            7 => Char(true),
            8 => Char(false),
            9 => Short(true),
            10 => Short(false),
            _ if self.usable.is_empty() => Int(true),
            _ => Identifier(self.s.pick(&self.usable).clone()),
        }
    }
    fn bound(&mut self) -> Option<Value> {
        if self.s.bool() {
            let n = match self.s.below(8) {
                0 => self.s.below(5),
                1 => self.s.uint(32),
                _ => self.s.below(200),
            };
            Some(self.value(n as i64))
        } else {
            None
        }
    }
    fn array_len(&mut self) -> Value {
        if self.o.big && self.s.chance(1, 4) {
            let n = self.s.uint(63) as i64;
            return self.value(n);
        }
        let n = match self.s.below(6) {
            0..=3 => self.s.below(5),
            4 => self.s.below(33),
            _ => 1,
        };
        self.value(n as i64)
    }
    fn opaque_len(&mut self) -> Value {
        if self.o.big && self.s.chance(1, 4) {
            let n = self.s.uint(63) as i64;
            return self.value(n);
        }
        if let Some(n) = self.s.hint(5000) {
            return self.value(n as i64);
        }
        let n = match self.s.below(6) {
            0..=3 => self.s.below(10),
            4 => self.s.below(33),
            _ => 30 + self.s.below(50),
        };
        self.value(n as i64)
    }
    fn declaration(&mut self, name: String, opaque: bool) -> Declaration {
        use Declaration::*;
        let opaque = opaque && !self.o.plain;
        match self.s.below(12) {
            0 if opaque => {
                let v = self.opaque_len();
                OpaqueFixedArray(name, v)
            }
            1 if opaque => OpaqueVariableArray(name, self.bound()),
            2 if !self.o.plain => String(name, self.bound()),
            3 => {
                let t = self.spec();
                FixedArray(t, name, self.array_len())
            }
            4 | 5 => {
                let t = self.spec();
                VariableArray(t, name, self.bound())
            }
            6 | 7 => OptionVariable(self.spec(), name),
            _ => Variable(self.spec(), name),
        }
    }
    fn field(&mut self, local: &mut HashSet<String>) -> String {
        let n = self.fresh(false, |_, n| !local.contains(&snake(n)));
        local.insert(snake(&n));
        n
    }
    fn structure(&mut self) {
        let name = self.type_name();
        let mut local = HashSet::new();
        let mut body = vec![];
        let least = self.crowd(90);
        while self.s.more(body.len(), least, 7.max(least), 3, 4) {
            let f = self.field(&mut local);
            let d = self.declaration(f, true);
            body.push(d);
        }
        if self.o.self_refs && self.s.chance(1, 5) {
            let f = self.field(&mut local);
            let me = TypeSpecifier::Identifier(name.clone());
            let d = if self.s.bool() { Declaration::OptionVariable(me, f) } else { Declaration::VariableArray(me, f, None) };
            if self.s.chance(1, 3) {
                // By way of a typedef.
                let t = self.type_name();
                self.defs.push(Definition::Type(TypeDef::Declaration(renamed(&d, &t))));
                let f = d.name().unwrap().to_string();
                body.push(Declaration::Variable(TypeSpecifier::Identifier(t), f));
            } else {
                body.push(d);
            }
        }
        self.defs.push(Definition::Type(TypeDef::Struct(name.clone(), body)));
        self.usable.push(name);
    }
    fn union(&mut self) {
        let name = self.type_name();
        let kind = self.s.below(4);
        let dname = "disc".to_string();
        let cond_enum = (kind >= 2 && !self.enums.is_empty()).then(|| self.s.pick(&self.enums).clone());
        let mut cases: Vec<(i64, Value)> = vec![];
        let mut cond = TypeSpecifier::Int(true);
        let mut local = HashSet::new();
        if let Some(e) = &cond_enum {
            cond = TypeSpecifier::Identifier(e.clone());
            let al: Vec<String> = self.enum_aliases.iter().filter(|a| &a.1 == e).map(|a| a.0.clone()).collect();
            if !al.is_empty() && self.s.bool() {
                cond = TypeSpecifier::Identifier(self.s.pick(&al).clone());
            }
            let env = Env::new(&self.defs);
            for (n, v) in env.numbers(e) {
                if v >= 0 && (cases.is_empty() || self.s.chance(3, 4)) {
                    cases.push((v, Value::Identifier(n)));
                }
            }
        } else if kind == 1 {
            cond = TypeSpecifier::Bool;
            for (v, n) in [(1, "TRUE"), (0, "FALSE")] {
                if cases.is_empty() || self.s.chance(3, 4) {
                    cases.push((v, Value::Identifier(n.into())));
                }
            }
        }
        if cases.is_empty() {
            let signed = self.s.bool();
            cond = TypeSpecifier::Int(signed);
            let max = self.o.label_max.min(if signed { i32::MAX as i64 } else { u32::MAX as i64 });
            let least = self.crowd(300).min(max as usize / 2);
            while self.s.more(cases.len(), least, 6.max(least), 3, 4) {
                let mut v = self.number(max, false);
                while cases.iter().any(|c| c.0 == v) {
                    v = if v == max { 0 } else { v + 1 };
                }
                let value = self.value(v);
                let value = match &value {
                    Value::Identifier(i) if local.contains(&camel(i)) => Value::Constant(Constant::Decimal(v.to_string())),
                    _ => value,
                };
                if let Value::Identifier(i) = &value {
                    local.insert(camel(i));
                }
                cases.push((v, value));
            }
        }
        // Any order of labels.
        for i in (1..cases.len()).rev() {
            let j = i - self.s.usize(i + 1);
            cases.swap(i, j);
        }
        let mut specs: Vec<CaseSpec> = vec![];
        for (_, v) in cases {
            if let Some(l) = specs.last_mut() {
                if self.s.chance(1, 4) {
                    l.values.push(v);
                    continue;
                }
            }
            let declaration = self.arm(&name);
            specs.push(CaseSpec { values: vec![v], declaration });
        }
        let default = if self.o.defaults && self.s.chance(1, 3) { Some(self.arm(&name)) } else { None };
        let body = UnionBody { cond: Declaration::Variable(cond, dname), specs, default };
        self.defs.push(Definition::Type(TypeDef::Union(name.clone(), body)));
        self.usable.push(name);
    }
    fn arm(&mut self, me: &str) -> Declaration {
        if self.s.chance(1, 3) {
            return Declaration::Void;
        }
        if self.o.self_refs && self.s.chance(1, 12) {
            let me = TypeSpecifier::Identifier(me.into());
            return if self.s.bool() { Declaration::VariableArray(me, "more".into(), None) } else { Declaration::OptionVariable(me, "next".into()) };
        }
        self.declaration("arm".into(), true)
    }
    fn typedef(&mut self) {
        let name = self.type_name();
        let d = self.declaration(name.clone(), self.o.opaque_typedefs);
        if let Declaration::Variable(TypeSpecifier::Identifier(t), _) = &d {
            let e = if self.enums.contains(t) { Some(t.clone()) } else { self.enum_aliases.iter().find(|a| &a.0 == t).map(|a| a.1.clone()) };
            if let Some(e) = e {
                self.enum_aliases.push((name.clone(), e));
            }
        }
        self.defs.push(Definition::Type(TypeDef::Declaration(d)));
        self.usable.push(name);
    }
    /// Lets types refer to later ones, by optional data or lists, or as they are where a union ends the recursion.
    fn entangle(&mut self) {
        for _ in 0..1 + self.s.usize(3) {
            let types: Vec<(usize, String)> = (0..self.defs.len())
                .filter_map(|i| match &self.defs[i] {
                    Definition::Type(TypeDef::Struct(n, _) | TypeDef::Union(n, _)) => Some((i, n.clone())),
                    _ => None,
                })
                .collect();
            if types.len() < 2 {
                return;
            }
            let (at, _) = types[self.s.usize(types.len())].clone();
            let to = TypeSpecifier::Identifier(types[self.s.usize(types.len())].1.clone());
            let kind = self.s.below(6);
            let two = Value::Constant(Constant::Decimal("2".into()));
            let make = |f: String| match kind {
                0 | 1 => Declaration::VariableArray(to, f, None),
                2 | 3 => Declaration::OptionVariable(to, f),
                4 if f.len() % 3 == 0 => Declaration::FixedArray(to, f, two),
                _ => Declaration::Variable(to, f),
            };
            let mut def = self.defs[at].clone();
            match &mut def {
                Definition::Type(TypeDef::Struct(_, b)) => {
                    let mut local: HashSet<String> = b.iter().filter_map(|d| d.name()).map(snake).collect();
                    let f = self.field(&mut local);
                    let i = self.s.usize(b.len() + 1);
                    b.insert(i, make(f));
                }
                Definition::Type(TypeDef::Union(_, b)) => {
                    let i = self.s.usize(b.specs.len() + b.default.is_some() as usize);
                    match b.specs.get_mut(i) {
                        Some(c) => c.declaration = make(["link", "linked"][self.s.usize(2)].into()),
                        None => b.default = Some(make("rest".into())),
                    }
                }
                _ => unreachable!(),
            }
            std::mem::swap(&mut self.defs[at], &mut def);
            if kind >= 4 {
                let e = Env::new(&self.defs);
                if e.levels(self.o.default_ends).len() < e.structs.len() + e.unions.len() {
                    // Every value would hold another one.
                    self.defs[at] = def;
                }
            }
        }
    }
    /// Types which lead back to the first by way of many others.
    fn ring(&mut self) {
        let n = if self.s.bool() { 2 + self.s.usize(4) } else { 2 + self.s.usize(24) };
        let names: Vec<String> = (0..n).map(|_| self.type_name()).collect();
        let ends = self.s.usize(n);
        let lists = self.s.bool();
        for i in 0..n {
            let mut local = HashSet::new();
            let f = self.field(&mut local);
            let to = TypeSpecifier::Identifier(names[(i + 1) % n].clone());
            let link = match self.s.below(8) {
                0 if lists => Declaration::VariableArray(to, f, None),
                1 => Declaration::OptionVariable(to, f),
                _ if i == ends => Declaration::OptionVariable(to, f),
                2 => Declaration::FixedArray(to, f, Value::Constant(Constant::Decimal("1".into()))),
                _ => Declaration::Variable(to, f),
            };
            let def = if self.s.chance(1, 4) {
                let specs = vec![
                    CaseSpec { values: vec![Value::Constant(Constant::Decimal("0".into()))], declaration: link },
                    CaseSpec { values: vec![Value::Constant(Constant::Decimal("1".into()))], declaration: Declaration::Void },
                ];
                TypeDef::Union(names[i].clone(), UnionBody { cond: Declaration::Variable(TypeSpecifier::Int(true), "disc".into()), specs, default: None })
            } else {
                let mut body = vec![link];
                if self.s.chance(1, 3) {
                    let f = self.field(&mut local);
                    body.push(Declaration::Variable(TypeSpecifier::Int(true), f));
                }
                TypeDef::Struct(names[i].clone(), body)
            };
            self.defs.push(Definition::Type(def));
        }
        let entry = self.s.usize(n);
        self.usable.push(names[entry].clone());
    }
    pub fn run(mut self) -> Vec<Definition> {
        let total: u64 = self.o.mix.iter().sum();
        let mut n = 0;
        let least = self.s.least(1, self.o.crowd);
        if self.o.self_refs && self.s.chance(1, 40) {
            self.ring();
        }
        while self.s.more(n, least, self.o.max.max(least), 5, 6) {
            n += 1;
            let mut r = self.s.below(total);
            let mut k = 0;
            while r >= self.o.mix[k] {
                r -= self.o.mix[k];
                k += 1;
            }
            match k {
                0 => {
                    let v = match self.s.below(4) {
                        0 => self.s.uint(32) as i64,
                        1 => self.s.uint(63) as i64,
                        _ => self.s.below(70) as i64,
                    };
                    self.constant(v);
                }
                1 => self.enumeration(),
                2 => self.structure(),
                3 => self.union(),
                _ => self.typedef(),
            }
        }
        if self.o.self_refs && self.s.chance(self.o.tangles, 10) {
            self.entangle();
        }
        if self.s.bool() {
            shuffle(&mut self.defs, self.s);
        }
        if self.o.extras && self.s.chance(1, 4) {
            let at = self.s.usize(self.defs.len() + 1);
            let d = if self.s.bool() { Definition::LineComment } else { program() };
            self.defs.insert(at, d);
        }
        self.defs
    }
}
/// Whether declarations hold values of the named type at any depth.
fn reaches(env: &Env, w: &W, to: &str, seen: &mut HashSet<String>) -> bool {
    match w {
        W::Arr(x, _) | W::List(x, _) | W::Opt(x) => reaches(env, x, to, seen),
        W::Enum(n) | W::Struct(n) | W::Union(n) => {
            if n == to {
                return true;
            }
            if !seen.insert(n.clone()) {
                return false;
            }
            let members: Vec<&Declaration> = match (env.structs.get(n), env.unions.get(n)) {
                (Some(b), _) => b.iter().collect(),
                (_, Some(b)) => b.specs.iter().map(|s| &s.declaration).chain(&b.default).collect(),
                _ => vec![],
            };
            members.into_iter().filter_map(|d| env.wire(d)).any(|w| reaches(env, &w, to, seen))
        }
        _ => false,
    }
}
pub fn program() -> Definition {
    let num = |n: &str| Value::Constant(Constant::Decimal(n.into()));
    let procedures = vec![Procedure {
        res_ty: TypeSpecifier::Int(true),
        method: "PROC_NULL".into(),
        req_ty: TypeSpecifier::Void,
        value: num("1"),
    }];
    Definition::Program(Program {
        name: "PROG_X".into(),
        versions: vec![Version { name: "VERS_X".into(), procedures, value: num("2") }],
        value: num("3"),
    })
}
pub fn shuffle<T>(v: &mut [T], s: &mut Src) {
    for i in (1..v.len()).rev() {
        let j = i - s.usize(i + 1);
        v.swap(i, j);
    }
}
pub fn renamed(d: &Declaration, name: &str) -> Declaration {
    use Declaration::*;
    let n = name.to_string();
    match d.clone() {
        Variable(t, _) => Variable(t, n),
        FixedArray(t, _, v) => FixedArray(t, n, v),
        VariableArray(t, _, v) => VariableArray(t, n, v),
        OpaqueFixedArray(_, v) => OpaqueFixedArray(n, v),
        OpaqueVariableArray(_, v) => OpaqueVariableArray(n, v),
        String(_, v) => String(n, v),
        OptionVariable(t, _) => OptionVariable(t, n),
        Void => Void,
    }
}
pub fn generate(s: &mut Src, o: &Opts) -> Vec<Definition> {
    Gen::new(s, o).run()
}
