//! C10 and C11: enums which derive XdrIndexer or XdrUnion are compiled and run against a reference encoding.
use crate::e2e::{Call, Unit};
use crate::sem::{EMode, Env, Mode, UMode};
use crate::wire_checks::{Batch, Case, Expect, replay_batch, run_batch};
use vhcore::driver::Check;
use vhcore::*;

#[derive(Clone, Debug, PartialEq)]
enum T {
    /// An integer: bits, signed.
    Int(u32, bool),
    F32,
    F64,
    Bool,
    Char,
    Str,
    Unit,
    OpV,
    Opt(Box<T>),
    Vec(Box<T>),
    Box(Box<T>),
    Arr(Box<T>, usize),
    Tup(Vec<T>),
    /// With 32-bit unsigned keys.
    Map(Box<T>),
    Named(usize),
    /// The type itself, optional and boxed.
    This,
}
#[derive(Clone, Debug)]
enum Kind {
    Indexer { numbers: Vec<i32>, other: Option<usize> },
    /// What stands for the variants: literal, octets, variant.
    Union { disc: T, values: Vec<(String, Vec<u8>, usize)>, other: Option<usize> },
    Plain,
    Struct,
}
#[derive(Clone, Debug)]
struct Decl {
    name: String,
    kind: Kind,
    /// Of a union without the discriminant.
    variants: Vec<(String, Vec<T>)>,
}

const TYPES: &[&str] = &["S", "D", "A", "T", "E", "V", "Shape", "Message", "Value", "Error", "Seq", "Item", "Index", "U", "Ser", "De",
    "Option", "Result", "String", "Vec", "Box", "Default", "Visitor", "Formatter", "Clone", "From", "Self_", "Serializer",
];
/// Constants beside the type.
const CONSTANTS: &[&str] = &[
    "index", "value", "variant", "ser", "seq", "serializer", "deserializer", "formatter", "a0", "r0", "a1", "r1", "v", "e", "de", "len",
    "name", "this", "x", "field", "INDEX", "f", "state", "visitor", "i", "result",
];
const VARIANTS: &[&str] = &[
    "A", "B", "C", "Ok", "Err", "Some", "None", "Value", "Error", "Default", "First", "Second", "Third", "D", "S", "Other", "Case0", "Case1",
    "Case10", "Red", "Green", "V1", "V2", "V10", "Ser", "Index", "Long_Name", "lower",
    "r#type", "r#gen",
];

impl T {
    fn draw(s: &mut Src, decls: &[Decl], depth: u32, this: bool) -> T {
        let d = depth.saturating_sub(1);
        match s.below(if depth == 0 { 9 } else { 18 }) {
            0 | 1 => T::Int(32, s.bool()),
            2 => T::Int(*s.pick(&[8, 16, 64]), s.bool()),
            3 => T::Str,
            4 => T::Bool,
            5 => s.pick(&[T::F32, T::F64]).clone(),
            6 => T::Char,
            7 => T::OpV,
            8 => T::Unit,
            9 | 10 if !decls.is_empty() => T::Named(s.usize(decls.len())),
            11 if this => T::This,
            12 => T::Opt(Box::new(T::draw(s, decls, d, false))),
            13 => T::Box(Box::new(T::draw(s, decls, d, false))),
            14 => {
                let n = if s.chance(1, 10) { *s.pick(&[0, 32, 31]) } else { 1 + s.usize(4) };
                T::Arr(Box::new(T::draw(s, decls, d, false)), n)
            }
            15 => {
                let n = 1 + s.usize(4);
                T::Tup((0..n).map(|_| T::draw(s, decls, d, false)).collect())
            }
            16 => {
                let t = T::draw(s, decls, d, false);
                if t.least(decls) == 0 { t } else { T::Vec(Box::new(t)) }
            }
            17 => T::Map(Box::new(T::draw(s, decls, d, false))),
            _ => T::Int(32, false),
        }
    }
    /// The fewest octets which a value takes.
    fn least(&self, decls: &[Decl]) -> usize {
        match self {
            T::Int(64, _) | T::F64 => 8,
            T::Unit => 0,
            T::Box(t) => t.least(decls),
            T::Arr(t, n) => t.least(decls) * n,
            T::Tup(v) => v.iter().map(|t| t.least(decls)).sum(),
            T::Named(i) => match &decls[*i].kind {
                Kind::Struct => decls[*i].variants[0].1.iter().map(|t| t.least(decls)).sum(),
                _ => 4,
            },
            _ => 4,
        }
    }
    /// Has floats, which need not equal themselves.
    fn floats(&self, decls: &[Decl]) -> bool {
        match self {
            T::F32 | T::F64 => true,
            T::Opt(t) | T::Vec(t) | T::Box(t) | T::Arr(t, _) | T::Map(t) => t.floats(decls),
            T::Tup(v) => v.iter().any(|t| t.floats(decls)),
            T::Named(i) => decls[*i].variants.iter().flat_map(|v| &v.1).any(|t| t.floats(decls)),
            _ => false,
        }
    }
    fn rust(&self, decls: &[Decl], this: &str) -> String {
        let r = |t: &T| t.rust(decls, this);
        match self {
            T::Int(b, true) => format!("i{b}"),
            T::Int(b, false) => format!("u{b}"),
            T::F32 => "f32".into(),
            T::F64 => "f64".into(),
            T::Bool => "bool".into(),
            T::Char => "char".into(),
            T::Str => "::std::string::String".into(),
            T::Unit => "()".into(),
            T::OpV => "::serde_xdr::opaque::VariableArray".into(),
            T::Opt(t) => format!("::std::option::Option<{}>", r(t)),
            T::Vec(t) => format!("::std::vec::Vec<{}>", r(t)),
            T::Box(t) => format!("::std::boxed::Box<{}>", r(t)),
            T::Arr(t, n) => format!("[{}; {n}]", r(t)),
            T::Tup(v) => format!("({},)", v.iter().map(r).collect::<Vec<_>>().join(", ")),
            T::Map(t) => format!("::std::collections::BTreeMap<u32, {}>", r(t)),
            T::Named(i) => decls[*i].name.clone(),
            T::This => format!("::std::option::Option<::std::boxed::Box<{this}>>"),
        }
    }
    /// A value as Rust expression, and its octets.
    fn value(&self, s: &mut Src, decls: &[Decl], this: Option<usize>, depth: u32, out: &mut Vec<u8>) -> String {
        let d = depth.saturating_sub(1);
        match self {
            T::Int(b, true) => {
                let v = s.int(*b);
                if *b == 64 { out.extend(v.to_be_bytes()) } else { out.extend((v as i32).to_be_bytes()) }
                if v == i64::MIN { "i64::MIN".into() } else { format!("({v}i{b})") }
            }
            T::Int(b, false) => {
                let v = s.uint(*b);
                if *b == 64 { out.extend(v.to_be_bytes()) } else { out.extend((v as u32).to_be_bytes()) }
                format!("{v}u{b}")
            }
            T::F32 => {
                let v = s.uint(32) as u32;
                out.extend(v.to_be_bytes());
                format!("f32::from_bits({v})")
            }
            T::F64 => {
                let v = s.uint(64);
                out.extend(v.to_be_bytes());
                format!("f64::from_bits({v})")
            }
            T::Bool => {
                let v = s.bool();
                out.extend((v as u32).to_be_bytes());
                v.to_string()
            }
            T::Char => {
                let c = *s.pick(&['a', 'Z', '\0', 'é', '\u{10ffff}', '中', '\'', '\u{d7ff}']);
                out.extend((c as u32).to_be_bytes());
                format!("'\\u{{{:x}}}'", c as u32)
            }
            T::Str => {
                let n = s.usize(8);
                let t: String = (0..n).map(|_| *s.pick(&['x', 'y', 'é', '中', '\0', '"'])).collect();
                octets(t.as_bytes(), out);
                format!("{t:?}.to_string()")
            }
            T::Unit => "()".into(),
            T::OpV => {
                let n = s.usize(10);
                let b: Vec<u8> = (0..n).map(|_| s.uint(8) as u8).collect();
                octets(&b, out);
                format!("::serde_xdr::opaque::VariableArray {{ data: vec!{b:?} }}")
            }
            T::Opt(t) => {
                if s.bool() {
                    out.extend([0, 0, 0, 1]);
                    format!("Some({})", t.value(s, decls, this, d, out))
                } else {
                    out.extend([0; 4]);
                    "None".into()
                }
            }
            T::Vec(t) => {
                let n = if depth == 0 { 0 } else { s.usize(4) };
                out.extend((n as u32).to_be_bytes());
                let v: Vec<String> = (0..n).map(|_| t.value(s, decls, this, d, out)).collect();
                format!("vec![{}]", v.join(", "))
            }
            T::Box(t) => format!("::std::boxed::Box::new({})", t.value(s, decls, this, d, out)),
            T::Arr(t, n) => {
                let v: Vec<String> = (0..*n).map(|_| t.value(s, decls, this, d, out)).collect();
                format!("[{}]", v.join(", "))
            }
            T::Tup(v) => {
                let v: Vec<String> = v.iter().map(|t| t.value(s, decls, this, d, out)).collect();
                format!("({},)", v.join(", "))
            }
            T::Map(t) => {
                let n = if depth == 0 { 0 } else { s.usize(3) };
                out.extend((n as u32).to_be_bytes());
                let mut k = s.uint(16) as u32;
                let v: Vec<String> = (0..n)
                    .map(|_| {
                        out.extend(k.to_be_bytes());
                        let e = format!("({k}u32, {})", t.value(s, decls, this, d, out));
                        k += 1 + s.uint(16) as u32;
                        e
                    })
                    .collect();
                format!("::std::collections::BTreeMap::from([{}])", v.join(", "))
            }
            T::Named(i) => decls[*i].value(s, decls, *i, None, d, out),
            T::This => {
                if depth > 0 && s.bool() {
                    let i = this.expect("the type itself");
                    out.extend([0, 0, 0, 1]);
                    format!("Some(::std::boxed::Box::new({}))", decls[i].value(s, decls, i, None, d, out))
                } else {
                    out.extend([0; 4]);
                    "None".into()
                }
            }
        }
    }
}
fn octets(b: &[u8], out: &mut Vec<u8>) {
    out.extend((b.len() as u32).to_be_bytes());
    out.extend(b);
    out.resize(out.len().div_ceil(4) * 4, 0);
}

impl Decl {
    /// A value of that variant, or any.
    fn value(&self, s: &mut Src, decls: &[Decl], me: usize, variant: Option<usize>, depth: u32, out: &mut Vec<u8>) -> String {
        let mut args = vec![];
        let at = match &self.kind {
            Kind::Struct => {
                let v: Vec<String> = self.variants[0].1.iter().map(|t| t.value(s, decls, Some(me), depth, out)).collect();
                let f: Vec<String> = v.iter().enumerate().map(|(i, v)| format!("f{i}: {v}")).collect();
                return format!("{} {{ {} }}", self.name, f.join(", "));
            }
            Kind::Union { disc, values, other } => {
                let of: Vec<&(String, Vec<u8>, usize)> = values.iter().filter(|v| variant.is_none_or(|x| x == v.2)).collect();
                let fresh = *other == variant.or(*other) && other.is_some();
                if !of.is_empty() && !(fresh && s.chance(1, 3)) {
                    let v = *s.pick(&of);
                    args.push(v.0.clone());
                    out.extend(&v.1);
                    v.2
                } else {
                    // A value without a variant of its own.
                    let mut b = vec![];
                    let e = disc.value(s, decls, None, 2, &mut b);
                    let at = values.iter().find(|v| v.1 == b).map(|v| v.2).or(*other).expect("a variant");
                    args.push(e);
                    out.extend(b);
                    at
                }
            }
            Kind::Indexer { numbers, .. } => {
                let at = variant.unwrap_or_else(|| s.usize(numbers.len()));
                out.extend(numbers[at].to_be_bytes());
                at
            }
            Kind::Plain => {
                let at = s.usize(self.variants.len());
                out.extend((at as u32).to_be_bytes());
                at
            }
        };
        let (n, fields) = &self.variants[at];
        args.extend(fields.iter().map(|t| t.value(s, decls, Some(me), depth, out)));
        if args.is_empty() { format!("{}::{n}", self.name) } else { format!("{}::{n}({})", self.name, args.join(", ")) }
    }
    fn source(&self, s: &mut Src, decls: &[Decl]) -> String {
        let n = &self.name;
        let derive = |what: &str| format!("#[derive(Debug, Clone, PartialEq, {what})]\n");
        let body = |first: Option<&T>| {
            let mut o = format!("pub enum {n} {{\n");
            for (v, f) in &self.variants {
                let t: Vec<String> = first.into_iter().chain(f).map(|t| t.rust(decls, n)).collect();
                o.push_str(&if t.is_empty() { format!("    {v},\n") } else { format!("    {v}({}),\n", t.join(", ")) });
            }
            o + "}\n"
        };
        let (ety, err) = *s.pick(&[
            ("::serde_xdr::error::Error", "::serde_xdr::error::Error::Convert"),
            ("()", "()"),
            ("::std::string::String", "::std::string::String::from(\"no\")"),
        ]);
        let spell = |s: &mut Src, v: &str| if s.bool() { format!("{v:?}") } else { format!("stringify!({v})") };
        match &self.kind {
            Kind::Struct => {
                let f: Vec<String> = self.variants[0].1.iter().enumerate().map(|(i, t)| format!("    pub f{i}: {},\n", t.rust(decls, n))).collect();
                format!("{}pub struct {n} {{\n{}}}\n", derive("::serde::Serialize, ::serde::Deserialize"), f.concat())
            }
            Kind::Plain => derive("::serde::Serialize, ::serde::Deserialize") + &body(None),
            Kind::Indexer { numbers, other } => {
                let mut o = derive("::serde_xdr_derive::XdrIndexer") + &body(None);
                o.push_str(&format!("impl ::serde_xdr::XdrIndexer for {n} {{\n    type Error = {ety};\n    fn name_by_index(of: i32) -> ::std::result::Result<&'static str, {ety}> {{\n        match of {{\n"));
                for (k, (v, _)) in numbers.iter().zip(&self.variants) {
                    o.push_str(&format!("            {k} => Ok({}),\n", spell(s, v)));
                }
                o.push_str(&match other {
                    Some(i) => format!("            _ => Ok({:?}),\n", self.variants[*i].0),
                    None => format!("            _ => Err({err}),\n"),
                });
                o.push_str("        }\n    }\n    fn index(&self) -> i32 {\n        match self {\n");
                for (k, (v, _)) in numbers.iter().zip(&self.variants) {
                    o.push_str(&format!("            {n}::{v} {{ .. }} => {k},\n"));
                }
                o + "        }\n    }\n}\n"
            }
            Kind::Union { disc, values, other } => {
                let t = disc.rust(decls, n);
                let mut o = derive("::serde_xdr_derive::XdrUnion") + &body(Some(disc));
                o.push_str(&format!("impl ::serde_xdr::XdrUnion<{t}> for {n} {{\n    type Error = {ety};\n    fn name_by_value(of: &{t}) -> ::std::result::Result<&'static str, {ety}> {{\n"));
                for (e, _, at) in values {
                    o.push_str(&format!("        if *of == ({e}) {{ return Ok({}); }}\n", spell(s, &self.variants[*at].0)));
                }
                o.push_str(&match other {
                    Some(i) => format!("        Ok({:?})\n", self.variants[*i].0),
                    None => format!("        Err({err})\n"),
                });
                o + "    }\n}\n"
            }
        }
    }
}

/// Names which are not taken.
fn name(s: &mut Src, from: &[&str], taken: &[String]) -> String {
    let mut n = s.pick(from).to_string();
    while taken.contains(&n) {
        n.push_str(s.pick(&["X", "Y", "0", "Z"]));
    }
    n
}
fn variants(s: &mut Src, decls: &[Decl], n: usize, fields: bool, this: bool) -> Vec<(String, Vec<T>)> {
    let mut names: Vec<String> = vec![];
    (0..n)
        .map(|_| {
            let v = name(s, VARIANTS, &names);
            names.push(v.clone());
            let k = match s.below(6) {
                _ if !fields => 0,
                0 => 0,
                1 | 2 => 1,
                3 => 2,
                4 => 1 + s.usize(5),
                _ => 3 + s.usize(12),
            };
            let k = match k {
                0 => 0,
                _ if s.chance(1, 300) => 100 + s.usize(200),
                _ => s.least(k, 48),
            };
            let depth = if k > 4 { 0 } else { 2 };
            (v, (0..k).map(|_| T::draw(s, decls, depth, this)).collect())
        })
        .collect()
}
fn indexer(s: &mut Src, decls: &[Decl], name: String, fields: bool) -> Decl {
    let n = match s.below(6) {
        0 => 1,
        5 => 6 + s.usize(12),
        _ => 2 + s.usize(4),
    };
    let n = s.least(n, 70);
    let variants = variants(s, decls, n, fields, true);
    let mut numbers: Vec<i32> = vec![];
    let style = s.below(4);
    for i in 0..n {
        let mut k = match style {
            0 => i as i32,
            1 => s.below(40) as i32 - 10,
            2 => *s.pick(&[i32::MIN, i32::MAX, -1, 0, 1, i32::MIN + 1, i32::MAX - 1, 256, 65536, 1 << 24]),
            _ => s.int(32) as i32,
        };
        while numbers.contains(&k) {
            k = k.wrapping_add(1);
        }
        numbers.push(k);
    }
    let other = s.chance(1, 5).then(|| s.usize(n));
    Decl { name, kind: Kind::Indexer { numbers, other }, variants }
}
fn union(s: &mut Src, decls: &[Decl], name: String) -> Decl {
    let enums: Vec<usize> = (0..decls.len()).filter(|i| matches!(decls[*i].kind, Kind::Plain | Kind::Indexer { .. }) && !T::Named(*i).floats(decls)).collect();
    let disc = match s.below(10) {
        0 | 1 => T::Int(32, true),
        2 | 3 => T::Int(32, false),
        4 => T::Int(*s.pick(&[8, 16, 64]), s.bool()),
        5 => T::Bool,
        6 => T::Str,
        7 if !enums.is_empty() => T::Named(*s.pick(&enums)),
        8 => T::Tup(vec![T::Int(32, false), T::Bool]),
        9 => s.pick(&[T::Char, T::Opt(Box::new(T::Int(32, true))), T::Arr(Box::new(T::Int(8, false)), 2), T::OpV, T::Map(Box::new(T::Bool))]).clone(),
        _ => T::Int(32, true),
    };
    let mut values: Vec<(String, Vec<u8>, usize)> = vec![];
    let want = if s.chance(1, 12) { 7 + s.usize(24) } else { 1 + s.usize(6) };
    let want = s.least(want, 70);
    for _ in 0..want {
        let mut b = vec![];
        let e = match disc {
            T::Int(32, sign) if s.bool() => {
                let v = s.below(8) as u32;
                b.extend(v.to_be_bytes());
                if sign { format!("{v}i32") } else { format!("{v}u32") }
            }
            _ => disc.value(s, decls, None, 2, &mut b),
        };
        if values.iter().all(|v| v.1 != b) {
            // Several may share a variant.
            let at = if !values.is_empty() && s.chance(1, 3) { values[s.usize(values.len())].2 } else { values.iter().map(|v| v.2 + 1).max().unwrap_or(0) };
            values.push((e, b, at));
        }
    }
    let mut n = values.iter().map(|v| v.2 + 1).max().unwrap();
    let other = s.chance(1, 4).then(|| {
        if s.bool() {
            n += 1;
            n - 1
        } else {
            s.usize(n)
        }
    });
    let variants = variants(s, decls, n, true, true);
    Decl { name, kind: Kind::Union { disc, values, other }, variants }
}

fn case(s: &mut Src, of_union: bool) -> Result<Case, String> {
    let mut decls: Vec<Decl> = vec![];
    let mut names: Vec<String> = vec![];
    let more = s.usize(3);
    for i in 0..more + 1 {
        let n = name(s, TYPES, &names);
        names.push(n.clone());
        let kind = if i == more { if of_union { 1 } else { 0 } } else { s.below(5) };
        let d = match kind {
            0 => indexer(s, &decls, n, true),
            1 => union(s, &decls, n),
            2 => indexer(s, &decls, n, false),
            3 => {
                let k = 1 + s.usize(4);
                Decl { name: n, kind: Kind::Struct, variants: vec![(String::new(), (0..k).map(|_| T::draw(s, &decls, 1, false)).collect())] }
            }
            _ => {
                let k = 1 + s.usize(4);
                Decl { name: n, kind: Kind::Plain, variants: variants(s, &decls, k, false, false) }
            }
        };
        decls.push(d);
    }
    let mut src = String::from("use serde::ser::SerializeTuple;\nuse serde_xdr::{XdrIndexer, XdrUnion};\n");
    let mut beside: Vec<&str> = vec![];
    while s.more(beside.len(), 0, 6, 1, 2) {
        let c = *s.pick(CONSTANTS);
        if !beside.contains(&c) {
            let (t, v) = *s.pick(&[("i32", "1"), ("u32", "0"), ("usize", "3"), ("&str", "\"A\""), ("bool", "true")]);
            src.push_str(&format!("pub const {c}: {t} = {v};\n"));
            beside.push(c);
        }
    }
    for d in &decls {
        src.push_str(&d.source(s, &decls));
    }
    let notes = vec![src.clone()];
    let mut labels: Vec<String> = vec![];
    if !beside.is_empty() {
        labels.push("constants beside it".into());
    }
    let (mut calls, mut expect, mut what) = (vec![], vec![], vec![]);
    let mut types: Vec<String> = vec![];
    let mut lits: Vec<(usize, String)> = vec![];
    let mut add = |c: Call, e: Expect, w: String| {
        calls.push(c);
        expect.push(e);
        what.push(w);
    };
    let me = decls.len() - 1;
    let d = &decls[me];
    // The type itself, every variant; then wrapped up.
    types.push(d.name.clone());
    let mut samples: Vec<Vec<u8>> = vec![];
    for at in 0..d.variants.len() {
        let (v, f) = &d.variants[at];
        labels.push(match f.len() {
            0 => "variant without fields".into(),
            1..=4 => "1 to 4 fields".into(),
            5..=8 => "5 to 8 fields".to_string(),
            _ => "more than 8 fields".into(),
        });
        for _ in 0..2 {
            let mut b = vec![];
            let e = d.value(s, &decls, me, Some(at), 3, &mut b);
            let w = format!("{}::{v}", d.name);
            lits.push((0, e));
            add(Call::Literal(lits.len() - 1), Expect::Encodes(b.clone()), w.clone());
            add(Call::Decode(0, b.clone()), Expect::Same(Some(lits.len() - 1)), w.clone());
            for _ in 0..2 {
                if !b.is_empty() {
                    let cut = s.usize(b.len());
                    add(Call::Decode(0, b[..cut].to_vec()), Expect::Reject(format!("{} octets are missing", b.len() - cut)), w.clone());
                }
            }
            let mut x = b.clone();
            x.extend((0..1 + s.usize(8)).map(|_| 0));
            add(Call::Decode(0, x), Expect::Reject("it has trailing octets".into()), w.clone());
            samples.push(b);
        }
    }
    // Discriminants without a variant.
    let mut refused: Vec<Vec<u8>> = vec![];
    match &d.kind {
        Kind::Indexer { numbers, other } => {
            labels.push("numbers".into());
            if numbers.iter().any(|n| *n < 0) {
                labels.push("negative numbers".into());
            }
            let mut probes = vec![0, -1, i32::MIN, i32::MAX, s.int(32) as i32];
            probes.extend(numbers.iter().flat_map(|n| [n.wrapping_add(1), n.wrapping_sub(1), n.wrapping_neg()]));
            probes.retain(|p| !numbers.contains(p));
            for p in probes {
                let mut b = p.to_be_bytes().to_vec();
                match other {
                    None => {
                        refused.push(b.clone());
                        if s.bool() {
                            b.extend(&samples[s.usize(samples.len())][4..]);
                        }
                        add(Call::Decode(0, b), Expect::Reject(format!("there is no variant for {p}")), format!("{}, number {p}", d.name));
                    }
                    Some(at) => {
                        // The mapping names that variant, which has a number of its own.
                        let mut w = vec![];
                        d.value(s, &decls, me, Some(*at), 2, &mut w);
                        b.extend(&w[4..]);
                        labels.push("number for want of a better one".into());
                        add(Call::Decode(0, b), Expect::Gives(w), format!("{}, number {p}", d.name));
                    }
                }
            }
        }
        Kind::Union { disc, values, other } => {
            labels.push(format!("discriminant {}", disc.rust(&decls, "").replace(|c: char| decls.iter().any(|d| d.name.contains(c)) && c.is_ascii_uppercase(), "E")));
            if (1..values.len()).any(|i| values[..i].iter().any(|v| v.2 == values[i].2)) {
                labels.push("variant shared by several values".into());
            }
            for _ in 0..6 {
                let mut b = vec![];
                disc.value(s, &decls, None, 2, &mut b);
                if values.iter().all(|v| v.1 != b) && other.is_none() {
                    refused.push(b.clone());
                    labels.push("value without variant".into());
                    if s.bool() {
                        b.extend([0; 16]);
                    }
                    add(Call::Decode(0, b), Expect::Reject("the value has no variant".into()), format!("{}, value", d.name));
                }
            }
            if other.is_some() {
                labels.push("variant for any other value".into());
            }
        }
        _ => unreachable!(),
    }
    // Octets which may be anything must not make it panic.
    for _ in 0..6 {
        let mut b = s.pick(&samples).clone();
        for _ in 0..1 + s.usize(3) {
            if !b.is_empty() {
                let i = s.usize(b.len());
                b[i] = *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]);
            }
        }
        add(Call::Decode(0, b), Expect::Any, format!("{}, changed octets", d.name));
    }
    for _ in 0..2 {
        let n = Box::new(T::Named(me));
        let (t, name) = match s.below(8) {
            0 => (T::Vec(n), "list"),
            1 => (T::Opt(n), "option"),
            2 => (T::Tup(vec![T::Int(8, false), *n, T::Str]), "tuple"),
            3 => (T::Box(n), "box"),
            4 => (T::Arr(n, 2), "array"),
            5 => (T::Map(n), "map"),
            6 => (T::Vec(Box::new(T::Opt(n))), "list of options"),
            _ => (T::Tup(vec![(*n).clone(), T::Vec(n)]), "tuple with list"),
        };
        labels.push(format!("in a {name}"));
        types.push(t.rust(&decls, ""));
        let ti = types.len() - 1;
        for _ in 0..2 {
            let mut b = vec![];
            let e = t.value(s, &decls, None, 4, &mut b);
            let w = format!("{} of {}", name, d.name);
            lits.push((ti, e));
            add(Call::Literal(lits.len() - 1), Expect::Encodes(b.clone()), w.clone());
            add(Call::Decode(ti, b.clone()), Expect::Same(Some(lits.len() - 1)), w.clone());
            if !b.is_empty() {
                let cut = s.usize(b.len());
                add(Call::Decode(ti, b[..cut].to_vec()), Expect::Reject(format!("{} octets are missing", b.len() - cut)), w);
            }
        }
        // A refused one within.
        if let Some(r) = refused.first() {
            let mut b = match &t {
                T::Vec(_) | T::Opt(_) => vec![0, 0, 0, 1],
                T::Box(_) | T::Arr(..) => vec![],
                _ => continue,
            };
            if matches!(&t, T::Vec(x) if matches!(**x, T::Opt(_))) {
                b.extend([0, 0, 0, 1]);
            }
            b.extend(r);
            b.extend([0; 16]);
            add(Call::Decode(ti, b), Expect::Reject("the discriminant is refused".into()), format!("{name} of {}", d.name));
        }
    }
    src.push_str("pub fn call(at0: &str, at1: usize, at2: &[u8]) -> ::std::string::String { match (at0, at1) {\n");
    for (i, t) in types.iter().enumerate() {
        src.push_str(&format!("(\"T\", {i}) => crate::rt::<{t}>(at2),\n"));
    }
    for (i, _) in lits.iter().enumerate() {
        src.push_str(&format!("(\"L\", {i}) => crate::lit(l{i}()),\n"));
    }
    src.push_str("_ => unreachable!() } }\n");
    for (i, (t, e)) in lits.iter().enumerate() {
        src.push_str(&format!("fn l{i}() -> {} {{ {e} }}\n", types[*t]));
    }
    let weight = if d.variants.len() >= 2 { 2 } else { 0 };
    Ok(Case {
        env: Env::default(),
        key: hash64(&[src.as_bytes()]),
        notes,
        unit: Unit { src, calls },
        expect,
        what,
        mode: Mode { e: EMode::Indexer, u: UMode::Indexer, keep_typedefs: false },
        weight,
        labels,
    })
}

const INDEXERS: Batch = Batch { sub: "compiled XdrIndexer", building: "building XdrIndexer", build: |s| case(s, false), quick: 1440, thorough: 60000 };
const UNIONS: Batch = Batch { sub: "compiled XdrUnion", building: "building XdrUnion", build: |s| case(s, true), quick: 1440, thorough: 60000 };

pub fn all() -> Vec<Check> {
    let rule = "distinct programs whose enum has at least two variants";
    macro_rules! check {
        ($id:expr, $b:expr, $assume:expr) => {
            Check {
                id: $id,
                rule,
                assumptions: $assume,
                subs: vec![],
                extra: Some(|c, r| run_batch(c, &$b, r)),
                extra_replay: Some(|c, j| Ok(replay_batch(c, &$b, j))),
            }
        };
    }
    vec![
        check!("C10", INDEXERS, &["the user's two mappings agree: a variant's number is mapped to its name", "at most 14 fields in a variant"]),
        check!("C11", UNIONS, &["every variant holds the discriminant first", "at most 14 further fields in a variant"]),
    ]
}
