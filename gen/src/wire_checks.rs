//! C18 to C21: generated code is compiled and run against the reference wire format.
use crate::e2e::{self, Ans, Call, Unit};
use crate::idl;
use crate::parse_checks::{g, repo_parse};
use crate::sem::*;
use quote::ToTokens;
use rpcgen::gen_code::gen_code;
use rpcgen::parser::*;
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use vhcore::driver::Check;
use vhcore::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Shape,
    Structs,
    Enums,
    Unions,
    Defaults,
}
#[derive(Clone, Debug)]
pub enum Expect {
    /// The literal encodes to these octets.
    Encodes(Vec<u8>),
    /// Decodes and encodes to the same octets; shown as the literal of that number, if given.
    Same(Option<usize>),
    Reject(String),
    /// A default arm in a mode which can not keep its discriminant; whether it is the one which stands for it by position.
    Default(bool),
    /// Decodes to what encodes to these octets.
    Gives(Vec<u8>),
    /// Decoded to something or rejected, without a panic.
    Any,
    /// A default value, which decodes from what it encodes to: nothing but zeros, empty data and declared numbers.
    Zero(W),
}
pub struct Case {
    pub env: Env,
    pub notes: Vec<String>,
    pub unit: Unit,
    pub expect: Vec<Expect>,
    pub what: Vec<String>,
    pub mode: Mode,
    pub weight: usize,
    pub key: u64,
    pub labels: Vec<String>,
}

fn opts(m: Mode, f: Focus) -> Opts {
    let mut o = Opts::of(m);
    o.mix = match f {
        Focus::Shape => [2, 3, 5, 3, 3],
        Focus::Structs => [1, 2, 6, 2, 3],
        Focus::Enums => [2, 6, 3, 0, 2],
        Focus::Unions => [1, 3, 2, 6, 2],
        Focus::Defaults => [1, 2, 5, 5, 3],
    };
    if f == Focus::Defaults {
        o.default_ends = true;
        o.tangles = 7;
    }
    o.plain = f == Focus::Enums;
    o
}

pub fn case(s: &mut Src, f: Focus) -> Result<Case, String> {
    let mode = Mode::draw(s);
    let defs = generate(s, &opts(mode, f));
    with(defs, mode, f, s)
}
fn with(defs: Vec<Definition>, mode: Mode, f: Focus, s: &mut Src) -> Result<Case, String> {
    let text = idl::text(&defs);
    let notes = vec![show(&mode.config()), text.clone()];
    let show = || format!("{}\n{text}", notes[0]);
    let parsed = repo_parse(&text)?.map_err(|e| format!("the interface does not parse: {}\n{}", clip(&e, 200), show()))?;
    ensure!(parsed == defs, "the interface is read as {parsed:?}\n{}", show());
    let code = g("generating code", || gen_code(parsed, &mode.config()))
        .map_err(|e| format!("{e}\n{}", show()))?
        .map_err(|e| format!("no code is generated: {e:?}\n{}", show()))?;
    let env = Env::new(&defs);
    shape(&defs, &env, mode, &code).map_err(|e| format!("{e}\n{}\n{}", show(), clip(&code, 2000)))?;
    let vals = Vals { env: &env, u: mode.u };

    let mut calls = vec![];
    let mut expect = vec![];
    let mut what = vec![];
    let mut lits: Vec<(String, String)> = vec![];
    let mut types: Vec<String> = vec![];
    let mut labels = vec![format!("enums {:?}", mode.e), format!("unions {:?}", mode.u)];
    let mut add = |c: Call, e: Expect, w: String| {
        calls.push(c);
        expect.push(e);
        what.push(w);
    };
    let mut weight = 0;
    for d in &defs {
        let Definition::Type(td) = d else { continue };
        if f == Focus::Defaults {
            let (n, w) = match td {
                TypeDef::Enum(n, _) => (n, W::Enum(n.clone())),
                TypeDef::Struct(n, b) => {
                    kinds(&env, n, b, &mut labels);
                    (n, W::Struct(n.clone()))
                }
                TypeDef::Union(n, b) => {
                    labels.push(if b.default.is_some() { "union with a default arm".into() } else { "union".into() });
                    let arms = b.specs.iter().map(|s| &s.declaration).chain(&b.default);
                    if arms.filter_map(|d| env.wire(d)).any(|w| matches!(w, W::Struct(_) | W::Union(_) | W::Arr(..)) && env.reaches(&w, n)) {
                        labels.push("union which holds itself".into());
                    }
                    (n, W::Union(n.clone()))
                }
                TypeDef::Declaration(_) => continue,
            };
            weight += 1;
            types.push(format!("g::{}", camel(n)));
            add(Call::Default(types.len() - 1), Expect::Zero(w), n.clone());
            continue;
        }
        match td {
            TypeDef::Enum(n, _) => {
                weight += 1;
                let t = types.len();
                types.push(format!("g::{}", camel(n)));
                if !matches!(f, Focus::Enums | Focus::Shape) {
                    continue;
                }
                labels.push("enum".into());
                let all = env.numbers(n);
                for (e, v) in &all {
                    let b = (*v as i32).to_be_bytes().to_vec();
                    let l = lits.len();
                    lits.push((types[t].clone(), format!("g::{}::{}", camel(n), camel(e))));
                    add(Call::Literal(l), Expect::Encodes(b.clone()), format!("{n} {e}"));
                    if f == Focus::Enums {
                        add(Call::Decode(t, b), Expect::Same(Some(l)), format!("{n} {e}"));
                    }
                    labels.push(if *v < 0 { "negative enumerator".into() } else { "enumerator".into() });
                }
                if f == Focus::Shape {
                    continue;
                }
                let max = all.iter().map(|x| x.1).max().unwrap();
                let mut probes = vec![max + 1, max + 2, -1, i32::MIN as i64, i32::MAX as i64, s.int(32)];
                for (_, v) in &all {
                    probes.extend([v - 1, v + 1]);
                }
                probes.retain(|p| all.iter().all(|x| x.1 != *p) && (i32::MIN as i64..=i32::MAX as i64).contains(p));
                probes.sort();
                probes.dedup();
                for p in probes {
                    let b = (p as i32).to_be_bytes().to_vec();
                    let e = match mode.e {
                        // The option substitutes the smallest one.
                        EMode::Indexer => Expect::Any,
                        // Gaps are filled.
                        EMode::Complement if (0..max).contains(&p) => Expect::Any,
                        _ => Expect::Reject(format!("{p} is no number of the enum")),
                    };
                    add(Call::Decode(t, b), e, format!("{n}, number {p}"));
                }
            }
            TypeDef::Struct(n, body) => {
                weight += 1;
                let t = types.len();
                types.push(format!("g::{}", camel(n)));
                if f == Focus::Unions || (f == Focus::Enums && !mentions_enum(&env, body)) {
                    continue;
                }
                labels.push("struct".into());
                let w = W::Struct(n.clone());
                kinds(&env, n, body, &mut labels);
                for _ in 0..if f == Focus::Shape { 1 } else { 2 } {
                    let mut b = vec![];
                    let e = vals.make(&w, s, 4, &mut b);
                    let l = lits.len();
                    lits.push((types[t].clone(), e));
                    add(Call::Literal(l), Expect::Encodes(b.clone()), n.clone());
                    if f != Focus::Shape {
                        add(Call::Decode(t, b), Expect::Same(Some(l)), n.clone());
                    }
                }
                if f == Focus::Structs {
                    for _ in 0..4 {
                        let mut b = vec![];
                        vals.make(&w, s, 4, &mut b);
                        for _ in 0..3 {
                            if !b.is_empty() {
                                let cut = s.usize(b.len());
                                add(Call::Decode(t, b[..cut].to_vec()), Expect::Reject(format!("it is {} octets short", b.len() - cut)), n.clone());
                            }
                        }
                        let more = 1 + s.usize(8);
                        let x: Vec<u8> = b.iter().copied().chain((0..more).map(|_| s.uint(8) as u8)).collect();
                        add(Call::Decode(t, x), Expect::Reject(format!("it has {more} trailing octets")), n.clone());
                        add(Call::Decode(t, b), Expect::Same(None), n.clone());
                    }
                }
            }
            TypeDef::Union(n, body) => {
                weight += 1;
                let t = types.len();
                types.push(format!("g::{}", camel(n)));
                if !matches!(f, Focus::Unions | Focus::Shape) {
                    continue;
                }
                labels.push("union".into());
                let (c, arms) = env.arms(n);
                labels.push(format!("discriminant {}", env.rust(&c, false).split('@').next().filter(|t| !t.is_empty()).unwrap_or("enum")));
                for at in 0..arms.len() {
                    for i in 0..if f == Focus::Shape { 1 } else { 2 } {
                        let mut b = vec![];
                        let e = vals.arm(n, at, s, 4, &mut b);
                        let w = format!("{n}, case {} ({})", arms[at].0, arms[at].1);
                        let l = if i == 0 {
                            lits.push((types[t].clone(), e));
                            add(Call::Literal(lits.len() - 1), Expect::Encodes(b.clone()), w.clone());
                            Some(lits.len() - 1)
                        } else {
                            None
                        };
                        if f == Focus::Unions {
                            if b.len() > 4 {
                                let cut = s.usize(b.len());
                                add(Call::Decode(t, b[..cut].to_vec()), Expect::Reject("it is cut".into()), w.clone());
                            }
                            let mut x = b.clone();
                            x.extend([0; 4]);
                            add(Call::Decode(t, x), Expect::Reject("it has trailing octets".into()), w.clone());
                            add(Call::Decode(t, b), Expect::Same(l), w);
                        }
                    }
                }
                if f == Focus::Shape {
                    continue;
                }
                // Discriminants without a label.
                let max = arms.iter().map(|a| a.0).max().unwrap();
                let domain: Vec<i64> = match &c {
                    W::Bool => vec![0, 1],
                    W::Enum(e) => env.numbers(e).iter().map(|x| x.1).collect(),
                    W::Int(_, true) => vec![0, 1, 2, max + 1, max + 2, -1, i32::MIN as i64, i32::MAX as i64, s.int(32)],
                    _ => vec![0, 1, 2, max + 1, max + 2, u32::MAX as i64, s.uint(32) as i64],
                };
                let hi = if c == W::Int(32, false) { u32::MAX as i64 } else { i32::MAX as i64 };
                let mut domain: Vec<i64> = domain.into_iter().filter(|d| *d <= hi && arms.iter().all(|a| a.0 != *d)).collect();
                domain.sort();
                domain.dedup();
                for d in domain {
                    let w = format!("{n}, discriminant {d}");
                    match &body.default {
                        None => {
                            let b = (d as u32).to_be_bytes().to_vec();
                            let e = if mode.u == UMode::Complement && (0..max).contains(&d) {
                                Expect::Any
                            } else {
                                Expect::Reject(format!("{d} is no case"))
                            };
                            labels.push("no such case".into());
                            add(Call::Decode(t, b), e, w.clone());
                        }
                        Some(decl) => {
                            labels.push("default arm".into());
                            let dw = env.wire(decl);
                            let mut b = vec![];
                            let e = vals.variant(n, &c, d, "Default", &dw, s, 4, &mut b);
                            if mode.u == UMode::Union {
                                lits.push((types[t].clone(), e));
                                let l = lits.len() - 1;
                                add(Call::Literal(l), Expect::Encodes(b.clone()), w.clone());
                                add(Call::Decode(t, b), Expect::Same(Some(l)), w.clone());
                            } else {
                                add(Call::Decode(t, b), Expect::Default(false), w.clone());
                            }
                        }
                    }
                }
                if let (Some(decl), UMode::Complement) = (&body.default, mode.u) {
                    let dw = env.wire(decl);
                    let d = if c == W::Bool { 2 } else { max + 1 };
                    let mut b = vec![];
                    vals.variant(n, &W::Bool, d, "Default", &dw, s, 4, &mut b);
                    add(Call::Decode(t, b), Expect::Default(true), format!("{n}, the default arm's position {d}"));
                }
                // Numbers outside the discriminant's own type.
                let outside: Vec<i64> = match &c {
                    // The library takes any number but zero for true.
                    W::Bool if mode.u != UMode::Union => vec![2, -1, i32::MAX as i64],
                    W::Enum(e) if mode.e == EMode::Std && mode.u == UMode::Union => {
                        let all = env.numbers(e);
                        [max + 1, -1, 0, 1, 2].into_iter().filter(|p| *p <= hi && all.iter().all(|x| x.1 != *p)).collect()
                    }
                    _ => vec![],
                };
                for p in outside {
                    // A default arm of the bool in indexer or complement mode takes all the rest.
                    if body.default.is_some() && mode.u != UMode::Union {
                        continue;
                    }
                    if mode.u == UMode::Complement && (0..max).contains(&p) {
                        continue;
                    }
                    let mut b = (p as i32).to_be_bytes().to_vec();
                    b.extend([0; 4]);
                    add(Call::Decode(t, b), Expect::Reject(format!("{p} is no value of the discriminant")), format!("{n}, discriminant {p}"));
                }
            }
            TypeDef::Declaration(_) => labels.push("typedef".into()),
        }
    }
    let mut src = format!("mod g {{\n{code}\n}}\npub fn call(op: &str, i: usize, b: &[u8]) -> String {{ match (op, i) {{\n");
    if f == Focus::Defaults {
        for (i, t) in types.iter().enumerate() {
            src.push_str(&format!("(\"D\", {i}) => crate::dflt::<{t}>(),\n"));
        }
    } else if f != Focus::Shape {
        for (i, t) in types.iter().enumerate() {
            src.push_str(&format!("(\"T\", {i}) => crate::rt::<{t}>(b),\n"));
        }
    }
    for (i, (_, _)) in lits.iter().enumerate() {
        src.push_str(&format!("(\"L\", {i}) => crate::lit(l{i}()),\n"));
    }
    src.push_str("_ => unreachable!() } }\n");
    for (i, (t, e)) in lits.iter().enumerate() {
        src.push_str(&format!("fn l{i}() -> {t} {{ {e} }}\n"));
    }
    Ok(Case { env, key: hash64(&[text.as_bytes(), notes[0].as_bytes()]), notes, unit: Unit { src, calls }, expect, what, mode, weight, labels })
}
fn mentions_enum(env: &Env, body: &[Declaration]) -> bool {
    fn is(w: &W) -> bool {
        match w {
            W::Enum(_) => true,
            W::Arr(x, _) | W::List(x, _) | W::Opt(x) => is(x),
            _ => false,
        }
    }
    body.iter().any(|d| env.wire(d).is_some_and(|w| is(&w)))
}
fn kinds(env: &Env, name: &str, body: &[Declaration], labels: &mut Vec<String>) {
    fn kind(w: &W) -> String {
        match w {
            W::Int(..) => "integer".into(),
            W::F32 | W::F64 => "float".into(),
            W::Bool => "bool".into(),
            W::Str(_) => "string".into(),
            W::OpF(_) => "fixed opaque".into(),
            W::OpV(_) => "variable opaque".into(),
            W::Arr(x, _) => format!("array of {}", kind(x)),
            W::List(x, _) => format!("list of {}", kind(x)),
            W::Opt(x) => format!("optional {}", kind(x)),
            W::Enum(_) => "enum".into(),
            W::Struct(_) => "struct".into(),
            W::Union(_) => "union".into(),
        }
    }
    for d in body {
        if let Some(w) = env.wire(d) {
            if env.reaches(&w, name) {
                labels.push("member which refers back".into());
            }
            labels.push(format!("member: {}", kind(&w)));
        }
    }
}

// ------------------------------------------------------------------ shape

/// The names which the generated module defines.
#[derive(Default)]
struct Local {
    aliases: BTreeMap<String, syn::Type>,
    types: std::collections::BTreeSet<String>,
}
impl Local {
    /// The type with aliases expanded, without boxes; the module's own types with a `@`, others by the last segment of their path.
    fn read(&self, t: &syn::Type, depth: usize) -> String {
        if depth > 60 {
            return "endless".into();
        }
        let d = depth + 1;
        match t {
            syn::Type::Paren(x) => self.read(&x.elem, d),
            syn::Type::Group(x) => self.read(&x.elem, d),
            syn::Type::Array(x) => format!("[{}; {}]", self.read(&x.elem, d), x.len.to_token_stream().to_string().replace("usize", "").trim()),
            syn::Type::Path(x) if x.qself.is_none() => {
                let p = &x.path;
                let last = p.segments.last().unwrap();
                let here = p.leading_colon.is_none() && (p.segments.len() == 1 || (p.segments.len() == 2 && p.segments[0].ident == "self"));
                let name = last.ident.to_string();
                if here && self.types.contains(&name) {
                    return format!("@{name}");
                }
                if let (true, Some(a)) = (here, self.aliases.get(&name)) {
                    return self.read(a, d);
                }
                let args: Vec<String> = match &last.arguments {
                    syn::PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .map(|a| match a {
                            syn::GenericArgument::Type(t) => self.read(t, d),
                            a => a.to_token_stream().to_string().replace("usize", "").trim_matches(|c| c == '{' || c == '}' || c == ' ').to_string(),
                        })
                        .collect(),
                    _ => vec![],
                };
                match (name.as_str(), args.as_slice()) {
                    ("Box", [x]) => x.clone(),
                    (_, []) => name,
                    _ => format!("{name}<{}>", args.join(", ")),
                }
            }
            x => x.to_token_stream().to_string(),
        }
    }
}
fn public(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

pub fn shape(defs: &[Definition], env: &Env, mode: Mode, code: &str) -> Result<(), String> {
    let file = syn::parse_file(code).map_err(|e| format!("the generated code is no Rust: {e}"))?;
    let mut local = Local::default();
    let mut structs = BTreeMap::new();
    let mut enums = BTreeMap::new();
    for i in &file.items {
        match i {
            syn::Item::Type(t) => {
                ensure!(mode.keep_typedefs, "a typedef makes a type {}", t.ident);
                local.aliases.insert(t.ident.to_string(), (*t.ty).clone());
            }
            syn::Item::Struct(x) => {
                ensure!(public(&x.vis), "struct {} is not public", x.ident);
                local.types.insert(x.ident.to_string());
                ensure!(structs.insert(x.ident.to_string(), x).is_none(), "struct {} is generated twice", x.ident);
            }
            syn::Item::Enum(x) => {
                ensure!(public(&x.vis), "enum {} is not public", x.ident);
                local.types.insert(x.ident.to_string());
                ensure!(enums.insert(x.ident.to_string(), x).is_none(), "enum {} is generated twice", x.ident);
            }
            _ => {}
        }
    }
    let (mut ns, mut ne) = (0, 0);
    for d in defs {
        match d {
            Definition::Type(TypeDef::Struct(n, body)) => {
                ns += 1;
                let x = structs.get(&camel(n)).ok_or_else(|| format!("there is no struct {} for {n}", camel(n)))?;
                let syn::Fields::Named(f) = &x.fields else { return Err(format!("struct {} has no named fields", x.ident)) };
                ensure!(f.named.len() == body.len(), "struct {} has {} fields instead of {}", x.ident, f.named.len(), body.len());
                for (have, want) in f.named.iter().zip(body) {
                    let name = have.ident.as_ref().unwrap().to_string();
                    let w = env.wire(want).unwrap();
                    ensure!(name == snake(want.name().unwrap()), "{} of {} became {name} instead of {}", want.name().unwrap(), x.ident, snake(want.name().unwrap()));
                    ensure!(public(&have.vis), "{}.{name} is not public", x.ident);
                    let t = local.read(&have.ty, 0);
                    let r = env.rust(&w, true);
                    ensure!(t == r || t == env.rust(&w, false), "{}.{name} is {t} instead of {r}", x.ident);
                }
            }
            Definition::Type(TypeDef::Enum(n, body)) => {
                ne += 1;
                let x = enums.get(&camel(n)).ok_or_else(|| format!("there is no enum {} for {n}", camel(n)))?;
                let have: std::collections::BTreeSet<String> =
                    x.variants.iter().map(|v| v.ident.to_string()).filter(|v| !v.starts_with("_Reserved")).collect();
                let want: std::collections::BTreeSet<String> = body.iter().map(|a| camel(&a.identifier)).collect();
                ensure!(have == want, "enum {} has the variants {have:?} instead of {want:?}", x.ident);
                ensure!(x.variants.iter().all(|v| v.fields.is_empty()), "a variant of enum {} has fields", x.ident);
            }
            Definition::Type(TypeDef::Union(n, body)) => {
                ne += 1;
                let x = enums.get(&camel(n)).ok_or_else(|| format!("there is no enum {} for {n}", camel(n)))?;
                let have: BTreeMap<String, Vec<String>> = x
                    .variants
                    .iter()
                    .map(|v| (v.ident.to_string(), v.fields.iter().map(|f| local.read(&f.ty, 0)).collect()))
                    .filter(|(v, _): &(String, Vec<String>)| !v.starts_with("_Reserved"))
                    .collect();
                let (c, arms) = env.arms(n);
                let mut all: Vec<(String, Option<W>)> = arms.into_iter().map(|a| (a.1, a.2)).collect();
                if let Some(d) = &body.default {
                    all.push(("Default".into(), env.wire(d)));
                }
                ensure!(have.len() == all.len(), "enum {} has the variants {:?} instead of {:?}", x.ident, have.keys(), all);
                for (name, w) in all {
                    let h = have.get(&name).ok_or_else(|| format!("enum {} has no variant {name}", x.ident))?;
                    let list = |raw: bool| -> Vec<String> {
                        let mut v = vec![];
                        if mode.u == UMode::Union {
                            v.push(env.rust(&c, false));
                        }
                        v.extend(w.iter().map(|w| env.rust(w, raw)));
                        v
                    };
                    ensure!(*h == list(true) || *h == list(false), "{}::{name} holds {h:?} instead of {:?}", x.ident, list(true));
                }
            }
            _ => {}
        }
    }
    ensure!(structs.len() == ns && enums.len() == ne, "there are {} structs and {} enums for {ns} structs and {ne} enums and unions", structs.len(), enums.len());
    Ok(())
}

// ------------------------------------------------------------------ default values

struct Zero<'a> {
    env: &'a Env,
    u: UMode,
    known: Vec<(&'static str, String)>,
}
impl Zero<'_> {
    /// Reads a default value of the type; Ok: what follows it.
    fn read<'b>(&mut self, w: &W, b: &'b [u8]) -> Result<&'b [u8], String> {
        let zeros = |n: usize, b: &'b [u8]| -> Result<&'b [u8], String> {
            ensure!(b.len() >= n, "it ends early");
            ensure!(b[..n].iter().all(|x| *x == 0), "{} is not zero", hex(&b[..n]));
            Ok(&b[n..])
        };
        let number = |b: &'b [u8]| -> Result<(i64, &'b [u8]), String> {
            ensure!(b.len() >= 4, "it ends early");
            Ok((i32::from_be_bytes(b[..4].try_into().unwrap()) as i64, &b[4..]))
        };
        match w {
            W::Int(64, _) | W::F64 => zeros(8, b),
            W::Int(..) | W::F32 | W::Bool | W::Str(_) | W::OpV(_) | W::List(..) | W::Opt(_) => zeros(4, b),
            W::OpF(n) => zeros(n.next_multiple_of(4), b),
            W::Arr(x, n) => (0..*n).try_fold(b, |b, _| self.read(x, b)),
            W::Enum(n) => {
                let (v, rest) = number(b)?;
                ensure!(self.env.numbers(n).iter().any(|e| e.1 == v), "{v} is no number of {n}");
                Ok(rest)
            }
            W::Struct(n) => self.env.structs[n].iter().try_fold(b, |b, d| self.read(&self.env.wire(d).unwrap(), b)),
            W::Union(n) => {
                let (v, rest) = number(b)?;
                let (c, arms) = self.env.arms(n);
                let v = if c == W::Int(32, false) { v as u32 as i64 } else { v };
                let arm = match arms.into_iter().find(|a| a.0 == v) {
                    Some(a) => a.2,
                    None => {
                        let d = self.env.unions[n].default.as_ref().ok_or(format!("{v} is no case of {n}"))?;
                        let fits = match &c {
                            W::Bool => v == 0 || v == 1,
                            W::Enum(e) => self.env.numbers(e).iter().any(|x| x.1 == v),
                            _ => true,
                        };
                        if !fits {
                            ensure!(self.u == UMode::Complement, "{v} is no value of the discriminant of {n}");
                            self.known.push(("default-by-position", format!("{v} is no value of the discriminant of {n}")));
                        }
                        self.env.wire(d)
                    }
                };
                match arm {
                    Some(w) => self.read(&w, rest),
                    None => Ok(rest),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ judging

/// Ok: the keys of known findings met.
pub fn judge(c: &Case, o: &e2e::Outcome) -> Result<Vec<(&'static str, String)>, String> {
    let answers = o.as_ref().map_err(|e| format!("the code does not compile: {}", clip(e, 1500)))?;
    let mut shown: BTreeMap<usize, String> = BTreeMap::new();
    let mut known = vec![];
    for (((call, e), what), a) in c.unit.calls.iter().zip(&c.expect).zip(&c.what).zip(answers) {
        let from = match call {
            Call::Decode(_, b) => format!("{what}: decoding {}", clip(&hex(b), 300)),
            Call::Literal(_) => format!("{what}: encoding"),
            Call::Default(_) => format!("the default of {what}"),
        };
        if let Ans::Crash(how) = a {
            return Err(format!("{from} crashed ({how})"));
        }
        match (e, a) {
            (Expect::Encodes(b), Ans::Ok(r, d)) => {
                ensure!(r == b, "{from} {} gave {} instead of {}", clip(d, 300), clip(&hex(r), 300), clip(&hex(b), 300));
                if let Call::Literal(l) = call {
                    shown.insert(*l, d.clone());
                }
            }
            (Expect::Encodes(_), x) => return Err(format!("{from} failed: {x:?}")),
            (Expect::Same(l), Ans::Ok(r, d)) => {
                let Call::Decode(_, b) = call else { unreachable!() };
                ensure!(r == b, "{from} gave {}, which encodes to {}", clip(d, 300), clip(&hex(r), 300));
                if let Some(want) = l.and_then(|l| shown.get(&l)) {
                    ensure!(want == d, "{from} gave {} instead of {}", clip(d, 300), clip(want, 300));
                }
            }
            (Expect::Same(_), x) => return Err(format!("{from} failed: {x:?}")),
            (Expect::Gives(b), Ans::Ok(r, d)) => ensure!(r == b, "{from} gave {}, which encodes to {} instead of {}", clip(d, 300), clip(&hex(r), 300), clip(&hex(b), 300)),
            (Expect::Gives(_), x) => return Err(format!("{from} failed: {x:?}")),
            (Expect::Reject(_), Ans::Err(_)) => {}
            (Expect::Reject(why), x) => return Err(format!("{from} gave {x:?} although {why}")),
            (Expect::Any, Ans::Panic(m)) => return Err(format!("{from} panicked: {m}")),
            (Expect::Any, _) => {}
            (Expect::Default(at), Ans::Ok(r, d)) => {
                let Call::Decode(_, b) = call else { unreachable!() };
                let right = r == b && d.starts_with("Default");
                if !right && !at && d.starts_with("_Reserved") && c.mode.u == UMode::Complement {
                    known.push(("default-by-position", format!("{from} gave {}", clip(d, 100))));
                } else {
                    ensure!(right, "{from} gave {}, which encodes to {}, instead of the default arm", clip(d, 300), clip(&hex(r), 300));
                }
            }
            (Expect::Default(false), Ans::Err(m)) if c.mode.u == UMode::Complement => {
                known.push(("default-by-position", format!("{from} is rejected ({}) instead of giving the default arm", clip(m, 100))));
            }
            (Expect::Default(_), Ans::EncodePanic(m, d)) if c.mode.u == UMode::Indexer && d.starts_with("Default") && m.contains("not implemented") => {
                known.push(("default-without-number", format!("{from} gave {}, encoding which panicked: {}", clip(d, 100), clip(m, 100))));
            }
            (Expect::Default(_), x) => return Err(format!("{from} failed: {x:?}")),
            (Expect::Zero(w), Ans::Ok(r, d)) => {
                let mut z = Zero { env: &c.env, u: c.mode.u, known: vec![] };
                let rest = z.read(w, r).map_err(|e| format!("{from} is {}, which encodes to {}: {e}", clip(d, 300), clip(&hex(r), 300)))?;
                ensure!(rest.is_empty(), "{from} is {}, which encodes to {}: {} octets too many", clip(d, 300), clip(&hex(r), 300), rest.len());
                known.extend(z.known.into_iter().map(|(k, m)| (k, format!("{from} is {}: {m}", clip(d, 100)))));
            }
            (Expect::Zero(_), Ans::EncodePanic(m, d))
                if c.mode.u == UMode::Indexer && d.contains("Default") && m.contains("not implemented") && c.env.unions.values().any(|b| b.default.is_some()) =>
            {
                known.push(("default-without-number", format!("{from} is {}, encoding which panicked: {}", clip(d, 100), clip(m, 100))));
            }
            (Expect::Zero(_), x) => return Err(format!("{from} failed: {x:?}")),
        }
    }
    ensure!(answers.len() == c.unit.calls.len(), "the program stopped early");
    Ok(known)
}

// ------------------------------------------------------------------ batches

pub type Build = fn(&mut Src) -> Result<Case, String>;

pub struct Batch {
    pub sub: &'static str,
    /// Building a case calls the code under test too: the name under which a crash of that is reported.
    /// A sub-check of this name which only builds comes first in its check.
    pub building: &'static str,
    pub build: Build,
    pub quick: u64,
    pub thorough: u64,
}
pub type Verdict = Result<Vec<(&'static str, String)>, String>;

/// Verdicts for choice lists (or fresh seeds), compiled together.
fn evaluate(cfg: &Cfg, build: Build, mut srcs: Vec<Src>, inflight: &InFlight, sub: u64, from: u64) -> Vec<(Vec<u64>, Verdict, Option<Case>)> {
    let n = srcs.len();
    let made: Vec<Result<Case, String>> = on_big_stack(|| {
        let make = |(i, s)| {
            inflight.set(0, sub, from + i as u64);
            guard(|| build(s)).unwrap_or_else(|m| Err(format!("the check could not go on: {m}")))
        };
        srcs.iter_mut().enumerate().map(make).collect()
    });
    // Compiling takes its time, and calls of generated code are watched on their own.
    inflight.set(0, u64::MAX, 0);
    let recs: Vec<Vec<u64>> = srcs.into_iter().map(|s| s.rec).collect();
    let mut units = vec![];
    let mut at = vec![];
    let mut made: Vec<Option<Result<Case, String>>> = made.into_iter().map(Some).collect();
    for (i, m) in made.iter_mut().enumerate() {
        if let Some(Ok(c)) = m {
            units.push(Unit { src: std::mem::take(&mut c.unit.src), calls: c.unit.calls.clone() });
            at.push(i);
        }
    }
    let outs = e2e::run(&cfg.root, &units, cfg.threads);
    let mut outs: BTreeMap<usize, e2e::Outcome> = at.into_iter().zip(outs).collect();
    (0..n)
        .map(|i| match made[i].take().unwrap() {
            Err(e) => (recs[i].clone(), Err(e), None),
            Ok(mut c) => {
                let u = units.remove(0);
                c.unit.src = u.src;
                let v = judge(&c, &outs.remove(&i).unwrap()).and_then(|k| {
                    match k.iter().find(|(k, _)| !cfg.listed.iter().any(|l| l == k)) {
                        Some((k, w)) => Err(format!("{w} [finding {k}, which is not listed]")),
                        None => Ok(k),
                    }
                });
                (recs[i].clone(), v, Some(c))
            }
        })
        .collect()
}

pub fn run_batch(cfg: &Cfg, b: &Batch, rep: &mut Report) {
    let total = if cfg.thorough { b.thorough } else { b.quick };
    let chunk = 1600u64;
    let mut i = 0;
    let mut calls = 0u64;
    let inflight = InFlight::open(std::env::var("VH_INFLIGHT").ok().as_deref());
    let t0 = std::time::Instant::now();
    while i < total {
        // A share of the time which the thorough tier may take.
        if cfg.thorough && t0.elapsed().as_secs() > 600 {
            break;
        }
        let hi = (i + chunk).min(total);
        let srcs: Vec<Src> = (i..hi).map(|k| Src::fresh(case_seed(cfg.seed, cfg.id, b.building, k))).collect();
        let got = evaluate(cfg, b.build, srcs, &inflight, 0, i);
        let mut fail: Option<(u64, Vec<u64>, String)> = None;
        for (k, (rec, v, c)) in got.into_iter().enumerate() {
            rep.evaluations += 1;
            if let Some(c) = &c {
                calls += c.unit.calls.len() as u64;
                if c.weight >= 2 {
                    rep.nontrivial.insert(c.key);
                }
                let mut l = c.labels.clone();
                l.sort();
                l.dedup();
                for l in l {
                    rep.bump(&l, 1);
                }
                if rep.samples.len() < 6 && k % 37 == 0 {
                    rep.samples.push(clip(&c.notes.join("\n"), 700));
                }
            }
            match v {
                Ok(known) => {
                    for (k, w) in known {
                        rep.known.entry(k.to_string()).or_insert(w);
                    }
                }
                Err(m) => {
                    if fail.as_ref().is_none_or(|f| rec.len() < f.1.len()) {
                        fail = Some((i + k as u64, rec, m));
                    }
                }
            }
        }
        i = hi;
        if let Some((at, rec, m)) = fail {
            pending(cfg, b.sub, &m, &rec, &format!("case {at}"));
            let (choices, message) = shrink_batch(cfg, b.build, rec, m, &inflight);
            inflight.set(0, u64::MAX, 0);
            let mut s = Src::replay(choices.clone());
            let notes = guard(|| (b.build)(&mut s)).ok().and_then(|c| c.ok()).map(|c| c.notes).unwrap_or_default();
            rep.violations.push(Violation {
                sub: b.sub.into(),
                message,
                choices,
                case: notes.into_iter().flat_map(|n| n.lines().map(|l| l.to_string()).collect::<Vec<_>>()).collect(),
                found_at: format!("case {at}"),
                data: J::Null,
            });
            break;
        }
    }
    let e = rep.extra.entry("calls_of_generated_code".into()).or_insert(json!(0));
    *e = json!(e.as_u64().unwrap_or(0) + calls);
}

/// Many candidates per compilation.
fn shrink_batch(cfg: &Cfg, build: Build, start: Vec<u64>, msg: String, inflight: &InFlight) -> (Vec<u64>, String) {
    let mut n_tried = 0;
    let t = std::time::Instant::now();
    let (mut best, mut message) = (start, msg);
    let cfg = Cfg { threads: 8, ..cfg.clone() };
    let mut tried = std::collections::HashSet::new();
    while t.elapsed().as_secs() < 40 {
        let mut cands: Vec<Vec<u64>> = vec![];
        let n = best.len();
        let mut k = n / 2;
        while k > 0 {
            for i in (0..n).step_by(k.max(1)) {
                let mut c = best.clone();
                c.drain(i..(i + k).min(n));
                cands.push(c);
                let mut c = best.clone();
                c[i..(i + k).min(n)].fill(0);
                cands.push(c);
            }
            k /= 2;
        }
        for i in 0..n {
            if best[i] > 1 {
                for v in [1, best[i] / 2, best[i] - 1] {
                    let mut c = best.clone();
                    c[i] = v;
                    cands.push(c);
                }
            }
        }
        cands.retain(|c| *c != best && tried.insert(c.clone()));
        cands.truncate(160);
        if cands.is_empty() {
            break;
        }
        let got = evaluate(&cfg, build, cands.into_iter().map(Src::replay).collect(), inflight, SHRINKING, n_tried);
        n_tried += 1000;
        inflight.set(0, u64::MAX, 0);
        let smaller = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
        for (rec, v, _) in got {
            if let Err(m) = v {
                if smaller(&rec, &best) {
                    best = rec;
                    message = m;
                }
            }
        }
    }
    (best, message)
}

pub fn replay_batch(cfg: &Cfg, b: &Batch, j: &J) -> Option<String> {
    let choices: Vec<u64> = j["choices"]
        .as_array()
        .expect("choices")
        .iter()
        .map(|x| x.as_str().map(|s| s.parse().unwrap()).unwrap_or_else(|| x.as_u64().unwrap()))
        .collect();
    let mut got = evaluate(cfg, b.build, vec![Src::replay(choices)], &InFlight::open(None), 0, 0);
    let (_, v, c) = got.remove(0);
    if let Some(c) = c {
        println!("{}", c.notes.join("\n"));
        println!("{}", clip(&c.unit.src, 6000));
    }
    v.err()
}

// ------------------------------------------------------------------ the checks

const STRUCTS: Batch = Batch { sub: "compiled structs", building: "building structs", build: |s| case(s, Focus::Structs), quick: 1280, thorough: 60000 };
const ENUMS: Batch = Batch { sub: "compiled enums", building: "building enums", build: |s| case(s, Focus::Enums), quick: 1440, thorough: 80000 };
const UNIONS: Batch = Batch { sub: "compiled unions", building: "building unions", build: |s| case(s, Focus::Unions), quick: 1280, thorough: 60000 };
const DEFAULTS: Batch = Batch { sub: "compiled defaults", building: "building defaults", build: |s| case(s, Focus::Defaults), quick: 1440, thorough: 80000 };
const SHAPES: Batch = Batch { sub: "compiled shapes", building: "building shapes", build: |s| case(s, Focus::Shape), quick: 1440, thorough: 80000 };

fn shapes(s: &mut Src, cx: &mut Cx) -> vhcore::Outcome {
    let c = case(s, Focus::Shape)?;
    for n in &c.notes {
        cx.note(|| n.clone());
    }
    cx.nontrivial = c.weight >= 2;
    cx.key(&c.key);
    Ok(())
}

/// A number which two enumerators, or two case labels, would share.
fn repeated(s: &mut Src, cx: &mut Cx, f: Focus) -> vhcore::Outcome {
    let mode = Mode { keep_typedefs: false, ..Mode::draw(s) };
    let mut defs = generate(s, &opts(mode, f));
    let env = Env::new(&defs);
    let at: Vec<usize> = (0..defs.len())
        .filter(|i| match &defs[*i] {
            Definition::Type(TypeDef::Enum(..)) => f == Focus::Enums,
            Definition::Type(TypeDef::Union(..)) => f == Focus::Unions,
            _ => false,
        })
        .collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = at[s.usize(at.len())];
    // Another spelling of the same number.
    let respell = |v: i128, s: &mut Src| {
        Value::Constant(match s.below(3) {
            0 if v >= 0 => Constant::Hex(format!("{v:x}")),
            1 if v > 0 => Constant::Octal(format!("{v:o}")),
            _ => Constant::Decimal(v.to_string()),
        })
    };
    let mut named = None;
    let by_name = s.bool();
    match &mut defs[i] {
        Definition::Type(TypeDef::Enum(_, b)) => {
            let v = env.num(&b[s.usize(b.len())].value).unwrap();
            let mut value = respell(v, s);
            if by_name && v >= 0 {
                named = Some(std::mem::replace(&mut value, Value::Identifier("ANOTHER_ONE".into())));
            }
            let to = s.usize(b.len() + 1);
            b.insert(to, Assign { identifier: "the_same_again".into(), value });
        }
        Definition::Type(TypeDef::Union(n, b)) => {
            let (c, arms) = env.arms(n);
            let (v, _, _) = arms[s.usize(arms.len())].clone();
            let value = match &c {
                W::Bool => Value::Identifier(if v == 1 { "TRUE" } else { "FALSE" }.into()),
                W::Enum(e) => Value::Identifier(env.numbers(e).into_iter().find(|x| x.1 == v).unwrap().0),
                _ => {
                    let value = respell(v as i128, s);
                    if by_name {
                        named = Some(value);
                        Value::Identifier("ANOTHER_ONE".into())
                    } else {
                        value
                    }
                }
            };
            let to = s.usize(b.specs.len() + 1);
            if s.bool() || to == b.specs.len() {
                b.specs.insert(to, CaseSpec { values: vec![value], declaration: Declaration::Void });
                cx.label("an arm of its own");
            } else {
                let k = s.usize(b.specs[to].values.len() + 1);
                b.specs[to].values.insert(k, value);
                cx.label("a label more");
            }
        }
        _ => unreachable!(),
    }
    if let Some(value) = named {
        defs.push(Definition::Constant(Assign { identifier: "ANOTHER_ONE".into(), value }));
        cx.label("by name");
    }
    let text = idl::text(&defs);
    cx.note(|| show(&mode.config()));
    cx.note(|| text.clone());
    cx.nontrivial = true;
    cx.key(&(&text, show(&mode.config())));
    match g("generating code", || gen_code(defs, &mode.config()))? {
        Err(_) => Ok(()),
        Ok(code) => Err(format!("the same number twice, and code is generated all the same: {}", clip(&code, 1500))),
    }
}

/// Interfaces whose code is known not to compile, and the complaint.
const PROBES: &[(&str, &str, &str)] = &[
    ("long-array", "struct a { int x[33]; };", "E0277"),
];
fn probes(cfg: &Cfg, rep: &mut Report) {
    let mut units = vec![];
    let mut of = vec![];
    for (key, text, want) in PROBES {
        for u in [UMode::Complement, UMode::Indexer, UMode::Union] {
            let m = Mode { e: EMode::Complement, u, keep_typedefs: false };
            let code = guard(|| rpcgen::parser::parse(text).and_then(|d| gen_code(d, &m.config())));
            rep.evaluations += 1;
            let Ok(Ok(code)) = code else { continue };
            units.push(Unit { src: format!("mod g {{\n{code}\n}}\npub fn call(_: &str, _: usize, _: &[u8]) -> String {{ unreachable!() }}\n"), calls: vec![] });
            of.push((*key, *text, *want, m));
        }
    }
    for ((key, text, want, m), o) in of.into_iter().zip(e2e::run(&cfg.root, &units, cfg.threads)) {
        let Err(e) = o else { continue };
        if e.contains(want) && cfg.listed.iter().any(|l| l == key) {
            rep.known.entry(key.to_string()).or_insert(format!("the code for {text:?} does not compile: {}", e.lines().next().unwrap_or("")));
        } else {
            rep.violations.push(Violation {
                sub: "probes".into(),
                message: format!("the code for {text:?} does not compile: {}", clip(&e, 800)),
                choices: vec![],
                case: vec![show(&m.config()), text.into()],
                found_at: key.into(),
                data: J::Null,
            });
        }
    }
}

pub fn all() -> Vec<Check> {
    let rule = "distinct pairs of interface and options with at least two types";
    let assume = &[
        "interfaces are well-defined: unique names (also after conversion to Rust), no types called like the traits which generated code imports, no constants called Some, None, Ok or Err, every type has a value (types hold themselves only by optional data, lists or below union arms)",
        "arrays of at most 32 elements (other than opaque data), as serde derives no more",
        "where gaps are filled, numbers are mostly not above 60, and never above 1200",
    ];
    macro_rules! only_build {
        ($b:expr, $f:expr) => {
            Sub { name: $b.building, prop: |s, _| case(s, $f).map(|_| ()), quick: 0, thorough: 0 }
        };
    }
    macro_rules! check {
        ($id:expr, $b:expr, $subs:expr, $extra:expr) => {
            Check {
                id: $id,
                rule,
                assumptions: assume,
                subs: $subs,
                extra: Some(|c, r| {
                    run_batch(c, &$b, r);
                    let f: fn(&Cfg, &mut Report) = $extra;
                    f(c, r)
                }),
                extra_replay: Some(|c, j| {
                    if j["sub"] == "probes" {
                        let mut r = Report::default();
                        probes(c, &mut r);
                        return Ok(r.violations.into_iter().next().map(|v| v.message));
                    }
                    Ok(replay_batch(c, &$b, j))
                }),
            }
        };
    }
    vec![
        check!("C18", SHAPES, vec![only_build!(SHAPES, Focus::Shape), Sub { name: "shapes", prop: shapes, quick: 20000, thorough: 1000000 }], probes),
        check!("C19", STRUCTS, vec![only_build!(STRUCTS, Focus::Structs)], |_, _| ()),
        check!("C20", ENUMS, vec![only_build!(ENUMS, Focus::Enums), Sub { name: "repeated numbers", prop: |s, c| repeated(s, c, Focus::Enums), quick: 30000, thorough: 1000000 }], |_, _| ()),
        check!("C21", UNIONS, vec![only_build!(UNIONS, Focus::Unions), Sub { name: "repeated labels", prop: |s, c| repeated(s, c, Focus::Unions), quick: 30000, thorough: 1000000 }], |_, _| ()),
        check!("C26", DEFAULTS, vec![only_build!(DEFAULTS, Focus::Defaults)], |_, _| ()),
    ]
}
