//! C16, C17, C22, C23, C24: the generator's output as text, read back with syn.
use crate::idl;
use crate::parse_checks::{g, repo_parse, tame};
use crate::sem::*;
use quote::ToTokens;
use rpcgen::gen_code::{Config, gen_code};
use rpcgen::parser::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vhcore::driver::Check;
use vhcore::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub fn repo_gen(defs: Vec<Definition>, c: &Config) -> Result<Result<String, String>, String> {
    Ok(g("generating code", || gen_code(defs, c))?.map_err(|e| format!("{e:?}")))
}
/// The generated code of a definition list which is written down and parsed first.
fn code_of(defs: &[Definition], c: &Config) -> Result<Result<String, String>, String> {
    let text = idl::text(defs);
    let d = repo_parse(&text)?.map_err(|e| format!("the interface does not parse: {}\n{text}", clip(&e, 200)))?;
    repo_gen(d, c)
}
fn items(code: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(code).map_err(|e| format!("the generated code is no Rust: {e}\n{}", clip(code, 1500)))?;
    Ok(f.items.iter().map(|i| i.to_token_stream().to_string()).collect())
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn difference(a: &[String], b: &[String]) -> String {
    let (mut x, mut y) = (vec![], b.to_vec());
    for i in a {
        match y.iter().position(|j| i == j) {
            Some(p) => {
                y.remove(p);
            }
            None => x.push(i.clone()),
        }
    }
    format!("only before: {}\nonly after: {}", clip(&x.join("\n"), 900), clip(&y.join("\n"), 900))
}

// ------------------------------------------------------------------ C16

fn eval_expr(e: &syn::Expr, known: &BTreeMap<String, i128>) -> Option<i128> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_digits().parse().ok(),
            _ => None,
        },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => Some(-eval_expr(&u.expr, known)?),
        syn::Expr::Cast(c) => eval_expr(&c.expr, known),
        syn::Expr::Paren(p) => eval_expr(&p.expr, known),
        syn::Expr::Group(p) => eval_expr(&p.expr, known),
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => eval_expr(e, known),
            _ => None,
        },
        syn::Expr::Path(p) => known.get(&p.path.segments.last()?.ident.to_string()).copied(),
        _ => None,
    }
}
struct Numbers {
    consts: BTreeMap<String, (i128, String)>,
    /// Of every enum: variants by name.
    enums: BTreeMap<String, BTreeMap<String, i128>>,
    /// Every array length in the fields of a type, in order.
    lens: BTreeMap<String, Vec<i128>>,
    types: BTreeSet<String>,
}
/// Array lengths in a type, outermost first.
fn lens(t: &syn::Type, known: &BTreeMap<String, i128>, types: &BTreeSet<String>, out: &mut Vec<Option<i128>>) {
    match t {
        syn::Type::Array(a) => {
            out.push(eval_expr(&a.len, known));
            lens(&a.elem, known, types, out);
        }
        syn::Type::Path(p) => {
            for s in &p.path.segments {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        match x {
                            // A name alone may be a type or a constant.
                            syn::GenericArgument::Type(syn::Type::Path(p))
                                if !["Vec", "Option", "Box"].contains(&s.ident.to_string().as_str())
                                    && p.path.get_ident().is_some_and(|i| known.contains_key(&i.to_string()) && !types.contains(&i.to_string())) =>
                            {
                                out.push(known.get(&p.path.get_ident().unwrap().to_string()).copied())
                            }
                            syn::GenericArgument::Type(t) => lens(t, known, types, out),
                            syn::GenericArgument::Const(e) => out.push(eval_expr(e, known)),
                            _ => {}
                        }
                    }
                }
            }
        }
        syn::Type::Paren(p) => lens(&p.elem, known, types, out),
        syn::Type::Group(p) => lens(&p.elem, known, types, out),
        _ => {}
    }
}
fn numbers(code: &str) -> Result<Numbers, String> {
    let f = syn::parse_file(code).map_err(|e| format!("the generated code is no Rust: {e}"))?;
    let mut n = Numbers { consts: BTreeMap::new(), enums: BTreeMap::new(), lens: BTreeMap::new(), types: BTreeSet::new() };
    // Names may refer to each other in any order.
    let mut known: BTreeMap<String, i128> = BTreeMap::new();
    for _ in 0..f.items.len() + 1 {
        let before = known.len();
        for i in &f.items {
            match i {
                syn::Item::Const(c) => {
                    if let Some(v) = eval_expr(&c.expr, &known) {
                        known.insert(c.ident.to_string(), v);
                        n.consts.insert(c.ident.to_string(), (v, c.ty.to_token_stream().to_string()));
                    }
                }
                syn::Item::Enum(e) => {
                    for v in &e.variants {
                        if let Some(x) = v.discriminant.as_ref().and_then(|d| eval_expr(&d.1, &known)) {
                            n.enums.entry(e.ident.to_string()).or_default().insert(v.ident.to_string(), x);
                        }
                    }
                }
                _ => {}
            }
        }
        if known.len() == before {
            break;
        }
    }
    // A type argument which names both a type and a constant is the type.
    for i in &f.items {
        if let syn::Item::Struct(syn::ItemStruct { ident, .. }) | syn::Item::Enum(syn::ItemEnum { ident, .. }) = i {
            n.types.insert(ident.to_string());
        }
    }
    for i in &f.items {
        let (name, fields): (String, Vec<&syn::Field>) = match i {
            syn::Item::Struct(s) => (s.ident.to_string(), s.fields.iter().collect()),
            syn::Item::Enum(e) => {
                for v in &e.variants {
                    let mut l = vec![];
                    for f in &v.fields {
                        lens(&f.ty, &known, &n.types, &mut l);
                    }
                    n.lens.insert(format!("{}::{}", e.ident, v.ident), l.into_iter().map(|x| x.unwrap_or(-1)).collect());
                }
                continue;
            }
            _ => continue,
        };
        for f in fields {
            let mut l = vec![];
            lens(&f.ty, &known, &n.types, &mut l);
            n.lens.insert(format!("{name}.{}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()), l.into_iter().map(|x| x.unwrap_or(-1)).collect());
        }
    }
    Ok(n)
}
fn w_lens(w: &W, out: &mut Vec<i128>) {
    match w {
        W::OpF(n) => out.push(*n as i128),
        W::Arr(x, n) => {
            out.push(*n as i128);
            w_lens(x, out);
        }
        W::List(x, _) | W::Opt(x) => w_lens(x, out),
        _ => {}
    }
}
fn wide_opts(m: Mode) -> Opts {
    let mut o = Opts::of(m);
    o.mix = [5, 4, 4, 2, 2];
    o.big = true;
    o
}
fn case_notes(cx: &mut Cx, defs: &[Definition], c: &Config) {
    cx.note(|| show(c));
    cx.note(|| idl::text(defs));
    cx.nontrivial = defs.len() >= 2;
    cx.key(&(defs, show(c)));
}
fn values(s: &mut Src, cx: &mut Cx) -> Outcome {
    let m = Mode { keep_typedefs: false, ..Mode::draw(s) };
    let c = m.config();
    let defs = generate(s, &wide_opts(m));
    case_notes(cx, &defs, &c);
    let code = code_of(&defs, &c)?.map_err(|e| format!("no code is generated: {e}"))?;
    check_values(&defs, &code, cx)
}
fn check_values(defs: &[Definition], code: &str, cx: &mut Cx) -> Outcome {
    let n = numbers(code)?;
    let env = Env::new(defs);
    for d in defs {
        match d {
            Definition::Constant(a) => {
                let want = env.num(&a.value).unwrap();
                let (v, t) = n.consts.get(&escape(a.identifier.clone())).ok_or_else(|| format!("there is no constant {} (or none with a value)", a.identifier))?;
                ensure!(*v == want, "constant {} is {v} instead of {want}", a.identifier);
                let fits = match t.as_str() {
                    "u32" => want <= u32::MAX as i128,
                    "u64" => want <= u64::MAX as i128,
                    "i32" => want <= i32::MAX as i128,
                    "i64" => want <= i64::MAX as i128,
                    "usize" => want <= usize::MAX as i128,
                    _ => true,
                };
                ensure!(fits, "constant {} = {want} is a {t}", a.identifier);
                cx.label("constant");
                cx.label_if(matches!(a.value, Value::Identifier(_)), "constant by name");
            }
            Definition::Type(TypeDef::Enum(e, body)) => {
                let none = BTreeMap::new();
                let have = n.enums.get(&camel(e)).unwrap_or(&none);
                for a in body {
                    let want = env.num(&a.value).unwrap();
                    let v = have.get(&camel(&a.identifier));
                    ensure!(v == Some(&want), "enumerator {} of {e} is {v:?} instead of {want}", a.identifier);
                    cx.label("enumerator");
                    cx.label_if(matches!(a.value, Value::Identifier(_)), "enumerator by name");
                    cx.label_if(want < 0, "negative enumerator");
                }
            }
            Definition::Type(TypeDef::Struct(t, body)) => {
                for d in body {
                    let at = format!("{}.{}", camel(t), snake(d.name().unwrap()));
                    let mut want = vec![];
                    w_lens(&env.wire(d).unwrap(), &mut want);
                    let have = n.lens.get(&at).ok_or_else(|| format!("there is no field {at}"))?;
                    ensure!(*have == want, "the array sizes of {at} are {have:?} instead of {want:?}");
                    cx.label_if(!want.is_empty(), "array size");
                }
            }
            Definition::Type(TypeDef::Union(t, body)) => {
                let mut arms: Vec<(String, Option<W>)> = env.arms(t).1.into_iter().map(|a| (a.1, a.2)).collect();
                if let Some(d) = &body.default {
                    arms.push(("Default".into(), env.wire(d)));
                }
                for (name, w) in arms {
                    let at = format!("{}::{name}", camel(t));
                    let mut want = vec![];
                    if let Some(w) = &w {
                        w_lens(w, &mut want);
                    }
                    let have = n.lens.get(&at).ok_or_else(|| format!("there is no variant {at}"))?;
                    ensure!(*have == want, "the array sizes of {at} are {have:?} instead of {want:?}");
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// Calls `f` on every value which becomes a number of the generated code, with the greatest number allowed there.
fn each_value(defs: &mut [Definition], f: &mut dyn FnMut(&mut Value, i128, i128)) {
    fn decl(d: &mut Declaration, f: &mut dyn FnMut(&mut Value, i128, i128)) {
        if let Declaration::FixedArray(_, _, v) | Declaration::OpaqueFixedArray(_, v) = d {
            f(v, 0, usize::MAX as i128);
        }
    }
    for d in defs {
        match d {
            Definition::Constant(a) => f(&mut a.value, 0, u64::MAX as i128),
            Definition::Type(TypeDef::Enum(_, b)) => b.iter_mut().for_each(|a| f(&mut a.value, i32::MIN as i128, i32::MAX as i128)),
            Definition::Type(TypeDef::Struct(_, b)) => b.iter_mut().for_each(|d| decl(d, f)),
            Definition::Type(TypeDef::Union(_, b)) => {
                let bool = matches!(b.cond, Declaration::Variable(TypeSpecifier::Bool, _));
                for s in &mut b.specs {
                    if !bool {
                        s.values.iter_mut().for_each(|v| f(v, 0, u32::MAX as i128));
                    }
                    decl(&mut s.declaration, f);
                }
                if let Some(d) = &mut b.default {
                    decl(d, f);
                }
            }
            _ => {}
        }
    }
}
fn spell(n: i128, s: &mut Src) -> Value {
    Value::Constant(match s.below(3) {
        1 if n >= 0 => Constant::Hex(format!("{n:x}")),
        2 if n > 0 => Constant::Octal(format!("{n:o}")),
        _ => Constant::Decimal(n.to_string()),
    })
}
fn refused(s: &mut Src, cx: &mut Cx) -> Outcome {
    let mut m = Mode { keep_typedefs: false, ..Mode::draw(s) };
    let mut kind = s.below(3);
    let mut defs = generate(s, &wide_opts(m));
    let mut count = 0;
    each_value(&mut defs, &mut |_, _, _| count += 1);
    if count == 0 {
        return Ok(());
    }
    if kind == 1 && m.u == UMode::Complement {
        // Numbers are not skipped by the thousand million.
        if s.bool() {
            m.u = UMode::Indexer;
        } else {
            kind = 2;
        }
    }
    let c = m.config();
    let at = s.usize(count);
    let by_name = s.bool();
    let mut extra = None;
    let mut i = 0;
    let mut what = String::new();
    let mut skip = false;
    each_value(&mut defs, &mut |v, lo, hi| {
        if i == at {
            let old = format!("{v:?}");
            *v = match kind {
                0 => Value::Identifier((*s.pick(&["nowhere", "TRUE", "NOWHERE_", "x"])).into()),
                1 => {
                    let d = [1, 2, hi - lo, hi, 1 << 100][s.usize(5)];
                    spell(hi + d, s)
                }
                _ => {
                    let d = [1, 2, 1 << 31, 1 << 100][s.usize(4)];
                    spell(lo - d, s)
                }
            };
            if by_name && kind != 0 {
                // By way of a constant which itself is in range, if there can be one.
                if let Value::Constant(k) = v {
                    let n = literal(k).unwrap();
                    if (0..=u64::MAX as i128).contains(&n) {
                        extra = Some(std::mem::replace(v, Value::Identifier("LARGE_ONE".into())));
                    }
                }
            }
            what = format!("{old} replaced by {v:?}");
        }
        i += 1;
    });
    if let Some(v) = extra {
        defs.push(Definition::Constant(Assign { identifier: "LARGE_ONE".into(), value: v }));
        cx.label("by way of a constant");
    }
    // An undefined name may be one of the interface's own after all.
    if kind == 0 {
        let env = Env::new(&defs);
        skip = ["nowhere", "NOWHERE_", "x", "TRUE"].iter().any(|n| env.nums.contains_key(*n));
    }
    case_notes(cx, &defs, &c);
    cx.note(|| what.clone());
    cx.label(["undefined name", "too large", "too small"][kind as usize]);
    if skip {
        return Ok(());
    }
    match code_of(&defs, &c)? {
        Err(_) => Ok(()),
        Ok(code) => Err(format!("{what}, and code is generated all the same: {}", clip(&code, 1500))),
    }
}
fn literals(s: &mut Src, cx: &mut Cx) -> Outcome {
    let c = if s.chance(1, 3) {
        let near = *s.pick(&[i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128, 0, i64::MIN as i128]);
        let Value::Constant(c) = spell(near + s.below(7) as i128 - 3, s) else { unreachable!() };
        c
    } else {
        idl::constant(s)
    };
    cx.note(|| format!("{c:?}"));
    cx.key(&c);
    cx.nontrivial = true;
    let want = literal(&c);
    macro_rules! same {
        ($t:ty) => {{
            let got = g("reading the number", || c.value::<$t>().ok())?;
            let want = want.and_then(|n| <$t>::try_from(n).ok());
            ensure!(got == want, "as {} it is {got:?} instead of {want:?}", stringify!($t));
            cx.label_if(got.is_some(), concat!("within ", stringify!($t)));
        }};
    }
    same!(i32);
    same!(u32);
    same!(u64);
    same!(usize);
    // The same number written down and read.
    let text = idl::text(&[Definition::Constant(Assign { identifier: "x".into(), value: Value::Constant(c.clone()) })]);
    let d = repo_parse(&text)?.map_err(|e| format!("{text} does not parse: {}", clip(&e, 200)))?;
    match d.as_slice() {
        [Definition::Constant(a)] if a.identifier == "x" && a.value == Value::Constant(c.clone()) => Ok(()),
        _ => Err(format!("{text} is read as {d:?}")),
    }
}

// ------------------------------------------------------------------ C17

fn all_configs() -> Vec<Config> {
    (0..32u8)
        .map(|i| Config {
            remove_typedef: i & 1 == 0,
            enum_impl_indexer: i & 2 != 0,
            enum_impl_std_trait: i & 4 != 0,
            union_impl_indexer: i & 8 != 0,
            union_impl_union: i & 16 != 0,
        })
        .collect()
}
fn total(defs: Vec<Definition>, cx: &mut Cx) -> Outcome {
    let text = idl::text(&defs);
    cx.note(|| text.clone());
    cx.nontrivial = defs.len() >= 2;
    cx.key(&text);
    let tame = tame(&defs);
    let parsed = repo_parse(&text)?.map_err(|e| format!("the interface does not parse: {}", clip(&e, 200)))?;
    for c in all_configs() {
        // Filling gaps of millions takes its time.
        if !tame && (c.enum_complement_index() || c.union_complement_index()) {
            cx.label("wide gaps not filled");
            continue;
        }
        match repo_gen(parsed.clone(), &c).map_err(|e| format!("{e} with {}", show(&c)))? {
            Ok(code) => {
                cx.label("code");
                ensure!(!code.is_empty(), "no code with {}", show(&c));
            }
            Err(_) => cx.label("error"),
        }
    }
    Ok(())
}
/// Small numbers only, in most cases.
fn calm(defs: &mut [Definition], s: &mut Src) {
    fn v(x: &mut Value, s: &mut Src) {
        if let Value::Constant(c) = x {
            if literal(c).is_none_or(|n| !(-999..=999).contains(&n)) {
                *x = Value::Constant(Constant::Decimal(s.below(30).to_string()));
            }
        }
    }
    fn decl(d: &mut Declaration, s: &mut Src) {
        use Declaration::*;
        match d {
            FixedArray(t, _, x) => {
                v(x, s);
                ty(t, s)
            }
            OpaqueFixedArray(_, x) => v(x, s),
            VariableArray(t, _, x) => {
                x.iter_mut().for_each(|x| v(x, s));
                ty(t, s)
            }
            OpaqueVariableArray(_, x) | String(_, x) => x.iter_mut().for_each(|x| v(x, s)),
            Variable(t, _) | OptionVariable(t, _) => ty(t, s),
            Void => {}
        }
    }
    fn ty(t: &mut TypeSpecifier, s: &mut Src) {
        match t {
            TypeSpecifier::Enum(e) => e.body.iter_mut().for_each(|a| v(&mut a.value, s)),
            TypeSpecifier::Struct(e) => e.body.iter_mut().for_each(|d| decl(d, s)),
            TypeSpecifier::Union(e) => union(&mut e.body, s),
            _ => {}
        }
    }
    fn union(b: &mut UnionBody, s: &mut Src) {
        decl(&mut b.cond, s);
        for c in &mut b.specs {
            c.values.iter_mut().for_each(|x| v(x, s));
            decl(&mut c.declaration, s);
        }
        b.default.iter_mut().for_each(|d| decl(d, s));
    }
    for d in defs {
        match d {
            Definition::Constant(a) => v(&mut a.value, s),
            Definition::Type(TypeDef::Declaration(d)) => decl(d, s),
            Definition::Type(TypeDef::Enum(_, b)) => b.iter_mut().for_each(|a| v(&mut a.value, s)),
            Definition::Type(TypeDef::Struct(_, b)) => b.iter_mut().for_each(|d| decl(d, s)),
            Definition::Type(TypeDef::Union(_, b)) => union(b, s),
            _ => {}
        }
    }
}
/// What can be generated, but for some numbers at the limits of the types.
fn extreme(s: &mut Src, cx: &mut Cx) -> Outcome {
    let m = Mode { e: EMode::Std, u: UMode::Union, keep_typedefs: s.bool() };
    let mut defs = generate(s, &Opts::of(m));
    let mut count = 0;
    each_value(&mut defs, &mut |_, _, _| count += 1);
    let mut n = 0;
    while count > 0 && s.more(n, 1, 4, 1, 2) {
        n += 1;
        let at = s.usize(count);
        let mut i = 0;
        each_value(&mut defs, &mut |v, lo, hi| {
            if i == at {
                let k = match s.below(4) {
                    0 => lo,
                    1 => hi - s.below(2) as i128,
                    2 => hi + 1,
                    _ => (1 << *s.pick(&[31, 32, 63, 64, 15, 16])) - s.below(2) as i128,
                };
                *v = spell(k, s);
            }
            i += 1;
        });
    }
    total(defs, cx)
}
fn wild(s: &mut Src, cx: &mut Cx) -> Outcome {
    let mut defs = idl::spec(s, 7);
    if s.chance(3, 4) {
        calm(&mut defs, s);
    }
    total(defs, cx)
}
/// Every name of the text, so that names can be exchanged.
fn exchange(text: &str, s: &mut Src) -> String {
    let mut words: Vec<(usize, usize)> = vec![];
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            let a = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            if !idl::reserved(&text[a..i]) {
                words.push((a, i));
            }
        } else if b[i].is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    if words.is_empty() {
        return text.into();
    }
    let (a, z) = *s.pick(&words);
    let (x, y) = *s.pick(&words);
    format!("{}{}{}", &text[..a], &text[x..y], &text[z..])
}
fn entangled(s: &mut Src, cx: &mut Cx) -> Outcome {
    let m = Mode { e: EMode::Complement, u: UMode::Complement, keep_typedefs: s.bool() };
    let mut o = Opts::of(m);
    o.enum_neg = true;
    o.mix = [3, 3, 4, 3, 5];
    let mut defs = generate(s, &o);
    let mut text = idl::text(&defs);
    let mut n = 0;
    while s.more(n, 1, 5, 1, 2) {
        n += 1;
        let t = exchange(&text, s);
        if let Ok(d) = crate::refparse::parse(&t) {
            defs = d;
            text = t;
        }
    }
    calm(&mut defs, s);
    total(defs, cx)
}
/// Chains and cycles of constants, enumerators and typedefs.
fn chains(s: &mut Src, cx: &mut Cx) -> Outcome {
    let n = 1 + s.usize(8);
    let name = |i: usize| format!("N{i}");
    let mut defs = vec![];
    let mut enums: BTreeMap<usize, Vec<Assign>> = BTreeMap::new();
    for i in 0..n {
        let to = s.usize(n + 1);
        let value = if to == n { Value::Constant(Constant::Decimal(s.below(9).to_string())) } else { Value::Identifier(name(to)) };
        match s.below(4) {
            0 => enums.entry(s.usize(3)).or_default().push(Assign { identifier: name(i), value }),
            1 => {
                let t = if to == n { TypeSpecifier::Int(true) } else { TypeSpecifier::Identifier(name(to)) };
                let d = match s.below(5) {
                    0 => Declaration::OptionVariable(t, name(i)),
                    1 => Declaration::VariableArray(t, name(i), Some(value)),
                    2 => Declaration::FixedArray(t, name(i), value),
                    3 => Declaration::OpaqueFixedArray(name(i), value),
                    _ => Declaration::Variable(t, name(i)),
                };
                defs.push(Definition::Type(TypeDef::Declaration(d)));
            }
            _ => defs.push(Definition::Constant(Assign { identifier: name(i), value })),
        }
    }
    for (e, b) in enums {
        defs.push(Definition::Type(TypeDef::Enum(format!("E{e}"), b)));
    }
    let some = |s: &mut Src| name(s.usize(n));
    let mut body = vec![];
    while s.more(body.len(), 1, 3, 1, 2) {
        let t = TypeSpecifier::Identifier(some(s));
        body.push(if s.bool() { Declaration::Variable(t, "a".into()) } else { Declaration::FixedArray(t, "b".into(), Value::Identifier(some(s))) });
    }
    defs.push(Definition::Type(TypeDef::Struct("S".into(), body)));
    defs.push(Definition::Type(TypeDef::Union(
        "U".into(),
        UnionBody {
            cond: Declaration::Variable(TypeSpecifier::Identifier(some(s)), "d".into()),
            specs: vec![CaseSpec { values: vec![Value::Identifier(some(s))], declaration: Declaration::Variable(TypeSpecifier::Identifier(some(s)), "x".into()) }],
            default: None,
        },
    )));
    shuffle(&mut defs, s);
    total(defs, cx)
}

/// Long chains, rings and wide definitions, generated on the stack a thread has by default.
fn large(s: &mut Src, cx: &mut Cx) -> Outcome {
    let n = match s.below(4) {
        0 => 90 + s.usize(20),
        1 => 2 + s.usize(60),
        2 => 2 + s.usize(400),
        _ => 2 + s.usize(1500),
    };
    let kind = s.below(9);
    let n = if kind < 4 && s.chance(1, 10) { 6000 + s.usize(9000) } else { n };
    cx.label(["constants", "enumerators", "typedefs", "array typedefs", "structs", "unions", "a wide struct", "a wide enum", "a wide union"][kind as usize]);
    let name = |i: usize| format!("n{i}");
    let id = |i: usize| TypeSpecifier::Identifier(name(i));
    let five = || Value::Constant(Constant::Decimal("5".into()));
    let mut defs = vec![];
    // What the last one refers to: nothing, a name without definition, the first or another one.
    let end = s.below(4);
    let back = if end == 2 { 0 } else { s.usize(n) };
    let next = |i: usize| match (i == n - 1, end) {
        (false, _) => Some(name(i + 1)),
        (_, 0) => None,
        (_, 1) => Some("nothing".to_string()),
        _ => Some(name(back)),
    };
    let value = |i: usize| next(i).map_or(five(), Value::Identifier);
    let ty = |i: usize| next(i).map_or(TypeSpecifier::Int(true), TypeSpecifier::Identifier);
    cx.label_if(n > 100, "longer than 100");
    let several = s.usize(4) == 0;
    match kind {
        0 | 1 => {
            for i in 0..n {
                let a = Assign { identifier: name(i), value: value(i) };
                defs.push(if kind == 0 || s.chance(1, 2) { Definition::Constant(a) } else { Definition::Type(TypeDef::Enum(format!("e{i}"), vec![a])) });
            }
            defs.push(Definition::Type(TypeDef::Struct("user".into(), vec![Declaration::FixedArray(TypeSpecifier::Int(true), "a".into(), Value::Identifier(name(0)))])));
        }
        2 | 3 => {
            for i in 0..n {
                let d = match if kind == 2 { 0 } else { s.below(4) } {
                    0 => Declaration::Variable(ty(i), name(i)),
                    1 => Declaration::FixedArray(ty(i), name(i), five()),
                    2 => Declaration::VariableArray(ty(i), name(i), None),
                    _ => Declaration::OptionVariable(ty(i), name(i)),
                };
                defs.push(Definition::Type(TypeDef::Declaration(d)));
            }
            defs.push(Definition::Type(TypeDef::Struct("user".into(), vec![Declaration::Variable(id(0), "a".into())])));
            defs.push(Definition::Type(TypeDef::Union(
                "chooser".into(),
                UnionBody {
                    cond: Declaration::Variable(id(0), "d".into()),
                    specs: vec![CaseSpec { values: vec![five()], declaration: Declaration::Variable(id(s.usize(n)), "x".into()) }],
                    default: None,
                },
            )));
        }
        4 | 5 => {
            for i in 0..n {
                let d = match s.below(6) {
                    0 => Declaration::OptionVariable(ty(i), "a".into()),
                    1 => Declaration::VariableArray(ty(i), "a".into(), None),
                    2 => Declaration::FixedArray(ty(i), "a".into(), five()),
                    _ => Declaration::Variable(ty(i), "a".into()),
                };
                let b = several.then(|| Declaration::OptionVariable(id(s.usize(n)), "b".into()));
                let t = if kind == 4 || s.chance(1, 3) {
                    TypeDef::Struct(name(i), std::iter::once(d).chain(b).collect())
                } else {
                    let spec = |k: &str, d| CaseSpec { values: vec![Value::Constant(Constant::Decimal(k.into()))], declaration: d };
                    TypeDef::Union(
                        name(i),
                        UnionBody {
                            cond: Declaration::Variable(TypeSpecifier::Int(true), "d".into()),
                            specs: vec![spec("1", d)],
                            default: b.or_else(|| s.chance(1, 3).then_some(Declaration::Void)),
                        },
                    )
                };
                defs.push(Definition::Type(t));
            }
        }
        6 => {
            let body = (0..n).map(|i| Declaration::Variable(if s.bool() { TypeSpecifier::Identifier("t".into()) } else { TypeSpecifier::Hyper(false) }, name(i))).collect();
            defs.push(Definition::Type(TypeDef::Struct("wide".into(), body)));
            defs.push(Definition::Type(TypeDef::Struct("t".into(), vec![Declaration::OptionVariable(TypeSpecifier::Identifier("wide".into()), "w".into())])));
        }
        _ => {
            let number = |i: usize| if end == 3 && i > 0 { Value::Identifier(name(i - 1)) } else { Value::Constant(Constant::Decimal(i.to_string())) };
            let assigns = (0..n).map(|i| Assign { identifier: name(i), value: number(i) }).collect();
            defs.push(Definition::Type(TypeDef::Enum("e".into(), assigns)));
            if kind == 8 {
                let mut specs: Vec<CaseSpec> = vec![];
                for i in 0..n {
                    let v = Value::Identifier(name(i));
                    match specs.last_mut() {
                        Some(c) if s.bool() => c.values.push(v),
                        _ => specs.push(CaseSpec { values: vec![v], declaration: Declaration::Variable(TypeSpecifier::Int(true), format!("a{i}")) }),
                    }
                }
                let cond = Declaration::Variable(TypeSpecifier::Identifier("e".into()), "d".into());
                defs.push(Definition::Type(TypeDef::Union("u".into(), UnionBody { cond, specs, default: s.bool().then_some(Declaration::Void) })));
            }
        }
    }
    match s.below(3) {
        0 => defs.reverse(),
        1 => shuffle(&mut defs, s),
        _ => {}
    }
    let text = idl::text(&defs);
    cx.note(|| clip(&text, 400));
    cx.nontrivial = true;
    let mut c = s.pick(&all_configs()).clone();
    // Wide unions become wide arrays of code for each label.
    c.enum_impl_indexer &= n < 400;
    c.union_impl_indexer &= n < 400;
    cx.key(&(&text, show(&c)));
    let shown = show(&c);
    let (text, head) = (text.clone(), clip(&text, 300));
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || repo_parse(&text).map(|p| p.map(|d| repo_gen(d, &c)))).unwrap().join();
    match r.map_err(|_| format!("generating code for {head} panicked with {shown}"))?? {
        Err(e) => Err(format!("{head} does not parse: {}", clip(&e, 200))),
        Ok(r) => match r.map_err(|e| format!("{e} with {shown}"))? {
            Ok(code) => {
                cx.label("code");
                ensure!(!code.is_empty(), "no code with {shown}");
                Ok(())
            }
            Err(_) => {
                cx.label("error");
                // Chains of a length in use are followed.
                ensure!(end != 0 || n > 60, "no code for a chain of {n} definitions ({head}) with {shown}");
                Ok(())
            }
        },
    }
}

// ------------------------------------------------------------------ C22

fn draw(s: &mut Src, cx: &mut Cx) -> (Vec<Definition>, Config, Mode) {
    let m = Mode::draw(s);
    let defs = generate(s, &Opts::of(m));
    let c = m.config();
    case_notes(cx, &defs, &c);
    (defs, c, m)
}
fn must(defs: &[Definition], c: &Config) -> Result<Vec<String>, String> {
    let code = code_of(defs, c)?.map_err(|e| format!("no code is generated: {e}\n{}", idl::text(defs)))?;
    items(&code)
}
fn repeated(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (defs, c, _) = draw(s, cx);
    let a = code_of(&defs, &c)?;
    let b = code_of(&defs, &c)?;
    ensure!(a == b, "generating twice gives {} and {}", clip(&format!("{a:?}"), 600), clip(&format!("{b:?}"), 600));
    Ok(())
}
fn permuted(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (mut defs, c, _) = draw(s, cx);
    let a = must(&defs, &c)?;
    shuffle(&mut defs, s);
    cx.note(|| format!("permuted: {}", idl::text(&defs)));
    let b = must(&defs, &c)?;
    let (x, y) = (sorted(a), sorted(b));
    ensure!(x == y, "the order of definitions changes the code\n{}", difference(&x, &y));
    Ok(())
}
fn joined(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (defs, c, m) = draw(s, cx);
    let o = Opts { prefix: "zz", max: 4, ..Opts::of(m) };
    let mut other = generate(s, &o);
    while s.more(other.len(), 0, 12, 1, 3) {
        other.push(if s.bool() { Definition::LineComment } else { program() });
    }
    let a = must(&defs, &c)?;
    let b = must(&other, &c)?;
    // Interleaved, both in their own order.
    let mut all = vec![];
    let (mut i, mut j) = (0, 0);
    while i < defs.len() || j < other.len() {
        if j == other.len() || (i < defs.len() && s.bool()) {
            all.push(defs[i].clone());
            i += 1;
        } else {
            all.push(other[j].clone());
            j += 1;
        }
    }
    cx.note(|| format!("joined: {}", idl::text(&all)));
    let both = must(&all, &c)?;
    let is_use = |i: &String| i.starts_with("use ");
    let uses: Vec<&String> = a.iter().filter(|i| is_use(i)).collect();
    ensure!(both.iter().filter(|i| is_use(i)).collect::<Vec<_>>() == uses, "the use statements differ");
    let want = sorted(a.iter().chain(&b).filter(|i| !is_use(i)).cloned().collect());
    let have = sorted(both.into_iter().filter(|i| !is_use(i)).collect());
    ensure!(want == have, "code of unrelated definitions affects each other\n{}", difference(&want, &have));
    Ok(())
}
fn mentioned(defs: &[Definition]) -> HashSet<String> {
    let mut h = HashSet::new();
    for d in defs {
        let own: Vec<String> = match d {
            Definition::Constant(a) => vec![a.identifier.clone()],
            Definition::Type(TypeDef::Enum(n, b)) => b.iter().map(|a| a.identifier.clone()).chain([n.clone()]).collect(),
            Definition::Type(TypeDef::Struct(n, _) | TypeDef::Union(n, _)) => vec![n.clone()],
            Definition::Type(TypeDef::Declaration(d)) => d.name().map(|n| n.to_string()).into_iter().collect(),
            _ => vec![],
        };
        let mut words: BTreeMap<String, usize> = BTreeMap::new();
        for w in idl::text(std::slice::from_ref(d)).split(|c: char| !c.is_alphanumeric() && c != '_') {
            *words.entry(w.to_string()).or_default() += 1;
        }
        // Once for the definition itself.
        for o in own {
            if words.get(&o) == Some(&1) {
                words.remove(&o);
            }
        }
        h.extend(words.into_keys());
    }
    h
}
fn removed(s: &mut Src, cx: &mut Cx) -> Outcome {
    let (mut defs, c, _) = draw(s, cx);
    let used = mentioned(&defs);
    let free: Vec<usize> = (0..defs.len())
        .filter(|i| match &defs[*i] {
            Definition::Constant(a) => !used.contains(&a.identifier),
            Definition::Type(TypeDef::Enum(n, b)) => !used.contains(n) && b.iter().all(|a| !used.contains(&a.identifier)),
            Definition::Type(TypeDef::Struct(n, _) | TypeDef::Union(n, _)) => !used.contains(n),
            Definition::Type(TypeDef::Declaration(d)) => d.name().is_none_or(|n| !used.contains(n)),
            _ => true,
        })
        .collect();
    if free.is_empty() {
        return Ok(());
    }
    let at = *s.pick(&free);
    let before = must(&defs, &c)?;
    let gone = defs.remove(at);
    cx.note(|| format!("removed: {gone:?}"));
    cx.label("removed one");
    let after = must(&defs, &c)?;
    let mut rest = before.clone();
    for i in &after {
        match rest.iter().position(|r| r == i) {
            Some(p) => {
                rest.remove(p);
            }
            None => return Err(format!("removing an unused definition changes the code\n{}", difference(&before, &after))),
        }
    }
    // What is left over is the removed definition's own code.
    let name = match &gone {
        Definition::Constant(a) => Some(escape(a.identifier.clone())),
        Definition::Type(TypeDef::Enum(n, _) | TypeDef::Struct(n, _) | TypeDef::Union(n, _)) => Some(camel(n)),
        Definition::Type(TypeDef::Declaration(d)) if !c.remove_typedef => d.name().map(camel),
        _ => None,
    };
    match name {
        None => ensure!(rest.is_empty(), "removing {gone:?} also removed {}", clip(&rest.join("\n"), 600)),
        Some(n) => {
            let has = |i: &String| i.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '#').any(|w| w == n || format!("r#{w}") == n);
            ensure!(!rest.is_empty() && rest.iter().all(has), "removing {n} also removed {}", clip(&rest.join("\n"), 600))
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C24

/// Replaces one level of typedefs in member declarations where the language has a way to write it; counts replacements.
fn inlined(d: &Declaration, tds: &BTreeMap<String, Declaration>, s: &mut Src, n: &mut usize) -> Declaration {
    use Declaration::*;
    let mut d = d.clone();
    loop {
        let t = match &d {
            Variable(TypeSpecifier::Identifier(i), _)
            | FixedArray(TypeSpecifier::Identifier(i), _, _)
            | VariableArray(TypeSpecifier::Identifier(i), _, _)
            | OptionVariable(TypeSpecifier::Identifier(i), _) => i.clone(),
            _ => return d,
        };
        let Some(td) = tds.get(&t) else { return d };
        if !s.chance(5, 6) {
            return d;
        }
        d = match (&d, td) {
            (Variable(_, name), td) => renamed(td, name),
            (FixedArray(_, name, v), Variable(t, _)) => FixedArray(t.clone(), name.clone(), v.clone()),
            (VariableArray(_, name, v), Variable(t, _)) => VariableArray(t.clone(), name.clone(), v.clone()),
            (OptionVariable(_, name), Variable(t, _)) => OptionVariable(t.clone(), name.clone()),
            _ => return d,
        };
        *n += 1;
    }
}
fn interchange(s: &mut Src, cx: &mut Cx) -> Outcome {
    let m = Mode { keep_typedefs: false, ..Mode::draw(s) };
    let mut o = Opts::of(m);
    o.mix = [1, 2, 4, 3, 6];
    let defs = generate(s, &o);
    let c = m.config();
    case_notes(cx, &defs, &c);
    let tds: BTreeMap<String, Declaration> = defs
        .iter()
        .filter_map(|d| match d {
            Definition::Type(TypeDef::Declaration(d)) => Some((d.name()?.to_string(), d.clone())),
            _ => None,
        })
        .collect();
    let mut n = 0;
    let mut new = defs.clone();
    for d in &mut new {
        match d {
            Definition::Type(TypeDef::Struct(_, b)) => b.iter_mut().for_each(|d| *d = inlined(d, &tds, s, &mut n)),
            Definition::Type(TypeDef::Union(_, b)) => {
                b.cond = inlined(&b.cond, &tds, s, &mut n);
                b.specs.iter_mut().for_each(|c| c.declaration = inlined(&c.declaration, &tds, s, &mut n));
                b.default.iter_mut().for_each(|d| *d = inlined(d, &tds, s, &mut n));
            }
            Definition::Type(TypeDef::Declaration(d)) => *d = inlined(d, &tds, s, &mut n),
            _ => {}
        }
    }
    // Typedefs nobody uses any more may go.
    let used = mentioned(&new);
    if s.bool() {
        new.retain(|d| !matches!(d, Definition::Type(TypeDef::Declaration(d)) if d.name().is_some_and(|n| !used.contains(n))));
    }
    cx.nontrivial = n > 0;
    cx.label_if(n > 0, "replaced");
    cx.label_if(n > 2, "replaced three or more");
    cx.note(|| format!("written out: {}", idl::text(&new)));
    let a = must(&defs, &c)?;
    let b = must(&new, &c)?;
    ensure!(a == b, "the code differs\n{}", difference(&a, &b));
    let types = a.iter().filter(|i| syn::parse_str::<syn::Item>(i).is_ok_and(|i| matches!(i, syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Type(_) | syn::Item::Union(_)))).count();
    let want = defs.iter().filter(|d| matches!(d, Definition::Type(TypeDef::Enum(..) | TypeDef::Struct(..) | TypeDef::Union(..)))).count();
    ensure!(types == want, "there are {types} generated types for {want} definitions");
    Ok(())
}
/// A typedef chain of several links for a single member.
fn linked(s: &mut Src, cx: &mut Cx) -> Outcome {
    use Declaration::*;
    let m = Mode { keep_typedefs: false, ..Mode::draw(s) };
    let c = m.config();
    let num = |n: u64| Value::Constant(Constant::Decimal(n.to_string()));
    let base = match s.below(4) {
        0 => TypeSpecifier::Identifier("Colour".into()),
        1 => TypeSpecifier::Identifier("point".into()),
        2 => TypeSpecifier::Hyper(false),
        _ => TypeSpecifier::Identifier("choice".into()),
    };
    let t0 = "t0".to_string();
    let first = match s.below(8) {
        0 => OpaqueFixedArray(t0, num(s.below(40))),
        1 => OpaqueVariableArray(t0, None),
        2 => String(t0, None),
        3 => FixedArray(base.clone(), t0, num(s.below(9))),
        4 => VariableArray(base.clone(), t0, None),
        5 => OptionVariable(base.clone(), t0),
        _ => Variable(base.clone(), t0),
    };
    let n = 1 + s.usize(5);
    let mut defs = crate::refparse::parse(
        "enum Colour { red = 1, blue = 2 }; struct point { int x; int y; }; union choice switch (int d) { case 0: int a; case 1: void; };",
    )
    .unwrap();
    let given = defs.clone();
    defs.push(Definition::Type(TypeDef::Declaration(first.clone())));
    for i in 1..n {
        defs.push(Definition::Type(TypeDef::Declaration(Variable(TypeSpecifier::Identifier(format!("t{}", i - 1)), format!("t{i}")))));
    }
    let last = TypeSpecifier::Identifier(format!("t{}", n - 1));
    let is_plain = matches!(first, Variable(..));
    let (member, direct) = match s.below(if is_plain { 4 } else { 1 }) {
        0 => (Variable(last, "m".into()), renamed(&first, "m")),
        1 => (OptionVariable(last, "m".into()), OptionVariable(base, "m".into())),
        2 => (VariableArray(last, "m".into(), None), VariableArray(base, "m".into(), None)),
        _ => (FixedArray(last, "m".into(), num(3)), FixedArray(base, "m".into(), num(3))),
    };
    let user = |d: Declaration, s: u64| {
        Definition::Type(if s == 0 {
            TypeDef::Struct("user".into(), vec![d])
        } else {
            let cond = Variable(TypeSpecifier::Int(true), "d".into());
            let specs = vec![CaseSpec { values: vec![Value::Constant(Constant::Decimal("1".into()))], declaration: d.clone() }];
            TypeDef::Union("user".into(), UnionBody { cond, specs, default: if s == 1 { None } else { Some(d) } })
        })
    };
    let at = s.below(3);
    let mut plain = given;
    plain.push(user(direct, at));
    defs.push(user(member, at));
    shuffle(&mut defs, s);
    case_notes(cx, &defs, &c);
    cx.nontrivial = true;
    let a = sorted(must(&defs, &c)?);
    let b = sorted(must(&plain, &c)?);
    ensure!(a == b, "the code differs from that of {}\n{}", idl::text(&plain), difference(&a, &b));
    Ok(())
}

// ------------------------------------------------------------------ C23

thread_local! {
    static DIR: String = {
        let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
        let d = format!("{root}/.build/cli/{}-{:?}", std::process::id(), std::thread::current().id());
        std::fs::create_dir_all(&d).expect("scratch folder");
        d
    };
}
fn rpcgen_cli(args: &[String], dir: &str) -> Result<std::process::Output, String> {
    let exe = std::env::current_exe().expect("exe").with_file_name("rpcgen_cli");
    std::process::Command::new(exe)
        .args(args)
        .current_dir(dir)
        .stdin(std::fs::File::open(format!("{dir}/input.x")).map_err(|e| format!("harness: {e}"))?)
        .env("RUST_BACKTRACE", "0")
        .output()
        .map_err(|e| format!("the command does not run: {e}"))
}
fn command(s: &mut Src, cx: &mut Cx) -> Outcome {
    let flags = s.below(16);
    let (std_, extra, idx, uni) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0);
    // What the README says of the options.
    let c = Config {
        remove_typedef: true,
        enum_impl_std_trait: std_,
        enum_impl_indexer: idx && !std_,
        union_impl_union: uni,
        union_impl_indexer: (extra || idx) && !uni,
    };
    let m = Mode {
        e: if std_ { EMode::Std } else if idx { EMode::Indexer } else { EMode::Complement },
        u: if uni { UMode::Union } else if extra || idx { UMode::Indexer } else { UMode::Complement },
        keep_typedefs: false,
    };
    let dir = DIR.with(|d| d.clone());
    // Should the command read what it was not asked to read.
    if !std::path::Path::new(&format!("{dir}/input.x")).exists() {
        std::fs::write(format!("{dir}/input.x"), "const STANDARD_INPUT = 1;").map_err(|e| format!("harness: {e}"))?;
    }
    let name = *s.pick(&["a.x", "b b.x", "é.x", "-c.x", "a", "-", "a.x.x", "%.x", "~", "@a.x", "*.x", "A.X"]);
    let path = if s.bool() && name != "-c.x" { name.to_string() } else { format!("{dir}/{name}") };
    let mut args: Vec<String> = vec![];
    for (b, f) in [(std_, "--use-std-trait"), (extra, "--use-extra-trait"), (idx, "--use-indexer"), (uni, "--use-union")] {
        if b {
            args.push(f.into());
        }
    }
    args.push(path.clone());
    shuffle(&mut args, s);
    let kind = s.below(10);
    let mut bytes: Vec<u8> = vec![];
    let mut want: Option<String> = None;
    match kind {
        0 => cx.label("no such file"),
        1 => {
            // Not UTF-8.
            bytes = b"const A = 1;\n/* \xff\xfe */".to_vec();
            cx.label("not UTF-8");
        }
        2 | 3 => {
            let mut t = idl::text(&generate(s, &Opts::of(m)));
            let at = match s.below(4) {
                0 => 0,
                1 => t.len(),
                _ => s.usize(t.len() + 1),
            };
            let w = s.text().unwrap_or_else(|| {
                (*s.pick(&["$", ";;", "}", "1", " x ", "\"", "\u{feff}", "\0", "#!/bin/x\n", "\r\n", "\r", "%", "\u{1a}", "\n--\n", "// x\n", "\u{a0}", "\\\n", "#include <a>\n", "\u{c}"])).into()
            });
            t.insert_str(at, &w);
            want = lib(&t, &c)?;
            cx.label(if want.is_some() { "edited, fine" } else { "edited, refused" });
            bytes = t.into_bytes();
        }
        4 => {
            let mut d = generate(s, &Opts::of(m));
            let bad = ["struct zz { quadruple q; };", "struct zz { void; };", "const ZZ = NOWHERE;", "union zz switch (float f) { case 1: void; };"];
            d.extend(crate::refparse::parse(s.pick(&bad)).unwrap());
            let t = idl::text(&d);
            want = lib(&t, &c)?;
            ensure!(want.is_none(), "code is generated for {t}");
            bytes = t.into_bytes();
            cx.label("can not be generated");
        }
        _ => {
            let d = generate(s, &Opts::of(m));
            let toks = idl::tokens(&d, Some(s));
            let t = if s.bool() { idl::plain(&toks) } else { idl::layout(&toks, s, true) };
            want = lib(&t, &c)?;
            ensure!(want.is_some(), "no code is generated for {t}");
            bytes = t.into_bytes();
            cx.label("fine");
        }
    }
    cx.note(|| format!("{args:?}"));
    cx.note(|| String::from_utf8_lossy(&bytes).into_owned());
    cx.key(&(&args, &bytes));
    cx.nontrivial = bytes.len() > 20;
    let full = format!("{dir}/{name}");
    let _ = std::fs::remove_file(&full);
    if kind != 0 {
        std::fs::write(&full, &bytes).map_err(|e| format!("harness: {e}"))?;
    }
    let o = rpcgen_cli(&args, &dir)?;
    let _ = std::fs::remove_file(&full);
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    ensure!(!err.contains("panicked"), "the command panicked: {}", clip(&err, 400));
    match want {
        Some(w) => {
            ensure!(o.status.success(), "the command failed ({}): {}", o.status, clip(&err, 400));
            ensure!(out.trim_end() == w.trim_end(), "the command printed {} instead of {}", clip(&out, 800), clip(&w, 800));
        }
        None => {
            ensure!(!o.status.success(), "the command succeeded and printed {}", clip(&out, 600));
            ensure!(out.trim().is_empty(), "the command failed but printed {}", clip(&out, 600));
        }
    }
    Ok(())
}
fn lib(text: &str, c: &Config) -> Result<Option<String>, String> {
    match repo_parse(text)? {
        Err(_) => Ok(None),
        Ok(d) => Ok(repo_gen(d, c)?.ok()),
    }
}

pub fn all() -> Vec<Check> {
    let check = |id, rule, assumptions: &'static [&'static str], subs| Check { id, rule, assumptions, subs, extra: None, extra_replay: None };
    vec![
        check(
            "C16",
            "distinct interfaces of at least two definitions (and literals)",
            &["the reference reads numbers as 128-bit integers", "variable-length bounds do not appear in generated code and are not judged"],
            vec![
                Sub { name: "values", prop: values, quick: 120000, thorough: 2000000 },
                Sub { name: "refused", prop: refused, quick: 120000, thorough: 2000000 },
                Sub { name: "literals", prop: literals, quick: 400000, thorough: 3000000 },
            ],
        ),
        check(
            "C17",
            "distinct interfaces of at least two definitions, each generated with all 32 option combinations",
            &["where gaps are filled, literals have at most four digits", "nesting of inline types is at most 2 deep", "definitions refer to each other in chains and rings of up to 15000"],
            vec![
                Sub { name: "wild", prop: wild, quick: 30000, thorough: 600000 },
                Sub { name: "extreme", prop: extreme, quick: 12000, thorough: 200000 },
                Sub { name: "entangled", prop: entangled, quick: 18000, thorough: 300000 },
                Sub { name: "chains", prop: chains, quick: 30000, thorough: 600000 },
                Sub { name: "large", prop: large, quick: 5000, thorough: 40000 },
            ],
        ),
        check(
            "C22",
            "distinct pairs of options and interface of at least two definitions",
            &["interfaces are well-defined: names unique also after conversion to Rust, no cyclic types but self-references"],
            vec![
                Sub { name: "repeated", prop: repeated, quick: 5000, thorough: 200000 },
                Sub { name: "permuted", prop: permuted, quick: 15000, thorough: 800000 },
                Sub { name: "joined", prop: joined, quick: 10000, thorough: 500000 },
                Sub { name: "removed", prop: removed, quick: 10000, thorough: 500000 },
            ],
        ),
        check(
            "C23",
            "distinct command lines and files of more than 20 octets",
            &["the library's generator is the reference for what the command prints", "white space at the end of the output is not compared"],
            vec![Sub { name: "command", prop: command, quick: 32000, thorough: 100000 }],
        ),
        check(
            "C24",
            "distinct pairs of options and interface in which a typedef was written out",
            &["interfaces are well-defined: names unique also after conversion to Rust, no cyclic types but self-references", "the generated code is compared as text; C19 judges its wire format"],
            vec![
                Sub { name: "interchange", prop: interchange, quick: 25000, thorough: 1500000 },
                Sub { name: "linked", prop: linked, quick: 25000, thorough: 800000 },
            ],
        ),
    ]
}
