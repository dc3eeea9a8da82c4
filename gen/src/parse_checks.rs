//! C13, C14, C15: the parser against printed ASTs and an independent parser.
use crate::idl::{self, Tok};
use crate::refparse;
use rpcgen::gen_code::{Config, gen_code};
use rpcgen::parser::{self, Definition, TypeDef};
use vhcore::driver::Check;
use vhcore::*;

pub fn g<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    guard(f).map_err(|m| format!("{what} panicked: {m}"))
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub fn repo_parse(text: &str) -> Result<Result<Vec<Definition>, String>, String> {
    Ok(g("parsing", || parser::parse(text))?.map_err(|e| format!("{e:?}")))
}
fn same(what: &str, want: &[Definition], got: &[Definition]) -> Result<(), String> {
    for (i, (w, r)) in want.iter().zip(got).enumerate() {
        ensure!(w == r, "{what}: definition {i} was read as {r:?} instead of {w:?}");
    }
    ensure!(want.len() == got.len(), "{what}: {} definitions were read instead of {}", got.len(), want.len());
    Ok(())
}
fn classes(cx: &mut Cx, d: &Definition) {
    cx.label(match d {
        Definition::Constant(_) => "const",
        Definition::LineComment => "percent line",
        Definition::Program(_) => "program",
        Definition::Type(TypeDef::Declaration(_)) => "typedef",
        Definition::Type(TypeDef::Enum(..)) => "enum",
        Definition::Type(TypeDef::Struct(..)) => "struct",
        Definition::Type(TypeDef::Union(..)) => "union",
    });
}
fn weigh(cx: &mut Cx, defs: &[Definition], text: &str) {
    for d in defs {
        classes(cx, d)
    }
    cx.nontrivial = defs.len() >= 2;
    cx.key(&text);
}
fn small(s: &mut Src) -> Vec<Definition> {
    idl::spec(s, 8)
}
/// Inline types nested this deep are read; deeper ones may be reported as too deep.
const DEEP: usize = 20;
/// How deep inline types are nested.
pub fn depth(defs: &[Definition]) -> usize {
    use rpcgen::parser::*;
    fn ty(t: &TypeSpecifier) -> usize {
        match t {
            TypeSpecifier::Struct(x) => 1 + all(&x.body),
            TypeSpecifier::Union(x) => 1 + union(&x.body),
            _ => 0,
        }
    }
    fn all<'a>(d: impl IntoIterator<Item = &'a Declaration>) -> usize {
        d.into_iter().map(|d| d.type_specifier().map_or(0, |t| ty(&t))).max().unwrap_or(0)
    }
    fn union(b: &UnionBody) -> usize {
        all(b.specs.iter().map(|s| &s.declaration).chain(&b.default).chain([&b.cond]))
    }
    let one = |d: &Definition| match d {
        Definition::Type(TypeDef::Declaration(d)) => all([d]),
        Definition::Type(TypeDef::Struct(_, b)) => all(b),
        Definition::Type(TypeDef::Union(_, b)) => union(b),
        Definition::Program(p) => p.versions.iter().flat_map(|v| &v.procedures).map(|p| ty(&p.res_ty).max(ty(&p.req_ty))).max().unwrap_or(0),
        _ => 0,
    };
    defs.iter().map(one).max().unwrap_or(0)
}

// ------------------------------------------------------------------ C13

fn written(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    check_written(defs, s, cx)
}
fn large(s: &mut Src, cx: &mut Cx) -> Outcome {
    let mut defs = vec![];
    while s.more(defs.len(), 0, 150, 40, 41) {
        defs.push(idl::definition(s, 1));
    }
    check_written(defs, s, cx)
}
fn check_written(defs: Vec<Definition>, s: &mut Src, cx: &mut Cx) -> Outcome {
    let toks = idl::tokens(&defs, Some(s));
    let text = if s.chance(1, 3) { idl::plain(&toks) } else { idl::layout(&toks, s, false) };
    cx.note(|| text.clone());
    weigh(cx, &defs, &text);
    let r = refparse::parse(&text)?;
    ensure!(r == defs, "the harness's own parser reads the text differently (a defect of the harness)");
    let got = repo_parse(&text)?.map_err(|e| format!("a supported interface does not parse: {}", clip(&e, 300)))?;
    same("the interface", &defs, &got)
}
/// Inline types in inline types.
fn nested(s: &mut Src, cx: &mut Cx) -> Outcome {
    use rpcgen::parser::*;
    let n = 1 + s.usize(DEEP);
    let mut t = idl::type_specifier(s, 0);
    for _ in 0..n {
        let at = |s: &mut Src| {
            let (t, name) = (t.clone(), idl::name(s));
            match s.below(4) {
                0 => Declaration::FixedArray(t, name, idl::value(s)),
                1 => Declaration::VariableArray(t, name, None),
                2 => Declaration::OptionVariable(t, name),
                _ => Declaration::Variable(t, name),
            }
        };
        t = match s.below(4) {
            0 | 1 => {
                let mut body = vec![at(s)];
                if s.chance(1, 3) {
                    body.insert(s.usize(2), idl::declaration(s, 0));
                }
                TypeSpecifier::Struct(Box::new(StructTypeSpec { body }))
            }
            w => {
                let cond = if s.chance(1, 8) { at(s) } else { idl::declaration(s, 0) };
                let arm = if w == 2 { at(s) } else { Declaration::Void };
                let default = if w == 3 { Some(at(s)) } else { None };
                let specs = vec![CaseSpec { values: vec![idl::value(s)], declaration: arm }];
                TypeSpecifier::Union(Box::new(UnionTypeSpec { body: UnionBody { cond, specs, default } }))
            }
        };
    }
    let d = match (s.below(3), t) {
        (0, t) => Definition::Type(TypeDef::Declaration(Declaration::Variable(t, idl::name(s)))),
        (_, TypeSpecifier::Struct(b)) => Definition::Type(TypeDef::Struct(idl::name(s), b.body)),
        (_, TypeSpecifier::Union(b)) => Definition::Type(TypeDef::Union(idl::name(s), b.body)),
        (_, t) => Definition::Type(TypeDef::Declaration(Declaration::Variable(t, idl::name(s)))),
    };
    let defs = vec![d];
    // An inline type as discriminant doubles at most once a level.
    if depth(&defs) > DEEP || idl::text(&defs).len() > 20000 {
        return Ok(());
    }
    check_written(defs, s, cx)?;
    cx.nontrivial = n >= 3;
    Ok(())
}
/// One definition with as many members, labels or entries as wanted.
fn wide(s: &mut Src, cx: &mut Cx) -> Outcome {
    use rpcgen::parser::*;
    let max = if s.chance(1, 4) { 3000 } else { 60 };
    let n = 1 + s.usize(max);
    let num = |i: usize| Value::Constant(Constant::Decimal(i.to_string()));
    let member = |i: usize| Declaration::Variable(TypeSpecifier::Int(true), format!("m{i}"));
    let d = match s.below(4) {
        0 => TypeDef::Enum("e".into(), (0..n).map(|i| Assign { identifier: format!("E{i}"), value: num(i) }).collect()),
        1 => TypeDef::Struct("s".into(), (0..n).map(member).collect()),
        2 => TypeDef::Union(
            "u".into(),
            UnionBody {
                cond: member(0),
                specs: (0..n).map(|i| CaseSpec { values: vec![num(i)], declaration: member(i) }).collect(),
                default: None,
            },
        ),
        _ => TypeDef::Union(
            "u".into(),
            UnionBody {
                cond: member(0),
                specs: vec![CaseSpec { values: (0..n).map(num).collect(), declaration: member(1) }],
                default: Some(Declaration::Void),
            },
        ),
    };
    check_written(vec![Definition::Type(d)], s, cx)
}
fn reserved(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    let mut toks = idl::tokens(&defs, Some(s));
    let ids: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Id(_))).collect();
    if ids.is_empty() {
        return Ok(());
    }
    let at = *s.pick(&ids);
    let word = *s.pick(idl::RESERVED);
    let was = format!("{:?}", toks[at]);
    toks[at] = Tok::Id(word.into());
    let text = idl::plain(&toks);
    cx.note(|| format!("{was} replaced by the reserved word {word}"));
    cx.note(|| text.clone());
    cx.label(word);
    weigh(cx, &defs, &text);
    judge(&text, cx)
}
/// Exactly the texts of the grammar are read, and as what they say.
fn judge(text: &str, cx: &mut Cx) -> Outcome {
    let want = refparse::parse(text);
    let got = repo_parse(text)?;
    // A percent line ends with the line; a carriage return within it is left open.
    let open = text.contains('%') && text.replace("\r\n", "").contains('\r');
    match (want, got) {
        (Ok(w), Ok(r)) => {
            cx.label("well-formed, read");
            same("the text", &w, &r)
        }
        (Err(e), Ok(r)) => Err(format!("text which is no specification ({e}) was read as {}", clip(&format!("{r:?}"), 600))),
        (Ok(w), Err(e)) => {
            cx.label("well-formed, refused");
            ensure!(open || depth(&w) > DEEP, "a well-formed text is refused: {}", clip(&e, 300));
            Ok(())
        }
        (Err(_), Err(_)) => {
            cx.label("rejected");
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C14

fn relayout(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    let toks = idl::tokens(&defs, Some(s));
    let plain = idl::plain(&toks);
    let text = idl::layout(&toks, s, true);
    cx.note(|| format!("plain: {}", clip(&plain, 600)));
    cx.note(|| text.clone());
    weigh(cx, &defs, &text);
    cx.label_if(text.contains("/*"), "with comments");
    cx.label_if(text.contains("\r\n"), "with CRLF");
    let a = repo_parse(&plain)?.map_err(|e| format!("the plain layout does not parse: {}", clip(&e, 300)))?;
    let b = repo_parse(&text)?.map_err(|e| format!("the layout does not parse although the plain one does: {}", clip(&e, 300)))?;
    same("the layout", &a, &b)?;
    let c = Config { remove_typedef: true, ..Default::default() };
    // Numbers far apart take long to complement.
    if cx.nontrivial && defs.len() <= 3 && text.len() < 600 && tame(&defs) {
        let x = g("generating", || gen_code(a, &c))?.map_err(|e| format!("{e:?}"));
        let y = g("generating", || gen_code(b, &c))?.map_err(|e| format!("{e:?}"));
        cx.label(if x.is_ok() { "code compared" } else { "error compared" });
        ensure!(x == y, "the generated code depends on the layout: {x:?} and {y:?}");
    }
    Ok(())
}
/// Whether no literal exceeds four digits.
pub fn tame(defs: &[Definition]) -> bool {
    let t = format!("{defs:?}");
    ["Decimal(\"", "Hex(\"", "Octal(\""].iter().all(|k| t.split(k).skip(1).all(|r| r.find('"').is_some_and(|n| n <= 4)))
}

// ------------------------------------------------------------------ C15

fn mutate(toks: &mut Vec<Tok>, s: &mut Src) -> &'static str {
    let solid: Vec<usize> = (0..toks.len()).filter(|i| !matches!(toks[*i], Tok::Sep(_))).collect();
    if solid.is_empty() {
        return "none";
    }
    let at = *s.pick(&solid);
    let other = toks[*s.pick(&solid)].clone();
    let any = match s.below(4) {
        0 => Tok::Punct(*s.pick(&["{", "}", "[", "]", "<", ">", "(", ")", ";", ":", ",", "=", "*"])),
        1 => Tok::Word((*s.pick(idl::RESERVED)).into()),
        2 => Tok::Id(idl::name(s)),
        _ => Tok::Num((*s.pick(&["0", "7", "-1", "0x1F", "017", "08", "0x", "-", "-0", "1a", "0xg", "00", "+1", "1.5", "0X1f", "0b1", "0o7", "1_0", "1e3", "1u", "0xfL", "-0x1", "-07", "'a'", "0x 1", "- 1", "１"])).into()),
    };
    match s.below(8) {
        0 => {
            toks.remove(at);
            "token removed"
        }
        1 => {
            let t = toks[at].clone();
            toks.insert(at, t);
            "token doubled"
        }
        2 => {
            toks[at] = any;
            "token replaced"
        }
        3 => {
            toks[at] = other;
            "token copied over"
        }
        4 => {
            toks.insert(at, any);
            "token inserted"
        }
        5 => {
            let b = *s.pick(&solid);
            toks.swap(at, b);
            "tokens swapped"
        }
        6 => {
            let (Tok::Word(w) | Tok::Id(w) | Tok::Num(w)) = &toks[at] else {
                return "none";
            };
            let mut cs: Vec<char> = w.chars().collect();
            if cs.is_empty() {
                return "none";
            }
            let i = s.usize(cs.len());
            match s.below(4) {
                0 => cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() },
                1 => drop(cs.remove(i)),
                2 => cs.insert(i, cs[i]),
                _ => {
                    let odd = ['_', '-', '.', '+', '0', '9', 'x', 'X', 'g', 'é', '１', '$', '#', '\'', '"', '\\', '\u{feff}', '\u{200b}', '\u{0}', '!', '?', '@'];
                    let c = *s.pick(&odd);
                    let i = s.usize(cs.len() + 1);
                    cs.insert(i, c);
                }
            }
            toks[at] = Tok::Id(cs.into_iter().collect());
            "token respelled"
        }
        _ => {
            let odd = ["\u{c}", "\u{b}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{85}", "// x\n", "# 1 \"a.x\"\n", "/* /* */ */", "/* x", "*/", "/*/", "\\\n", "\u{0}", "\n%x\n", " % x\n", "%", "--", "<!-- -->"];
            let w = s.text().unwrap_or_else(|| (*s.pick(&odd)).into());
            toks.insert(at + s.usize(2), Tok::Id(w));
            "odd separator"
        }
    }
}
fn mutated(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    let mut toks = idl::tokens(&defs, Some(s));
    for _ in 0..1 + s.below(2) {
        let l = mutate(&mut toks, s);
        cx.label(l);
    }
    let text = if s.bool() { idl::plain(&toks) } else { idl::layout(&toks, s, false) };
    cx.note(|| text.clone());
    weigh(cx, &defs, &text);
    judge(&text, cx)
}
const CHARS: &[&str] = &[
    "{", "}", "[", "]", "<", ">", "(", ")", ";", ":", ",", "=", "*", "/", "/*", "*/", "//", "%", "%\n", " ", "\n", "\t", "\r", "\r\n",
    "0", "1", "9", "x", "a", "F", "_", "-", "+", "\"", "'", "#", "é", "あ", "\u{0}", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{feff}", "٣", "ª",
    "int", "unsigned", "void", "case", "default", "struct", "enum",
];
fn edited(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    let toks = idl::tokens(&defs, Some(s));
    let mut text: Vec<char> = if s.bool() { idl::plain(&toks) } else { idl::layout(&toks, s, false) }.chars().collect();
    for _ in 0..1 + s.below(3) {
        let at = s.usize(text.len() + 1);
        let ins = s.text().unwrap_or_else(|| (*s.pick(CHARS)).into());
        let ins: Vec<char> = ins.chars().collect();
        match s.below(5) {
            0 => {
                let to = (at + 1 + s.usize(4)).min(text.len());
                text.drain(at.min(to)..to);
                cx.label("characters removed");
            }
            1 | 2 => {
                text.splice(at..at, ins);
                cx.label("characters inserted");
            }
            3 => {
                let to = (at + 1).min(text.len());
                text.splice(at..to, ins);
                cx.label("character replaced");
            }
            _ => {
                text.truncate(at);
                cx.label("truncated");
            }
        }
    }
    let text: String = text.into_iter().collect();
    cx.note(|| text.clone());
    weigh(cx, &defs, &text);
    judge(&text, cx)
}
fn truncated(s: &mut Src, cx: &mut Cx) -> Outcome {
    let defs = small(s);
    let toks = idl::tokens(&defs, Some(s));
    let heavy = s.bool();
    let text: Vec<char> = idl::layout(&toks, s, heavy).chars().collect();
    let text: String = text[..s.usize(text.len() + 1).min(text.len())].iter().collect();
    cx.note(|| text.clone());
    weigh(cx, &defs, &text);
    judge(&text, cx)
}
fn soup(s: &mut Src, cx: &mut Cx) -> Outcome {
    let mut text = String::new();
    let mut n = 0;
    while s.more(n, 0, 40, 19, 20) {
        n += 1;
        match s.below(6) {
            0 => {
                let t = s.text().unwrap_or_else(|| (*s.pick(CHARS)).into());
                text.push_str(&t)
            }
            1 => text.push_str(s.pick(idl::RESERVED)),
            2 => text.push_str(&idl::name(s)),
            3 => text.push_str(s.pick(&["struct x {", "};", "enum E { A = 1", "union U switch (int a) {", "case 1:", "default:", "void;", "const C = ", "typedef ", "program P {", "version V {", "} = 1;", "int a;", "opaque b<>;", "/* c */"])),
            4 => text.push_str(&format!("{}", s.int(64))),
            _ => text.push(char::from_u32(s.uint(21) as u32).unwrap_or('\u{fffd}')),
        }
        if s.chance(2, 3) {
            text.push(' ');
        }
    }
    cx.note(|| text.clone());
    cx.nontrivial = n >= 3;
    cx.key(&text);
    judge(&text, cx)
}

/// Types opened far deeper than anything is nested, closed or not.
fn abyss(s: &mut Src, cx: &mut Cx) -> Outcome {
    let max = *s.pick(&[30, 100, 1000, 20000]);
    let n = 1 + s.usize(max);
    let kinds: Vec<u64> = (0..1 + s.usize(4)).map(|_| s.below(6)).collect();
    let closed = match s.below(3) {
        0 => n,
        1 => 0,
        _ => s.usize(n + 2),
    };
    let (mut text, mut tail) = (format!("{} a ", s.pick(&["typedef struct {int a;}", "const A = 1; struct", "union", "typedef", "program", ""])), vec![]);
    for i in 0..n {
        let (open, close) = match kinds[i % kinds.len()] {
            0 => ("struct { ", "int a; } b; "),
            1 => ("struct { int a; ", "} b<>; "),
            2 => ("union switch (int a) { case 1: ", "int a; } *b; "),
            3 => ("union switch (int a) { case 1: void; default: ", "int a; } b; "),
            4 => ("union switch (", " a) { case 1: void; } b"),
            _ => ("{ /* ", "*/ } "),
        };
        text.push_str(open);
        tail.push(close);
    }
    tail.reverse();
    tail.truncate(closed);
    text.push_str(&tail.concat());
    cx.note(|| clip(&text, 2000));
    cx.nontrivial = n > 24;
    cx.key(&(n, &kinds, closed));
    cx.label(if n > 1000 { "over 1000 deep" } else if n > 24 { "over 24 deep" } else { "at most 24 deep" });
    let (t, started) = (text.clone(), std::time::Instant::now());
    // The stack a thread has by default.
    let got = std::thread::Builder::new().stack_size(2 << 20).spawn(move || repo_parse(&t)).unwrap().join().unwrap()?;
    ensure!(started.elapsed().as_secs() < 20, "reading {} octets took {:?}", text.len(), started.elapsed());
    cx.label(if got.is_ok() { "read" } else { "refused" });
    if n <= 1000 {
        let big = std::thread::Builder::new().stack_size(256 << 20);
        let t = text.clone();
        let want = big.spawn(move || refparse::parse(&t).map(|w| (depth(&w), w))).unwrap().join().unwrap();
        match (want, got) {
            (Ok((_, w)), Ok(r)) => same("the text", &w, &r)?,
            (Err(e), Ok(r)) => return Err(format!("text which is no specification ({e}) was read as {}", clip(&format!("{r:?}"), 600))),
            (Ok((d, _)), Err(e)) => ensure!(d > DEEP, "a well-formed text is refused: {}", clip(&e, 300)),
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    let rule = "distinct interface texts holding at least two definitions";
    let assume = &[
        "inline types nested more than 20 deep may be refused (rpcgen stops at 24)",
        "a carriage return without line feed within a percent line is not judged",
        "the harness's own scanner and recursive-descent parser state the grammar",
    ];
    vec![
        Check {
            id: "C13",
            rule,
            assumptions: assume,
            subs: vec![
                Sub { name: "written", prop: written, quick: 320000, thorough: 3000000 },
                Sub { name: "large", prop: large, quick: 2400, thorough: 15000 },
                Sub { name: "nested", prop: nested, quick: 40000, thorough: 400000 },
                Sub { name: "wide", prop: wide, quick: 3200, thorough: 10000 },
                Sub { name: "reserved", prop: reserved, quick: 400000, thorough: 2000000 },
            ],
            extra: None,
            extra_replay: None,
        },
        Check {
            id: "C14",
            rule,
            assumptions: assume,
            subs: vec![Sub { name: "relayout", prop: relayout, quick: 400000, thorough: 3000000 }],
            extra: None,
            extra_replay: None,
        },
        Check {
            id: "C15",
            rule: "distinct texts made from at least two definitions (or three fragments)",
            assumptions: assume,
            subs: vec![
                Sub { name: "mutated", prop: mutated, quick: 500000, thorough: 4000000 },
                Sub { name: "edited", prop: edited, quick: 500000, thorough: 4000000 },
                Sub { name: "truncated", prop: truncated, quick: 300000, thorough: 1000000 },
                Sub { name: "abyss", prop: abyss, quick: 4000, thorough: 40000 },
                Sub { name: "soup", prop: soup, quick: 500000, thorough: 4000000 },
            ],
            extra: None,
            extra_replay: None,
        },
    ]
}
