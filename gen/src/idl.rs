//! Interface definitions: random ASTs of the supported grammar, and printing them under any layout.
use rpcgen::parser::*;
use vhcore::Src;

pub const RESERVED: &[&str] = &[
    "bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string", "struct",
    "switch", "typedef", "union", "unsigned", "void", "program", "version",
];
/// Words other languages reserve, or the language uses without reserving them.
pub const TRICKY: &[&str] = &[
    "char", "short", "TRUE", "FALSE", "type", "fn", "self", "Self", "super", "crate", "match", "mod", "use", "ref", "async",
    "loop", "where", "impl", "trait", "static", "abstract", "yield", "gen", "try", "dyn", "box", "macro", "INT", "Void",
    "Struct", "CASE", "_x", "a_", "x__y", "A", "z9", "_3com", "_0", "__8_Z", "a_9b",
];

pub fn reserved(w: &str) -> bool {
    RESERVED.contains(&w)
}

const HEAD: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const TAIL: &[u8] = b"abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

/// Whether the text can be a name.
pub fn nameable(w: &str) -> bool {
    let mut b = w.bytes();
    b.next().is_some_and(|h| h.is_ascii_alphabetic() || h == b'_') && b.all(|c| c.is_ascii_alphanumeric() || c == b'_')
}
/// Joins the name with a text which the code under test mentions, if they make a name.
fn mentioned(s: &mut Src, n: String, w: &str) -> String {
    let m = match s.below(6) {
        0 | 1 => w.to_string(),
        2 => format!("{n}{w}"),
        3 => format!("{w}{n}"),
        4 => format!("{n}_{w}"),
        _ => format!("{w}_{n}"),
    };
    if nameable(&m) { m } else { n }
}

pub fn name(s: &mut Src) -> String {
    let mut n = String::new();
    match s.below(10) {
        0..=4 => {
            n.push(*s.pick(HEAD) as char);
            let least = s.least(1, 300);
            while s.more(n.len(), least, 14.max(least), 4, 5) {
                n.push(*s.pick(TAIL) as char);
            }
        }
        5 | 6 => {
            n.push_str(*s.pick(RESERVED));
            n.push(*s.pick(b"_xA07tl") as char);
            if s.chance(1, 3) {
                n.push_str(*s.pick(RESERVED));
            }
        }
        7 => n.push_str(*s.pick(TRICKY)),
        8 => {
            n.push(*s.pick(b"x_Q") as char);
            n.push_str(*s.pick(RESERVED));
        }
        _ => {
            for i in 0..1 + s.usize(3) {
                if i > 0 {
                    n.push('_');
                }
                n.push_str(*s.pick(&["red", "file", "ID", "NFS3", "handle", "v2", "x", "Status", "OK", "name"]));
            }
        }
    }
    if let Some(w) = s.word() {
        n = mentioned(s, n, &w);
    }
    if reserved(&n) {
        n.push('x');
    }
    n
}
/// `char` and `short` name base types, so they can not name others.
fn type_name(s: &mut Src) -> String {
    let n = name(s);
    if n == "char" || n == "short" { format!("{n}_t") } else { n }
}

fn digits(s: &mut Src, set: &[u8], max: usize) -> String {
    let mut d = String::new();
    let least = s.least(1, 80);
    while s.more(d.len(), least, max.max(least), 3, 4) {
        d.push(*s.pick(set) as char);
    }
    d
}
pub fn constant(s: &mut Src) -> Constant {
    if let Some(n) = s.hint(u64::MAX) {
        return match s.below(4) {
            0 if n > 0 => Constant::Decimal(format!("-{n}")),
            1 => Constant::Hex(format!("{n:x}")),
            2 => Constant::Octal(format!("{n:o}")),
            _ => Constant::Decimal(n.to_string()),
        };
    }
    if s.chance(1, 16) {
        // The limits of the types of numbers.
        let n = (1u128 << *s.pick(&[31, 32, 63, 64, 7, 8, 15, 16])) + s.below(3) as u128 - 1;
        return match s.below(5) {
            0 => Constant::Decimal(format!("-{n}")),
            1 | 2 => Constant::Decimal(n.to_string()),
            3 => Constant::Octal(format!("{n:o}")),
            _ => Constant::Hex(if s.bool() { format!("{n:x}") } else { format!("{n:X}") }),
        };
    }
    match s.below(8) {
        0 => Constant::Decimal("0".into()),
        1..=3 => {
            let mut d = String::new();
            if s.chance(1, 4) {
                d.push('-');
            }
            d.push(*s.pick(b"123456789") as char);
            let least = s.least(1, 80);
            while s.more(d.len(), least, 22.max(least), 2, 3) {
                d.push(*s.pick(b"0123456789") as char);
            }
            Constant::Decimal(d)
        }
        4 | 5 => Constant::Hex(digits(s, b"0123456789abcdefABCDEF", 18)),
        _ => Constant::Octal(digits(s, b"01234567", 24)),
    }
}
pub fn value(s: &mut Src) -> Value {
    if s.chance(2, 3) { Value::Constant(constant(s)) } else { Value::Identifier(name(s)) }
}
fn bound(s: &mut Src) -> Option<Value> {
    if s.bool() { Some(value(s)) } else { None }
}

pub fn type_specifier(s: &mut Src, depth: usize) -> TypeSpecifier {
    use TypeSpecifier::*;
    match s.below(if depth > 0 { 16 } else { 13 }) {
        0 => Int(true),
        1 => Int(false),
        2 => Hyper(true),
        3 => Hyper(false),
        4 => Float,
        5 => Double,
        6 => Bool,
        7 => Char(s.bool()),
        8 => Short(s.bool()),
        9 => Quadruple,
        10..=12 => Identifier(type_name(s)),
        13 => Enum(Box::new(EnumTypeSpec { body: enum_body(s) })),
        14 => Struct(Box::new(StructTypeSpec { body: struct_body(s, depth - 1) })),
        _ => Union(Box::new(UnionTypeSpec { body: union_body(s, depth - 1) })),
    }
}
pub fn declaration(s: &mut Src, depth: usize) -> Declaration {
    use Declaration::*;
    match s.below(16) {
        0 => Void,
        1 => OpaqueFixedArray(name(s), value(s)),
        2 => OpaqueVariableArray(name(s), bound(s)),
        3 => String(name(s), bound(s)),
        4 | 5 => FixedArray(type_specifier(s, depth), name(s), value(s)),
        6 | 7 => VariableArray(type_specifier(s, depth), name(s), bound(s)),
        8 | 9 => OptionVariable(type_specifier(s, depth), name(s)),
        _ => Variable(type_specifier(s, depth), name(s)),
    }
}
fn enum_body(s: &mut Src) -> Vec<Assign> {
    let mut v = vec![];
    let least = s.least(1, 300);
    while s.more(v.len(), least, 6.max(least), 2, 3) {
        v.push(Assign { identifier: name(s), value: value(s) });
    }
    v
}
fn struct_body(s: &mut Src, depth: usize) -> Vec<Declaration> {
    let mut v = vec![];
    let least = if depth == 0 { s.least(1, 140) } else { 1 };
    while s.more(v.len(), least, 6.max(least), 2, 3) {
        v.push(declaration(s, depth));
    }
    v
}
fn union_body(s: &mut Src, depth: usize) -> UnionBody {
    let cond = declaration(s, 0);
    let mut specs = vec![];
    let least = if depth == 0 { s.least(1, 80) } else { 1 };
    while s.more(specs.len(), least, 4.max(least), 2, 3) {
        let mut values = vec![];
        let least = if least > 1 { 1 } else { s.least(1, 80) };
        while s.more(values.len(), least, 4.max(least), 1, 3) {
            values.push(value(s));
        }
        specs.push(CaseSpec { values, declaration: declaration(s, depth) });
    }
    let default = if s.bool() { Some(declaration(s, depth)) } else { None };
    UnionBody { cond, specs, default }
}
fn proc_type(s: &mut Src) -> TypeSpecifier {
    if s.chance(1, 4) {
        TypeSpecifier::Void
    } else {
        let depth = s.chance(1, 12) as usize;
        type_specifier(s, depth)
    }
}
fn program(s: &mut Src) -> Program {
    let mut versions = vec![];
    let least = s.least(1, 40);
    while s.more(versions.len(), least, 3.max(least), 1, 2) {
        let mut procedures = vec![];
        let least = s.least(1, 40);
        while s.more(procedures.len(), least, 4.max(least), 1, 2) {
            procedures.push(Procedure { res_ty: proc_type(s), method: name(s), req_ty: proc_type(s), value: value(s) });
        }
        versions.push(Version { name: name(s), procedures, value: value(s) });
    }
    Program { name: name(s), versions, value: value(s) }
}
pub fn definition(s: &mut Src, depth: usize) -> Definition {
    match s.below(14) {
        0 | 1 => Definition::Constant(Assign { identifier: name(s), value: value(s) }),
        2 | 3 => Definition::Type(TypeDef::Declaration(declaration(s, depth))),
        4..=6 => Definition::Type(TypeDef::Enum(name(s), enum_body(s))),
        7..=9 => Definition::Type(TypeDef::Struct(name(s), struct_body(s, depth))),
        10 | 11 => Definition::Type(TypeDef::Union(name(s), union_body(s, depth))),
        12 => Definition::Program(program(s)),
        _ => Definition::LineComment,
    }
}
pub fn spec(s: &mut Src, max: usize) -> Vec<Definition> {
    let mut v = vec![];
    let least = s.least(0, 140);
    while s.more(v.len(), least, max.max(least), 3, 4) {
        let depth = if least > 0 { 0 } else { *s.pick(&[0, 0, 0, 1, 1, 2]) };
        v.push(definition(s, depth));
    }
    v
}

// ------------------------------------------------------------------ printing

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sep {
    /// White space and comments allowed.
    C0,
    /// White space or a comment required.
    C1,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Id(String),
    Num(String),
    Punct(&'static str),
    /// A percent line; the text is chosen by the layout.
    Line,
    Sep(Sep),
}
use Tok::Punct as P;

struct Printer<'a> {
    out: Vec<Tok>,
    spell: Option<&'a mut Src>,
}
impl Printer<'_> {
    fn p(&mut self, t: &'static str) {
        self.out.push(P(t))
    }
    fn w(&mut self, t: &str) {
        self.out.push(Tok::Word(t.into()))
    }
    fn id(&mut self, t: &str) {
        self.out.push(Tok::Id(t.into()))
    }
    fn value(&mut self, v: &Value) {
        match v {
            Value::Constant(Constant::Decimal(d)) => self.out.push(Tok::Num(d.clone())),
            Value::Constant(Constant::Hex(d)) => self.out.push(Tok::Num(format!("0x{d}"))),
            Value::Constant(Constant::Octal(d)) => self.out.push(Tok::Num(format!("0{d}"))),
            Value::Identifier(i) => self.id(i),
        }
    }
    fn assign(&mut self, a: &Assign) {
        self.id(&a.identifier);
        self.p("=");
        self.value(&a.value);
    }
    fn unsigned(&mut self, w: &str) {
        self.w("unsigned");
        self.w(w);
    }
    fn ty(&mut self, t: &TypeSpecifier, next: &str) {
        use TypeSpecifier::*;
        match t {
            Int(true) => self.w("int"),
            Int(false) => {
                let short = next != "char" && next != "short" && self.spell.as_mut().is_some_and(|s| s.chance(1, 3));
                if short { self.w("unsigned") } else { self.unsigned("int") }
            }
            Hyper(true) => self.w("hyper"),
            Hyper(false) => self.unsigned("hyper"),
            Char(true) => self.w("char"),
            Char(false) => self.unsigned("char"),
            Short(true) => self.w("short"),
            Short(false) => self.unsigned("short"),
            Float => self.w("float"),
            Double => self.w("double"),
            Quadruple => self.w("quadruple"),
            Bool => self.w("bool"),
            Void => self.w("void"),
            Identifier(i) => self.id(i),
            Enum(e) => {
                self.w("enum");
                self.enum_body(&e.body);
            }
            Struct(e) => {
                self.w("struct");
                self.struct_body(&e.body);
            }
            Union(e) => {
                self.w("union");
                self.union_body(&e.body);
            }
        }
    }
    fn declaration(&mut self, d: &Declaration) {
        use Declaration::*;
        match d {
            Void => self.w("void"),
            OpaqueFixedArray(n, v) => {
                self.w("opaque");
                self.id(n);
                self.fixed(v);
            }
            OpaqueVariableArray(n, v) => {
                self.w("opaque");
                self.id(n);
                self.variable(v);
            }
            String(n, v) => {
                self.w("string");
                self.id(n);
                self.variable(v);
            }
            FixedArray(t, n, v) => {
                self.ty(t, n);
                self.id(n);
                self.fixed(v);
            }
            VariableArray(t, n, v) => {
                self.ty(t, n);
                self.id(n);
                self.variable(v);
            }
            OptionVariable(t, n) => {
                self.ty(t, n);
                self.p("*");
                self.id(n);
            }
            Variable(t, n) => {
                self.ty(t, n);
                self.id(n);
            }
        }
    }
    fn fixed(&mut self, v: &Value) {
        self.p("[");
        self.value(v);
        self.p("]");
    }
    fn variable(&mut self, v: &Option<Value>) {
        self.p("<");
        if let Some(v) = v {
            self.value(v);
        }
        self.p(">");
    }
    fn enum_body(&mut self, b: &[Assign]) {
        self.p("{");
        for (i, a) in b.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.assign(a);
        }
        self.p("}");
    }
    fn semi(&mut self) {
        self.p(";");
    }
    fn struct_body(&mut self, b: &[Declaration]) {
        self.p("{");
        for d in b {
            self.declaration(d);
            self.semi();
        }
        self.p("}");
    }
    fn union_body(&mut self, b: &UnionBody) {
        self.w("switch");
        self.p("(");
        self.declaration(&b.cond);
        self.p(")");
        self.p("{");
        for c in &b.specs {
            for v in &c.values {
                self.w("case");
                self.value(v);
                self.p(":");
            }
            self.declaration(&c.declaration);
            self.semi();
        }
        if let Some(d) = &b.default {
            self.w("default");
            self.p(":");
            self.declaration(d);
            self.semi();
        }
        self.p("}");
    }
    fn tail(&mut self, v: &Value) {
        self.p("=");
        self.value(v);
        self.p(";");
    }
    fn program(&mut self, p: &Program) {
        self.w("program");
        self.id(&p.name);
        self.p("{");
        for v in &p.versions {
            self.w("version");
            self.id(&v.name);
            self.p("{");
            for x in &v.procedures {
                self.ty(&x.res_ty, &x.method);
                self.id(&x.method);
                self.p("(");
                self.ty(&x.req_ty, "");
                self.p(")");
                self.tail(&x.value);
            }
            self.p("}");
            self.tail(&v.value);
        }
        self.p("}");
        self.tail(&p.value);
    }
    fn definition(&mut self, d: &Definition) {
        match d {
            Definition::LineComment => self.out.push(Tok::Line),
            Definition::Constant(a) => {
                self.w("const");
                self.assign(a);
                self.semi();
            }
            Definition::Program(p) => self.program(p),
            Definition::Type(TypeDef::Declaration(d)) => {
                self.w("typedef");
                self.declaration(d);
                self.semi();
            }
            Definition::Type(TypeDef::Enum(n, b)) => {
                self.w("enum");
                self.id(n);
                self.enum_body(b);
                self.semi();
            }
            Definition::Type(TypeDef::Struct(n, b)) => {
                self.w("struct");
                self.id(n);
                self.struct_body(b);
                self.semi();
            }
            Definition::Type(TypeDef::Union(n, b)) => {
                self.w("union");
                self.id(n);
                self.union_body(b);
                self.semi();
            }
        }
    }
}

/// The tokens of a specification; `spell` chooses between spellings of the same type.
/// White space is required between words only; it and comments are allowed between all tokens.
pub fn tokens(defs: &[Definition], spell: Option<&mut Src>) -> Vec<Tok> {
    let mut p = Printer { out: vec![], spell };
    for d in defs {
        p.definition(d);
    }
    let mut out: Vec<Tok> = vec![];
    for t in p.out {
        let word = |t: &Tok| matches!(t, Tok::Word(_) | Tok::Id(_) | Tok::Num(_));
        let glued = out.last().is_some_and(word) && word(&t) && !matches!(&t, Tok::Num(n) if n.starts_with('-'));
        out.push(Tok::Sep(if glued { Sep::C1 } else { Sep::C0 }));
        out.push(t);
    }
    out.push(Tok::Sep(Sep::C0));
    out
}

pub fn plain(toks: &[Tok]) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::Word(w) | Tok::Id(w) | Tok::Num(w) => o.push_str(w),
            P(p) => {
                o.push_str(p);
                // A new line after each definition at least.
                if matches!((p, toks.get(i + 2)), (&";", Some(Tok::Word(w))) if ["const", "typedef", "enum", "struct", "union", "program"].contains(&w.as_str())) {
                    o.push('\n')
                }
            }
            Tok::Line => o.push_str("%line\n"),
            Tok::Sep(Sep::C1) => o.push(' '),
            Tok::Sep(Sep::C0) => {}
        }
    }
    o
}
pub fn text(defs: &[Definition]) -> String {
    plain(&tokens(defs, None))
}

pub fn white(s: &mut Src, min: usize) -> String {
    let mut o = String::new();
    let least = if s.chance(1, 20) { s.least(min, 300) } else { min };
    while s.more(o.len(), least, 8.max(least), 1, 2) {
        o.push(*s.pick(b" \n\t\r") as char);
    }
    o
}
pub fn comment(s: &mut Src) -> String {
    let mut o = String::new();
    let mut n = 0;
    let least = s.least(0, 600);
    while s.more(n, least, 8.max(least), 2, 3) {
        n += 1;
        if let Some(w) = s.word() {
            o.push_str(&w);
        }
        o.push_str(*s.pick(&[
            "x", " ", "\n", "*", "/", "/*", "//", "%", "\"", "'", "struct a { int b; };", "const X = 1;", "é", "あ", "\t", "{", "}",
            ";", "* /", "**", "%\n", "#define", "\\", "\r\n", "=", ":", "0x", "\u{0}",
        ]));
    }
    while o.contains("*/") {
        o = o.replace("*/", "*");
    }
    format!("/*{o}*/")
}
fn comments(s: &mut Src, heavy: bool) -> String {
    let mut o = white(s, 0);
    let mut n = 0;
    let least = if heavy && s.chance(1, 60) {
        let n = 2 + s.usize(60);
        s.least(n, 2000)
    } else {
        0
    };
    while s.more(n, least, 4.max(least), 1, if heavy { 2 } else { 12 }) {
        n += 1;
        // Many comments are short ones.
        if n < least && n > 4 {
            o.push_str(*s.pick(&["/**/", "/*x*/\n", "/***/ "]));
            continue;
        }
        o.push_str(&comment(s));
        o.push_str(&white(s, 0));
    }
    o
}
/// Prints the tokens with random white space and comments wherever they are allowed.
pub fn layout(toks: &[Tok], s: &mut Src, heavy: bool) -> String {
    let mut o = String::new();
    for t in toks {
        match t {
            Tok::Word(w) | Tok::Id(w) | Tok::Num(w) => o.push_str(w),
            P(p) => o.push_str(p),
            Tok::Line => {
                o.push('%');
                let mut n = 0;
                let least = s.least(0, 600);
                while s.more(n, least, 6.max(least), 2, 3) {
                    n += 1;
                    if let Some(w) = s.word() {
                        o.push_str(w.lines().next().unwrap_or("").trim_end_matches('\r'));
                    }
                    o.push_str(*s.pick(&["x", " ", "/*", "*/", "#include <a.h>", "%", ";", "あ", "\t", "const A = 1;", "\""]));
                }
                o.push_str(*s.pick(&["\n", "\r\n"]));
            }
            Tok::Sep(Sep::C0) => o.push_str(&comments(s, heavy)),
            Tok::Sep(Sep::C1) => {
                let c = comments(s, heavy);
                o.push_str(if c.is_empty() { " " } else { &c });
            }
        }
    }
    o
}
