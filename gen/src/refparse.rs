//! An independent parser of the interface language: scanner first, then recursive descent with one token of lookahead.
//! The definitions it reads, and what it refuses, are the oracle.
use crate::idl::reserved;
use rpcgen::parser::*;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(Constant),
    P(char),
    Line,
}

fn scan(text: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let start = i;
        match c[i] {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            '/' if at(i + 1) == '*' => {
                i += 2;
                loop {
                    if i + 1 >= c.len() {
                        return Err("unterminated comment".into());
                    }
                    if c[i] == '*' && c[i + 1] == '/' {
                        break;
                    }
                    i += 1;
                }
                i += 2;
            }
            '%' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
                if i == c.len() {
                    return Err("unterminated percent line".into());
                }
                i += 1;
                out.push(T::Line);
            }
            'a'..='z' | 'A'..='Z' | '_' => {
                while at(i).is_ascii_alphanumeric() || (i < c.len() && c[i] == '_') {
                    i += 1;
                }
                out.push(T::Id(c[start..i].iter().collect()));
            }
            '0' if at(i + 1) == 'x' && at(i + 2).is_ascii_hexdigit() => {
                i += 2;
                while at(i).is_ascii_hexdigit() {
                    i += 1;
                }
                out.push(T::Num(Constant::Hex(c[start + 2..i].iter().collect())));
            }
            '0' if matches!(at(i + 1), '0'..='7') => {
                i += 1;
                while matches!(at(i), '0'..='7') {
                    i += 1;
                }
                out.push(T::Num(Constant::Octal(c[start + 1..i].iter().collect())));
            }
            '0' => {
                i += 1;
                out.push(T::Num(Constant::Decimal("0".into())));
            }
            '1'..='9' | '-' => {
                i += 1;
                if c[start] == '-' && !matches!(at(i), '1'..='9') {
                    return Err("bad number".into());
                }
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                out.push(T::Num(Constant::Decimal(c[start..i].iter().collect())));
            }
            x @ ('{' | '}' | '[' | ']' | '<' | '>' | '(' | ')' | ';' | ':' | ',' | '=' | '*') => {
                i += 1;
                out.push(T::P(x));
            }
            x => return Err(format!("unexpected {x:?}")),
        }
        // A number directly followed by a letter or digit is no token of the language.
        if matches!(out.last(), Some(T::Num(_))) && !c[start].is_whitespace() && c[start] != '/' && (at(i).is_ascii_alphanumeric() || at(i) == '_') {
            return Err("number glued to a word".into());
        }
    }
    Ok(out)
}

struct Rd {
    t: Vec<T>,
    i: usize,
}
type R<X> = Result<X, String>;

impl Rd {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn fail<X>(&self, want: &str) -> R<X> {
        Err(format!("expected {want} at token {} ({:?})", self.i, self.peek()))
    }
    fn is_word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == w)
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let y = self.is_word(w);
        self.i += y as usize;
        y
    }
    fn is(&self, p: char) -> bool {
        self.peek() == Some(&T::P(p))
    }
    fn eat(&mut self, p: char) -> bool {
        let y = self.is(p);
        self.i += y as usize;
        y
    }
    fn want(&mut self, p: char) -> R<()> {
        if self.eat(p) { Ok(()) } else { self.fail(&p.to_string()) }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Id(x)) if !reserved(x) => {
                let x = x.clone();
                self.i += 1;
                Ok(x)
            }
            _ => self.fail("identifier"),
        }
    }
    fn value(&mut self) -> R<Value> {
        if let Some(T::Num(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Value::Constant(n));
        }
        Ok(Value::Identifier(self.ident()?))
    }
    fn assign(&mut self) -> R<Assign> {
        let identifier = self.ident()?;
        self.want('=')?;
        Ok(Assign { identifier, value: self.value()? })
    }
    fn enum_body(&mut self) -> R<Vec<Assign>> {
        self.want('{')?;
        let mut v = vec![self.assign()?];
        while self.eat(',') {
            v.push(self.assign()?);
        }
        self.want('}')?;
        Ok(v)
    }
    fn struct_body(&mut self) -> R<Vec<Declaration>> {
        self.want('{')?;
        let mut v = vec![];
        while v.is_empty() || !self.is('}') {
            v.push(self.declaration()?);
            self.want(';')?;
        }
        self.want('}')?;
        Ok(v)
    }
    fn union_body(&mut self) -> R<UnionBody> {
        if !self.eat_word("switch") {
            return self.fail("switch");
        }
        self.want('(')?;
        let cond = self.declaration()?;
        self.want(')')?;
        self.want('{')?;
        let mut specs = vec![];
        while specs.is_empty() || self.is_word("case") {
            let mut values = vec![];
            while values.is_empty() || self.is_word("case") {
                if !self.eat_word("case") {
                    return self.fail("case");
                }
                values.push(self.value()?);
                self.want(':')?;
            }
            let declaration = self.declaration()?;
            self.want(';')?;
            specs.push(CaseSpec { values, declaration });
        }
        let mut default = None;
        if self.eat_word("default") {
            self.want(':')?;
            default = Some(self.declaration()?);
            self.want(';')?;
        }
        self.want('}')?;
        Ok(UnionBody { cond, specs, default })
    }
    fn ty(&mut self) -> R<TypeSpecifier> {
        use TypeSpecifier::*;
        let Some(T::Id(w)) = self.peek().cloned() else {
            return self.fail("type");
        };
        self.i += 1;
        Ok(match w.as_str() {
            "int" => Int(true),
            "hyper" => Hyper(true),
            "char" => Char(true),
            "short" => Short(true),
            "unsigned" => match self.peek() {
                Some(T::Id(x)) if ["int", "hyper", "char", "short"].contains(&x.as_str()) => {
                    let x = x.clone();
                    self.i += 1;
                    match x.as_str() {
                        "int" => Int(false),
                        "hyper" => Hyper(false),
                        "char" => Char(false),
                        _ => Short(false),
                    }
                }
                _ => Int(false),
            },
            "float" => Float,
            "double" => Double,
            "quadruple" => Quadruple,
            "bool" => Bool,
            "enum" => Enum(Box::new(EnumTypeSpec { body: self.enum_body()? })),
            "struct" => Struct(Box::new(StructTypeSpec { body: self.struct_body()? })),
            "union" => Union(Box::new(UnionTypeSpec { body: self.union_body()? })),
            _ if reserved(&w) => {
                self.i -= 1;
                return self.fail("type");
            }
            _ => Identifier(w),
        })
    }
    fn variable(&mut self) -> R<Option<Value>> {
        self.want('<')?;
        let v = if self.is('>') { None } else { Some(self.value()?) };
        self.want('>')?;
        Ok(v)
    }
    fn declaration(&mut self) -> R<Declaration> {
        if self.eat_word("void") {
            return Ok(Declaration::Void);
        }
        if self.eat_word("opaque") {
            let n = self.ident()?;
            if self.eat('[') {
                let v = self.value()?;
                self.want(']')?;
                return Ok(Declaration::OpaqueFixedArray(n, v));
            }
            return Ok(Declaration::OpaqueVariableArray(n, self.variable()?));
        }
        if self.eat_word("string") {
            let n = self.ident()?;
            return Ok(Declaration::String(n, self.variable()?));
        }
        let t = self.ty()?;
        if self.eat('*') {
            return Ok(Declaration::OptionVariable(t, self.ident()?));
        }
        let n = self.ident()?;
        if self.eat('[') {
            let v = self.value()?;
            self.want(']')?;
            return Ok(Declaration::FixedArray(t, n, v));
        }
        if self.is('<') {
            return Ok(Declaration::VariableArray(t, n, self.variable()?));
        }
        Ok(Declaration::Variable(t, n))
    }
    fn proc_ty(&mut self) -> R<TypeSpecifier> {
        if self.eat_word("void") { Ok(TypeSpecifier::Void) } else { self.ty() }
    }
    fn tail(&mut self) -> R<Value> {
        self.want('=')?;
        let v = self.value()?;
        self.want(';')?;
        Ok(v)
    }
    fn program(&mut self) -> R<Program> {
        let name = self.ident()?;
        self.want('{')?;
        let mut versions = vec![];
        while versions.is_empty() || self.is_word("version") {
            if !self.eat_word("version") {
                return self.fail("version");
            }
            let name = self.ident()?;
            self.want('{')?;
            let mut procedures = vec![];
            while procedures.is_empty() || !self.is('}') {
                let res_ty = self.proc_ty()?;
                let method = self.ident()?;
                self.want('(')?;
                let req_ty = self.proc_ty()?;
                self.want(')')?;
                procedures.push(Procedure { res_ty, method, req_ty, value: self.tail()? });
            }
            self.want('}')?;
            versions.push(Version { name, procedures, value: self.tail()? });
        }
        self.want('}')?;
        Ok(Program { name, versions, value: self.tail()? })
    }
    fn definition(&mut self) -> R<Definition> {
        if self.peek() == Some(&T::Line) {
            self.i += 1;
            return Ok(Definition::LineComment);
        }
        if self.eat_word("program") {
            return Ok(Definition::Program(self.program()?));
        }
        let d = if self.eat_word("const") {
            Definition::Constant(self.assign()?)
        } else if self.eat_word("typedef") {
            Definition::Type(TypeDef::Declaration(self.declaration()?))
        } else if self.eat_word("enum") {
            let n = self.ident()?;
            Definition::Type(TypeDef::Enum(n, self.enum_body()?))
        } else if self.eat_word("struct") {
            let n = self.ident()?;
            Definition::Type(TypeDef::Struct(n, self.struct_body()?))
        } else if self.eat_word("union") {
            let n = self.ident()?;
            Definition::Type(TypeDef::Union(n, self.union_body()?))
        } else {
            return self.fail("definition");
        };
        self.want(';')?;
        Ok(d)
    }
}

pub fn parse(text: &str) -> Result<Vec<Definition>, String> {
    let mut r = Rd { t: scan(text)?, i: 0 };
    let mut v = vec![];
    while r.i < r.t.len() {
        v.push(r.definition()?);
    }
    Ok(v)
}
