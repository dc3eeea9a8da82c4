//! The numbers, characters and words which the code under test mentions, as a dictionary for the generators:
//! what the code compares against is worth trying. It only changes what is drawn, never what is judged.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// Ascending.
    pub nums: Vec<u64>,
    pub words: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut files = vec![];
        let roots = std::env::var("VH_SRC").unwrap_or_else(|_| "/repo".into());
        walk(std::path::Path::new(&roots), 0, &mut files);
        files.sort();
        let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
        read(&texts)
    })
}
fn walk(dir: &std::path::Path, depth: u32, out: &mut Vec<std::path::PathBuf>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        let n = e.file_name();
        let n = n.to_string_lossy();
        if p.is_dir() && depth < 6 {
            if !n.starts_with('.') && !["target", "tests", "examples", "benches", "serde-xdr-test"].contains(&n.as_ref()) {
                walk(&p, depth + 1, out);
            }
        } else if n.ends_with(".rs") {
            out.push(p);
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Num(u128),
    Word(String),
    Text(String),
    Char(char),
    Sign(char),
}
fn tokens(t: &str) -> Vec<Tok> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        let rest = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        if rest(0) == '/' && rest(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if rest(0) == '/' && rest(1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
        } else if rest(0) == '"' {
            i += 1;
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                s.push(if c[i] == '\\' { escaped(&c, &mut i) } else { c[i] });
                i += 1;
            }
            i += 1;
            o.push(Tok::Text(s));
        } else if rest(0) == '\'' && ((rest(1) == '\\') || rest(2) == '\'') {
            i += 1;
            let x = if c[i] == '\\' { escaped(&c, &mut i) } else { c[i] };
            o.push(Tok::Char(x));
            while i < c.len() && c[i] != '\'' {
                i += 1;
            }
            i += 1;
        } else if rest(0).is_ascii_digit() {
            let from = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[from..i].iter().filter(|x| **x != '_').collect();
            o.extend(number(&w).map(Tok::Num));
        } else if rest(0).is_alphabetic() || rest(0) == '_' {
            let from = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            o.push(Tok::Word(c[from..i].iter().collect()));
        } else {
            if !rest(0).is_whitespace() {
                o.push(Tok::Sign(rest(0)));
            }
            i += 1;
        }
    }
    o
}
fn escaped(c: &[char], i: &mut usize) -> char {
    *i += 1;
    match c.get(*i).copied().unwrap_or('\0') {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = c.iter().skip(*i + 1).take(2).collect();
            *i += 2;
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\0')
        }
        'u' => {
            let h: String = c.iter().skip(*i + 2).take_while(|x| **x != '}').collect();
            *i += 2 + h.len();
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\0')
        }
        x => x,
    }
}
fn number(w: &str) -> Option<u128> {
    let mut w = w.to_ascii_lowercase();
    for s in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        if let Some(x) = w.strip_suffix(s) {
            w = x.to_string();
            break;
        }
    }
    match w.get(..2) {
        Some("0x") => u128::from_str_radix(&w[2..], 16).ok(),
        Some("0o") => u128::from_str_radix(&w[2..], 8).ok(),
        Some("0b") => u128::from_str_radix(&w[2..], 2).ok(),
        _ => w.parse().ok(),
    }
}
pub fn read(texts: &[String]) -> Dict {
    let mut nums: BTreeSet<u64> = BTreeSet::new();
    let mut words: BTreeSet<String> = BTreeSet::new();
    for t in texts {
        // Tests come last in a file.
        let t = t.split("#[cfg(test)]").next().unwrap();
        let k = tokens(t);
        let mut add = |n: u128| {
            if n <= u64::MAX as u128 {
                nums.insert(n as u64);
            }
        };
        for (i, x) in k.iter().enumerate() {
            match x {
                Tok::Num(n) => {
                    add(*n);
                    add(*n << 2);
                    // Products, shifts and powers.
                    match &k[i + 1..(i + 6).min(k.len())] {
                        [Tok::Sign('*'), Tok::Num(m), ..] => add(n.saturating_mul(*m)),
                        [Tok::Sign('<'), Tok::Sign('<'), Tok::Num(m), ..] if *m < 64 => add(n.checked_shl(*m as u32).unwrap_or(0)),
                        [Tok::Sign('.'), Tok::Word(w), Tok::Sign('('), Tok::Num(m), ..] if w == "pow" && *m < 64 => add(n.saturating_pow(*m as u32)),
                        _ => {}
                    }
                }
                Tok::Char(c) => {
                    add(*c as u128);
                    words.insert(c.to_string());
                }
                Tok::Text(s) if !s.is_empty() && s.len() <= 40 => {
                    add(s.len() as u128);
                    words.insert(s.clone());
                }
                // The limits of the types which are named or cast to.
                Tok::Word(w) => {
                    let bits = match w.as_str() {
                        "u8" | "i8" => 8,
                        "u16" | "i16" => 16,
                        "i32" | "u32" => 32,
                        _ => continue,
                    };
                    add((1 << bits) - 1);
                    add(1 << bits);
                    add((1 << (bits - 1)) - 1);
                    add(1 << (bits - 1));
                }
                _ => {}
            }
        }
    }
    Dict { nums: nums.into_iter().collect(), words: words.into_iter().collect() }
}

#[cfg(test)]
mod tests {
    #[test]
    fn reads() {
        let t = r##"fn f<'a>(x: &'a str) { if n > 1 << 12 || m == 0x10_00u32 * 3 { } // 77
            let s = "ab\"c"; match c { '\n' | 'q' => y as u16, _ => 10usize.pow(3) } /* "no" */ }
            #[cfg(test)] mod t { const A: u8 = 99; }"##;
        let d = super::read(&[t.into()]);
        for n in [4096, 12288, 10, 'q' as u64, 65535, 1000] {
            assert!(d.nums.contains(&n), "{n}");
        }
        assert!(!d.nums.contains(&99) && !d.nums.contains(&77));
        assert!(d.words.contains(&"ab\"c".to_string()) && d.words.contains(&"q".to_string()) && !d.words.contains(&"no".to_string()));
    }
}
