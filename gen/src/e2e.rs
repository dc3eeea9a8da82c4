//! Compiles generated modules against the library and talks to the resulting programs.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use vhcore::{clip, unhex};

/// A module (which has `pub fn call(op, index, octets) -> String`) and the calls to make on it.
pub struct Unit {
    pub src: String,
    pub calls: Vec<Call>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    /// Decode the octets as a type and encode the result again.
    Decode(usize, Vec<u8>),
    /// Encode a value.
    Literal(usize),
    /// Encode the default of a type, and decode that again.
    Default(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Ok(Vec<u8>, String),
    /// Decoded (to what), but encoding failed.
    EncodeErr(String, String),
    EncodePanic(String, String),
    Err(String),
    Panic(String),
    Crash(String),
}
/// What came of a unit: the compiler's complaint, or the answers to its calls.
pub type Outcome = Result<Vec<Ans>, String>;

const MAIN: &str = r#"
use std::fmt::Debug;
pub trait Mk { fn mk(b: &[u8]) -> Self; }
impl Mk for Vec<u8> { fn mk(b: &[u8]) -> Self { b.to_vec() } }
impl<const N: usize> Mk for [u8; N] { fn mk(b: &[u8]) -> Self { b.try_into().unwrap() } }
impl Mk for serde_xdr::opaque::VariableArray { fn mk(b: &[u8]) -> Self { Self { data: b.to_vec() } } }
impl<const N: usize> Mk for serde_xdr::opaque::FixedArray<N> { fn mk(b: &[u8]) -> Self { Self { data: b.try_into().unwrap() } } }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn clean(s: String) -> String { s.replace(['\n', '\t', '\r'], " ") }
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    clean(match e.downcast::<String>() { Ok(s) => *s, Err(e) => match e.downcast::<&'static str>() { Ok(s) => s.to_string(), Err(_) => "?".into() } })
}
pub fn lit<T: serde::Serialize + Debug>(v: T) -> String {
    let d = clean(format!("{v:?}"));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serde_xdr::to_bytes(&v))) {
        Ok(Ok(b)) => format!("ok\t{}\t{d}", hex(&b)),
        Ok(Err(e)) => format!("encerr\t{}\t{d}", clean(format!("{e:?}"))),
        Err(e) => format!("encpanic\t{}\t{d}", msg(e)),
    }
}
pub fn rt<T: serde::Serialize + serde::de::DeserializeOwned + Debug>(b: &[u8]) -> String {
    match std::panic::catch_unwind(|| serde_xdr::from_bytes::<T>(b)) {
        Ok(Ok(v)) => lit(v),
        Ok(Err(e)) => format!("err\t{}", clean(format!("{e:?}"))),
        Err(e) => format!("panic\t{}", msg(e)),
    }
}
pub fn dflt<T: serde::Serialize + serde::de::DeserializeOwned + Debug + Default>() -> String {
    let a = match std::panic::catch_unwind(|| lit(T::default())) { Ok(a) => a, Err(e) => return format!("panic\t{}", msg(e)) };
    match a.strip_prefix("ok\t").and_then(|x| x.split('\t').next()) {
        Some(h) => {
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let r = rt::<T>(&b);
            if r == a { a } else { format!("panic\tit became {} on decoding, from {}", clean(r), clean(a)) }
        }
        None => a,
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    use std::io::{BufRead, Write};
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        let b: Vec<u8> = (0..w[3].len() / 2).map(|i| u8::from_str_radix(&w[3][2 * i..2 * i + 2], 16).unwrap()).collect();
        let r = dispatch(w[0].parse().unwrap(), w[1], w[2].parse().unwrap(), &b);
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
"#;

struct Libs {
    args: Vec<String>,
}
fn libs(root: &str) -> Libs {
    let text = std::fs::read_to_string(format!("{root}/.build/artifacts.json")).expect("artifacts.json, which check.sh writes");
    let mut args = vec!["-L".into(), format!("dependency={root}/.build/t/release/deps")];
    for want in ["serde", "serde_xdr", "serde_xdr_derive"] {
        let mut found = None;
        for l in text.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if j["reason"] != "compiler-artifact" || j["target"]["name"] != want || j["profile"]["test"] == true {
                continue;
            }
            if want != "serde_xdr_derive" && j["profile"]["opt_level"] != "1" {
                continue;
            }
            for f in j["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") || f.ends_with(".so") {
                    found = Some(f.to_string());
                }
            }
        }
        let f = found.unwrap_or_else(|| panic!("no artifact of {want}"));
        args.push("--extern".into());
        args.push(format!("{want}={f}"));
    }
    Libs { args }
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

/// Runs every unit; `shards` compilers at a time.
pub fn run(root: &str, units: &[Unit], shards: usize) -> Vec<Outcome> {
    let libs = libs(root);
    let mut out: Vec<Option<Outcome>> = units.iter().map(|_| None).collect();
    let per = units.len().div_ceil(shards.max(1)).max(1);
    let parts: Vec<Vec<(usize, Outcome)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..units.len())
            .step_by(per)
            .map(|a| {
                let ids: Vec<usize> = (a..(a + per).min(units.len())).collect();
                let libs = &libs;
                s.spawn(move || shard(root, libs, units, ids))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("shard")).collect()
    });
    for (i, o) in parts.into_iter().flatten() {
        out[i] = Some(o);
    }
    out.into_iter().map(|o| o.expect("outcome")).collect()
}

fn shard(root: &str, libs: &Libs, units: &[Unit], ids: Vec<usize>) -> Vec<(usize, Outcome)> {
    let dir = format!("{root}/.build/e2e/{}-{}", std::process::id(), SERIAL.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    for i in &ids {
        std::fs::write(format!("{dir}/c{i}.rs"), &units[*i].src).expect("module");
    }
    let mut live = ids;
    let mut done = vec![];
    while !live.is_empty() {
        match compile(&dir, libs, &live) {
            Ok(()) => break,
            Err(bad) => {
                live.retain(|i| !bad.contains_key(i));
                done.extend(bad.into_iter().map(|(i, m)| (i, Err(m))));
            }
        }
    }
    if !live.is_empty() {
        done.extend(talk(&dir, units, &live));
    }
    let _ = std::fs::remove_dir_all(&dir);
    done
}

fn file_ids(span: &serde_json::Value, out: &mut Vec<usize>) {
    if let Some(f) = span["file_name"].as_str() {
        let base = f.rsplit('/').next().unwrap_or(f);
        if let Some(n) = base.strip_prefix('c').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse().ok()) {
            out.push(n);
        }
    }
    if span["expansion"].is_object() {
        file_ids(&span["expansion"]["span"], out);
    }
}

/// Err: the modules at fault.
fn compile(dir: &str, libs: &Libs, live: &[usize]) -> Result<(), BTreeMap<usize, String>> {
    let mut main = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
    for i in live {
        let _ = writeln!(main, "mod c{i};");
    }
    main.push_str("fn dispatch(c: usize, op: &str, i: usize, b: &[u8]) -> String { match c {\n");
    for i in live {
        let _ = writeln!(main, "{i} => c{i}::call(op, i, b),");
    }
    main.push_str("_ => unreachable!() } }\n");
    main.push_str(MAIN);
    std::fs::write(format!("{dir}/main.rs"), main).expect("main.rs");
    let o = Command::new("rustc")
        .args(["--edition", "2024", "--crate-type", "bin", "--crate-name", "cases", "-C", "opt-level=0", "-C", "debuginfo=0"])
        .args(["-C", "codegen-units=4", "-A", "warnings", "--error-format=json", "-o", "cases", "main.rs"])
        .args(&libs.args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .expect("rustc");
    if o.status.success() {
        return Ok(());
    }
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    let mut stray = String::new();
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else {
            stray.push_str(l);
            stray.push('\n');
            continue;
        };
        if !j["level"].as_str().unwrap_or("").starts_with("error") {
            continue;
        }
        let mut at = vec![];
        for sp in j["spans"].as_array().into_iter().flatten() {
            if sp["is_primary"] == true {
                file_ids(sp, &mut at);
            }
        }
        for part in [&j["spans"], &j["children"]] {
            if at.is_empty() {
                for c in part.as_array().into_iter().flatten() {
                    file_ids(c, &mut at);
                    for sp in c["spans"].as_array().into_iter().flatten() {
                        file_ids(sp, &mut at);
                    }
                }
            }
        }
        let text = j["rendered"].as_str().or(j["message"].as_str()).unwrap_or("").to_string();
        match at.first() {
            Some(i) => {
                let e = bad.entry(*i).or_default();
                if e.len() < 2000 {
                    e.push_str(&clip(&text, 1200));
                }
            }
            None => stray.push_str(&text),
        }
    }
    bad.retain(|i, _| live.contains(i));
    if bad.is_empty() {
        if live.len() == 1 {
            return Err([(live[0], format!("rustc: {} {}", o.status, clip(&stray, 1500)))].into());
        }
        // Nothing points at a module: find it by halves.
        let (a, b) = live.split_at(live.len() / 2);
        for half in [a, b] {
            if let Err(e) = compile(dir, libs, half) {
                bad.extend(e);
            }
        }
        assert!(!bad.is_empty(), "rustc fails for no module in particular: {} {}", o.status, clip(&stray, 3000));
    }
    Err(bad)
}

fn talk(dir: &str, units: &[Unit], live: &[usize]) -> Vec<(usize, Outcome)> {
    let mut todo: Vec<(usize, &Call)> = live.iter().flat_map(|i| units[*i].calls.iter().map(move |c| (*i, c))).collect();
    todo.reverse();
    let mut got: BTreeMap<usize, Vec<Ans>> = live.iter().map(|i| (*i, vec![])).collect();
    while !todo.is_empty() {
        let mut ch = Command::new("./cases")
            .current_dir(dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("generated program");
        let mut text = String::new();
        for (i, c) in todo.iter().rev() {
            let _ = match c {
                Call::Decode(t, b) => writeln!(text, "{i} T {t} {}", vhcore::hex(b)),
                Call::Literal(n) => writeln!(text, "{i} L {n} "),
                Call::Default(n) => writeln!(text, "{i} D {n} "),
            };
        }
        let mut sin = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = sin.write_all(text.as_bytes());
        });
        let rd = BufReader::new(ch.stdout.take().unwrap());
        // A watchdog, in case a call never returns.
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let pid = ch.id();
        let dog = std::thread::spawn(move || {
            let mut last = Instant::now();
            loop {
                match rx.recv_timeout(Duration::from_secs(1)) {
                    Ok(()) => last = Instant::now(),
                    Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return false,
                    Err(_) if last.elapsed() > Duration::from_secs(30) => {
                        let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                        return true;
                    }
                    Err(_) => {}
                }
            }
        });
        for l in rd.lines() {
            let Ok(l) = l else { break };
            let Some((i, _)) = todo.pop() else { break };
            let _ = tx.send(());
            got.get_mut(&i).unwrap().push(answer(&l));
        }
        drop(tx);
        let hung = dog.join().unwrap_or(false);
        let st = ch.wait();
        let _ = w.join();
        if let Some((i, _)) = todo.pop() {
            let how = if hung { "no answer within 30 s".into() } else { format!("{st:?}") };
            got.get_mut(&i).unwrap().push(Ans::Crash(how));
        }
    }
    got.into_iter().map(|(i, a)| (i, Ok(a))).collect()
}
fn answer(l: &str) -> Ans {
    let w: Vec<&str> = l.split('\t').collect();
    let f = |i: usize| w.get(i).copied().unwrap_or("").to_string();
    match w[0] {
        "ok" => Ans::Ok(unhex(&f(1)), f(2)),
        "encerr" => Ans::EncodeErr(f(1), f(2)),
        "encpanic" => Ans::EncodePanic(f(1), f(2)),
        "err" => Ans::Err(f(1)),
        "panic" => Ans::Panic(f(1)),
        _ => Ans::Crash(format!("answer {l:?}")),
    }
}
