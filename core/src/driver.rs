//! Command-line driver: `check ID`, `replay FILE`, plus the internal `worker` and `one`.
//!
//! `check` runs the work in a child process so that a crash (stack overflow, abort, out of memory)
//! or a hang of the code under test is attributed to the case that caused it.
use crate::*;
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

pub type Extra = fn(&Cfg, &mut Report);
/// Re-runs a replay of an `Extra`; Some(message) if it still fails.
pub type ExtraReplay = fn(&Cfg, &J) -> Result<Option<String>, String>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub extra: Option<Extra>,
    pub extra_replay: Option<ExtraReplay>,
}

const HANG_S: u64 = 60;

fn root() -> String {
    std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn listed(root: &str, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            let p = w.next()?.strip_prefix("property=")?;
            let k = w.next()?.strip_prefix("key=")?;
            (p == id).then(|| k.to_string())
        })
        .collect()
}

fn cfg(c: &Check) -> Cfg {
    let root = root();
    Cfg {
        id: c.id,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        listed: listed(&root, c.id),
        root,
        threads: std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
    }
}

pub fn run(checks: Vec<Check>) -> ExitCode {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        })
    };
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["check", id] => parent(find(id)),
        ["worker", id] => worker(find(id)),
        ["one", id, file] => one(find(id), file),
        ["replay", file] => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
            replay(find(j["property"].as_str().expect("property")), &j)
        }
        ["list"] => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list");
            2
        }
    };
    ExitCode::from(code)
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

fn state_dir(root: &str) -> String {
    let d = format!("{root}/.build/state");
    std::fs::create_dir_all(&d).expect("state dir");
    d
}

fn parent(c: &Check) -> u8 {
    let start = Instant::now();
    let cfg = cfg(c);
    let inflight = format!("{}/inflight-{}-{}", state_dir(&cfg.root), c.id, std::process::id());
    let _ = std::fs::remove_file(&inflight);
    let mut child = self_cmd().args(["worker", c.id]).env("VH_INFLIGHT", &inflight).spawn().expect("spawn worker");
    let _ = std::fs::remove_file(format!("{inflight}.pending"));
    let mut seen: BTreeMap<u64, ((u64, u64), Instant)> = BTreeMap::new();
    let mut hung = None;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        for (t, cur) in read_inflight(&inflight) {
            let e = seen.entry(t).or_insert((cur, Instant::now()));
            if e.0 != cur {
                *e = (cur, Instant::now());
            } else if cur.0 != 0 && e.1.elapsed() > Duration::from_secs(HANG_S) {
                hung = Some(cur);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let unfinished = format!("{inflight}.pending");
    let found = std::fs::read_to_string(&unfinished).ok();
    let _ = std::fs::remove_file(&unfinished);
    if let Some(code) = status.and_then(|s| s.code()) {
        let _ = std::fs::remove_file(&inflight);
        return code as u8;
    }
    // Crash or hang: attribute it.
    let how = match status {
        Some(s) => format!("process ended by {s}"),
        None => format!("no answer within {HANG_S} s"),
    };
    let mut suspects: Vec<(u64, u64)> = match hung {
        Some(h) => vec![h],
        None => read_inflight(&inflight).into_iter().map(|x| x.1).collect(),
    };
    suspects.retain(|x| x.0 != 0 && x.0 <= c.subs.len() as u64);
    suspects.sort();
    let _ = std::fs::remove_file(&inflight);
    let report = |message: &str, path: &str| {
        write_evidence(c, &cfg, &Report { evaluations: 1, ..Default::default() }, start, 1);
        println!("{}: {}", c.id, clip(message, 1500));
        println!("VIOLATION property={} replay={}", c.id, path);
        1
    };
    if let Some(j) = found.and_then(|t| serde_json::from_str::<J>(&t).ok()) {
        // Found, but smaller variants of it crash or hang.
        let path = write_replay(&cfg, &j);
        return report(j["message"].as_str().unwrap_or(""), &path);
    }
    for (subno, case) in suspects {
        let sub = &c.subs[subno as usize - 1];
        let seed = case_seed(cfg.seed, c.id, sub.name, case);
        let mut j = json!({"property": c.id, "sub": sub.name, "case_seed": seed.to_string(), "found_at": format!("case {case}"), "message": how});
        if let Some((message, choices)) = run_one(c, &cfg, &j) {
            let (choices, message) = shrink_outside(c, &cfg, &j, choices, message);
            j["choices"] = choices_json(&choices);
            j["message"] = json!(message);
            j.as_object_mut().unwrap().remove("case_seed");
            let path = write_replay(&cfg, &j);
            return report(&format!("{message} while running case {case} of {}", sub.name), &path);
        }
    }
    eprintln!("worker failed ({how}) and no case reproduces it");
    2
}

/// Makes a crash smaller, a process for every attempt.
fn shrink_outside(c: &Check, cfg: &Cfg, j: &J, start: Vec<u64>, message: String) -> (Vec<u64>, String) {
    if message.contains("no answer") {
        return (start, message);
    }
    let t = Instant::now();
    shrink(start, message, 3000, |choices| {
        if t.elapsed() > Duration::from_secs(40) {
            return None;
        }
        let mut j = j.clone();
        j["choices"] = choices_json(choices);
        run_one(c, cfg, &j).map(|(m, rec)| (rec, m))
    })
}

/// Runs one case in a subprocess: what happens if it crashes or hangs, and the draws it made.
fn run_one(c: &Check, cfg: &Cfg, j: &J) -> Option<(String, Vec<u64>)> {
    let base = format!("{}/one-{}", state_dir(&cfg.root), std::process::id());
    let (file, draws) = (format!("{base}.json"), format!("{base}.draws"));
    std::fs::write(&file, j.to_string()).ok()?;
    let mut ch = self_cmd().args(["one", c.id, &file]).env("VH_DRAWS", &draws).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    let how = loop {
        match ch.try_wait().ok()? {
            Some(s) if s.code().is_some() => break None,
            Some(s) => break Some(format!("the code under test crashed ({s})")),
            None if t.elapsed() > Duration::from_secs(HANG_S) => {
                let _ = ch.kill();
                let _ = ch.wait();
                break Some(format!("the code under test gave no answer within {HANG_S} s"));
            }
            None => std::thread::sleep(Duration::from_micros(500)),
        }
    };
    let rec = std::fs::read(&draws).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&draws);
    how.map(|h| (h, rec))
}

fn read_inflight(path: &str) -> Vec<(u64, (u64, u64))> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16)
        .enumerate()
        .map(|(i, c)| {
            (i as u64, (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        })
        .collect()
}

fn src_of(j: &J) -> Src {
    if let Some(cs) = j["choices"].as_array() {
        return Src::replay(cs.iter().map(|x| x.as_str().map(|s| s.parse().unwrap()).unwrap_or_else(|| x.as_u64().unwrap())).collect());
    }
    Src::fresh(j["case_seed"].as_str().expect("choices or case_seed").parse().unwrap())
}

fn one(c: &Check, file: &str) -> u8 {
    let j: J = serde_json::from_str(&std::fs::read_to_string(file).expect("file")).expect("json");
    let sub = c.subs.iter().find(|s| Some(s.name) == j["sub"].as_str()).expect("sub");
    let l = cfg(c).listed;
    on_big_stack(|| {
        let mut src = src_of(&j);
        src.sink = std::env::var("VH_DRAWS").ok().and_then(|p| std::fs::File::create(p).ok());
        let mut cx = Cx::default();
        let _ = eval(sub.prop, &l, &mut src, &mut cx);
    });
    0
}

fn replay(c: &Check, j: &J) -> u8 {
    let cfg = cfg(c);
    let r: Option<String> = match c.subs.iter().find(|s| Some(s.name) == j["sub"].as_str()) {
        Some(sub) => {
            let mut cx = Cx { verbose: true, ..Default::default() };
            let r = on_big_stack(|| {
                let mut src = src_of(j);
                eval(sub.prop, &cfg.listed, &mut src, &mut cx)
            });
            for n in &cx.notes {
                println!("{}", clip(n, 4000));
            }
            r.err()
        }
        None => match c.extra_replay {
            Some(f) => match f(&cfg, j) {
                Ok(r) => r,
                Err(e) => {
                    eprintln!("{e}");
                    return 2;
                }
            },
            None => {
                eprintln!("no such sub-check");
                return 2;
            }
        },
    };
    match r {
        Some(m) => {
            println!("fails: {}", clip(&m, 4000));
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

fn write_replay(cfg: &Cfg, j: &J) -> String {
    let dir = format!("{}/replays", cfg.root);
    std::fs::create_dir_all(&dir).expect("replays dir");
    let text = serde_json::to_string_pretty(j).unwrap();
    let path = format!("{dir}/{}-{:016x}.json", cfg.id, hash64(&[text.as_bytes()]));
    std::fs::write(&path, text).expect("write replay");
    path
}

fn worker(c: &Check) -> u8 {
    let start = Instant::now();
    let cfg = cfg(c);
    let mut rep = Report::default();
    let inflight = InFlight::open(std::env::var("VH_INFLIGHT").ok().as_deref());
    for (i, s) in c.subs.iter().enumerate() {
        let t = Instant::now();
        run_sub(&cfg, s, i as u64, &inflight, &mut rep);
        if std::env::var("VH_TIMES").is_ok() {
            eprintln!("{} {}: {:.1} s", c.id, s.name, t.elapsed().as_secs_f64());
        }
    }
    if let Some(f) = c.extra {
        f(&cfg, &mut rep);
    }
    let n = rep.violations.len();
    write_evidence(c, &cfg, &rep, start, n);
    for (k, w) in &rep.known {
        if cfg.listed.contains(k) {
            println!("KNOWN-FINDING: property={} key={} {}", c.id, k, clip(w, 300));
        }
    }
    if rep.evaluations == 0 {
        eprintln!("{}: nothing was evaluated", c.id);
        return 2;
    }
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1} s", c.id, rep.evaluations, rep.nontrivial.len(), start.elapsed().as_secs_f64());
    for v in &rep.violations {
        let mut j = json!({
            "property": c.id, "sub": v.sub, "found_at": v.found_at, "message": v.message, "case": v.case,
            "choices": choices_json(&v.choices),
        });
        if !v.data.is_null() {
            j["data"] = v.data.clone();
        }
        let path = write_replay(&cfg, &j);
        println!("{} [{}]: {}", c.id, v.sub, clip(&v.message, 1500));
        for l in &v.case {
            println!("    {}", clip(l, 1500));
        }
        println!("VIOLATION property={} replay={}", c.id, path);
    }
    (n > 0) as u8
}

fn write_evidence(c: &Check, cfg: &Cfg, rep: &Report, start: Instant, violations: usize) -> bool {
    let dir = format!("{}/evidence", cfg.root);
    std::fs::create_dir_all(&dir).expect("evidence dir");
    let mut cov = json!({
        "evaluations": rep.evaluations,
        "distinct_nontrivial": rep.nontrivial.len(),
        "rule": c.rule,
        "samples": rep.samples,
        "classes": rep.labels,
    });
    for (k, v) in &rep.extra {
        cov[k] = v.clone();
    }
    if !rep.known.is_empty() {
        cov["known_findings_seen"] = json!(rep.known);
    }
    let j = json!({
        "property": c.id,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": c.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(format!("{dir}/{}.json", c.id), serde_json::to_string_pretty(&j).unwrap() + "\n").expect("evidence");
    true
}
