//! Choice-sequence property-testing engine: generation, parallel runs, shrinking, replay, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
pub mod dict;
pub mod driver;

use std::fmt::{Debug, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    let mut r = Rng(h);
    r.next()
}

struct HashWriter(u64);
impl std::fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.as_bytes() {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}
pub fn debug_hash(v: &impl Debug) -> u64 {
    let mut w = HashWriter(0xcbf2_9ce4_8422_2325);
    let _ = write!(w, "{v:?}");
    w.0
}

/// Source of every random decision of a case. Recorded, replayable, shrinkable.
pub struct Src {
    rng: Option<Rng>,
    given: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Gets every draw as it is made, so that they survive a crash.
    pub sink: Option<std::fs::File>,
}

impl Src {
    fn record(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
    }
    pub fn fresh(seed: u64) -> Self {
        Src { rng: Some(Rng(seed)), given: vec![], pos: 0, rec: vec![], sink: None }
    }
    pub fn replay(given: Vec<u64>) -> Self {
        Src { rng: None, given, pos: 0, rec: vec![], sink: None }
    }
    /// Every draw is taken from the bytes of a fuzzer input (two bytes per draw).
    pub fn from_bytes(data: &[u8]) -> Self {
        let given = data
            .chunks(2)
            .map(|c| c.iter().fold(0u64, |a, b| (a << 8) | *b as u64))
            .collect();
        Src::replay(given)
    }
    /// Uniform in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                ((x as u128 * n as u128) >> 64) as u64
            }
            None => {
                let c = self.given.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if c < n { c } else { c % n }
            }
        };
        self.record(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let c = self.given.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                c
            }
        };
        self.record(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// A length: min + geometric-ish, decided element by element by the caller through `more`.
    pub fn more(&mut self, have: usize, min: usize, max: usize, num: u64, den: u64) -> bool {
        if have < min {
            return true;
        }
        if have >= max {
            return false;
        }
        self.chance(num, den)
    }
    /// As `below`, but what is drawn afresh comes from `f`.
    fn forced(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let Some(r) = &mut self.rng else { return self.below(n) };
        let v = f(r).min(n - 1);
        self.record(v);
        v
    }
    /// Now and then a number up to `max` which the code under test mentions, or one beside it.
    pub fn hint(&mut self, max: u64) -> Option<u64> {
        if !self.chance(1, 40) { None } else { Some(self.mentioned(max)) }
    }
    /// A number up to `max` which the code under test mentions, or one beside it.
    pub fn mentioned(&mut self, max: u64) -> u64 {
        self.forced(max.saturating_add(1), |r| {
            let d = &dict::get().nums;
            // Mostly the ones which are not common anyway.
            let n = d.partition_point(|x| *x <= max.saturating_add(1));
            let few = d.partition_point(|x| *x <= 16.min(max));
            let from = if few < n && r.next() % 8 != 0 { few } else { 0 };
            if n == from {
                return r.next() % max.saturating_add(1).max(1);
            }
            let v = d[from + (r.next() % (n - from) as u64) as usize];
            let k = r.next() % 8;
            match k {
                0..=3 => v,
                4 | 5 => v.saturating_add(1),
                6 => v.saturating_sub(1),
                _ => v.saturating_add(r.next() % 9),
            }
        })
    }
    /// The least number of elements to draw: mostly `min`, now and then one which the code under test mentions
    /// or another one of any magnitude up to `max`.
    pub fn least(&mut self, min: usize, max: usize) -> usize {
        match self.below(60) {
            59 => min.max(self.mentioned(max as u64) as usize),
            58 => {
                let bits = usize::BITS - max.leading_zeros();
                let most = max >> self.usize(bits as usize);
                min.max(self.usize(most + 1))
            }
            _ => min,
        }
    }
    /// Now and then a text which the code under test mentions.
    pub fn word(&mut self) -> Option<String> {
        if self.chance(1, 40) { Some(self.mentioned_text()) } else { None }
    }
    /// One time in five a text which the code under test mentions.
    pub fn text(&mut self) -> Option<String> {
        if self.chance(1, 5) { Some(self.mentioned_text()) } else { None }
    }
    fn mentioned_text(&mut self) -> String {
        let d = &dict::get().words;
        let k = self.rng.as_mut().map_or(0, |r| r.next());
        let w: Vec<char> = if d.is_empty() { vec![] } else { d[(k % d.len() as u64) as usize].chars().collect() };
        let n = self.forced(256, |_| w.len() as u64);
        (0..n as usize).map(|i| char::from_u32(self.forced(0x110000, |_| w[i] as u64) as u32).unwrap_or('x')).collect()
    }
    /// Unsigned integer of `bits` bits, weighted to boundaries.
    pub fn uint(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(7) {
            6 => {
                let v = self.mentioned(mask);
                if self.chance(1, 4) { v.wrapping_neg() & mask } else { v }
            }
            0 | 1 => self.below(5) & mask,
            2 => mask - self.below(3),
            3 => {
                // around a power of two
                let p = self.below(bits as u64);
                let d = self.below(3);
                (1u64 << p).wrapping_add(d).wrapping_sub(1) & mask
            }
            4 => self.u64() & mask,
            _ => {
                let b = 1 + self.below(bits as u64);
                self.u64() & (u64::MAX >> (64 - b)) & mask
            }
        }
    }
    pub fn int(&mut self, bits: u32) -> i64 {
        let u = self.uint(bits);
        // sign extend
        ((u << (64 - bits)) as i64) >> (64 - bits)
    }
}

// ---------------------------------------------------------------- guarded execution

thread_local! {
    static IN_GUARD: Cell<u32> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if IN_GUARD.with(|g| g.get()) > 0 {
            PANIC_MSG.with(|m| *m.borrow_mut() = Some(text));
        } else {
            eprintln!("HARNESS PANIC: {text}");
        }
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|_| {
        PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------- cases

#[derive(Default)]
pub struct Cx {
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub discarded: bool,
    /// Known findings this case ran into: (key, what fails).
    pub known: Vec<(&'static str, String)>,
}
impl Cx {
    pub fn known(&mut self, key: &'static str, what: impl Into<String>) {
        self.known.push((key, what.into()));
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s)
        }
    }
    pub fn key(&mut self, v: &impl Debug) {
        self.key = Some(debug_hash(v));
    }
}

pub type Outcome = Result<(), String>;
pub type Prop = fn(&mut Src, &mut Cx) -> Outcome;

pub struct Sub {
    pub name: &'static str,
    pub prop: Prop,
    pub quick: u64,
    pub thorough: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub root: String,
    pub threads: usize,
    /// Keys of the known findings listed for this property in the known-findings file.
    pub listed: Vec<String>,
}

/// Runs one case: a failure that is a listed known finding is not a failure, an unlisted one is.
pub fn eval(prop: Prop, listed: &[String], src: &mut Src, cx: &mut Cx) -> Outcome {
    let r = guard(|| prop(&mut *src, &mut *cx)).unwrap_or_else(|m| Err(format!("the check could not go on: {m}")));
    if r.is_ok() {
        if let Some((k, what)) = cx.known.iter().find(|(k, _)| !listed.iter().any(|l| l == k)) {
            return Err(format!("{what} [finding {k}, which is not listed]"));
        }
    }
    r
}

pub struct Violation {
    pub sub: String,
    pub message: String,
    pub choices: Vec<u64>,
    pub case: Vec<String>,
    pub found_at: String,
    /// Extra replay data of checks that are not driven by a choice list alone.
    pub data: serde_json::Value,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, serde_json::Value>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, String>,
}
impl Report {
    pub fn bump(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
}

/// File into which each worker thread writes the case it is about to run, so that a crash of the
/// process (stack overflow, abort) can be attributed to a case.
pub struct InFlight {
    file: Option<std::fs::File>,
}
impl InFlight {
    pub fn open(path: Option<&str>) -> Self {
        InFlight {
            file: path.map(|p| {
                std::fs::OpenOptions::new().create(true).truncate(false).write(true).read(true).open(p).expect("inflight file")
            }),
        }
    }
    pub fn set(&self, thread: usize, sub: u64, case: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&sub.wrapping_add(1).to_le_bytes());
            b[8..].copy_from_slice(&case.to_le_bytes());
            let _ = f.write_at(&b, thread as u64 * 16);
        }
    }
}

/// In place of the number of a sub-check while a failure is made smaller.
pub const SHRINKING: u64 = 1 << 32;

pub fn choices_json(c: &[u64]) -> serde_json::Value {
    c.iter().map(|c| if *c < (1 << 53) { serde_json::json!(c) } else { serde_json::json!(c.to_string()) }).collect()
}

/// Leaves a violation for the parent to report, should making it smaller crash.
pub fn pending(cfg: &Cfg, sub: &str, message: &str, rec: &[u64], found_at: &str) {
    let Ok(p) = std::env::var("VH_INFLIGHT") else { return };
    let j = serde_json::json!({"property": cfg.id, "sub": sub, "found_at": found_at, "message": message, "choices": choices_json(rec)});
    let _ = std::fs::write(format!("{p}.pending"), serde_json::to_string_pretty(&j).unwrap());
}

pub fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    hash64(&[&seed.to_le_bytes(), id.as_bytes(), sub.as_bytes(), &i.to_le_bytes()])
}

pub const STACK: usize = 256 << 20;

pub fn run_sub(cfg: &Cfg, sub: &Sub, subno: u64, inflight: &InFlight, rep: &mut Report) {
    let n = if cfg.thorough { sub.thorough } else { sub.quick };
    if n == 0 {
        return;
    }
    let next = AtomicU64::new(0);
    let fails: Mutex<Vec<(u64, String, Vec<u64>)>> = Mutex::new(vec![]);
    type Agg = (u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<u64>, BTreeMap<&'static str, String>);
    let aggs: Mutex<Vec<Agg>> = Mutex::new(vec![]);
    let first_fail = AtomicU64::new(u64::MAX);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..cfg.threads)
            .map(|t| {
                let (next, fails, aggs, first_fail) = (&next, &fails, &aggs, &first_fail);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut evals = 0;
                        let mut set = HashSet::new();
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut samp: Vec<u64> = vec![];
                        let mut known: BTreeMap<&'static str, String> = BTreeMap::new();
                        const CHUNK: u64 = 16;
                        loop {
                            let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                            if lo >= n || lo > first_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            for i in lo..(lo + CHUNK).min(n) {
                                inflight.set(t, subno, i);
                                let mut src = Src::fresh(case_seed(cfg.seed, cfg.id, sub.name, i));
                                let mut cx = Cx::default();
                                let r = eval(sub.prop, &cfg.listed, &mut src, &mut cx);
                                if !cx.discarded {
                                    evals += 1;
                                    for l in cx.labels.drain(..) {
                                        *labels.entry(l).or_insert(0) += 1;
                                    }
                                    if cx.nontrivial {
                                        let k = cx.key.unwrap_or_else(|| debug_hash(&src.rec));
                                        if set.insert(k) && samp.len() < 3 {
                                            samp.push(i);
                                        }
                                    }
                                } else {
                                    *labels.entry("discarded").or_insert(0) += 1;
                                }
                                for (k, w) in cx.known.drain(..) {
                                    known.entry(k).or_insert(w);
                                }
                                if let Err(m) = r {
                                    first_fail.fetch_min(i, Ordering::Relaxed);
                                    fails.lock().unwrap().push((i, m, src.rec));
                                }
                            }
                        }
                        inflight.set(t, u64::MAX, 0);
                        aggs.lock().unwrap().push((evals, set, labels, samp, known));
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness thread panicked in {} {}", cfg.id, sub.name);
                std::process::exit(2);
            }
        }
    });
    let mut samp = vec![];
    for (e, set, labels, sm, known) in aggs.into_inner().unwrap() {
        rep.evaluations += e;
        rep.nontrivial.extend(set.into_iter().map(|k| k ^ hash64(&[sub.name.as_bytes()])));
        for (l, c) in labels {
            rep.bump(&format!("{}/{}", sub.name, l), c);
        }
        samp.extend(sm);
        for (k, w) in known {
            rep.known.entry(k.to_string()).or_insert(w);
        }
    }
    rep.bump(&format!("{}/cases", sub.name), n);
    samp.sort();
    for i in samp.into_iter().take(3) {
        let mut src = Src::fresh(case_seed(cfg.seed, cfg.id, sub.name, i));
        let mut cx = Cx { verbose: true, ..Default::default() };
        let _ = on_big_stack(|| eval(sub.prop, &cfg.listed, &mut src, &mut cx));
        rep.samples.push(clip(&format!("{}[{}]: {}", sub.name, i, cx.notes.join("; ")), 600));
    }
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    if let Some((i, m, rec)) = fails.into_iter().next() {
        pending(cfg, sub.name, &m, &rec, &format!("case {i}"));
        let v = shrink_violation(sub, &cfg.listed, m, rec, format!("case {i}"), inflight);
        rep.violations.push(v);
    }
}

pub fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().expect("big stack thread")
    })
}

pub fn shrink_violation(sub: &Sub, listed: &[String], msg: String, rec: Vec<u64>, found_at: String, inflight: &InFlight) -> Violation {
    let prop = sub.prop;
    let mut n = 0;
    let (choices, message) = on_big_stack(|| {
        shrink(rec, msg, 4000, |c| {
            n += 1;
            inflight.set(0, SHRINKING, n);
            let mut src = Src::replay(c.to_vec());
            let mut cx = Cx::default();
            match eval(prop, listed, &mut src, &mut cx) {
                Err(m) if !cx.discarded => Some((src.rec, m)),
                _ => None,
            }
        })
    });
    inflight.set(0, u64::MAX, 0);
    let mut src = Src::replay(choices.clone());
    let mut cx = Cx { verbose: true, ..Default::default() };
    let _ = on_big_stack(|| eval(prop, listed, &mut src, &mut cx));
    Violation { sub: sub.name.into(), message, choices, case: cx.notes, found_at, data: serde_json::Value::Null }
}

/// Generic shrinker: deletes and simplifies draws while `test` keeps failing.
pub fn shrink(
    start: Vec<u64>,
    msg: String,
    mut budget: u32,
    mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String) {
    let mut best = start;
    let mut message = msg;
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($c:expr) => {{
            if budget == 0 {
                return (best, message);
            }
            budget -= 1;
            match test(&$c) {
                Some((rec, m)) if simpler(&rec, &best) => {
                    best = rec;
                    message = m;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(k);
            loop {
                if best.len() >= k && i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    attempt!(c);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(k.max(1));
            }
            if k == 1 {
                break;
            }
            k = (k / 2).max(1);
        }
        // zero chunks
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].fill(0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // minimise each draw
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() && best[i] > 1 {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
                // decrement together with deletion of the next draw (shortens counted lists)
                if i + 1 < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(i + 1);
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before {
            return (best, message);
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
