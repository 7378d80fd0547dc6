//! Runs a property's workload in worker processes, watches the oracles' verdicts, attributes
//! crashes and hangs to the case that caused them, shrinks, and writes replay and evidence.

use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::panic;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Size scaling of generated cases.
    pub fn scale(self) -> usize {
        match self {
            Tier::Quick => 1,
            Tier::Thorough => 2,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Verdict {
    /// The oracle looked and was satisfied; `true` if it really had something to observe.
    Ok(bool),
    /// The case doesn't apply (only after shrinking, or a precondition that isn't met).
    Skip,
    Fail { kind: String, detail: String },
}

pub fn fail(kind: &str, detail: impl Into<String>) -> Verdict {
    Verdict::Fail {
        kind: kind.into(),
        detail: detail.into(),
    }
}

/// What the monitors observed.
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
}

impl Stats {
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(key) {
            *c += n;
        } else {
            self.counts.insert(key.to_string(), n);
        }
    }
    pub fn hit(&mut self, key: &str) {
        self.add(key, 1)
    }
}

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> Value;
    fn fixed(&self) -> Vec<Value> {
        vec![]
    }
    fn check(&self, input: &Value, stats: &mut Stats) -> Verdict;
    /// Whether a case that doesn't end breaks the property (otherwise it is inconclusive).
    fn hang_is_violation(&self) -> bool {
        false
    }
    fn stack(&self) -> usize {
        16 << 20
    }
    fn time_cap(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 25,
            Tier::Thorough => 600,
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

const HANG_S: u64 = 20;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic in another thread".into())
}

/// One evaluation; a panic of the code under test is a failure of kind "panic".
pub fn eval(p: &dyn Prop, input: &Value, stats: &mut Stats) -> Verdict {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| p.check(input, stats)));
    match r {
        Ok(v) => v,
        Err(_) => fail("panic", last_panic()),
    }
}

pub fn case_input(p: &dyn Prop, fixed: &[Value], seed: u64, tier: Tier, i: u64) -> Value {
    if (i as usize) < fixed.len() {
        return fixed[i as usize].clone();
    }
    let mut r = Rng::new(mix(seed ^ hash_str(p.id())) ^ mix(i.wrapping_mul(0x9e37)));
    p.gen(&mut r, i, tier)
}

// Known findings

pub struct Known {
    pub property: String,
    pub what: String,
    pub input: Option<Value>,
    pub site: Option<String>,
}

pub fn verif_dir() -> String {
    std::env::var("FTML_MON_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Lines `finding: {"property":..,"what":..,"input":..,"site":..}`; others are ignored.
pub fn load_known() -> Vec<Known> {
    let text =
        std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            if let Ok(v) = serde_json::from_str::<Value>(rest) {
                out.push(Known {
                    property: v["property"].as_str().unwrap_or("").into(),
                    what: v["what"].as_str().unwrap_or("").into(),
                    input: v.get("input").cloned(),
                    site: v.get("site").and_then(|s| s.as_str()).map(|s| s.into()),
                });
            }
        }
    }
    out
}

fn known_hit(known: &[Known], pid: &str, input: &Value, kind: &str, detail: &str) -> bool {
    known.iter().any(|k| {
        // A call site outside the repository (a dependency) fails whichever property's
        // workload reaches it.
        if let Some(site) = &k.site {
            if kind == "panic" && detail.starts_with(|c: char| c == '/' || c.is_alphabetic()) {
                let loc = detail.split(": ").next().unwrap_or("");
                if loc.contains(site.as_str()) {
                    return true;
                }
            }
        }
        k.property == pid && k.input.as_ref().is_some_and(|i| i == input)
    })
}

// Worker

pub fn worker(p: &'static dyn Prop, seed: u64, tier: Tier, w: u64, n_w: u64, start: u64, total: u64, cap: u64) -> i32 {
    install_hook();
    let cur = Arc::new(AtomicU64::new(u64::MAX));
    let ticks = Arc::new(AtomicU64::new(0));
    let done: Arc<Mutex<Option<()>>> = Arc::new(Mutex::new(None));
    let (c2, t2, d2) = (cur.clone(), ticks.clone(), done.clone());
    let status = std::env::var("FTML_MON_STATUS").ok();
    let handle = std::thread::Builder::new()
        .stack_size(p.stack())
        .spawn(move || {
            use std::os::unix::fs::FileExt;
            let sf = status.and_then(|s| std::fs::OpenOptions::new().write(true).open(s).ok());
            let known = load_known();
            let t0 = Instant::now();
            let fixed = p.fixed();
            let mut stats = Stats::default();
            let (mut evals, mut nontrivial, mut skips, mut known_hits) = (0u64, 0u64, 0u64, 0u64);
            let mut samples: Vec<Value> = vec![];
            let mut i = start;
            let mut capped = false;
            while i < total {
                if t0.elapsed().as_secs() >= cap {
                    capped = true;
                    break;
                }
                c2.store(i, Ordering::SeqCst);
                t2.fetch_add(1, Ordering::SeqCst);
                if let Some(f) = &sf {
                    let _ = f.write_at(&i.to_le_bytes(), 0);
                }
                let gen = panic::catch_unwind(panic::AssertUnwindSafe(|| {
                    case_input(p, &fixed, seed, tier, i)
                }));
                let input = match gen {
                    Ok(v) => v,
                    Err(_) => {
                        println!("{}", json!({"generror": last_panic(), "idx": i}));
                        break;
                    }
                };
                let v = eval(p, &input, &mut stats);
                evals += 1;
                match v {
                    Verdict::Ok(nt) => {
                        if nt {
                            nontrivial += 1;
                            let s = input.to_string();
                            stats.sigs.insert(hash_str(&s));
                            if samples.len() < 3 && s.len() < 3000 && i as usize >= fixed.len() {
                                samples.push(input);
                            }
                        }
                    }
                    Verdict::Skip => skips += 1,
                    Verdict::Fail { kind, detail } => {
                        if known_hit(&known, p.id(), &input, &kind, &detail) {
                            known_hits += 1;
                        } else {
                            let d: String = detail.chars().take(20000).collect();
                            println!("{}", json!({"fail": {"idx": i, "kind": kind, "detail": d, "input": input}}));
                            break;
                        }
                    }
                }
                i += n_w;
            }
            let sigs: Vec<u64> = stats.sigs.iter().copied().collect();
            println!(
                "{}",
                json!({"stats": {"evals": evals, "nontrivial": nontrivial, "skips": skips,
                    "known_hits": known_hits, "counts": stats.counts, "sigs": sigs,
                    "samples": samples, "capped": capped, "w": w}})
            );
            *d2.lock().unwrap() = Some(());
        })
        .unwrap();

    let mut last = (u64::MAX, Instant::now());
    loop {
        if handle.is_finished() {
            let ok = handle.join().is_ok();
            return if ok { 0 } else { 4 };
        }
        let t = ticks.load(Ordering::SeqCst);
        if t != last.0 {
            last = (t, Instant::now());
        } else if last.1.elapsed().as_secs() >= HANG_S && done.lock().unwrap().is_none() {
            println!("{}", json!({"hang": cur.load(Ordering::SeqCst)}));
            return 3;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Runs `f` on a thread with the property's stack; its value, or None after `limit`.
fn on_thread<T: Send + 'static>(
    stack: usize,
    limit: Duration,
    f: impl FnOnce() -> T + Send + 'static,
) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let _ = tx.send(f());
        })
        .unwrap();
    rx.recv_timeout(limit).ok()
}

/// `one` mode: evaluates a single input; prints the verdict as JSON.
pub fn one(p: &'static dyn Prop, input: Value, limit: u64) -> i32 {
    install_hook();
    let r = on_thread(p.stack(), Duration::from_secs(limit), move || {
        let mut st = Stats::default();
        eval(p, &input, &mut st)
    });
    match r {
        None => {
            println!("{}", json!({"kind": "hang", "detail": format!("no result after {limit} s")}));
            3
        }
        Some(Verdict::Fail { kind, detail }) => {
            println!("{}", json!({"kind": kind, "detail": detail}));
            1
        }
        Some(Verdict::Skip) => {
            println!("{}", json!({"kind": "skip"}));
            0
        }
        Some(Verdict::Ok(_)) => {
            println!("{}", json!({"kind": "ok"}));
            0
        }
    }
}

fn run_one(pid: &str, input: &Value, limit: u64) -> (String, String) {
    let dir = scratch();
    let path = format!("{dir}/one-{}.json", std::process::id());
    std::fs::write(&path, input.to_string()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["one", pid, &path, &limit.to_string()])
        .stderr(Stdio::null())
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&out.stdout);
    for line in text.lines() {
        if let Ok(v) = serde_json::from_str::<Value>(line) {
            if let Some(k) = v["kind"].as_str() {
                return (k.into(), v["detail"].as_str().unwrap_or("").into());
            }
        }
    }
    (
        "abort".into(),
        format!("the process ended abnormally ({})", out.status),
    )
}

fn scratch() -> String {
    let d = format!("{}/target/mon", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    d
}

// Shrinking

#[derive(Clone)]
enum Step {
    Key(String),
    Idx(usize),
}

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                here.push(Step::Key(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a Value, p: &[Step]) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &v[k.as_str()],
        Step::Idx(i) => &v[*i],
    })
}

fn with(v: &Value, p: &[Step], x: Value) -> Value {
    let mut out = v.clone();
    let mut cur = &mut out;
    for s in p {
        cur = match s {
            Step::Key(k) => &mut cur[k.as_str()],
            Step::Idx(i) => &mut cur[*i],
        };
    }
    *cur = x;
    out
}

fn variants(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) if !a.is_empty() => {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut s = 0;
                while s < n {
                    let mut b = a.clone();
                    b.drain(s..(s + size).min(n));
                    out.push(Value::Array(b));
                    s += size;
                }
                size /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                if let Value::Object(m) = x {
                    for y in m.values() {
                        if let Value::Array(c) = y {
                            let mut b = a.clone();
                            b.splice(i..i + 1, c.iter().cloned());
                            out.push(Value::Array(b));
                        }
                    }
                }
            }
        }
        Value::String(s) if !s.is_empty() => {
            let cs: Vec<char> = s.chars().collect();
            let n = cs.len();
            let mut size = n;
            while size >= 1 {
                let mut st = 0;
                while st < n {
                    let mut b = cs.clone();
                    b.drain(st..(st + size).min(n));
                    out.push(Value::String(b.into_iter().collect()));
                    st += size;
                }
                if out.len() > 3000 {
                    break;
                }
                size /= 2;
            }
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                if u > 0 {
                    out.push(json!(0));
                    out.push(json!(u / 2));
                    out.push(json!(u - 1));
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
    out
}

fn shrink(p: &'static dyn Prop, input: &Value, kind: &str, limit: Duration) -> Value {
    let t0 = Instant::now();
    let external = kind == "abort" || kind == "hang";
    let still = |v: &Value| -> bool {
        if external {
            return run_one(p.id(), v, 5).0 == kind;
        }
        let v2 = v.clone();
        let r = on_thread(p.stack(), Duration::from_secs(5), move || {
            let mut st = Stats::default();
            eval(p, &v2, &mut st)
        });
        matches!(r, Some(Verdict::Fail { kind: k, .. }) if k == kind)
    };
    let mut best = input.clone();
    'outer: loop {
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for path in ps {
            for x in variants(at(&best, &path)) {
                if t0.elapsed() > limit {
                    break 'outer;
                }
                let cand = with(&best, &path, x);
                if still(&cand) {
                    best = cand;
                    continue 'outer;
                }
            }
        }
        break;
    }
    best
}

pub fn shrink_cmd(p: &'static dyn Prop, input: Value, kind: &str, limit: u64) -> i32 {
    install_hook();
    let out = shrink(p, &input, kind, Duration::from_secs(limit));
    println!("{}", json!({ "shrunk": out }));
    0
}

// Parent

struct WorkerOut {
    fails: Vec<Value>,
    stats: Vec<Value>,
    hangs: Vec<u64>,
    aborts: Vec<u64>,
    errors: Vec<String>,
}

pub fn check(p: &'static dyn Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let pid = p.id();
    let dir = verif_dir();
    let n_w: u64 = std::env::var("FTML_MON_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let mul: f64 = std::env::var("FTML_MON_MUL")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 2.0 } else { 1.0 });
    let fixed_n = p.fixed().len() as u64;
    let total = ((p.cases(tier) as f64) * mul) as u64 + fixed_n;
    let cap = (p.time_cap(tier) as f64 * mul.max(1.0)) as u64;
    let known = load_known();
    let seed_s = seed.to_string();
    let out = Mutex::new(WorkerOut {
        fails: vec![],
        stats: vec![],
        hangs: vec![],
        aborts: vec![],
        errors: vec![],
    });
    let sdir = scratch();

    std::thread::scope(|sc| {
        for w in 0..n_w {
            let (out, sdir, seed_s) = (&out, &sdir, &seed_s);
            sc.spawn(move || {
                let mut start = w;
                let begun = Instant::now();
                for _attempt in 0..4 {
                    let used = begun.elapsed().as_secs();
                    if used >= cap || start >= total {
                        break;
                    }
                    let status = format!("{sdir}/status-{}-{w}", std::process::id());
                    std::fs::write(&status, u64::MAX.to_le_bytes()).unwrap();
                    let mut child = Command::new(std::env::current_exe().unwrap())
                        .args([
                            "worker",
                            pid,
                            seed_s,
                            tier.name(),
                            &w.to_string(),
                            &n_w.to_string(),
                            &start.to_string(),
                            &total.to_string(),
                            &(cap - used).to_string(),
                        ])
                        .env("FTML_MON_STATUS", &status)
                        .stdout(Stdio::piped())
                        .stderr(Stdio::piped())
                        .spawn()
                        .unwrap();
                    let mut stderr = child.stderr.take().unwrap();
                    let errs = std::thread::spawn(move || {
                        let mut s = Vec::new();
                        let _ = stderr.read_to_end(&mut s);
                        String::from_utf8_lossy(&s).into_owned()
                    });
                    let mut hang = None;
                    let mut finished = false;
                    for line in BufReader::new(child.stdout.take().unwrap()).lines() {
                        let Ok(line) = line else { break };
                        let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
                        let mut o = out.lock().unwrap();
                        if let Some(f) = v.get("fail") {
                            o.fails.push(f.clone());
                        } else if let Some(s) = v.get("stats") {
                            o.stats.push(s.clone());
                            finished = true;
                        } else if let Some(h) = v.get("hang") {
                            hang = h.as_u64();
                        } else if v.get("generror").is_some() {
                            o.errors.push(line.clone());
                        }
                    }
                    let st = child.wait().unwrap();
                    let errs = errs.join().unwrap_or_default();
                    let last = std::fs::read(&status)
                        .ok()
                        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
                    let _ = std::fs::remove_file(&status);
                    if let Some(h) = hang {
                        out.lock().unwrap().hangs.push(h);
                        start = h + n_w;
                    } else if !st.success() && !finished {
                        match last {
                            Some(i) if i != u64::MAX => {
                                out.lock().unwrap().aborts.push(i);
                                start = i + n_w;
                            }
                            _ => {
                                out.lock()
                                    .unwrap()
                                    .errors
                                    .push(format!("worker failed to start: {st} {errs}"));
                                break;
                            }
                        }
                    } else {
                        break;
                    }
                }
            });
        }
    });
    let o = out.into_inner().unwrap();

    // Merge what was observed.
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut nontrivial, mut skips, mut known_hits) = (0, 0, 0, 0);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut capped = false;
    for s in &o.stats {
        evals += s["evals"].as_u64().unwrap_or(0);
        nontrivial += s["nontrivial"].as_u64().unwrap_or(0);
        skips += s["skips"].as_u64().unwrap_or(0);
        known_hits += s["known_hits"].as_u64().unwrap_or(0);
        capped |= s["capped"].as_bool().unwrap_or(false);
        for (k, v) in s["counts"].as_object().into_iter().flatten() {
            *counts.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
        for x in s["sigs"].as_array().into_iter().flatten() {
            sigs.insert(x.as_u64().unwrap_or(0));
        }
        for x in s["samples"].as_array().into_iter().flatten() {
            if samples.len() < 4 {
                samples.push(x.clone());
            }
        }
    }

    // Decide.
    let fixed = p.fixed();
    let mut violations: Vec<(Value, String, String)> = vec![];
    let mut fails = o.fails.clone();
    fails.sort_by_key(|f| f["idx"].as_u64().unwrap_or(0));
    for f in &fails {
        violations.push((
            f["input"].clone(),
            f["kind"].as_str().unwrap_or("").into(),
            f["detail"].as_str().unwrap_or("").into(),
        ));
    }
    let mut inconclusive = vec![];
    for &i in &o.aborts {
        let input = case_input(p, &fixed, seed, tier, i);
        let (kind, detail) = run_one(pid, &input, 60);
        if kind == "abort" {
            violations.push((input, kind, detail));
        } else {
            inconclusive.push(format!("case {i}: the worker ended but the case alone gives {kind}"));
        }
    }
    for &i in &o.hangs {
        let input = case_input(p, &fixed, seed, tier, i);
        let is_known = known
            .iter()
            .any(|k| k.property == pid && k.input.as_ref() == Some(&input));
        if p.hang_is_violation() && !is_known && violations.is_empty() {
            let (kind, detail) = run_one(pid, &input, 60);
            if kind == "hang" || kind == "abort" {
                violations.push((input, kind, detail));
                continue;
            }
        }
        inconclusive.push(format!("case {i}: no result after {HANG_S} s"));
    }

    // Known findings of this property are shown by their own input.
    for k in known.iter().filter(|k| k.property == pid) {
        if let Some(input) = &k.input {
            let (kind, _) = run_one(pid, input, 10);
            match kind.as_str() {
                "ok" | "skip" => println!("note: property={pid} known finding does not occur any more: {}", k.what),
                _ => println!("KNOWN-FINDING: property={pid} {}", k.what),
            }
        } else {
            println!("KNOWN-FINDING: property={pid} {}", k.what);
        }
    }

    let mut shown = vec![];
    if let Some((input, kind, detail)) = violations.first() {
        let path = format!("{sdir}/shrink-{}.json", std::process::id());
        std::fs::write(&path, input.to_string()).unwrap();
        let limit = if tier == Tier::Quick { 15 } else { 60 };
        let small = Command::new(std::env::current_exe().unwrap())
            .args(["shrink", pid, &path, kind, &limit.to_string()])
            .stderr(Stdio::null())
            .output()
            .ok()
            .and_then(|o| {
                String::from_utf8_lossy(&o.stdout)
                    .lines()
                    .find_map(|l| serde_json::from_str::<Value>(l).ok())
            })
            .and_then(|v| v.get("shrunk").cloned())
            .unwrap_or_else(|| input.clone());
        let (k2, d2) = run_one(pid, &small, 30);
        let rdir = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rp = format!("{rdir}/{pid}-{seed}.json");
        let doc = json!({"property": pid, "seed": seed, "tier": tier.name(), "kind": k2,
            "detail": d2, "input": small, "original": {"input": input, "kind": kind, "detail": detail}});
        std::fs::write(&rp, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("kind: {k2}");
        println!("input: {small}");
        println!("detail: {}", d2.chars().take(6000).collect::<String>());
        println!("VIOLATION property={pid} replay={rp}");
        shown.push(json!({"kind": k2, "input": small}));
    }
    for i in &inconclusive {
        println!("inconclusive: {i}");
    }
    for e in &o.errors {
        println!("error: {e}");
    }

    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": pid, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": sigs.len(), "rule": p.rule(),
            "samples": if samples.is_empty() { fixed.into_iter().take(2).collect::<Vec<_>>() } else { samples },
            "nontrivial_evaluations": nontrivial, "skipped": skips, "fixed_inputs": fixed_n,
            "observed": counts, "known_finding_hits": known_hits,
            "stopped_by_time": capped, "inconclusive": inconclusive, "workers": n_w
        },
        "assumptions": p.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": shown.len(),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(
        format!("{dir}/evidence/{pid}.json"),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{pid}: {evals} evaluations, {} distinct non-trivial, {skips} skipped, {} inconclusive, {wall:.1} s{}",
        sigs.len(),
        inconclusive.len(),
        if capped { " (time cap)" } else { "" }
    );
    if !violations.is_empty() {
        1
    } else if !o.errors.is_empty() || evals == 0 {
        2
    } else {
        0
    }
}
