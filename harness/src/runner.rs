//! Driver: fixed-work generation over worker processes, shrinking, replay files, evidence.
use crate::case::{self, Case};
use crate::common::{hash64, Outcome, Violation};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config as PConfig, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const SHRINK_ITERS: usize = 4000;
const SHRINK_TIME: Duration = Duration::from_secs(90);

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("YV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let second = PANIC.with(|p| p.borrow().is_some());
        if verbose || second || std::env::var("YV_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}");
            if std::env::var("YV_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg))
            }
        });
    }));
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Classify a caught panic of the code under test.
pub fn panic_violation(loc: &str, msg: &str) -> Violation {
    if msg.starts_with("LIVELOCK") {
        return Violation { tag: "livelock", props: "*".into(), msg: msg.into() };
    }
    if msg.starts_with("deadlock: mutex") {
        return Violation { tag: "self-deadlock", props: "*".into(), msg: format!("{msg} ({loc})") };
    }
    if loc.starts_with("src/") {
        // The code under test did something the oracle takes for impossible (a count that goes below zero, a second
        // answer to one probe), so that its books no longer balance.
        return Violation { tag: "oracle.impossible", props: "*".into(), msg: format!("the observations contradict each other: {msg} ({loc})") };
    }
    Violation { tag: "panic", props: "*".into(), msg: format!("panic at {loc}: {msg}") }
}

/// Formats everything and drops it: what a user sees who turns all log messages on.
struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        // bodies of frames are logged byte by byte: enough is enough
        struct Short(u32);
        impl std::fmt::Write for Short {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += 1;
                if self.0 > 400 {
                    return Err(std::fmt::Error);
                }
                Null.write_str(s)
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Short(0), *r.args());
    }
    fn flush(&self) {}
}

/// With all log messages formatted, or none. Every sixteenth case runs with them.
fn set_logging(on: bool) {
    let _ = log::set_logger(&NullLog);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
fn logging() -> bool {
    log::max_level() != log::LevelFilter::Off
}
fn logged(idx: u64) -> bool {
    idx / WORKERS as u64 % 16 == 7
}

/// Run one case with panics of the code under test turned into violations.
pub fn run_case(c: &Case, trace: bool) -> Outcome {
    let _ = take_panic();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case::run(c, trace)));
    match r {
        Ok(o) => {
            if let Some((loc, msg)) = take_panic() {
                // a panic swallowed on the way (worker threads report their own)
                let mut o = o;
                let v = panic_violation(&loc, &msg);
                o.viol.push(v);
                return o;
            }
            o
        }
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            let mut o = Outcome::default();
            o.viol.push(panic_violation(&loc, &msg));
            o
        }
    }
}

fn hit<'a>(o: &'a Outcome, prop: &str) -> Option<&'a Violation> {
    o.viol.iter().find(|v| v.is_for(prop))
}

fn tree(prop: &str, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = Case>> {
    let strat = case::strategy(prop, idx);
    let mut s = [0u8; 32];
    for k in 0..4u64 {
        let h = hash64(format!("{prop}/{seed}/{idx}/{k}").as_bytes());
        s[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    let mut runner =
        TestRunner::new_with_rng(PConfig { failure_persistence: None, ..PConfig::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    strat.new_tree(&mut runner).expect("strategy without filters")
}

fn shrink(mut t: Box<dyn ValueTree<Value = Case>>, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let start = Instant::now();
    let mut best = t.current();
    let mut n = 0;
    if !t.simplify() {
        return best;
    }
    loop {
        n += 1;
        if n > SHRINK_ITERS || start.elapsed() > SHRINK_TIME {
            return best;
        }
        let c = t.current();
        let more = if fails(&c) {
            best = c;
            t.simplify()
        } else {
            t.complicate()
        };
        if !more {
            return best;
        }
    }
}

fn replay_path(prop: &str) -> PathBuf {
    verif().join("evidence").join(format!("replay-{prop}.json"))
}

fn worker_replay_path(prop: &str, w: usize) -> PathBuf {
    verif().join("evidence").join(format!(".replay-{prop}-{w}.json"))
}

fn write_replay(p: PathBuf, prop: &str, seed: u64, idx: i64, c: &Case, v: &Violation) -> PathBuf {
    let o = json!({"property": prop, "tag": v.tag, "message": v.msg, "seed": seed, "index": idx, "log": logging(), "case": c});
    std::fs::write(&p, serde_json::to_vec_pretty(&o).unwrap()).unwrap();
    p
}

fn progress_path(prop: &str, w: usize) -> PathBuf {
    verif().join("evidence").join(format!(".progress-{prop}-{w}"))
}
fn result_path(prop: &str, w: usize) -> PathBuf {
    verif().join("evidence").join(format!(".result-{prop}-{w}"))
}
fn hashes_path(prop: &str, w: usize) -> PathBuf {
    verif().join("evidence").join(format!(".hashes-{prop}-{w}"))
}

/// Worker process: indices w, w+WORKERS, ... below n.
pub fn worker(prop: &str, w: usize, n: u64, seed: u64) -> i32 {
    install_hook(false);
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(progress_path(prop, w)).unwrap();
    let need = case::nontrivial_labels(prop);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut failed: Option<Value> = None;
    let mut idx = w as u64;
    while idx < n {
        prog.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let t = tree(prop, seed, idx);
        let c = t.current();
        set_logging(logged(idx));
        let o = run_case(&c, false);
        evals += 1;
        for l in &o.labels {
            *labels.entry(l).or_default() += 1;
        }
        if let Some(v) = hit(&o, prop) {
            let tag = v.tag;
            // marker so that an abort while shrinking still leaves the finding
            write_replay(worker_replay_path(prop, w), prop, seed, idx as i64, &c, v);
            let best = shrink(t, |c| run_case(c, false).viol.iter().any(|x| x.tag == tag && x.is_for(prop)));
            let o2 = run_case(&best, false);
            let v2 = o2.viol.iter().find(|x| x.tag == tag && x.is_for(prop)).cloned();
            failed = Some(json!({"tag": tag, "msg": v2.as_ref().unwrap_or(v).msg, "index": idx}));
            if let Some(v2) = v2 {
                write_replay(worker_replay_path(prop, w), prop, seed, idx as i64, &best, &v2);
            }
            break;
        }
        if o.labels.iter().any(|l| need.contains(l)) {
            let j = serde_json::to_vec(&c).unwrap();
            if hashes.insert(hash64(&j)) && samples.len() < 2 && j.len() < 1500 {
                samples.push(json!({"index": idx, "labels": o.labels, "case": c}));
            }
        }
        idx += WORKERS as u64;
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(hashes_path(prop, w), hb).unwrap();
    let r = json!({"evals": evals, "labels": labels, "samples": samples, "failed": failed});
    // renamed into place: this process may be killed at any time
    let part = result_path(prop, w).with_extension("part");
    std::fs::write(&part, serde_json::to_vec(&r).unwrap()).unwrap();
    std::fs::rename(&part, result_path(prop, w)).unwrap();
    if failed.is_some() {
        1
    } else {
        0
    }
}

fn self_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// No generated case comes near this much time.
const HANG: Duration = Duration::from_secs(60);

enum Sub {
    Pass,
    Fail(String, String),
    Hang,
}

/// Run a case in a subprocess: Some(tag,msg) when it fails for `prop`.
fn run_sub(c: &Case, prop: &str, tmp: &Path) -> Option<(String, String)> {
    match run_sub_limit(c, prop, tmp, HANG) {
        Sub::Pass => None,
        Sub::Fail(t, m) => Some((t, m)),
        Sub::Hang => Some(("hang".into(), format!("no return from the code under test within {} s", HANG.as_secs()))),
    }
}

fn run_sub_limit(c: &Case, prop: &str, tmp: &Path, limit: Duration) -> Sub {
    std::fs::write(tmp, serde_json::to_vec(&json!({ "case": c, "log": logging() })).unwrap()).unwrap();
    let mut ch = Command::new(self_exe())
        .args(["one", prop, tmp.to_str().unwrap()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                let mut out = String::new();
                ch.stdout.take().unwrap().read_to_string(&mut out).ok();
                let mut err = String::new();
                ch.stderr.take().unwrap().read_to_string(&mut err).ok();
                if st.signal() == Some(6) || st.signal() == Some(11) {
                    return Sub::Fail("abort".into(), format!("process aborted: {}", err.trim()));
                }
                if st.code() == Some(1) {
                    return Sub::Fail("violation".into(), out);
                }
                return Sub::Pass;
            }
            None => {
                if start.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Sub::Hang;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
}

/// `yv one PROP FILE`: exit 1 if the case fails for PROP.
pub fn one(prop: &str, file: &str) -> i32 {
    install_hook(false);
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
    set_logging(v["log"] == true);
    let o = run_case(&c, false);
    match hit(&o, prop) {
        Some(v) => {
            println!("{} {}", v.tag, v.msg);
            1
        }
        None => 0,
    }
}

/// `yv replay FILE`: run with a trace and print everything.
pub fn replay(file: &str) -> i32 {
    install_hook(true);
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
    println!("{c:?}");
    set_logging(v["log"] == true);
    let o = run_case(&c, true);
    for l in &o.trace {
        println!("  {l}");
    }
    println!("labels: {:?}", o.labels);
    for v in &o.viol {
        println!("VIOLATED [{}] {}: {}", v.props, v.tag, v.msg);
    }
    (!o.viol.is_empty()) as i32
}

/// Known findings: `{"findings":[{"property","tag","case_file","what"}], "fixed":[..]}`.
fn known() -> Vec<Value> {
    let p = verif().join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => {
            let v: Value = serde_json::from_slice(&b).expect("known_findings.json");
            v["findings"].as_array().cloned().unwrap_or_default()
        }
        Err(_) => vec![],
    }
}

fn cleanup(prop: &str) {
    for w in 0..WORKERS {
        let _ = std::fs::remove_file(progress_path(prop, w));
        let _ = std::fs::remove_file(result_path(prop, w));
        let _ = std::fs::remove_file(result_path(prop, w).with_extension("part"));
        let _ = std::fs::remove_file(hashes_path(prop, w));
        let _ = std::fs::remove_file(worker_replay_path(prop, w));
    }
}

pub fn check(prop: &str) -> i32 {
    install_hook(false);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let Some(n) = case::cases(prop, tier) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let n = std::env::var("YV_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    std::fs::create_dir_all(verif().join("evidence")).unwrap();
    let _ = std::fs::remove_file(replay_path(prop));
    cleanup(prop);
    let tmp = verif().join("evidence").join(format!(".case-{prop}.json"));
    let mut found: Option<(PathBuf, String)> = None;

    // 1. known findings: reported, never a violation by themselves
    for k in known() {
        if k["property"] != prop {
            continue;
        }
        let f = verif().join(k["case_file"].as_str().unwrap());
        let v: Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
        let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
        let o = run_case(&c, false);
        let tag = k["tag"].as_str().unwrap();
        if o.viol.iter().any(|v| v.tag == tag) {
            println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap());
        }
        if let Some(v) = o.viol.iter().find(|v| v.tag != tag && v.is_for(prop)) {
            found = Some((write_replay(replay_path(prop), prop, seed, -1, &c, v), format!("{} {}", v.tag, v.msg)));
        }
    }

    // 2. regression inputs
    let mut regress = 0;
    let mut files: Vec<PathBuf> = std::fs::read_dir(verif().join("regress"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    for f in &files {
        if found.is_some() {
            break;
        }
        let v: Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
        let c: Case = match serde_json::from_value(v["case"].clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("bad regression file {f:?}: {e}");
                return 2;
            }
        };
        regress += 1;
        // in a subprocess: an abort must not take the check down
        set_logging(v["log"] == true);
        if let Some((tag, msg)) = run_sub(&c, prop, &tmp) {
            let v = Violation { tag: "regression", props: "*".into(), msg: format!("{}: {tag} {}", f.display(), msg.trim()) };
            found = Some((write_replay(replay_path(prop), prop, seed, -1, &c, &v), v.msg.clone()));
        }
    }

    // 3. generated search
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut error: Option<String> = None;
    if found.is_none() {
        let mut kids: Vec<_> = (0..WORKERS)
            .map(|w| {
                let ch = Command::new(self_exe())
                    .args(["worker", prop, &w.to_string(), &n.to_string(), &seed.to_string()])
                    .stdout(Stdio::null())
                    .stderr(std::fs::File::create(verif().join("evidence").join(format!(".stderr-{prop}-{w}"))).unwrap())
                    .spawn()
                    .unwrap();
                (w, ch, false, u64::MAX, Instant::now())
            })
            .collect();
        let mut aborted: Option<(usize, u64, String)> = None;
        let mut hung: Option<(usize, u64)> = None;
        loop {
            let mut running = 0;
            for (w, ch, done, last, since) in kids.iter_mut() {
                if *done {
                    continue;
                }
                let idx = std::fs::read(progress_path(prop, *w))
                    .ok()
                    .filter(|b| b.len() == 8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .unwrap_or(u64::MAX);
                match ch.try_wait().unwrap() {
                    None => {
                        running += 1;
                        if idx != *last {
                            *last = idx;
                            *since = Instant::now();
                        } else if since.elapsed() > HANG && idx != u64::MAX {
                            hung = Some((*w, idx));
                        } else if since.elapsed() > 4 * HANG {
                            error = Some(format!("worker {w} did not start"));
                        }
                    }
                    Some(st) => {
                        *done = true;
                        let err = std::fs::read_to_string(verif().join("evidence").join(format!(".stderr-{prop}-{w}"))).unwrap_or_default();
                        match (st.code(), st.signal()) {
                            (Some(0), _) => {}
                            (Some(1), _) => {}
                            (_, Some(6)) | (_, Some(11)) => aborted = Some((*w, idx, err)),
                            other => error = Some(format!("worker {w} ended with {other:?} at case {idx}: {err}")),
                        }
                        if let Ok(b) = std::fs::read(result_path(prop, *w)) {
                            let r: Value = serde_json::from_slice(&b).unwrap();
                            if !r["failed"].is_null() && found.is_none() {
                                std::fs::copy(worker_replay_path(prop, *w), replay_path(prop)).unwrap();
                                found = Some((replay_path(prop), format!("{} {}", r["failed"]["tag"].as_str().unwrap(), r["failed"]["msg"].as_str().unwrap())));
                            }
                        }
                    }
                }
            }
            if running == 0 || found.is_some() || aborted.is_some() || hung.is_some() || error.is_some() {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for (_, ch, done, _, _) in kids.iter_mut() {
            if !*done {
                let _ = ch.kill();
                let _ = ch.wait();
            }
        }
        for w in 0..WORKERS {
            if let Ok(b) = std::fs::read(result_path(prop, w)) {
                let r: Value = serde_json::from_slice(&b).unwrap();
                evals += r["evals"].as_u64().unwrap();
                for (k, x) in r["labels"].as_object().unwrap() {
                    *labels.entry(k.clone()).or_default() += x.as_u64().unwrap();
                }
                samples.extend(r["samples"].as_array().unwrap().iter().cloned());
                let hb = std::fs::read(hashes_path(prop, w)).unwrap_or_default();
                distinct.extend(hb.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            let _ = std::fs::remove_file(verif().join("evidence").join(format!(".stderr-{prop}-{w}")));
        }
        if found.is_none() {
            if let Some((w, idx)) = hung {
                // An ordinary case takes milliseconds. Confirm with the other
                // workers out of the way, then shrink with a shorter limit.
                evals += 1;
                let t = tree(prop, seed, idx);
                set_logging(logged(idx));
                let c = t.current();
                let fails = |c: &Case, l| match run_sub_limit(c, prop, &tmp, l) {
                    Sub::Pass => None,
                    Sub::Fail(_, m) => Some(m),
                    Sub::Hang => Some(String::new()),
                };
                if let Some(m) = fails(&c, HANG * 2) {
                    // what is told as a failure after a long time may also be cut short as a hang
                    let best = shrink(t, |c| fails(c, Duration::from_secs(5)).is_some());
                    let (best, m) = match fails(&best, HANG) {
                        Some(m) => (best, m),
                        None => (c, m),
                    };
                    let v = if m.is_empty() {
                        Violation { tag: "hang", props: "*".into(), msg: format!("no return from the code under test within {} s", HANG.as_secs()) }
                    } else {
                        Violation { tag: "late", props: "*".into(), msg: m }
                    };
                    found = Some((write_replay(replay_path(prop), prop, seed, idx as i64, &best, &v), v.msg.clone()));
                } else {
                    error = Some(format!("worker {w} made no progress on case {idx} for {} s (not reproduced)", HANG.as_secs()));
                }
            }
            if let Some((w, idx, err)) = aborted {
                error = None;
                if idx == u64::MAX {
                    error = Some(format!("worker {w} aborted before its first case: {err}"));
                } else {
                    evals += 1;
                    let t = tree(prop, seed, idx);
                    set_logging(logged(idx));
                    let c = t.current();
                    let mut msg = format!("process aborted: {}", err.trim());
                    let best = match run_sub(&c, prop, &tmp) {
                        Some(_) => {
                            let b = shrink(t, |c| run_sub(c, prop, &tmp).is_some());
                            if let Some((_, m)) = run_sub(&b, prop, &tmp) {
                                msg = m;
                            }
                            b
                        }
                        None => c,
                    };
                    let v = Violation { tag: "abort", props: "*".into(), msg: msg.clone() };
                    found = Some((write_replay(replay_path(prop), prop, seed, idx as i64, &best, &v), msg));
                }
            }
        }
    }
    let _ = std::fs::remove_file(&tmp);
    cleanup(prop);
    samples.sort_by_key(|s| s.to_string().len());
    samples.truncate(4);
    if samples.is_empty() {
        samples.push(json!({"index": 0, "case": tree(prop, seed, 0).current()}));
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": case::rule(prop),
            "samples": samples,
            "labels": labels,
            "regression_inputs": regress,
        },
        "assumptions": [
            "the transport is reliable and ordered unless a fault is injected",
            "the clock and the mutex of the code under test are the harness's stand-ins (vendor/)",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.is_some() as u32,
    });
    std::fs::write(verif().join("evidence").join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if let Some((p, msg)) = found {
        println!("{}", msg.lines().next().unwrap_or(""));
        println!("VIOLATION property={prop} replay={}", p.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {e}");
        return 2;
    }
    println!(
        "{prop}: held on {evals} generated cases ({} distinct non-trivial), {regress} regression inputs, seed {seed}, {:.1} s",
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// `yv stats PROP N`: distribution of labels (development aid).
pub fn stats(prop: &str, n: u64, seed: u64) -> i32 {
    install_hook(false);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut tags: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let t0 = Instant::now();
    for idx in 0..n {
        let c = tree(prop, seed, idx).current();
        set_logging(logged(idx));
        let o = run_case(&c, false);
        for l in o.labels {
            *labels.entry(l).or_default() += 1;
        }
        if let Some(v) = o.viol.first() {
            let e = tags.entry(format!("{} [{}] {}", v.tag, v.props, v.msg.chars().take(140).collect::<String>())).or_insert((0, idx));
            e.0 += 1;
        }
    }
    println!("{n} cases in {:.2} s", t0.elapsed().as_secs_f64());
    for (k, x) in labels {
        println!("  {k}: {x}");
    }
    let mut t: Vec<_> = tags.into_iter().collect();
    t.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (x, i)) in t.into_iter().take(25) {
        println!("  VIOL x{x} (first {i}) {k}");
    }
    0
}

/// `yv gen PROP IDX FILE`: write a generated case, shrunk for its first violation.
pub fn gen(prop: &str, idx: u64, seed: u64, file: &str, do_shrink: bool) -> i32 {
    install_hook(false);
    let t = tree(prop, seed, idx);
    let c = t.current();
    set_logging(logged(idx));
    let o = run_case(&c, false);
    let mut best = c;
    if let Some(v) = o.viol.first() {
        let tag = v.tag;
        if do_shrink {
            best = shrink(t, |c| run_case(c, false).viol.first().is_some_and(|x| x.tag == tag));
        }
    }
    std::fs::write(file, serde_json::to_vec_pretty(&json!({ "case": best })).unwrap()).unwrap();
    0
}
