//! Search engine: splits a fixed number of generated cases over worker processes, survives crashes and
//! hangs of the code under test, shrinks the first failure and writes replay and evidence files.

use crate::tape::{Src, hash_bytes, shrink, splitmix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

pub enum Stop {
    /// The case says nothing about the property (reason is counted).
    Discard(&'static str),
    Fail(Box<Failure>),
}

pub struct Failure {
    /// Root-cause signature, matched exactly against the known-findings file.
    pub sig: String,
    pub detail: String,
}

pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Stop::Fail(Box::new(Failure { sig: sig.into(), detail: detail.into() })))
}

pub fn discard<T>(why: &'static str) -> R<T> {
    Err(Stop::Discard(why))
}

/// Per-worker accumulators, handed to every case.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: Option<u64>,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub thorough: bool,
    pub seed: u64,
    /// Signatures listed as known findings for this property.
    pub known: HashSet<String>,
}

impl Cx {
    pub fn label(&mut self, l: &str) {
        self.label_n(l, 1);
    }
    pub fn label_n(&mut self, l: &str, n: u64) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += n;
        } else {
            self.labels.insert(l.to_string(), n);
        }
    }
    /// Mark the case as non-trivial, identified by `bytes` for the distinct count.
    pub fn nontrivial(&mut self, bytes: &[u8]) {
        self.nontrivial = Some(hash_bytes(bytes));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Src, &mut Cx) -> R,
    /// Probes for known findings: (signature, function returning true while it still fails).
    pub probes: &'static [(&'static str, fn() -> bool)],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("TWV_PANIC").is_some() {
            eprintln!("panic: {msg} at {loc}");
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Run code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
            });
            Err(m)
        }
    }
}

/// A stable signature for a panic message: digits removed so that it names the site, not the values.
pub fn panic_sig(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" at ").unwrap_or((m, ""));
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let mut s = String::from("panic: ");
    let mut last_digit = false;
    for c in msg.chars().take(100) {
        if c.is_ascii_digit() {
            if !last_digit {
                s.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            s.push(c);
        }
    }
    format!("{s} ({file})")
}

fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut s = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash_bytes(prop.as_bytes()) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s)
}

enum CaseEnd {
    Ok,
    Discard(&'static str),
    Fail(Failure),
    /// The harness itself panicked.
    Harness(String),
}

fn run_case(p: &Prop, src: &mut Src, cx: &mut Cx) -> CaseEnd {
    cx.nontrivial = None;
    cx.sample = None;
    match catch_unwind(AssertUnwindSafe(|| (p.case)(src, cx))) {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(Stop::Discard(w))) => CaseEnd::Discard(w),
        Ok(Err(Stop::Fail(f))) => CaseEnd::Fail(*f),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic raised by the code under test outside a guarded call is its failure, not the harness's
            if m.contains("/crates/tinywasm/") || m.contains("/crates/parser/") || m.contains("/crates/types/") {
                CaseEnd::Fail(Failure { sig: panic_sig(&m), detail: m })
            } else {
                CaseEnd::Harness(m)
            }
        }
    }
}

fn known_file() -> PathBuf {
    PathBuf::from(std::env::var("TWV_ROOT").unwrap_or_else(|_| "/verif".into())).join("known_findings.json")
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(known_file()) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json is not valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == prop)
                .map(|x| (x["signature"].as_str().unwrap_or("").to_string(), x["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().expect("harness thread died")
}

fn set_limit(res: libc::__rlimit_resource_t, soft: u64, hard: u64) {
    let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
    unsafe { libc::setrlimit(res, &l) };
}

pub const AS_LIMIT: u64 = 12 << 30;

// ---------------------------------------------------------------- worker side

pub struct WorkerArgs {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub first: u64,
    pub step: u64,
    pub total: u64,
    pub progress: PathBuf,
    pub result: PathBuf,
}

pub fn worker(props: &'static [Prop], a: WorkerArgs) -> ExitCode {
    install_panic_hook();
    set_limit(libc::RLIMIT_AS, AS_LIMIT, AS_LIMIT);
    set_limit(libc::RLIMIT_CORE, 0, 0);
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let code = on_big_stack(move || {
        let p = props.iter().find(|p| p.id == a.prop).expect("unknown property");
        let mut cx = Cx { thorough: a.tier == "thorough", seed: a.seed, known: load_known(p.id).into_iter().map(|x| x.0).collect(), ..Cx::default() };
        let mut prog = std::fs::File::create(&a.progress).unwrap();
        let mut evals = 0u64;
        let mut discards: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut idx = a.first;
        let mut out = json!(null);
        let mut code = 0u8;
        let mut max_us = (0u128, 0u64);
        use std::os::unix::fs::FileExt;
        let t_start = Instant::now();
        let budget = Duration::from_secs(if cx.thorough { 780 } else { 120 });
        while idx < a.total && t_start.elapsed() < budget {
            let _ = prog.write_at(&idx.to_le_bytes(), 0);
            cx.want_sample = samples.len() < 3 && (evals % 97 == 0);
            let mut src = Src::fresh(case_seed(a.seed, p.id, idx));
            let t0 = Instant::now();
            let end = run_case(p, &mut src, &mut cx);
            let us = t0.elapsed().as_micros();
            if us > max_us.0 {
                max_us = (us, idx);
            }
            match end {
                CaseEnd::Ok => {
                    evals += 1;
                    if let Some(h) = cx.nontrivial {
                        seen.insert(h);
                        if let Some(s) = cx.sample.take() {
                            samples.push(s);
                        }
                    }
                }
                CaseEnd::Discard(w) => {
                    *discards.entry(w).or_default() += 1;
                }
                CaseEnd::Fail(f) if cx.known.contains(&f.sig) => {
                    evals += 1;
                    *known_hits.entry(f.sig).or_default() += 1;
                }
                CaseEnd::Fail(f) => {
                    out = json!({"fail": {"idx": idx, "tape": src.tape, "sig": f.sig, "detail": f.detail}});
                    code = 10;
                    break;
                }
                CaseEnd::Harness(m) => {
                    out = json!({"harness": {"idx": idx, "msg": m}});
                    code = 11;
                    break;
                }
            }
            idx += a.step;
        }
        let _ = prog.flush();
        let mut hashes: Vec<u8> = Vec::with_capacity(seen.len() * 8);
        for h in &seen {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(a.result.with_extension("seen"), hashes).unwrap();
        let v = json!({"out": out, "evals": evals, "discards": discards, "known_hits": known_hits, "labels": cx.labels, "samples": samples,
            "slowest_case_us": max_us.0 as u64, "slowest_case": max_us.1});
        std::fs::write(&a.result, v.to_string()).unwrap();
        code
    });
    ExitCode::from(code)
}

/// Run one case (from a tape file or an index) in this process, with a CPU limit.
pub fn one(props: &'static [Prop], prop: &str, tier: &str, seed: u64, idx: Option<u64>, tape: Option<Vec<u64>>, verbose: bool) -> ExitCode {
    install_panic_hook();
    set_limit(libc::RLIMIT_AS, AS_LIMIT, AS_LIMIT);
    set_limit(libc::RLIMIT_CORE, 0, 0);
    set_limit(libc::RLIMIT_CPU, 60, 61);
    let (prop, tier) = (prop.to_string(), tier.to_string());
    let code = on_big_stack(move || {
        let p = props.iter().find(|p| p.id == prop).expect("unknown property");
        let mut cx = Cx { thorough: tier == "thorough", seed, want_sample: true, ..Cx::default() };
        let mut src = match (tape, idx) {
            (Some(t), _) => Src::replay(t),
            (None, Some(i)) => Src::fresh(case_seed(seed, p.id, i)),
            _ => panic!("no case"),
        };
        match run_case(p, &mut src, &mut cx) {
            CaseEnd::Ok => {
                if verbose {
                    println!("case passes\n{}", cx.sample.unwrap_or_default());
                }
                0
            }
            CaseEnd::Discard(w) => {
                if verbose {
                    println!("case discarded: {w}");
                }
                0
            }
            CaseEnd::Fail(f) => {
                if verbose {
                    println!("case FAILS: {}\n{}", f.sig, f.detail);
                }
                10
            }
            CaseEnd::Harness(m) => {
                println!("harness error: {m}");
                11
            }
        }
    });
    ExitCode::from(code)
}

/// Shrink a failing tape in this process; write the smallest to `out`.
pub fn shrink_cmd(props: &'static [Prop], prop: &str, tier: &str, seed: u64, infile: &Path, out: &Path, secs: u64) -> ExitCode {
    install_panic_hook();
    set_limit(libc::RLIMIT_AS, AS_LIMIT, AS_LIMIT);
    set_limit(libc::RLIMIT_CORE, 0, 0);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(infile).unwrap()).unwrap();
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let (prop, tier, out) = (prop.to_string(), tier.to_string(), out.to_path_buf());
    let code = on_big_stack(move || {
        let p = props.iter().find(|p| p.id == prop).unwrap();
        let known: HashSet<String> = load_known(p.id).into_iter().map(|x| x.0).collect();
        let mut cx = Cx { thorough: tier == "thorough", seed, known: known.clone(), ..Cx::default() };
        let run = |t: &[u64], cx: &mut Cx| -> Option<Failure> {
            let mut s = Src::replay(t.to_vec());
            match run_case(p, &mut s, cx) {
                CaseEnd::Fail(f) if !known.contains(&f.sig) => Some(f),
                _ => None,
            }
        };
        let Some(first) = run(&tape, &mut cx) else {
            return 12u8;
        };
        let save = |t: &[u64], f: &Failure| {
            let tmp = out.with_extension("tmp");
            std::fs::write(&tmp, json!({"tape": t, "sig": f.sig, "detail": f.detail}).to_string()).unwrap();
            std::fs::rename(&tmp, &out).unwrap();
        };
        save(&tape, &first);
        let t0 = Instant::now();
        let best = RefCell::new(tape.clone());
        shrink(
            tape.clone(),
            |t| match run(t, &mut cx) {
                Some(f) => {
                    save(t, &f);
                    *best.borrow_mut() = t.to_vec();
                    true
                }
                None => false,
            },
            || t0.elapsed() < Duration::from_secs(secs),
        );
        0
    });
    ExitCode::from(code)
}

// ---------------------------------------------------------------- parent side

fn scratch_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("twv-run-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Running {
    child: Child,
    w: u64,
    progress: PathBuf,
    result: PathBuf,
    last_idx: u64,
    last_change: Instant,
}

pub struct CheckArgs {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub cases: Option<u64>,
    pub root: PathBuf,
    pub jobs: u64,
    pub variant: String,
}

enum Ended {
    Ok,
    Violation { sig: String, detail: String, tape: Option<Vec<u64>>, idx: u64 },
    Error(String),
}

pub fn check(props: &'static [Prop], a: CheckArgs) -> ExitCode {
    let t_start = Instant::now();
    let Some(p) = props.iter().find(|p| p.id == a.prop) else {
        eprintln!("unknown property {}", a.prop);
        return ExitCode::from(2);
    };
    install_panic_hook();
    let total = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    let scratch = scratch_dir();
    let exe = std::env::current_exe().unwrap();
    let jobs = a.jobs.min(total.max(1));

    let spawn = |w: u64, first: u64, gen_no: u64| -> Running {
        let progress = scratch.join(format!("p{w}.{gen_no}"));
        let result = scratch.join(format!("r{w}.{gen_no}"));
        let child = Command::new(&exe)
            .args(["worker", p.id, &a.tier, &a.seed.to_string(), &first.to_string(), &jobs.to_string(), &total.to_string()])
            .arg(&progress)
            .arg(&result)
            .env("TWV_SCRATCH", &scratch)
            .stdin(Stdio::null())
            .spawn()
            .expect("cannot start worker");
        Running { child, w, progress, result, last_idx: u64::MAX, last_change: Instant::now() }
    };

    let mut running: Vec<Running> = (0..jobs).map(|w| spawn(w, w, 0)).collect();
    let mut results: Vec<PathBuf> = vec![];
    let mut gen_no = 0;
    let mut ended = Ended::Ok;
    let mut crashes_unconfirmed = 0;

    'outer: while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let idx = std::fs::read(&r.progress).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
            if let Some(x) = idx
                && x != r.last_idx
            {
                r.last_idx = x;
                r.last_change = Instant::now();
            }
            let mut dead: Option<String> = None;
            match r.child.try_wait().unwrap() {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    match (st.code(), st.signal()) {
                        (Some(0), _) => {
                            results.push(r.result.clone());
                            running.remove(i);
                            continue;
                        }
                        (Some(10), _) => {
                            let v: Value = serde_json::from_str(&std::fs::read_to_string(&r.result).unwrap()).unwrap();
                            let f = &v["out"]["fail"];
                            let this = (
                                f["idx"].as_u64().unwrap(),
                                f["sig"].as_str().unwrap().to_string(),
                                f["detail"].as_str().unwrap().to_string(),
                                f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>(),
                            );
                            results.push(r.result.clone());
                            running.remove(i);
                            ended = Ended::Violation { sig: this.1, detail: this.2, tape: Some(this.3), idx: this.0 };
                            break 'outer;
                        }
                        (Some(11), _) => {
                            let v: Value = serde_json::from_str(&std::fs::read_to_string(&r.result).unwrap()).unwrap();
                            ended = Ended::Error(format!("harness error in case {}: {}", v["out"]["harness"]["idx"], v["out"]["harness"]["msg"]));
                            break 'outer;
                        }
                        (c, s) => dead = Some(format!("process died (exit {c:?}, signal {s:?})")),
                    }
                }
                None => {
                    if r.last_change.elapsed() > Duration::from_secs(45) {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        dead = Some("no progress for 45 s".into());
                    }
                }
            }
            if let Some(why) = dead {
                let (w, idx) = (r.w, r.last_idx);
                running.remove(i);
                if idx == u64::MAX {
                    ended = Ended::Error(format!("worker died before its first case: {why}"));
                    break 'outer;
                }
                // confirm in a fresh process, with a CPU limit
                let out = Command::new(&exe)
                    .args(["one", p.id, &a.tier, &a.seed.to_string(), &idx.to_string()])
                    .stdin(Stdio::null())
                    .output()
                    .expect("cannot start confirmation");
                use std::os::unix::process::ExitStatusExt;
                match (out.status.code(), out.status.signal()) {
                    (_, Some(s)) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGILL || s == libc::SIGBUS || s == libc::SIGTRAP => {
                        ended = Ended::Violation {
                            sig: format!("abort: signal {s}"),
                            detail: format!("case {idx} kills the process with signal {s}: {}", String::from_utf8_lossy(&out.stderr)),
                            tape: None,
                            idx,
                        };
                        break 'outer;
                    }
                    (_, Some(s)) if s == libc::SIGXCPU => {
                        ended = Ended::Violation {
                            sig: "hang".into(),
                            detail: format!("case {idx} does not end within 60 s of CPU time (cases normally take milliseconds)"),
                            tape: None,
                            idx,
                        };
                        break 'outer;
                    }
                    (c, s) => {
                        crashes_unconfirmed += 1;
                        eprintln!("note: worker {w} stopped in case {idx} ({why}); alone the case ends with {c:?}/{s:?}");
                        if crashes_unconfirmed > 8 {
                            ended = Ended::Error("workers keep dying without a reproducible case".into());
                            break 'outer;
                        }
                        gen_no += 1;
                        // re-run this and the remaining cases of the stripe
                        let first = if c == Some(10) { idx } else { idx + jobs };
                        let nr = spawn(w, first, gen_no);
                        running.push(nr);
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    for r in &mut running {
        let _ = r.child.kill();
        let _ = r.child.wait();
        results.push(r.result.clone());
    }

    // merge
    let mut evals = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut discards: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut slowest = 0;
    for f in &results {
        let Ok(s) = std::fs::read_to_string(f) else {
            continue;
        };
        let v: Value = serde_json::from_str(&s).unwrap();
        evals += v["evals"].as_u64().unwrap_or(0);
        slowest = slowest.max(v["slowest_case_us"].as_u64().unwrap_or(0));
        for (name, map) in [("labels", &mut labels), ("discards", &mut discards), ("known_hits", &mut known_hits)] {
            if let Some(o) = v[name].as_object() {
                for (k, n) in o {
                    *map.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                }
            }
        }
        if let Some(a) = v["samples"].as_array() {
            for s in a {
                if samples.len() < 4 {
                    samples.push(s.as_str().unwrap_or("").chars().take(3000).collect());
                }
            }
        }
        if let Ok(b) = std::fs::read(f.with_extension("seen")) {
            for c in b.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }

    let mut code = 0u8;
    let mut violations = 0;
    match ended {
        Ended::Ok => {}
        Ended::Error(m) => {
            eprintln!("ERROR: {m}");
            code = 3;
        }
        Ended::Violation { sig, detail, tape, idx } => {
            violations = 1;
            let replays = a.root.join("replays");
            std::fs::create_dir_all(&replays).unwrap();
            let (mut tape, mut sig, mut detail) = (tape, sig, detail);
            if let Some(t) = &tape {
                let inp = scratch.join("fail.json");
                let outp = scratch.join("shrunk.json");
                std::fs::write(&inp, json!({"tape": t}).to_string()).unwrap();
                let secs = if a.tier == "thorough" { 120 } else { 25 };
                let mut c = Command::new(&exe)
                    .args(["shrink", p.id, &a.tier, &a.seed.to_string()])
                    .arg(&inp)
                    .arg(&outp)
                    .arg(secs.to_string())
                    .stdin(Stdio::null())
                    .spawn()
                    .unwrap();
                let t0 = Instant::now();
                while c.try_wait().unwrap().is_none() {
                    if t0.elapsed() > Duration::from_secs(secs + 30) {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                if let Ok(s) = std::fs::read_to_string(&outp) {
                    let v: Value = serde_json::from_str(&s).unwrap();
                    tape = Some(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
                    sig = v["sig"].as_str().unwrap().into();
                    detail = v["detail"].as_str().unwrap().into();
                }
            }
            let h = hash_bytes(format!("{sig}{:?}{idx}", tape).as_bytes());
            let path = replays.join(format!("{}{}-{:016x}.json", p.id, a.variant, h));
            std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": p.id, "variant": a.variant, "tier": a.tier, "seed": a.seed, "case": idx, "tape": tape, "signature": sig, "detail": detail,
                    "how": "bash run.sh replay <this file>"
                }))
                .unwrap(),
            )
            .unwrap();
            println!("{} fails: {sig}", p.id);
            for l in detail.lines().take(80) {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            code = 1;
        }
    }

    // known findings: re-demonstrate each listed one
    if code == 0 {
        for (sig, what) in load_known(p.id) {
            let probe = p.probes.iter().find(|x| x.0 == sig);
            let still = match probe {
                Some((_, f)) => {
                    let f = *f;
                    on_big_stack(f)
                }
                None => known_hits.get(&sig).copied().unwrap_or(0) > 0,
            };
            if still {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
            } else {
                println!("note: known finding no longer seen: property={} {}", p.id, what);
            }
        }
    }

    let ev = a.root.join("evidence");
    std::fs::create_dir_all(&ev).unwrap();
    let label_text: BTreeMap<_, _> = labels.into_iter().collect();
    let coverage = json!({
        "evaluations": evals, "distinct_nontrivial": seen.len(), "rule": p.rule, "samples": samples,
        "planned_cases": total, "discarded": discards, "classes": label_text, "known_finding_hits": known_hits,
        "slowest_case_us": slowest, "build": if a.variant.is_empty() { "default" } else { &a.variant[1..] }, "workers": jobs,
    });
    let wall = (t_start.elapsed().as_millis() as f64) / 1000.0;
    let file = ev.join(format!("{}.json", p.id));
    let mut body = json!({
        "property": p.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": coverage, "assumptions": p.assumptions, "wall_s": wall, "violations": violations,
    });
    // a further build of the code under test adds its own coverage to the evidence of the first
    if !a.variant.is_empty()
        && let Some(mut base) = std::fs::read_to_string(&file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok())
    {
        base["coverage"]["other_builds"] = json!([coverage]);
        base["wall_s"] = json!(base["wall_s"].as_f64().unwrap_or(0.0) + wall);
        base["violations"] = json!(base["violations"].as_u64().unwrap_or(0) + violations);
        body = base;
    }
    std::fs::write(file, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{}{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s",
        p.id,
        a.variant,
        a.tier,
        evals,
        seen.len(),
        discards.values().sum::<u64>(),
        t_start.elapsed().as_secs_f64()
    );
    if evals == 0 && code == 0 {
        eprintln!("ERROR: nothing was checked");
        code = 3;
    }
    ExitCode::from(code)
}
