//! Runs the cases of a check on all cores, under a supervisor that survives crashes of the code
//! under test, and writes verdict, replay file and evidence.
use crate::gen::Dict;
use crate::json::{self, J};
use crate::rng::{case_seed, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub cases: u64,
}

impl Stats {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        if let Some(o) = self.max.get_mut(k) {
            if v > *o {
                *o = v;
            }
        } else {
            self.max.insert(k.to_string(), v);
        }
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.cases += o.cases;
    }
}

pub struct Ctx<'a> {
    pub r: Rng,
    pub stats: Stats,
    pub dict: &'a Dict,
    pub log: Vec<String>,
    pub thorough: bool,
    pub nontrivial: bool,
    pub idx: u64,
    sig: u64,
}

impl Ctx<'_> {
    pub fn log(&mut self, s: String) {
        // the log is also the identity of the case
        let mut h = self.sig ^ 0x9E37_79B9_7F4A_7C15;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.sig = h;
        if self.log.len() < 3000 {
            self.log.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> Result<(), String>;

#[derive(Clone, Copy)]
pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    /// counters that must not be zero, or the run observed nothing
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub threads: usize,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Out {
    Ok,
    Violation(String),
    Harness(String),
}

/// Is this source location the harness's own?
fn own(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.starts_with("harness/")
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Out> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if own(&loc) {
                Err(Out::Harness(format!("harness panic at {loc}: {msg}")))
            } else {
                Err(Out::Violation(format!("panic in the library at {loc}: {msg}")))
            }
        }
    }
}

pub fn run_case(f: CaseFn, ctx: &mut Ctx) -> Out {
    let t0 = Instant::now();
    crate::gen::seed_layout(ctx.r.clone().u64());
    let r = caught(|| f(&mut *ctx));
    let t = t0.elapsed().as_secs_f64();
    ctx.stats.max("slowest case (s)", t);
    if t > 3.0 && std::env::var("VH_SLOW").is_ok() {
        eprintln!("# slow: {t:.1} s, case {}: {}", ctx.idx, ctx.log.iter().take(4).cloned().collect::<Vec<_>>().join("; "));
    }
    ctx.stats.cases += 1;
    match r {
        Err(o) => o,
        Ok(Ok(())) => {
            if ctx.nontrivial {
                ctx.stats.distinct.insert(ctx.sig);
            }
            Out::Ok
        }
        Ok(Err(e)) => Out::Violation(e),
    }
}

pub fn new_ctx<'a>(dict: &'a Dict, seed: u64, prop: &str, stream: &str, idx: u64, thorough: bool) -> Ctx<'a> {
    Ctx {
        r: Rng::new(case_seed(seed, &format!("{prop}/{stream}"), idx)),
        stats: Stats::default(),
        dict,
        log: vec![],
        thorough,
        nontrivial: false,
        idx,
        sig: 0,
    }
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    pub budget: f64,
}

impl Env {
    pub fn load() -> Env {
        let thorough = std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false);
        Env {
            seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
            thorough,
            verif: std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()),
            budget: std::env::var("VH_BUDGET")
                .ok()
                .and_then(|v| v.parse().ok())
                .unwrap_or(if thorough { 600.0 } else { 28.0 }),
        }
    }
}

fn write_replay(env: &Env, prop: &str, stream: &str, idx: u64, msg: &str, log: &[String]) -> String {
    let dir = format!("{}/out", env.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{stream}-{idx}-{}.replay", env.seed);
    let variant = std::env::var("VH_VARIANT").unwrap_or_default();
    let mut t = format!(
        "replay {prop} {stream} {idx} seed={} tier={} {variant}\n# rerun: VERIF_SEED={} {}/replay {path}\n# {}\n",
        env.seed,
        if env.thorough { "thorough" } else { "quick" },
        env.seed,
        env.verif,
        msg.replace('\n', "\n# ")
    );
    for l in log {
        t.push_str(l);
        t.push('\n');
    }
    let _ = std::fs::write(&path, t);
    path
}

pub fn violation(env: &Env, prop: &str, stream: &str, idx: u64, msg: &str, log: &[String]) {
    let p = write_replay(env, prop, stream, idx, msg, log);
    println!("# {msg}");
    println!("VIOLATION property={prop} replay={p}");
    let _ = std::io::stdout().flush();
}

const SLOT: u64 = 128;

/// Worker process: runs the cases. 0 held, 1 violation, 2 error
pub fn work(prop: &Prop, env: &Env, status: &str) -> i32 {
    let t0 = Instant::now();
    let dict = Dict::load();
    install_hook();
    let st = match std::fs::File::create(status) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("status file: {e}");
            return 2;
        }
    };
    // round robin over the streams
    let limits: Vec<u64> = prop.streams.iter().map(|s| if env.thorough { s.thorough } else { s.quick }).collect();
    let total: u64 = limits.iter().sum();
    let next = AtomicU64::new(0);
    let mut order: Vec<(usize, u64)> = Vec::with_capacity(total as usize);
    {
        // interleave proportionally
        let mut pos = vec![0u64; limits.len()];
        for k in 0..total {
            let mut best = usize::MAX;
            let mut bv = f64::INFINITY;
            for i in 0..limits.len() {
                if pos[i] < limits[i] {
                    let v = (pos[i] as f64 + 0.5) / limits[i] as f64;
                    if v < bv {
                        bv = v;
                        best = i;
                    }
                }
            }
            let _ = k;
            order.push((best, pos[best]));
            pos[best] += 1;
        }
    }
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, u64, String, Vec<String>)>> = Mutex::new(None);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let all = Mutex::new(Stats::default());
    let ran: Vec<AtomicU64> = limits.iter().map(|_| AtomicU64::new(0)).collect();
    let threads = if prop.threads > 0 {
        prop.threads
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    };
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, order, stop, found, errors, all, ran, st, dict) =
                (&next, &order, &stop, &found, &errors, &all, &ran, &st, &dict);
            sc.spawn(move || {
                let mut mine = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > env.budget {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= total {
                        break;
                    }
                    let (si, idx) = order[k as usize];
                    let s = &prop.streams[si];
                    let mut line = format!("{} {} {}", prop.id, s.name, idx).into_bytes();
                    line.resize(SLOT as usize, b' ');
                    let _ = st.write_at(&line, t as u64 * SLOT);
                    let mut ctx = new_ctx(dict, env.seed, prop.id, s.name, idx, env.thorough);
                    let out = run_case(s.f, &mut ctx);
                    let _ = st.write_at(&[b' '; SLOT as usize], t as u64 * SLOT);
                    ran[si].fetch_add(1, Ordering::Relaxed);
                    if idx < 1 && ctx.nontrivial {
                        let mut smp: Vec<&str> = ctx.log.iter().take(12).map(|s| s.as_str()).collect();
                        if ctx.log.len() > 12 {
                            smp.push("...");
                        }
                        ctx.stats.samples.push(format!("{}#{}: {}", s.name, idx, smp.join("; ")));
                    }
                    let log = std::mem::take(&mut ctx.log);
                    mine.merge(std::mem::take(&mut ctx.stats));
                    match out {
                        Out::Ok => (),
                        Out::Violation(m) => {
                            stop.store(true, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((si, idx, m, log));
                            }
                        }
                        Out::Harness(m) => {
                            stop.store(true, Ordering::Relaxed);
                            errors.lock().unwrap().push(format!("{} {} {}: {m}", prop.id, s.name, idx));
                        }
                    }
                }
                all.lock().unwrap().merge(mine);
            });
        }
    });
    let stats = all.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    let mut cov: Vec<(String, J)> = vec![
        ("evaluations".into(), J::I(stats.cases as i128)),
        ("distinct_nontrivial".into(), J::I(stats.distinct.len() as i128)),
        ("rule".into(), json::s(prop.rule)),
        (
            "samples".into(),
            J::A(stats.samples.iter().map(|s| json::s(s.chars().take(1200).collect::<String>())).collect()),
        ),
        (
            "streams".into(),
            J::O(
                prop.streams
                    .iter()
                    .enumerate()
                    .map(|(i, s)| (s.name.to_string(), J::I(ran[i].load(Ordering::Relaxed) as i128)))
                    .collect(),
            ),
        ),
        (
            "observed".into(),
            J::O(stats.counts.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect()),
        ),
        (
            "extremes".into(),
            J::O(stats.max.iter().map(|(k, v)| (k.clone(), J::N(*v))).collect()),
        ),
    ];
    let variant = std::env::var("VH_VARIANT").unwrap_or_default();
    if !variant.is_empty() {
        cov.push(("build".into(), json::s(variant.clone())));
    }
    let ev = json::o(vec![
        ("property", json::s(prop.id)),
        ("tier", json::s(if env.thorough { "thorough" } else { "quick" })),
        ("seed", J::I(env.seed as i128)),
        ("level", json::s(prop.level)),
        ("coverage", J::O(cov)),
        ("assumptions", J::A(prop.assumptions.iter().map(|a| json::s(*a)).collect())),
        ("wall_s", J::N(t0.elapsed().as_secs_f64())),
        ("violations", J::I(found.is_some() as i128)),
    ]);
    let suffix = if variant.is_empty() { String::new() } else { format!(".{variant}") };
    let dir = std::env::var("VH_EVDIR").unwrap_or_else(|_| format!("{}/evidence", env.verif));
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}{suffix}.json", prop.id), ev.to_string() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some((si, idx, m, log)) = found {
        violation(env, prop.id, prop.streams[si].name, idx, &m, &log);
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {e}");
        }
        return 2;
    }
    let mut dead = vec![];
    for m in prop.must {
        if stats.counts.get(*m).copied().unwrap_or(0) == 0 {
            dead.push(*m);
        }
    }
    if stats.cases == 0 || !dead.is_empty() {
        eprintln!("INCONCLUSIVE {}: nothing observed for {dead:?}", prop.id);
        return 2;
    }
    println!(
        "held property={} cases={} distinct={} wall={:.1}s{}",
        prop.id,
        stats.cases,
        stats.distinct.len(),
        t0.elapsed().as_secs_f64(),
        if variant.is_empty() { String::new() } else { format!(" ({variant})") }
    );
    0
}

fn wait_timeout(c: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t0.elapsed() < d => std::thread::sleep(Duration::from_millis(20)),
            _ => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}

/// Signals by which a process dies of what it did itself
fn crash_signal(s: i32) -> bool {
    // ILL TRAP ABRT BUS FPE SEGV
    [4, 5, 6, 7, 8, 11].contains(&s)
}

/// Supervisor process
pub fn check(prop: &Prop, env: &Env) -> i32 {
    let dir = format!("{}/out", env.verif);
    let _ = std::fs::create_dir_all(&dir);
    let status = format!("{dir}/{}.{}.status", prop.id, std::process::id());
    let exe = std::env::current_exe().unwrap();
    let mut c = match std::process::Command::new(&exe).args(["work", prop.id, &status]).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("spawn: {e}");
            return 2;
        }
    };
    let r = wait_timeout(&mut c, Duration::from_secs_f64(env.budget + 120.0));
    let slots = std::fs::read_to_string(&status).unwrap_or_default();
    let _ = std::fs::remove_file(&status);
    let rc = match &r {
        Some(s) if s.code().is_some() && !(s.code().unwrap() >= 3) => return s.code().unwrap(),
        Some(s) => s.signal(),
        None => None,
    };
    let hang = r.is_none();
    let sanitizer = r.as_ref().and_then(|s| s.code()).is_some_and(|c| c >= 3);
    if !hang && !sanitizer && !rc.is_some_and(crash_signal) {
        eprintln!("ERROR {}: worker ended with {r:?}", prop.id);
        return 2;
    }
    // Which of the cases in flight does it?
    let bytes = slots.as_bytes();
    let mut cases = vec![];
    for ch in bytes.chunks(SLOT as usize) {
        let l = String::from_utf8_lossy(ch).trim().to_string();
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() == 3 {
            cases.push((w[1].to_string(), w[2].to_string()));
        }
    }
    eprintln!("# worker ended with {r:?}; {} cases in flight, running each alone", cases.len());
    for (stream, idx) in cases {
        let limit = 120;
        let mut c = match std::process::Command::new("/bin/sh")
            .arg("-c")
            .arg(format!("ulimit -t {limit}; exec \"$0\" \"$@\""))
            .arg(&exe)
            .args(["one", prop.id, &stream, &idx])
            .spawn()
        {
            Ok(c) => c,
            Err(_) => continue,
        };
        let r = wait_timeout(&mut c, Duration::from_secs(limit + 60));
        let what = match r {
            None => continue, // wall clock decides nothing
            Some(s) if s.code() == Some(0) || s.code() == Some(2) => continue,
            Some(s) if s.code() == Some(1) => return 1,
            Some(s) if s.signal() == Some(24) || (s.signal() == Some(9) && hang) => {
                format!("did not end within {limit} s of CPU time")
            }
            Some(s) if s.signal().is_some_and(crash_signal) => format!("process died of signal {}", s.signal().unwrap()),
            Some(s) if s.code().is_some_and(|c| c >= 3) => format!("sanitizer report, exit {}", s.code().unwrap()),
            Some(s) => {
                eprintln!("# {stream} {idx}: {s:?}");
                continue;
            }
        };
        violation(env, prop.id, &stream, idx.parse().unwrap_or(0), &what, &[]);
        return 1;
    }
    eprintln!("INCONCLUSIVE {}: {r:?}, not reproduced by a single case", prop.id);
    2
}

/// One case, in this process
pub fn one(prop: &Prop, env: &Env, stream: &str, idx: u64, verbose: bool) -> i32 {
    let dict = Dict::load();
    install_hook();
    let Some(s) = prop.streams.iter().find(|s| s.name == stream) else {
        eprintln!("no such stream");
        return 2;
    };
    let mut ctx = new_ctx(&dict, env.seed, prop.id, s.name, idx, env.thorough);
    let out = run_case(s.f, &mut ctx);
    if verbose {
        for l in &ctx.log {
            println!("{l}");
        }
        for (k, v) in &ctx.stats.counts {
            println!("#   {k} = {v}");
        }
        for (k, v) in &ctx.stats.max {
            println!("#   max {k} = {v}");
        }
    }
    match out {
        Out::Ok => 0,
        Out::Violation(m) => {
            violation(env, prop.id, stream, idx, &m, &ctx.log);
            1
        }
        Out::Harness(m) => {
            eprintln!("ERROR {m}");
            2
        }
    }
}
