//! Runs the cases of one property on all cores, watches for panics and hangs, and writes the
//! evidence and replay files.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg }
    }
}
impl From<&str> for Fail {
    fn from(m: &str) -> Self {
        Fail { msg: m.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::runner::Fail { msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::runner::Fail { msg: format!($($a)*) }) } };
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            let e = self.counters.entry(k).or_default();
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        self.samples.extend(o.samples);
    }
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub case: u64,
    #[allow(dead_code)]
    pub seed: u64,
    pub thorough: bool,
    pub st: &'a mut Stats,
    /// inputs of the current case, written to the replay file if it fails
    pub blobs: Vec<(String, Vec<u8>)>,
    pub log: Vec<String>,
    pub shared: &'a Shared,
    pub verbose: bool,
}

impl Ctx<'_> {
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.st.evals += n;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.st.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.st.counters.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// a distinct, non-trivial case with this fingerprint
    pub fn nontrivial(&mut self, h: u64) {
        self.st.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let s = f();
            self.st.samples.push((self.case, s));
        }
    }
    pub fn blob(&mut self, name: &str, b: &[u8]) {
        self.blobs.push((name.into(), b.to_vec()));
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        if self.verbose {
            eprintln!("  {s}");
        }
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
}

/// Data prepared once, visible to all cases.
pub struct Shared {
    pub samples: Vec<(String, Vec<u8>)>,
}

pub struct Prop {
    pub id: &'static str,
    pub num: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Res,
    /// (counter, minimum): the run is worthless if fewer were observed
    pub need: &'static [(&'static str, u64)],
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

pub fn thread_cpu_ns() -> u64 {
    let mut ts = [0i64; 2];
    // 3 = CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

fn clock_ns(id: i32) -> Option<u64> {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(id, &mut ts) } != 0 {
        return None;
    }
    Some(ts[0] as u64 * 1_000_000_000 + ts[1] as u64)
}

pub struct Cfg {
    #[allow(dead_code)]
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub only: Option<u64>,
    pub scale: f64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub inflight: Option<String>,
    pub max_wall: Duration,
    pub variant: String,
}

struct Viol {
    case: u64,
    msg: String,
    blobs: Vec<(String, Vec<u8>)>,
    log: Vec<String>,
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// CPU seconds one case may take before it counts as a hang.
const HANG_CPU_NS: u64 = 40_000_000_000;

pub fn run(p: &Prop, cfg: &Cfg, shared: &Shared) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}:{}", l.file(), l.line(), l.column()));
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_AT.with(|c| *c.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
    let start = Instant::now();
    let base = if cfg.thorough { p.thorough } else { p.quick };
    let total = ((base as f64 * cfg.scale) as u64).max(1);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
    let all = Mutex::new(Stats::default());
    let nthreads = if cfg.only.is_some() { 1 } else { cfg.threads };
    // per worker: cpu clock id, current case, cpu time at its start
    let slots: Vec<(AtomicI64, AtomicI64, AtomicU64)> =
        (0..nthreads).map(|_| (AtomicI64::new(i64::MIN), AtomicI64::new(-1), AtomicU64::new(0))).collect();
    let inflight = cfg.inflight.as_ref().and_then(|f| std::fs::File::create(f).ok());
    let finished = AtomicU64::new(0);
    let timed_out = AtomicBool::new(false);

    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, stop, done, viols, all, slots, inflight, finished, timed_out) =
                (&next, &stop, &done, &viols, &all, &slots, &inflight, &finished, &timed_out);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut id = 0;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
                    slots[t].0.store(i64::from(id), SeqCst);
                    let mut st = Stats::default();
                    loop {
                        let case = match cfg.only {
                            Some(c) => {
                                if next.fetch_add(1, SeqCst) > 0 {
                                    break;
                                }
                                c
                            }
                            None => next.fetch_add(1, SeqCst),
                        };
                        if (cfg.only.is_none() && case >= total) || stop.load(SeqCst) {
                            break;
                        }
                        if start.elapsed() > cfg.max_wall {
                            timed_out.store(true, SeqCst);
                            break;
                        }
                        if let Some(f) = inflight {
                            let _ = f.write_at(&case.to_le_bytes(), t as u64 * 8);
                        }
                        slots[t].2.store(thread_cpu_ns(), SeqCst);
                        slots[t].1.store(case as i64, SeqCst);
                        let mut ctx = Ctx {
                            rng: Rng::new(cfg.seed, p.num, case), case, seed: cfg.seed, thorough: cfg.thorough,
                            st: &mut st, blobs: vec![], log: vec![], shared, verbose: cfg.only.is_some(),
                        };
                        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
                        let msg = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(f)) => Some(f.msg),
                            Err(_) => Some(PANIC_AT.with(|c| c.borrow().clone())),
                        };
                        let (blobs, log) = (std::mem::take(&mut ctx.blobs), std::mem::take(&mut ctx.log));
                        slots[t].1.store(-1, SeqCst);
                        done.fetch_add(1, SeqCst);
                        if let Some(msg) = msg {
                            viols.lock().unwrap().push(Viol { case, msg, blobs, log });
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    all.lock().unwrap().merge(st);
                    finished.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let (slots, finished) = (&slots, &finished);
        s.spawn(move || {
            while finished.load(SeqCst) < nthreads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for sl in slots {
                    let case = sl.1.load(SeqCst);
                    let id = sl.0.load(SeqCst);
                    if case < 0 || id == i64::MIN {
                        continue;
                    }
                    let began = sl.2.load(SeqCst);
                    if let Some(now) = clock_ns(id as i32) {
                        if now.saturating_sub(began) > HANG_CPU_NS && sl.1.load(SeqCst) == case && sl.2.load(SeqCst) == began {
                            let v = Viol {
                                case: case as u64,
                                msg: format!("a call did not return within {} s of CPU time", HANG_CPU_NS / 1_000_000_000),
                                blobs: vec![], log: vec![],
                            };
                            report(p, cfg, &v);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });

    let st = all.into_inner().unwrap();
    let mut viols = viols.into_inner().unwrap();
    viols.sort_by_key(|v| v.case);
    let wall = start.elapsed().as_secs_f64();
    let done = done.load(SeqCst);
    if let Some(path) = &cfg.evidence {
        write_evidence(path, p, cfg, &st, done, total, wall, viols.len());
    }
    println!(
        "{} {} seed {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id, if cfg.thorough { "thorough" } else { "quick" }, cfg.seed, done, st.evals, st.distinct.len(), wall
    );
    for (k, v) in &st.counters {
        println!("  {k} = {v}");
    }
    if let Some(v) = viols.first() {
        report(p, cfg, v);
        return 1;
    }
    if cfg.only.is_some() {
        return 0;
    }
    if timed_out.load(SeqCst) && done * 4 < total {
        println!("ERROR: only {done} of {total} cases within {} s", cfg.max_wall.as_secs());
        return 2;
    }
    if cfg.scale >= 1.0 && !timed_out.load(SeqCst) {
        for (k, min) in p.need {
            let have = st.counters.get(k).copied().unwrap_or(0);
            if have < *min {
                println!("ERROR: observed {have} x '{k}', at least {min} are needed for this check to mean anything");
                return 2;
            }
        }
    }
    0
}

fn report(p: &Prop, cfg: &Cfg, v: &Viol) {
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let path = format!("{}/{}{}-seed{}-case{}.txt", cfg.replay_dir, p.id, cfg.variant, cfg.seed, v.case);
    let mut s = String::new();
    let _ = writeln!(s, "property={} seed={} tier={} case={}", p.id, cfg.seed, if cfg.thorough { "thorough" } else { "quick" }, v.case);
    let _ = writeln!(s, "rerun: VERIF_SEED={} bash /verif/run.sh {} {} --case {}", cfg.seed, p.id, if cfg.thorough { "thorough" } else { "quick" }, v.case);
    let _ = writeln!(s, "what: {}", v.msg);
    for l in &v.log {
        let _ = writeln!(s, "log: {l}");
    }
    for (n, b) in &v.blobs {
        let _ = writeln!(s, "blob {n} ({} bytes): {}", b.len(), crate::drive::hex(b, 1 << 20));
    }
    let _ = std::fs::write(&path, s);
    println!("{}: {}", p.id, v.msg);
    println!("VIOLATION property={} replay={}", p.id, path);
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(path: &str, p: &Prop, cfg: &Cfg, st: &Stats, done: u64, total: u64, wall: f64, viols: usize) {
    let mut samples = st.samples.clone();
    samples.sort();
    samples.truncate(6);
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", jstr(p.id));
    let _ = writeln!(s, " \"tier\": \"{}\",", if cfg.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, " \"seed\": {},", cfg.seed);
    let _ = writeln!(s, " \"level\": \"{}\",", p.level);
    s.push_str(" \"coverage\": {\n");
    let _ = writeln!(s, "  \"evaluations\": {},", st.evals);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", st.distinct.len());
    let _ = writeln!(s, "  \"rule\": {},", jstr(p.rule));
    let _ = writeln!(s, "  \"cases_run\": {done},\n  \"cases_planned\": {total},\n  \"violations\": {viols},");
    s.push_str("  \"observed\": {");
    let mut first = true;
    for (k, v) in &st.counters {
        let _ = write!(s, "{}\n   {}: {v}", if first { "" } else { "," }, jstr(k));
        first = false;
    }
    s.push_str("\n  },\n  \"samples\": [");
    let mut first = true;
    for (c, t) in &samples {
        let _ = write!(s, "{}\n   {}", if first { "" } else { "," }, jstr(&format!("case {c}: {t}")));
        first = false;
    }
    let _ = write!(s, "\n  ]\n }},\n \"wall_s\": {wall:.2}\n}}\n");
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("cannot write {path}: {e}");
    }
}
