//! The runner shared by all checks: generates cases with proptest strategies,
//! evaluates them on all cores in a child process, shrinks a failure (a failed
//! check, a panic, a crash or a hang), writes it as a replay file and reports.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod mem;

/// A single allocation of more than this is an allocation failure (and so an
/// abort, which the parent process reports): no input generated here calls for it.
const MAX_ALLOC: usize = 6 << 30;
pub struct LimitedAlloc;
unsafe impl GlobalAlloc for LimitedAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ALLOC { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

/// What a check notes about a case.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
}

pub type Check = Result<(), String>;

pub struct Spec<C> {
    pub id: &'static str,
    /// When a case counts as non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Cases per tier.
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn(bool) -> BoxedStrategy<C>,
    /// Cases that are always run.
    pub fixed: fn() -> Vec<C>,
    pub check: fn(&C, &mut Obs) -> Check,
}

pub trait Runnable: Sync {
    fn id(&self) -> &'static str;
    fn main(&self, m: &Mode) -> i32;
}

pub struct Mode {
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    pub kind: Kind,
}
pub enum Kind {
    Parent,
    Child(PathBuf),
    Replay(PathBuf),
    Eval(PathBuf),
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn runner_for(seed: u64, id: &str, index: u64) -> TestRunner {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&fnv(id).to_le_bytes());
    b[16..24].copy_from_slice(&index.to_le_bytes());
    let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, max_global_rejects: 1_000_000, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

fn evaluate<C>(spec: &Spec<C>, case: &C, obs: &mut Obs) -> Check {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.check)(case, obs)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
    }
}

fn known(root: &Path, id: &str) -> Vec<(String, String)> {
    // lines "finding: property=<id> key=<key> <what fails>"
    let text = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut w = rest.splitn(3, ' ');
            let (p, k, t) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            if p == format!("property={id}") {
                out.push((k.trim_start_matches("key=").to_owned(), t.to_owned()));
            }
        }
    }
    out
}
fn is_known(known: &[(String, String)], msg: &str) -> bool {
    known.iter().any(|(k, _)| msg.starts_with(&format!("[{k}] ")))
}

fn short(v: &Value, n: usize) -> String {
    let s = v.to_string();
    if s.len() <= n {
        return s;
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known_hits: u64,
}

struct Slot {
    index: AtomicU64,
    since: AtomicU64, // ms since start + 1, 0: idle
}

impl<C> Spec<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn case_at(&self, m: &Mode, index: u64, fixed: &[C]) -> Box<dyn ValueTree<Value = C>> {
        if (index as usize) < fixed.len() {
            let c = fixed[index as usize].clone();
            return Box::new(proptest::strategy::Just(c).new_tree(&mut runner_for(0, "", 0)).unwrap());
        }
        let mut r = runner_for(m.seed, self.id, index);
        (self.strat)(m.thorough).new_tree(&mut r).expect("strategy rejected too much")
    }

    fn shrink(&self, tree: &mut dyn ValueTree<Value = C>, mut fails: impl FnMut(&C) -> Option<String>, max: usize, limit: Duration) -> (C, String) {
        let mut best = (tree.current(), String::new());
        let t0 = Instant::now();
        let mut n = 0;
        if tree.simplify() {
            loop {
                n += 1;
                if n > max || t0.elapsed() > limit {
                    break;
                }
                let c = tree.current();
                match fails(&c) {
                    Some(m) => {
                        best = (c, m);
                        if !tree.simplify() {
                            break;
                        }
                    }
                    None => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        best
    }

    fn save(&self, m: &Mode, case: &C, msg: &str, index: u64) -> PathBuf {
        let v = json!({"property": self.id, "seed": m.seed, "index": index, "message": msg, "case": case});
        let h = fnv(&v["case"].to_string());
        let dir = m.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{:016x}.json", self.id, h));
        let _ = fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
        p
    }

    fn load(path: &Path) -> C {
        let v: Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("replay JSON");
        serde_json::from_value(v["case"].clone()).expect("replay case")
    }

    fn child(&self, m: &Mode, work: &Path) -> i32 {
        let fixed = (self.fixed)();
        let total = fixed.len() as u64 + if m.thorough { self.thorough } else { self.quick };
        let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
        let cap = Duration::from_secs(if m.thorough { 700 } else { 100 });
        let t0 = Instant::now();
        let known = known(&m.root, self.id);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let failure: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let progress = fs::File::create(work.join("progress")).unwrap();
        let slots: Vec<Slot> = (0..threads).map(|_| Slot { index: AtomicU64::new(0), since: AtomicU64::new(0) }).collect();
        let live = AtomicU64::new(threads as u64);
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            for slot_no in 0..threads {
                let (fixed, known, next, stop, failure, stats, progress, slots, live) =
                    (&fixed, &known, &next, &stop, &failure, &stats, &progress, &slots, &live);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let case = self.case_at(m, i, fixed).current();
                        let _ = progress.write_at(&(i + 1).to_le_bytes(), slot_no as u64 * 8);
                        slots[slot_no].index.store(i, Ordering::Relaxed);
                        slots[slot_no].since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut obs = Obs::default();
                        let r = evaluate(self, &case, &mut obs);
                        slots[slot_no].since.store(0, Ordering::Relaxed);
                        st.evaluations += 1;
                        if obs.nontrivial {
                            let js = serde_json::to_value(&case).unwrap();
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            js.to_string().hash(&mut h);
                            if st.distinct.insert(h.finish()) && st.samples.len() < 2 {
                                st.samples.push(json!({"index": i, "case": short(&js, 700), "labels": obs.labels}));
                            }
                        }
                        for l in obs.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if let Err(msg) = r {
                            if is_known(known, &msg) {
                                st.known_hits += 1;
                            } else {
                                let mut f = failure.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((i, msg));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let _ = progress.write_at(&0u64.to_le_bytes(), slot_no as u64 * 8);
                    let mut g = stats.lock().unwrap();
                    g.evaluations += st.evaluations;
                    g.distinct.extend(st.distinct);
                    g.known_hits += st.known_hits;
                    for (k, v) in st.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    g.samples.extend(st.samples);
                    live.fetch_sub(1, Ordering::SeqCst);
                }).unwrap();
            }
            // watchdog
            let hang = hang_limit(m) * std::env::var("GV_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            while !done.load(Ordering::Relaxed) && live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(25));
                let now = t0.elapsed().as_millis() as u64;
                for sl in &slots {
                    let since = sl.since.load(Ordering::Relaxed);
                    if since > 0 && now.saturating_sub(since) > hang.as_millis() as u64 {
                        let i = sl.index.load(Ordering::Relaxed);
                        fs::write(work.join("hang"), i.to_string()).unwrap();
                        std::process::exit(70);
                    }
                }
            }
        });
        let g = stats.into_inner().unwrap();
        let mut result = json!({
            "evaluations": g.evaluations, "distinct": g.distinct.len(), "labels": g.labels,
            "samples": g.samples.into_iter().take(6).collect::<Vec<_>>(), "planned": total, "known_hits": g.known_hits,
        });
        if let Some((i, msg)) = failure.into_inner().unwrap() {
            result["failure"] = json!({"index": i, "message": msg});
        }
        fs::write(work.join("result.json"), result.to_string()).unwrap();
        0
    }

    fn self_cmd(&self, m: &Mode, flag: &str, path: &Path) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg(self.id).arg(if m.thorough { "thorough" } else { "quick" }).arg(flag).arg(path);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        if std::env::var_os("VERIF_DEBUG").is_some() {
            c.stderr(Stdio::inherit());
        }
        c
    }

    /// Evaluates one case in a process of its own: None if it passes.
    fn eval_process(&self, m: &Mode, case: &C, work: &Path, limit: Duration) -> Option<String> {
        let p = work.join("eval.json");
        let msg_path = work.join("eval.json.msg");
        let _ = fs::remove_file(&msg_path);
        fs::write(&p, json!({"case": case}).to_string()).unwrap();
        let mut c = self.self_cmd(m, "--eval", &p).spawn().ok()?;
        let t0 = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(st)) => {
                    return match st.code() {
                        Some(0) => None,
                        Some(1) => Some(fs::read_to_string(&msg_path).unwrap_or_default()),
                        _ => Some(format!("the process died: {}", describe_status(st))),
                    }
                }
                Ok(None) if t0.elapsed() > limit => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(format!("no result within {} s", limit.as_secs()));
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(1)),
                Err(_) => return None,
            }
        }
    }

    fn parent(&self, m: &Mode) -> i32 {
        let t0 = Instant::now();
        let work = std::env::temp_dir().join(format!("gv-{}-{}", self.id, std::process::id()));
        let _ = fs::create_dir_all(&work);
        let mut st = self.self_cmd(m, "--child", &work).env("GV_WORK", &work).status().expect("child");
        let fixed = (self.fixed)();
        // a case without an answer gets another chance on its own, as the machine may have been busy
        if let Some(i) = fs::read_to_string(work.join("hang")).ok().and_then(|s| s.parse::<u64>().ok()) {
            let c = self.case_at(m, i, &fixed).current();
            if self.eval_process(m, &c, &work, hang_limit(m)).is_none() {
                let _ = fs::remove_file(work.join("hang"));
                st = self.self_cmd(m, "--child", &work).env("GV_WORK", &work).env("GV_PATIENCE", "4").status().expect("child");
            }
        }
        let known_list = known(&m.root, self.id);
        let mut stats: Value = fs::read_to_string(work.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
        let mut violation: Option<(C, String, u64)> = None;
        let mut broken: Option<String> = None;
        if let (true, Some(f)) = (st.success(), stats.get("failure").cloned()) {
            let i = f["index"].as_u64().unwrap();
            let msg0 = f["message"].as_str().unwrap_or("").to_owned();
            let mut tree = self.case_at(m, i, &fixed);
            let c0 = tree.current();
            // each attempt runs in its own process, as shrinking may turn a failure into a crash
            let (max, limit) = if m.thorough { (3000, 120) } else { (800, 40) };
            let (c, msg) = self.shrink(
                &mut *tree,
                |c| self.eval_process(m, c, &work, Duration::from_secs(10)).filter(|msg| !is_known(&known_list, msg)),
                max,
                Duration::from_secs(limit),
            );
            violation = Some(if msg.is_empty() { (c0, msg0, i) } else { (c, msg, i) });
        } else if !st.success() {
            let hang = fs::read_to_string(work.join("hang")).ok().and_then(|s| s.parse::<u64>().ok());
            if let Some(i) = hang {
                let c = self.case_at(m, i, &fixed).current();
                violation = Some((c, format!("no result within {} s", hang_limit(m).as_secs()), i));
            } else {
                let status = describe_status(st);
                let prog = fs::read(work.join("progress")).unwrap_or_default();
                for ch in prog.chunks_exact(8) {
                    let i = u64::from_le_bytes(ch.try_into().unwrap());
                    if i == 0 {
                        continue;
                    }
                    let mut tree = self.case_at(m, i - 1, &fixed);
                    let c0 = tree.current();
                    if let Some(msg0) = self.eval_process(m, &c0, &work, hang_limit(m)) {
                        let (c, msg) = self.shrink(
                            &mut *tree,
                            |c| self.eval_process(m, c, &work, Duration::from_secs(10)).filter(|m| m.starts_with("the process died")),
                            400,
                            Duration::from_secs(40),
                        );
                        violation = Some(if msg.is_empty() { (c0, msg0, i - 1) } else { (c, msg, i - 1) });
                        break;
                    }
                }
                if violation.is_none() {
                    broken = Some(format!("the search process died ({status}) and none of its cases reproduces that"));
                }
            }
        }
        let _ = fs::remove_dir_all(&work);
        for (_, t) in &known_list {
            println!("KNOWN-FINDING: property={} {}", self.id, t);
        }
        let evals = stats["evaluations"].as_u64().unwrap_or(0);
        let mut cov = json!({
            "evaluations": evals,
            "distinct_nontrivial": stats["distinct"].as_u64().unwrap_or(0),
            "rule": self.rule,
            "samples": stats["samples"].take(),
            "labels": stats["labels"].take(),
            "planned": stats["planned"].take(),
            "fixed_cases": fixed.len(),
            "known_finding_hits": stats["known_hits"].take(),
        });
        if cov["samples"].is_null() {
            cov["samples"] = json!([]);
        }
        let ev = json!({
            "property": self.id, "tier": if m.thorough { "thorough" } else { "quick" }, "seed": m.seed,
            "level": "exploration", "coverage": cov, "assumptions": self.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(), "violations": violation.is_some() as u64,
        });
        let dir = m.root.join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        if let Some((c, msg, i)) = violation {
            let p = self.save(m, &c, &msg, i);
            println!("{}: {}", self.id, msg);
            println!("case: {}", short(&serde_json::to_value(&c).unwrap(), 1500));
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        if let Some(b) = broken {
            println!("{}: {}", self.id, b);
            return 3;
        }
        println!("{}: {} cases, {} distinct non-trivial, {:.1} s", self.id, evals, ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64());
        0
    }
}

fn hang_limit(m: &Mode) -> Duration {
    Duration::from_secs(if m.thorough { 120 } else { 60 })
}

fn describe_status(st: std::process::ExitStatus) -> String {
    match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit status {c}"),
        (_, Some(s)) => format!("signal {s}"),
        _ => "unknown".into(),
    }
}

impl<C> Runnable for Spec<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }
    fn main(&self, m: &Mode) -> i32 {
        match &m.kind {
            Kind::Parent => self.parent(m),
            Kind::Child(w) => self.child(m, w),
            Kind::Replay(p) => {
                let c = Self::load(p);
                let work = std::env::temp_dir().join(format!("gv-{}-{}", self.id, std::process::id()));
                let _ = fs::create_dir_all(&work);
                let r = self.eval_process(m, &c, &work, hang_limit(m));
                let _ = fs::remove_dir_all(&work);
                match r {
                    None => {
                        println!("{}: the replay passes", self.id);
                        0
                    }
                    Some(msg) => {
                        println!("{}: {}", self.id, msg);
                        println!("VIOLATION property={} replay={}", self.id, p.display());
                        1
                    }
                }
            }
            Kind::Eval(p) => {
                let c = Self::load(p);
                // as deep a stack as the search threads have
                std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, || match evaluate(self, &c, &mut Obs::default()) {
                            Ok(()) => 0,
                            Err(msg) => {
                                let _ = fs::write(format!("{}.msg", p.display()), msg);
                                1
                            }
                        })
                        .unwrap()
                        .join()
                        .unwrap_or(2)
                })
            }
        }
    }
}

pub fn main(all: &[&dyn Runnable]) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if std::env::var_os("VERIF_DEBUG").is_some() {
            eprintln!("panic: {msg}{loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} PROPERTY quick|thorough [--replay FILE]", args[0]);
        std::process::exit(2)
    };
    if args.len() < 3 {
        usage();
    }
    let Some(p) = all.iter().find(|p| p.id() == args[1]) else { usage() };
    let kind = match (args.get(3).map(|s| s.as_str()), args.get(4)) {
        (None, _) => Kind::Parent,
        (Some("--child"), Some(w)) => Kind::Child(w.into()),
        (Some("--replay"), Some(w)) => Kind::Replay(w.into()),
        (Some("--eval"), Some(w)) => Kind::Eval(w.into()),
        _ => usage(),
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let m = Mode { thorough: args[2] == "thorough", seed, root, kind };
    std::process::exit(p.main(&m))
}

/// Fails the check with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
