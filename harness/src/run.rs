//! Running the parts of a check: sharded generation, counting, shrinking,
//! replay, and turning a crash or an endless call into a reported case.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const SHARDS: u64 = 8;

/// For trying many changed trees: a share of the random cases, and no more
/// than one failure, as it is found.
pub struct Draft {
    pub scale: f64,
    stop: std::sync::atomic::AtomicBool,
}
pub fn draft() -> Option<&'static Draft> {
    static D: std::sync::OnceLock<Option<Draft>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let scale = std::env::var("DMIVERIF_DRAFT").ok()?.parse().ok()?;
        Some(Draft {
            scale,
            stop: false.into(),
        })
    })
    .as_ref()
}
pub fn stopped() -> bool {
    draft().is_some_and(|d| d.stop.load(Ordering::Relaxed))
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    labels: Vec<&'static str>,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type Check<C> = fn(&C, &mut Cx) -> Result<(), String>;

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    /// branches of the code under test, where they are seen
    pub edges: std::collections::BTreeSet<u32>,
    /// cases kept to be changed further
    pub kept: u64,
    /// all shards together
    pub seconds: f64,
    /// cases left out because the time was up
    pub left_out: u64,
}

pub struct Failure {
    pub case: Value,
    pub message: String,
}

/// How a shard is run.
#[derive(Clone, Copy)]
pub struct Mode {
    pub seed: u64,
    pub thorough: bool,
    /// evaluate each case in a process of its own, from this index on
    pub isolate_from: Option<u64>,
}

pub struct Part {
    pub name: &'static str,
    /// how the cases are made and which count
    pub rule: &'static str,
    pub exhaustive: bool,
    /// needs the build that reports branches
    pub guided: bool,
    pub shard: Box<dyn Fn(&str, u64, Mode, &dyn Fn(u64)) -> (Stats, Option<Failure>) + Sync + Send>,
    pub replay: Box<dyn Fn(&Value) -> Result<(), String> + Sync + Send>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if GUARDED.get() == 0 {
            eprintln!("the harness itself panicked at {at}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {at}: {msg}"));
    }));
}

/// Run something; a panic is its error.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    GUARDED.set(GUARDED.get() + 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.set(GUARDED.get() - 1);
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn eval<C>(check: Check<C>, c: &C, cx: &mut Cx) -> Result<(), String> {
    guarded(|| check(c, cx))
}

/// Run a case in a child process of its own, with limits.
pub fn isolated<C>(check: Check<C>, c: &C) -> Result<(), String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Ok(());
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            ALONE.store(true, Ordering::SeqCst);
            limit(libc::RLIMIT_CPU, CASE_CPU_S);
            limit(libc::RLIMIT_DATA, 4 << 30);
            limit(libc::RLIMIT_CORE, 0);
            let r = eval(check, c, &mut Cx::default());
            if let Err(m) = r {
                let m = &m.as_bytes()[..m.len().min(4000)];
                libc::write(fds[1], m.as_ptr() as *const _, m.len());
                libc::_exit(1);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut msg = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if k <= 0 {
                break;
            }
            msg.extend_from_slice(&buf[..k as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid {
            return Ok(());
        }
        if libc::WIFSIGNALED(st) {
            return Err(match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => "does not end".into(),
                s => format!("killed by signal {s}"),
            });
        }
        match libc::WEXITSTATUS(st) {
            0 => Ok(()),
            _ => Err(String::from_utf8_lossy(&msg).into()),
        }
    }
}
/// Cases take microseconds to milliseconds.
const CASE_CPU_S: u64 = 20;
/// Those of a name with this in it take seconds.
pub const SLOW: &str = "giant";
static ALONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Grant a slow case its time.
pub fn slow() {
    if ALONE.load(Ordering::SeqCst) {
        limit(libc::RLIMIT_CPU, SLOW_CPU_S);
    }
}
const SLOW_CPU_S: u64 = 200;
pub static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn limit(what: libc::__rlimit_resource_t, v: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: v,
            rlim_max: v + 1000,
        };
        libc::setrlimit(what, &l);
    }
}

fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn tally<C: Serialize + Hash>(st: &mut Stats, c: &C, cx: &Cx) {
    st.evaluations += 1;
    for l in &cx.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    if cx.nontrivial {
        st.nontrivial += 1;
        if st.distinct.insert(hash64(c)) && st.samples.len() < 2 {
            st.samples.push(serde_json::to_value(c).unwrap());
        }
    }
}

pub fn seed(seed: u64, prop: &str, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        chunk.copy_from_slice(&hash64(&(seed, prop, name, shard, i)).to_le_bytes());
    }
    out
}

pub fn random<C>(
    name: &'static str,
    rule: &'static str,
    cases: (u32, u32),
    strategy: fn() -> BoxedStrategy<C>,
    check: Check<C>,
) -> Part
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    Part {
        name,
        rule,
        exhaustive: false,
        guided: false,
        shard: Box::new(move |prop, shard, mode, progress| {
            let n = if mode.thorough { cases.1 } else { cases.0 };
            let n = draft().map_or(n, |d| (n as f64 * d.scale) as u32);
            let seed = seed(mode.seed, prop, name, shard);
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
            let cfg = Config {
                cases: n / SHARDS as u32 + 1,
                failure_persistence: None,
                max_shrink_iters: if draft().is_some() {
                    0
                } else if mode.isolate_from.is_some() {
                    3000
                } else {
                    30000
                },
                max_shrink_time: 60_000,
                max_global_rejects: 1 << 20,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(cfg, rng);
            let stats = RefCell::new(Stats::default());
            let failed = RefCell::new(false);
            let index = RefCell::new(0u64);
            let r = runner.run(&strategy(), |c| {
                let shrinking = *failed.borrow();
                if stopped() {
                    return Ok(());
                }
                let i = *index.borrow();
                progress(i);
                if !shrinking {
                    *index.borrow_mut() += 1;
                }
                let r = match mode.isolate_from {
                    Some(from) if !shrinking && i < from => Ok(()),
                    // the case that made the process end, or one shrunk from it
                    Some(_) if shrinking || i < mode.isolate_from.unwrap() + ISOLATED => {
                        isolated(check, &c)
                    }
                    Some(_) => Ok(()),
                    None => {
                        let mut cx = Cx::default();
                        let r = eval(check, &c, &mut cx);
                        if !shrinking {
                            tally(&mut stats.borrow_mut(), &c, &cx);
                        }
                        r
                    }
                };
                r.map_err(|m| {
                    *failed.borrow_mut() = true;
                    TestCaseError::fail(m)
                })
            });
            let failure = match r {
                Ok(()) => None,
                Err(TestError::Fail(m, c)) => Some(Failure {
                    case: serde_json::to_value(&c).unwrap(),
                    message: m.message().to_string(),
                }),
                Err(TestError::Abort(m)) => panic!("generator gave up: {m}"),
            };
            (stats.into_inner(), failure)
        }),
        replay: Box::new(move |v| {
            let c: C =
                serde_json::from_value(v.clone()).map_err(|e| format!("unreadable case: {e}"))?;
            isolated(check, &c)
        }),
    }
}
/// Cases looked at one by one after an abrupt end.
pub const ISOLATED: u64 = 3;

/// A part over an enumerated space: `at(i)` is its i-th case.
pub fn exhaustive<C>(
    name: &'static str,
    rule: &'static str,
    size: fn(bool) -> u64,
    at: fn(u64) -> C,
    check: Check<C>,
) -> Part
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    Part {
        name,
        rule,
        exhaustive: true,
        guided: false,
        shard: Box::new(move |_, shard, mode, progress| {
            let mut st = Stats::default();
            let n = size(mode.thorough);
            let mut i = shard;
            let mut k = 0u64;
            while i < n && !stopped() {
                progress(k);
                let c = at(i);
                let r = match mode.isolate_from {
                    Some(from) if k < from => Ok(()),
                    Some(from) if k < from + ISOLATED => isolated(check, &c),
                    Some(_) => break,
                    None => {
                        let mut cx = Cx::default();
                        let r = eval(check, &c, &mut cx);
                        tally(&mut st, &c, &cx);
                        r
                    }
                };
                if let Err(message) = r {
                    let case = serde_json::to_value(&c).unwrap();
                    return (st, Some(Failure { case, message }));
                }
                i += SHARDS;
                k += 1;
            }
            (st, None)
        }),
        replay: Box::new(move |v| {
            let c: C =
                serde_json::from_value(v.clone()).map_err(|e| format!("unreadable case: {e}"))?;
            isolated(check, &c)
        }),
    }
}

// --- worker process -------------------------------------------------------

/// Progress shared with the supervising process: per (part, shard) the running
/// case index + 1, or DONE.
pub struct Progress {
    base: *const AtomicU64,
    pub len: usize,
}
unsafe impl Sync for Progress {}
unsafe impl Send for Progress {}
pub const DONE: u64 = u64::MAX;

impl Progress {
    pub fn open(path: &str, len: usize) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("progress file");
        f.set_len(len as u64 * 8).expect("progress file");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Progress {
            base: p as *const AtomicU64,
            len,
        }
    }
    pub fn cell(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.len);
        unsafe { &*self.base.add(i) }
    }
}

pub struct Outcome {
    pub parts: Vec<(Stats, Vec<Failure>)>,
}

/// Run all shards of all parts on all cores.
pub fn run_all(
    prop: &str,
    parts: &[Part],
    guided: bool,
    mode: Mode,
    progress: &Progress,
) -> Outcome {
    THOROUGH.store(mode.thorough, Ordering::SeqCst);
    // by shard: not all threads at the slow cases of one part
    let jobs: Vec<(usize, u64)> = (0..SHARDS)
        .flat_map(|s| (0..parts.len()).map(move |p| (p, s)))
        .filter(|(p, _)| parts[*p].guided == guided)
        .collect();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(Stats, Vec<Failure>)>> =
        Mutex::new(parts.iter().map(|_| (Stats::default(), vec![])).collect());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    let Some(&(p, s)) = jobs.get(j) else { break };
                    let cell = progress.cell(p * SHARDS as usize + s as usize);
                    // case index, and a tick that shows life while shrinking
                    let tick = std::cell::Cell::new(0u64);
                    let begun = std::time::Instant::now();
                    let (st, f) = (parts[p].shard)(prop, s, mode, &|i| {
                        tick.set(tick.get() + 1);
                        cell.store((tick.get() & 0xFF_FFFF) << 40 | (i + 1), Ordering::SeqCst)
                    });
                    cell.store(DONE, Ordering::SeqCst);
                    if let (Some(d), Some(_)) = (draft(), &f) {
                        d.stop.store(true, Ordering::Relaxed);
                    }
                    let mut out = out.lock().unwrap();
                    let (sum, fs) = &mut out[p];
                    sum.evaluations += st.evaluations;
                    sum.nontrivial += st.nontrivial;
                    sum.distinct.extend(st.distinct);
                    sum.edges.extend(st.edges);
                    sum.kept += st.kept;
                    sum.left_out += st.left_out;
                    sum.seconds += begun.elapsed().as_secs_f64();
                    for (l, k) in st.labels {
                        *sum.labels.entry(l).or_default() += k;
                    }
                    if sum.samples.len() < 3 {
                        sum.samples.extend(st.samples.into_iter().take(1));
                    }
                    fs.extend(f);
                })
                .unwrap();
        }
    });
    Outcome {
        parts: out.into_inner().unwrap(),
    }
}

/// Quick checks have to end in time on slow machines too.
pub fn time_is_up(mode: Mode) -> bool {
    static BEGUN: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    !mode.thorough
        && mode.isolate_from.is_none()
        && BEGUN
            .get_or_init(std::time::Instant::now)
            .elapsed()
            .as_secs()
            > 240
}

pub fn limit_memory() {
    limit(libc::RLIMIT_DATA, 20 << 30);
    limit(libc::RLIMIT_CORE, 0);
}

pub fn outcome_json(parts: &[Part], guided: bool, o: &Outcome) -> Value {
    let mut list = vec![];
    for (p, (st, fs)) in parts
        .iter()
        .zip(&o.parts)
        .filter(|(p, _)| p.guided == guided)
    {
        let mut v = json!({
            "part": p.name,
            "rule": p.rule,
            "exhaustive": p.exhaustive,
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(),
            "classes": st.labels,
            "thread_s": st.seconds.round(),
            "samples": st.samples,
            "failures": fs.iter().map(|f| json!({"case": f.case, "message": f.message})).collect::<Vec<_>>(),
        });
        if guided {
            v["branches_reached"] = json!(st.edges.len());
            v["branches"] = json!(crate::trace::edges());
            v["cases_kept"] = json!(st.kept);
            v["cases_left_out"] = json!(st.left_out);
        }
        list.push(v);
    }
    Value::Array(list)
}
