//! Drives the legs of one property: deterministic sharded proptest runs, statistics, shrinking,
//! replay files, the allocation budget and crash journalling.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::Hasher;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- allocation budget
// Counts allocations per thread while a case runs. The count is a deterministic measure of work:
// a loop of the code under test that no longer terminates but allocates is stopped by it, with
// no clock involved. The limit of every leg is far (>= 50x) above what the unchanged code uses.
pub struct CountingAlloc;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ALLOC_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
#[inline]
fn tick() {
    let _ = ALLOCS.try_with(|a| {
        let n = a.get() + 1;
        a.set(n);
        let _ = ALLOC_LIMIT.try_with(|l| {
            if n > l.get() {
                l.set(u64::MAX);
                eprintln!(
                    "\nGEOMCHECK-BUDGET thread '{}' made more than {} allocations in one case",
                    std::thread::current().name().unwrap_or("?"),
                    n - 1
                );
                std::process::abort();
            }
        });
    });
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- processor time budget
// A loop that neither ends nor allocates is stopped by the processor time its thread (not the
// wall clock) spends on one case: CPU_LIMIT, more than 100 times what the slowest case needs.
const CPU_LIMIT: f64 = 60.0;
struct Watched {
    tid: i64,
    name: String,
    case: AtomicU64,
    alive: AtomicBool,
}
static WATCHED: Mutex<Vec<Arc<Watched>>> = Mutex::new(Vec::new());
extern "C" {
    fn syscall(n: std::os::raw::c_long, ...) -> std::os::raw::c_long;
}
fn watch() -> Arc<Watched> {
    let w = Arc::new(Watched {
        tid: unsafe { syscall(186) } as i64,
        name: std::thread::current().name().unwrap_or("?").to_string(),
        case: AtomicU64::new(0),
        alive: AtomicBool::new(true),
    });
    WATCHED.lock().unwrap().push(w.clone());
    w
}
fn cpu_seconds(tid: i64) -> Option<f64> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &stat[stat.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}
fn watchdog() {
    let mut seen: std::collections::HashMap<i64, (u64, f64)> = Default::default();
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let list: Vec<Arc<Watched>> = {
            let mut l = WATCHED.lock().unwrap();
            l.retain(|w| w.alive.load(Ordering::SeqCst));
            l.clone()
        };
        for w in list {
            let case = w.case.load(Ordering::SeqCst);
            let Some(cpu) = cpu_seconds(w.tid) else { continue };
            let e = seen.entry(w.tid).or_insert((case, cpu));
            if e.0 != case {
                *e = (case, cpu);
            } else if cpu - e.1 > CPU_LIMIT && w.alive.load(Ordering::SeqCst) {
                eprintln!("\nGEOMCHECK-BUDGET thread '{}' spent more than {} s of processor time on one case", w.name, CPU_LIMIT);
                std::process::abort();
            }
        }
    }
}

// ---------------------------------------------------------------- cases
/// What a check records about one generated case.
#[derive(Default)]
pub struct Case {
    labels: Vec<&'static str>,
    nontrivial: bool,
}
impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

// ---------------------------------------------------------------- legs
pub struct ShardOut {
    pub evaluations: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub max_allocs: u64,
    pub failure: Option<Failure>,
}
#[derive(Clone)]
pub struct Failure {
    pub leg: String,
    pub shard: u32,
    pub reason: String,
    pub input: String,
}

pub struct Leg {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub run: Box<dyn Fn(&ShardSpec) -> ShardOut + Send + Sync>,
}

pub struct ShardSpec {
    pub leg: String,
    pub shard: u32,
    pub cases: u32,
    pub seed: u64,
    pub journal: Option<std::path::PathBuf>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub legs: Vec<Leg>,
}

struct HashWriter(std::collections::hash_map::DefaultHasher);
impl std::fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.write(s.as_bytes());
        Ok(())
    }
}
fn debug_hash<T: std::fmt::Debug>(v: &T) -> u64 {
    let mut h = HashWriter(std::collections::hash_map::DefaultHasher::new());
    let _ = write!(h, "{:?}", v);
    h.0.finish()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], s.len())
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    format!("panicked: {}", msg)
}

pub const DEFAULT_LIMIT: u64 = 20_000_000;

/// A leg: a generator and an oracle. `mk` builds the generator, `test` decides one case.
pub fn leg<S, F>(name: &'static str, quick: u32, thorough: u32, mk: fn() -> S, test: F) -> Leg
where
    S: Strategy + 'static,
    S::Value: std::fmt::Debug,
    F: Fn(&S::Value, &mut Case) -> Check + Send + Sync + Copy + 'static,
{
    leg_lim(name, quick, thorough, DEFAULT_LIMIT, mk, test)
}

pub fn leg_lim<S, F>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    limit: u64,
    mk: fn() -> S,
    test: F,
) -> Leg
where
    S: Strategy + 'static,
    S::Value: std::fmt::Debug,
    F: Fn(&S::Value, &mut Case) -> Check + Send + Sync + Copy + 'static,
{
    Leg {
        name,
        quick,
        thorough,
        run: Box::new(move |spec| run_shard(spec, limit, mk(), test)),
    }
}

fn run_shard<S, F>(spec: &ShardSpec, limit: u64, strategy: S, test: F) -> ShardOut
where
    S: Strategy,
    S::Value: std::fmt::Debug,
    F: Fn(&S::Value, &mut Case) -> Check,
{
    let out = std::cell::RefCell::new(ShardOut {
        evaluations: 0,
        labels: BTreeMap::new(),
        hashes: HashSet::new(),
        samples: Vec::new(),
        max_allocs: 0,
        failure: None,
    });
    let failing = Cell::new(false);
    let config = Config {
        cases: spec.cases,
        rng_seed: RngSeed::Fixed(spec.seed),
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_local_rejects: 1 << 20,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let mut runner = TestRunner::new(config);
    let watched = watch();
    let result = runner.run(&strategy, |value| {
        // tells the watchdog that a new case begins (globally unique, as thread ids recur)
        static NEXT: AtomicU64 = AtomicU64::new(1);
        watched.case.store(NEXT.fetch_add(1, Ordering::SeqCst), Ordering::SeqCst);
        if let Some(path) = &spec.journal {
            let _ = std::fs::write(path, format!("{:#?}", value));
        }
        let mut case = Case::default();
        ALLOCS.with(|a| a.set(0));
        ALLOC_LIMIT.with(|l| l.set(limit));
        let verdict =
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| test(&value, &mut case)));
        ALLOC_LIMIT.with(|l| l.set(u64::MAX));
        let allocs = ALLOCS.with(|a| a.get());
        let verdict = match verdict {
            Ok(v) => v,
            Err(p) => Err(panic_text(p)),
        };
        if !failing.get() {
            let mut o = out.borrow_mut();
            o.evaluations += 1;
            o.max_allocs = o.max_allocs.max(allocs);
            for l in &case.labels {
                *o.labels.entry(l).or_insert(0) += 1;
            }
            if case.nontrivial {
                o.hashes.insert(debug_hash(&value));
                if o.samples.len() < 2 {
                    let text = clip(&format!("{:?}", value), 700);
                    o.samples.push(text);
                }
            }
        }
        verdict.map_err(|e| {
            failing.set(true);
            TestCaseError::fail(e)
        })
    });
    watched.alive.store(false, Ordering::SeqCst);
    let mut out = out.into_inner();
    out.failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(reason, value)) => Some(Failure {
            leg: spec.leg.clone(),
            shard: spec.shard,
            reason: reason.message().to_string(),
            input: format!("{:#?}", value),
        }),
        Err(TestError::Abort(reason)) => {
            eprintln!("GEOMCHECK-ABORT leg {} shard {}: {}", spec.leg, spec.shard, reason);
            std::process::exit(2);
        }
    };
    out
}

// ---------------------------------------------------------------- running a property
#[derive(Default)]
pub struct LegStats {
    pub name: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_allocs: u64,
}
pub struct RunOut {
    pub legs: Vec<LegStats>,
    pub failures: Vec<Failure>,
}

fn mix(mut h: u64, s: &[u8]) -> u64 {
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
fn shard_seed(seed: u64, prop: &str, leg: &str, shard: u32) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    h = mix(h, prop.as_bytes());
    h = mix(h, leg.as_bytes());
    h = mix(h, &shard.to_le_bytes());
    h ^= h >> 32;
    h.wrapping_mul(0xD6E8FEB86659FD93)
}

pub struct RunOpts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub only: Option<(String, Option<u32>)>,
    pub journal_dir: Option<std::path::PathBuf>,
    pub threads: usize,
}

const SHARD_CASES: u32 = 256;

pub fn run_property(prop: Property, opts: &RunOpts) -> RunOut {
    let prop = Arc::new(prop);
    let mut specs: Vec<(usize, ShardSpec)> = Vec::new();
    let mut per_leg: Vec<Vec<(usize, ShardSpec)>> = Vec::new();
    for (li, leg) in prop.legs.iter().enumerate() {
        if let Some((name, _)) = &opts.only {
            if name != leg.name {
                continue;
            }
        }
        let total = if opts.thorough { leg.thorough } else { leg.quick };
        let total = ((total as f64 * opts.scale * crate::props::boost(prop.id)).ceil() as u32).max(1);
        // expensive legs (few cases) get small shards so that every core has work
        let size = (total / 16).clamp(1, SHARD_CASES);
        let n = (total + size - 1) / size;
        let mut v = Vec::new();
        for shard in 0..n {
            if let Some((_, Some(s))) = &opts.only {
                if *s != shard {
                    continue;
                }
            }
            let cases = size.min(total - shard * size);
            v.push((
                li,
                ShardSpec {
                    leg: leg.name.to_string(),
                    shard,
                    cases,
                    seed: shard_seed(opts.seed, prop.id, leg.name, shard),
                    journal: opts
                        .journal_dir
                        .as_ref()
                        .map(|d| d.join(format!("{}.{}", leg.name, shard))),
                },
            ));
        }
        per_leg.push(v);
    }
    // round-robin over the legs so that a failing leg is met early
    let mut iters: Vec<_> = per_leg.into_iter().map(|v| v.into_iter()).collect();
    loop {
        let mut any = false;
        for it in iters.iter_mut() {
            if let Some(x) = it.next() {
                specs.push(x);
                any = true;
            }
        }
        if !any {
            break;
        }
    }
    let specs = Arc::new(specs);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(usize, usize, ShardOut)>>> = Arc::new(Mutex::new(Vec::new()));
    std::thread::spawn(watchdog);
    let mut dispatchers = Vec::new();
    for _ in 0..opts.threads.max(1) {
        let (prop, specs, next, stop, results) =
            (prop.clone(), specs.clone(), next.clone(), stop.clone(), results.clone());
        dispatchers.push(std::thread::spawn(move || loop {
            let k = next.fetch_add(1, Ordering::SeqCst);
            if k >= specs.len() || stop.load(Ordering::SeqCst) {
                break;
            }
            let (li, spec) = &specs[k];
            let (p, s, l) = (prop.clone(), specs.clone(), *li);
            // a fresh thread, with the stack a program's main thread has, named after the shard
            let out = std::thread::Builder::new()
                .name(format!("{}@{}", spec.leg, spec.shard))
                .stack_size(8 << 20)
                .spawn(move || (p.legs[l].run)(&s[k].1))
                .unwrap()
                .join();
            match out {
                Ok(out) => {
                    if out.failure.is_some() {
                        stop.store(true, Ordering::SeqCst);
                    }
                    results.lock().unwrap().push((k, *li, out));
                }
                Err(p) => {
                    eprintln!("GEOMCHECK-ABORT harness panic: {}", panic_text(p));
                    std::process::exit(2);
                }
            }
        }));
    }
    for d in dispatchers {
        d.join().unwrap();
    }
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|r| r.0);
    let mut legs: Vec<LegStats> = prop
        .legs
        .iter()
        .map(|l| LegStats { name: l.name.to_string(), ..Default::default() })
        .collect();
    let mut hashes: Vec<HashSet<u64>> = vec![HashSet::new(); legs.len()];
    let mut failures = Vec::new();
    for (_, li, out) in results {
        let st = &mut legs[li];
        st.evaluations += out.evaluations;
        st.max_allocs = st.max_allocs.max(out.max_allocs);
        for (k, v) in out.labels {
            *st.labels.entry(k.to_string()).or_insert(0) += v;
        }
        hashes[li].extend(out.hashes);
        for s in out.samples {
            if st.samples.len() < 2 {
                st.samples.push(s);
            }
        }
        if let Some(f) = out.failure {
            failures.push(f);
        }
    }
    for (st, h) in legs.iter_mut().zip(hashes) {
        st.distinct_nontrivial = h.len() as u64;
    }
    RunOut { legs, failures }
}
