//! geomcheck: property-based checks of geom3d. See /verif/DESIGN.md.
//!   geomcheck check <ID>          run a property (VERIF_SEED, VERIF_TIER), write evidence
//!   geomcheck replay <FILE>       re-run the shard a replay file names
//!   geomcheck list                properties and legs
//!   geomcheck stats <ID> [SCALE]  run in process and print the label distribution
mod engine;
mod faults;
mod gen;
mod props;
mod refs;

use engine::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn home() -> PathBuf {
    std::env::var_os("GEOMCHECK_HOME")
        .map(PathBuf::from)
        .unwrap_or_else(|| std::env::current_dir().unwrap())
}
fn env_seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().unwrap_or_else(|_| {
            s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
        }),
        Err(_) => 1,
    }
}
fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn env_scale() -> f64 {
    std::env::var("GEOMCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(
    prop: &str,
    rule: &str,
    assumptions: &[&str],
    out: &RunOut,
    seed: u64,
    thorough: bool,
    wall: f64,
    note: &str,
) -> String {
    let eval: u64 = out.legs.iter().map(|l| l.evaluations).sum();
    let nt: u64 = out.legs.iter().map(|l| l.distinct_nontrivial).sum();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json(prop),
        if thorough { "thorough" } else { "quick" },
        seed,
        eval,
        nt,
        json(rule)
    );
    s.push_str("  \"legs\": {\n");
    for (i, l) in out.legs.iter().enumerate() {
        let labels = l
            .labels
            .iter()
            .map(|(k, v)| format!("{}: {}", json(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        let _ = write!(
            s,
            "   {}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"max_allocations_per_case\": {}, \"classes\": {{{}}}}}{}\n",
            json(&l.name), l.evaluations, l.distinct_nontrivial, l.max_allocs, labels,
            if i + 1 < out.legs.len() { "," } else { "" }
        );
    }
    s.push_str("  },\n  \"samples\": [\n");
    let samples: Vec<String> = out
        .legs
        .iter()
        .flat_map(|l| l.samples.iter().map(move |x| format!("   {}", json(&format!("{}: {}", l.name, x)))))
        .collect();
    s.push_str(&samples.join(",\n"));
    s.push_str("\n  ]\n },\n");
    let _ = write!(
        s,
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}{}\n}}\n",
        assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
        wall,
        out.failures.len(),
        if note.is_empty() { String::new() } else { format!(",\n \"note\": {}", json(note)) }
    );
    s
}

fn replay_text(prop: &str, f: &Failure, seed: u64, thorough: bool) -> String {
    format!(
        "geomcheck-replay 1\nproperty: {}\nleg: {}\nshard: {}\nseed: {}\ntier: {}\nscale: {}\n\nreason: {}\n\nminimal input:\n{}\n",
        prop, f.leg, f.shard, seed, if thorough { "thorough" } else { "quick" }, env_scale(), f.reason, f.input
    )
}

/// Runs the property in this process and leaves verdict + evidence in `dir`.
fn worker(id: &str, dir: &Path, journal: Option<PathBuf>) -> i32 {
    let start = Instant::now();
    let prop = props::find(id);
    let (pid, rule, assumptions) = (prop.id, prop.rule, prop.assumptions);
    let seed = env_seed();
    let thorough = env_thorough();
    let out = run_property(
        prop,
        &RunOpts { seed, thorough, scale: env_scale(), only: None, journal_dir: journal, threads: threads() },
    );
    let ev = evidence(pid, rule, assumptions, &out, seed, thorough, start.elapsed().as_secs_f64(), "");
    std::fs::write(dir.join("evidence.json"), ev).unwrap();
    if let Some(f) = out.failures.first() {
        std::fs::write(dir.join("replay.txt"), replay_text(pid, f, seed, thorough)).unwrap();
        std::fs::write(dir.join("leg.txt"), &f.leg).unwrap();
        return 1;
    }
    0
}

struct TempDir(PathBuf);
impl TempDir {
    fn new() -> TempDir {
        let p = std::env::temp_dir().join(format!("geomcheck-{}", std::process::id()));
        std::fs::create_dir_all(p.join("cwd")).unwrap();
        TempDir(p)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum Ended {
    Code(i32),
    Signal(i32),
    Timeout,
}
fn run_worker(id: &str, tmp: &Path, journal: Option<&Path>, limit: Duration) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.arg("worker").arg(id).arg(tmp);
    if let Some(j) = journal {
        cmd.arg(j);
    }
    cmd.current_dir(tmp.join("cwd"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(tmp.join("stderr.txt")).unwrap());
    let mut child = cmd.spawn().unwrap();
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return match (st.code(), st.signal()) {
                (Some(c), _) => Ended::Code(c),
                (_, Some(s)) => Ended::Signal(s),
                _ => Ended::Code(2),
            };
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ended::Timeout;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn violation(id: &str, leg: &str, replay: &str, evidence: Option<String>) -> i32 {
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{}-{}.txt", id, leg.replace(|c: char| !c.is_alphanumeric(), "_")));
    std::fs::write(&path, replay).unwrap();
    if let Some(e) = evidence {
        std::fs::write(dir.join(format!("{}.json", id)), e).unwrap();
    }
    println!("{}", clip(replay, 4000));
    println!("VIOLATION property={} replay={}", id, path.display());
    1
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let tmp = TempDir::new();
    let limit = Duration::from_secs(if env_thorough() { 6 * 3600 } else { 780 });
    let evid = tmp.0.join("evidence.json");
    let read = |p: PathBuf| std::fs::read_to_string(p).unwrap_or_default();
    match run_worker(id, &tmp.0, None, limit) {
        Ended::Code(0) => {
            let dir = home().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::copy(&evid, dir.join(format!("{}.json", id))).unwrap();
            println!("{}: held on everything explored ({:.1} s)", id, start.elapsed().as_secs_f64());
            0
        }
        Ended::Code(1) if evid.exists() => {
            violation(id, &read(tmp.0.join("leg.txt")), &read(tmp.0.join("replay.txt")), Some(read(evid)))
        }
        Ended::Signal(sig) => {
            // The process died: the code under test overflowed the stack, aborted or ran past its
            // allocation budget. The run is deterministic: repeat it, journalling every input.
            let j = tmp.0.join("journal");
            std::fs::create_dir_all(&j).unwrap();
            match run_worker(id, &tmp.0, Some(&j), limit) {
                Ended::Signal(sig2) => {
                    let err = read(tmp.0.join("stderr.txt"));
                    let name = err
                        .lines()
                        .rev()
                        .filter(|l| l.contains("overflowed its stack") || l.contains("GEOMCHECK-BUDGET"))
                        .find_map(|l| l.split('\'').nth(1).map(str::to_string));
                    let tail: Vec<&str> = err.lines().rev().take(6).collect();
                    match name {
                        Some(n) if n.contains('@') => {
                            let (leg, shard) = n.split_once('@').unwrap();
                            let f = Failure {
                                leg: leg.to_string(),
                                shard: shard.parse().unwrap_or(0),
                                reason: format!(
                                    "the process died of signal {} (first run: {}): {}",
                                    sig2,
                                    sig,
                                    tail.iter().rev().cloned().collect::<Vec<_>>().join(" | ")
                                ),
                                input: read(j.join(format!("{}.{}", leg, shard))),
                            };
                            violation(id, leg, &replay_text(id, &f, env_seed(), env_thorough()), None)
                        }
                        _ => {
                            eprintln!("worker died of signal {} for an unknown reason:\n{}", sig2, clip(&err, 4000));
                            2
                        }
                    }
                }
                _ => {
                    eprintln!("worker died of signal {} but the journalled run did not", sig);
                    2
                }
            }
        }
        Ended::Code(c) => {
            eprintln!("worker error {}:\n{}", c, clip(&read(tmp.0.join("stderr.txt")), 4000));
            2
        }
        Ended::Timeout => {
            eprintln!("watchdog: no answer within {:?} (inconclusive, not a violation)", limit);
            2
        }
    }
}

/// Runs f with the library's own output to stdout discarded.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(from: i32, to: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let saved = unsafe { dup(1) };
    unsafe { dup2(null.as_raw_fd(), 1) };
    let r = f();
    unsafe { dup2(saved, 1) };
    unsafe { close(saved) };
    r
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(str::to_string))
            .unwrap_or_default()
    };
    let prop = props::find(&field("property"));
    let cwd = TempDir::new();
    std::env::set_current_dir(cwd.0.join("cwd")).unwrap();
    let opts = RunOpts {
        seed: field("seed").parse().unwrap_or(1),
        thorough: field("tier") == "thorough",
        scale: field("scale").parse().unwrap_or(1.0),
        only: Some((field("leg"), field("shard").parse().ok())),
        journal_dir: None,
        threads: 1,
    };
    let out = quiet(|| run_property(prop, &opts));
    match out.failures.first() {
        Some(f) => {
            println!("REPRODUCED leg {} shard {}\nreason: {}\nminimal input:\n{}", f.leg, f.shard, f.reason, clip(&f.input, 6000));
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn stats(id: &str, scale: f64, leg: Option<String>) {
    let prop = props::find(id);
    let cwd = TempDir::new();
    std::env::set_current_dir(cwd.0.join("cwd")).unwrap();
    let start = Instant::now();
    let opts = RunOpts { seed: env_seed(), thorough: env_thorough(), scale, only: leg.map(|l| (l, None)), journal_dir: std::env::var("GEOMCHECK_JOURNAL").ok().map(PathBuf::from), threads: threads() };
    let out = quiet(|| run_property(prop, &opts));
    for l in &out.legs {
        if l.evaluations == 0 {
            continue;
        }
        println!("{:<28} eval {:>7} nontrivial {:>7} max allocs {}", l.name, l.evaluations, l.distinct_nontrivial, l.max_allocs);
        for (k, v) in &l.labels {
            println!("      {:<40} {:>7} ({:.1}%)", k, v, 100.0 * *v as f64 / l.evaluations as f64);
        }
    }
    for f in out.failures.iter().take(1) {
        let compact = f.input.split_whitespace().collect::<Vec<_>>().join(" ");
        println!("FAIL leg {} shard {}\n  reason: {}\n  input: {}", f.leg, f.shard, clip(&f.reason, 1500), clip(&compact, 2500));
    }
    println!("{:.1} s", start.elapsed().as_secs_f64());
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check(&args[2]),
        Some("worker") => worker(&args[2], Path::new(&args[3]), args.get(4).map(PathBuf::from)),
        Some("replay") => replay(&args[2]),
        Some("stats") => {
            stats(&args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1.0), args.get(4).cloned());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.legs.iter().map(|l| l.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: geomcheck check|replay|stats|list");
            2
        }
    };
    std::process::exit(code);
}
