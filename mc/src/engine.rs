//! Explicit enumeration engine.
//!
//! A check is a list of finite domains. Every domain maps an index to one case,
//! and running a case drives the real code and compares it with the reference
//! model. Indices are grouped in blocks; every block runs in a thread of its own
//! so that the hash seed of the standard hash maps is owned by the engine (see
//! `seed.rs`). Blocks are distributed over worker processes, so that a case that
//! aborts, overflows the stack or never ends is an observed outcome of that case
//! and not the end of the check.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Whether [`INSIDE`] is kept.
pub static WATCHED: AtomicBool = AtomicBool::new(false);
/// How deep the code that is judged is entered.
pub static INSIDE: AtomicU64 = AtomicU64::new(0);

use crate::seed;

pub struct Fail {
    pub case: String,
    pub expected: String,
    pub actual: String,
}

/// What running cases produces.
#[derive(Default)]
pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub hist: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fail: Option<Fail>,
    /// Hash seed number the case runs under.
    pub seed_no: u32,
    /// Prints every sub case when replaying.
    pub verbose: bool,
    /// Milliseconds of the slowest case so far.
    pub slowest: u64,
}

impl Ctx {
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }

    pub fn fail(
        &mut self,
        case: impl Into<String>,
        expected: impl Into<String>,
        actual: impl Into<String>,
    ) {
        if self.fail.is_none() {
            self.fail = Some(Fail {
                case: case.into(),
                expected: expected.into(),
                actual: actual.into(),
            });
        }
    }

    pub fn hist(&mut self, key: &str) {
        match self.hist.get_mut(key) {
            Some(n) => *n += 1,
            None => {
                self.hist.insert(key.to_string(), 1);
            }
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }

    /// Tells which sub case is about to run, only used when replaying.
    pub fn about(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("about to run: {}", f());
        }
    }
}

pub struct Domain {
    pub name: String,
    pub len: u64,
    /// Number of consecutive indices that share a thread and a hash seed.
    pub block: u64,
    /// Number of hash seeds every block is run under.
    pub seeds: u32,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
}

pub struct Check {
    pub id: &'static str,
    pub domains: Vec<Domain>,
    pub assumptions: Vec<String>,
}

pub fn domain(
    name: impl Into<String>,
    len: usize,
    block: usize,
    run: impl Fn(u64, &mut Ctx) + Send + Sync + 'static,
) -> Domain {
    Domain {
        name: name.into(),
        len: len as u64,
        block: block.max(1) as u64,
        seeds: 1,
        run: Box::new(run),
    }
}

impl Domain {
    pub fn seeds(mut self, n: u32) -> Self {
        self.seeds = n;
        self
    }

    fn blocks(&self) -> u64 {
        self.len.div_ceil(self.block)
    }
}

fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn block_seed(domain: usize, block: u64, seed_no: u32) -> u64 {
    let mut x = verif_seed();
    for v in [domain as u64, block, seed_no as u64] {
        x = seed::mix(x ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    x
}

/// Runs the indices `from..=to` of a block in a fresh thread.
fn run_block(
    check: &Check,
    d: usize,
    block: u64,
    seed_no: u32,
    upto: Option<u64>,
    ctx: Ctx,
    progress: &(dyn Fn(u64) + Sync),
) -> (Ctx, Option<u64>) {
    let dom = &check.domains[d];
    seed::set(block_seed(d, block, seed_no));
    let from = block * dom.block;
    let to = ((block + 1) * dom.block).min(dom.len);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let mut ctx = ctx;
                ctx.seed_no = seed_no;
                for i in from..to {
                    progress(i);
                    if let Some(u) = upto {
                        ctx.verbose = i == u;
                        if i > u {
                            break;
                        }
                    }
                    let from = Instant::now();
                    (dom.run)(i, &mut ctx);
                    ctx.slowest = ctx.slowest.max(from.elapsed().as_millis() as u64);
                    if ctx.failed() {
                        return (ctx, Some(i));
                    }
                }
                (ctx, None)
            })
            .expect("spawn block thread")
            .join()
            .unwrap_or_else(|_| {
                eprintln!("harness panic in {} block {}", dom.name, block);
                std::process::exit(77);
            })
    })
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_AS: i32 = 9;
const RLIMIT_CORE: i32 = 4;

fn limit(resource: i32, value: u64) {
    limit2(resource, value, value);
}

fn limit2(resource: i32, soft: u64, hard: u64) {
    let l = [soft, hard];
    // SAFETY: plain system call with a valid pointer.
    unsafe { setrlimit(resource, &l) };
}

fn memory_limit() {
    limit(RLIMIT_CORE, 0);
    if std::env::var_os("MC_NO_AS_LIMIT").is_none() {
        limit(RLIMIT_AS, 3 << 30);
    }
}

// ---------------------------------------------------------------- worker

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// `worker` entry: runs every block whose number is congruent to `shard`.
pub fn worker(check: &Check, shard: u64, of: u64, out: &Path) {
    memory_limit();
    std::panic::set_hook(Box::new(|_| {}));
    let progress_file = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(out.with_extension("prog"))
        .expect("progress file");
    // cases, traces, time of the slowest case
    let mut totals: Vec<(u64, u64, u64)> = vec![(0, 0, 0); check.domains.len()];
    let mut ctx = Ctx::default();
    let mut result = String::new();
    let mut n = 0u64;
    'all: for (d, dom) in check.domains.iter().enumerate() {
        let before_traces = ctx.traces;
        // samples: keep two per domain
        let mut samples = std::mem::take(&mut ctx.samples);
        for block in 0..dom.blocks() {
            if block % of != shard {
                continue;
            }
            for seed_no in 0..dom.seeds {
                let pf = &progress_file;
                let report = move |i: u64| {
                    use std::os::unix::fs::FileExt;
                    let tick = PROGRESS.fetch_add(1, Ordering::Relaxed);
                    let line = format!("{:>6} {:>14} {:>4} {:>14}\n", d, i, seed_no, tick);
                    let _ = pf.write_at(line.as_bytes(), 0);
                };
                let (c, failed) = run_block(check, d, block, seed_no, None, ctx, &report);
                ctx = c;
                let end = ((block + 1) * dom.block).min(dom.len);
                n += end - block * dom.block;
                if let Some(i) = failed {
                    let f = ctx.fail.as_ref().expect("failure");
                    let _ = writeln!(
                        result,
                        "FAIL {} {} {} {} {} {}",
                        d,
                        i,
                        seed_no,
                        hex(&f.case),
                        hex(&f.expected),
                        hex(&f.actual)
                    );
                    break 'all;
                }
            }
            totals[d].0 += ((block + 1) * dom.block).min(dom.len) - block * dom.block;
        }
        totals[d].1 = ctx.traces - before_traces;
        totals[d].2 = std::mem::take(&mut ctx.slowest);
        samples.append(&mut ctx.samples);
        ctx.samples = samples;
        // allow new samples in the next domain
        let keep = std::mem::take(&mut ctx.samples);
        for s in keep {
            let _ = writeln!(result, "SAMPLE {} {}", d, hex(&s));
        }
    }
    let _ = n;
    let _ = writeln!(
        result,
        "COUNT {} {} {}",
        ctx.states, ctx.transitions, ctx.traces
    );
    for (d, (cases, traces, slowest)) in totals.iter().enumerate() {
        let _ = writeln!(result, "DOM {} {} {} {}", d, cases, traces, slowest);
    }
    for (k, v) in &ctx.hist {
        let _ = writeln!(result, "HIST {} {}", v, hex(k));
    }
    result.push_str("DONE\n");
    std::fs::write(out, result).expect("write worker result");
}

fn hex(s: &str) -> String {
    let mut r = String::from("x");
    for b in s.bytes() {
        let _ = write!(r, "{:02x}", b);
    }
    r
}

fn unhex(s: &str) -> String {
    let b = &s.as_bytes()[1..];
    let v: Vec<u8> = b
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect();
    String::from_utf8_lossy(&v).into_owned()
}

// ---------------------------------------------------------------- single case

/// Runs a single case. Exit code 0: held, 1: violated (details on stdout).
pub fn one(check: &Check, d: usize, index: u64, seed_no: u32) -> i32 {
    memory_limit();
    limit2(RLIMIT_CPU, 60, 70);
    std::panic::set_hook(Box::new(|_| {}));
    // Where does the time go? A reference that is too slow is no verdict.
    WATCHED.store(true, Ordering::Relaxed);
    std::thread::spawn(|| {
        let (mut all, mut judged) = (0u64, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(20));
            all += 1;
            judged += u64::from(INSIDE.load(Ordering::Relaxed) > 0);
            if cpu_seconds(std::process::id()) > 55.0 {
                if judged * 2 < all {
                    std::process::exit(78);
                }
                return;
            }
        }
    });
    let block = index / check.domains[d].block;
    let (ctx, failed) = run_block(
        check,
        d,
        block,
        seed_no,
        Some(index),
        Ctx::default(),
        &|_| {},
    );
    match (failed, ctx.fail) {
        (Some(_), Some(f)) => {
            println!(
                "case: {}\nexpected: {}\nactual: {}",
                f.case, f.expected, f.actual
            );
            1
        }
        _ => 0,
    }
}

// ---------------------------------------------------------------- parent

struct Running {
    child: Child,
    out: PathBuf,
    last_progress: String,
    cpu_at_progress: f64,
    waited: u32,
    done: bool,
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) else {
        return 0.0;
    };
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0)
        + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    t / 100.0
}

pub struct Violation {
    d: usize,
    index: u64,
    seed_no: u32,
    case: String,
    expected: String,
    actual: String,
}

const HANG_CPU_S: f64 = 30.0;

pub fn run(check: &Check, tier: &str, verif: &Path) -> i32 {
    let start = Instant::now();
    let dir = verif.join("target/run").join(check.id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("run directory");
    let exe = std::env::current_exe().expect("current exe");
    let of: u64 = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get() as u64)
                .unwrap_or(4)
                .min(8)
        });

    let mut workers: Vec<Running> = (0..of)
        .map(|shard| {
            let out = dir.join(format!("w{}.out", shard));
            let log = std::fs::File::create(dir.join(format!("w{}.log", shard))).expect("log");
            let child = Command::new(&exe)
                .args(["worker", check.id, tier])
                .arg(shard.to_string())
                .arg(of.to_string())
                .arg(&out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(log)
                .spawn()
                .expect("spawn worker");
            Running {
                child,
                out,
                last_progress: String::new(),
                cpu_at_progress: 0.0,
                waited: 0,
                done: false,
            }
        })
        .collect();

    let mut violation: Option<Violation> = None;
    let mut error: Option<String> = None;
    let mut engine_results: Vec<String> = Vec::new();

    'poll: loop {
        let mut all = true;
        for w in 0..workers.len() {
            if workers[w].done {
                continue;
            }
            all = false;
            let prog =
                std::fs::read_to_string(workers[w].out.with_extension("prog")).unwrap_or_default();
            match workers[w].child.try_wait().expect("wait") {
                Some(status) => {
                    workers[w].done = true;
                    let res = std::fs::read_to_string(&workers[w].out).unwrap_or_default();
                    if status.success() && res.ends_with("DONE\n") {
                        let bad = res.lines().any(|l| l.starts_with("FAIL "));
                        engine_results.push(res);
                        if bad {
                            break 'poll;
                        }
                    } else if status.code() == Some(77) {
                        let log = std::fs::read_to_string(workers[w].out.with_extension("log"))
                            .unwrap_or_default();
                        error = Some(format!("harness panic: {}", log.trim()));
                        break 'poll;
                    } else {
                        let how = match status.signal() {
                            Some(s) => format!("the process was ended by signal {}", s),
                            None => format!("the process exited with {:?}", status.code()),
                        };
                        let log = std::fs::read_to_string(workers[w].out.with_extension("log"))
                            .unwrap_or_default();
                        match confirm(check, tier, &exe, &prog, &how, &log) {
                            Ok(Some(v)) => violation = Some(v),
                            Ok(None) => error = Some(format!("{} at {}, but not when run alone", how, prog)),
                            Err(e) => error = Some(e),
                        }
                        break 'poll;
                    }
                }
                None => {
                    let cpu = cpu_seconds(workers[w].child.id());
                    if prog != workers[w].last_progress {
                        workers[w].last_progress = prog;
                        workers[w].waited = 0;
                        workers[w].cpu_at_progress = cpu;
                    } else if cpu - workers[w].cpu_at_progress > HANG_CPU_S {
                        let how = format!("no end after {} s of processor time", HANG_CPU_S);
                        match confirm(check, tier, &exe, &prog, &how, "") {
                            Ok(Some(v)) => violation = Some(v),
                            Ok(None) if workers[w].waited < 4 => {
                                // slow, but it does end: go on waiting for it
                                workers[w].waited += 1;
                                workers[w].cpu_at_progress = cpu_seconds(workers[w].child.id());
                                continue;
                            }
                            Ok(None) => error = Some(format!("{} at {}, but not when run alone", how, prog)),
                            Err(e) => error = Some(e),
                        }
                        break 'poll;
                    }
                }
            }
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in &mut workers {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }

    // gather
    let (mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_dom = vec![(0u64, 0u64, 0u64); check.domains.len()];
    let mut samples: Vec<(usize, String)> = Vec::new();
    for res in &engine_results {
        for line in res.lines() {
            let f: Vec<&str> = line.split(' ').collect();
            let num = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            match f[0] {
                "COUNT" => {
                    states += num(1);
                    transitions += num(2);
                    traces += num(3);
                }
                "DOM" => {
                    let d = num(1) as usize;
                    per_dom[d].0 += num(2);
                    per_dom[d].1 += num(3);
                    per_dom[d].2 = per_dom[d].2.max(num(4));
                }
                "HIST" => *hist.entry(unhex(f[2])).or_default() += num(1),
                "SAMPLE" => {
                    let d = num(1) as usize;
                    if samples.iter().filter(|(x, _)| *x == d).count() < 2 {
                        samples.push((d, unhex(f[2])));
                    }
                }
                "FAIL" => {
                    let v = Violation {
                        d: num(1) as usize,
                        index: num(2),
                        seed_no: num(3) as u32,
                        case: unhex(f[4]),
                        expected: unhex(f[5]),
                        actual: unhex(f[6]),
                    };
                    if violation.is_none() {
                        violation = Some(v);
                    }
                }
                _ => {}
            }
        }
    }
    samples.sort();

    if let Some(e) = &error {
        println!("CHECK ERROR property={} {}", check.id, e);
    }

    let complete = violation.is_none()
        && error.is_none()
        && check
            .domains
            .iter()
            .zip(&per_dom)
            .all(|(d, (cases, _, _))| d.len == *cases);

    let mut code = 0;
    if let Some(v) = &violation {
        let replay_dir = verif.join("replay");
        std::fs::create_dir_all(&replay_dir).expect("replay directory");
        let path = replay_dir.join(format!("{}.json", check.id));
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"domain\": {},\n \"domain_index\": {},\n \"index\": {},\n \"seed_no\": {},\n \"case\": {},\n \"expected\": {},\n \"actual\": {},\n \"replay_cmd\": {}\n}}\n",
            json(check.id),
            json(tier),
            verif_seed(),
            json(&check.domains[v.d].name),
            v.d,
            v.index,
            v.seed_no,
            json(&v.case),
            json(&v.expected),
            json(&v.actual),
            json(&format!("{} replay {}", exe.display(), path.display())),
        );
        std::fs::write(&path, body).expect("write replay");
        println!(
            "case: {}\nexpected: {}\nactual: {}",
            v.case, v.expected, v.actual
        );
        println!(
            "VIOLATION property={} replay={}",
            check.id,
            path.display()
        );
        code = 1;
    } else if error.is_some() || !complete {
        code = 2;
        if error.is_none() {
            println!("CHECK ERROR property={} enumeration incomplete", check.id);
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
        json(check.id),
        json(tier),
        verif_seed(),
        states,
        transitions,
        traces,
        complete
    );
    ev.push_str("  \"domains\": [\n");
    for (i, (d, (cases, tr, slowest))) in check.domains.iter().zip(&per_dom).enumerate() {
        let _ = writeln!(
            ev,
            "   {{\"name\": {}, \"size\": {}, \"explored\": {}, \"hash_seeds\": {}, \"impl_runs\": {}, \"slowest_case_ms\": {}}}{}",
            json(&d.name),
            d.len,
            cases,
            d.seeds,
            tr,
            slowest,
            if i + 1 < check.domains.len() { "," } else { "" }
        );
    }
    ev.push_str("  ],\n  \"outcomes\": {");
    for (i, (k, v)) in hist.iter().enumerate() {
        let _ = write!(ev, "{}{}: {}", if i > 0 { ", " } else { "" }, json(k), v);
    }
    ev.push_str("},\n  \"samples\": [\n");
    for (i, (d, s)) in samples.iter().enumerate() {
        let _ = writeln!(
            ev,
            "   {}{}",
            json(&format!("{}: {}", check.domains[*d].name, s)),
            if i + 1 < samples.len() { "," } else { "" }
        );
    }
    ev.push_str("  ]\n },\n \"assumptions\": [");
    for (i, a) in check.assumptions.iter().enumerate() {
        let _ = write!(ev, "{}{}", if i > 0 { ", " } else { "" }, json(a));
    }
    let _ = write!(
        ev,
        "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        wall,
        violation.is_some() as u32
    );
    let evdir = verif.join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence directory");
    std::fs::write(evdir.join(format!("{}.json", check.id)), ev).expect("write evidence");

    println!(
        "property={} tier={} states={} transitions={} impl_runs={} complete={} wall={:.1}s",
        check.id, tier, states, transitions, traces, complete, wall
    );
    for (d, (cases, tr, _)) in check.domains.iter().zip(&per_dom) {
        println!("  {}: {}/{} cases, {} runs", d.name, cases, d.len, tr);
    }
    println!("  outcomes: {:?}", hist);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Reruns the case a worker was at when it died, alone, to make sure that it is
/// the case that did it.
fn confirm(
    check: &Check,
    tier: &str,
    exe: &Path,
    prog: &str,
    how: &str,
    log: &str,
) -> Result<Option<Violation>, String> {
    let f: Vec<u64> = prog
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect();
    if f.len() < 3 {
        return Err(format!("worker ended before its first case: {} {}", how, log));
    }
    let (d, index, seed_no) = (f[0] as usize, f[1], f[2] as u32);
    let mut child = Command::new(exe)
        .args(["one", check.id, tier])
        .arg(d.to_string())
        .arg(index.to_string())
        .arg(seed_no.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut out = String::new();
    let mut err = Vec::new();
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stderr.read_to_end(&mut err);
        err
    });
    let _ = stdout.read_to_string(&mut out);
    let err = String::from_utf8_lossy(&t.join().unwrap_or_default()).into_owned();
    let status = child.wait().map_err(|e| e.to_string())?;
    if status.code() == Some(0) {
        return Ok(None);
    }
    if status.code() == Some(78) {
        return Err(format!(
            "{} in domain {} index {}, most of it in the reference and not in the code that is judged",
            how, check.domains[d].name, index
        ));
    }
    let last = err
        .lines()
        .filter(|l| l.starts_with("about to run: "))
        .last()
        .unwrap_or("")
        .to_string();
    let report: String = err
        .lines()
        .filter(|l| l.contains("ERROR: AddressSanitizer") || l.contains("    #"))
        .take(12)
        .collect::<Vec<_>>()
        .join(" | ");
    let end = match status.signal() {
        Some(24) => "no end after 60 s of processor time".to_string(),
        Some(s) => format!("process ended by signal {}", s),
        None => format!("{} {}", out.trim(), report),
    };
    Ok(Some(Violation {
        d,
        index,
        seed_no,
        case: format!(
            "domain {} index {} {}",
            check.domains[d].name, index, last
        ),
        expected: "the case runs to its end".into(),
        actual: format!("{}; alone: {}", how, end),
    }))
}

pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Reads the integer after `"key":` of a replay file written by this engine.
pub fn json_int(body: &str, key: &str) -> Option<u64> {
    let at = body.find(&format!("\"{}\":", key))? + key.len() + 3;
    body[at..]
        .trim_start()
        .split(|c: char| !c.is_ascii_digit())
        .next()?
        .parse()
        .ok()
}

pub fn json_str(body: &str, key: &str) -> Option<String> {
    let at = body.find(&format!("\"{}\": \"", key))? + key.len() + 5;
    Some(body[at..].split('"').next()?.to_string())
}

pub fn flush() {
    let _ = std::io::stdout().flush();
}
