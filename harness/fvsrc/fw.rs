//! Framework running checks: case scheduling, supervision, verdicts, evidence
//!
//! A check consists of parts, a part of numbered cases. Every random choice
//! of a case derives from VERIF_SEED, the part's name and the case's number.
//! Cases are run by a worker process on several threads. A supervising process
//! watches for the worker's death (stack exhaustion, abort) or a case that
//! consumes processor time without end, and confirms by running the suspected
//! case on its own.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::{hash_str, mix, Rng};

pub type Verdict = Result<(), String>;

#[derive(Copy, Clone)]
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Verdict,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
    /// Counters which must not be zero at the end of a run
    pub must: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Case {
    pub r: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub st: Stats,
    sample_due: bool,
}

impl Case {
    /// Account for one evaluation of the oracle
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.st.counters.get_mut(k) {
            *c += n;
        } else {
            self.st.counters.insert(k.to_string(), n);
        }
    }
    /// Account for a non-trivial case with the given content
    pub fn nontrivial(&mut self, content: &str) {
        self.st.seen.insert(hash_str(content));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_due {
            self.sample_due = false;
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str(" ...");
            }
            self.st.samples.push(s);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var_os("FV_BACKTRACE").is_some() {
            eprintln!("{} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Held,
    Violated(String),
    /// The harness itself failed
    Broken(String),
}

/// Run a closure, turning a panic of the crate into a violation
pub fn guarded(f: impl FnOnce() -> Verdict) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) => Outcome::Violated(m),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Paths of the harness are relative, those of dependencies and
            // the standard library are not
            if loc.starts_with("fvsrc/") {
                Outcome::Broken(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Outcome::Violated(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

fn run_case(c: &Check, part: usize, idx: u64, seed: u64, thorough: bool, want_sample: bool) -> (Outcome, Stats) {
    let p = &c.parts[part];
    let s = mix(seed ^ hash_str(c.id)) ^ hash_str(p.name) ^ mix(idx.wrapping_mul(0x9E37_79B9));
    let mut case = Case { r: Rng::new(s), idx, thorough, st: Stats::default(), sample_due: want_sample };
    let o = guarded(|| (p.f)(&mut case));
    case.st.cases = 1;
    (o, case.st)
}

/// Run some cases of all parts of all checks, whatever their verdict
pub fn exercise(seed: u64, n: u64) -> u64 {
    let all = crate::checks::all();
    let todo: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(i, c)| (0..c.parts.len()).map(move |k| (i, k)))
        .filter(|(i, k)| all[*i].id != "C21" && all[*i].parts[*k].name != "process").collect();
    let next = AtomicUsize::new(0);
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (all, todo, next, done) = (&all, &todo, &next, &done);
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= todo.len() {
                    break;
                }
                let (c, p) = (&all[todo[k].0], todo[k].1);
                let t0 = std::time::Instant::now();
                for i in 0..n.min(c.parts[p].quick) {
                    // Costly parts get fewer cases; instrumented, they are costlier still
                    if t0.elapsed().as_secs() >= 5 {
                        break;
                    }
                    // spread over enumerated cases
                    let idx = i * (c.parts[p].quick / n).max(1);
                    let _ = run_case(c, p, idx, seed, false, false);
                    done.fetch_add(1, Ordering::Relaxed);
                }
                if std::env::var("FV_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 0.5 {
                    eprintln!("{} {} {:.1} s", c.id, c.parts[p].name, t0.elapsed().as_secs_f64());
                }
            }).expect("spawn");
        }
    });
    done.load(Ordering::Relaxed)
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub out: String,
    /// Wall clock limit for starting cases; reaching it only ends exploration
    pub limit: f64,
    pub scale: f64,
    pub part: Option<String>,
}

fn thread_cpu(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

/// Processor seconds after which a case counts as not ending. Cases take
/// milliseconds; confirmed on a run of the case alone.
const CPU_LIMIT: f64 = 60.0;

struct Shared {
    stats: Mutex<Stats>,
    viols: Mutex<Vec<(usize, u64, String)>>,
    broken: Mutex<Vec<(usize, u64, String)>>,
    per_part: Vec<AtomicU64>,
}

/// Body of the worker process
pub fn worker(c: &Check, o: &Opts) -> i32 {
    install_hook();
    let t0 = Instant::now();
    // Chunks of cases, parts interleaved so that all get their share should
    // time run out
    let mut chunks: Vec<(f64, usize, u64, u64)> = vec![];
    for (pi, p) in c.parts.iter().enumerate() {
        if o.part.as_ref().map(|n| n != p.name).unwrap_or(false) {
            continue;
        }
        let n = if o.thorough { p.thorough } else { p.quick };
        let n = ((n as f64 * o.scale).ceil() as u64).max(1);
        let k = (n / 64).clamp(1, 64);
        let mut i = 0;
        while i < n {
            let e = (i + k).min(n);
            chunks.push((i as f64 / n as f64, pi, i, e));
            i = e;
        }
    }
    chunks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let chunks = Arc::new(chunks);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let sh = Arc::new(Shared {
        stats: Mutex::new(Stats::default()),
        viols: Mutex::new(vec![]),
        broken: Mutex::new(vec![]),
        per_part: c.parts.iter().map(|_| AtomicU64::new(0)).collect(),
    });
    let slots: Arc<Vec<(AtomicU64, Mutex<String>)>> =
        Arc::new((0..o.threads).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect());
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..o.threads {
            let (chunks, next, stop, sh, slots) = (chunks.clone(), next.clone(), stop.clone(), sh.clone(), slots.clone());
            let o = &*o;
            let c = &*c;
            hs.push(std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(s, move || {
                if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                    if let Some(n) = l.file_name() {
                        *slots[t].1.lock().unwrap() = n.to_string_lossy().into_owned();
                    }
                }
                let slot = std::fs::File::create(format!("{}.slot{}", o.out, t)).ok();
                let mut local = Stats::default();
                let slow: Option<f64> = std::env::var("FV_SLOW").ok().and_then(|v| v.parse().ok());
                let mut n = 0u64;
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= chunks.len() {
                        break;
                    }
                    let (_, part, from, to) = chunks[k];
                    for idx in from..to {
                        if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > o.limit {
                            break;
                        }
                        if let Some(f) = &slot {
                            let _ = f.write_at(format!("{:>8} {:>20}\n", part, idx).as_bytes(), 0);
                        }
                        slots[t].0.fetch_add(1, Ordering::Relaxed);
                        let want = idx == from && local.samples.len() < 4;
                        let t1 = Instant::now();
                        let (out, st) = run_case(c, part, idx, o.seed, o.thorough, want);
                        if slow.map_or(false, |x| t1.elapsed().as_secs_f64() > x) {
                            eprintln!("slow: {}:{} {:.1} s", c.parts[part].name, idx, t1.elapsed().as_secs_f64());
                        }
                        sh.per_part[part].fetch_add(1, Ordering::Relaxed);
                        merge(&mut local, st);
                        match out {
                            Outcome::Held => (),
                            Outcome::Violated(m) => {
                                let mut v = sh.viols.lock().unwrap();
                                v.push((part, idx, m));
                                if v.len() >= 12 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Outcome::Broken(m) => {
                                let mut v = sh.broken.lock().unwrap();
                                v.push((part, idx, m));
                                if v.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        n += 1;
                        if n % 512 == 0 {
                            merge(&mut sh.stats.lock().unwrap(), std::mem::take(&mut local));
                        }
                    }
                }
                slots[t].0.store(u64::MAX, Ordering::Relaxed);
                merge(&mut sh.stats.lock().unwrap(), local);
            }).expect("spawn"));
        }
        // Watch for cases which do not end
        let done = Arc::new(AtomicBool::new(false));
        let (d2, slots) = (done.clone(), slots.clone());
        s.spawn(move || {
            let mut last: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
            while !d2.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for (t, (n, tid)) in slots.iter().enumerate() {
                    let n = n.load(Ordering::Relaxed);
                    if n == 0 || n == u64::MAX {
                        continue;
                    }
                    let tid = tid.lock().unwrap().clone();
                    if let Some(cpu) = thread_cpu(&tid) {
                        if last[t].0 != n {
                            last[t] = (n, cpu);
                        } else if cpu - last[t].1 > CPU_LIMIT {
                            eprintln!("fv: thread {} spends {} s of processor time on one case", t, cpu - last[t].1);
                            unsafe { _exit(97) }
                        }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let st = std::mem::take(&mut *sh.stats.lock().unwrap());
    let mut viols = std::mem::take(&mut *sh.viols.lock().unwrap());
    let broken = std::mem::take(&mut *sh.broken.lock().unwrap());
    viols.sort();
    for (p, i, m) in &broken {
        eprintln!("HARNESS ERROR part={} case={}: {}", c.parts[*p].name, i, m);
    }
    let parts: Vec<(String, u64)> = c.parts.iter().enumerate()
        .map(|(i, p)| (p.name.to_string(), sh.per_part[i].load(Ordering::Relaxed))).collect();
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(c, o, &st, &parts, viols.len(), wall);
    if !viols.is_empty() {
        let (p, i, m) = &viols[0];
        report(c, o, c.parts[*p].name, *i, m);
        for (p, i, m) in viols.iter().skip(1).take(5) {
            println!("also: part={} case={}: {}", c.parts[*p].name, i, m.lines().next().unwrap_or(""));
        }
        return 1;
    }
    if !broken.is_empty() {
        return 3;
    }
    if o.part.is_none() {
        for m in c.must {
            if st.counters.get(*m).copied().unwrap_or(0) == 0 {
                eprintln!("INCONCLUSIVE: nothing observed for '{}'", m);
                return 3;
            }
        }
        for (n, k) in &parts {
            if *k == 0 {
                eprintln!("INCONCLUSIVE: no case of part '{}' was run", n);
                return 3;
            }
        }
    }
    println!("{}: held on {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", c.id, st.cases, st.evals, st.seen.len(), wall);
    0
}

extern "C" {
    fn _exit(code: i32) -> !;
}

fn merge(a: &mut Stats, b: Stats) {
    a.cases += b.cases;
    a.evals += b.evals;
    a.seen.extend(b.seen);
    for (k, v) in b.counters {
        *a.counters.entry(k).or_insert(0) += v;
    }
    a.samples.extend(b.samples);
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(c: &Check, o: &Opts, st: &Stats, parts: &[(String, u64)], viols: usize, wall: f64) {
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", jstr(c.id));
    let _ = writeln!(s, "  \"tier\": {},", jstr(if o.thorough { "thorough" } else { "quick" }));
    let _ = writeln!(s, "  \"seed\": {},", o.seed);
    let _ = writeln!(s, "  \"level\": {},", jstr(c.level));
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", st.evals);
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", st.seen.len());
    let _ = writeln!(s, "    \"cases\": {},", st.cases);
    let _ = writeln!(s, "    \"rule\": {},", jstr(c.rule));
    let _ = writeln!(s, "    \"cases_per_part\": {{{}}},", parts.iter().map(|(n, k)| format!("{}: {}", jstr(n), k)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, "    \"observed\": {{{}}},", st.counters.iter().map(|(n, k)| format!("{}: {}", jstr(n), k)).collect::<Vec<_>>().join(", "));
    let n = st.samples.len();
    let step = (n / 6).max(1);
    let sm: Vec<String> = st.samples.iter().step_by(step).take(6).map(|s| format!("      {}", jstr(s))).collect();
    let _ = writeln!(s, "    \"samples\": [\n{}\n    ]", sm.join(",\n"));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"assumptions\": [{}],", c.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, "  \"wall_s\": {:.2},", wall);
    let _ = writeln!(s, "  \"violations\": {}\n}}", viols);
    if let Err(e) = std::fs::write(format!("{}.json", o.out), s) {
        eprintln!("fv: cannot write evidence: {}", e);
    }
}

fn report(c: &Check, o: &Opts, part: &str, idx: u64, msg: &str) {
    let path = format!("{}.violation.txt", o.out);
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = writeln!(f, "property: {}\npart: {}\ncase: {}\nseed: {}\nreplay: /verif/check.sh {} --case {}:{} --seed {}{}\n\n{}",
            c.id, part, idx, o.seed, c.id, part, idx, o.seed, if o.thorough { " --thorough" } else { "" }, msg);
    }
    println!("{}: part={} case={} seed={}\n{}", c.id, part, idx, o.seed, clip(msg, 3000));
    println!("VIOLATION property={} replay={}", c.id, path);
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{} ...", &s[..k])
}

/// Run a single case in this process
pub fn single(c: &Check, o: &Opts, part: &str, idx: u64) -> i32 {
    install_hook();
    let pi = match c.parts.iter().position(|p| p.name == part) {
        Some(p) => p,
        None => {
            eprintln!("fv: no part {}", part);
            return 2;
        }
    };
    let (out, st) = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(128 << 20)
            .spawn_scoped(s, || run_case(c, pi, idx, o.seed, o.thorough, true)).expect("spawn").join().expect("join")
    });
    for (k, v) in &st.counters {
        println!("  {} = {}", k, v);
    }
    for s in &st.samples {
        println!("  sample: {}", s);
    }
    match out {
        Outcome::Held => {
            println!("held");
            0
        }
        Outcome::Violated(m) => {
            println!("violated:\n{}", m);
            1
        }
        Outcome::Broken(m) => {
            println!("harness error: {}", m);
            3
        }
    }
}

/// Supervise a worker process
pub fn supervise(c: &Check, o: &Opts, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    for t in 0..64 {
        let _ = std::fs::remove_file(format!("{}.slot{}", o.out, t));
    }
    let _ = std::fs::remove_file(format!("{}.json", o.out));
    let _ = std::fs::remove_file(format!("{}.violation.txt", o.out));
    let status = Command::new(&exe).args(args).arg("--worker").stdin(Stdio::null()).status();
    let slots: Vec<(usize, u64)> = (0..o.threads).filter_map(|t| {
        let p = format!("{}.slot{}", o.out, t);
        let s = std::fs::read_to_string(&p).ok();
        let _ = std::fs::remove_file(&p);
        let s = s?;
        let mut i = s.split_whitespace();
        Some((i.next()?.parse().ok()?, i.next()?.parse().ok()?))
    }).collect();
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("fv: cannot run worker: {}", e);
            return 3;
        }
    };
    match (status.code(), status.signal()) {
        (Some(k @ 0..=1), _) => return k,
        (Some(97), _) => (),
        (Some(_), _) => return 3,
        (None, sig) => eprintln!("fv: worker ended by signal {:?}", sig),
    }
    // Find the culprit among the cases that were running
    for (part, idx) in slots {
        let name = match c.parts.get(part) {
            Some(p) => p.name,
            None => continue,
        };
        let mut ch = match Command::new(&exe).args(args).arg("--case").arg(format!("{}:{}", name, idx))
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn()
        {
            Ok(c) => c,
            Err(_) => return 3,
        };
        let pid = ch.id();
        let t0 = Instant::now();
        let st = loop {
            match ch.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) => (),
                Err(_) => break None,
            }
            let cpu = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok().and_then(|s| {
                let s = &s[s.rfind(')')? + 2..];
                let f: Vec<&str> = s.split(' ').collect();
                Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) as f64 / 100.0)
            }).unwrap_or(0.0);
            if cpu > CPU_LIMIT {
                let _ = ch.kill();
                let _ = ch.wait();
                fallback_evidence(c, o, t0.elapsed().as_secs_f64());
                report(c, o, name, idx, &format!("does not end: more than {} s of processor time spent on this case", CPU_LIMIT));
                return 1;
            }
            if t0.elapsed().as_secs() > 300 {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(s) = st {
            if s.code() == Some(1) {
                fallback_evidence(c, o, t0.elapsed().as_secs_f64());
                report(c, o, name, idx, "violated (the worker was ended while running this case)");
                return 1;
            }
            if let Some(sig) = s.signal() {
                if sig == 11 || sig == 6 || sig == 4 || sig == 7 || sig == 8 {
                    fallback_evidence(c, o, t0.elapsed().as_secs_f64());
                    report(c, o, name, idx, &format!("process ended by signal {} (stack exhaustion, abort or runaway allocation)", sig));
                    return 1;
                }
            }
        }
    }
    eprintln!("INCONCLUSIVE: the worker ended unexpectedly and no case reproduces it");
    3
}

fn fallback_evidence(c: &Check, o: &Opts, wall: f64) {
    let st = Stats { cases: 1, evals: 1, ..Default::default() };
    write_evidence(c, o, &st, &[], 1, wall);
}
