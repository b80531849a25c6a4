//! The driver: seeds to runs, worker processes, minimising, replay files and evidence.

use crate::exec::{self, execute, Outcome};
use crate::gen::generate;
use crate::minim::Minimiser;
use crate::rng::mix;
use crate::sched::{Stats, FAULT_NAMES, NF};
use crate::spec::*;
use crate::{sys, world};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const CHUNK: u64 = 500;
pub const PROPS: [u32; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 18, 19, 20];
const RUN_SECS: u64 = 30;
/// exit codes between the processes of one check
const X_VIOLATION: i32 = 1;
const X_HARNESS: i32 = 3;
pub const X_CODE_PANIC: i32 = 87;
pub const X_HUNG: i32 = 88;

pub fn program(prop: u32, seed: u64, i: u64, scale: u64) -> Program {
    let s = mix(mix(seed) ^ mix(prop as u64 * 1_000_003 + i));
    let mut p = generate(prop, s, scale as f64);
    if i / CHUNK % 2 == 0 {
        p.fine = 0;
    } else if p.fine > 0 && p.cfg.depth > 40 {
        // towers of cells are slow to walk, and slower with every access watched
        p.tasks.iter_mut().for_each(|t| t.truncate(30));
        p.init.truncate(60);
    }
    p
}

/// The instrumented build, for runs that are interleaved inside the library too.
fn exe(fine: bool) -> PathBuf {
    let own = std::env::current_exe().expect("exe");
    let other = own.with_file_name("").join("../fine/release/qtsim");
    if fine && other.exists() {
        other
    } else {
        own
    }
}

fn root() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

/// Execute, telling a panic of the code under test from one of the simulator.
fn run(p: &Program, log: bool) -> Result<Outcome, String> {
    match catch_unwind(AssertUnwindSafe(|| execute(p, log))) {
        Ok(o) => Ok(o),
        Err(_) => Err(exec::LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn panic_exit(msg: &str) -> ! {
    // "panicked at <file>:<line>": the simulator's own files are src/*.rs relative to its crate
    let ours = msg.contains("panicked at src/") || msg.is_empty();
    if ours {
        eprintln!("HARNESS-ERROR {msg}");
        std::process::exit(X_HARNESS);
    }
    eprintln!("CODE-PANIC {msg}");
    std::process::exit(X_CODE_PANIC);
}

// ------------------------------------------------------------------ worker

/// Runs `from..from+n`, stops at the first violation.
pub fn worker(prop: u32, seed: u64, from: u64, n: u64, scale: u64, dir: &str, core: u64) -> i32 {
    let cores = sys::cores();
    if !cores.is_empty() {
        sys::pin(cores[core as usize % cores.len()]);
    }
    sys::limit_memory(6 << 30);
    let at = std::sync::Arc::new(AtomicU64::new(from));
    let at2 = at.clone();
    let atfile = format!("{dir}/{from}.at");
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = at2.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed().as_secs() > RUN_SECS {
                std::process::exit(X_HUNG);
            }
        }
    });
    let mut progress = std::fs::File::create(&atfile).expect("progress file");
    let mut stats = Stats::default();
    let mut hashes: Vec<u8> = vec![];
    let mut done = 0;
    let mut combined = 0u64;
    let mut sample = String::new();
    for i in from..from + n {
        at.store(i, Ordering::Relaxed);
        use std::os::unix::fs::FileExt;
        let _ = progress.write_all_at(&i.to_le_bytes(), 0);
        let p = program(prop, seed, i, scale);
        let o = match run(&p, false) {
            Ok(o) => o,
            Err(m) => panic_exit(&m),
        };
        done += 1;
        combined = mix(combined ^ o.hash);
        let s = &o.stats;
        let eventful = s.switches > 0 || s.faults.iter().any(|x| *x > 0);
        let checked = s.checks > 0;
        let flag = (eventful && checked) as u64;
        hashes.extend((o.hash & !1 | flag).to_le_bytes());
        hashes.extend(o.shape.to_le_bytes());
        if flag == 1 && sample.is_empty() && p.text().len() < 3000 {
            sample = p.text();
        }
        stats.add(s);
        if let Some(v) = o.violation {
            println!("VIOL {i} {} {}", v.class, v.msg.replace('\n', " "));
            break;
        }
    }
    let _ = progress.flush();
    let _ = std::fs::write(format!("{dir}/{from}.hashes"), &hashes);
    let _ = std::fs::write(format!("{dir}/{from}.sample"), &sample);
    println!("STATS {done} {combined} {}", stats_text(&stats));
    0
}

fn stats_text(s: &Stats) -> String {
    let mut v = vec![
        s.steps,
        s.switches,
        s.callbacks,
        s.ops,
        s.checks,
        s.interleaved_ops,
        s.inserts_ok,
        s.recovered_locks,
        s.ambiguous,
        s.max_stack,
        s.inside,
        s.waits,
    ];
    v.extend(s.faults);
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn stats_parse(v: &[u64]) -> Stats {
    let mut s = Stats {
        steps: v[0],
        switches: v[1],
        callbacks: v[2],
        ops: v[3],
        checks: v[4],
        interleaved_ops: v[5],
        inserts_ok: v[6],
        recovered_locks: v[7],
        ambiguous: v[8],
        max_stack: v[9],
        inside: v[10],
        waits: v[11],
        ..Stats::default()
    };
    s.faults.copy_from_slice(&v[12..12 + NF]);
    s
}

// ------------------------------------------------------------------ one program in a process of its own

#[derive(Clone, Debug, PartialEq)]
enum End {
    Clean,
    Violation(String, String),
    Harness(String),
}

fn status_end(st: std::process::ExitStatus, out: &str, err: &str, hung: bool) -> End {
    if hung {
        return End::Violation("hung".into(), "the run does not finish".into());
    }
    if let Some(l) = out.lines().find(|l| l.starts_with("CLASS ")) {
        let l = &l[6..];
        let (c, m) = l.split_once(' ').unwrap_or((l, ""));
        return End::Violation(c.into(), m.into());
    }
    match (st.code(), st.signal()) {
        (Some(0), _) => End::Clean,
        (Some(X_CODE_PANIC), _) => {
            End::Violation("died".into(), format!("panic: {}", err.trim().replace('\n', " ")))
        }
        (Some(X_HUNG), _) => End::Violation("hung".into(), "the run does not finish".into()),
        (None, Some(s)) => {
            End::Violation("died".into(), format!("the process was ended by signal {s}: {}", cut(err)))
        }
        _ => End::Harness(cut(err)),
    }
}

fn cut(s: &str) -> String {
    s.trim().replace('\n', " ").chars().take(600).collect()
}

/// Run a replay file in a fresh process.
fn run_file(path: &Path, secs: u64) -> (End, String) {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let fine = text.contains("\nfine ") || text.contains("sequence 8 ");
    let mut c = Command::new(exe(fine))
        .arg("inner")
        .arg(path)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let mut hung = false;
    let st = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break s;
        }
        if start.elapsed().as_secs() >= secs && !hung {
            hung = true;
            sys::kill9(c.id());
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 200 { 2 } else { 20 }));
    };
    let out = t1.join().unwrap_or_default();
    let err = t2.join().unwrap_or_default();
    (status_end(st, &out, &err, hung), out)
}

/// Child side of `run_file`.
pub fn inner(path: &str) -> i32 {
    sys::limit_memory(6 << 30);
    if let Some(&c) = sys::cores().first() {
        // any one core will do
        let all = sys::cores();
        sys::pin(all.get(std::process::id() as usize % all.len()).copied().unwrap_or(c));
    }
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return X_HARNESS;
        }
    };
    let mut progs = vec![];
    if let Some(l) = text.lines().find(|l| l.starts_with("sequence ")) {
        // a violation that needs the runs before it in the same process
        let v: Vec<u64> = l[9..].split_whitespace().filter_map(|x| x.parse().ok()).collect();
        for i in v[2]..=v[3] {
            progs.push(program(v[0] as u32, v[1], i, v[4]));
        }
    } else {
        match Program::parse(&text) {
            Ok(p) => progs.push(p),
            Err(e) => {
                eprintln!("cannot parse {path}: {e}");
                return X_HARNESS;
            }
        }
    }
    let last = progs.len() - 1;
    for (i, p) in progs.iter().enumerate() {
        if i == last {
            // the log of a run that kills its process must not be lost: the program goes first
            println!("{}", p.text());
        }
        let o = match run(p, i == last) {
            Ok(o) => o,
            Err(m) => panic_exit(&m),
        };
        if i == last {
            for l in &o.log {
                println!("{l}");
            }
            println!("event log hash {:016x}", o.hash);
        }
        if let Some(v) = o.violation {
            println!("CLASS {} {}", v.class, v.msg.replace('\n', " "));
            return X_VIOLATION;
        }
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let (end, out) = run_file(Path::new(path), 300);
    print!("{out}");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let prop = text
        .lines()
        .find_map(|l| l.strip_prefix("property ").or(l.strip_prefix("# property ")))
        .unwrap_or("?")
        .to_string();
    match end {
        End::Clean => {
            println!("no violation");
            0
        }
        End::Violation(c, m) => {
            println!("{c}: {m}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        End::Harness(e) => {
            eprintln!("HARNESS-ERROR {e}");
            3
        }
    }
}

/// `minim IN CLASS OUT`: shrink in this process, writing every improvement to OUT.
pub fn minim_cmd(input: &str, class: &str, out: &str) -> i32 {
    sys::limit_memory(6 << 30);
    if let Some(&c) = sys::cores().first() {
        sys::pin(c);
    }
    let Ok(text) = std::fs::read_to_string(input) else { return 3 };
    let Ok(p) = Program::parse(&text) else { return 3 };
    let same = |q: &Program| matches!(run(q, false), Ok(o) if o.violation.as_ref().is_some_and(|v| v.class == class));
    // the schedule as it was, switch by switch
    let mut start = p.clone();
    if let Ok(o) = run(&p, false) {
        let mut q = p.clone();
        q.scheds.truncate(o.switches.len());
        for (s, v) in q.scheds.iter_mut().zip(&o.switches) {
            *s = Sched::Explicit(v.clone());
        }
        if same(&q) {
            start = q;
        }
    }
    let save = |q: &Program| {
        let _ = std::fs::write(out, q.text());
    };
    save(&start);
    let best = {
        let mut m = Minimiser::new(
            Box::new(|q: &Program| {
                let ok = same(q);
                if ok {
                    save(q);
                }
                ok
            }),
            6000,
            40,
        );
        m.run(start)
    };
    save(&best);
    0
}

// ------------------------------------------------------------------ the check

struct Found {
    i: u64,
    from: u64,
    class: String,
    msg: String,
}

#[derive(Default)]
struct Tally {
    runs: u64,
    stats: Stats,
    events: HashSet<u64>,
    shapes: HashSet<u64>,
    samples: BTreeMap<u64, String>,
    hashes: BTreeMap<u64, u64>,
    found: Vec<Found>,
    harness: Option<String>,
    inconclusive: Vec<String>,
}

fn plan(prop: u32, tier: &str) -> (u64, u64, u64) {
    // runs, wall cap in seconds, scale
    let f = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let quick: u64 = match prop {
        12 => 75_000,
        2 => 120_000,
        18 => 120_000,
        8 => 180_000,
        19 => 200_000,
        6 => 240_000,
        20 => 160_000,
        1 | 5 | 13 => 300_000,
        4 | 9 => 400_000,
        _ => 480_000,
    };
    let (n, cap, scale) = if tier == "thorough" { (quick * 40, 720, 4) } else { (quick, 150, 1) };
    (f("QTSIM_RUNS").unwrap_or(n), f("QTSIM_SECS").unwrap_or(cap), scale)
}

fn scratch(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("qtsim-{}-{tag}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// One worker process for one chunk of runs.
fn run_chunk(prop: u32, seed: u64, from: u64, n: u64, scale: u64, dir: &Path, core: u64, tally: &Mutex<Tally>) {
    let fine = prop == 8 && (from / CHUNK % 2 == 1 || (from + n - 1) / CHUNK != from / CHUNK);
    let c = Command::new(exe(fine))
        .args(["worker", &prop.to_string(), &seed.to_string(), &from.to_string(), &n.to_string(), &scale.to_string()])
        .arg(dir)
        .arg(core.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output();
    let c = match c {
        Ok(c) => c,
        Err(e) => {
            tally.lock().unwrap().harness.get_or_insert(format!("cannot start a worker: {e}"));
            return;
        }
    };
    let out = String::from_utf8_lossy(&c.stdout).into_owned();
    let err = String::from_utf8_lossy(&c.stderr).into_owned();
    let at = std::fs::read(dir.join(format!("{from}.at")))
        .ok()
        .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
    let hashes = std::fs::read(dir.join(format!("{from}.hashes"))).unwrap_or_default();
    let sample = std::fs::read_to_string(dir.join(format!("{from}.sample"))).unwrap_or_default();
    for x in ["at", "hashes", "sample"] {
        let _ = std::fs::remove_file(dir.join(format!("{from}.{x}")));
    }
    let mut t = tally.lock().unwrap();
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("VIOL ") {
            let mut w = r.splitn(3, ' ');
            let i = w.next().and_then(|x| x.parse().ok()).unwrap_or(from);
            let class = w.next().unwrap_or("").to_string();
            let msg = w.next().unwrap_or("").to_string();
            t.found.push(Found { i, from, class, msg });
        } else if let Some(r) = l.strip_prefix("STATS ") {
            let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
            if v.len() == 14 + NF {
                t.runs += v[0];
                t.hashes.insert(from, v[1]);
                t.stats.add(&stats_parse(&v[2..]));
            }
        }
    }
    for c in hashes.chunks_exact(16) {
        let h = u64::from_le_bytes(c[..8].try_into().unwrap());
        if h & 1 == 1 {
            t.events.insert(h);
        }
        t.shapes.insert(u64::from_le_bytes(c[8..].try_into().unwrap()));
    }
    if !sample.is_empty() && t.samples.len() < 64 {
        t.samples.insert(from, sample);
    }
    if !c.status.success() {
        match status_end(c.status, "", &err, false) {
            End::Violation(class, msg) => {
                let i = at.unwrap_or(from);
                t.found.push(Found { i, from, class, msg });
            }
            End::Harness(e) => {
                t.harness.get_or_insert(e);
            }
            End::Clean => {}
        }
    }
}

pub fn check(prop: u32) -> i32 {
    let start = Instant::now();
    if !PROPS.contains(&prop) {
        eprintln!("no such check");
        return 3;
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = format!("C{prop:02}");
    println!("{id} {tier} VERIF_SEED={seed}");
    let (runs, cap, scale) = plan(prop, tier);
    let dir = scratch(&id);
    let tally = Mutex::new(Tally::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let jobs = sys::cores().len().clamp(1, 16) as u64;
    let go = |until: u64| {
        std::thread::scope(|s| {
            for k in 0..jobs {
                let (tally, next, stop, dir) = (&tally, &next, &stop, &dir);
                s.spawn(move || loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() >= cap {
                        break;
                    }
                    let from = next.fetch_add(CHUNK, Ordering::Relaxed);
                    if from >= until {
                        break;
                    }
                    run_chunk(prop, seed, from, CHUNK.min(until - from), scale, dir, k, tally);
                    let t = tally.lock().unwrap();
                    if !t.found.is_empty() || t.harness.is_some() {
                        stop.store(true, Ordering::Relaxed);
                    }
                });
            }
        });
    };
    let mut report: Option<(String, String, PathBuf)> = None;
    loop {
        go(runs);
        let found = {
            let mut t = tally.lock().unwrap();
            t.found.sort_by_key(|f| f.i);
            std::mem::take(&mut t.found)
        };
        for f in &found {
            match confirm(prop, seed, scale, f, &dir, &id) {
                Confirm::Yes(class, msg, path) => {
                    report = Some((class, msg, path));
                    break;
                }
                Confirm::No(why) => tally.lock().unwrap().inconclusive.push(why),
            }
        }
        let t = tally.lock().unwrap();
        if report.is_some() || t.harness.is_some() || !stop.load(Ordering::Relaxed) || t.inconclusive.len() > 8 {
            break;
        }
        stop.store(false, Ordering::Relaxed);
    }
    if report.is_none() && prop == 8 && !world::shareable() {
        let path = replay_dir().join("C08-shareable.txt");
        let _ = std::fs::write(&path, "# property C08\n# quadtrees of Send + Sync data are not Send + Sync: see world::shareable\n");
        report = Some(("not_shareable".into(), "a tree of shareable data is not Send + Sync".into(), path));
    }
    // the same runs again in other processes must give the same event logs
    let again = Mutex::new(Tally::default());
    let mut repeat = (0u64, 0u64);
    if report.is_none() {
        let firsts: Vec<u64> = tally.lock().unwrap().hashes.keys().cloned().step_by(7).take(8).collect();
        let firsts = &firsts;
        std::thread::scope(|s| {
            for (k, f) in firsts.iter().enumerate() {
                let (again, dir) = (&again, &dir);
                let n = CHUNK.min(runs - f);
                s.spawn(move || run_chunk(prop, seed, *f, n, scale, dir, k as u64 + 3, again));
            }
        });
        let (a, b) = (again.lock().unwrap(), tally.lock().unwrap());
        repeat = (a.runs, firsts.iter().filter(|f| a.hashes.get(f) != b.hashes.get(f)).count() as u64);
        if repeat.1 > 0 {
            eprintln!("WARNING: {} of {} repeated chunks gave another event log", repeat.1, firsts.len());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let t = tally.into_inner().unwrap();
    for w in &t.inconclusive {
        eprintln!("inconclusive: {w}");
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(&id, tier, seed, &t, repeat, wall, report.as_ref(), runs);
    println!(
        "{id}: {} runs, {} distinct eventful runs, {} checks, {} faults, {:.1} s",
        t.runs,
        t.events.len(),
        t.stats.checks,
        t.stats.faults.iter().sum::<u64>(),
        wall
    );
    if let Some((class, msg, path)) = report {
        println!("{class}: {}", msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if let Some(h) = t.harness {
        eprintln!("HARNESS-ERROR {h}");
        return 3;
    }
    if t.runs == 0 {
        eprintln!("HARNESS-ERROR nothing was run");
        return 3;
    }
    0
}

fn replay_dir() -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

enum Confirm {
    Yes(String, String, PathBuf),
    No(String),
}

/// Reproduce a violation in a fresh process, minimise it and write the replay file.
fn confirm(prop: u32, seed: u64, scale: u64, f: &Found, dir: &Path, id: &str) -> Confirm {
    let head = |class: &str, msg: &str| {
        format!(
            "# replay with: bash /verif/check.sh replay <this file>\n# property {id}\n# found by VERIF_SEED={seed} run {}\n# class {class}: {}\n",
            f.i,
            msg.chars().take(1000).collect::<String>()
        )
    };
    let path = replay_dir().join(format!("{id}-{}.txt", f.class));
    let raw = dir.join("raw.txt");
    let p = program(prop, seed, f.i, scale);
    std::fs::write(&raw, p.text()).expect("scratch file");
    let (end, _) = run_file(&raw, 2 * RUN_SECS);
    let End::Violation(class, msg) = end else {
        if let End::Harness(e) = &end {
            return Confirm::No(format!("run {}: {e}", f.i));
        }
        // not on its own: with the runs before it in the same process?
        let text = format!("sequence {prop} {seed} {} {} {scale}\n", f.from, f.i);
        std::fs::write(&raw, &text).expect("scratch file");
        return match run_file(&raw, 10 * RUN_SECS).0 {
            End::Violation(c, m) => {
                let _ = std::fs::write(&path, head(&c, &m) + &text);
                Confirm::Yes(c, m, path)
            }
            // a run cut short from outside (memory, load) proves nothing
            _ if f.class == "hung" || f.class == "died" => {
                Confirm::No(format!("run {} {} once but not again", f.i, f.class))
            }
            _ => {
                let _ = std::fs::write(&path, head(&f.class, &f.msg) + &p.text());
                let m = format!("{} (not reproducible: the code under test is not deterministic)", f.msg);
                Confirm::Yes(f.class.clone(), m, path)
            }
        };
    };
    let best = dir.join("best.txt");
    let mut small = None;
    if class == "hung" || class == "died" {
        let tmp = dir.join("try.txt");
        let secs = if class == "hung" { 5 } else { RUN_SECS };
        let mut m = Minimiser::new(
            Box::new(|q: &Program| {
                std::fs::write(&tmp, q.text()).expect("scratch file");
                matches!(run_file(&tmp, secs).0, End::Violation(c, _) if c == class)
            }),
            if class == "hung" { 40 } else { 1500 },
            60,
        );
        small = Some(m.run(p.clone()));
    } else if let Ok(mut c) = Command::new(exe(p.fine > 0))
        .arg("minim")
        .arg(&raw)
        .arg(&class)
        .arg(&best)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        let t = Instant::now();
        while let Ok(None) = c.try_wait() {
            if t.elapsed().as_secs() > 60 {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        small = std::fs::read_to_string(&best).ok().and_then(|t| Program::parse(&t).ok());
    }
    if let Some(q) = small {
        let _ = std::fs::write(&path, head(&class, "") + &q.text());
        // what counts is that it fails in the same way, in a fresh process, twice
        let secs = if class == "hung" { RUN_SECS / 2 } else { 2 * RUN_SECS };
        let a = run_file(&path, secs);
        let b = run_file(&path, secs);
        if let (End::Violation(c, m), End::Violation(d, _)) = (&a.0, &b.0) {
            if *c == class && *d == class {
                let _ = std::fs::write(&path, head(c, m) + &q.text());
                return Confirm::Yes(c.clone(), m.clone(), path);
            }
        }
    }
    let _ = std::fs::write(&path, head(&class, &msg) + &p.text());
    Confirm::Yes(class, msg, path)
}

// ------------------------------------------------------------------ evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    id: &str,
    tier: &str,
    seed: u64,
    t: &Tally,
    repeat: (u64, u64),
    wall: f64,
    report: Option<&(String, String, PathBuf)>,
    planned: u64,
) {
    let s = &t.stats;
    let mut faults = String::new();
    for (i, n) in FAULT_NAMES.iter().enumerate() {
        let _ = write!(faults, "{}{}: {}", if i > 0 { ", " } else { "" }, js(n), s.faults[i]);
    }
    let samples: Vec<String> = t.samples.values().take(2).map(|x| js(x)).collect();
    let rule = "a run is a program drawn from mix(VERIF_SEED, property, run number): tree configuration, preloaded data, \
callers' operations, fault plan and scheduler seed. It counts as non-trivial when at least one context switch or fault happened \
in it and at least one check of this property was made; runs are distinct when the hashes of their event logs (callbacks, \
switches, faults, results) differ.";
    let text = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {seed},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
\"runs_planned\": {planned},\n\"runs_per_hour\": {},\n\"simulated_steps\": {},\n\"context_switches\": {},\n\
\"switches_inside_library_code\": {},\n\"waits_for_locks_of_the_library\": {},\n\
\"geometry_callbacks\": {},\n\"operations\": {},\n\"operations_interleaved_inside\": {},\n\"inserts_accepted\": {},\n\
\"poisoned_locks_recovered\": {},\n\"property_checks\": {},\n\"checks_skipped_as_ambiguous\": {},\n\"faults_fired\": {{{faults}}},\n\
\"distinct_tree_shapes\": {},\n\"max_stack_bytes_in_callback\": {},\n\"repeated_runs\": {},\n\"repeated_chunks_that_differed\": {},\n\
\"inconclusive_runs\": {},\n\
\"real_code\": \"the quadtree crate as in /repo's working tree, geo and its dependencies, std threads\",\n\
\"simulated\": \"who runs (baton scheduler), the readers-writer lock around a tree, the data and comparators and everything their callbacks return or do\"\n}},\n\
\"assumptions\": [{}],\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
        js(id),
        js(tier),
        t.runs,
        t.events.len(),
        js(rule),
        samples.join(", "),
        (t.runs as f64 / wall * 3600.0) as u64,
        s.steps,
        s.switches,
        s.inside,
        s.waits,
        s.callbacks,
        s.ops,
        s.interleaved_ops,
        s.inserts_ok,
        s.recovered_locks,
        s.checks,
        s.ambiguous,
        t.shapes.len(),
        s.max_stack,
        repeat.0,
        repeat.1,
        t.inconclusive.len(),
        [
            if id == "C08" {
                "in half of the runs callers interleave at callbacks, iterator steps and operation boundaries only, in the other half also between basic blocks, loads, stores and atomic accesses of library code and where it waits; one step at a time, as on a sequentially consistent machine"
            } else {
                "callers interleave at geometry callbacks, iterator steps and operation boundaries (and where library code waits for a lock): the crate has no other shared state, clock, I/O or randomness"
            },
            "writers exclude readers, as &mut self demands; a crashed caller's lock is recovered and the tree used again",
            "a datum keeps its place while it is stored, except where the fault plan says otherwise",
        ]
        .map(js)
        .join(", "),
        wall,
        report.is_some() as u8,
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{id}.json")), text) {
        eprintln!("cannot write evidence: {e}");
    }
}

// ------------------------------------------------------------------ tools

pub fn scan(prop: u32, from: u64, n: u64) -> i32 {
    if let Some(&c) = sys::cores().last() {
        sys::pin(c);
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut slow = vec![];
    for i in from..from + n {
        let p = program(prop, seed, i, 1);
        let t = Instant::now();
        let o = match run(&p, false) {
            Ok(o) => o,
            Err(m) => panic_exit(&m),
        };
        slow.push((t.elapsed().as_millis(), i));
        st.add(&o.stats);
        if let Some(v) = o.violation {
            let e = classes.entry(v.class).or_insert((0, i, v.msg.chars().take(400).collect()));
            e.0 += 1;
        }
    }
    println!("C{prop:02} {n} runs {:.1}s {}", t0.elapsed().as_secs_f64(), stats_text(&st));
    slow.sort();
    println!("   slowest (ms, run): {:?}", &slow[slow.len().saturating_sub(5)..]);
    for (k, v) in classes {
        println!("   {k}: {} first {} {}", v.0, v.1, v.2);
    }
    0
}

/// Every seed twice: in one process each way round, and with other neighbours.
pub fn selftest(n: u64) -> i32 {
    let dir = scratch("self");
    let mut bad = 0;
    for prop in PROPS {
        let mut tallies = vec![];
        for (jobs, chunk) in [(8u64, n / 8 + 1), (3, n / 3 + 1), (1, n)] {
            let t = Mutex::new(Tally::default());
            let parts: Vec<u64> = (0..n).step_by(chunk as usize).collect();
            std::thread::scope(|s| {
                for (k, f) in parts.iter().enumerate() {
                    let (t, dir) = (&t, dir.join(format!("{jobs}")));
                    let _ = std::fs::create_dir_all(&dir);
                    s.spawn(move || run_chunk(prop, 7, *f, chunk.min(n - f), 1, &dir, k as u64, t));
                }
            });
            let t = t.into_inner().unwrap();
            let mut e: Vec<u64> = t.events.into_iter().collect();
            e.sort();
            tallies.push((t.runs, stats_text(&Stats { max_stack: 0, ..t.stats }), e));
        }
        let ok = tallies.iter().all(|t| *t == tallies[0]);
        println!("C{prop:02}: {} runs three times in 8, 3 and 1 processes: {}", tallies[0].0, if ok { "identical" } else { "DIFFERENT" });
        bad += !ok as i32;
    }
    let _ = std::fs::remove_dir_all(&dir);
    (bad > 0) as i32
}
