//! symx: path-wise symbolic execution of LLVM IR with Z3.
//!
//! usage: symx MODULE.ll ENTRY [--arg N]... [--threads N] [--timeout S] [--out FILE] [--samples FILE]
//!             [--max-steps N] [--max-frames N] [--max-paths N] [--sample-every N] [--dump FILE]
//!
//! Exit status 0 means the exploration is complete (with or without
//! violations, see the output); 2 means it is not.

mod exec;
mod expr;
mod ir;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Cfg {
    pub entry: String,
    pub args: Vec<u64>,
    pub max_steps: u64,
    pub max_frames: usize,
    pub max_paths: u64,
    pub max_values: usize,
    pub sample_every: u64,
    pub per_kind: usize,
    pub max_violations: usize,
    pub query_ms: u32,
    pub dump: Option<String>,
}

pub struct Violation { pub kind: String, pub what: String, pub model: Vec<u8>, pub at: String }

/// Decisions that lead to a state, and inputs that do.
pub struct Work { pub script: Vec<u128>, pub model: Vec<u8> }

pub struct Shared {
    pub cfg: Cfg,
    pub queue: Mutex<Vec<Work>>,
    pub cond: Condvar,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub paths: AtomicU64,
    pub violations: Mutex<Vec<Violation>>,
    pub found: AtomicUsize,
    pub deadline: Instant,
}

#[derive(Default)]
struct Total {
    paths: u64, dead: u64, forks: u64, steps: u64, checks: u64, asked: u64, cached: u64, sat: u64, unsat: u64,
    secs: f64, max_frames: usize,
    covers: BTreeMap<u64, Vec<u8>>,
    used: BTreeSet<String>,
    samples: Vec<(Vec<u8>, u64)>,
    log: Vec<(String, bool)>,
    errors: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (Some(file), Some(entry)) = (a.next(), a.next()) else {
        eprintln!("usage: symx MODULE.ll ENTRY [options]");
        std::process::exit(2);
    };
    let mut cfg = Cfg { entry, args: vec![], max_steps: 20_000_000, max_frames: 100_000, max_paths: 5_000_000, max_values: 300,
        sample_every: 1, per_kind: 8, max_violations: 24, query_ms: 200_000_000, dump: None };
    let (mut threads, mut timeout, mut out, mut samples) = (8usize, 600u64, None, None);
    while let Some(o) = a.next() {
        let v = a.next().unwrap_or_default();
        let n = || v.parse::<u64>().unwrap_or_else(|_| { eprintln!("bad value for {o}"); std::process::exit(2) });
        match o.as_str() {
            "--arg" => cfg.args.push(n()),
            "--threads" => threads = n() as usize,
            "--timeout" => timeout = n(),
            "--out" => out = Some(v),
            "--samples" => samples = Some(v),
            "--max-steps" => cfg.max_steps = n(),
            "--max-frames" => cfg.max_frames = n() as usize,
            "--max-paths" => cfg.max_paths = n(),
            "--max-values" => cfg.max_values = n() as usize,
            "--max-violations" => cfg.max_violations = n() as usize,
            "--sample-every" => cfg.sample_every = n().max(1),
            "--query-ms" => cfg.query_ms = n() as u32,
            "--dump" => cfg.dump = Some(v),
            _ => { eprintln!("unknown option {o}"); std::process::exit(2) }
        }
    }
    let t0 = Instant::now();
    let src = match std::fs::read_to_string(&file) {
        Ok(s) => s,
        Err(e) => { eprintln!("{file}: {e}"); std::process::exit(2) }
    };
    let sh = Shared { cfg, queue: Mutex::new(vec![Work { script: vec![], model: vec![] }]), cond: Condvar::new(),
        hungry: AtomicUsize::new(0), stop: AtomicBool::new(false), paths: AtomicU64::new(0),
        violations: Mutex::new(vec![]), found: AtomicUsize::new(0), deadline: t0 + Duration::from_secs(timeout) };
    let total = Mutex::new(Total::default());
    let dump = sh.cfg.dump.clone();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || worker(&src, &sh, &total, threads)).unwrap();
        }
    });
    let t = total.into_inner().unwrap();
    let viol = sh.violations.into_inner().unwrap();
    if let Some(f) = samples {
        let mut o = std::io::BufWriter::new(std::fs::File::create(f).unwrap());
        for (m, h) in &t.samples { writeln!(o, "{} {h:016x}", if m.is_empty() { "-".into() } else { exec::hex(m) }).unwrap() }
    }
    if let Some(f) = dump {
        let mut o = std::io::BufWriter::new(std::fs::File::create(f).unwrap());
        for (q, s) in &t.log { writeln!(o, ";; {}\n{q}", if *s { "sat" } else { "unsat" }).unwrap() }
    }
    let complete = t.errors.is_empty() && !sh.stop.load(Relaxed);
    let mut o = String::from("{");
    o += &format!("\"complete\":{complete},\"entry\":{},\"args\":{:?},\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"assertions\":{},",
        js(&sh.cfg.entry), sh.cfg.args, t.paths, t.dead, t.forks, t.steps, t.checks);
    o += &format!("\"queries\":{},\"queries_cached\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_frames\":{},\"solver\":{},",
        t.asked, t.cached, t.sat, t.unsat, t.secs, t0.elapsed().as_secs_f64(), t.max_frames, js(&solver::Solver::version()));
    o += &format!("\"covers\":{{{}}},", t.covers.iter().map(|(k, m)| format!("\"{k}\":\"{}\"", exec::hex(m))).collect::<Vec<_>>().join(","));
    o += &format!("\"functions\":[{}],", t.used.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"errors\":[{}],", t.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}]}}", viol.iter().map(|v| format!("{{\"kind\":{},\"what\":{},\"model\":\"{}\",\"at\":{}}}",
        js(&v.kind), js(&v.what), exec::hex(&v.model), js(&v.at))).collect::<Vec<_>>().join(","));
    match out {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => println!("{o}"),
    }
    std::process::exit(if complete { 0 } else { 2 });
}

fn worker(src: &str, sh: &Shared, total: &Mutex<Total>, threads: usize) {
    let fail = |e: String| {
        total.lock().unwrap().errors.push(e);
        sh.stop.store(true, Relaxed);
        sh.cond.notify_all();
    };
    let m = match ir::load(src) { Ok(m) => m, Err(e) => return fail(format!("IR: {e}")) };
    let mut ex = exec::Exec::new(m, sh);
    loop {
        let w = {
            let mut q = sh.queue.lock().unwrap();
            let mut waiting = false;
            loop {
                if sh.stop.load(Relaxed) { break None }
                if let Some(w) = q.pop() {
                    if waiting { sh.hungry.fetch_sub(1, Relaxed); }
                    break Some(w);
                }
                if !waiting { waiting = true; sh.hungry.fetch_add(1, Relaxed); }
                if sh.hungry.load(Relaxed) == threads { sh.stop_idle(); break None }
                q = sh.cond.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                if sh.hungry.load(Relaxed) >= threads && q.is_empty() { break None }
            }
        };
        let Some(w) = w else { break };
        if let Err(e) = ex.explore(&w) { fail(e); break }
    }
    let used = ex.used_names();
    let mut t = total.lock().unwrap();
    t.paths += ex.paths; t.dead += ex.dead; t.forks += ex.forks; t.steps += ex.steps; t.checks += ex.checks;
    t.asked += ex.solver.asked; t.cached += ex.solver.cached; t.sat += ex.solver.sat; t.unsat += ex.solver.unsat;
    t.secs += ex.solver.secs;
    t.max_frames = t.max_frames.max(ex.max_frames);
    t.covers.extend(std::mem::take(&mut ex.covers));
    t.used.extend(used);
    t.samples.append(&mut ex.samples);
    if let Some(l) = &mut ex.solver.log { t.log.append(l) }
}

impl Shared {
    fn stop_idle(&self) { self.cond.notify_all() }
}
