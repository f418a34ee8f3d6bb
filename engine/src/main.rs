//! symex: symbolic execution of harness functions in an LLVM IR module.
//!
//!   symex MODULE.ll OUT.json TRACES TIME_LIMIT_S STOP_ON_FAIL TASK...
//!   TASK = name:entry:cfg,cfg,...[:split]
mod exec;
mod expr;
mod ir;
mod solve;
mod z3;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Task {
    name: String,
    entry: String,
    fid: u32,
    cfg: Vec<u64>,
    split: bool,
}

struct Work {
    task: usize,
    prefix: Vec<u64>,
}

#[derive(Default)]
struct Stat {
    paths: u64,
    done: u64,
    assume: u64,
    fails: u64,
    errors: u64,
    steps: u64,
    maxsteps: u64,
    maxforks: u64,
    covers: [u64; 4],
    traces: u64,
    nanos: u64,
}

struct Found {
    task: usize,
    kind: String,
    detail: String,
    promised: bool,
    vars: Vec<u8>,
    trace: Vec<String>,
}

struct Shared {
    q: Mutex<VecDeque<Work>>,
    cv: Condvar,
    outstanding: AtomicUsize,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    stats: Mutex<Vec<Stat>>,
    found: Mutex<Vec<Found>>,
    counts: Mutex<BTreeMap<(usize, String), u64>>,
    traces: Mutex<std::io::BufWriter<std::fs::File>>,
    seen: Mutex<Vec<bool>>,
    forksites: Mutex<BTreeMap<(u32, u32, u32), u64>>,
    blocks: Mutex<Vec<Vec<u64>>>,
    errors: Mutex<Vec<String>>,
}

static FORKS: AtomicU64 = AtomicU64::new(0);

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// readable form of a v0-mangled name: its identifiers joined by ::
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && b.get(j + 1).map_or(false, |c| c.is_ascii_digit()) {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

fn worker(m: &'static ir::Module, tasks: &[Task], sh: &Shared, cache: Arc<solve::Cache>, deadline: Instant, stop_on_fail: bool) {
    let s = solve::Solver { x: expr::Ctx::new(), z: z3::Z3::new(60_000), cache };
    let mut ex = Exec::new(m, s, Limits { steps: 30_000_000, depth: 2000 });
    let mut cur_task = usize::MAX;
    let mut stats: Vec<Stat> = tasks.iter().map(|_| Stat::default()).collect();
    loop {
        // get work
        let work = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(w) = q.pop_front() {
                    break Some(w);
                }
                if sh.outstanding.load(Ordering::SeqCst) == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                sh.idle.fetch_add(1, Ordering::SeqCst);
                let r = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                q = r.0;
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let Some(work) = work else { break };
        let ti = work.task;
        let t = &tasks[ti];
        if ti != cur_task || ex.s.x.n.len() > 4_000_000 {
            if ex.s.x.n.len() > 1_000_000 {
                let c = ex.s.cache.clone();
                let s = solve::Solver { x: expr::Ctx::new(), z: z3::Z3::new(60_000), cache: c };
                let mut fresh = Exec::new(m, s, Limits { steps: 30_000_000, depth: 2000 });
                fresh.seen = std::mem::take(&mut ex.seen);
                fresh.forksites = std::mem::take(&mut ex.forksites);
                fresh.blocks_seen = std::mem::take(&mut ex.blocks_seen);
                ex = fresh;
            }
            cur_task = ti;
        }
        ex.cfg = t.cfg.clone();
        ex.split_and = t.split;
        let first = ex.start(t.fid, work.prefix);
        ex.pending.push(first);
        let t0 = Instant::now();
        while let Some(mut st) = ex.pending.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                ex.pending.clear();
                break;
            }
            if Instant::now() > deadline {
                sh.timeout.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                ex.pending.clear();
                break;
            }
            let s0 = st.steps;
            let o = ex.run(&mut st);
            // share
            while ex.pending.len() > 1 && sh.idle.load(Ordering::Relaxed) > 0 {
                let mut q = sh.q.lock().unwrap();
                if q.len() >= 8 {
                    break;
                }
                let give = ex.pending.remove(0);
                sh.outstanding.fetch_add(1, Ordering::SeqCst);
                q.push_back(Work { task: ti, prefix: give.choices });
                drop(q);
                sh.cv.notify_one();
            }
            let stat = &mut stats[ti];
            stat.steps += st.steps - s0;
            stat.maxsteps = stat.maxsteps.max(st.steps);
            stat.maxforks = stat.maxforks.max(st.choices.len() as u64);
            if st.replay < st.choices.len() {
                sh.errors.lock().unwrap().push("path ended before its prefix was replayed".into());
            }
            let mut fail = |kind: String, detail: String, ex: &Exec, st: &State| {
                let mut c = sh.counts.lock().unwrap();
                let promised = st.covers[0] >> 60 & 1 == 1;
                let n = c.entry((ti, format!("{} {} {}", kind, detail, promised))).or_insert(0);
                *n += 1;
                if *n <= 2 {
                    sh.found.lock().unwrap().push(Found {
                        task: ti,
                        kind,
                        detail,
                        promised,
                        vars: st.path.model[..st.nvars as usize].to_vec(),
                        trace: ex.trace(st).iter().map(|x| demangle(x)).collect(),
                    });
                }
                if stop_on_fail {
                    sh.stop.store(true, Ordering::SeqCst);
                }
            };
            stat.paths += 1;
            match o {
                Outcome::Done => {
                    stat.done += 1;
                    for i in 0..4 {
                        stat.covers[i] |= st.covers[i];
                    }
                    let h = ex.observed(&st);
                    stat.traces += 1;
                    // a sample: every path while there are few, one of 64 after that
                    if stat.done > 2000 && h & 63 != 0 {
                        continue;
                    }
                    let line = format!(
                        "{} {} {} {:016x} {:016x}{:016x}\n",
                        t.entry,
                        t.cfg.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                        hex(&st.path.model[..st.nvars as usize]),
                        h,
                        st.covers[1],
                        st.covers[0]
                    );
                    sh.traces.lock().unwrap().write_all(line.as_bytes()).unwrap();
                }
                Outcome::AssumeFalse => stat.assume += 1,
                Outcome::Fail(id) => {
                    stat.fails += 1;
                    fail("fail".into(), id.to_string(), &ex, &st)
                }
                Outcome::Panic(n) => {
                    stat.fails += 1;
                    fail("panic".into(), demangle(&n), &ex, &st)
                }
                Outcome::Limit => {
                    stat.fails += 1;
                    fail("hang".into(), String::new(), &ex, &st)
                }
                Outcome::Depth => {
                    stat.fails += 1;
                    fail("recursion".into(), String::new(), &ex, &st)
                }
                Outcome::Error(e) => {
                    stat.errors += 1;
                    fail("error".into(), e, &ex, &st)
                }
            }
        }
        stats[ti].nanos += t0.elapsed().as_nanos() as u64;
        if sh.outstanding.fetch_sub(1, Ordering::SeqCst) == 1 {
            sh.cv.notify_all();
        }
    }
    FORKS.fetch_add(ex.nforks, Ordering::Relaxed);
    let mut all = sh.stats.lock().unwrap();
    for (a, s) in all.iter_mut().zip(&stats) {
        a.paths += s.paths;
        a.done += s.done;
        a.assume += s.assume;
        a.fails += s.fails;
        a.errors += s.errors;
        a.steps += s.steps;
        a.maxsteps = a.maxsteps.max(s.maxsteps);
        a.maxforks = a.maxforks.max(s.maxforks);
        a.traces += s.traces;
        a.nanos += s.nanos;
        for i in 0..4 {
            a.covers[i] |= s.covers[i];
        }
    }
    let mut seen = sh.seen.lock().unwrap();
    for (a, b) in seen.iter_mut().zip(&ex.seen) {
        *a |= *b;
    }
    let mut fs = sh.forksites.lock().unwrap();
    for (k, v) in &ex.forksites {
        *fs.entry(*k).or_insert(0) += v;
    }
    let mut bl = sh.blocks.lock().unwrap();
    for (a, b) in bl.iter_mut().zip(&ex.blocks_seen) {
        if a.len() < b.len() {
            a.resize(b.len(), 0);
        }
        for (x, y) in a.iter_mut().zip(b) {
            *x |= *y;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let m: &'static ir::Module = match ir::Module::load(&a[1]) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    };
    let load_time = t0.elapsed();
    let limit: u64 = a[4].parse().unwrap();
    let stop_on_fail = a[5] == "1";
    let mut tasks = vec![];
    for t in &a[6..] {
        let p: Vec<&str> = t.split(':').collect();
        let fid = match m.fnames.get(p[1]) {
            Some(f) => *f,
            None => {
                eprintln!("no function {}", p[1]);
                std::process::exit(2);
            }
        };
        let cfg = if p.len() > 2 && !p[2].is_empty() { p[2].split(',').map(|x| x.parse().unwrap()).collect() } else { vec![] };
        tasks.push(Task { name: p[0].into(), entry: p[1].into(), fid, cfg, split: p.get(3) == Some(&"split") });
    }
    let threads: usize = std::env::var("SYMEX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let q: VecDeque<Work> = (0..tasks.len()).map(|i| Work { task: i, prefix: vec![] }).collect();
    let sh = Shared {
        outstanding: AtomicUsize::new(q.len()),
        q: Mutex::new(q),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        stats: Mutex::new(tasks.iter().map(|_| Stat::default()).collect()),
        found: Mutex::new(vec![]),
        counts: Mutex::new(BTreeMap::new()),
        traces: Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap())),
        seen: Mutex::new(vec![false; m.fns.len()]),
        forksites: Mutex::new(BTreeMap::new()),
        blocks: Mutex::new(vec![vec![]; m.fns.len()]),
        errors: Mutex::new(vec![]),
    };
    let cache = Arc::new(solve::Cache::new());
    let deadline = t0 + Duration::from_secs(limit);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (tasks, sh, cache) = (&tasks, &sh, cache.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || worker(m, tasks, sh, cache, deadline, stop_on_fail))
                .unwrap();
        }
    });
    sh.traces.lock().unwrap().flush().unwrap();
    let wall = t0.elapsed();
    // report
    let mut o = String::from("{\n \"tasks\": [\n");
    let stats = sh.stats.lock().unwrap();
    for (i, (t, s)) in tasks.iter().zip(stats.iter()).enumerate() {
        let covers: Vec<String> = (0..256).filter(|k| s.covers[k / 64] >> (k % 64) & 1 == 1).map(|k| k.to_string()).collect();
        o.push_str(&format!(
            "  {{\"name\": {}, \"entry\": {}, \"cfg\": {:?}, \"paths\": {}, \"done\": {}, \"assumed_away\": {}, \"fails\": {}, \"errors\": {}, \"instructions\": {}, \"max_path_instructions\": {}, \"max_path_forks\": {}, \"cpu_s\": {:.2}, \"covers\": [{}]}}{}\n",
            js(&t.name), js(&t.entry), t.cfg, s.paths, s.done, s.assume, s.fails, s.errors, s.steps, s.maxsteps, s.maxforks,
            s.nanos as f64 / 1e9, covers.join(", "),
            if i + 1 < tasks.len() { "," } else { "" }
        ));
    }
    o.push_str(" ],\n \"found\": [\n");
    let found = sh.found.lock().unwrap();
    let counts = sh.counts.lock().unwrap();
    for (i, f) in found.iter().enumerate() {
        let tr: Vec<String> = f.trace.iter().map(|x| js(x)).collect();
        o.push_str(&format!(
            "  {{\"task\": {}, \"entry\": {}, \"cfg\": {:?}, \"kind\": {}, \"detail\": {}, \"count\": {}, \"promised\": {}, \"vars\": {}, \"trace\": [{}]}}{}\n",
            f.task, js(&tasks[f.task].entry), tasks[f.task].cfg, js(&f.kind), js(&f.detail),
            counts[&(f.task, format!("{} {} {}", f.kind, f.detail, f.promised))], f.promised,
            js(&hex(&f.vars)), tr.join(", "),
            if i + 1 < found.len() { "," } else { "" }
        ));
    }
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    let seen = sh.seen.lock().unwrap();
    let mut fnames: Vec<String> = vec![];
    let mut repo = vec![];
    for (i, s) in seen.iter().enumerate() {
        if *s {
            let n = demangle(&m.fns[i].name);
            if m.fns[i].name.contains("lolcode_ast") && !n.contains("::verif::") {
                repo.push(n);
            } else {
                fnames.push(n);
            }
        }
    }
    repo.sort();
    repo.dedup();
    let rj: Vec<String> = repo.iter().map(|x| js(x)).collect();
    let errors = sh.errors.lock().unwrap();
    let ej: Vec<String> = errors.iter().take(5).map(|x| js(x)).collect();
    o.push_str(&format!(
        " ],\n \"functions\": [{}],\n \"functions_other\": {},\n \"solver\": {{\"name\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"seconds\": {:.3}, \"max_query_s\": {:.3}, \"cached_answers\": {}}},\n \"forks\": {},\n \"engine_errors\": [{}],\n \"timeout\": {},\n \"threads\": {},\n \"load_s\": {:.2},\n \"wall_s\": {:.2}\n}}\n",
        rj.join(", "), fnames.len(), js(&z3::version()), g(&z3::QUERIES), g(&z3::SAT), g(&z3::UNSAT), g(&z3::UNKNOWN),
        g(&z3::NANOS) as f64 / 1e9, g(&z3::MAXNANOS) as f64 / 1e9, g(&z3::HITS), FORKS.load(Ordering::Relaxed), ej.join(", "),
        sh.timeout.load(Ordering::Relaxed), threads, load_time.as_secs_f64(), wall.as_secs_f64()
    ));
    std::fs::write(&a[2], o).unwrap();
    let _ = cache.len();
    if std::env::var("SYMEX_FORKS").is_ok() {
        let fs = sh.forksites.lock().unwrap();
        let mut v: Vec<_> = fs.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(40) {
            eprintln!("{:8} forks in {} block {} inst {}", n, demangle(&m.fns[k.0 as usize].name), k.1, k.2);
        }
    }
    if std::env::var("SYMEX_COV").is_ok() {
        let bl = sh.blocks.lock().unwrap();
        for (i, f) in m.fns.iter().enumerate() {
            if !f.name.contains("lolcode_ast") || f.body.is_none() {
                continue;
            }
            let n = demangle(&f.name);
            if n.contains("::verif") || n.contains("Debug") || n.contains("fmt") {
                continue;
            }
            let dec = m.func(i as u32);
            let tot = dec.blocks.len();
            let hit: u32 = bl[i].iter().map(|x| x.count_ones()).sum();
            eprintln!("cov {:5}/{:5} {}", hit, tot, n);
        }
    }
}
