//! Seeded search over many runs, minimisation of failures, replay and evidence.

use crate::choice::{self, Src};
use crate::runner::{self, emit, escape, run_once};
use crate::scen::{self, Scenario};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn find(id: &str) -> Option<Scenario> {
    scen::all().into_iter().find(|s| s.id == id)
}
fn splitmix(mut x: u64) -> u64 {
    choice::splitmix(&mut x)
}
fn root() -> PathBuf {
    std::env::var_os("KDBX_SIM_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}
fn base_seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn run_seed(base: i64, id: &str, idx: u64) -> u64 {
    let mut h = splitmix(base as u64 ^ 0x6b64_6278);
    for b in id.bytes() {
        h = splitmix(h ^ b as u64);
    }
    splitmix(h.wrapping_add(idx))
}
fn workers() -> u64 {
    std::env::var("KDBX_SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    events: u64,
    sim_ns: u64,
    choices: u64,
    stats: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<String>,
}

impl Totals {
    fn tell(self) {
        emit(&format!("t {} {} {} {} {}", self.runs, self.nontrivial, self.events, self.sim_ns, self.choices));
        for (k, v) in &self.stats {
            emit(&format!("s {k} {v}"));
        }
        for s in &self.samples {
            emit(&format!("m {}", escape(s)));
        }
        let mut line = String::from("g");
        for (i, s) in self.sigs.iter().enumerate() {
            write!(line, " {s:x}").unwrap();
            if i % 1000 == 999 {
                emit(&line);
                line = String::from("g");
            }
        }
        emit(&line);
    }
}

#[derive(Clone, Debug)]
struct Found {
    idx: u64,
    class: String,
    msg: String,
    worker_start: u64,
    stride: u64,
}

/// `worker ID BASE START STRIDE END`: run the seeds START, START+STRIDE, ... below END.
pub fn worker(a: &[&str]) -> i32 {
    let Some(sc) = find(a[0]) else { return 2 };
    let base: i64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let end: u64 = a[4].parse().unwrap();
    runner::take_stdout();
    runner::init();
    let deadline = std::env::var("KDBX_SIM_DEADLINE")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .unwrap_or(1e9);
    let t0 = Instant::now();
    let mut t = Totals::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples = 0;
    let mut told = Instant::now();
    let mut idx = start;
    while idx < end {
        if t0.elapsed().as_secs_f64() > deadline {
            break;
        }
        emit(&format!("b {idx}"));
        let o = run_once(&sc, Src::search(run_seed(base, sc.id, idx)), false);
        t.runs += 1;
        t.events += o.events;
        t.sim_ns += o.sim_ns;
        t.choices += o.rec.len() as u64;
        if o.nontrivial {
            t.nontrivial += 1;
            if seen.insert(o.sig) {
                t.sigs.insert(o.sig);
            }
        }
        for (k, v) in o.stats {
            *t.stats.entry(k).or_insert(0) += v;
        }
        if samples < 2 {
            if let Some(s) = o.sample.first() {
                samples += 1;
                t.samples.push(format!("seed {idx}: {s}"));
            }
        }
        // totals go out while the search runs, as a violation ends it
        if o.viol.is_some() || told.elapsed().as_millis() > 500 {
            std::mem::take(&mut t).tell();
            told = Instant::now();
        }
        if let Some(v) = o.viol {
            emit(&format!("v {idx}\x1f{}\x1f{}", escape(&v.class), escape(&v.msg)));
        }
        idx += stride;
    }
    t.tell();
    emit("e");
    0
}

/// Run choice lists given on stdin, one per line.
pub fn serve(id: &str) -> i32 {
    let Some(sc) = find(id) else { return 2 };
    runner::take_stdout();
    runner::init();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let (src, tracing) = parse_job(&line);
        let o = run_once(&sc, src, tracing);
        let (class, msg) = o
            .viol
            .map(|v| (v.class, v.msg))
            .unwrap_or((String::new(), String::new()));
        for t in &o.trace {
            emit(&format!("l {}", escape(t)));
        }
        let rec: Vec<String> = o.rec.iter().map(|x| x.to_string()).collect();
        emit(&format!("r {}\x1f{}\x1f{:x}\x1f{}", escape(&class), escape(&msg), o.ev_hash, rec.join(" ")));
    }
    0
}
fn parse_job(line: &str) -> (Src, bool) {
    let mut w = line.split_whitespace();
    match w.next() {
        Some("seed") => {
            let s: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            (Src::search(s), false)
        }
        Some("trace") => (Src::replay(w.filter_map(|x| x.parse().ok()).collect()), true),
        _ => (Src::replay(w.filter_map(|x| x.parse().ok()).collect()), false),
    }
}

#[derive(Clone, Debug, Default)]
struct Reply {
    class: String,
    msg: String,
    ev: String,
    rec: Vec<u64>,
    trace: Vec<String>,
}

/// A process that executes jobs; replaced when a job ends it.
struct Server {
    id: String,
    child: Option<(Child, BufReader<std::process::ChildStdout>)>,
}
impl Server {
    fn new(id: &str) -> Server {
        Server {
            id: id.into(),
            child: None,
        }
    }
    fn stop(&mut self) {
        if let Some((mut c, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn run(&mut self, job: &str) -> Reply {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["serve", &self.id])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn serve");
            let out = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, out));
        }
        let mut r = Reply::default();
        let (c, out) = self.child.as_mut().unwrap();
        let ok = writeln!(c.stdin.as_mut().unwrap(), "{job}").is_ok();
        let mut line = String::new();
        while ok {
            line.clear();
            if out.read_line(&mut line).unwrap_or(0) == 0 {
                break;
            }
            let l = line.trim_end_matches('\n');
            if let Some(t) = l.strip_prefix("l ") {
                r.trace.push(t.to_string());
            } else if let Some(b) = l.strip_prefix("r ").or_else(|| l.strip_prefix("f ")) {
                let p: Vec<&str> = b.split('\x1f').collect();
                r.class = p[0].to_string();
                r.msg = p[1].to_string();
                r.ev = p[2].to_string();
                r.rec = p[3].split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if l.starts_with("f ") {
                    self.stop();
                }
                return r;
            }
        }
        // the process ended without an answer
        let (mut c, _) = self.child.take().unwrap();
        let st = c.wait().ok();
        r.class = "process ended".into();
        r.msg = format!("the process was ended by the operation ({})", died(st));
        r.ev = "0".into();
        r
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop()
    }
}
fn died(st: Option<std::process::ExitStatus>) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st {
        Some(s) => match s.signal() {
            Some(6) => "abort: allocation refused or panic while panicking".into(),
            Some(11) | Some(7) => "stack overflow or invalid memory access".into(),
            Some(n) => format!("signal {n}"),
            None => format!("exit {:?}", s.code()),
        },
        None => "unknown".into(),
    }
}
fn job(rec: &[u64]) -> String {
    let v: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
    format!("run {}", v.join(" "))
}

fn size(v: &[u64]) -> (usize, u128) {
    (v.len(), v.iter().map(|x| *x as u128).sum())
}

/// Shrink a choice list while the same class of violation remains.
fn minimise(id: &str, class: &str, rec: Vec<u64>, budget: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut srv = Server::new(id);
    let mut best = rec;
    let mut tries = 0;
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        tries += 1;
        let r = srv.run(&job(&cand));
        if r.class != class {
            return false;
        }
        // what was really consumed, without trailing zeroes (the default)
        let mut used = if r.rec.is_empty() { cand } else { r.rec };
        while used.last() == Some(&0) {
            used.pop();
        }
        if size(&used) < size(best) {
            *best = used;
            return true;
        }
        false
    };
    loop {
        let start = size(&best);
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            if best.len() > cut {
                let c = best[..best.len() - cut].to_vec();
                if attempt(&mut best, c) {
                    continue;
                }
            }
            cut /= 2;
        }
        // delete and zero chunks
        let mut w = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + w).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt(&mut best, c) {
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    if attempt(&mut best, c) {
                        continue;
                    }
                }
                i += w;
                if t0.elapsed() > budget {
                    break;
                }
            }
            if w == 1 {
                break;
            }
            w /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            for n in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && n < best[i] {
                    let mut c = best.clone();
                    c[i] = n;
                    if attempt(&mut best, c) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if size(&best) >= start || t0.elapsed() > budget {
            break;
        }
    }
    (best, tries)
}

fn replay_dir() -> PathBuf {
    let d = root().join("evidence/replay");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Reproduce, minimise and store one violation. Returns the replay file and a description.
fn report(sc: &Scenario, base: i64, f: &Found) -> Result<(PathBuf, String), String> {
    let seed = run_seed(base, sc.id, f.idx);
    let mut srv = Server::new(sc.id);
    let first = srv.run(&format!("seed {seed}"));
    srv.stop();
    let path = replay_dir().join(format!("{}-{}-{}.replay", sc.id, base, f.idx));
    let mut text = format!("kdbx-sim replay 1\nproperty {}\nseed {} {}\n", sc.id, base, f.idx);
    if first.class == f.class && !first.class.is_empty() {
        let (best, tries) = if first.rec.is_empty() {
            (Vec::new(), 0)
        } else {
            let secs = std::env::var("KDBX_SIM_MINIMISE").ok().and_then(|s| s.parse().ok()).unwrap_or(25);
            minimise(sc.id, &f.class, first.rec.clone(), Duration::from_secs(secs))
        };
        if first.rec.is_empty() {
            // the process died; the seed is the replay
            writeln!(text, "class {}\nmessage {}\nkind seed\nevents 0", first.class, first.msg).unwrap();
            std::fs::write(&path, text).map_err(|e| e.to_string())?;
            return Ok((path, first.msg));
        }
        let mut srv = Server::new(sc.id);
        let mut r = srv.run(&format!("trace {}", &job(&best)[4..]));
        let mut list = best;
        if r.class != f.class {
            // the shorter list does not stand alone in a fresh process
            srv.stop();
            list = first.rec.clone();
            r = srv.run(&format!("trace {}", &job(&list)[4..]));
        }
        writeln!(text, "class {}\nmessage {}\nkind choices\nevents {}", r.class, r.msg, r.ev).unwrap();
        writeln!(text, "minimised {} choices from {} in {} attempts", list.len(), first.rec.len(), tries).unwrap();
        writeln!(text, "choices {}", &job(&list)[4..]).unwrap();
        writeln!(text, "trace").unwrap();
        for t in &r.trace {
            writeln!(text, "  {t}").unwrap();
        }
        std::fs::write(&path, text).map_err(|e| e.to_string())?;
        return Ok((path, r.msg));
    }
    // State left by earlier runs of the same process takes part: find a short history that reproduces it.
    let all: Vec<u64> = (0..)
        .map(|i| f.worker_start + i * f.stride)
        .take_while(|i| *i <= f.idx)
        .collect();
    let mut n = 2;
    loop {
        let tail = &all[all.len().saturating_sub(n)..];
        if let Some(r) = run_batch(sc.id, base, tail, &f.class) {
            let mut keep = tail.to_vec();
            let mut i = 0;
            let t0 = Instant::now();
            while i + 1 < keep.len() && t0.elapsed() < Duration::from_secs(40) {
                let mut c = keep.clone();
                c.remove(i);
                if run_batch(sc.id, base, &c, &f.class).is_some() {
                    keep = c;
                } else {
                    i += 1;
                }
            }
            writeln!(text, "class {}\nmessage {}\nkind batch\nevents {}", f.class, f.msg, r.ev).unwrap();
            let l: Vec<String> = keep.iter().map(|x| x.to_string()).collect();
            writeln!(text, "batch {}", l.join(" ")).unwrap();
            std::fs::write(&path, text).map_err(|e| e.to_string())?;
            return Ok((path, format!("{} (needs {} runs in one process)", f.msg, keep.len())));
        }
        if n >= all.len() {
            break;
        }
        n *= 2;
    }
    // Something outside the simulation takes part; the violation was seen nevertheless.
    writeln!(text, "class {}\nmessage {}\nkind batch\nevents unknown", f.class, f.msg).unwrap();
    let l: Vec<String> = all.iter().map(|x| x.to_string()).collect();
    writeln!(text, "batch {}", l.join(" ")).unwrap();
    std::fs::write(&path, text).map_err(|e| e.to_string())?;
    Ok((path, format!("{} (seen once, did not happen again when the same runs were repeated)", f.msg)))
}
fn run_batch(id: &str, base: i64, idx: &[u64], class: &str) -> Option<Reply> {
    let mut srv = Server::new(id);
    let mut last = Reply::default();
    for i in idx {
        last = srv.run(&format!("seed {}", run_seed(base, id, *i)));
    }
    (last.class == class).then_some(last)
}

/// Repeat a recorded execution.
pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
            .unwrap_or("")
            .to_string()
    };
    let id = get("property");
    if find(&id).is_none() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let class = get("class");
    let ev = get("events");
    let mut seed = get("seed");
    let idx: u64 = seed.split_off(seed.find(' ').unwrap_or(0)).trim().parse().unwrap_or(0);
    let base: i64 = seed.trim().parse().unwrap_or(1);
    let mut srv = Server::new(&id);
    let r = match get("kind").as_str() {
        "choices" => srv.run(&format!("trace {}", get("choices"))),
        "seed" => srv.run(&format!("seed {}", run_seed(base, &id, idx))),
        "batch" => {
            let l: Vec<u64> = get("batch").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let mut last = Reply::default();
            for i in l {
                last = srv.run(&format!("seed {}", run_seed(base, &id, i)));
            }
            last
        }
        _ => {
            eprintln!("malformed replay file");
            return 2;
        }
    };
    for t in &r.trace {
        println!("  {t}");
    }
    if r.class.is_empty() {
        println!("no violation: property {id} holds on this execution");
        return 0;
    }
    println!("{}: {}", r.class, r.msg);
    if r.class == class && r.ev == ev {
        println!("reproduced exactly (event log {ev})");
        println!("VIOLATION property={id} replay={file}");
        1
    } else {
        println!("a violation, but not the recorded one (`{class}`, event log {ev}; now event log {})", r.ev);
        1
    }
}

pub fn one_seed(id: &str, idx: u64) -> i32 {
    let Some(sc) = find(id) else { return 2 };
    let mut srv = Server::new(sc.id);
    let r = srv.run(&format!("seed {}", run_seed(base_seed(), id, idx)));
    let r = if r.rec.is_empty() { r } else { srv.run(&format!("trace {}", &job(&r.rec)[4..])) };
    for t in &r.trace {
        println!("  {t}");
    }
    println!("choices: {}", r.rec.len());
    println!("result: {} {}", r.class, r.msg);
    (!r.class.is_empty()) as i32
}

struct Known {
    entries: Vec<(String, String, String)>,
}
impl Known {
    /// Lines `known: property=ID class="..." what`. `fixed:` lines suppress nothing.
    fn load() -> Known {
        let mut entries = Vec::new();
        if let Ok(t) = std::fs::read_to_string(root().join("known-findings.txt")) {
            for l in t.lines() {
                let Some(r) = l.strip_prefix("known: property=") else { continue };
                let Some((id, r)) = r.split_once(' ') else { continue };
                let Some(r) = r.strip_prefix("class=\"") else { continue };
                let Some((class, what)) = r.split_once('"') else { continue };
                entries.push((id.to_string(), class.to_string(), what.trim().to_string()));
            }
        }
        Known { entries }
    }
    fn get(&self, id: &str, class: &str) -> Option<&str> {
        self.entries
            .iter()
            .find(|e| e.0 == id && e.1 == class)
            .map(|e| e.2.as_str())
    }
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

pub fn check(id: &str) -> i32 {
    let Some(sc) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let base = base_seed();
    let seeds = std::env::var("KDBX_SIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { sc.thorough } else { sc.quick });
    let cap = if thorough { 3600.0 } else { 420.0 };
    let known = Known::load();
    let t0 = Instant::now();
    let nw = workers().min(seeds.max(1));
    let mut tot = Totals::default();
    let mut found: Vec<Found> = Vec::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = Vec::new();
    let (tx, rx) = mpsc::channel::<Msg>();
    struct W {
        child: Child,
        last: u64,
        start: u64,
        finished: bool,
        open: bool,
    }
    let mut ws: Vec<W> = Vec::new();
    let spawn = |w: usize, start: u64| -> Child {
        let left = cap - t0.elapsed().as_secs_f64();
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args([
                "worker".to_string(),
                id.to_string(),
                base.to_string(),
                start.to_string(),
                nw.to_string(),
                seeds.to_string(),
            ])
            .env("KDBX_SIM_DEADLINE", left.max(0.0).to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).split(b'\n') {
                let Ok(l) = l else { break };
                let _ = tx.send(Msg::Line(w, String::from_utf8_lossy(&l).into_owned()));
            }
            let _ = tx.send(Msg::Eof(w));
        });
        c
    };
    for w in 0..nw {
        ws.push(W {
            child: spawn(w as usize, w),
            last: w,
            start: w,
            finished: false,
            open: true,
        });
    }
    let mut stop = false;
    while ws.iter().any(|w| w.open) {
        let m = rx.recv().unwrap();
        match m {
            Msg::Line(w, l) => {
                let (k, rest) = l.split_at(l.len().min(1));
                let rest = rest.strip_prefix(' ').unwrap_or(rest);
                let mut hit: Option<Found> = None;
                match k {
                    "b" => ws[w].last = rest.parse().unwrap_or(0),
                    "v" => {
                        let p: Vec<&str> = rest.split('\x1f').collect();
                        if p.len() == 3 {
                            hit = Some(Found {
                                idx: p[0].parse().unwrap_or(0),
                                class: p[1].into(),
                                msg: p[2].into(),
                                worker_start: ws[w].start,
                                stride: nw,
                            });
                        }
                    }
                    "f" => {
                        let p: Vec<&str> = rest.split('\x1f').collect();
                        if p.len() == 4 {
                            hit = Some(Found {
                                idx: ws[w].last,
                                class: p[0].into(),
                                msg: p[1].into(),
                                worker_start: ws[w].start,
                                stride: nw,
                            });
                            tot.runs += 1;
                            // the worker is gone; note that its loss is explained
                            ws[w].finished = true;
                        }
                    }
                    "t" => {
                        let n: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if n.len() == 5 {
                            tot.runs += n[0];
                            tot.nontrivial += n[1];
                            tot.events += n[2];
                            tot.sim_ns += n[3];
                            tot.choices += n[4];
                        }
                    }
                    "s" => {
                        if let Some((k, v)) = rest.rsplit_once(' ') {
                            *tot.stats.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "m" => {
                        if tot.samples.len() < 10 {
                            tot.samples.push(rest.into());
                        }
                    }
                    "g" => {
                        for s in rest.split(' ') {
                            if let Ok(v) = u64::from_str_radix(s, 16) {
                                tot.sigs.insert(v);
                            }
                        }
                    }
                    "e" => ws[w].finished = true,
                    _ => {}
                }
                if let Some(f) = hit {
                    if f.class == "HARNESS" {
                        errors.push(format!("seed {}: {}", f.idx, f.msg));
                        stop = true;
                    } else if known.get(id, &f.class).is_some() {
                        *knowns.entry(f.class.clone()).or_insert(0) += 1;
                    } else {
                        found.push(f);
                        stop = true;
                    }
                }
            }
            Msg::Eof(w) => {
                ws[w].open = false;
                let st = ws[w].child.wait().ok();
                let fatal = st.and_then(|s| s.code()) == Some(42);
                let next = ws[w].last + nw;
                if !stop && !ws[w].finished {
                    tot.runs += 1;
                    let f = Found {
                        idx: ws[w].last,
                        class: "process ended".into(),
                        msg: format!("the process was ended by the operation ({})", died(st)),
                        worker_start: ws[w].start,
                        stride: nw,
                    };
                    if known.get(id, &f.class).is_some() {
                        *knowns.entry(f.class.clone()).or_insert(0) += 1;
                    } else {
                        found.push(f);
                        stop = true;
                    }
                    if !stop && next < seeds {
                        ws[w].child = spawn(w, next);
                        ws[w].start = next;
                        ws[w].last = next;
                        ws[w].open = true;
                    }
                } else if fatal && !stop && next < seeds {
                    ws[w].child = spawn(w, next);
                    ws[w].start = next;
                    ws[w].last = next;
                    ws[w].finished = false;
                    ws[w].open = true;
                }
            }
        }
        if stop {
            for w in &mut ws {
                if w.open {
                    let _ = w.child.kill();
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    for (c, n) in &knowns {
        println!("KNOWN-FINDING: property={id} {} ({n} runs)", known.get(id, c).unwrap_or(""));
    }
    let mut violations = Vec::new();
    found.sort_by_key(|f| f.idx);
    if let Some(f) = found.first() {
        println!("{id}: seed {} found: {}: {}", f.idx, f.class, f.msg);
        match report(&sc, base, f) {
            Ok((p, msg)) => {
                println!("{msg}");
                println!("VIOLATION property={id} replay={}", p.display());
                violations.push(format!("{} (replay {})", f.class, p.display()));
                code = 1;
            }
            Err(e) => {
                errors.push(e);
            }
        }
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("{id}: error of the check: {e}");
        }
        code = if code == 1 { 1 } else { 2 };
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(&sc, &tier, base, &tot, &violations, &knowns, seeds, nw, search_s, wall);
    println!(
        "{id}: {} runs ({} seeds/hour), {} distinct non-trivial, {:.1} s",
        tot.runs,
        (tot.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        tot.sigs.len(),
        wall
    );
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<T: AsRef<str>>(v: &[T]) -> String {
    let x: Vec<String> = v.iter().map(|s| js(s.as_ref())).collect();
    format!("[{}]", x.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    sc: &Scenario,
    tier: &str,
    base: i64,
    t: &Totals,
    violations: &[String],
    knowns: &BTreeMap<String, u64>,
    planned: u64,
    nw: u64,
    search_s: f64,
    wall: f64,
) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let map = |prefix: &str| {
        let v: Vec<String> = t
            .stats
            .iter()
            .filter_map(|(k, n)| k.strip_prefix(prefix).map(|k| format!("{}: {n}", js(k))))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"nontrivial_runs\": {},\n  \"planned_runs\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_s\": {},\n  \"events\": {},\n  \"decisions\": {},\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"workers\": {}\n }},\n \"assumptions\": {},\n \"known_findings_seen\": {},\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        js(sc.id),
        js(tier),
        base,
        t.runs,
        t.sigs.len(),
        js(sc.rule),
        jlist(&t.samples),
        t.nontrivial,
        planned,
        (t.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        t.sim_ns as f64 / 1e9,
        t.events,
        t.choices,
        map("fault."),
        map("probe."),
        js(sc.real),
        js(sc.stub),
        nw,
        jlist(sc.assumptions),
        knowns.values().sum::<u64>(),
        violations.len(),
        wall
    );
    let p = dir.join(format!("{}.json", sc.id));
    let tmp = dir.join(format!("{}.json.tmp", sc.id));
    if std::fs::write(&tmp, s).and_then(|_| std::fs::rename(&tmp, &p)).is_err() {
        eprintln!("cannot write {}", p.display());
    }
}

/// Every seed is run in two processes in different order; event logs and outcomes must agree.
pub fn selftest(only: Option<&str>) -> i32 {
    let mut bad = 0;
    for sc in scen::all() {
        if only.is_some_and(|o| o != sc.id) {
            continue;
        }
        let n = 60u64;
        let mut a = Server::new(sc.id);
        let mut b = Server::new(sc.id);
        let mut ra = Vec::new();
        let mut rb = BTreeMap::new();
        for i in 0..n {
            ra.push(a.run(&format!("seed {}", run_seed(7, sc.id, i))));
        }
        for i in (0..n).rev() {
            rb.insert(i, b.run(&format!("seed {}", run_seed(7, sc.id, i))));
        }
        let mut diff = 0;
        for (i, r) in ra.iter().enumerate() {
            let o = &rb[&(i as u64)];
            let c = a.run(&job(&r.rec));
            if r.ev != o.ev || r.class != o.class || r.rec != o.rec || c.ev != r.ev || c.class != r.class {
                diff += 1;
                println!(
                    "  seed {}: log {} {} {}, choices {} {} same {}, class {:?} {:?} {:?}",
                    run_seed(7, sc.id, i as u64),
                    r.ev,
                    o.ev,
                    c.ev,
                    r.rec.len(),
                    o.rec.len(),
                    r.rec == o.rec,
                    r.class,
                    o.class,
                    c.class
                );
            }
        }
        println!("{}: {} seeds, {} differing executions", sc.id, n, diff);
        bad += diff;
    }
    let _ = Path::new("/");
    (bad > 0) as i32
}
