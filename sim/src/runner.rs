//! One simulated run: fresh thread, simulated machine, scenario.

use crate::choice::{Prng, Src};
use crate::ctx::*;
use crate::interpose::{self, Env, EnvCell};
use crate::scen::Scenario;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

pub struct Outcome {
    pub viol: Option<Viol>,
    pub rec: Vec<u64>,
    pub ev_hash: u64,
    pub events: u64,
    pub trace: Vec<String>,
    pub sig: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub sample: Vec<String>,
}

/// Where protocol lines go; -1 for nowhere.
static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static CURRENT: Mutex<Option<Cx>> = Mutex::new(None);

pub const RUN_STACK: usize = 2 << 20;
const CPU_LIMIT: f64 = 25.0;
const WALL_LIMIT: f64 = 600.0;

/// Keep library output (it prints) away from our protocol: stdout becomes /dev/null, lines go to the old stdout.
pub fn take_stdout() {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        libc::close(null);
        libc::fcntl(keep, libc::F_SETFD, libc::FD_CLOEXEC);
        OUT_FD.store(keep, Ordering::SeqCst);
    }
}
pub fn emit(line: &str) {
    let fd = OUT_FD.load(Ordering::SeqCst);
    if fd >= 0 {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let _ = f.write_all(format!("{line}\n").as_bytes());
    }
}
pub fn has_out() -> bool {
    OUT_FD.load(Ordering::SeqCst) >= 0
}
pub fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\x1f', " ").replace('\r', "\\r")
}

/// A violation after which this process cannot go on (the run will never return).
pub fn fatal(class: &str, msg: &str) -> ! {
    let _g = interpose::harness();
    let (rec, ev) = match CURRENT.try_lock() {
        Ok(c) => match &*c {
            Some(cx) => match cx.0.try_lock() {
                Ok(i) => (i.src.rec.clone(), i.ev_hash),
                Err(_) => (Vec::new(), 0),
            },
            None => (Vec::new(), 0),
        },
        Err(_) => (Vec::new(), 0),
    };
    let rec: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
    if has_out() {
        emit(&format!("f {}\x1f{}\x1f{:x}\x1f{}", escape(class), escape(msg), ev, rec.join(" ")));
    } else {
        println!("{class}: {msg}");
    }
    unsafe { libc::_exit(42) }
}

fn cpu_now() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

/// Process-wide preparations, once.
pub fn init() {
    install_panic_hook();
    // dependencies detect the random source lazily and once per process; do it outside any run
    let _ = uuid::Uuid::new_v4();
    let _ = kdbx_rs::Kdbx::from_database(kdbx_rs::Database::default());
    std::env::set_var("TZ", "UTC0");
}

pub const ZONES: [&str; 6] = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "PST8", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"];

pub fn run_once(sc: &Scenario, src: Src, tracing: bool) -> Outcome {
    let cx = Cx::new(src, tracing);
    *CURRENT.lock().unwrap() = Some(cx.clone());
    let entropy = cx.seed();
    let clock = 1_600_000_000i64 + cx.below(200_000_000) as i64;
    let zone = cx.pick(&ZONES);
    std::env::set_var("TZ", zone);
    let cell = Arc::new(EnvCell(UnsafeCell::new(Env::new(
        entropy,
        clock * 1_000_000_000 + Prng::new(entropy).below(1_000_000_000) as i64,
    ))));
    let (tx, rx) = mpsc::channel::<R>();
    let run = sc.run;
    let cx2 = cx.clone();
    let cell2 = cell.clone();
    let h = std::thread::Builder::new()
        .stack_size(RUN_STACK)
        .name("run".into())
        .spawn(move || {
            let _g = interpose::harness();
            interpose::install_env(Arc::as_ptr(&cell2));
            warm_thread();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&cx2)));
            interpose::install_env(std::ptr::null());
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    let (m, l) = take_panic();
                    Err(Viol {
                        class: "HARNESS".into(),
                        msg: format!("harness panic: {m} at {l}"),
                    })
                }
            };
            let _ = tx.send(r);
        })
        .expect("spawn");
    let start_cpu = cpu_now();
    let start = std::time::Instant::now();
    let r = loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(r) => break r,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if cpu_now() - start_cpu > CPU_LIMIT {
                    fatal("no progress", "the operation did not finish within 25 s of processor time");
                }
                if start.elapsed().as_secs_f64() > WALL_LIMIT {
                    fatal("no progress", "the operation did not finish within 600 s");
                }
            }
            Err(_) => {
                break Err(Viol {
                    class: "HARNESS".into(),
                    msg: "run thread vanished".into(),
                })
            }
        }
    };
    let _ = h.join();
    *CURRENT.lock().unwrap() = None;
    let mut i = cx.0.lock().unwrap_or_else(|e| e.into_inner());
    let e = unsafe { &*cell.0.get() };
    let sim_ns = i.sim_ns + e.slept_ns + e.clock_reads * e.clock_step_ns.max(0) as u64;
    let ev = hash_bytes(i.ev_hash, &i.events.to_le_bytes());
    Outcome {
        viol: r.err(),
        rec: i.src.rec.clone(),
        ev_hash: ev,
        events: i.events,
        trace: i.trace.take().unwrap_or_default(),
        sig: i.sig,
        nontrivial: i.nontrivial,
        stats: std::mem::take(&mut i.stats),
        sim_ns,
        sample: std::mem::take(&mut i.sample),
    }
}

/// Fix per-thread state that is drawn from the random source on first use (hash map keys).
pub fn warm_thread() {
    let _l = interpose::library();
    let s = std::collections::hash_map::RandomState::new();
    std::hint::black_box(&s);
}
