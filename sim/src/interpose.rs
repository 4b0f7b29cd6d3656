//! Seams below the library: randomness, clock, files, futex waits and the allocator.
//!
//! The harness binary defines the libc entry points that Rust's standard library and the dependency crates call.
//! On a thread that belongs to a simulated run they are answered by the run's `Env`; everywhere else (worker
//! bookkeeping, process start-up) they go to the kernel.

use crate::choice::Prng;
use edge::HARNESS;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;

pub struct SimFile {
    pub data: Vec<u8>,
    /// errno to return from open, 0 for success
    pub open_errno: i32,
    /// how many times open is interrupted first
    pub open_eintr: u32,
    pub plan: FdPlan,
}

/// How reads of one open file behave.
#[derive(Clone, Default)]
pub struct FdPlan {
    /// maximum bytes per read for the first reads, then `rest` (0 = unlimited)
    pub sizes: Vec<usize>,
    pub rest: usize,
    /// interruptions before the n-th read
    pub eintr: Vec<(u64, u32)>,
    /// at this many delivered bytes fail with the errno
    pub fail_at: Option<(u64, i32)>,
}

#[derive(Default)]
pub struct OpenFd {
    pub plan: FdPlan,
    pub reads: u64,
    pub pos: u64,
    pub eintr_left: u32,
    pub eintr_done_for: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RngFault {
    None,
    /// every n-th call is interrupted (returns EINTR) before it succeeds
    Interrupt(u64),
    /// at most this many bytes per call
    Short(usize),
    /// the k-th and all later calls fail with EIO
    FailFrom(u64),
    /// only the k-th call fails with EIO
    FailOnce(u64),
}

/// What the simulated machine looks like to one thread of a run.
pub struct Env {
    pub entropy: Prng,
    pub entropy_calls: u64,
    pub entropy_bytes: u64,
    /// every byte the random source delivered
    pub delivered: Vec<u8>,
    pub rng_fault: RngFault,
    pub rng_faults_fired: u64,
    /// simulated wall clock, nanoseconds since the Unix epoch
    pub clock_ns: i64,
    pub clock_step_ns: i64,
    pub clock_reads: u64,
    /// (clock read number, new clock value)
    pub clock_jumps: Vec<(u64, i64)>,
    pub clock_jumps_fired: u64,
    /// reads of the clock that is never set
    pub mono_reads: u64,
    /// every value the wall clock showed
    pub clock_seen: Vec<i64>,
    pub slept_ns: u64,
    pub files: HashMap<String, SimFile>,
    pub fds: HashMap<i32, OpenFd>,
    pub opens: u64,
    pub fd_reads: u64,
    pub fd_faults: HashMap<&'static str, u64>,
    /// what was printed to the standard streams of the process
    pub console: Vec<u8>,
    /// errno of writes to them after `console_accepts` bytes, 0 for success
    pub console_errno: i32,
    pub console_accepts: usize,
    pub console_failed: u64,
    /// at most this many bytes per write, 0 for any number
    pub console_cap: usize,
    /// how many more writes are interrupted
    pub console_eintr: u32,
    /// what was printed to the standard output alone
    pub stdout: Vec<u8>,
    /// files of the current folder, and how writing to a new one goes; None if paths of that folder are not simulated
    pub folder: Option<Folder>,
    /// which file of the folder a descriptor writes to, and where
    pub out_fds: HashMap<i32, (String, usize)>,
    /// the simulated program has ended its process; nothing reaches the outside any more
    pub ended: bool,
    /// what library code did to the world outside its arguments
    pub effects: Vec<String>,
}

#[derive(Default)]
pub struct Folder {
    pub files: HashMap<String, Vec<u8>>,
    pub open_errno: i32,
    pub cap: usize,
    pub eintr: u32,
    /// after this many bytes writes fail with the errno
    pub fail_at: Option<(u64, i32)>,
    pub written: u64,
    pub faults: u64,
}

impl Env {
    pub fn new(entropy_seed: u64, clock_ns: i64) -> Env {
        Env {
            entropy: Prng::new(entropy_seed),
            entropy_calls: 0,
            entropy_bytes: 0,
            delivered: Vec::new(),
            rng_fault: RngFault::None,
            rng_faults_fired: 0,
            clock_ns,
            clock_step_ns: 1_000_000,
            clock_reads: 0,
            clock_jumps: Vec::new(),
            clock_jumps_fired: 0,
            mono_reads: 0,
            clock_seen: Vec::new(),
            slept_ns: 0,
            files: HashMap::new(),
            fds: HashMap::new(),
            opens: 0,
            fd_reads: 0,
            fd_faults: HashMap::new(),
            console: Vec::new(),
            console_errno: 0,
            console_accepts: 0,
            console_failed: 0,
            console_cap: 0,
            console_eintr: 0,
            stdout: Vec::new(),
            folder: None,
            out_fds: HashMap::new(),
            ended: false,
            effects: Vec::new(),
        }
    }
}

impl Env {
    /// Note an effect and have the system call refused.
    unsafe fn refuse(&mut self, what: String) -> i32 {
        self.effects.push(what);
        ret(-libc::EACCES as i64) as i32
    }
}

pub struct EnvCell(pub UnsafeCell<Env>);
unsafe impl Sync for EnvCell {}
unsafe impl Send for EnvCell {}

thread_local! {
    static ENV: Cell<*const EnvCell> = const { Cell::new(std::ptr::null()) };
    static YIELD: Cell<Option<fn(kind: u32)>> = const { Cell::new(None) };
    static ALLOC_COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static PER_CALL: Cell<bool> = const { Cell::new(false) };
    pub static ALLOC: AllocStats = const { AllocStats::new() };
}

/// Enter harness code on a simulated thread: no interposition, no accounting, no preemption.
pub struct Guard;
pub fn harness() -> Guard {
    HARNESS.with(|h| h.set(h.get() + 1));
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        HARNESS.with(|h| h.set(h.get() - 1));
    }
}
/// Leave harness code for the duration of a library call.
pub struct LibGuard(u32);
pub fn library() -> LibGuard {
    if PER_CALL.with(|p| p.get()) {
        edge::forget();
    }
    LibGuard(HARNESS.with(|h| h.replace(0)))
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        HARNESS.with(|h| h.set(self.0));
    }
}

pub fn install_env(cell: *const EnvCell) {
    ENV.with(|e| e.set(cell));
}
pub fn env() -> Option<&'static mut Env> {
    let p = ENV.with(|e| e.get());
    if p.is_null() {
        None
    } else {
        // one thread owns an Env at a time; the reference never outlives a single call
        Some(unsafe { &mut *(*p).0.get() })
    }
}
pub fn set_yield(f: Option<fn(u32)>) {
    YIELD.with(|y| y.set(f));
}
/// Yield after this many branches of the library's code, 0 for never.
pub fn set_edge_countdown(n: u64) {
    edge::HOOK.with(|h| h.set(Some(|| yield_point(7))));
    edge::COUNTDOWN.with(|c| c.set(n));
}
/// Yield at branches of the library's code that are new to the thread, or new within a call.
pub fn set_fresh(on: bool, per_call: bool) {
    edge::HOOK.with(|h| h.set(Some(|| yield_point(7))));
    edge::FRESH.with(|f| f.set(on));
    PER_CALL.with(|p| p.set(on && per_call));
    edge::forget();
}
pub fn stop_fresh() {
    edge::FRESH.with(|f| f.set(false));
}
pub fn set_alloc_countdown(n: u64) {
    ALLOC_COUNTDOWN.with(|c| c.set(n));
}
fn in_sim() -> bool {
    HARNESS.with(|h| h.get()) == 0 && !ENV.with(|e| e.get()).is_null()
}
/// A point where the simulated scheduler may switch threads.
pub fn yield_point(kind: u32) {
    if let Some(f) = YIELD.with(|y| y.get()) {
        let _g = harness();
        f(kind);
    }
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn sim_getrandom(buf: *mut u8, len: usize) -> i64 {
    yield_point(3);
    let _g = harness();
    let env = env().unwrap();
    env.entropy_calls += 1;
    let k = env.entropy_calls;
    let mut n = len;
    match env.rng_fault {
        RngFault::Interrupt(m) if m > 0 && k % (m + 1) != 0 => {
            env.rng_faults_fired += 1;
            return ret(-libc::EINTR as i64);
        }
        RngFault::Short(m) if n > m => {
            env.rng_faults_fired += 1;
            n = m;
        }
        RngFault::FailFrom(f) if k >= f => {
            env.rng_faults_fired += 1;
            return ret(-libc::EIO as i64);
        }
        RngFault::FailOnce(f) if k == f => {
            env.rng_faults_fired += 1;
            return ret(-libc::EIO as i64);
        }
        _ => {}
    }
    let s = std::slice::from_raw_parts_mut(buf, n);
    env.entropy.fill(s);
    env.entropy_bytes += n as u64;
    if env.delivered.len() < 1 << 20 {
        env.delivered.extend_from_slice(s);
    }
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() {
        return sim_getrandom(buf, len) as isize;
    }
    ret(raw6(318, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if in_sim() {
        if n == 318 {
            return sim_getrandom(a as *mut u8, b as usize);
        }
        if n == 202 {
            let op = b & 0x7f;
            if (op == 0 || op == 9) && YIELD.with(|y| y.get()).is_some() {
                // a blocked thread becomes a yield; futex waits may return spuriously
                yield_point(9);
                return 0;
            }
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        yield_point(4);
        let _g = harness();
        let env = env().unwrap();
        env.clock_reads += 1;
        let k = env.clock_reads;
        if let Some((_, v)) = env.clock_jumps.iter().find(|(at, _)| *at == k) {
            env.clock_ns = *v;
            env.clock_jumps_fired += 1;
        }
        let t = env.clock_ns;
        if env.clock_seen.len() < 1 << 16 {
            env.clock_seen.push(t);
        }
        // the kernel does not show times before 1970
        env.clock_ns = env.clock_ns.saturating_add(env.clock_step_ns).max(0);
        (*ts).tv_sec = t.div_euclid(1_000_000_000);
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        return 0;
    }
    if in_sim() && matches!(id, libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME) {
        yield_point(4);
        let _g = harness();
        let env = env().unwrap();
        env.mono_reads += 1;
        let t = 3_600_000_000_000 + env.slept_ns + env.mono_reads * 1_000_000;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

/// Waiting moves the simulated clock and lets others run.
unsafe fn sim_sleep(ts: *const libc::timespec) {
    yield_point(6);
    let _g = harness();
    let env = env().unwrap();
    let ns = (*ts).tv_sec.saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec);
    env.clock_ns = env.clock_ns.saturating_add(ns);
    env.slept_ns = env.slept_ns.saturating_add(ns.max(0) as u64);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        sim_sleep(ts);
        return 0;
    }
    ret(raw6(35, ts as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() && flags == 0 {
        sim_sleep(ts);
        return 0;
    }
    (-raw6(230, id as i64, flags as i64, ts as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() && YIELD.with(|y| y.get()).is_some() {
        yield_point(9);
        return 0;
    }
    ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32
}

unsafe fn sim_open(path: *const libc::c_char, flags: i32) -> Option<i32> {
    let _g = harness();
    let name = std::ffi::CStr::from_ptr(path).to_str().ok()?;
    let env = env().unwrap();
    let writes = flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || flags & libc::O_ACCMODE != libc::O_RDONLY;
    if !name.starts_with("/sim/") {
        if let Some(fd) = sim_create(env, name, flags) {
            return Some(fd);
        }
        if writes {
            // nothing outside the simulation is changed by library code
            return Some(env.refuse(format!("opened {name} for writing")));
        }
        if !["/dev/", "/proc/", "/sys/", "/etc/", "/usr/"].iter().any(|d| name.starts_with(d)) {
            env.effects.push(format!("opened {name}"));
        }
        return None;
    }
    env.opens += 1;
    if writes {
        env.effects.push(format!("opened {name} for writing"));
    }
    let Some(f) = env.files.get_mut(name) else {
        *env.fd_faults.entry("open_enoent").or_insert(0) += 1;
        env.effects.push(format!("opened {name}"));
        return Some(ret(-libc::ENOENT as i64) as i32);
    };
    if f.open_eintr > 0 {
        f.open_eintr -= 1;
        *env.fd_faults.entry("open_eintr").or_insert(0) += 1;
        return Some(ret(-libc::EINTR as i64) as i32);
    }
    if f.open_errno != 0 {
        *env.fd_faults.entry("open_error").or_insert(0) += 1;
        return Some(ret(-f.open_errno as i64) as i32);
    }
    let fd = raw6(319, c"sim".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
    assert!(fd >= 0, "memfd_create failed: {fd}");
    let mut off = 0usize;
    while off < f.data.len() {
        let r = raw6(
            1,
            fd as i64,
            f.data.as_ptr() as i64 + off as i64,
            (f.data.len() - off) as i64,
            0,
            0,
            0,
        );
        assert!(r > 0, "memfd write failed: {r}");
        off += r as usize;
    }
    raw6(8, fd as i64, 0, 0, 0, 0, 0);
    env.fds.insert(
        fd,
        OpenFd {
            plan: f.plan.clone(),
            ..Default::default()
        },
    );
    Some(fd)
}

/// Opening a file of the current folder for writing.
unsafe fn sim_create(env: &mut Env, name: &str, flags: i32) -> Option<i32> {
    let folder = env.folder.as_mut()?;
    let name = name.strip_prefix("./").unwrap_or(name);
    if name.starts_with('/') || flags & libc::O_ACCMODE == libc::O_RDONLY {
        return None;
    }
    if folder.open_errno != 0 {
        folder.faults += 1;
        return Some(ret(-folder.open_errno as i64) as i32);
    }
    if !folder.files.contains_key(name) && flags & libc::O_CREAT == 0 {
        return Some(ret(-libc::ENOENT as i64) as i32);
    }
    let data = folder.files.entry(name.to_string()).or_default();
    if flags & libc::O_TRUNC != 0 {
        data.clear();
    }
    let at = if flags & libc::O_APPEND != 0 { data.len() } else { 0 };
    let fd = raw6(319, c"sim".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
    assert!(fd >= 0, "memfd_create failed: {fd}");
    env.out_fds.insert(fd, (name.to_string(), at));
    Some(fd)
}

unsafe fn sim_file_write(fd: i32, buf: *const u8, count: usize) -> Option<isize> {
    let _g = harness();
    let env = env().unwrap();
    let (name, at) = env.out_fds.get_mut(&fd)?;
    if env.ended {
        return Some(count as isize);
    }
    let folder = env.folder.as_mut()?;
    if folder.eintr > 0 {
        folder.eintr -= 1;
        folder.faults += 1;
        return Some(ret(-libc::EINTR as i64) as isize);
    }
    let mut n = count;
    if folder.cap > 0 && n > folder.cap {
        n = folder.cap;
        folder.faults += 1;
    }
    if let Some((limit, errno)) = folder.fail_at {
        if folder.written >= limit {
            folder.faults += 1;
            return Some(ret(-errno as i64) as isize);
        }
        n = n.min((limit - folder.written) as usize);
    }
    let data = folder.files.entry(name.clone()).or_default();
    if data.len() < *at + n {
        data.resize(*at + n, 0);
    }
    data[*at..*at + n].copy_from_slice(std::slice::from_raw_parts(buf, n));
    *at += n;
    folder.written += n as u64;
    Some(n as isize)
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> i32 {
    if in_sim() {
        let _g = harness();
        if let Some(folder) = env().unwrap().folder.as_mut() {
            let name = |p| std::ffi::CStr::from_ptr(p).to_string_lossy().trim_start_matches("./").to_string();
            let (from, to) = (name(from), name(to));
            let Some(data) = folder.files.remove(&from) else {
                return ret(-libc::ENOENT as i64) as i32;
            };
            folder.files.insert(to, data);
            return 0;
        }
        return env().unwrap().refuse(format!("renamed {}", text(from)));
    }
    ret(raw6(82, from as i64, to as i64, 0, 0, 0, 0)) as i32
}

unsafe fn text(p: *const libc::c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}
/// Calls on paths that library code has no reason to make: noted and refused inside a simulation.
macro_rules! path_calls {
    ($($name:ident($path:ident $(, $arg:ident: $t:ty)*) = $nr:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($path: *const libc::c_char $(, $arg: $t)*) -> i32 {
            if in_sim() {
                let _g = harness();
                return env().unwrap().refuse(format!("{} of {}", stringify!($name), text($path)));
            }
            let a: [i64; 2] = path_calls!(@pad $($arg)*);
            ret(raw6($nr, $path as i64, a[0], a[1], 0, 0, 0)) as i32
        }
    )*};
    (@pad) => { [0, 0] };
    (@pad $a:ident) => { [$a as i64, 0] };
    (@pad $a:ident $b:ident) => { [$a as i64, $b as i64] };
}
path_calls! {
    mkdir(path, mode: u32) = 83;
    rmdir(path) = 84;
    link(path, to: *const libc::c_char) = 86;
    symlink(path, to: *const libc::c_char) = 88;
    chmod(path, mode: u32) = 90;
    chdir(path) = 80;
    truncate64(path, len: i64) = 76;
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    if in_sim() {
        let _g = harness();
        let env = env().unwrap();
        let name = text(path);
        if let Some(folder) = env.folder.as_mut() {
            return match folder.files.remove(name.trim_start_matches("./")) {
                Some(_) => 0,
                None => ret(-libc::ENOENT as i64) as i32,
            };
        }
        return env.refuse(format!("removed {name}"));
    }
    ret(raw6(87, path as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if in_sim() {
        let _g = harness();
        let env = env().unwrap();
        if let (Some((name, _)), Some(folder)) = (env.out_fds.get(&fd), env.folder.as_mut()) {
            folder.files.entry(name.clone()).or_default().resize(len.max(0) as usize, 0);
            return 0;
        }
        return env.refuse("changed the length of a file".into());
    }
    ret(raw6(77, fd as i64, len, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, kind: i32, protocol: i32) -> i32 {
    if in_sim() {
        let _g = harness();
        return env().unwrap().refuse(format!("opened a socket of domain {domain}"));
    }
    ret(raw6(41, domain as i64, kind as i64, protocol as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn setenv(name: *const libc::c_char, value: *const libc::c_char, over: i32) -> i32 {
    if in_sim() {
        let _g = harness();
        env().unwrap().effects.push(format!("set the environment variable {}", text(name)));
        return 0;
    }
    let f: unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, i32) -> i32 =
        std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"setenv".as_ptr()));
    f(name, value, over)
}
type Spawn = unsafe extern "C" fn(
    *mut libc::pid_t,
    *const libc::c_char,
    *const libc::posix_spawn_file_actions_t,
    *const libc::posix_spawnattr_t,
    *const *mut libc::c_char,
    *const *mut libc::c_char,
) -> i32;
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const libc::c_char,
    actions: *const libc::posix_spawn_file_actions_t,
    attrs: *const libc::posix_spawnattr_t,
    argv: *const *mut libc::c_char,
    envp: *const *mut libc::c_char,
) -> i32 {
    if in_sim() {
        let _g = harness();
        env().unwrap().refuse(format!("started {}", text(file)));
        return libc::EACCES;
    }
    let f: Spawn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"posix_spawnp".as_ptr()));
    f(pid, file, actions, attrs, argv, envp)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    if in_sim() {
        if let Some(fd) = sim_open(path, flags) {
            return fd;
        }
    }
    ret(raw6(2, path as i64, flags as i64, mode as i64, 0, 0, 0)) as i32
}

/// What a path of the simulated disk names, for code that looks before it opens.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
    if in_sim() && !path.is_null() {
        let _g = harness();
        if let Some(name) = std::ffi::CStr::from_ptr(path).to_str().ok().filter(|n| n.starts_with("/sim/")) {
            let Some(f) = env().unwrap().files.get(name) else {
                return ret(-libc::ENOENT as i64) as i32;
            };
            let mut st: libc::statx = std::mem::zeroed();
            st.stx_mask = libc::STATX_BASIC_STATS;
            st.stx_nlink = 1;
            st.stx_mode = (libc::S_IFREG | 0o600) as u16;
            st.stx_blksize = 4096;
            st.stx_size = f.data.len() as u64;
            st.stx_blocks = st.stx_size.div_ceil(512);
            *out = st;
            return 0;
        }
    }
    ret(raw6(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let p = ENV.with(|e| e.get());
    if !p.is_null() {
        let _g = harness();
        let env = env().unwrap();
        env.fds.remove(&fd);
        env.out_fds.remove(&fd);
    }
    ret(raw6(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, count: usize) -> isize {
    if in_sim() {
        if let Some(n) = sim_read(fd, buf, count) {
            return n;
        }
    }
    ret(raw6(0, fd as i64, buf as i64, count as i64, 0, 0, 0)) as isize
}

unsafe fn sim_console(fd: i32, buf: *const u8, count: usize) -> isize {
    let _g = harness();
    let env = env().unwrap();
    if env.ended {
        return count as isize;
    }
    if env.console_eintr > 0 {
        env.console_eintr -= 1;
        env.console_failed += 1;
        return ret(-libc::EINTR as i64) as isize;
    }
    let mut n = count;
    if env.console_cap > 0 && n > env.console_cap {
        n = env.console_cap;
        env.console_failed += 1;
    }
    if env.console_errno != 0 {
        let left = env.console_accepts.saturating_sub(if fd == 1 { env.stdout.len() } else { 0 });
        if left == 0 {
            env.console_failed += 1;
            return ret(-env.console_errno as i64) as isize;
        }
        n = n.min(left);
    }
    let text = std::slice::from_raw_parts(buf, n);
    if env.console.len() < 1 << 26 {
        env.console.extend_from_slice(text);
        if fd == 1 {
            env.stdout.extend_from_slice(text);
        }
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, count: usize) -> isize {
    if in_sim() {
        if fd == 1 || fd == 2 {
            return sim_console(fd, buf, count);
        }
        if let Some(n) = sim_file_write(fd, buf, count) {
            return n;
        }
    }
    ret(raw6(1, fd as i64, buf as i64, count as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if in_sim() {
        let mut sum = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            let p = v.iov_base as *const u8;
            let r = if fd == 1 || fd == 2 {
                sim_console(fd, p, v.iov_len)
            } else {
                match sim_file_write(fd, p, v.iov_len) {
                    Some(r) => r,
                    None => break,
                }
            };
            if r < 0 && sum == 0 {
                return r;
            }
            sum += r.max(0);
            if r < v.iov_len as isize {
                return sum;
            }
            if i + 1 == n as usize {
                return sum;
            }
        }
    }
    ret(raw6(20, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize
}

unsafe fn sim_read(fd: i32, buf: *mut u8, count: usize) -> Option<isize> {
    {
        let _g = harness();
        env().unwrap().fds.get(&fd)?;
    }
    yield_point(1);
    let _g = harness();
    let env = env().unwrap();
    env.fd_reads += 1;
    let f = env.fds.get_mut(&fd)?;
    let k = f.reads;
    if f.eintr_done_for != Some(k) {
        f.eintr_done_for = Some(k);
        f.eintr_left = f
            .plan
            .eintr
            .iter()
            .find(|(at, _)| *at == k)
            .map_or(0, |x| x.1);
    }
    if f.eintr_left > 0 {
        f.eintr_left -= 1;
        *env.fd_faults.entry("read_eintr").or_insert(0) += 1;
        return Some(ret(-libc::EINTR as i64) as isize);
    }
    let mut n = count;
    let cap = f.plan.sizes.get(k as usize).copied().unwrap_or(f.plan.rest);
    if cap > 0 && n > cap {
        n = cap;
        *env.fd_faults.entry("read_short").or_insert(0) += 1;
    }
    if let Some((at, errno)) = f.plan.fail_at {
        if f.pos >= at {
            *env.fd_faults.entry("read_error").or_insert(0) += 1;
            return Some(ret(-errno as i64) as isize);
        }
        n = n.min((at - f.pos) as usize);
    }
    f.reads += 1;
    let r = raw6(0, fd as i64, buf as i64, n as i64, 0, 0, 0);
    if r > 0 {
        f.pos += r as u64;
    }
    Some(ret(r) as isize)
}

pub struct AllocStats {
    pub live: Cell<i64>,
    /// allocated less freed by library code
    pub kept: Cell<i64>,
    /// sum of all requests of library code
    pub bytes: Cell<u64>,
    pub peak: Cell<i64>,
    pub largest: Cell<u64>,
    pub count: Cell<u64>,
}
impl AllocStats {
    pub const fn new() -> AllocStats {
        AllocStats {
            live: Cell::new(0),
            kept: Cell::new(0),
            bytes: Cell::new(0),
            peak: Cell::new(0),
            largest: Cell::new(0),
            count: Cell::new(0),
        }
    }
}

/// Requests above this are refused, which ends the process the way a real machine without the memory would.
pub const REFUSE_ABOVE: usize = 1 << 30;

pub struct SimAlloc;

impl SimAlloc {
    #[inline]
    fn note(size: usize) -> bool {
        if ENV.with(|e| e.get()).is_null() {
            return true;
        }
        ALLOC.with(|a| {
            a.live.set(a.live.get() + size as i64);
            if HARNESS.with(|h| h.get()) == 0 {
                a.count.set(a.count.get() + 1);
                a.kept.set(a.kept.get() + size as i64);
                a.bytes.set(a.bytes.get() + size as u64);
                if a.live.get() > a.peak.get() {
                    a.peak.set(a.live.get());
                }
                if size as u64 > a.largest.get() {
                    a.largest.set(size as u64);
                }
                if size > REFUSE_ABOVE {
                    return false;
                }
                let c = ALLOC_COUNTDOWN.with(|c| c.get());
                if c > 0 {
                    ALLOC_COUNTDOWN.with(|x| x.set(c - 1));
                    if c == 1 {
                        yield_point(5);
                    }
                }
            }
            true
        })
    }
    #[inline]
    fn forget(size: usize) {
        if !ENV.with(|e| e.get()).is_null() {
            ALLOC.with(|a| {
                a.live.set(a.live.get() - size as i64);
                if HARNESS.with(|h| h.get()) == 0 {
                    a.kept.set(a.kept.get() - size as i64);
                }
            });
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !SimAlloc::note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !SimAlloc::note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        SimAlloc::forget(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !SimAlloc::note(n) {
            return std::ptr::null_mut();
        }
        SimAlloc::forget(l.size());
        System.realloc(p, l, n)
    }
}
