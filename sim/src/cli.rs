//! The command line programs of the repository, run inside the simulated machine.
//!
//! Their sources are compiled in as modules (see build.rs). A program gets its arguments through the argument list
//! of this process, its file through open/read, and prints to the simulated standard streams.

use crate::ctx::take_panic;
use crate::interpose;
use std::ffi::CString;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::ExitCode;
use std::sync::atomic::{AtomicI32, AtomicPtr, Ordering};

include!(concat!(env!("OUT_DIR"), "/programs.rs"));

static ARGC: AtomicI32 = AtomicI32::new(0);
static ARGV: AtomicPtr<*const libc::c_char> = AtomicPtr::new(std::ptr::null_mut());

/// The loader hands the argument list to every initialiser; the standard library gets it the same way.
#[used]
#[link_section = ".init_array.00098"]
static KEEP_ARGS: extern "C" fn(i32, *mut *const libc::c_char, *const *const libc::c_char) = {
    extern "C" fn keep(argc: i32, argv: *mut *const libc::c_char, _env: *const *const libc::c_char) {
        ARGC.store(argc, Ordering::Relaxed);
        ARGV.store(argv, Ordering::Relaxed);
    }
    keep
};

/// Another argument list for as long as it lives.
struct Args {
    old: Vec<*const libc::c_char>,
    _new: Vec<CString>,
}
impl Args {
    fn set(args: &[String]) -> Args {
        let argc = ARGC.load(Ordering::Relaxed) as usize;
        let argv = ARGV.load(Ordering::Relaxed);
        assert!(args.len() <= argc, "the simulator needs {} arguments of its own", args.len());
        let new: Vec<CString> = args.iter().map(|a| CString::new(a.as_str()).unwrap()).collect();
        let mut old = Vec::new();
        for i in 0..argc {
            unsafe {
                old.push(*argv.add(i));
                *argv.add(i) = new.get(i).map_or(std::ptr::null(), |a| a.as_ptr());
            }
        }
        Args { old, _new: new }
    }
}
impl Drop for Args {
    fn drop(&mut self) {
        let argv = ARGV.load(Ordering::Relaxed);
        for (i, a) in self.old.iter().enumerate() {
            unsafe { *argv.add(i) = *a };
        }
    }
}

struct Exit(i32);

/// What `std::process::exit` is to a simulated program.
pub fn exit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    {
        let _g = interpose::harness();
        interpose::env().unwrap().ended = true;
    }
    std::panic::resume_unwind(Box::new(Exit(code)))
}

pub struct Ended {
    pub success: bool,
    pub panic: Option<String>,
    pub stdout: Vec<u8>,
}

/// Run one program to its end.
pub fn run(name: &str, args: &[String]) -> Ended {
    let main = PROGRAMS.iter().find(|p| p.0 == name).unwrap_or_else(|| panic!("no program {name}")).1;
    let mut argv = vec![name.to_string()];
    argv.extend_from_slice(args);
    let list = Args::set(&argv);
    let env = interpose::env().unwrap();
    env.ended = false;
    env.stdout.clear();
    let r = {
        let _l = interpose::library();
        let r = catch_unwind(AssertUnwindSafe(main));
        // the runtime of a real program flushes when main returned
        let _ = std::io::stdout().flush();
        r
    };
    drop(list);
    let env = interpose::env().unwrap();
    let stdout = std::mem::take(&mut env.stdout);
    // what a failing stream left behind must not show up in the next run
    env.ended = true;
    {
        let _l = interpose::library();
        let _ = std::io::stdout().flush();
    }
    let env = interpose::env().unwrap();
    env.ended = false;
    env.fds.clear();
    env.out_fds.clear();
    let (success, panic) = match r {
        Ok(code) => (format!("{code:?}") == format!("{:?}", ExitCode::SUCCESS), None),
        Err(e) => match e.downcast_ref::<Exit>() {
            Some(Exit(code)) => (*code == 0, None),
            None => {
                let (m, l) = take_panic();
                (false, Some(format!("{m} at {l}")))
            }
        },
    };
    Ended { success, panic, stdout }
}
