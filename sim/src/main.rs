//! Deterministic simulation of kdbx-rs with fault injection.
//!
//! `check ID` searches seeds for a violation of one property, `replay FILE` repeats a recorded execution,
//! `selftest` shows that a seed determines its execution.

mod arch;
mod choice;
#[cfg(feature = "cli")]
mod cli;
mod ctx;
mod edit;
mod interpose;
mod model;
mod refcodec;
mod refxml;
mod runner;
mod scen;
mod sched;
mod search;
mod simio;

#[global_allocator]
static GLOBAL: interpose::SimAlloc = interpose::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") if a.len() == 3 => search::check(a[2]),
        Some("worker") if a.len() == 7 => search::worker(&a[2..]),
        Some("serve") if a.len() == 3 => search::serve(a[2]),
        Some("replay") if a.len() == 3 => search::replay(a[2]),
        Some("seed") if a.len() >= 4 => search::one_seed(a[2], a[3].parse().unwrap_or(0)),
        Some("selftest") => search::selftest(a.get(2).copied()),
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: kdbx-sim check ID | replay FILE | seed ID N | selftest [ID] | list");
            2
        }
    };
    std::process::exit(code);
}
