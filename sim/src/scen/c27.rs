//! C27: library code touches nothing but what it was given.
use super::*;
use crate::ctx::{take_panic, viol};
use crate::interpose;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C27",
        run,
        quick: 20000,
        thorough: 240000,
        rule: "distinct executions of the other scenarios (by the measure of the scenario that was run) whose effects were looked at",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "effects are seen at the system interface of the C library: opening, creating, renaming, removing and truncating files, folders, links, standard streams, sockets, processes, the current folder, environment variables, signal handling, file mode mask and panic hook",
            "reading system files below /dev, /proc, /sys, /etc and /usr is no effect",
        ],
    }
}

const RUNS: [(&str, fn(&Cx) -> R, u64); 19] = [
    ("C01", |cx| c01::run(cx), 2),
    ("C02", |cx| (c02::scenario().run)(cx), 1),
    ("C03", |cx| (c03::scenario().run)(cx), 2),
    ("C05", |cx| (c05::scenario().run)(cx), 3),
    ("C06", |cx| (c06::scenario().run)(cx), 3),
    ("C07", |cx| (c07::scenario().run)(cx), 3),
    ("C08", |cx| (c08::scenario().run)(cx), 3),
    ("C09", |cx| (c09::scenario().run)(cx), 2),
    ("C10", |cx| (c10::scenario().run)(cx), 4),
    ("C11", |cx| (c11::scenario().run)(cx), 2),
    ("C12", |cx| (c12::scenario().run)(cx), 3),
    ("C13", |cx| (c13::scenario().run)(cx), 6),
    ("C15", |cx| (c15::scenario().run)(cx), 3),
    ("C16", |cx| (c16::scenario().run)(cx), 3),
    ("C17", |cx| (c17::scenario().run)(cx), 4),
    ("C19", |cx| (c19::scenario().run)(cx), 2),
    ("C21", |cx| (c21::scenario().run)(cx), 4),
    ("C25", |cx| (c25::scenario().run)(cx), 5),
    ("C31", |cx| (c31::scenario().run)(cx), 4),
];

/// Signal handling and file mode mask of the process.
fn process_state() -> Vec<String> {
    let _h = interpose::harness();
    let s = std::fs::read_to_string("/proc/thread-self/status").unwrap_or_default();
    s.lines().filter(|l| ["Umask", "SigBlk", "SigIgn", "SigCgt"].iter().any(|p| l.starts_with(p))).map(String::from).collect()
}

fn run(cx: &Cx) -> R {
    let before = process_state();
    let i = cx.weighted(&RUNS.map(|r| r.2));
    let (name, f, _) = RUNS[i];
    cx.sig(i as u64);
    cx.count(&format!("probe.executions_of_{name}"));
    // what that scenario finds is its own business
    let _ = f(cx);
    let env = interpose::env().unwrap();
    if let Some(e) = env.effects.first() {
        let kind = e.split(' ').next().unwrap_or("").to_string();
        return viol(
            format!("an effect outside the arguments: {kind}"),
            format!("library code {e} ({} effects in this execution of {name})", env.effects.len()),
        );
    }
    if !env.console.is_empty() || env.console_failed > 0 {
        return viol(
            "output to the standard streams",
            format!(
                "library code wrote {} bytes to the standard streams, beginning with {:?}, and failed to write {} times",
                env.console.len(),
                String::from_utf8_lossy(&env.console[..env.console.len().min(60)]),
                env.console_failed
            ),
        );
    }
    let after = process_state();
    if before != after {
        return viol("signal handling or file mode mask changed", format!("{before:?} became {after:?}"));
    }
    // the application's panic hook is still in place
    let _ = take_panic();
    let _ = std::panic::catch_unwind(|| panic!("of C27"));
    if take_panic().0 != "of C27" {
        return viol("panic hook replaced", "the panic hook of the application is not called any more");
    }
    Ok(())
}
