//! A scheduler that lets exactly one of several threads run and decides at every yield point who is next.

use crate::choice::Prng;
use crate::ctx::*;
use crate::interpose::{self, EnvCell};
use crate::runner;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

pub struct State {
    current: usize,
    left: u64,
    alive: Vec<bool>,
    blocked_streak: u64,
    yields: u64,
    switches: u64,
    decisions: u64,
    by_kind: [u64; 10],
    order: u64,
    cx: Cx,
    max_run: u64,
    alloc_every: u64,
    edge_every: u64,
    tail: Prng,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Vec<Condvar>,
}
pub struct Summary {
    pub yields: u64,
    pub switches: u64,
    pub order: u64,
    pub by_kind: [u64; 10],
}

thread_local! {
    static ME: Cell<(usize, *const Sched)> = const { Cell::new((0, std::ptr::null())) };
}

const FINE_YIELDS: u64 = 60_000;
const MAX_YIELDS: u64 = 3_000_000;

fn on_yield(kind: u32) {
    let (me, s) = ME.with(|m| m.get());
    if s.is_null() {
        return;
    }
    let s = unsafe { &*s };
    let mut st = s.st.lock().unwrap_or_else(|e| e.into_inner());
    st.yields += 1;
    st.by_kind[(kind as usize).min(9)] += 1;
    if st.yields > MAX_YIELDS {
        drop(st);
        runner::fatal("no progress", "threads do not finish within the step bound");
    }
    if kind == 9 {
        st.blocked_streak += 1;
        if st.blocked_streak > 20_000 {
            drop(st);
            runner::fatal("deadlock", "all threads wait for each other");
        }
        st.left = 0;
    } else {
        st.blocked_streak = 0;
        if st.left > 0 {
            st.left -= 1;
        }
    }
    if st.left == 0 {
        s.switch(&mut st, me, kind == 9);
        while st.current != me {
            st = s.cv[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    // a long run goes on with fewer switches
    let fine = st.yields < FINE_YIELDS;
    let (every, edges) = if fine { (st.alloc_every, st.edge_every) } else { (0, 0) };
    drop(st);
    interpose::set_alloc_countdown(every);
    interpose::set_edge_countdown(edges);
    if !fine {
        interpose::stop_fresh();
    }
}

impl Sched {
    /// Choose who runs next and for how long.
    fn switch(&self, st: &mut State, me: usize, must: bool) {
        let cands: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i] && !(must && *i == me)).collect();
        if cands.is_empty() {
            st.current = me;
            st.left = 1;
            return;
        }
        // after many decisions continue from one seed so that recorded schedules stay short
        let (t, n) = if st.decisions < 400 {
            st.decisions += 1;
            let t = cands[st.cx.usize(cands.len())];
            let n = 1 + st.cx.magnitude(st.max_run);
            (t, n)
        } else {
            let t = cands[st.tail.below(cands.len() as u64) as usize];
            let m = st.max_run;
            (t, 1 + st.tail.below(m))
        };
        if t != me {
            st.switches += 1;
        }
        st.order = hash_bytes(st.order, &[t as u8, n.min(200) as u8]);
        st.cx.evn("run thread", t as u64, n);
        st.current = t;
        st.left = n;
        if t != me {
            self.cv[t].notify_all();
        }
    }
}

/// Run the bodies concurrently under the scheduler. Each has its own machine.
pub fn run_threads<T: Send + 'static>(
    cx: &Cx,
    bodies: Vec<(Arc<EnvCell>, Box<dyn FnOnce() -> T + Send>)>,
) -> (Vec<Option<T>>, Summary) {
    let n = bodies.len();
    let max_run = cx.pick(&[3u64, 1, 12, 60]);
    let alloc_every = cx.pick(&[0u64, 1, 5, 40]);
    let edge_every = cx.pick(&[0u64, 1, 10, 60, 400, 3000]);
    // branches taken for the first time deserve more turns than loops
    let fresh = cx.weighted(&[2, 1, 1]);
    let tail = Prng::new(cx.seed());
    let first = cx.usize(n);
    let s = Arc::new(Sched {
        st: Mutex::new(State {
            current: first,
            left: 1,
            alive: vec![true; n],
            blocked_streak: 0,
            yields: 0,
            switches: 0,
            decisions: 0,
            by_kind: [0; 10],
            order: 0,
            cx: cx.clone(),
            max_run,
            alloc_every,
            edge_every,
            tail,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut hs = Vec::new();
    for (i, (cell, body)) in bodies.into_iter().enumerate() {
        let s = s.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(runner::RUN_STACK)
                .spawn(move || {
                    let _g = interpose::harness();
                    {
                        let mut st = s.st.lock().unwrap();
                        while st.current != i {
                            st = s.cv[i].wait(st).unwrap();
                        }
                    }
                    ME.with(|m| m.set((i, Arc::as_ptr(&s))));
                    interpose::install_env(Arc::as_ptr(&cell));
                    interpose::set_yield(Some(on_yield));
                    interpose::set_alloc_countdown(alloc_every);
                    interpose::set_edge_countdown(edge_every);
                    interpose::set_fresh(fresh > 0, fresh == 2);
                    runner::warm_thread();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).ok();
                    interpose::set_edge_countdown(0);
                    interpose::set_fresh(false, false);
                    interpose::set_yield(None);
                    interpose::install_env(std::ptr::null());
                    let mut st = s.st.lock().unwrap_or_else(|e| e.into_inner());
                    st.alive[i] = false;
                    st.blocked_streak = 0;
                    s.switch(&mut st, i, true);
                    drop(st);
                    r
                })
                .expect("spawn"),
        );
    }
    let out = hs.into_iter().map(|h| h.join().ok().flatten()).collect();
    let st = s.st.lock().unwrap_or_else(|e| e.into_inner());
    (
        out,
        Summary {
            yields: st.yields,
            switches: st.switches,
            order: st.order,
            by_kind: st.by_kind,
        },
    )
}
