//! C14: concurrent sessions do not interfere.
use super::*;
use crate::arch::*;
use crate::choice::Src;
use crate::ctx::{lib, viol};
use crate::edit;
use crate::ensure;
use crate::interpose::{Env, EnvCell};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::sched;
use crate::simio::*;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::Kdbx;
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C14",
        run,
        quick: 4000,
        thorough: 60000,
        rule: "distinct (session programs, order and length of turns) signatures: the sequence of (thread, steps) decisions of the scheduler together with the operations of the sessions",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "two to four threads",
            "threads change at stream, randomness, clock, allocation and lock-wait points and at branches of the library",
            "sequentially consistent memory",
        ],
    }
}

struct IsSync<T>(PhantomData<T>);
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for IsSync<T> {}
#[allow(dead_code)]
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}

/// One archive several threads use.
struct Shared {
    open: Kdbx<Unlocked>,
    locked: Kdbx<Locked>,
    bytes: Vec<u8>,
    creds: rc::Creds,
    db: MDb,
    usable: bool,
}
// only used where the types themselves allow it
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

struct Plan {
    seed: u64,
    entropy: u64,
    clock: i64,
    /// credentials of the other sessions
    others: Vec<rc::Creds>,
    shared: Option<Arc<Shared>>,
    tracing: bool,
}

/// What a session did and saw, apart from random bytes and exact lengths.
type Log = Vec<String>;

fn creds_of(seed: u64) -> rc::Creds {
    gen_creds(&Cx::new(Src::search(seed ^ 0x5eed), false))
}

fn session(p: &Plan, pc: &Cx) -> R<Log> {
    let mut log = Log::new();
    let mut creds = creds_of(p.seed);
    let s = gen_settings(pc);
    let mut db = gen_db(pc, PLAIN);
    if pc.chance(1, 40) {
        add_bulk(pc, &mut db, 60_000);
    }
    let mut k = make(&db, &s, &creds)?;
    for _ in 0..pc.range(1, 6) {
        let op = pc.weighted(&[6, 3, 3, 2, 2, 2, 3, if p.shared.is_some() { 8 } else { 0 }]);
        log.push(format!("op {op}"));
        match op {
            0 => {
                if !representable(&db) {
                    continue;
                }
                let frag = Frag::choose(pc);
                let (r, st) = save_to(pc, &k, frag, OutFault::None)?;
                ensure!(r.is_ok(), "save failed", "{r:?}");
                let b = st.lock().unwrap().accepted.clone();
                // another implementation reads it as well
                match rc::open4(&b, &creds) {
                    Err(e) => return viol("stored archive", format!("not readable by the reference reader: {e}")),
                    Ok(o) => {
                        let mut ks = rc::Keystream::new(o.inner, &o.inner_key);
                        match crate::refxml::read_db(&o.xml, &mut ks) {
                            Err(e) => return viol("stored archive", format!("document not readable: {e}")),
                            Ok(m) => {
                                if let Some(x) = diff_db(&db, &m) {
                                    return viol(format!("stored archive: {} differs", diff_kind(&x)), x);
                                }
                            }
                        }
                    }
                }
                k = reopen_expect("own archive", &b, &creds, &db)?;
            }
            1 => {
                // other people's credentials do not open it
                if !representable(&db) {
                    continue;
                }
                let b = save_ok(pc, &k)?;
                for w in &p.others {
                    if equivalent(w, &creds) {
                        continue;
                    }
                    match open_unlock(&b, w)? {
                        Err(e) => log.push(kind_of(&e)),
                        Ok(_) => return viol("opened with another session's credentials", "archive opened with credentials of another session".to_string()),
                    }
                }
                k = reopen_expect("own archive", &b, &creds, &db)?;
            }
            2 => {
                for _ in 0..pc.range(1, 3) {
                    edit::random_edit(pc, &mut k, &mut db, PLAIN)?;
                }
            }
            3 => {
                creds = gen_creds(pc);
                set_key(&mut k, &creds)?;
            }
            4 => {
                if representable(&db) {
                    let f = super::c09::gen_fault(pc, 3000);
                    let frag = Frag::choose(pc);
                    let (r, st) = save_to(pc, &k, frag, f)?;
                    let st = st.lock().unwrap();
                    super::c09::judge(pc, "save", r.is_ok(), &st, f, |b| reopen_expect("save", b, &creds, &db).map(|_| ()))?;
                }
            }
            5 => {
                let s = gen_settings(pc);
                apply(&mut k, &s);
                set_key(&mut k, &creds)?;
            }
            6 => {
                // an archive of another client
                let d = gen_db(pc, PLAIN);
                if !representable(&d) {
                    continue;
                }
                let major = if pc.chance(1, 3) { 3 } else { 4 };
                let a = gen_archive(pc, major, 3000);
                let mut l = Layout::choose(pc, major == 3);
                let (b, _) = foreign(pc, &a, &d, &mut l, &creds);
                let frag = Frag::choose(pc);
                let r = SimReader::new(pc, Arc::new(b), frag, InFault::None);
                let locked = match lib("opening", || kdbx_rs::from_reader(r))? {
                    Ok(k) => k,
                    Err(e) => return viol("foreign archive not opened", format!("{e:?}")),
                };
                match unlock(locked, &creds)? {
                    Err((_, e)) => return viol("foreign archive not unlocked", format!("{e:?}")),
                    Ok(f) => {
                        expect_content("foreign archive", &f, &d)?;
                        if major == 4 && pc.chance(1, 2) {
                            // and goes on with it
                            k = f;
                            db = d;
                        }
                    }
                }
            }
            _ => {
                let sh = p.shared.as_ref().unwrap();
                let op = pc.below(5);
                log.push(format!("shared {op}"));
                match op {
                    0 => {
                        let b = save_ok(pc, &sh.open)?;
                        reopen_expect("shared archive", &b, &sh.creds, &sh.db)?;
                    }
                    1 => expect_content("shared archive in memory", &sh.open, &sh.db)?,
                    2 => {
                        let frag = Frag::choose(pc);
                        let (sink, st) = SimSink::new(pc, frag, OutFault::None);
                        let r = lib("writing a locked archive", || sh.locked.write(sink))?;
                        ensure!(r.is_ok(), "copy failed", "{r:?}");
                        let b = st.lock().unwrap().accepted.clone();
                        reopen_expect("copy of the shared archive", &b, &sh.creds, &sh.db)?;
                    }
                    3 => match open_unlock(&sh.bytes, &creds)? {
                        Ok(_) if !equivalent(&creds, &sh.creds) => {
                            return viol("opened with another session's credentials", "shared archive opened with foreign credentials".to_string())
                        }
                        Ok(_) => log.push("equal credentials".into()),
                        Err(e) => log.push(kind_of(&e)),
                    },
                    _ => {
                        reopen_expect("shared archive", &sh.bytes, &sh.creds, &sh.db)?;
                        let xml = sh.open.raw_xml();
                        ensure!(xml.map(|x| !x.is_empty()).unwrap_or(true), "raw xml", "raw XML is empty");
                    }
                }
            }
        }
        let now = content(&k)?;
        if let Some(x) = diff_db(&db, &now) {
            return viol(format!("own content: {} differs", diff_kind(&x)), x);
        }
        log.push(format!("{:x}", crate::ctx::hash_bytes(0, format!("{now:?}").as_bytes())));
    }
    Ok(log)
}

type Body = Box<dyn FnOnce() -> (R<Log>, Cx) + Send>;
fn body(p: &Arc<Plan>) -> (Arc<EnvCell>, Body) {
    let p = p.clone();
    let cell = Arc::new(EnvCell(UnsafeCell::new(Env::new(p.entropy, p.clock))));
    (
        cell,
        Box::new(move || {
            let pc = Cx::new(Src::search(p.seed), p.tracing);
            let r = session(&p, &pc);
            (r, pc)
        }),
    )
}
fn merge(cx: &Cx, i: usize, pc: &Cx) {
    if let Some(t) = pc.with(|i| i.trace.take()) {
        cx.with(|x| {
            if let Some(all) = &mut x.trace {
                all.extend(t.iter().take(400).map(|l| format!("session {i}: {l}")));
            }
        });
    }
    let (stats, sig, ev, events) = pc.with(|i| (i.stats.clone(), i.sig, i.ev_hash, i.events));
    for (k, n) in stats {
        cx.count_n(&k, n);
    }
    cx.sig(sig);
    cx.evn("session", ev, events);
}

fn run(cx: &Cx) -> R {
    let n = cx.range(2, 4) as usize;
    let shared = if cx.chance(1, 2) {
        let creds = gen_creds(cx);
        let s = gen_settings(cx);
        let db = gen_db(cx, PLAIN);
        if !representable(&db) {
            return Ok(());
        }
        let k = make(&db, &s, &creds)?;
        let bytes = save_ok(cx, &k)?;
        let locked = match open_bytes(&bytes)? {
            Ok(l) => l,
            Err(e) => return viol("saved archive not opened", format!("{e:?}")),
        };
        let open = if cx.chance(1, 2) { reopen_expect("shared archive", &bytes, &creds, &db)? } else { k };
        Some(Arc::new(Shared {
            open,
            locked,
            bytes,
            creds,
            db,
            usable: IsSync::<Kdbx<Unlocked>>::SYNC && IsSync::<Kdbx<Locked>>::SYNC,
        }))
    } else {
        None
    };
    let shared = shared.filter(|s| s.usable);
    let seeds: Vec<u64> = (0..n).map(|_| cx.seed()).collect();
    // sometimes two sessions are the same user, or run the same program
    let same = cx.weighted(&[8, 1]) == 1;
    let tracing = cx.with(|i| i.trace.is_some());
    let plans: Vec<Arc<Plan>> = (0..n)
        .map(|i| {
            let seed = if same { seeds[0] } else { seeds[i] };
            Arc::new(Plan {
                seed,
                entropy: seeds[i].rotate_left(17),
                clock: (1_500_000_000 + (seeds[i] % 400_000_000) as i64) * 1_000_000_000,
                others: (0..n).filter(|j| *j != i).map(|j| creds_of(seeds[j])).collect(),
                shared: shared.clone(),
                tracing,
            })
        })
        .collect();
    cx.sample(format!("{n} sessions, shared archive: {}", shared.is_some()));
    // each alone
    let mut alone = Vec::new();
    for p in &plans {
        let (mut r, _) = sched::run_threads(cx, vec![body(p)]);
        match r.pop().flatten() {
            None => return viol("HARNESS", "session thread failed".to_string()),
            Some((Err(v), _)) => return viol(format!("alone: {}", v.class), v.msg),
            Some((Ok(l), _)) => alone.push(l),
        }
    }
    // all at once
    let (rs, sum) = sched::run_threads(cx, plans.iter().map(body).collect());
    cx.sig(sum.order);
    cx.count_n("fault.thread_switch", sum.switches);
    for (k, name) in [
        (1, "probe.yield_read"),
        (2, "probe.yield_write"),
        (3, "probe.yield_randomness"),
        (4, "probe.yield_clock"),
        (5, "probe.yield_allocation"),
        (7, "probe.yield_branch"),
        (9, "probe.yield_blocked"),
    ] {
        cx.count_n(name, sum.by_kind[k]);
    }
    for (i, r) in rs.into_iter().enumerate() {
        match r {
            None => return viol("HARNESS", "session thread failed".to_string()),
            Some((Err(v), _)) => return viol(format!("concurrent: {}", v.class), format!("session {i}: {}", v.msg)),
            Some((Ok(l), pc)) => {
                merge(cx, i, &pc);
                if l != alone[i] {
                    let at = l.iter().zip(&alone[i]).position(|(a, b)| a != b).unwrap_or(l.len().min(alone[i].len()));
                    return viol(
                        "concurrent result differs",
                        format!("session {i}, item {at}: {:?} together, {:?} alone", l.get(at), alone[i].get(at)),
                    );
                }
            }
        }
    }
    Ok(())
}
