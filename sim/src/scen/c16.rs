//! C16: timestamps.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, viol};
use crate::ensure;
use crate::interpose;
use crate::model::*;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::database::{Entry, Group, Times};
use kdbx_rs::{Database, Kdbx};

pub fn scenario() -> Scenario {
    Scenario {
        id: "C16",
        run,
        quick: 80000,
        thorough: 300000,
        rule: "distinct (sequence of creations, clock moves, zone changes, edits, saves and reopens) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &["clock values from 1970 to 2261, as a kernel can show them", "leap seconds are not shown by the clock"],
    }
}

/// The times must be values the clock showed during the creation.
fn fresh(cx: &Cx, what: &str, t: &Times, from: usize) -> R {
    let e = interpose::env().unwrap();
    let shown: Vec<i64> = e.clock_seen[from..].iter().map(|ns| ns.div_euclid(1_000_000_000) + UNIX_OFFSET).collect();
    let m = m_times(t);
    for (name, v) in ["modification", "creation", "access", "expiry", "location"].iter().zip(m.t) {
        ensure!(
            shown.contains(&v),
            format!("{what}: {name} time is not the current time"),
            "{what}: {name} time {v} (seconds since year 1, UTC), clock showed {shown:?}, zone {:?}",
            std::env::var("TZ")
        );
    }
    cx.count("probe.new_times_checked");
    cx.nontrivial();
    Ok(())
}

fn move_clock(cx: &Cx) {
    let e = interpose::env().unwrap();
    match cx.below(6) {
        0 => e.clock_ns += cx.below(100_000) as i64 * 1_000_000_000,
        1 => {
            // anywhere
            e.clock_ns = cx.below(9_190_000_000) as i64 * 1_000_000_000 + cx.below(1_000_000_000) as i64;
            cx.count("fault.clock_jump");
        }
        2 => {
            // just before a full second, or on it
            e.clock_ns = e.clock_ns.div_euclid(1_000_000_000) * 1_000_000_000 + 1_000_000_000 - cx.pick(&[0i64, 1, 2, 500, 1_000_000]);
            cx.count("fault.clock_near_second");
        }
        3 => {
            // near daylight saving changes and year ends, 2021
            let t = cx.pick(&[1_615_705_200i64, 1_636_264_800, 1_617_458_400, 1_632_578_400, 1_640_995_200, 1_614_556_800, 0, 951_782_400]);
            e.clock_ns = (t + cx.below(7200) as i64 - 3600).max(0) * 1_000_000_000;
            cx.count("fault.clock_jump");
        }
        4 => {
            // jump while the clock is being read
            let v = cx.below(9_190_000_000) as i64 * 1_000_000_000;
            let at = e.clock_reads + 1 + cx.below(4);
            e.clock_jumps.push((at, v));
            cx.count("fault.clock_jump_between_reads");
        }
        _ => e.clock_step_ns = cx.pick(&[1_000_000i64, 0, 999_999_999, 1_000_000_000, 3_600_000_000_000, -1_000_000_000]),
    }
    if e.clock_ns < 0 {
        e.clock_ns = 0;
    }
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let s = gen_settings(cx);
    let (mut k, mut db);
    let origin = cx.below(2);
    let mark = || interpose::env().unwrap().clock_seen.len();
    if origin == 0 {
        move_clock(cx);
        let at = mark();
        let d = lib("Database::default", Database::default)?;
        fresh(cx, "root group", d.root().times(), at)?;
        k = lib("from_database", || Kdbx::from_database(d))?;
        apply(&mut k, &s);
        set_key(&mut k, &creds)?;
        db = content(&k)?;
    } else {
        db = gen_db(cx, PLAIN);
        if !representable(&db) {
            return Ok(());
        }
        let mut l = Layout::plain();
        l.iso_dates = cx.chance(1, 3);
        let a = gen_archive(cx, 4, 3000);
        let (b, _) = foreign(cx, &a, &db, &mut l, &creds);
        k = reopen_expect("archive of another client", &b, &creds, &db)?;
        apply(&mut k, &s);
    }
    cx.sig(origin);
    let n = cx.range(3, 14);
    cx.sample(format!("origin {origin}, {n} steps, zone {:?}", std::env::var("TZ")));
    for _ in 0..n {
        let op = cx.weighted(&[4, 4, 4, 3, 2, 3, 2, 2, 1]);
        cx.sig(op as u64);
        cx.ev(format!("step {op}"));
        match op {
            0 => move_clock(cx),
            1 => {
                let at = mark();
                let e = lib("Entry::default", Entry::default)?;
                fresh(cx, "entry", e.times(), at)?;
                let m = m_entry(&e);
                db.root.entries.push(m);
                lib("add_entry", || k.add_entry(e))?;
            }
            2 => {
                let at = mark();
                let g = if cx.chance(1, 2) { lib("Group::new", || Group::new("n"))? } else { lib("Group::default", Group::default)? };
                fresh(cx, "group", g.times(), at)?;
                db.root.groups.push(m_group(&g));
                lib("add_group", || k.add_group(g))?;
            }
            3 => {
                let z = cx.pick(&crate::runner::ZONES);
                std::env::set_var("TZ", z);
                cx.sig_str(z);
                cx.count("fault.zone_changed");
            }
            4 => {
                let at = mark();
                let t = lib("Times::default", Times::default)?;
                fresh(cx, "Times::default", &t, at)?;
            }
            5 => {
                // edits that set no time
                if !db.root.entries.is_empty() {
                    let i = cx.usize(db.root.entries.len());
                    let t = gen_text(cx, PLAIN);
                    let what = cx.below(5);
                    let m = &mut db.root.entries[i];
                    let put = |m: &mut MEntry, key: &str, prot: bool, t: &str| match m.fields.iter_mut().find(|f| f.key == key) {
                        Some(f) => {
                            f.value = t.to_string();
                            f.protected |= prot;
                        }
                        None => m.fields.push(MField {
                            key: key.into(),
                            value: t.to_string(),
                            protected: prot,
                        }),
                    };
                    lib("editing", || {
                        let e = k.root_mut().entries_mut().nth(i).unwrap();
                        match what {
                            0 => e.set_title(&t),
                            1 => e.set_password(&t),
                            2 => e.new_version(),
                            3 => e.set_url(&t),
                            _ => e.set_username(&t),
                        }
                    })?;
                    match what {
                        0 => put(m, "Title", false, &t),
                        1 => put(m, "Password", true, &t),
                        2 => {
                            let mut o = m.clone();
                            o.history.clear();
                            m.history.push(o);
                        }
                        3 => put(m, "URL", false, &t),
                        _ => put(m, "UserName", false, &t),
                    }
                    expect_content("edit", &k, &db)?;
                }
            }
            6 => {
                // the user sets times
                if !db.root.entries.is_empty() {
                    let i = cx.usize(db.root.entries.len());
                    let mut t = gen_times(cx);
                    if cx.chance(1, 6) {
                        t.t[cx.usize(5)] = gen_far(cx);
                    }
                    db.root.entries[i].times = t.clone();
                    lib("times_mut", || l_times(&t, k.root_mut().entries_mut().nth(i).unwrap().times_mut()))?;
                }
            }
            7 => {
                if cx.chance(1, 4) {
                    let f = super::c09::gen_fault(cx, 2000);
                    let _ = save_to(cx, &k, Frag::none(), f)?;
                    expect_content("after a save with faults", &k, &db)?;
                }
                let b = save_ok(cx, &k)?;
                expect_content("after a save", &k, &db)?;
                if cx.chance(2, 3) {
                    move_clock(cx);
                    k = reopen_expect("reopened", &b, &creds, &db)?;
                }
                cx.count("probe.saves");
            }
            _ => {
                // move an entry
                if !db.root.entries.is_empty() && !db.root.groups.is_empty() {
                    let i = cx.usize(db.root.entries.len());
                    let u = db.root.entries[i].uuid;
                    let at = db.root.entries.iter().position(|e| e.uuid == u).unwrap();
                    let m = db.root.entries.remove(at);
                    db.root.groups[0].entries.push(m);
                    let moved = lib("moving an entry", || match k.root_mut().remove_entry(uuid::Uuid::from_bytes(u)) {
                        Some(e) => {
                            k.root_mut().groups_mut().next().unwrap().add_entry(e);
                            true
                        }
                        None => false,
                    })?;
                    if !moved {
                        return viol("entry not found", "remove_entry did not find an entry of the root group");
                    }
                    expect_content("move", &k, &db)?;
                }
            }
        }
    }
    expect_content("end", &k, &db)
}
