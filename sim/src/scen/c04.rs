//! C04: a crash during a save.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::edit;
use crate::model::*;
use crate::refcodec as rc;
use crate::simio::*;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C04",
        run,
        quick: 6000,
        thorough: 60000,
        rule: "distinct (settings, base of the file, crash point class, sector size, loss pattern, outcome) signatures of crashes",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "the disk keeps, loses or tears whole sectors of 512 or 4096 bytes written since the last sync; it does not invent other data than old content, new content, zeros and torn sectors",
            "the application writes one file directly, in place or after truncation; no rename",
        ],
    }
}

/// What a crash leaves of `new` written over `base` in the given pieces.
fn crash(cx: &Cx, base: &[u8], new: &[u8], ops: &[usize]) -> Vec<u8> {
    let sector = cx.pick(&[512usize, 4096]);
    // bytes handed over before the crash
    // ends of the parts of the archive
    let mut parts: Vec<usize> = Vec::new();
    if let Ok((_, _, _, n)) = rc::parse_header(new) {
        parts.extend([n, n + 32, n + 64]);
    }
    parts.extend(rc::block_spans(new).iter().map(|b| b.1));
    let done = match cx.weighted(&[3, 4, 2, 2]) {
        0 => new.len(),
        1 => cx.below(new.len() as u64 + 1) as usize,
        3 if !parts.is_empty() => {
            let i = cx.usize(parts.len());
            cx.count("probe.crash_between_parts");
            parts[i].min(new.len())
        }
        _ => {
            let i = cx.usize(ops.len().max(1));
            ops.get(i).copied().unwrap_or(0)
        }
    };
    let style = cx.weighted(&[2, 3, 2, 2]);
    let seed = cx.seed();
    let mut p = Prng::new(seed);
    let explicit = done / sector <= 24;
    let side = match parts.is_empty() || !cx.chance(1, 2) {
        true => None,
        false => Some((parts[cx.usize(parts.len())], cx.chance(1, 2))),
    };
    // file length: between the base's and what was written
    let end = match cx.weighted(&[3, 1, 1, 2]) {
        0 => base.len().max(done),
        // the file was extended before its data arrived
        3 => {
            cx.count("fault.file_extended_early");
            let more = cx.pick(&[0usize, 0, 1, 36, 4096]);
            base.len().max(new.len() + more)
        }
        1 => base.len().max(done / sector * sector),
        _ => {
            let i = cx.usize(ops.len().max(1));
            base.len().max(ops.get(i).copied().unwrap_or(0).min(done))
        }
    };
    let mut disk = base.to_vec();
    disk.resize(end.max(base.len()), 0);
    cx.sig(sector as u64 * 16 + style as u64);
    cx.sig((done * 16 / new.len().max(1)) as u64);
    let (mut kept, mut lost, mut torn) = (0u64, 0u64, 0u64);
    let mut at = 0;
    while at < done.min(end) {
        let to = (at + sector).min(done).min(end);
        let fate = match style {
            0 => 0,
            _ if explicit => cx.weighted(&[5, 3, 1]),
            1 => (p.below(3) == 0) as usize,
            // everything on one side of a part's end is lost
            2 if side.is_some() => {
                let (x, before) = side.unwrap();
                if x > at && x < to {
                    match before {
                        false => disk[at..x].copy_from_slice(&new[at..x]),
                        true => disk[x..to].copy_from_slice(&new[x..to]),
                    }
                    3
                } else {
                    ((x >= to) == before) as usize
                }
            }
            2 => [0, 0, 0, 0, 0, 1, 2][p.below(7) as usize],
            _ => [1, 1, 1, 0][p.below(4) as usize],
        };
        match fate {
            0 => {
                disk[at..to].copy_from_slice(&new[at..to]);
                kept += 1;
            }
            1 => lost += 1,
            3 => torn += 1,
            _ => {
                let cut = match parts.iter().find(|x| **x > at && **x < to) {
                    Some(x) if p.below(2) == 0 => *x,
                    _ => at + p.below((to - at) as u64 + 1) as usize,
                };
                disk[at..cut].copy_from_slice(&new[at..cut]);
                torn += 1;
            }
        }
        at = to;
    }
    cx.count("fault.crash");
    cx.count_n("fault.sector_lost", lost);
    cx.count_n("fault.sector_torn", torn);
    cx.ev(format!("crash after {done} of {} bytes, sectors of {sector}: {kept} kept {lost} lost {torn} torn, file length {end}", new.len()));
    cx.sig(lost.min(8) * 64 + torn.min(8) * 8 + kept.min(7));
    disk
}

fn run(cx: &Cx) -> R {
    let mut s = gen_settings(cx);
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    let bulk = match cx.weighted(&[20, 10, 3]) {
        0 => 0,
        1 => cx.range(1000, 30_000) as usize,
        _ => cx.range(1_000_000, 2_300_000) as usize,
    };
    if bulk > 0 {
        if bulk > 500_000 {
            if s.cipher == rc::RCipher::TwoFish {
                s.cipher = rc::RCipher::ChaCha20;
            }
            s.gzip = false;
        }
        add_bulk(cx, &mut db, bulk);
    }
    let mut k = make(&db, &s, &creds)?;
    let mut disk: Vec<u8> = Vec::new();
    // databases saved so far, newest last, each with its key
    let mut saved: Vec<(MDb, rc::Creds)> = Vec::new();
    let mut cur = creds.clone();
    let n = if bulk > 500_000 { 2 } else { cx.range(1, 4) };
    cx.sample(format!("settings {:?}, {} saves, {}", s, n, db.summary()));
    for i in 0..n {
        let crash_now = i + 1 == n || cx.chance(1, 3);
        let frag = if cx.chance(1, 2) { Frag::choose(cx) } else { Frag::none() };
        let (r, st) = save_to(cx, &k, frag, OutFault::None)?;
        if let Err(e) = r {
            return crate::ctx::viol("save failed", format!("saving to a working output failed: {e}"));
        }
        let (new, ops) = {
            let mut st = st.lock().unwrap();
            (std::mem::take(&mut st.accepted), std::mem::take(&mut st.ops))
        };
        if crash_now {
            // several ways this save could have ended
            for _ in 0..if bulk > 500_000 { 6 } else { cx.range(1, 3) } {
                let base: Vec<u8> = match cx.weighted(&[3, 1, 2]) {
                    0 => disk.clone(),
                    1 => Vec::new(),
                    // truncation done, partly
                    _ => {
                        let keep = cx.below(disk.len() as u64 + 1) as usize;
                        disk[..keep].to_vec()
                    }
                };
                let after = crash(cx, &base, &new, &ops);
                let mut allowed = saved.last().into_iter().cloned().collect::<Vec<_>>();
                allowed.push((db.clone(), cur.clone()));
                let mut keys: Vec<rc::Creds> = allowed.iter().map(|a| a.1.clone()).collect();
                keys.dedup_by(|a, b| equivalent(a, b));
                for key in &keys {
                    match open_unlock(&after, key)? {
                        Err(e) => {
                            cx.ev(format!("after crash: {}", kind_of(&e)));
                            cx.sig_str(&kind_of(&e));
                        }
                        Ok(k2) => {
                            let got = content(&k2)?;
                            let ok = allowed.iter().any(|(d, c)| equivalent(c, key) && diff_db(d, &got).is_none());
                            if !ok {
                                let d = diff_db(&db, &got).unwrap_or_default();
                                return crate::ctx::viol(
                                    "mixture accepted after a crash",
                                    format!("after a crash the file opens to neither the old nor the new database: new vs found: {d}"),
                                );
                            }
                            cx.count("probe.readable_after_crash");
                            cx.sig(7);
                        }
                    }
                }
            }
            // the machine restarts, the application saves again
            let again = save_ok(cx, &k)?;
            k = reopen_expect("save after a crash", &again, &cur, &db)?;
            saved.push((db.clone(), cur.clone()));
            disk = again;
        } else {
            saved.push((db.clone(), cur.clone()));
            disk = new;
            if cx.chance(1, 2) {
                k = reopen_expect("save", &disk, &cur, &db)?;
            }
        }
        if i + 1 < n {
            if bulk > 500_000 && cx.chance(2, 3) {
                // same length, so that old and new blocks line up
                let seed = cx.seed();
                let len = db.desc.len();
                if len > 1000 {
                    db.desc = bulk_text(seed, len);
                    let d = db.desc.clone();
                    k.database_mut().set_description(d);
                }
                let mut g = &mut db.root;
                edit_bulk(&mut g, k.database_mut().root_mut(), seed);
            } else {
                for _ in 0..cx.range(1, 3) {
                    edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
                }
            }
            if cx.chance(1, 8) {
                cur = gen_creds(cx);
                set_key(&mut k, &cur)?;
            }
        }
    }
    Ok(())
}

/// Replace long values by others of the same length.
fn edit_bulk(m: &mut MGroup, g: &mut kdbx_rs::database::Group, seed: u64) {
    for (e, le) in m.entries.iter_mut().zip(g.entries_mut()) {
        for (f, lf) in e.fields.iter_mut().zip(le.fields_mut()) {
            if f.value.len() > 1000 {
                f.value = bulk_text(seed ^ f.value.len() as u64, f.value.len());
                lf.set_value(&f.value);
            }
        }
    }
    for (c, lc) in m.groups.iter_mut().zip(g.groups_mut()) {
        edit_bulk(c, lc, seed);
    }
}
