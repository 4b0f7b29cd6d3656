//! C15: secrets come from the random source and are never reused.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, lib_catch, viol};
use crate::edit;
use crate::ensure;
use crate::interpose::{self, RngFault};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::{KdbxHeader, KdbxInnerHeader, KdfParams, Unlocked};
use kdbx_rs::database::{Entry, Group};
use kdbx_rs::{Database, Kdbx};
use std::collections::HashMap;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C15",
        run,
        quick: 80000,
        thorough: 300000,
        rule: "distinct (sequence of creations, saves, edits, reopens and clock moves, behaviour of the random source, outcomes) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "the random source itself does not repeat within a run",
            "a secret counts as coming from the random source if its bytes were delivered by it during the run",
        ],
    }
}

fn from_source(x: &[u8]) -> bool {
    let e = interpose::env().expect("env");
    !x.is_empty() && e.delivered.windows(x.len()).any(|w| w == x)
}
fn uuid_from_source(u: &[u8; 16]) -> bool {
    let e = interpose::env().expect("env");
    let same = |w: &mut dyn Iterator<Item = u8>| {
        w.zip(u.iter()).enumerate().all(|(i, (w, u))| match i {
            6 => w & 0x0f == u & 0x0f,
            8 => w & 0x3f == u & 0x3f,
            _ => w == *u,
        })
    };
    // the uuid crate takes them as a number
    e.delivered
        .windows(16)
        .any(|w| same(&mut w.iter().copied()) || same(&mut w.iter().rev().copied()))
}

struct Seen {
    /// secret -> what it is
    secrets: HashMap<Vec<u8>, String>,
    /// seed and IV -> the encrypted data
    pairs: HashMap<(Vec<u8>, Vec<u8>), Vec<u8>>,
}
impl Seen {
    fn fresh(&mut self, cx: &Cx, what: &str, x: &[u8], len: usize) -> R {
        ensure!(x.len() >= len, format!("{what} too short"), "{what} has {} bytes", x.len());
        ensure!(
            from_source(x),
            format!("{what} not from the random source"),
            "{what} {:02x?} was not delivered by the random source",
            x
        );
        cx.count("probe.secrets_checked");
        if let Some(o) = self.secrets.insert(x.to_vec(), what.to_string()) {
            return viol(format!("{what} repeats"), format!("{what} equals an earlier {o}"));
        }
        Ok(())
    }
    fn uuid(&mut self, cx: &Cx, what: &str, u: uuid::Uuid) -> R {
        ensure!(
            uuid_from_source(u.as_bytes()),
            format!("identifier of a new {what} not from the random source"),
            "identifier {u} of a new {what} was not delivered by the random source"
        );
        cx.count("probe.identifiers_checked");
        if let Some(o) = self.secrets.insert(u.as_bytes().to_vec(), what.to_string()) {
            return viol(format!("identifier of a new {what} repeats"), format!("identifier {u} equals that of an earlier {o}"));
        }
        Ok(())
    }
    fn header(&mut self, cx: &Cx, h: &KdbxHeader) -> R {
        self.fresh(cx, "master seed of a new archive", &h.master_seed, 32)?;
        self.fresh(cx, "IV of a new archive", &h.encryption_iv, 12)?;
        let salt = match &h.kdf_params {
            KdfParams::Argon2 { salt, .. } | KdfParams::Aes { salt, .. } => salt.clone(),
            KdfParams::Unknown { .. } => return viol("new archive without key derivation", "unknown key derivation"),
        };
        self.fresh(cx, "key derivation salt of a new archive", &salt, 16)
    }
    fn inner(&mut self, cx: &Cx, h: &KdbxInnerHeader) -> R {
        self.fresh(cx, "inner stream key of a new archive", &h.inner_stream_key, 32)
    }
    fn saved(&mut self, bytes: &[u8], ours: bool, created_here: bool) -> R {
        let Ok((_, _, f, hl)) = rc::parse_header(bytes) else {
            return viol("save has no valid header", "save has no valid header");
        };
        let get = |id| f.iter().find(|x| x.0 == id).map(|x| x.1.clone()).unwrap_or_default();
        let (seed, iv) = (get(4), get(7));
        if ours {
            ensure!(
                seed.len() == 32 && from_source(&seed),
                "seed of a save not from the random source",
                "the master seed {:02x?} of a save was not delivered by the random source",
                seed
            );
            if created_here {
                ensure!(
                    from_source(&iv),
                    "IV of a save not from the random source",
                    "the IV {:02x?} of a save was not delivered by the random source",
                    iv
                );
            }
        }
        let data = bytes[hl..].to_vec();
        if let Some(o) = self.pairs.insert((seed, iv), data.clone()) {
            ensure!(
                o == data,
                "seed and IV reused",
                "two saves of different data use the same master seed and IV"
            );
        }
        Ok(())
    }
}

struct Sess {
    k: Kdbx<Unlocked>,
    db: MDb,
    creds: rc::Creds,
    new: bool,
}

fn fault(cx: &Cx) -> RngFault {
    match cx.weighted(&[5, 2, 2, 2, 2]) {
        0 => RngFault::None,
        1 => RngFault::Interrupt(cx.range(1, 4)),
        2 => RngFault::Short(cx.range(1, 20) as usize),
        3 => RngFault::FailFrom(interpose::env().unwrap().entropy_calls + 1 + cx.below(6)),
        _ => RngFault::FailOnce(interpose::env().unwrap().entropy_calls + 1 + cx.below(6)),
    }
}
fn failing(f: RngFault) -> bool {
    matches!(f, RngFault::FailFrom(_) | RngFault::FailOnce(_))
}

fn run(cx: &Cx) -> R {
    let mut seen = Seen {
        secrets: HashMap::new(),
        pairs: HashMap::new(),
    };
    let mut list: Vec<Sess> = Vec::new();
    let mut stored: Vec<(Vec<u8>, MDb, rc::Creds, bool)> = Vec::new();
    let n = cx.range(2, 12);
    cx.sample(format!("{n} steps"));
    for _ in 0..n {
        let f = fault(cx);
        cx.sig_str(&format!("{f:?}"));
        let env = interpose::env().unwrap();
        env.rng_fault = f;
        let fired = env.rng_faults_fired;
        let op = cx.weighted(&[3, 2, 5, 3, 2, 1, 1]);
        cx.sig(op as u64);
        cx.ev(format!("step {op} random source {f:?}"));
        // a panic is an acceptable reaction to a failing random source, and only to that
        let tolerate = |e: String| -> R {
            let env = interpose::env().unwrap();
            env.rng_fault = RngFault::None;
            ensure!(
                failing(f) && env.rng_faults_fired > fired,
                "panic without a failure of the random source",
                "{e}"
            );
            Ok(())
        };
        match op {
            // a new archive
            0 => match lib_catch(|| {
                let d = Database::default();
                let u = d.root().uuid();
                (Kdbx::from_database(d), u)
            }) {
                Err(e) => tolerate(e)?,
                Ok((mut k, u)) => {
                    interpose::env().unwrap().rng_fault = RngFault::None;
                    seen.uuid(cx, "root group", u)?;
                    seen.header(cx, k.header())?;
                    seen.inner(cx, k.inner_header())?;
                    cx.nontrivial();
                    let db = content(&k)?;
                    let s = gen_settings(cx);
                    apply(&mut k, &s);
                    let creds = gen_creds(cx);
                    set_key(&mut k, &creds)?;
                    list.push(Sess { k, db, creds, new: true });
                }
            },
            // items
            1 => match lib_catch(|| (Entry::default().uuid(), Group::new("g").uuid(), Group::default().uuid(), Entry::default().uuid())) {
                Err(e) => tolerate(e)?,
                Ok((a, b, c, d)) => {
                    seen.uuid(cx, "entry", a)?;
                    seen.uuid(cx, "group", b)?;
                    seen.uuid(cx, "group", c)?;
                    seen.uuid(cx, "entry", d)?;
                    cx.nontrivial();
                }
            },
            // save
            2 if !list.is_empty() => {
                let i = cx.usize(list.len());
                let s = &list[i];
                let out = if cx.chance(1, 5) { super::c09::gen_fault(cx, 2000) } else { OutFault::None };
                let (sink, st) = SimSink::new(cx, Frag::none(), out);
                match lib_catch(|| s.k.write(sink)) {
                    Err(e) => tolerate(e)?,
                    Ok(r) => {
                        let env = interpose::env().unwrap();
                        env.rng_fault = RngFault::None;
                        let st = st.lock().unwrap();
                        if r.is_err() {
                            ensure!(
                                st.errors > 0 || (failing(f) && env.rng_faults_fired > fired),
                                "save failed without a fault",
                                "{r:?}"
                            );
                        }
                        cx.sig(r.is_ok() as u64);
                        // a failed save may have stored enough to matter as well
                        if r.is_ok() || rc::parse_header(&st.accepted).is_ok_and(|h| st.accepted.len() > h.3 + 100) {
                            seen.saved(&st.accepted, true, s.new)?;
                            cx.nontrivial();
                            cx.count("probe.saves_checked");
                        }
                        if r.is_ok() {
                            reopen_expect("save", &st.accepted, &s.creds, &s.db)?;
                            stored.push((st.accepted.clone(), s.db.clone(), s.creds.clone(), s.new));
                        }
                    }
                }
            }
            3 if !list.is_empty() => {
                interpose::env().unwrap().rng_fault = RngFault::None;
                let i = cx.usize(list.len());
                let s = &mut list[i];
                if cx.chance(1, 4) {
                    let t = gen_settings(cx);
                    apply(&mut s.k, &t);
                } else {
                    edit::random_edit(cx, &mut s.k, &mut s.db, PLAIN)?;
                }
            }
            // open what was stored, as often as one likes
            4 => {
                interpose::env().unwrap().rng_fault = RngFault::None;
                if stored.is_empty() {
                    let creds = gen_creds(cx);
                    let db = gen_db(cx, PLAIN);
                    if !representable(&db) {
                        continue;
                    }
                    let a = gen_archive(cx, 4, 2000);
                    let (b, _) = foreign(cx, &a, &db, &mut Layout::plain(), &creds);
                    seen.saved(&b, false, false)?;
                    stored.push((b, db, creds, false));
                }
                let (b, db, creds, new) = stored[cx.usize(stored.len())].clone();
                let k = reopen_expect("stored archive", &b, &creds, &db)?;
                list.push(Sess { k, db, creds, new });
            }
            5 => match lib_catch(|| (KdbxHeader::from_os_random(), KdbxInnerHeader::from_os_random())) {
                Err(e) => tolerate(e)?,
                Ok((h, i)) => {
                    seen.header(cx, &h)?;
                    seen.inner(cx, &i)?;
                }
            },
            _ => {
                // the clock stands still or returns to an earlier value
                let e = interpose::env().unwrap();
                e.clock_step_ns = 0;
                if let Some(v) = e.clock_seen.first() {
                    e.clock_ns = *v;
                }
                cx.count("fault.clock_set_back");
            }
        }
        let env = interpose::env().unwrap();
        env.rng_fault = RngFault::None;
        let now = env.rng_faults_fired - fired;
        cx.count_n(
            match f {
                RngFault::None => "probe.random_source_ok",
                RngFault::Interrupt(_) => "fault.random_interrupted",
                RngFault::Short(_) => "fault.random_short",
                _ => "fault.random_failed",
            },
            now,
        );
    }
    // archives saved without an edit in between open independently
    for s in &list {
        lib("dropping", || std::hint::black_box(&s.k.header().cipher))?;
    }
    Ok(())
}
