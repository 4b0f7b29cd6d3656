//! C30: an archive that several devices and other clients share.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, viol};
use crate::edit;
use crate::ensure;
use crate::interpose::{self, FdPlan, SimFile};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::Kdbx;
use std::sync::Arc;
use uuid::Uuid;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C30",
        run,
        quick: 12000,
        thorough: 150000,
        rule: "distinct sequences of (device or client, operation, outcome) of histories with at least two writers",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "KDBX 4 archives; a stored archive is replaced as a whole and only by a successful save",
            "up to three devices, 35 steps",
        ],
    }
}

/// All there is to know about one version of the archive.
#[derive(Clone)]
struct Version {
    db: MDb,
    creds: rc::Creds,
    set: Settings,
    outer: Vec<(u8, Vec<u8>)>,
    inner: Vec<(u8, Vec<u8>)>,
    minor: u16,
    /// stored by another client, in a form the strict reading of the reference client does not accept
    loose: bool,
}

enum Held {
    Nothing,
    Closed(Kdbx<Locked>),
    Open(Kdbx<Unlocked>),
}
struct Device {
    held: Held,
    /// what it holds
    v: Version,
    /// the credentials its user knows
    known: rc::Creds,
}

fn carried(f: &[(u8, Vec<u8>)], own: &[u8]) -> Vec<(u8, Vec<u8>)> {
    f.iter().filter(|x| !own.contains(&x.0)).cloned().collect()
}
const OUTER: [u8; 6] = [0, 2, 3, 4, 7, 11];
const INNER: [u8; 3] = [0, 1, 2];

/// What another client finds in the stored archive.
fn inspect(cx: &Cx, class: &str, bytes: &[u8], v: &Version) -> R {
    let o = if v.loose {
        reopen_expect(class, bytes, &v.creds, &v.db)?;
        match rc::open4(bytes, &v.creds) {
            Ok(o) => o,
            Err(e) => return viol(format!("{class}: container rejected"), e),
        }
    } else {
        super::c02::reference_reads(cx, class, bytes, &v.creds, &v.set, &v.db)?
    };
    let show = |f: &[(u8, Vec<u8>)]| f.iter().map(|x| format!("{}[{}]", x.0, x.1.len())).collect::<Vec<_>>().join(" ");
    for (what, got, want) in [
        ("outer", carried(&o.outer, &OUTER), &v.outer),
        ("inner", carried(&o.inner_fields, &INNER), &v.inner),
    ] {
        ensure!(
            got == *want,
            format!("{class}: {what} header data differ"),
            "{class}: {what} header fields (id[length]) {} became {}",
            show(want),
            show(&got)
        );
    }
    ensure!(o.minor == v.minor, format!("{class}: minor version differs"), "{} became {}", v.minor, o.minor);
    cx.count("probe.stored_versions_inspected");
    Ok(())
}

/// Another client stores a version with its own choices.
fn other_client(cx: &Cx, v: &mut Version) -> Vec<u8> {
    let mut a = gen_archive(cx, 4, 3000);
    if cx.chance(1, 2) {
        // a client that keeps settings and data of others
        a.cipher = v.set.cipher;
        a.iv.resize(a.cipher.iv_len(), 3);
        a.gzip = v.set.gzip.then_some(1);
        a.gzip_lens.clear();
        a.kdf = v.set.kdf.clone();
        a.minor = v.minor;
        a.outer_extra = v.outer.clone();
        a.inner_extra = v.inner.clone();
    }
    let mut l = Layout::choose(cx, false);
    let (bytes, _) = foreign(cx, &a, &v.db, &mut l, &v.creds);
    v.set = Settings {
        cipher: a.cipher,
        gzip: a.gzip.is_some(),
        kdf: a.kdf.clone(),
        inner: a.inner,
    };
    v.outer = carried(&a.outer_fields(), &OUTER);
    v.inner = carried(&a.inner_fields(), &INNER);
    v.minor = a.minor;
    v.loose = true;
    bytes
}

fn edit_model(cx: &Cx, db: &mut MDb) {
    match cx.below(4) {
        0 => db.name = gen_text(cx, PLAIN),
        1 => db.root.entries.push(gen_entry(cx, PLAIN, 1)),
        2 => db.root.groups.push(gen_group(cx, PLAIN, 1)),
        _ => {
            if let Some(e) = db.root.entries.first_mut() {
                let old = MEntry {
                    history: Vec::new(),
                    ..e.clone()
                };
                e.history.push(old);
                e.fields.push(gen_field(cx, PLAIN));
            }
        }
    }
}

fn run(cx: &Cx) -> R {
    let mut stored = Version {
        db: gen_db(cx, PLAIN),
        creds: gen_creds(cx),
        set: gen_settings(cx),
        outer: Vec::new(),
        inner: Vec::new(),
        minor: 0,
        loose: false,
    };
    if !representable(&stored.db) {
        return Ok(());
    }
    let mut bytes;
    if cx.chance(1, 2) {
        bytes = Arc::new(other_client(cx, &mut stored));
        if !representable(&stored.db) {
            return Ok(());
        }
    } else {
        let k = make(&stored.db, &stored.set, &stored.creds)?;
        stored.minor = k.minor_version();
        bytes = Arc::new(save_ok(cx, &k)?);
        inspect(cx, "first version", &bytes, &stored)?;
    }
    let mut devices: Vec<Device> = (0..cx.range(1, 4))
        .map(|_| Device {
            held: Held::Nothing,
            v: stored.clone(),
            known: stored.creds.clone(),
        })
        .collect();
    cx.sample(format!("{} devices, settings {:?}, {}", devices.len(), stored.set, stored.db.summary()));
    let mut writers = std::collections::BTreeSet::new();
    for _ in 0..cx.range(3, 36) {
        let i = cx.usize(devices.len());
        let others: Vec<usize> = (0..devices.len()).filter(|j| *j != i).collect();
        let mut op = cx.weighted(&[5, 5, 5, 2, 2, 4, 2, 6, 1]);
        if matches!(devices[i].held, Held::Nothing) {
            op = cx.pick(&[0, 0, 0, 6]);
        } else if matches!(devices[i].held, Held::Closed(_)) && op > 2 && op != 6 {
            op = 1;
        } else if op == 0 && cx.chance(1, 2) {
            op = 5;
        }
        cx.sig(op as u64 * 4 + i as u64);
        cx.ev(format!("device {i} step {op}"));
        let d = &mut devices[i];
        match op {
            // open the stored archive, by a stream or by name
            0 => {
                let r = if cx.chance(1, 2) {
                    let r = SimReader::new(cx, bytes.clone(), Frag::choose(cx), InFault::None);
                    lib("from_reader", || kdbx_rs::from_reader(r))?
                } else {
                    let file = SimFile {
                        data: bytes.to_vec(),
                        open_errno: 0,
                        open_eintr: cx.below(3) as u32,
                        plan: FdPlan::default(),
                    };
                    interpose::env().unwrap().files.insert("/sim/shared.kdbx".into(), file);
                    lib("open", || kdbx_rs::open("/sim/shared.kdbx"))?
                };
                match r {
                    Ok(l) => d.held = Held::Closed(l),
                    Err(e) => return viol("stored archive not opened", format!("{e:?}")),
                }
                d.v = stored.clone();
            }
            // unlock with what the user knows
            1 => {
                let l = match std::mem::replace(&mut d.held, Held::Nothing) {
                    Held::Closed(l) => l,
                    h => {
                        d.held = h;
                        continue;
                    }
                };
                let right = equivalent(&d.known, &d.v.creds);
                cx.sig(right as u64);
                match unlock(l, &d.known)? {
                    Ok(k) => {
                        ensure!(right, "an earlier key opened the archive", "credentials {:?} opened an archive stored with {:?}", d.known, d.v.creds);
                        expect_content("version read by a device", &k, &d.v.db)?;
                        d.held = Held::Open(k);
                    }
                    Err((l, e)) => {
                        ensure!(!right, "stored archive not unlocked", "{e:?}");
                        d.held = Held::Closed(l);
                        // the user is told the new key
                        d.known = d.v.creds.clone();
                        cx.count("fault.stale_credentials");
                    }
                }
            }
            // save what the device holds: the last writer wins
            2 => {
                let r = match &d.held {
                    Held::Nothing => continue,
                    Held::Closed(l) => {
                        let (sink, st) = SimSink::new(cx, Frag::choose(cx), OutFault::None);
                        let r = lib("writing a locked archive", || l.write(sink))?;
                        ensure!(r.is_ok(), "copy failed", "{r:?}");
                        cx.count("probe.older_versions_restored");
                        let b = st.lock().unwrap().accepted.clone();
                        b
                    }
                    Held::Open(k) => {
                        d.v.loose = false;
                        save_ok(cx, k)?
                    }
                };
                inspect(cx, "saved version", &r, &d.v)?;
                bytes = Arc::new(r);
                stored = d.v.clone();
                writers.insert(i);
                cx.count("probe.versions_stored");
            }
            // a save that fails leaves the stored archive and the device as they are
            3 => {
                if let Held::Open(k) = &d.held {
                    let f = super::c09::gen_fault(cx, bytes.len());
                    let (r, _) = save_to(cx, k, Frag::choose(cx), f)?;
                    cx.sig(r.is_ok() as u64);
                }
            }
            // another key or other settings
            4 => {
                if let Held::Open(k) = &mut d.held {
                    if cx.chance(1, 2) {
                        d.v.creds = gen_creds(cx);
                    }
                    if cx.chance(1, 2) {
                        d.v.set = gen_settings(cx);
                        apply(k, &d.v.set);
                    }
                    set_key(k, &d.v.creds)?;
                    d.known = d.v.creds.clone();
                }
            }
            5 => {
                if let Held::Open(k) = &mut d.held {
                    let mut m = d.v.db.clone();
                    edit::random_edit(cx, k, &mut m, PLAIN)?;
                    if !representable(&m) {
                        return Ok(());
                    }
                    d.v.db = m;
                }
            }
            // the other client's turn
            6 => {
                let mut v = stored.clone();
                for _ in 0..cx.below(3) {
                    edit_model(cx, &mut v.db);
                }
                if cx.chance(1, 4) {
                    v.creds = gen_creds(cx);
                }
                if !representable(&v.db) {
                    return Ok(());
                }
                bytes = Arc::new(other_client(cx, &mut v));
                stored = v;
                writers.insert(9);
                cx.count("probe.versions_of_other_client");
            }
            // take an item over from what another device holds
            7 if !others.is_empty() => {
                let j = cx.pick(&others);
                let (from, to) = if i < j {
                    let (a, b) = devices.split_at_mut(j);
                    (&b[0], &mut a[i])
                } else {
                    let (a, b) = devices.split_at_mut(i);
                    (&a[j], &mut b[0])
                };
                let (Held::Open(f), Held::Open(t)) = (&from.held, &mut to.held) else { continue };
                if cx.chance(1, 2) {
                    if from.v.db.root.entries.is_empty() {
                        continue;
                    }
                    let m = cx.pick(&from.v.db.root.entries);
                    let m = from.v.db.root.entries.iter().find(|e| e.uuid == m.uuid).unwrap().clone();
                    let e = lib("taking an entry over", || {
                        let e = f.root().entries().find(|e| e.uuid() == Uuid::from_bytes(m.uuid)).cloned();
                        if let Some(e) = &e {
                            t.add_entry(e.clone());
                        }
                        e.is_some()
                    })?;
                    ensure!(e, "entry not found", "an entry of another device's archive is not there");
                    to.v.db.root.entries.push(m);
                } else {
                    if from.v.db.root.groups.is_empty() {
                        continue;
                    }
                    let n = cx.usize(from.v.db.root.groups.len());
                    lib("taking a group over", || {
                        let g = f.root().groups().nth(n).cloned();
                        t.add_group(g.unwrap());
                    })?;
                    to.v.db.root.groups.push(from.v.db.root.groups[n].clone());
                }
                cx.count("probe.items_taken_over");
            }
            8 => d.held = Held::Nothing,
            _ => {}
        }
        // nothing a device does changes what another one holds
        for (j, d) in devices.iter().enumerate() {
            if let Held::Open(k) = &d.held {
                expect_content(if i == j { "archive of the device" } else { "archive of another device" }, k, &d.v.db)?;
            }
        }
    }
    reopen_expect("last stored version", &bytes, &stored.creds, &stored.db)?;
    if let Err(e) = rc::open4(&bytes, &stored.creds) {
        return viol("last stored version rejected", e);
    }
    if writers.len() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}
