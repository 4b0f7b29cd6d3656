//! C26: a long-running process gives back what it takes.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::lib;
use crate::ensure;
use crate::interpose::{self, SimFile, ALLOC};
use crate::model::*;
use crate::refcodec as rc;
use kdbx_rs::binary::{FailedUnlock, Locked, Unlocked};
use kdbx_rs::database::{Entry, Field, Group, Otp};
use kdbx_rs::{CompositeKey, Database, Kdbx};
use std::io;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C26",
        run,
        quick: 240,
        thorough: 2400,
        rule: "distinct sequences of the sessions of a run: (origin of the archive, what failed, where the session ended)",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "memory kept between sessions may be up to 16 KiB more after the second half of the sessions of a run than after the first",
            "200 to 1500 sessions per run",
        ],
    }
}

/// Growth that is no leak: caches of a bounded size.
const ALLOWED: i64 = 16 << 10;

/// Hands out pieces, then fails or ends. Takes no memory itself.
struct In<'a> {
    data: &'a [u8],
    piece: usize,
    fails: bool,
}
impl io::Read for In<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() && self.fails {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let n = buf.len().min(self.piece).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Takes what fits.
struct Out<'a> {
    to: &'a mut Vec<u8>,
    room: usize,
}
impl io::Write for Out<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.room);
        if n == 0 && !buf.is_empty() {
            return Err(io::ErrorKind::StorageFull.into());
        }
        self.to.extend_from_slice(&buf[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What one kind of session does; the data of each session differs.
#[derive(Clone, Debug)]
struct Plan {
    /// 0 new database, 1 stored archive in memory, 2 stored archive in a file, 3 one that stays open, 4 one that stays locked
    origin: u64,
    archive: usize,
    entries: u64,
    text: usize,
    settings: Settings,
    wrong: u64,
    open_fails: Option<u64>,
    damage: bool,
    saves: u64,
    save_fails: bool,
    edits: u64,
    /// the session ends after this stage
    ends: u64,
    piece: usize,
    export: bool,
}

fn gen_plan(cx: &Cx, archives: usize) -> Plan {
    let origin = cx.below(5);
    let ends = cx.weighted(&[1, 1, 5]) as u64;
    cx.sig(origin * 3 + ends);
    let p = Plan {
        origin,
        archive: cx.usize(archives),
        entries: cx.below(6),
        text: cx.magnitude(3000) as usize,
        settings: gen_settings(cx),
        wrong: if cx.chance(1, 2) { cx.range(1, 3) } else { 0 },
        open_fails: if cx.chance(1, 6) { Some(cx.below(2)) } else { None },
        damage: cx.chance(1, 6),
        saves: cx.below(4),
        save_fails: cx.chance(1, 3),
        edits: cx.below(4),
        ends,
        piece: cx.pick(&[1usize << 20, 1000, 64, 17]),
        export: cx.chance(1, 3),
    };
    cx.sig(p.wrong.min(1) + p.open_fails.map(|x| x + 1).unwrap_or(0) * 2 + p.damage as u64 * 8 + p.save_fails as u64 * 16 + p.export as u64 * 32);
    cx.sig(p.saves * 4 + p.edits);
    p
}

fn edit(r: &mut Prng, p: &Plan, db: &mut Database) {
    for i in 0..p.entries {
        let mut e = Entry::default();
        e.set_title(bulk_text(r.next(), 8));
        e.set_password(bulk_text(r.next(), 1 + p.text / 2));
        if i % 2 == 0 {
            let mut g = Group::default();
            g.set_name(bulk_text(r.next(), 5));
            g.add_entry(e);
            db.root_mut().add_group(g);
        } else {
            db.root_mut().add_entry(e);
        }
    }
}

fn change(r: &mut Prng, k: &mut Kdbx<Unlocked>) {
    match r.below(8) {
        5 => {
            // fields come, are renamed, protected, cleared and go
            if let Some(e) = k.database_mut().root_mut().recursive_entries_mut().next() {
                e.add_field(Field::new(&bulk_text(r.next(), 9), &bulk_text(r.next(), 20)));
                for f in e.fields_mut() {
                    let name = bulk_text(r.next(), 7);
                    f.set_key(&name);
                    f.set_value(&bulk_text(r.next(), 15));
                    f.set_protected(r.below(2) == 0);
                }
                e.set_otp(Otp::new(bulk_text(r.next(), 16), 30, 6));
                let name = e.fields().next().map(|f| f.key().to_string());
                if let Some(name) = name {
                    e.remove_field(&name);
                }
            }
        }
        6 => {
            let d = k.database_mut();
            d.set_description(bulk_text(r.next(), 33));
            d.root_mut().set_name(bulk_text(r.next(), 21));
            let mut g = Group::new(bulk_text(r.next(), 11));
            g.set_uuid(uuid::Uuid::from_u128(r.next() as u128));
            let id = g.uuid();
            d.root_mut().add_group(g);
            d.root_mut().remove_group(id);
        }
        7 => {
            let name = bulk_text(r.next(), 6);
            let d = k.database_mut();
            let _ = d.find_entry(|e| e.title() == Some(name.as_str()));
            let _ = d.find_group(|g| g.name() == name);
            if let Some(e) = d.find_entry_mut(|_| true) {
                let h = e.history_mut();
                if let Some(old) = h.get_mut(0) {
                    old.set_title(bulk_text(r.next(), 10));
                }
                if h.len() > 3 {
                    h.remove(0);
                }
            }
        }
        0 => k.database_mut().set_name(bulk_text(r.next(), 12)),
        1 => {
            let e = k.database_mut().root_mut().recursive_entries_mut().next();
            if let Some(e) = e {
                e.new_version();
                e.set_username(bulk_text(r.next(), 30));
            }
        }
        2 => {
            let id = k.database().root().entries().next().map(|e| e.uuid());
            if let Some(id) = id {
                k.database_mut().root_mut().remove_entry(id);
            }
        }
        3 => {
            let mut e = Entry::default();
            e.set_url(bulk_text(r.next(), 40));
            k.database_mut().root_mut().add_entry(e);
        }
        _ => {
            let db = k.database().clone();
            *k.database_mut() = db;
        }
    }
}

fn key(pw: &str) -> CompositeKey {
    CompositeKey::from_password(pw)
}

/// Try wrong passwords, then the right one.
#[allow(clippy::result_large_err)]
fn enter(mut l: Kdbx<Locked>, r: &mut Prng, wrong: u64, right: &CompositeKey) -> Result<Kdbx<Unlocked>, FailedUnlock> {
    for _ in 0..wrong {
        match l.unlock(&key(&bulk_text(r.next(), 9))) {
            Ok(k) => return Ok(k),
            Err(f) => l = f.0,
        }
    }
    l.unlock(right)
}

/// One session, entirely in library code: everything it takes it gives back.
fn session(p: &Plan, seed: u64, path: &str, stored: &[u8], stored_key: &CompositeKey) -> u64 {
    let mut r = Prng::new(seed);
    let pw = bulk_text(r.next(), 10);
    let mut done = 0;
    let mut bytes = Vec::new();
    let mut right = None;
    let mut k;
    if p.origin == 0 {
        let mut db = Database::default();
        edit(&mut r, p, &mut db);
        k = Kdbx::from_database(db);
        apply(&mut k, &p.settings);
        if k.set_key(key(&pw)).is_err() || p.ends == 0 {
            return done;
        }
        right = Some(key(&pw));
    } else {
        let mut data = stored.to_vec();
        if p.damage {
            let n = data.len() as u64;
            data[(n - 1 - r.below(n / 2)) as usize] ^= 1 << r.below(8);
        }
        let l = if p.origin == 2 {
            kdbx_rs::open(path)
        } else {
            let fails = p.open_fails.is_some();
            let upto = if fails { r.below(data.len() as u64) as usize } else { data.len() };
            kdbx_rs::from_reader(In {
                data: &data[..upto],
                piece: p.piece,
                fails: fails && p.open_fails == Some(0),
            })
        };
        done += 1;
        let Ok(l) = l else { return done };
        if p.ends == 0 {
            return done;
        }
        match enter(l, &mut r, p.wrong, stored_key) {
            Ok(x) => k = x,
            Err(_) => return done,
        }
    }
    done += 1;
    if p.ends == 1 {
        return done;
    }
    for i in 0..p.saves {
        for _ in 0..p.edits {
            change(&mut r, &mut k);
        }
        if p.export {
            let mut cipher = kdbx_rs::binary::InnerStreamCipherAlgorithm::ChaCha20.stream_cipher(&[7; 64]);
            let mut xml = Vec::new();
            if let Ok(c) = cipher.as_mut() {
                if kdbx_rs::xml::write_xml(&mut xml, k.database(), c.as_mut()).is_ok() {
                    done += 1;
                }
            }
        }
        bytes.clear();
        let room = if p.save_fails && i % 2 == 0 { r.below(3000) as usize } else { usize::MAX };
        if k.write(Out { to: &mut bytes, room }).is_ok() {
            done += 1;
        }
    }
    if let (Some(right), false) = (right, bytes.is_empty()) {
        if let Ok(l) = kdbx_rs::from_reader(&bytes[..]) {
            if enter(l, &mut r, p.wrong, &right).is_ok() {
                done += 1;
            }
        }
    }
    done
}

/// A session with an archive that stays open: what is changed is as large as before.
fn stay(p: &Plan, seed: u64, k: &mut Kdbx<Unlocked>) -> u64 {
    let mut r = Prng::new(seed);
    let mut done = 0;
    k.database_mut().set_name(bulk_text(r.next(), 12));
    for _ in 0..p.edits {
        let mut e = Entry::default();
        e.set_password(bulk_text(r.next(), 1 + p.text));
        let id = e.uuid();
        k.database_mut().root_mut().add_entry(e);
        k.database_mut().root_mut().remove_entry(id);
    }
    if p.wrong > 0 && k.set_key(key(&bulk_text(r.next(), 10))).is_ok() {
        done += 1;
    }
    let mut bytes = Vec::new();
    for i in 0..p.saves {
        bytes.clear();
        let room = if p.save_fails && i % 2 == 0 { r.below(3000) as usize } else { usize::MAX };
        if k.write(Out { to: &mut bytes, room }).is_ok() {
            done += 1;
        }
    }
    done
}

/// A session with an archive that stays locked.
fn stay_locked(p: &Plan, seed: u64, mut l: Kdbx<Locked>) -> (Option<Kdbx<Locked>>, u64) {
    let mut r = Prng::new(seed);
    let mut bytes = Vec::new();
    let mut done = 0;
    for _ in 0..p.saves {
        let room = if p.save_fails { r.below(3000) as usize } else { usize::MAX };
        if l.write(Out { to: &mut bytes, room }).is_ok() {
            done += 1;
        }
    }
    for _ in 0..p.wrong.max(1) {
        match l.unlock(&key(&bulk_text(r.next(), 9))) {
            Ok(_) => return (None, done),
            Err(f) => l = f.0,
        }
        done += 1;
    }
    (Some(l), done)
}

fn run(cx: &Cx) -> R {
    let mut archives = Vec::new();
    for _ in 0..cx.range(1, 3) {
        let creds = rc::Creds {
            pw: Some(bulk_text(cx.seed(), 8)),
            keyfile: None,
        };
        let db = gen_db(cx, PLAIN);
        if !representable(&db) {
            continue;
        }
        let major = cx.pick(&[3u16, 4]);
        let a = gen_archive(cx, major, 2000);
        let mut l = crate::refxml::Layout::plain();
        archives.push((foreign(cx, &a, &db, &mut l, &creds).0, creds));
    }
    if archives.is_empty() {
        return Ok(());
    }
    let plans: Vec<Plan> = (0..cx.range(1, 4)).map(|_| gen_plan(cx, archives.len())).collect();
    let sessions = cx.pick(&[200u64, 600, 1500]);
    let seed = cx.seed();
    let env = interpose::env().unwrap();
    for (i, (data, _)) in archives.iter().enumerate() {
        env.files.insert(
            format!("/sim/s{i}"),
            SimFile {
                data: data.clone(),
                open_errno: 0,
                open_eintr: 0,
                plan: Default::default(),
            },
        );
    }
    let keys: Vec<CompositeKey> = archives.iter().map(|(_, c)| ckey(c)).collect();
    let paths: Vec<String> = (0..archives.len()).map(|i| format!("/sim/s{i}")).collect();
    cx.sample(format!("{sessions} sessions of {} kinds, {} archives, first {:?}", plans.len(), archives.len(), plans[0]));
    let mut open: Vec<Option<Kdbx<Unlocked>>> = Vec::new();
    let mut locked: Vec<Option<Kdbx<Locked>>> = Vec::new();
    for p in &plans {
        let l = lib("opening", || kdbx_rs::from_reader(&archives[p.archive].0[..]))?.ok();
        if p.origin == 4 {
            locked.push(l);
            open.push(None);
        } else {
            locked.push(None);
            open.push(match l {
                Some(l) if p.origin == 3 => lib("unlocking", || l.unlock(&keys[p.archive]))?.ok(),
                _ => None,
            });
        }
    }
    let mut half = 0;
    let mut peak = 0;
    for n in 0..sessions {
        let i = n as usize % plans.len();
        let p = &plans[i];
        if p.origin == 2 {
            let f = env.files.get_mut(&paths[p.archive]).unwrap();
            f.open_errno = if p.open_fails == Some(1) && n % 2 == 0 { libc::EIO } else { 0 };
            f.plan.rest = p.piece;
            f.plan.fail_at = if p.open_fails == Some(0) { Some((n * 37 % 2000, libc::EIO)) } else { None };
        }
        let opened = env.opens;
        let done = match p.origin {
            3 => match open[i].as_mut() {
                Some(k) => lib("a session", || stay(p, seed.wrapping_add(n), k))?,
                None => 0,
            },
            4 => match locked[i].take() {
                Some(l) => {
                    let (l, done) = lib("a session", || stay_locked(p, seed.wrapping_add(n), l))?;
                    locked[i] = l;
                    done
                }
                None => 0,
            },
            _ => lib("a session", || session(p, seed.wrapping_add(n), &paths[p.archive], &archives[p.archive].0, &keys[p.archive]))?,
        };
        cx.count_n("probe.session_steps", done);
        ensure!(
            env.fds.is_empty(),
            "a file left open",
            "after session {n} of {sessions} {} of {} opened files are still open ({p:?})",
            env.fds.len(),
            env.opens - opened
        );
        let kept = ALLOC.with(|a| a.kept.get());
        if n + 1 == sessions / 2 {
            half = kept;
        }
        if n + 1 > sessions / 2 {
            peak = peak.max(kept - half);
            ensure!(
                kept - half <= ALLOWED,
                "memory not given back",
                "between sessions {} and {n} of {sessions} the memory kept after each session grew by {} bytes ({:?})",
                sessions / 2,
                kept - half,
                plans
            );
        }
    }
    cx.count_n("probe.sessions", sessions);
    cx.count_n("probe.sessions_with_faults", plans.iter().filter(|p| p.save_fails || p.open_fails.is_some() || p.damage || p.wrong > 0).count() as u64 * sessions / plans.len() as u64);
    cx.evn("kept", peak as u64, sessions);
    cx.nontrivial();
    Ok(())
}
