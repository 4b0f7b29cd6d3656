//! C29: panics of the application's own code.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, take_panic, viol};
use crate::edit;
use crate::ensure;
use crate::interpose;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use cipher::inout::InOutBuf;
use cipher::{StreamCipher, StreamCipherError};
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::database::{Entry, Group};
use kdbx_rs::Kdbx;
use std::fmt;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C29",
        run,
        quick: 16000,
        thorough: 200000,
        rule: "distinct sequences of (operation, code that panics, call at which it does in size classes, what it does when called again, outcome)",
        real: REAL,
        stub: STUB,
        assumptions: &["histories of up to 10 operations, each repeated up to 30 times, on up to two archives of up to 40 KiB"],
    }
}

/// What unwinds.
struct Ours;

/// When the code of the application panics.
#[derive(Clone)]
struct Fuse {
    /// calls until it panics
    at: u64,
    /// what it does when it is called afterwards: fail, panic, work
    after: u64,
    calls: Arc<AtomicU64>,
    fired: Arc<AtomicU64>,
}
impl Fuse {
    fn new(cx: &Cx, typical: u64) -> Fuse {
        let at = match cx.weighted(&[3, 3, 2, 1]) {
            0 => cx.below(typical + 1),
            1 => cx.below(4),
            2 => cx.magnitude(typical * 4),
            _ => u64::MAX,
        };
        let after = cx.below(3);
        cx.sig(if at == u64::MAX { 99 } else { 64 - at.leading_zeros() as u64 });
        cx.sig(after);
        Fuse {
            at,
            after,
            calls: Arc::default(),
            fired: Arc::default(),
        }
    }
    /// Err if the call shall fail
    fn call(&self) -> Result<(), ()> {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        if n == self.at || (n > self.at && self.after == 1) {
            self.fired.fetch_add(1, Ordering::SeqCst);
            resume_unwind(Box::new(Ours));
        }
        if n > self.at && self.after == 0 {
            return Err(());
        }
        Ok(())
    }
    fn fired(&self) -> bool {
        self.fired.load(Ordering::SeqCst) > 0
    }
}

fn broken() -> io::Error {
    io::Error::new(io::ErrorKind::BrokenPipe, "used after a panic")
}

struct PReader(SimReader, Fuse);
impl Read for PReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.1.call().map_err(|_| broken())?;
        self.0.read(buf)
    }
}
struct PWriter(SimSink, Fuse);
impl Write for PWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.1.call().map_err(|_| broken())?;
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.1.call().map_err(|_| broken())?;
        self.0.flush()
    }
}
struct PText(String, Fuse);
impl fmt::Display for PText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // in two parts, either of which may panic
        let mid = (0..=self.0.len() / 2).rev().find(|i| self.0.is_char_boundary(*i)).unwrap_or(0);
        let _ = self.1.call();
        f.write_str(&self.0[..mid])?;
        let _ = self.1.call();
        f.write_str(&self.0[mid..])
    }
}
struct PCipher(Box<dyn StreamCipher>, Fuse);
impl StreamCipher for PCipher {
    fn try_apply_keystream_inout(&mut self, buf: InOutBuf<'_, '_, u8>) -> Result<(), StreamCipherError> {
        let _ = self.1.call();
        self.0.try_apply_keystream_inout(buf)
    }
}

/// Run library code that may be left by a panic of ours: None if it was.
fn guarded<T>(cx: &Cx, what: &str, fuse: &Fuse, f: impl FnOnce() -> T) -> R<Option<T>> {
    let r = {
        let _l = interpose::library();
        catch_unwind(AssertUnwindSafe(f))
    };
    cx.ev(format!("{what}: {} calls, {}", fuse.calls.load(Ordering::SeqCst), if r.is_ok() { "returned" } else { "left" }));
    match r {
        Ok(v) => {
            ensure!(
                !fuse.fired(),
                format!("{what}: a panic was swallowed"),
                "{what} returned although the application's code panicked in it"
            );
            Ok(Some(v))
        }
        Err(p) if p.is::<Ours>() => {
            cx.count(&format!("fault.panic_in_{}", what.replace(' ', "_")));
            cx.sig(1);
            Ok(None)
        }
        Err(_) => {
            let (m, l) = take_panic();
            viol(
                format!("another panic in {what}"),
                format!("{what} panicked by itself ({}): {m} at {l}", if fuse.fired() { "after the application's code did" } else { "no panic of the application" }),
            )
        }
    }
}

enum Held {
    Open(Kdbx<Unlocked>),
    Closed(Kdbx<Locked>),
}
struct Arch {
    held: Option<Held>,
    /// what it holds and what it was stored as last
    now: MDb,
    stored: MDb,
    creds: rc::Creds,
    bytes: Arc<Vec<u8>>,
    major: u16,
}

fn check(class: &str, a: &Arch) -> R {
    if let Some(Held::Open(k)) = &a.held {
        expect_content(class, k, &a.now)?;
    }
    Ok(())
}

fn l_group_at<'a>(k: &'a mut Kdbx<Unlocked>, n: usize) -> &'a mut Group {
    let i = n % (1 + k.root().groups().count());
    if i == 0 {
        return k.root_mut();
    }
    k.root_mut().groups_mut().nth(i - 1).unwrap()
}
/// A text setter with a text that panics.
fn texts(cx: &Cx, k: &mut Kdbx<Unlocked>, m: &mut MDb, op: u64) -> R {
    let text = gen_text(cx, PLAIN);
    let n = cx.usize(8);
    let fuse = Fuse::new(cx, 2);
    cx.sig(100 + op);
    let t = PText(text.clone(), fuse.clone());
    let done = match op {
        0 => guarded(cx, "set_name of a database", &fuse, || k.set_name(t))?,
        1 => guarded(cx, "set_description", &fuse, || k.set_description(t))?,
        2 => guarded(cx, "set_name of a group", &fuse, || l_group_at(k, n).set_name(t))?,
        3 => guarded(cx, "Group new", &fuse, || drop(Group::new(t)))?,
        _ if l_group_at(k, n).entry_count() == 0 => return Ok(()),
        _ => guarded(cx, "setting a field", &fuse, || {
            let e = l_group_at(k, n).entries_mut().next().unwrap();
            match op {
                4 => e.set_title(t),
                5 => e.set_username(t),
                6 => e.set_password(t),
                _ => e.set_url(t),
            }
        })?,
    };
    cx.sig(done.is_some() as u64);
    if done.is_some() {
        // what setters do is the business of C17
        *m = content(k)?;
    }
    Ok(())
}

/// A search with a condition that panics.
fn searches(cx: &Cx, k: &mut Kdbx<Unlocked>, m: &MDb, op: u64) -> R {
    cx.sig(200 + op);
    let (groups, entries) = m.root.count();
    let fuse = Fuse::new(cx, (groups + entries) as u64);
    let f = fuse.clone();
    match op {
        0 => guarded(cx, "find_entry", &fuse, || {
            k.find_entry(|_| f.call().is_err()).is_some()
        })?,
        1 => guarded(cx, "find_entry_mut", &fuse, || {
            k.find_entry_mut(|_| f.call().is_err()).is_some()
        })?,
        2 => guarded(cx, "find_group", &fuse, || {
            k.find_group(|_| f.call().is_err()).is_some()
        })?,
        3 => guarded(cx, "find_group_mut", &fuse, || {
            k.find_group_mut(|_| f.call().is_err()).is_some()
        })?,
        _ => guarded(cx, "changing entries", &fuse, || {
            for _ in k.root_mut().recursive_entries_mut() {
                let _ = f.call();
            }
            false
        })?,
    };
    Ok(())
}

fn streams(cx: &Cx, a: &mut Arch, op: usize) -> R {
    cx.sig(300 + op as u64);
    let frag = Frag::choose(cx);
    match op {
        // saving or copying
        0 => {
            let fuse = Fuse::new(cx, 12);
            let (sink, st) = SimSink::new(cx, frag, OutFault::None);
            let w = PWriter(sink, fuse.clone());
            let (r, db) = match &a.held {
                Some(Held::Open(k)) => {
                    if k.major_version() < 4 {
                        return Ok(());
                    }
                    (guarded(cx, "saving", &fuse, || k.write(w))?, &a.now)
                }
                Some(Held::Closed(l)) => (guarded(cx, "copying", &fuse, || l.write(w))?, &a.stored),
                None => return Ok(()),
            };
            if let Some(r) = r {
                ensure!(r.is_ok(), "a save without a fault failed", "{r:?}");
                let b = st.lock().unwrap().accepted.clone();
                reopen_expect("saved archive", &b, &a.creds, db)?;
                if matches!(a.held, Some(Held::Open(_))) {
                    a.stored = a.now.clone();
                    a.bytes = Arc::new(b);
                }
            }
        }
        // opening
        1 => {
            let fuse = Fuse::new(cx, 20);
            let r = PReader(SimReader::new(cx, a.bytes.clone(), frag, InFault::None), fuse.clone());
            if let Some(r) = guarded(cx, "opening", &fuse, || kdbx_rs::from_reader(r))? {
                match r {
                    Ok(l) => a.held = Some(Held::Closed(l)),
                    Err(e) => return viol("an archive without a fault was not opened", format!("{e:?}")),
                }
                a.now = a.stored.clone();
            }
        }
        // exporting and importing, where the stream or the cipher panics
        _ => {
            let Some(Held::Open(k)) = &a.held else { return Ok(()) };
            let inner = l_inner(cx.pick(&[rc::RInner::ChaCha20, rc::RInner::Salsa20]));
            let cipher = || -> R<Box<dyn StreamCipher>> {
                match lib("stream_cipher", || inner.stream_cipher(&[7; 64]))? {
                    Ok(s) => Ok(s),
                    Err(e) => viol("stream cipher refused", format!("{e:?}")),
                }
            };
            let off = Fuse {
                at: u64::MAX,
                after: 2,
                calls: Arc::default(),
                fired: Arc::default(),
            };
            let in_cipher = cx.chance(1, 2);
            let fuse = Fuse::new(cx, if in_cipher { 4 } else { 12 });
            let (fs, fc) = if in_cipher { (&off, &fuse) } else { (&fuse, &off) };
            if op == 2 {
                let (sink, _st) = SimSink::new(cx, frag, OutFault::None);
                let mut w = PWriter(sink, fs.clone());
                let mut c = PCipher(cipher()?, fc.clone());
                let db = k.database();
                if let Some(r) = guarded(cx, "exporting", &fuse, || kdbx_rs::xml::write_xml(&mut w, db, &mut c))? {
                    ensure!(r.is_ok(), "an export without a fault failed", "{r:?}");
                }
            } else {
                let (mut sink, st) = SimSink::new(cx, Frag::none(), OutFault::None);
                let mut c = cipher()?;
                let db = k.database();
                let r = lib("exporting", || kdbx_rs::xml::write_xml(&mut sink, db, &mut *c))?;
                ensure!(r.is_ok(), "an export without a fault failed", "{r:?}");
                let xml = Arc::new(st.lock().unwrap().accepted.clone());
                let mut c = PCipher(cipher()?, fc.clone());
                let r = PReader(SimReader::new(cx, xml, frag, InFault::None), fs.clone());
                if let Some(r) = guarded(cx, "importing", &fuse, || kdbx_rs::xml::parse_xml(r, &mut c))? {
                    match r {
                        Err(e) => return viol("an import without a fault failed", format!("{e:?}")),
                        Ok(d) => {
                            let got = m_db(&d);
                            if let Some(x) = diff_db(&a.now, &got) {
                                return viol(format!("imported database: {} differs", diff_kind(&x)), x);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Bring an archive back into an unlocked state.
fn reopen(cx: &Cx, a: &mut Arch) -> R {
    let l = match a.held.take() {
        Some(Held::Open(k)) => {
            a.held = Some(Held::Open(k));
            return Ok(());
        }
        Some(Held::Closed(l)) => l,
        None => match open_bytes(&a.bytes)? {
            Ok(l) => l,
            Err(e) => return viol("archive not opened", format!("{e:?}")),
        },
    };
    match unlock(l, &a.creds)? {
        Ok(k) => {
            a.held = Some(Held::Open(k));
            a.now = a.stored.clone();
            cx.ev("unlocked");
            check("unlocked archive", a)
        }
        Err((_, e)) => viol("archive not unlocked", format!("{e:?}")),
    }
}

/// Mostly one, so that what adds up over panics shows as well as what one does.
fn times(cx: &Cx, most: u64) -> u64 {
    if cx.chance(1, 8) {
        cx.range(2, most)
    } else {
        1
    }
}

fn run(cx: &Cx) -> R {
    let mut all = Vec::new();
    for _ in 0..cx.range(1, 3) {
        let mut db = gen_db(cx, PLAIN);
        if !representable(&db) {
            return Ok(());
        }
        if cx.chance(1, 4) {
            let n = cx.range(500, 30_000) as usize;
            add_bulk(cx, &mut db, n);
        }
        let creds = gen_creds(cx);
        let major = cx.pick(&[4u16, 4, 4, 3]);
        let a = if cx.chance(1, 2) {
            let s = gen_settings(cx);
            let k = make(&db, &s, &creds)?;
            let bytes = save_ok(cx, &k)?;
            Arch {
                held: Some(Held::Open(k)),
                now: db.clone(),
                stored: db,
                creds,
                bytes: Arc::new(bytes),
                major: 4,
            }
        } else {
            let f = gen_archive(cx, major, 3000);
            let (bytes, _) = foreign(cx, &f, &db, &mut Layout::plain(), &creds);
            Arch {
                held: None,
                now: db.clone(),
                stored: db,
                creds,
                bytes: Arc::new(bytes),
                major,
            }
        };
        all.push(a);
    }
    cx.sample(format!("{} archives, {}", all.len(), all[0].now.summary()));
    for _ in 0..cx.range(1, 11) {
        let i = cx.usize(all.len());
        let a = &mut all[i];
        let op = cx.weighted(&[5, 3, 3, 2, 2]);
        cx.sig(i as u64);
        match (op, &mut a.held) {
            (0, _) => {
                let op = cx.weighted(&[3, 3, 1, 1]);
                for _ in 0..times(cx, 8) {
                    streams(cx, a, op)?;
                }
            }
            (1, Some(Held::Open(k))) => {
                let op = cx.below(8);
                for _ in 0..times(cx, 30) {
                    texts(cx, k, &mut a.now, op)?;
                }
            }
            (2, Some(Held::Open(k))) => {
                let op = cx.below(5);
                for _ in 0..times(cx, 30) {
                    searches(cx, k, &a.now, op)?;
                }
            }
            (3, Some(Held::Open(k))) => edit::random_edit(cx, k, &mut a.now, PLAIN)?,
            _ => reopen(cx, a)?,
        }
        cx.sig(op as u64);
        for a in &all {
            check("archive in memory after a panic", a)?;
        }
    }
    // and everything still works
    for a in &mut all {
        reopen(cx, a)?;
        if let Some(Held::Open(k)) = &mut a.held {
            if let Some(u) = a.now.root.groups.first().map(|g| g.uuid) {
                let (x, y) = lib("find_group", || {
                    let is = |g: &kdbx_rs::database::Group| *g.uuid().as_bytes() == u;
                    (k.find_group(is).is_some(), k.find_group_mut(is).is_some())
                })?;
                ensure!(x && y, "search afterwards", "a group of the root group is not found");
            }
            if let Some(u) = a.now.root.entries.first().map(|e| e.uuid) {
                let (x, y) = lib("find_entry", || {
                    let is = |e: &kdbx_rs::database::Entry| *e.uuid().as_bytes() == u;
                    (k.find_entry(is).is_some(), k.find_entry_mut(is).is_some())
                })?;
                ensure!(x && y, "search afterwards", "an entry of the root group is not found");
            }
        }
        let Some(Held::Open(k)) = &a.held else { unreachable!() };
        if a.major >= 4 && representable(&a.now) {
            let b = save_ok(cx, k)?;
            reopen_expect("save afterwards", &b, &a.creds, &a.now)?;
        }
        cx.count("probe.archives_used_afterwards");
    }
    cx.nontrivial();
    Ok(())
}
