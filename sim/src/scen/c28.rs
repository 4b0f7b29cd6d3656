//! C28: work grows in proportion to the data.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::ensure;
use crate::interpose::ALLOC;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, Layout};
use crate::simio::*;
use cipher::StreamCipher;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C28",
        run,
        quick: 340,
        thorough: 3000,
        rule: "distinct (what grows, amount, archive settings, pieces of the streams) signatures of runs that compared the work for an amount of data with that for sixteen times as much",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "work is counted as branches taken in the library's own code, bytes copied, requests and bytes of memory, and calls on the streams; branches inside dependencies are not counted",
            "sixteen times the data may take up to thirty times the work and a constant amount per byte",
        ],
    }
}

const FACTOR: usize = 16;
const WHAT: [&str; 13] = [
    "entries", "groups", "fields", "versions", "text", "protected text", "custom data", "binaries", "header fields", "blocks", "entries in groups", "pieces of text", "pieces of protected text",
];

fn field(key: &str, value: String, protected: bool) -> MField {
    MField {
        key: key.into(),
        value,
        protected,
    }
}

fn entry(r: &mut Prng) -> MEntry {
    let mut uuid = [0; 16];
    r.fill(&mut uuid);
    MEntry {
        uuid,
        fields: vec![
            field("Title", bulk_text(r.next(), 8), false),
            field("Password", bulk_text(r.next(), 10), true),
        ],
        history: Vec::new(),
        times: MTimes {
            t: [63_700_000_000; 5],
            expires: false,
            usage: 0,
        },
    }
}

/// `n` units of what grows, in an otherwise equal database.
fn grow(what: usize, n: usize, base: &MDb, seed: u64) -> MDb {
    let mut db = base.clone();
    let mut r = Prng::new(seed);
    match what {
        0 => db.root.entries.extend((0..n).map(|_| entry(&mut r))),
        1 | 10 => {
            for _ in 0..n {
                let mut uuid = [0; 16];
                r.fill(&mut uuid);
                let entries = if what == 1 { 0 } else { 3 };
                db.root.groups.push(MGroup {
                    uuid,
                    name: bulk_text(r.next(), 6),
                    entries: (0..entries).map(|_| entry(&mut r)).collect(),
                    groups: Vec::new(),
                    times: base.root.times.clone(),
                });
            }
        }
        2 => {
            let mut e = entry(&mut r);
            for i in 0..n {
                e.fields.push(field(&format!("key {i}"), bulk_text(r.next(), 6), i % 3 == 0));
            }
            db.root.entries.push(e);
        }
        3 => {
            let mut e = entry(&mut r);
            e.history = (0..n).map(|_| entry(&mut r)).collect();
            db.root.entries.push(e);
        }
        4 | 5 => {
            let mut e = entry(&mut r);
            e.fields.push(field("Notes", bulk_text(r.next(), n * 100), what == 5));
            db.root.entries.push(e);
        }
        6 => {
            for i in 0..n {
                db.custom.push(field(&format!("item {i}"), bulk_text(r.next(), 6), false));
            }
        }
        _ => {}
    }
    db
}

/// Put something that is no text into the longest text, at intervals of `every` bytes.
fn split_text(xml: &[u8], every: usize) -> Vec<u8> {
    let mut best = (0, 0);
    let mut from = 0;
    for (i, b) in xml.iter().enumerate() {
        match b {
            b'>' => from = i + 1,
            b'<' if i > from && i - from > best.1 - best.0 => best = (from, i),
            _ => {}
        }
    }
    let mut out = xml[..best.0].to_vec();
    let (mut since, mut entity) = (0, false);
    for (i, b) in xml[best.0..best.1].iter().enumerate() {
        match b {
            b'&' => entity = true,
            b';' => entity = false,
            _ => {}
        }
        if since >= every && !entity && *b < 0x80 && *b != b';' && *b != b'&' {
            let piece: &[u8] = match i % 3 {
                0 => b"<!--x-->",
                1 => b"<?x y?>",
                _ => b"<![CDATA[]]>",
            };
            out.extend_from_slice(piece);
            since = 0;
        }
        since += 1;
        out.push(*b);
    }
    out.extend_from_slice(&xml[best.1..]);
    out
}

#[derive(Clone, Copy, Debug, Default)]
struct Work {
    branches: u64,
    copied: u64,
    requests: u64,
    memory: u64,
    calls: u64,
}
impl Work {
    fn now() -> Work {
        ALLOC.with(|a| Work {
            branches: edge::BRANCHES.with(|b| b.get()),
            copied: edge::COPIED.with(|b| b.get()),
            requests: a.count.get(),
            memory: a.bytes.get(),
            calls: 0,
        })
    }
    fn since(self) -> Work {
        let n = Work::now();
        Work {
            branches: n.branches - self.branches,
            copied: n.copied - self.copied,
            requests: n.requests - self.requests,
            memory: n.memory - self.memory,
            calls: 0,
        }
    }
    fn parts(&self) -> [(&'static str, u64, u64); 5] {
        [
            // and the constant amount per four bytes
            ("branches", self.branches, 4),
            ("bytes copied", self.copied, 32),
            ("requests for memory", self.requests, 1),
            ("bytes of memory", self.memory, 64),
            ("calls on streams", self.calls, 8),
        ]
    }
}

struct Case<'a> {
    what: usize,
    base: &'a MDb,
    arch: &'a rc::Archive,
    settings: &'a Settings,
    creds: &'a rc::Creds,
    seed: u64,
    style: u64,
    eintr: bool,
    block: usize,
}

fn measured<T>(cx: &Cx, out: &mut Vec<(&'static str, Work)>, name: &'static str, f: impl FnOnce() -> T) -> R<T> {
    let w = Work::now();
    let r = lib(name, f)?;
    out.push((name, w.since()));
    cx.count("probe.operations_measured");
    Ok(r)
}

/// All operations on `n` units; their work and the size of the document.
fn measure(cx: &Cx, c: &Case, n: usize) -> R<(Vec<(&'static str, Work)>, usize)> {
    let mut out = Vec::new();
    let db = grow(c.what, n, c.base, c.seed);
    let frag = || Frag::styled(cx, c.style, c.eintr);
    let d = measured(cx, &mut out, "editing", || l_db(&db))?;
    let copy = measured(cx, &mut out, "comparing and searching", || {
        let copy = d.clone();
        let same = copy == d;
        let n = d.root().recursive_entries().count() + d.root().recursive_groups().count();
        let found = d.find_entry(|_| false).is_some();
        (same && !found, n)
    })?;
    ensure!(copy.0, "a copy differs", "a copy of a database is not equal to it");
    // another client's archive with the same content
    let mut a = c.arch.clone();
    match c.what {
        7 => a.inner_extra.extend((0..n).map(|i| (3u8, vec![i as u8; 20]))),
        8 => a.outer_extra.extend((0..n).map(|i| (200u8, vec![i as u8; 20]))),
        _ => {}
    }
    let mut l = Layout::plain();
    if a.major < 4 {
        l.header_hash = Some(b64(&rc::sha256(&[&a.header()])));
    }
    let db2 = match c.what {
        9 | 11 => grow(4, n, c.base, c.seed),
        12 => grow(5, n, c.base, c.seed),
        _ => db.clone(),
    };
    let mut ks = a.keystream();
    let mut xml = refxml::write_db(&db2, &l, Some(&mut ks));
    if c.what > 10 {
        xml = split_text(&xml, c.block / 2);
    }
    if c.what == 9 {
        a.block_lens = vec![c.block; xml.len() / c.block + 2];
    }
    let bytes = Arc::new(a.encode(c.creds, &xml));
    let size = bytes.len().max(xml.len());
    let reader = SimReader::new(cx, bytes, frag(), InFault::None);
    let stats = reader.stats.clone();
    let locked = measured(cx, &mut out, "opening", || kdbx_rs::from_reader(reader))?;
    out.last_mut().unwrap().1.calls = stats.lock().unwrap().reads;
    let locked = match locked {
        Ok(l) => l,
        Err(e) => return viol("archive cannot be opened", format!("{e:?}")),
    };
    let (sink, st) = SimSink::new(cx, frag(), OutFault::None);
    let r = measured(cx, &mut out, "copying", || locked.write(sink))?;
    ensure!(r.is_ok(), "copy failed", "{r:?}");
    out.last_mut().unwrap().1.calls = st.lock().unwrap().writes;
    let key = ckey(c.creds);
    let k = match measured(cx, &mut out, "unlocking", || locked.unlock(&key))? {
        Ok(k) => k,
        Err(f) => return viol("archive cannot be unlocked", format!("{:?}", f.1)),
    };
    if a.major >= 4 {
        let (sink, st) = SimSink::new(cx, frag(), OutFault::None);
        let r = measured(cx, &mut out, "saving an opened archive", || k.write(sink))?;
        ensure!(r.is_ok(), "save failed", "{r:?}");
        out.last_mut().unwrap().1.calls = st.lock().unwrap().writes;
    }
    drop(k);
    let k = make(&db, c.settings, c.creds)?;
    let (sink, st) = SimSink::new(cx, frag(), OutFault::None);
    let r = measured(cx, &mut out, "saving", || k.write(sink))?;
    ensure!(r.is_ok(), "save failed", "{r:?}");
    out.last_mut().unwrap().1.calls = st.lock().unwrap().writes;
    // export and import
    let cipher = || -> R<Box<dyn StreamCipher>> {
        match lib("stream_cipher", || l_inner(c.settings.inner).stream_cipher(&[5; 64]))? {
            Ok(s) => Ok(s),
            Err(e) => viol("stream cipher refused", format!("{e:?}")),
        }
    };
    let mut s = cipher()?;
    let (mut sink, st) = SimSink::new(cx, frag(), OutFault::None);
    let r = measured(cx, &mut out, "exporting", || kdbx_rs::xml::write_xml(&mut sink, &d, s.as_mut()))?;
    ensure!(r.is_ok(), "export failed", "{r:?}");
    out.last_mut().unwrap().1.calls = st.lock().unwrap().writes;
    let xml = Arc::new(st.lock().unwrap().accepted.clone());
    let mut s = cipher()?;
    let mut reader = SimReader::new(cx, xml, frag(), InFault::None);
    let stats = reader.stats.clone();
    let r = measured(cx, &mut out, "importing", || kdbx_rs::xml::parse_xml(&mut reader, s.as_mut()))?;
    ensure!(r.is_ok(), "import failed", "{:?}", r.err());
    out.last_mut().unwrap().1.calls = stats.lock().unwrap().reads;
    Ok((out, size))
}

fn run(cx: &Cx) -> R {
    let what = cx.usize(WHAT.len());
    let n = match what {
        7 | 8 => cx.range(100, 300),
        3 | 10 => cx.range(30, 100),
        6 => cx.range(100, 400),
        _ => cx.range(60, 250),
    } as usize;
    let base = gen_db(cx, PLAIN);
    if !representable(&base) {
        return Ok(());
    }
    let creds = gen_creds(cx);
    let settings = gen_settings(cx);
    let major = if matches!(what, 7) { 4 } else { cx.pick(&[3u16, 4, 4]) };
    let mut arch = gen_archive(cx, major, 30_000);
    if arch.block_lens.iter().any(|b| *b < 64) {
        arch.block_lens.clear();
    }
    arch.gzip_lens.clear();
    let block = cx.pick(&[64usize, 100, 256, 1000]);
    let seed = cx.seed();
    let style = cx.weighted(&[3, 1, 1, 2, 2]) as u64;
    let eintr = cx.chance(1, 4);
    cx.sig(what as u64 * 10 + style);
    cx.sig(n as u64 / 20);
    cx.sample(format!("{n} {} and {} in KDBX {major}, pieces of style {style}, {}", WHAT[what], n * FACTOR, base.summary()));
    let c = Case {
        what,
        base: &base,
        arch: &arch,
        settings: &settings,
        creds: &creds,
        seed,
        style,
        eintr,
        block,
    };
    let (small, _) = measure(cx, &c, n)?;
    let (large, size) = measure(cx, &c, n * FACTOR)?;
    for ((name, s), (_, l)) in small.iter().zip(&large) {
        for ((part, s, share), (_, l, _)) in s.parts().iter().zip(l.parts()) {
            cx.ev(format!("work {} / {name} / {part}: {s} and {l}, {size} bytes", WHAT[what]));
            let bound = 30 * s + share * size as u64 / 4;
            ensure!(
                l <= bound,
                format!("{name}: {part} out of proportion"),
                "{name} with {n} {} took {s} {part}, with {} it took {l} ({size} stored bytes, bound {bound})",
                WHAT[what],
                n * FACTOR
            );
        }
    }
    cx.count_n("probe.bytes_handled", size as u64);
    cx.nontrivial();
    Ok(())
}
