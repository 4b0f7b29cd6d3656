//! C07: reading does not depend on how bytes arrive.
use super::damage;
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::lib;
use crate::ensure;
use crate::interpose::{self, FdPlan, SimFile};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::{KdbxHeader, Locked, Unlocked};
use kdbx_rs::Kdbx;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C07",
        run,
        quick: 5000,
        thorough: 60000,
        rule: "distinct (archive kind, damage kind, way of delivery, outcome) signatures of compared deliveries",
        real: REAL,
        stub: STUB,
        assumptions: &["interruptions are finite", "the comparison of failures is by error variant and I/O error kind, not by message"],
    }
}

/// What an observer sees of one attempt.
#[derive(Default)]
struct Seen {
    outcome: String,
    header: Option<KdbxHeader>,
    inner: Option<Kdbx<Unlocked>>,
    db: Option<MDb>,
}

fn observe(r: Result<Kdbx<Locked>, OpenErr>, creds: &rc::Creds) -> R<Seen> {
    let mut seen = Seen::default();
    match r {
        Err(e) => seen.outcome = format!("open: {}", kind_of(&format!("{e:?}"))),
        Ok(k) => {
            seen.header = Some(k.header().clone());
            let version = format!("{}.{}", k.major_version(), k.minor_version());
            match unlock(k, creds)? {
                Err((_, e)) => seen.outcome = format!("{version} unlock: {}", kind_of(&format!("{e:?}"))),
                Ok(u) => {
                    let x = crate::ctx::hash_bytes(1, u.raw_xml().unwrap_or(&[]));
                    seen.outcome = format!("{version} unlocked, xml {x:x}");
                    seen.db = Some(content(&u)?);
                    seen.inner = Some(u);
                }
            }
        }
    }
    Ok(seen)
}

pub fn gen_plan(cx: &Cx, len: usize) -> FdPlan {
    let mut sizes = Vec::new();
    let rest;
    match cx.weighted(&[1, 2, 2, 2]) {
        0 => rest = 0,
        1 => rest = cx.pick(&[1usize, 2, 7, 16, 33, 512]),
        2 => {
            rest = 0;
            for _ in 0..cx.range(1, 12) {
                sizes.push(1 + cx.magnitude(len.max(1) as u64) as usize);
            }
        }
        _ => {
            let n = cx.range(10, 200);
            let seed = cx.seed();
            let mut p = Prng::new(seed);
            rest = 1 + p.below(400) as usize;
            for _ in 0..n {
                sizes.push(1 + p.below(100) as usize);
            }
        }
    }
    let mut eintr = Vec::new();
    if cx.chance(1, 2) {
        for _ in 0..cx.range(1, 4) {
            eintr.push((cx.below(12), cx.range(1, 3) as u32));
        }
    }
    FdPlan {
        sizes,
        rest,
        eintr,
        fail_at: None,
    }
}

/// A stored archive of any origin, with its key and content.
pub fn any_archive(cx: &Cx) -> R<Option<(Vec<u8>, rc::Creds, MDb)>> {
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(None);
    }
    let bulk = match cx.weighted(&[30, 8, 1]) {
        0 => 0,
        1 => cx.range(500, 20_000) as usize,
        _ => cx.range(300_000, 1_200_000) as usize,
    };
    let origin = cx.weighted(&[2, 3, 3]);
    cx.sig(origin as u64);
    let bytes = if origin == 0 {
        let mut s = gen_settings(cx);
        if bulk > 0 {
            add_bulk(cx, &mut db, bulk);
            if bulk > 100_000 {
                s.cipher = rc::RCipher::ChaCha20;
            }
        }
        let k = make(&db, &s, &creds)?;
        save_ok(cx, &k)?
    } else {
        let major = if origin == 1 { 4 } else { 3 };
        let mut a = gen_archive(cx, major, 4000 + bulk);
        if bulk > 0 {
            add_bulk(cx, &mut db, bulk);
            if bulk > 100_000 && a.cipher == rc::RCipher::TwoFish {
                a.cipher = rc::RCipher::Aes256;
                a.iv.resize(16, 3);
            }
        }
        let mut l = if cx.chance(1, 2) { Layout::choose(cx, major == 3) } else { Layout::plain() };
        l.iso_dates = major == 3;
        foreign(cx, &a, &db, &mut l, &creds).0
    };
    Ok(Some((bytes, creds, db)))
}

fn run(cx: &Cx) -> R {
    let Some((mut bytes, creds, _)) = any_archive(cx)? else { return Ok(()) };
    if cx.chance(2, 5) {
        let hl = rc::parse_header(&bytes).map_or(0, |h| h.3);
        let (d, kind) = damage::storage(cx, &bytes, &[(0, hl), (hl, (hl + 150).min(bytes.len()))]);
        // bounded key derivation
        if let Ok((m, _, f, _)) = rc::parse_header(&d) {
            if m == 3
                && f.iter().any(|x| x.0 == 6 && x.1.len() >= 8 && u64::from_le_bytes(x.1[..8].try_into().unwrap()) > 20_000)
            {
                return Ok(());
            }
        }
        if bytes.len() > 11 && d.len() > 11 && d[8..12] != bytes[8..12] {
            return Ok(());
        }
        cx.sig_str(kind);
        bytes = d;
    }
    let data = Arc::new(bytes);
    let base = observe(lib("opening", || kdbx_rs::from_reader(&data[..]))?, &creds)?;
    cx.sample(format!("{} bytes, whole: {}", data.len(), base.outcome));
    let mut compare = |way: &str, got: Seen| -> R {
        ensure!(
            got.outcome == base.outcome,
            format!("result depends on {way}"),
            "whole input: {} / {way}: {}",
            base.outcome,
            got.outcome
        );
        ensure!(
            got.header == base.header && got.inner.as_ref().map(|u| u.inner_header()) == base.inner.as_ref().map(|u| u.inner_header()),
            format!("settings depend on {way}"),
            "whole input: {:?} / {way}: {:?}",
            base.header,
            got.header
        );
        if let (Some(a), Some(b)) = (&base.db, &got.db) {
            if let Some(d) = diff_db(a, b) {
                return crate::ctx::viol(format!("content depends on {way}"), format!("whole vs {way}: {d}"));
            }
        }
        cx.sig_str(way);
        Ok(())
    };
    for _ in 0..cx.range(1, 3) {
        if cx.chance(2, 3) {
            let style = cx.weighted(&[1, 2, 3, 3, 2]) as u64;
            let style = if data.len() > 100_000 && style == 1 { 3 } else { style };
            let frag = Frag::styled(cx, style, cx.chance(1, 2));
            let r = SimReader::new(cx, data.clone(), frag, InFault::None);
            let st = r.stats.clone();
            let got = observe(lib("opening from a slow input", || kdbx_rs::from_reader(r))?, &creds)?;
            let s = st.lock().unwrap().clone();
            ensure!(
                s.reads <= data.len() as u64 + s.eintr + 64,
                "too many reads",
                "{} reads for {} bytes and {} interruptions",
                s.reads,
                data.len(),
                s.eintr
            );
            compare("split reads", got)?;
        } else {
            let env = interpose::env().unwrap();
            let plan = gen_plan(cx, data.len());
            let path = format!("/sim/f{}", env.files.len());
            env.files.insert(
                path.clone(),
                SimFile {
                    data: data.to_vec(),
                    open_errno: 0,
                    open_eintr: cx.below(3) as u32,
                    plan,
                },
            );
            let reads0 = env.fd_reads;
            let r = lib("opening a file", || kdbx_rs::open(&path))?;
            let env = interpose::env().unwrap();
            let faults: u64 = env.fd_faults.values().sum();
            let reads = env.fd_reads - reads0;
            for (k, v) in &env.fd_faults {
                cx.count_n(&format!("fault.file_{k}"), *v);
            }
            env.fd_faults.clear();
            ensure!(
                reads <= data.len() as u64 + faults + 64,
                "too many reads",
                "{reads} reads for {} bytes",
                data.len()
            );
            compare("reading a file", observe(r, &creds)?)?;
        }
        cx.nontrivial();
    }
    Ok(())
}
