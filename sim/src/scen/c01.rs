//! C01: a successful save reopens to the same database.
use super::*;
use crate::arch::*;
use crate::edit;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C01",
        run,
        quick: 6000,
        thorough: 60000,
        rule: "distinct (settings, content shape, size class, history of saves and edits) signatures of runs that completed at least one save and reopen",
        real: REAL,
        stub: STUB,
        assumptions: &["sizes up to 21 MiB", "up to 128 nested groups and up to 128 nested versions", "up to 65540 items in one place", "dates of the years -1267 to 34842"],
    }
}

/// Database for the round trip scenarios; sometimes with text XML cannot represent.
pub fn gen(cx: &Cx) -> MDb {
    let o = TextOpts {
        illegal: cx.chance(1, 6),
        ..PLAIN
    };
    let mut db = gen_db(cx, o);
    if cx.chance(1, 12) {
        // deep nesting
        let n = if cx.chance(1, 4) { cx.range(60, 126) } else { cx.range(4, 60) };
        let mut g = gen_group(cx, o, 0);
        for i in 0..n {
            let mut outer = MGroup {
                uuid: [i as u8; 16],
                name: format!("g{i}"),
                entries: Vec::new(),
                groups: vec![g],
                times: gen_times(cx),
            };
            if i % 7 == 3 {
                outer.entries.push(gen_entry(cx, o, 1));
            }
            g = outer;
        }
        db.root.groups.push(g);
    }
    if cx.chance(1, 15) {
        // many small items
        let n = cx.range(10, 120);
        for _ in 0..n {
            let e = gen_entry(cx, o, 1);
            db.root.entries.push(e);
        }
    }
    if cx.chance(1, 60) {
        // far more than fit a count of 8 bits, rarely of 16
        let n = match cx.weighted(&[6, 2, 1]) {
            0 => cx.range(300, 2000),
            1 => cx.pick(&[1023u64, 1024, 4095, 4096, 4097]),
            _ => cx.pick(&[16_384u64, 32_768, 65_535, 65_536, 65_540]),
        };
        crowd(cx, &mut db, n);
    }
    if cx.chance(1, 12) {
        // dates other clients do not know, but the format can hold
        db.root.times.t[cx.usize(5)] = gen_far(cx);
        if let Some(e) = db.root.entries.first_mut() {
            e.times.t[cx.usize(5)] = gen_far(cx);
        }
    }
    db
}

/// Bulk sizes; 0 for none.
pub fn gen_bulk(cx: &Cx) -> usize {
    match cx.weighted(&[50, 8, 2, 1]) {
        0 => 0,
        1 => cx.range(1000, 40_000) as usize,
        2 => (1 << 20) - 3000 + cx.below(6000) as usize,
        _ if cx.chance(1, 12) => match cx.below(2) {
            0 => (1 << 24) - 3000 + cx.below(6000) as usize,
            _ => cx.range(3 << 20, 20 << 20) as usize,
        },
        _ => cx.range(1 << 20, 3 << 20) as usize,
    }
}

/// Pad the database so that the encrypted stream of an uncompressed save ends `delta` bytes from a block boundary.
pub fn align(cx: &Cx, db: &mut MDb, s: &Settings, creds: &rc::Creds) -> R {
    let k = make(db, s, creds)?;
    let Ok(bytes) = save(cx, &k)? else { return Ok(()) };
    let Ok(o) = rc::open4(&bytes, creds) else { return Ok(()) };
    let total = o.xml.len() + rc::inner_header_bytes(&o.inner_fields).len() + 5;
    let target = (total / (1 << 20) + 1) * (1 << 20) - 32 + cx.below(64) as usize;
    let need = target - total;
    db.desc.push_str(&bulk_text(cx.seed(), need));
    cx.count("probe.block_boundary_alignment");
    Ok(())
}

pub fn run(cx: &Cx) -> R {
    let mut s = gen_settings(cx);
    let creds = gen_creds(cx);
    let mut db = gen(cx);
    let crowded = crowded(&db);
    if crowded && s.cipher == rc::RCipher::TwoFish {
        s.cipher = rc::RCipher::ChaCha20;
    }
    let bulk = if crowded { 0 } else { gen_bulk(cx) };
    if bulk > 0 {
        if bulk > 900_000 && s.cipher == rc::RCipher::TwoFish && (bulk > 3 << 20 || cx.chance(5, 6)) {
            // the Twofish implementation handles about 2 MB per second
            s.cipher = rc::RCipher::Aes256;
        }
        add_bulk(cx, &mut db, bulk);
        cx.count("probe.bulk");
        cx.sig(bulk as u64 >> 16);
        if bulk > 900_000 && !s.gzip && representable(&db) {
            align(cx, &mut db, &s, &creds)?;
        }
    }
    cx.sample(format!("settings {:?}, {}", s, db.summary()));
    let mut k = make(&db, &s, &creds)?;
    let gens = if bulk > 900_000 || crowded { cx.weighted(&[2, 1]) + 1 } else { cx.weighted(&[3, 3, 2, 1]) + 1 };
    for g in 0..gens {
        let rep = representable(&db);
        let before = content(&k)?;
        if let Some(d) = diff_db(&db, &before) {
            return crate::ctx::viol("in-memory content", format!("in memory: {d}"));
        }
        match save(cx, &k)? {
            Err(e) => {
                cx.ev(format!("save refused: {e}"));
                cx.count("probe.refused_unrepresentable");
                ensure!(
                    !rep,
                    "representable content not saved",
                    "saving representable content failed: {e:?}"
                );
                return Ok(());
            }
            Ok(bytes) => {
                cx.ev_data("saved", &bytes);
                k = reopen_expect("reopened save", &bytes, &creds, &db)?;
                cx.nontrivial();
                cx.count("probe.save_reopen");
            }
        }
        cx.sig(g as u64);
        if g + 1 < gens {
            let n = cx.below(5);
            for _ in 0..n {
                let o = TextOpts {
                    illegal: cx.chance(1, 20),
                    ..PLAIN
                };
                edit::random_edit(cx, &mut k, &mut db, o)?;
            }
            if cx.chance(1, 3) {
                let s = gen_settings(cx);
                apply(&mut k, &s);
                set_key(&mut k, &creds)?;
            }
        }
    }
    let (gr, en) = db.root.count();
    cx.sig((gr.min(20) * 32 + en.min(30)) as u64);
    Ok(())
}
