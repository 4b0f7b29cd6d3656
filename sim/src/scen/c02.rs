//! C02: an independent client reads what was saved.
use super::*;
use crate::arch::*;
use crate::edit;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, Layout};

pub fn scenario() -> Scenario {
    Scenario {
        id: "C02",
        run,
        quick: 5000,
        thorough: 60000,
        rule: "distinct (settings, content shape, block count, origin of the archive) signatures of runs in which the reference client read at least one saved archive",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "the reference client shares the cipher, hash and deflate crates with the library",
            "sizes up to 21 MiB",
        ],
    }
}

/// Let the reference client open `bytes` and compare everything it finds.
pub fn reference_reads(cx: &Cx, class: &str, bytes: &[u8], creds: &rc::Creds, s: &Settings, db: &MDb) -> R<rc::Opened> {
    let o = match rc::open4(bytes, creds) {
        Ok(o) => o,
        Err(e) => {
            return crate::ctx::viol(
                format!("{class}: container rejected"),
                format!("{class}: the reference client rejects the archive: {e}"),
            )
        }
    };
    ensure!(o.cipher == s.cipher, format!("{class}: cipher"), "stored cipher {:?}, set {:?}", o.cipher, s.cipher);
    ensure!(o.gzip == s.gzip, format!("{class}: compression"), "stored compression {}, set {}", o.gzip, s.gzip);
    ensure!(o.kdf == s.kdf, format!("{class}: key derivation"), "stored {:?}, set {:?}", o.kdf, s.kdf);
    ensure!(o.inner == s.inner, format!("{class}: inner stream"), "stored {:?}, set {:?}", o.inner, s.inner);
    let mut ks = rc::Keystream::new(o.inner, &o.inner_key);
    match refxml::read_db(&o.xml, &mut ks) {
        Err(e) => {
            return crate::ctx::viol(
                format!("{class}: document rejected"),
                format!("{class}: the reference client rejects the document: {e}"),
            )
        }
        Ok(got) => {
            if let Some(d) = diff_db(db, &got) {
                return crate::ctx::viol(
                    format!("{class}: {} differs", diff_kind(&d)),
                    format!("{class}: reference client reads: {d}"),
                );
            }
        }
    }
    cx.sig(o.block_lens.len() as u64);
    Ok(o)
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let origin = cx.weighted(&[5, 3, 1]);
    cx.sig(origin as u64);
    let mut s = gen_settings(cx);
    let mut db = super::c01::gen(cx);
    let mut k;
    match origin {
        0 => {
            let crowded = crowded(&db);
            if crowded && s.cipher == rc::RCipher::TwoFish {
                s.cipher = rc::RCipher::ChaCha20;
            }
            let bulk = if crowded { 0 } else { super::c01::gen_bulk(cx) };
            if bulk > 0 {
                if bulk > 900_000 && s.cipher == rc::RCipher::TwoFish {
                    s.cipher = rc::RCipher::ChaCha20;
                }
                add_bulk(cx, &mut db, bulk);
            }
            k = make(&db, &s, &creds)?;
        }
        _ => {
            // an archive of another client, of either version
            let major = if origin == 1 { 4 } else { 3 };
            db = gen_db(cx, PLAIN);
            let a = gen_archive(cx, major, 4000);
            let mut l = Layout::choose(cx, major == 3);
            let (bytes, _) = foreign(cx, &a, &db, &mut l, &creds);
            k = match open_unlock(&bytes, &creds)? {
                Ok(k) => k,
                Err(_) => return Ok(()),
            };
            // what was read is C03's business; here only what is written from it
            db = content(&k)?;
            s = Settings {
                cipher: a.cipher,
                gzip: a.gzip.is_some(),
                kdf: a.kdf.clone(),
                inner: a.inner,
            };
            if cx.chance(1, 3) {
                s = gen_settings(cx);
                apply(&mut k, &s);
                set_key(&mut k, &creds)?;
            }
            if major == 3 {
                // the library may refuse to store an archive of the old version, but not store something unreadable
                return match save(cx, &k)? {
                    Err(_) => {
                        cx.count("probe.refused_old_version");
                        Ok(())
                    }
                    Ok(b) => reference_reads(cx, "saved KDBX 3 archive", &b, &creds, &s, &db).map(|_| ()),
                };
            }
        }
    }
    cx.sample(format!("origin {origin}, settings {:?}, {}", s, db.summary()));
    let gens = cx.range(1, 3);
    for _ in 0..gens {
        for _ in 0..cx.below(4) {
            edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
        }
        match save(cx, &k)? {
            Err(e) => {
                ensure!(
                    !representable(&db),
                    "representable content not saved",
                    "saving representable content failed: {e:?}"
                );
                return Ok(());
            }
            Ok(bytes) => {
                cx.ev_data("saved", &bytes);
                reference_reads(cx, "saved archive", &bytes, &creds, &s, &db)?;
                cx.nontrivial();
                cx.count("probe.reference_read");
                if cx.chance(1, 3) {
                    k = reopen_expect("reopened save", &bytes, &creds, &db)?;
                }
            }
        }
        if cx.chance(1, 4) {
            s = gen_settings(cx);
            apply(&mut k, &s);
            set_key(&mut k, &creds)?;
        }
    }
    let (gr, en) = db.root.count();
    cx.sig((gr.min(20) * 32 + en.min(30)) as u64);
    Ok(())
}
