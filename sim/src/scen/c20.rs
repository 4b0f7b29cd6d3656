//! C20: the raw XML.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::edit;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use kdbx_rs::Kdbx;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C20",
        run,
        quick: 8000,
        thorough: 100000,
        rule: "distinct (origin, settings, block layout, layout of the document, length class, trailing data) signatures of compared documents",
        real: REAL,
        stub: STUB,
        assumptions: &["sizes up to 2.2 MiB"],
    }
}

/// Trailing bytes a document may carry; XML allows white space and comments after the root element.
fn tail(cx: &Cx, xml: &mut Vec<u8>) {
    match cx.weighted(&[4, 3, 2, 1]) {
        0 => {}
        1 => {
            // every length modulo the cipher's block size
            let n = cx.below(40) as usize;
            xml.resize(xml.len() + n, b'\n');
        }
        2 => {
            let n = cx.below(20) as usize;
            xml.extend_from_slice(b"<!--");
            xml.resize(xml.len() + n, b'x');
            xml.extend_from_slice(b"-->");
        }
        _ => {
            // padding-like white space
            let n = cx.pick(&[9u8, 10, 13]);
            for _ in 0..n {
                xml.push(n);
            }
        }
    }
}

fn compare(cx: &Cx, what: &str, got: Option<&[u8]>, want: &[u8]) -> R {
    let Some(got) = got else {
        return viol(format!("{what}: no raw XML"), format!("{what}: an opened archive offers no raw XML"));
    };
    cx.count("probe.documents_compared");
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return viol(
            format!("{what}: raw XML differs"),
            format!("{what}: raw XML of {} bytes, stored document of {} bytes, first difference at {at}", got.len(), want.len()),
        );
    }
    Ok(())
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    let bulk = match cx.weighted(&[40, 10, 1]) {
        0 => 0,
        1 => cx.range(300, 40_000) as usize,
        _ => cx.range(900_000, 2_200_000) as usize,
    };
    let origin = cx.weighted(&[3, 4, 4]);
    cx.sig(origin as u64);
    cx.sig((bulk as f64 + 1.0).log2() as u64);
    if bulk > 0 {
        add_bulk(cx, &mut db, bulk);
    }
    if origin == 0 {
        // created here: none, then what was stored
        let mut s = gen_settings(cx);
        if bulk > 500_000 {
            s.cipher = rc::RCipher::ChaCha20;
        }
        let mut k = make(&db, &s, &creds)?;
        cx.sample(format!("saved archive, {:?}, {}", s, db.summary()));
        for n in 0..cx.range(1, 3) {
            if n == 0 {
                ensure!(
                    lib("raw_xml", || k.raw_xml().is_none())?,
                    "raw XML of a new archive",
                    "an archive created in memory offers raw XML"
                );
            }
            let bytes = save_ok(cx, &k)?;
            let o = match rc::open4(&bytes, &creds) {
                Ok(o) => o,
                Err(e) => return viol("save rejected by another client", e),
            };
            k = reopen_expect("save", &bytes, &creds, &db)?;
            compare(cx, "saved archive", k.raw_xml(), &o.xml)?;
            cx.sig(o.xml.len() as u64 % 16);
            cx.nontrivial();
            if bulk < 500_000 {
                edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
                if !representable(&db) {
                    return Ok(());
                }
                // editing does not touch the document that was read
                compare(cx, "edited archive", k.raw_xml(), &o.xml)?;
            }
        }
        return Ok(());
    }
    let major = if origin == 1 { 4 } else { 3 };
    let mut a = gen_archive(cx, major, 4000 + bulk);
    if bulk > 500_000 && a.cipher == rc::RCipher::TwoFish {
        a.cipher = rc::RCipher::ChaCha20;
        a.iv.resize(12, 5);
    }
    let mut l = if cx.chance(2, 3) { Layout::choose(cx, major == 3) } else { Layout::plain() };
    l.iso_dates = major == 3;
    cx.sig(l.bits());
    if major == 3 && cx.chance(3, 4) {
        l.header_hash = Some(b64(&rc::sha256(&[&a.header()])));
    }
    let mut ks = a.keystream();
    let mut xml = crate::refxml::write_db(&db, &l, Some(&mut ks));
    tail(cx, &mut xml);
    // bytes behind the document that are no XML; acceptance is not required
    let junk = cx.chance(1, 12);
    if junk {
        let n = cx.range(1, 40) as usize;
        let byte = cx.pick(&[0u8, 0, 1, 16, 0xff]);
        xml.resize(xml.len() + n, byte);
        cx.sig(800 + u64::from(byte));
    }
    cx.sig(xml.len() as u64 % 32);
    let bytes = a.encode(&creds, &xml);
    cx.ev_data("foreign archive", &bytes);
    cx.sample(format!("KDBX {major}.{}, {:?} gzip {:?}, document of {} bytes in {} blocks", a.minor, a.cipher, a.gzip, xml.len(), a.block_lens.len()));
    let mut stored = bytes;
    if junk {
        if let Ok(k) = open_unlock(&stored, &creds)? {
            cx.nontrivial();
            compare(cx, "document with bytes behind it", k.raw_xml(), &xml)?;
        }
        return Ok(());
    }
    if major == 3 && cx.chance(1, 4) {
        // whatever follows the final block of the container
        let extra = match cx.below(2) {
            0 => 16,
            _ => 32,
        };
        let t = rc::transform(&creds, &a.kdf).expect("kdf");
        let ck = rc::cipher_key(&a.seed, &t);
        let packed = match a.gzip {
            Some(s) => rc::gzip(&xml, s, &a.gzip_lens),
            None => xml.clone(),
        };
        let mut plain = a.start_bytes.clone();
        plain.extend_from_slice(&rc::hashed_blocks(&packed, &a.block_lens));
        plain.extend_from_slice(&Prng::new(cx.seed()).bytes(extra));
        stored = a.header();
        stored.extend_from_slice(&rc::encrypt(a.cipher, &ck, &a.iv, &plain));
        cx.sig(900 + extra as u64);
        // acceptance of such data is not required
        match open_unlock(&stored, &creds)? {
            Err(_) => return Ok(()),
            Ok(k) => {
                cx.nontrivial();
                compare(cx, "archive with trailing data", k.raw_xml(), &xml)?;
                return expect_content("archive with trailing data", &k, &db);
            }
        }
    }
    let mut k: Kdbx<_> = reopen_expect("archive of another client", &stored, &creds, &db)?;
    cx.nontrivial();
    compare(cx, "archive of another client", k.raw_xml(), &xml)?;
    if cx.chance(1, 3) {
        edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
        compare(cx, "edited archive", k.raw_xml(), &xml)?;
    }
    Ok(())
}
