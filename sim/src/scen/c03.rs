//! C03: archives of other clients are read exactly.
use super::*;
use crate::arch::*;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C03",
        run,
        quick: 9000,
        thorough: 100000,
        rule: "distinct (version, settings, block layout, document layout bits, content shape) signatures of archives the library opened",
        real: REAL,
        stub: STUB,
        assumptions: &["sizes up to 1.3 MiB", "UTF-8 documents", "at most 30000 AES-KDF rounds and 30 KiB Argon2 memory"],
    }
}

fn run(cx: &Cx) -> R {
    let major = if cx.chance(1, 3) { 3 } else { 4 };
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    let bulk = match cx.weighted(&[40, 6, 1]) {
        0 => 0,
        1 => cx.range(500, 30_000) as usize,
        _ => cx.range(900_000, 1_300_000) as usize,
    };
    let mut a = gen_archive(cx, major, bulk.max(4000));
    if bulk > 0 {
        if bulk > 500_000 && a.cipher == rc::RCipher::TwoFish {
            a.cipher = rc::RCipher::Aes256;
            a.iv.resize(16, 1);
        }
        add_bulk(cx, &mut db, bulk);
    }
    // clients restrict what they write: texts legal, keys non-empty
    if !representable(&db) {
        return Ok(());
    }
    if cx.chance(1, 30) {
        let r = cx.range(5000, 30_000);
        if let rc::RKdf::Aes { rounds, .. } = &mut a.kdf {
            *rounds = r;
        }
    }
    let mut l = Layout::choose(cx, major == 3);
    cx.sig(l.bits());
    let (bytes, _) = foreign(cx, &a, &db, &mut l, &creds);
    cx.sample(format!(
        "KDBX {}.{} {:?} gzip {:?} {:?}, {} block sizes, layout bits {:#x}, {} bytes, {}",
        a.major,
        a.minor,
        a.cipher,
        a.gzip,
        a.inner,
        a.block_lens.len(),
        l.bits(),
        bytes.len(),
        db.summary()
    ));
    let frag = if cx.chance(1, 5) { Frag::choose(cx) } else { Frag::none() };
    let r = SimReader::new(cx, Arc::new(bytes), frag, InFault::None);
    let locked = match crate::ctx::lib("opening", || kdbx_rs::from_reader(r))? {
        Ok(k) => k,
        Err(e) => {
            return crate::ctx::viol(
                "foreign archive not opened",
                format!("well-formed KDBX {}.{} archive not opened: {e:?}", a.major, a.minor),
            )
        }
    };
    ensure!(
        locked.major_version() == a.major && locked.minor_version() == a.minor,
        "version",
        "version {}.{} read as {}.{}",
        a.major,
        a.minor,
        locked.major_version(),
        locked.minor_version()
    );
    expect_header("foreign archive", locked.header(), &a)?;
    match unlock(locked, &creds)? {
        Err((_, e)) => crate::ctx::viol(
            "foreign archive not unlocked",
            format!("well-formed KDBX {}.{} archive not unlocked: {e:?}", a.major, a.minor),
        ),
        Ok(k) => {
            ensure!(
                k.inner_header().inner_stream_cipher == l_inner(a.inner) && k.inner_header().inner_stream_key == a.inner_key,
                "inner stream settings",
                "inner stream settings differ"
            );
            expect_header("unlocked foreign archive", k.header(), &a)?;
            expect_content("foreign archive", &k, &db)?;
            cx.nontrivial();
            cx.count(if major == 3 { "probe.kdbx3_read" } else { "probe.kdbx4_read" });
            let (gr, en) = db.root.count();
            cx.sig((gr.min(20) * 32 + en.min(30)) as u64);
            Ok(())
        }
    }
}
