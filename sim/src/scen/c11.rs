//! C11: copies of locked archives.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::lib;
use crate::ensure;

use crate::refcodec as rc;
use crate::simio::*;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C11",
        run,
        quick: 5000,
        thorough: 60000,
        rule: "distinct (archive kind, layout, number of copies, failed unlocks in between) signatures of copied archives",
        real: REAL,
        stub: STUB,
        assumptions: &["sizes up to 1.2 MiB"],
    }
}

/// Another client may use ciphers, compression and key derivation that this library cannot unlock.
fn opaque(cx: &Cx) -> R {
    let major = if cx.chance(2, 3) { 4 } else { 3 };
    let a = gen_archive(cx, major, 3000);
    let mut fields = a.outer_fields();
    let n = cx.range(1, 3);
    for _ in 0..n {
        let (id, data): (u8, Vec<u8>) = match cx.below(3) {
            0 => (2, Prng::new(cx.seed() + 3).bytes(16)),
            1 => (3, cx.pick(&[2u32, 7, u32::MAX]).to_le_bytes().to_vec()),
            _ => {
                let n = cx.below(6);
                let mut e = vec![(0x42, b"$UUID".to_vec(), Prng::new(cx.seed() + 4).bytes(16))];
                e.extend(gen_ventries(cx, n, "p"));
                (if major == 4 { 11 } else { 2 }, if major == 4 { rc::vdict_bytes(&e) } else { Prng::new(5).bytes(16) })
            }
        };
        if let Some(f) = fields.iter_mut().find(|f| f.0 == id) {
            f.1 = data;
        }
        cx.sig(id as u64);
    }
    let mut orig = rc::header_bytes(major, a.minor, &fields);
    if major == 4 {
        let h = rc::sha256(&[&orig]);
        orig.extend_from_slice(&h);
        orig.extend(Prng::new(cx.seed() + 6).bytes(32));
    }
    let n = cx.magnitude(20_000) as usize;
    orig.extend(Prng::new(cx.seed() + 7).bytes(n));
    cx.sample(format!("KDBX {major}.{} of unsupported settings, {} bytes", a.minor, orig.len()));
    let mut bytes = orig.clone();
    for n in 0..cx.range(1, 3) {
        let mut l = match open_bytes(&bytes)? {
            Ok(l) => l,
            // nothing is promised about opening these
            Err(_) if n == 0 => return Ok(()),
            Err(e) => return crate::ctx::viol("copy not opened", format!("copy {n} of a KDBX {major} archive of unsupported settings: {e:?}")),
        };
        if cx.chance(1, 2) && !super::c13::costly(&l.header().kdf_params) {
            match unlock(l, &gen_creds(cx))? {
                Ok(_) => return crate::ctx::viol("unsupported settings unlocked", "an archive of unsupported settings was unlocked"),
                Err((back, _)) => l = back,
            }
        }
        let (sink, st) = SimSink::new(cx, Frag::choose(cx), OutFault::None);
        if let Err(e) = lib("writing a locked archive", || l.write(sink))? {
            return crate::ctx::viol("copy failed", format!("copying a locked KDBX {major} archive of unsupported settings failed: {e:?}"));
        }
        bytes = std::mem::take(&mut st.lock().unwrap().accepted);
        ensure!(
            bytes == orig,
            "copy of unsupported settings differs",
            "the copy of an archive whose settings only other clients support differs from it"
        );
        cx.count("probe.opaque_copies");
        cx.nontrivial();
    }
    Ok(())
}

fn run(cx: &Cx) -> R {
    if cx.chance(1, 8) {
        return opaque(cx);
    }
    let Some((orig, creds, db)) = super::c07::any_archive(cx)? else { return Ok(()) };
    let (major, minor, fields, _) = match rc::parse_header(&orig) {
        Ok(h) => h,
        Err(_) => return Ok(()),
    };
    cx.sample(format!("KDBX {major}.{minor}, {} bytes, {}", orig.len(), db.summary()));
    let mut bytes = orig.clone();
    for n in 0..cx.range(1, 4) {
        let mut l = match open_bytes(&bytes)? {
            Ok(l) => l,
            Err(e) => return crate::ctx::viol("copy not opened", format!("copy {n} of a KDBX {major}.{minor} archive: {e:?}")),
        };
        for _ in 0..cx.weighted(&[3, 2, 1]) {
            let w = gen_wrong(cx, &creds);
            match unlock(l, &w)? {
                Ok(_) => return crate::ctx::viol("wrong credentials accepted", "wrong credentials accepted"),
                Err((back, _)) => l = back,
            }
            cx.count("fault.wrong_credentials");
        }
        let frag = if cx.chance(1, 2) { Frag::choose(cx) } else { Frag::none() };
        let (sink, st) = SimSink::new(cx, frag, OutFault::None);
        if let Err(e) = lib("writing a locked archive", || l.write(sink))? {
            return crate::ctx::viol("copy failed", format!("copying a locked KDBX {major}.{minor} archive failed: {e:?}"));
        }
        bytes = std::mem::take(&mut st.lock().unwrap().accepted);
        cx.count("probe.copies");
        match rc::parse_header(&bytes) {
            Err(e) => {
                return crate::ctx::viol(
                    format!("copy of KDBX {major} has no valid header"),
                    format!("header of the copy: {e}"),
                )
            }
            Ok((mj, mi, f, _)) => {
                ensure!(
                    (mj, mi) == (major, minor),
                    "version of the copy",
                    "KDBX {major}.{minor} copied as {mj}.{mi}"
                );
                ensure!(
                    f == fields,
                    "header data of the copy differs",
                    "header fields {:?} copied as {:?}",
                    fields.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(),
                    f.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()
                );
            }
        }
        // the source stays usable
        if cx.chance(1, 3) {
            match unlock(l, &creds)? {
                Ok(k) => expect_content("source of a copy", &k, &db)?,
                Err((_, e)) => return crate::ctx::viol("source of a copy not unlocked", format!("{e:?}")),
            }
        }
        reopen_expect(&format!("copy of KDBX {major}"), &bytes, &creds, &db)?;
        cx.nontrivial();
        cx.sig(n);
    }
    if major == 4 {
        if let Err(e) = rc::open4(&bytes, &creds) {
            return crate::ctx::viol("copy rejected by another client", e);
        }
    }
    Ok(())
}
