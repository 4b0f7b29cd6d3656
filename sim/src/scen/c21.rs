//! C21: XML export and import.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::ensure;
use crate::interpose;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, Layout};
use crate::simio::*;
use cipher::StreamCipher;
use kdbx_rs::database::Database;
use kdbx_rs::utils::NullStreamCipher;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C21",
        run,
        quick: 30000,
        thorough: 300000,
        rule: "distinct sequences of (cipher, document shape, export or import, stream behaviour, fault and its place in sixteenths, outcome)",
        real: REAL,
        stub: STUB,
        assumptions: &["documents up to 1.3 MiB", "groups nested more than 128 deep may be refused"],
    }
}

#[derive(Clone, Debug)]
enum Alg {
    Null,
    Inner(rc::RInner, Vec<u8>),
}
fn l_stream(a: &Alg) -> R<Box<dyn StreamCipher>> {
    match a {
        Alg::Null => Ok(Box::new(NullStreamCipher)),
        Alg::Inner(i, k) => match lib("stream_cipher", || l_inner(*i).stream_cipher(k))? {
            Ok(c) => Ok(c),
            Err(e) => viol("stream cipher refused", format!("{e:?}")),
        },
    }
}
fn r_stream(a: &Alg) -> rc::Keystream {
    match a {
        Alg::Null => rc::Keystream::null(),
        Alg::Inner(i, k) => rc::Keystream::new(*i, k),
    }
}

fn gen(cx: &Cx) -> MDb {
    let o = TextOpts {
        illegal: cx.chance(1, 6),
        ..PLAIN
    };
    let mut db = gen_db(cx, o);
    match cx.weighted(&[60, 8, 1, 2]) {
        0 => {}
        1 => {
            let n = cx.range(500, 30_000) as usize;
            add_bulk(cx, &mut db, n);
        }
        2 => {
            let n = cx.range(400_000, 1_200_000) as usize;
            add_bulk(cx, &mut db, n);
        }
        _ => {
            let n = cx.pick(&[20u64, 126, 127, 128, 129, 200]);
            let mut g = gen_group(cx, PLAIN, 0);
            for i in 0..n {
                g = MGroup {
                    uuid: [i as u8; 16],
                    name: format!("{i}"),
                    entries: vec![],
                    groups: vec![g],
                    times: gen_times(cx),
                };
            }
            db.root.groups.push(g);
        }
    }
    db
}

/// May the export refuse this database?
fn refusable(db: &MDb) -> bool {
    !representable(db)
}

fn db_of(d: &Database) -> R<MDb> {
    let _h = interpose::harness();
    Ok(m_db(d))
}

/// Import `xml` and check the outcome; true if it was imported.
fn import(cx: &Cx, xml: &[u8], c: &mut Box<dyn StreamCipher>, frag: Frag, fault: InFault, want: &MDb) -> R<bool> {
    let end = xml.windows(14).rposition(|w| w == b"</KeePassFile>").map(|i| i + 14).unwrap_or(xml.len());
    let r = SimReader::new(cx, Arc::new(xml.to_vec()), frag, fault);
    let stats = r.stats.clone();
    let res = lib("importing", || kdbx_rs::xml::parse_xml(r, &mut **c))?;
    let at = match fault {
        InFault::None => usize::MAX,
        InFault::ErrorAt(at, _) | InFault::EofAt(at) | InFault::ErrorOnceAt(at, _) => at,
    };
    cx.sig(res.is_ok() as u64);
    match res {
        Err(e) => {
            ensure!(
                at <= xml.len(),
                "import failed",
                "a complete document was not imported: {e:?} ({:?})",
                stats.lock().unwrap()
            );
            Ok(false)
        }
        Ok(d) => {
            ensure!(
                at >= end,
                "part of a document imported",
                "the stream failed after {at} of {} bytes and the import succeeded",
                xml.len()
            );
            let got = db_of(&d)?;
            if let Some(x) = diff_db(want, &got) {
                return viol(format!("imported database: {} differs", diff_kind(&x)), format!("stored vs imported: {x}"));
            }
            Ok(true)
        }
    }
}

fn gen_in_fault(cx: &Cx, len: usize) -> InFault {
    let at = match cx.weighted(&[3, 1, 3]) {
        0 => cx.below(len as u64 + 1) as usize,
        1 => cx.usize(300.min(len + 1)),
        _ => len.saturating_sub(cx.usize(40)),
    };
    cx.sig((at * 16 / len.max(1)) as u64);
    match cx.weighted(&[3, 3, 3, 2]) {
        0 => InFault::None,
        1 => InFault::ErrorAt(at, cx.pick(&ERR_KINDS)),
        2 => InFault::EofAt(at),
        _ => InFault::ErrorOnceAt(at, cx.pick(&ERR_KINDS)),
    }
}

fn run(cx: &Cx) -> R {
    let alg = match cx.below(4) {
        0 => Alg::Null,
        1 => Alg::Inner(rc::RInner::Salsa20, Prng::new(cx.seed()).bytes(32)),
        _ => {
            let n = cx.pick(&[64usize, 32, 1, 0, 100]);
            Alg::Inner(rc::RInner::ChaCha20, Prng::new(cx.seed()).bytes(n))
        }
    };
    cx.sig(match &alg {
        Alg::Null => 0,
        Alg::Inner(i, k) => 1 + i.id() as u64 * 200 + k.len() as u64,
    });
    // one cipher per direction serves several documents
    let (mut out_c, mut in_c, mut ref_c) = (l_stream(&alg)?, l_stream(&alg)?, r_stream(&alg));
    let docs = cx.weighted(&[5, 2, 1]) + 1;
    for i in 0..docs {
        let db = gen(cx);
        if i == 0 {
            cx.sample(format!("{docs} documents, cipher {}, {}", matches!(alg, Alg::Null) as u8, db.summary()));
        }
        let (gr, en) = db.root.count();
        cx.sig((gr.min(20) * 32 + en.min(30)) as u64);
        let frag = Frag::choose(cx);
        if cx.chance(1, 4) && representable(&db) {
            // a document of another program
            cx.sig(7);
            let mut l = Layout::choose(cx, cx.chance(1, 3));
            l.header_hash = None;
            cx.sig(l.bits());
            let xml = refxml::write_db(&db, &l, Some(&mut ref_c));
            let fault = gen_in_fault(cx, xml.len());
            if !import(cx, &xml, &mut in_c, frag, fault, &db)? {
                // the stream cipher of a failed import stands anywhere: a new attempt starts afresh
                return retry(cx, &alg, &db);
            }
            cx.nontrivial();
            // keep the three ciphers in step
            let d = {
                let _h = interpose::harness();
                l_db(&db)
            };
            match lib("exporting", || kdbx_rs::xml::write_xml(std::io::sink(), &d, &mut *out_c))? {
                Ok(()) => {}
                Err(e) => return viol("export failed", format!("{e:?}")),
            }
            // values of elements nobody interprets used up key stream as well
            if l.unknown_protected {
                return Ok(());
            }
            continue;
        }
        let d = {
            let _h = interpose::harness();
            l_db(&db)
        };
        let fault = if cx.chance(1, 2) {
            OutFault::None
        } else {
            // places are chosen by the length of an undisturbed export
            let mut c = l_stream(&alg)?;
            let mut v = Vec::new();
            let _ = lib("exporting", || kdbx_rs::xml::write_xml(&mut v, &d, &mut *c))?;
            let f = super::c09::gen_fault(cx, v.len());
            cx.sig(match f {
                OutFault::ErrorAt(at, _) => 10 + (at * 16 / v.len().max(1)) as u64,
                OutFault::ErrorOnceAt(at, _) => 30 + (at * 16 / v.len().max(1)) as u64,
                OutFault::ZeroAt(at) => 50 + (at * 16 / v.len().max(1)) as u64,
                _ => 9,
            });
            f
        };
        let (sink, st) = SimSink::new(cx, frag, fault);
        let r = lib("exporting", || kdbx_rs::xml::write_xml(sink, &d, &mut *out_c))?;
        let st = st.lock().unwrap();
        let ok = r.is_ok();
        cx.ev(format!("export: {}", if ok { "ok" } else { "failed" }));
        if !ok && st.errors == 0 {
            ensure!(refusable(&db), "export failed", "exporting to a working stream failed: {r:?}");
            cx.count("probe.refused_unrepresentable");
            cx.sig(8);
            return Ok(());
        }
        ensure!(db_of(&d)? == db, "export changed the database", "the database in memory changed");
        let mut xml = None;
        super::c09::judge(cx, "export", ok, &st, fault, |b| {
            xml = Some(b.to_vec());
            Ok(())
        })?;
        let Some(xml) = xml else { return retry(cx, &alg, &db) };
        ensure!(texts_legal(&db), "unrepresentable text exported", "text XML cannot represent was exported");
        match refxml::read_db(&xml, &mut ref_c) {
            Err(e) => return viol("exported document", format!("the exported document is not readable: {e}")),
            Ok(m) => {
                if let Some(x) = diff_db(&db, &m) {
                    return viol(format!("exported document: {} differs", diff_kind(&x)), format!("stored vs exported: {x}"));
                }
            }
        }
        cx.nontrivial();
        let frag = Frag::choose(cx);
        let fault = gen_in_fault(cx, xml.len());
        if !import(cx, &xml, &mut in_c, frag, fault, &db)? {
            let mut c = l_stream(&alg)?;
            if i == 0 && !import(cx, &xml, &mut c, Frag::none(), InFault::None, &db)? {
                return viol("import failed", "a repeated import failed".to_string());
            }
            return Ok(());
        }
    }
    Ok(())
}

/// After a failure, export and import with working streams.
fn retry(cx: &Cx, alg: &Alg, db: &MDb) -> R {
    let d = {
        let _h = interpose::harness();
        l_db(db)
    };
    let mut c = l_stream(alg)?;
    let (sink, st) = SimSink::new(cx, Frag::none(), OutFault::None);
    match lib("exporting", || kdbx_rs::xml::write_xml(sink, &d, &mut *c))? {
        Err(e) => {
            ensure!(refusable(db), "retried export failed", "{e:?}");
        }
        Ok(()) => {
            let xml = st.lock().unwrap().accepted.clone();
            let mut c = l_stream(alg)?;
            import(cx, &xml, &mut c, Frag::none(), InFault::None, db)?;
        }
    }
    Ok(())
}
