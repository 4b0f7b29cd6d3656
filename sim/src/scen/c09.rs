//! C09: output faults.
use super::*;
use crate::arch::*;
use crate::ctx::lib;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::simio::*;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C09",
        run,
        quick: 5000,
        thorough: 60000,
        rule: "distinct (archive state, settings, fault kind, place class, write splitting, outcome) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &["sizes up to 1.2 MiB"],
    }
}

pub fn gen_fault(cx: &Cx, len: usize) -> OutFault {
    let at = match cx.weighted(&[3, 2, 3]) {
        0 => cx.below(len as u64 + 1) as usize,
        1 => cx.usize(400.min(len + 1)),
        _ => len.saturating_sub(cx.usize(90)),
    };
    let kind = cx.pick(&OUT_ERR_KINDS);
    match cx.weighted(&[2, 4, 3, 2, 2, 2, 3]) {
        0 => OutFault::None,
        1 => OutFault::ErrorAt(at, kind),
        2 => OutFault::ErrorOnceAt(at, kind),
        3 => OutFault::ZeroAt(at),
        4 => OutFault::FlushError(kind),
        5 => OutFault::BufferedFlushError(kind),
        _ => OutFault::Buffered,
    }
}

/// Judge one attempt: `reopen` checks stored bytes.
pub fn judge(cx: &Cx, what: &str, ok: bool, st: &OutState, fault: OutFault, reopen: impl FnOnce(&[u8]) -> R) -> R {
    cx.sig(ok as u64);
    if !ok {
        ensure!(
            st.errors > 0,
            format!("{what} failed without a fault"),
            "{what} failed although the output worked ({} interruptions, {} short writes)",
            st.eintr,
            st.short
        );
        return Ok(());
    }
    ensure!(
        !matches!(fault, OutFault::FlushError(_) | OutFault::BufferedFlushError(_)),
        format!("{what}: flush error not reported"),
        "{what} reported success although no flush of the output succeeded"
    );
    ensure!(
        st.durable == st.accepted.len(),
        format!("{what}: success without flush"),
        "{what} reported success with {} of {} bytes still in the output's buffer",
        st.accepted.len() - st.durable,
        st.accepted.len()
    );
    reopen(&st.accepted)
}

fn run(cx: &Cx) -> R {
    let mut s = gen_settings(cx);
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    let bulk = match cx.weighted(&[20, 6, 1]) {
        0 => 0,
        1 => cx.range(500, 30_000) as usize,
        _ => cx.range(900_000, 1_200_000) as usize,
    };
    if bulk > 0 {
        if bulk > 500_000 {
            s.cipher = rc::RCipher::ChaCha20;
        }
        add_bulk(cx, &mut db, bulk);
    }
    let k = make(&db, &s, &creds)?;
    let first = save_ok(cx, &k)?;
    let len = first.len();
    let locked = cx.chance(1, 3);
    cx.sig(locked as u64);
    cx.sample(format!("{} archive, settings {:?}, {}", if locked { "locked" } else { "unlocked" }, s, db.summary()));
    if locked {
        let l = match open_bytes(&first)? {
            Ok(l) => l,
            Err(e) => return crate::ctx::viol("saved archive not opened", format!("{e:?}")),
        };
        for _ in 0..cx.range(1, 4) {
            let fault = gen_fault(cx, len);
            let frag = Frag::choose(cx);
            let before = l.header().clone();
            let (sink, st) = SimSink::new(cx, frag, fault);
            let r = lib("writing a locked archive", || l.write(sink))?;
            cx.ev(format!("copy: {}", kind_write(&r)));
            let st = st.lock().unwrap();
            judge(cx, "copy", r.is_ok(), &st, fault, |b| reopen_expect("copy", b, &creds, &db).map(|_| ()))?;
            ensure!(
                before == *l.header(),
                "locked archive changed by writing",
                "the header in memory changed"
            );
        }
        let (sink, st) = SimSink::new(cx, Frag::none(), OutFault::None);
        match lib("writing a locked archive", || l.write(sink))? {
            Err(e) => crate::ctx::viol("retried copy failed", format!("{e:?}")),
            Ok(()) => reopen_expect("retried copy", &st.lock().unwrap().accepted, &creds, &db).map(|_| ()),
        }
    } else {
        for _ in 0..cx.range(1, 4) {
            let fault = gen_fault(cx, len);
            let frag = Frag::choose(cx);
            let settings = |k: &kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>| {
                let (h, i) = (k.header(), k.inner_header());
                (h.cipher, h.compression_type, h.kdf_params.clone(), i.inner_stream_cipher, i.inner_stream_key.clone(), i.other_headers.clone())
            };
            let before = settings(&k);
            let (r, st) = save_to(cx, &k, frag, fault)?;
            let st = st.lock().unwrap();
            judge(cx, "save", r.is_ok(), &st, fault, |b| reopen_expect("save", b, &creds, &db).map(|_| ()))?;
            ensure!(
                before == settings(&k),
                "settings changed by saving",
                "settings in memory changed by a save"
            );
            expect_content("memory after a save", &k, &db)?;
        }
        let again = save_ok(cx, &k)?;
        reopen_expect("retried save", &again, &creds, &db).map(|_| ())
    }
}
