//! C06: storage damage to KDBX 3.1 archives.
use super::damage;
use super::*;
use crate::arch::*;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C06",
        run,
        quick: 20000,
        thorough: 200000,
        rule: "distinct (settings, layout, kinds and place classes of damage, outcome) signatures, one per sequence of damages of one archive",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "every archive stores its header hash, as KDBX 3.1 clients do",
            "damage that asks for more than 20000 key derivation rounds is left out",
        ],
    }
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    if cx.chance(1, 3) {
        let n = cx.range(100, 5000) as usize;
        add_bulk(cx, &mut db, n);
    }
    let mut a = gen_archive(cx, 3, 3000);
    a.minor = cx.pick(&[1u16, 1, 0]);
    if cx.chance(1, 80) {
        // blocks of the size other clients write
        let n = cx.range(1 << 19, 5 << 18) as usize;
        add_bulk(cx, &mut db, n);
        a.block_lens = vec![cx.pick(&[1usize << 20, 1 << 16, 1 << 21])];
        a.cipher = if cx.chance(3, 4) { rc::RCipher::ChaCha20 } else { rc::RCipher::Aes256 };
        a.iv = crate::choice::Prng::new(cx.seed()).bytes(a.cipher.iv_len());
        if cx.chance(5, 6) {
            a.gzip = None;
        }
        cx.count("probe.large_archive");
    }
    let mut l = if cx.chance(1, 3) { Layout::choose(cx, true) } else { Layout::plain() };
    l.iso_dates = true;
    l.header_hash = Some(b64(&rc::sha256(&[&a.header()])));
    let (bytes, _) = foreign(cx, &a, &db, &mut l, &creds);
    let hl = a.header().len();
    // places: each header field, the start bytes, the first block header, the end
    let mut hot = vec![(0, 12), (hl, hl + 32), (hl + 32, (hl + 96).min(bytes.len()))];
    let mut at = 12;
    for (_, d) in a.outer_fields() {
        hot.push((at, at + 3));
        if !d.is_empty() {
            hot.push((at + 3, at + 3 + d.len()));
        }
        at += 3 + d.len();
    }
    hot.push((bytes.len().saturating_sub(80), bytes.len()));
    cx.sample(format!("{} bytes, {:?} gzip {:?} inner {:?}, {}", bytes.len(), a.cipher, a.gzip, a.inner, db.summary()));
    let most = if bytes.len() > 500_000 { 3 } else { 8 };
    for _ in 0..cx.range(1, most) {
        let (d, kind) = damage::storage(cx, &bytes, &hot);
        if d == bytes {
            continue;
        }
        // keep the cost of the key derivation bounded
        if let Ok((3, _, f, _)) = rc::parse_header(&d) {
            if f.iter().any(|x| x.0 == 6 && x.1.len() >= 8 && u64::from_le_bytes(x.1[..8].try_into().unwrap()) > 20_000) {
                continue;
            }
        }
        if d.len() > 11 && d[10..12] == [4, 0] {
            continue;
        }
        cx.count(&format!("fault.{}", kind.replace(' ', "_")));
        cx.ev(format!("{kind}: {} bytes", d.len()));
        cx.sig_str(kind);
        match open_unlock(&d, &creds)? {
            Err(e) => cx.sig_str(&kind_of(&e)),
            Ok(k) => {
                let got = content(&k)?;
                if let Some(diff) = diff_db(&db, &got) {
                    let place = d.iter().zip(&bytes).position(|(x, y)| x != y).unwrap_or(bytes.len().min(d.len()));
                    let part = if place < hl { "header" } else { "body" };
                    return crate::ctx::viol(
                        format!("damaged {part} accepted: {} differs", diff_kind(&diff)),
                        format!("an archive damaged in its {part} ({kind}, first difference at byte {place}) was accepted: stored vs found: {diff}"),
                    );
                }
                cx.count("probe.harmless_damage");
                cx.sig(99);
            }
        }
    }
    Ok(())
}
