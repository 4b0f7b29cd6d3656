//! C05: damage to, and tampering with, stored KDBX 4 archives.
use super::damage;
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::edit;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C05",
        run,
        quick: 20000,
        thorough: 200000,
        rule: "distinct (settings, block count, kind of alteration, place class, outcome) signatures, one per sequence of alterations of one archive",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "the attacker does not know the key",
            "hash collisions and forged authentication codes do not occur by chance",
            "alterations that ask for more than 1 MiB or 5000 rounds of key derivation are left out",
        ],
    }
}

pub struct Known {
    pub bytes: Vec<u8>,
    pub db: MDb,
    pub hl: usize,
    pub spans: Vec<(usize, usize)>,
}
impl Known {
    pub fn new(bytes: Vec<u8>, db: MDb) -> Option<Known> {
        let (_, _, _, hl) = rc::parse_header(&bytes).ok()?;
        let spans = rc::block_spans(&bytes);
        Some(Known { bytes, db, hl, spans })
    }
    fn hot(&self) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 12), (12, self.hl), (self.hl, self.hl + 32), (self.hl + 32, self.hl + 64)];
        for (a, b) in &self.spans {
            v.push((*a, a + 32));
            v.push((a + 32, a + 36));
            if b > &(a + 36) {
                v.push((a + 36, *b));
            }
        }
        v
    }
}

pub fn cheap(h: &[(u8, Vec<u8>)]) -> bool {
    let kdfs: Vec<_> = h.iter().filter(|f| f.0 == 11).collect();
    if kdfs.len() != 1 {
        return false;
    }
    match rc::parse_vdict(&kdfs[0].1).and_then(|e| rc::kdf_from(&e)) {
        Ok(rc::RKdf::Aes { rounds, .. }) => rounds <= 5000,
        Ok(rc::RKdf::Argon2 { mem, iters, lanes, .. }) => mem <= 1 << 20 && iters <= 20 && lanes <= 16,
        Err(_) => false,
    }
}

/// The header of `k` with changed fields and a matching plain hash, as anyone can compute it.
fn rehash(k: &Known, minor: u16, f: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut f = f.to_vec();
    f.push((0, vec![13, 10, 13, 10]));
    let mut out = rc::header_bytes(4, minor, &f);
    let sha = rc::sha256(&[&out]);
    out.extend_from_slice(&sha);
    out.extend_from_slice(&k.bytes[k.hl + 32..]);
    out
}

fn attack(cx: &Cx, a: &Known, b: &Known) -> Option<(Vec<u8>, &'static str)> {
    let blocks = |k: &Known| -> Vec<Vec<u8>> { k.spans.iter().map(|(s, e)| k.bytes[*s..*e].to_vec()).collect() };
    let join = |head: &[u8], bl: &[Vec<u8>]| -> Vec<u8> {
        let mut o = head.to_vec();
        for x in bl {
            o.extend_from_slice(x);
        }
        o
    };
    let head = &a.bytes[..a.hl + 64];
    match cx.weighted(&[8, 5, 4, 6, 1, 1, 3]) {
        6 => {
            // a few bits of the encrypted data of one block, for a stream cipher a chosen change of the plain text
            let (s, e) = a.spans[cx.usize(a.spans.len().max(1)).min(a.spans.len().checked_sub(1)?)];
            if e < s + 37 {
                return None;
            }
            let mut d = a.bytes.clone();
            let at = s + 36 + cx.usize(e - s - 36);
            for i in at..(at + cx.range(1, 3) as usize).min(e) {
                d[i] ^= cx.range(1, 4) as u8;
            }
            Some((d, "block data changed"))
        }
        0 => Some(damage::storage(cx, &a.bytes, &a.hot())),
        1 => {
            // blocks of one archive
            let mut bl = blocks(a);
            if bl.is_empty() {
                return None;
            }
            let n = bl.len();
            let what = match cx.below(7) {
                0 => {
                    bl.remove(cx.usize(n));
                    "block dropped"
                }
                1 => {
                    let i = cx.usize(n);
                    let x = bl[i].clone();
                    let j = cx.usize(n);
                    bl.insert(j, x);
                    "block repeated"
                }
                2 => {
                    let (i, j) = (cx.usize(n), cx.usize(n));
                    bl.swap(i, j);
                    "blocks swapped"
                }
                3 => {
                    // early end: keep a prefix of blocks plus the terminator
                    let i = cx.usize(n);
                    let t = bl[n - 1].clone();
                    bl.truncate(i);
                    bl.push(t);
                    "cut short with terminator"
                }
                4 => {
                    let i = cx.usize(n + 1);
                    let mut x = vec![0; 36];
                    if cx.chance(1, 2) {
                        let seed = cx.seed();
                        x[..32].copy_from_slice(&Prng::new(seed).bytes(32));
                    }
                    bl.insert(i, x);
                    "forged empty block"
                }
                5 => {
                    bl.truncate(cx.usize(n));
                    "blocks cut off"
                }
                _ => {
                    // merge or split block data without the key
                    let i = cx.usize(n);
                    if bl[i].len() > 37 {
                        let cut = 36 + 1 + cx.usize(bl[i].len() - 37);
                        let mut first = bl[i][..cut].to_vec();
                        let l = (cut - 36) as u32;
                        first[32..36].copy_from_slice(&l.to_le_bytes());
                        let mut second = bl[i][..36].to_vec();
                        second.extend_from_slice(&bl[i][cut..]);
                        let l = (second.len() - 36) as u32;
                        second[32..36].copy_from_slice(&l.to_le_bytes());
                        bl[i] = first;
                        if cx.chance(1, 2) {
                            bl.insert(i + 1, second);
                        }
                    }
                    "block split"
                }
            };
            Some((join(head, &bl), what))
        }
        2 => {
            // parts of two archives under one key
            let (ba, bb) = (blocks(a), blocks(b));
            Some(match cx.below(4) {
                0 => (join(head, &bb), "body of another archive"),
                1 => {
                    let mut bl = ba.clone();
                    let i = cx.usize(bl.len().max(1));
                    if i < bl.len() && i < bb.len() {
                        bl[i] = bb[i].clone();
                    }
                    (join(head, &bl), "block of another archive")
                }
                2 => {
                    let i = cx.usize(ba.len().max(1));
                    let mut bl = ba[..i].to_vec();
                    bl.extend_from_slice(&bb[i.min(bb.len())..]);
                    (join(head, &bl), "tail of another archive")
                }
                _ => {
                    let at = cx.usize(a.bytes.len());
                    let mut o = a.bytes[..at].to_vec();
                    o.extend_from_slice(&b.bytes[at.min(b.bytes.len())..]);
                    (o, "spliced at a byte")
                }
            })
        }
        3 => {
            // header changed, hash recomputed
            let (_, minor, mut f, _) = rc::parse_header(&a.bytes).ok()?;
            let (_, _, fb, _) = rc::parse_header(&b.bytes).ok()?;
            let mut minor = minor;
            let i = cx.usize(f.len());
            let what = match cx.below(8) {
                0 if f[i].0 != 11 => {
                    if f[i].1.is_empty() {
                        return None;
                    }
                    let j = cx.usize(f[i].1.len());
                    f[i].1[j] ^= 1 << cx.below(8);
                    "header field changed"
                }
                1 => {
                    f.remove(i);
                    "header field removed"
                }
                2 => {
                    let seed = cx.seed();
                    f.push((cx.pick(&[1u8, 12, 42]), Prng::new(seed).bytes(9)));
                    "header field added"
                }
                3 => {
                    // compression flag
                    for x in &mut f {
                        if x.0 == 3 {
                            x.1[0] ^= 1;
                        }
                    }
                    "compression flag changed"
                }
                4 => {
                    minor ^= 1;
                    "minor version changed"
                }
                5 => {
                    let id = f[i].0;
                    if let Some(o) = fb.iter().find(|x| x.0 == id) {
                        f[i] = o.clone();
                    }
                    "header field of another archive"
                }
                6 => {
                    let x = f[i].clone();
                    let j = cx.usize(f.len());
                    f.swap(i, j);
                    if cx.chance(1, 2) && x.0 != 11 {
                        f.push(x);
                    }
                    "header fields reordered"
                }
                _ => {
                    // other ciphers with a fitting IV
                    let c = cx.pick(&[rc::RCipher::Aes256, rc::RCipher::TwoFish, rc::RCipher::ChaCha20]);
                    for x in &mut f {
                        if x.0 == 2 {
                            x.1 = c.uuid().to_vec();
                        }
                        if x.0 == 7 {
                            x.1.resize(c.iv_len(), 0);
                        }
                    }
                    "cipher changed"
                }
            };
            if !cheap(&f) {
                return None;
            }
            Some((rehash(a, minor, &f), what))
        }
        4 => {
            // a complete archive under a key derivation nobody knows: whatever key the reader then uses must not be
            // one that everyone can compute
            let mut ar = gen_archive(cx, 4, 2000);
            let evil = gen_db(cx, PLAIN);
            let mut ks = ar.keystream();
            let xml = crate::refxml::write_db(&evil, &Layout::plain(), Some(&mut ks));
            ar.outer_extra.clear();
            let mut fields = ar.outer_fields();
            let id = if cx.chance(1, 2) { [7u8; 16] } else { [0u8; 16] };
            for x in &mut fields {
                if x.0 == 11 {
                    let mut e = rc::kdf_entries(&ar.kdf, false);
                    e[0].2 = id.to_vec();
                    x.1 = rc::vdict_bytes(&e);
                }
            }
            let mut out = rc::header_bytes(4, ar.minor, &fields);
            let mut plain = rc::inner_header_bytes(&ar.inner_fields());
            plain.extend_from_slice(&xml);
            let packed = match ar.gzip {
                Some(s) => rc::gzip(&plain, s, &ar.gzip_lens),
                None => plain,
            };
            // keys from the seed and no (or an all zero) transformed key
            let t: Vec<u8> = if cx.chance(2, 3) { Vec::new() } else { vec![0; 32] };
            let ck = rc::sha256(&[&ar.seed, &t]);
            let hk = rc::sha512(&[&ar.seed, &t, &[1]]);
            let enc = rc::encrypt(ar.cipher, &ck, &ar.iv, &packed);
            let sha = rc::sha256(&[&out]);
            let mac = rc::hmac256(&rc::block_key(&hk, u64::MAX), &[&out]);
            out.extend_from_slice(&sha);
            out.extend_from_slice(&mac);
            out.extend_from_slice(&rc::hmac_blocks(&hk, &enc, &ar.block_lens));
            Some((out, "forged with unknown key derivation"))
        }
        _ => {
            // header and its codes of A, content encrypted under keys anyone can compute
            let hk = [0u8; 64];
            let mut o = head.to_vec();
            let seed = cx.seed();
            o.extend_from_slice(&rc::hmac_blocks(&hk, &Prng::new(seed).bytes(64), &[]));
            Some((o, "forged blocks"))
        }
    }
}

/// Authentication codes that need no key: blanks, plain hashes, codes under a blank key.
fn forge(cx: &Cx, d: &mut [u8]) -> bool {
    let Ok((_, _, _, hl)) = rc::parse_header(d) else { return false };
    if d.len() < hl + 64 {
        return false;
    }
    let header = d[..hl].to_vec();
    let mut places = Vec::new();
    let spans = rc::block_spans(d);
    let what = cx.weighted(&[3, 2, 2]);
    if what != 1 {
        places.push((hl + 32, header, u64::MAX));
    }
    if what == 1 {
        if let Some(i) = Some(cx.usize(spans.len().max(1))).filter(|i| *i < spans.len()) {
            places.push((spans[i].0, d[spans[i].0 + 32..spans[i].1].to_vec(), i as u64));
        }
    }
    if what == 2 {
        for (i, (s, e)) in spans.iter().enumerate() {
            places.push((*s, d[s + 32..*e].to_vec(), i as u64));
        }
    }
    let value = cx.below(5);
    for (at, data, n) in places {
        let code: Vec<u8> = match value {
            0 => vec![0; 32],
            1 => vec![0xff; 32],
            2 => rc::sha256(&[&data]).to_vec(),
            3 => {
                let mut m = n.to_le_bytes().to_vec();
                m.extend_from_slice(&data);
                let m = if n == u64::MAX { data.clone() } else { m };
                rc::hmac256(&rc::block_key(&[0; 64], n), &[&m]).to_vec()
            }
            _ => rc::hmac256(&[0; 64], &[&data]).to_vec(),
        };
        d[at..at + 32].copy_from_slice(&code);
    }
    true
}

/// Two archives under the same key: successive saves of the library, or archives of another client.
fn subjects(cx: &Cx, creds: &rc::Creds) -> R<Option<(Known, Known)>> {
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(None);
    }
    // sometimes more data than one block of the library holds
    let large = cx.chance(1, 60);
    if large {
        let n = cx.range(1 << 20, 5 << 19) as usize;
        add_bulk(cx, &mut db, n);
        cx.count("probe.large_archive");
    }
    if cx.chance(1, 2) {
        let mut s = gen_settings(cx);
        if large {
            s.cipher = if cx.chance(3, 4) { rc::RCipher::ChaCha20 } else { rc::RCipher::Aes256 };
            s.gzip = cx.chance(1, 6);
        }
        let mut k = make(&db, &s, creds)?;
        let a = save_ok(cx, &k)?;
        let da = db.clone();
        if cx.chance(1, 2) {
            k = reopen_expect("save", &a, creds, &db)?;
        }
        for _ in 0..cx.range(1, 3) {
            edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
        }
        if !representable(&db) {
            return Ok(None);
        }
        let b = save_ok(cx, &k)?;
        let (a, b) = (Known::new(a, da), Known::new(b, db));
        Ok(a.zip(b))
    } else {
        if cx.chance(1, 2) {
            let n = cx.range(100, 3000) as usize;
            add_bulk(cx, &mut db, n);
        }
        let mut ar = gen_archive(cx, 4, 3000);
        if large {
            ar.block_lens = vec![cx.pick(&[1usize << 20, 1 << 16, (1 << 20) + 1, 1 << 21, 1 << 24])];
            ar.cipher = if cx.chance(3, 4) { rc::RCipher::ChaCha20 } else { rc::RCipher::Aes256 };
            ar.iv = Prng::new(cx.seed()).bytes(ar.cipher.iv_len());
            if cx.chance(5, 6) {
                ar.gzip = None;
            }
        }
        if ar.block_lens.is_empty() && cx.chance(2, 3) {
            ar.block_lens = vec![cx.range(16, 400) as usize; 12];
        }
        let mut l = Layout::plain();
        let (a, _) = foreign(cx, &ar, &db, &mut l, creds);
        let mut db2 = db.clone();
        db2.name.push_str(" two");
        // another archive of the same client: fresh seed, same length
        let mut p = Prng::new(cx.seed() + 1);
        ar.seed = p.bytes(32);
        ar.iv = p.bytes(ar.iv.len());
        ar.inner_key = p.bytes(ar.inner_key.len());
        let (b, _) = foreign(cx, &ar, &db2, &mut l, creds);
        Ok(Known::new(a, db).zip(Known::new(b, db2)))
    }
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let Some((a, b)) = subjects(cx, &creds)? else { return Ok(()) };
    cx.sig(a.spans.len().min(30) as u64);
    cx.sample(format!("{} blocks, {} bytes, {}", a.spans.len(), a.bytes.len(), a.db.summary()));
    let most = if a.bytes.len() > 500_000 { 4 } else { 8 };
    for _ in 0..cx.range(1, most) {
        let (x, y) = if cx.chance(1, 3) { (&b, &a) } else { (&a, &b) };
        let Some((mut bytes, kind)) = attack(cx, x, y) else { continue };
        if cx.chance(1, 4) && forge(cx, &mut bytes) {
            cx.count("fault.forged_codes");
        }
        cx.count(&format!("fault.{}", kind.replace(' ', "_")));
        cx.ev(format!("{kind}: {} bytes", bytes.len()));
        match open_unlock(&bytes, &creds)? {
            Err(e) => {
                cx.sig_str(&kind_of(&e));
            }
            Ok(k) => {
                let got = content(&k)?;
                let carried = |w: &Known| bytes.len() >= w.hl && bytes[..w.hl] == w.bytes[..w.hl];
                let ok = [&a, &b].iter().any(|w| carried(w) && diff_db(&w.db, &got).is_none());
                if !ok {
                    return crate::ctx::viol(
                        format!("altered archive accepted: {kind}"),
                        format!("an altered archive ({kind}) was accepted and yields a database that its header does not belong to"),
                    );
                }
                cx.count("probe.harmless_alteration");
                cx.sig(99);
            }
        }
        cx.sig_str(kind);
    }
    Ok(())
}
