//! Glue between the scenarios and the library: settings, credentials, saving and opening.

use crate::choice::Prng;
use crate::ctx::*;
use crate::interpose;
use crate::model::*;
use crate::refcodec::{self as rc, Archive, Creds, RCipher, RInner, RKdf};
use crate::refxml::{self, Layout};
use crate::simio::*;
use kdbx_rs::binary::{
    Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Locked, Unlocked,
};
use kdbx_rs::{CompositeKey, Kdbx};
use std::sync::{Arc, Mutex};

pub type OpenErr = kdbx_rs::errors::OpenError;
pub type UnlockErr = kdbx_rs::errors::UnlockError;
pub type WriteErr = kdbx_rs::errors::WriteError;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Settings {
    pub cipher: RCipher,
    pub gzip: bool,
    pub kdf: RKdf,
    pub inner: RInner,
}

pub fn gen_kdf(cx: &Cx) -> RKdf {
    let salt = Prng::new(cx.seed() + 7).bytes(32);
    if cx.chance(1, 2) {
        let lanes = cx.range(1, 3) as u32;
        let kib = 8 * lanes as u64 + cx.below(9);
        RKdf::Argon2 {
            id: cx.chance(1, 2),
            version: if cx.chance(1, 4) { 0x10 } else { 0x13 },
            mem: kib * 1024,
            iters: cx.range(1, 3),
            lanes,
            salt: if cx.chance(1, 4) {
                let n = cx.range(8, 64) as usize;
                Prng::new(cx.seed()).bytes(n)
            } else {
                salt
            },
        }
    } else {
        RKdf::Aes {
            rounds: cx.magnitude(100),
            salt,
        }
    }
}
pub fn gen_settings(cx: &Cx) -> Settings {
    let cipher = cx.pick(&[RCipher::Aes256, RCipher::TwoFish, RCipher::ChaCha20]);
    let gzip = cx.chance(1, 2);
    let inner = cx.pick(&[RInner::ChaCha20, RInner::Salsa20]);
    let kdf = gen_kdf(cx);
    let s = Settings {
        cipher,
        gzip,
        kdf,
        inner,
    };
    sig_settings(cx, &s);
    s
}
pub fn sig_settings(cx: &Cx, s: &Settings) {
    cx.sig(s.cipher as u64 * 16 + s.gzip as u64 * 8 + s.inner as u64 * 4 + matches!(s.kdf, RKdf::Aes { .. }) as u64);
}
pub fn gen_creds(cx: &Cx) -> Creds {
    let shape = cx.weighted(&[5, 2, 2, 1]);
    let pw = if shape == 1 {
        None
    } else {
        Some(match cx.weighted(&[4, 1, 2, 1]) {
            0 => format!("password{}", cx.below(1000)),
            1 => String::new(),
            2 => gen_text(
                cx,
                TextOpts {
                    illegal: true,
                    ..PLAIN
                },
            ),
            _ => {
                let n = if cx.chance(1, 6) { cx.range(300, 9000) } else { cx.range(60, 300) };
                let n = n as usize;
                bulk_text(cx.seed(), n)
            }
        })
    };
    let keyfile = if shape == 1 || shape == 2 {
        Some(match cx.weighted(&[4, 1, 2, 1]) {
            0 => Prng::new(cx.seed() + 3).bytes(32),
            1 => Vec::new(),
            2 => Prng::new(cx.seed() + 3).bytes(64),
            _ => {
                let most = if cx.chance(1, 12) { 3 << 20 } else { 3000 };
                let n = cx.magnitude(most) as usize;
                Prng::new(cx.seed() + 3).bytes(n)
            }
        })
    } else {
        None
    };
    Creds { pw, keyfile }
}
pub fn ckey(c: &Creds) -> CompositeKey {
    match &c.pw {
        Some(pw) if c.keyfile.is_none() && pw.len() % 2 == 1 => CompositeKey::from_password(pw),
        _ => CompositeKey::new(c.pw.clone(), c.keyfile.clone()),
    }
}
pub fn l_cipher(c: RCipher) -> Cipher {
    match c {
        RCipher::Aes256 => Cipher::Aes256,
        RCipher::TwoFish => Cipher::TwoFish,
        RCipher::ChaCha20 => Cipher::ChaCha20,
    }
}
pub fn l_gzip(g: bool) -> CompressionType {
    if g {
        CompressionType::Gzip
    } else {
        CompressionType::None
    }
}
pub fn l_inner(i: RInner) -> InnerStreamCipherAlgorithm {
    match i {
        RInner::Salsa20 => InnerStreamCipherAlgorithm::Salsa20,
        RInner::ChaCha20 => InnerStreamCipherAlgorithm::ChaCha20,
    }
}
pub fn l_kdf(k: &RKdf) -> KdfParams {
    match k {
        RKdf::Aes { rounds, salt } => KdfParams::Aes {
            rounds: *rounds,
            salt: salt.clone(),
        },
        RKdf::Argon2 { id, version, mem, iters, lanes, salt } => KdfParams::Argon2 {
            variant: if *id {
                argon2::Variant::Argon2id
            } else {
                argon2::Variant::Argon2d
            },
            memory_bytes: *mem,
            version: *version,
            salt: salt.clone(),
            lanes: *lanes,
            iterations: *iters,
        },
    }
}
pub fn apply(k: &mut Kdbx<Unlocked>, s: &Settings) {
    let h = k.header_mut();
    h.cipher = l_cipher(s.cipher);
    h.compression_type = l_gzip(s.gzip);
    h.kdf_params = l_kdf(&s.kdf);
    k.inner_header_mut().inner_stream_cipher = l_inner(s.inner);
}
/// A new unlocked archive holding `db`.
pub fn make(db: &MDb, s: &Settings, creds: &Creds) -> R<Kdbx<Unlocked>> {
    let mut k = lib("creating an archive", || Kdbx::from_database(l_db(db)))?;
    apply(&mut k, s);
    set_key(&mut k, creds)?;
    Ok(k)
}
pub fn set_key(k: &mut Kdbx<Unlocked>, creds: &Creds) -> R {
    match lib("set_key", || k.set_key(ckey(creds)))? {
        Ok(()) => Ok(()),
        Err(e) => viol("set_key failed", format!("set_key failed: {e}")),
    }
}
/// Save to a perfect output.
pub fn save(cx: &Cx, k: &Kdbx<Unlocked>) -> R<Result<Vec<u8>, WriteErr>> {
    save_to(cx, k, Frag::none(), OutFault::None).map(|(r, st)| {
        r.map(|_| std::mem::take(&mut st.lock().unwrap().accepted))
    })
}
pub type SinkState = Arc<Mutex<OutState>>;
pub fn save_to(
    cx: &Cx,
    k: &Kdbx<Unlocked>,
    frag: Frag,
    fault: OutFault,
) -> R<(Result<(), WriteErr>, SinkState)> {
    let (sink, st) = SimSink::new(cx, frag, fault);
    let r = lib("saving", || k.write(sink))?;
    cx.ev(format!("save: {}", kind_write(&r)));
    Ok((r, st))
}
pub fn save_ok(cx: &Cx, k: &Kdbx<Unlocked>) -> R<Vec<u8>> {
    match save(cx, k)? {
        Ok(b) => Ok(b),
        Err(e) => viol("save failed", format!("saving to a working output failed: {e}")),
    }
}
pub fn open_bytes(bytes: &[u8]) -> R<Result<Kdbx<Locked>, OpenErr>> {
    lib("opening", || kdbx_rs::from_reader(bytes))
}
pub fn unlock(l: Kdbx<Locked>, c: &Creds) -> R<Result<Kdbx<Unlocked>, (Kdbx<Locked>, UnlockErr)>> {
    let key = ckey(c);
    lib("unlocking", || {
        l.unlock(&key).map_err(|f| (f.0, f.1))
    })
}
/// Open and unlock; the outer Result is a violation, the inner one an ordinary failure.
pub fn open_unlock(bytes: &[u8], c: &Creds) -> R<Result<Kdbx<Unlocked>, String>> {
    match open_bytes(bytes)? {
        Err(e) => Ok(Err(format!("open: {e:?}"))),
        Ok(l) => Ok(unlock(l, c)?.map_err(|(_, e)| format!("unlock: {e:?}"))),
    }
}
/// Content of an unlocked archive; the accessors are library code.
pub fn content(k: &Kdbx<Unlocked>) -> R<MDb> {
    lib("reading the database", || {
        let _g = interpose::harness();
        m_db(k.database())
    })
}
pub fn expect_content(class: &str, k: &Kdbx<Unlocked>, want: &MDb) -> R {
    let got = content(k)?;
    if let Some(d) = diff_db(want, &got) {
        return viol(
            format!("{class}: {} differs", diff_kind(&d)),
            format!("{class}: expected vs found: {d}"),
        );
    }
    Ok(())
}
pub fn reopen_expect(class: &str, bytes: &[u8], c: &Creds, want: &MDb) -> R<Kdbx<Unlocked>> {
    match open_unlock(bytes, c)? {
        Err(e) => viol(
            format!("{class}: cannot be opened"),
            format!("{class}: cannot be opened: {}", e.chars().take(300).collect::<String>()),
        ),
        Ok(k) => {
            expect_content(class, &k, want)?;
            Ok(k)
        }
    }
}

// ---- error kinds ------------------------------------------------------------------------------

/// Name of the outermost variants of an error, without payload details.
pub fn kind_of(dbg: &str) -> String {
    // Variant(Variant2(Custom { kind: X, ..: "Io", "InvalidHeader(Io" and the io kind
    let mut out = String::new();
    let mut word = String::new();
    let mut n = 0;
    for c in dbg.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            if !word.is_empty() {
                out.push_str(&word);
                out.push(' ');
                word.clear();
                n += 1;
            }
            if n >= 4 || c == '"' || c == '[' {
                break;
            }
        }
    }
    out.push_str(&word);
    out.trim().to_string()
}
pub fn kind_write(r: &Result<(), WriteErr>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => kind_of(&format!("{e:?}")),
    }
}

// ---- what the format can represent ------------------------------------------------------------

pub fn xml_legal(s: &str) -> bool {
    s.chars().all(|c| {
        matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
    })
}
/// Whether saving must succeed.
pub fn representable(db: &MDb) -> bool {
    texts_legal(db) && depth(&db.root) <= 128 && hist_depth(&db.root) <= 128
}
/// Whether every unprotected text is expressible in XML and every key is non-empty.
pub fn texts_legal(db: &MDb) -> bool {
    fn fld(f: &MField) -> bool {
        !f.key.is_empty() && xml_legal(&f.key) && (f.protected || xml_legal(&f.value))
    }
    fn names(g: &MGroup) -> bool {
        xml_legal(&g.name) && g.groups.iter().all(names)
    }
    let mut ok = xml_legal(&db.name) && xml_legal(&db.desc) && names(&db.root);
    ok &= db.custom.iter().all(fld);
    db.root.for_fields(&mut |f| ok &= fld(f));
    ok
}

// ---- archives of other clients ----------------------------------------------------------------

pub fn gen_block_lens(cx: &Cx, total_hint: usize) -> Vec<usize> {
    match cx.weighted(&[3, 2, 2, 1]) {
        0 => Vec::new(),
        // equal blocks
        1 => {
            let n = cx.pick(&[1usize, 15, 16, 17, 64, 100, 1000, 4096]);
            // sometimes more than 65536 blocks
            let most = if total_hint > 70_000 && cx.chance(1, 4) { 70_000 } else { 400 };
            let count = (total_hint / n + 2).min(most);
            vec![n; count]
        }
        // random blocks
        2 => {
            let mut p = Prng::new(cx.seed());
            (0..cx.range(1, 30))
                .map(|_| 1 + p.below(600) as usize)
                .collect()
        }
        _ => vec![1 << 20; 4],
    }
}

pub fn gen_extra(cx: &Cx, ids: &[u8], max: u64, marker: u64) -> Vec<(u8, Vec<u8>)> {
    let mut v: Vec<(u8, Vec<u8>)> = Vec::new();
    let many = cx.chance(1, 60);
    let n = if many { cx.pick(&[20usize, 127, 128, 255, 256, 257, 300]) } else { cx.weighted(&[4, 2, 2, 1]) };
    for i in 0..n {
        if many && i > 6 {
            // told from others by its number, no further choices
            v.push((ids[(i * 7) % ids.len()], (i as u64).to_le_bytes()[..1 + i % 8].to_vec()));
            continue;
        }
        if let (Some(last), true) = (v.last().cloned(), cx.chance(1, 6)) {
            // the same once more
            v.push(last);
            continue;
        }
        let id = cx.pick(ids);
        let len = match cx.weighted(&[3, 1, 2]) {
            0 => cx.range(1, 40) as usize,
            1 => 0,
            _ => cx.magnitude(max) as usize,
        };
        v.push((id, Prng::new(cx.seed() + marker).bytes(len)));
    }
    v
}

/// Dictionary entries of every type.
pub fn gen_ventries(cx: &Cx, n: u64, name: &str) -> Vec<rc::VEntry> {
    (0..n)
        .map(|i| {
            let k = format!("{name}{i}").into_bytes();
            let x = cx.seed().wrapping_mul(0x9E37_79B9_7F4A_7C15);
            match cx.below(7) {
                0 => (0x18, k, cx.pick(&["some text", "", "Ünï"]).as_bytes().to_vec()),
                1 => (0x05, k, x.to_le_bytes().to_vec()),
                2 => (0x08, k, vec![x as u8 & 1]),
                3 => (0x0C, k, (x as i32).to_le_bytes().to_vec()),
                4 => (0x0D, k, (x as i64).to_le_bytes().to_vec()),
                5 => (0x04, k, (x as u32).to_le_bytes().to_vec()),
                _ => (0x42, k, Prng::new(x).bytes(cx.magnitude(300) as usize)),
            }
        })
        .collect()
}
/// A plausible public custom data dictionary.
pub fn gen_public_custom(cx: &Cx) -> Vec<u8> {
    let n = cx.below(4);
    rc::vdict_bytes(&gen_ventries(cx, n, "plugin"))
}

/// Free choices of another client for one archive.
pub fn gen_archive(cx: &Cx, major: u16, size_hint: usize) -> Archive {
    let v4 = major >= 4;
    let cipher = cx.pick(&[RCipher::Aes256, RCipher::ChaCha20, RCipher::TwoFish]);
    let gzip = if cx.chance(1, 2) {
        Some(cx.below(4))
    } else {
        None
    };
    let inner = if v4 {
        cx.pick(&[RInner::ChaCha20, RInner::Salsa20])
    } else {
        cx.pick(&[RInner::Salsa20, RInner::ChaCha20])
    };
    let kdf = if v4 {
        gen_kdf(cx)
    } else {
        RKdf::Aes {
            rounds: cx.magnitude(100),
            salt: Prng::new(cx.seed() + 9).bytes(32),
        }
    };
    let mut p = Prng::new(cx.seed() + 11);
    let mut outer_extra = if v4 {
        gen_extra(cx, &[13, 14, 42, 200, 255, 1, 12], 3000, 5)
    } else {
        gen_extra(cx, &[1, 42, 200, 255], 2000, 5)
    };
    // a comment may occur once, public custom data holds a dictionary
    for (id, d) in &mut outer_extra {
        if *id == 12 {
            *d = gen_public_custom(cx);
        }
    }
    let inner_extra = if v4 {
        gen_extra(cx, &[3, 3, 3, 4, 77, 255], 5000, 6)
    } else {
        Vec::new()
    };
    let key_len = match (inner, cx.chance(1, 4)) {
        (RInner::Salsa20, false) => 32,
        (RInner::ChaCha20, false) => 64,
        _ => cx.range(1, 100) as usize,
    };
    let a = Archive {
        major,
        minor: if v4 {
            cx.pick(&[0u16, 1, 0, 2])
        } else {
            cx.pick(&[1u16, 0])
        },
        cipher,
        gzip,
        gzip_lens: if gzip == Some(2) {
            gen_block_lens(cx, size_hint)
        } else {
            Vec::new()
        },
        kdf,
        aes31: cx.chance(1, 3),
        inner,
        seed: p.bytes(32),
        iv: p.bytes(cipher.iv_len()),
        inner_key: p.bytes(key_len),
        start_bytes: p.bytes(32),
        outer_extra,
        inner_extra,
        outer_order: if cx.chance(1, 2) { cx.seed() } else { 0 },
        vdict_order: if cx.chance(1, 2) { cx.seed() } else { 0 },
        vdict_extra: if v4 && cx.chance(1, 5) {
            let n = cx.range(1, 5);
            gen_ventries(cx, n, "x")
        } else {
            Vec::new()
        },
        inner_order: if cx.chance(1, 2) { cx.seed() } else { 0 },
        end_data: if cx.chance(1, 2) {
            vec![0x0d, 0x0a, 0x0d, 0x0a]
        } else {
            Vec::new()
        },
        block_lens: gen_block_lens(cx, size_hint),
    };
    cx.sig(major as u64 * 64 + cipher as u64 * 16 + a.gzip.map_or(0, |g| g + 1) * 2 + inner as u64);
    cx.sig(a.block_lens.len().min(40) as u64);
    a
}
/// Document and archive of another client; `header_hash` as KDBX 3 clients store it.
pub fn foreign(cx: &Cx, a: &Archive, db: &MDb, l: &mut Layout, creds: &Creds) -> (Vec<u8>, Vec<u8>) {
    if a.major < 4 && l.header_hash.is_none() && cx.chance(3, 4) {
        l.header_hash = Some(b64(&rc::sha256(&[&a.header()])));
    }
    let mut ks = a.keystream();
    let xml = refxml::write_db(db, l, Some(&mut ks));
    let bytes = a.encode(creds, &xml);
    cx.ev_data("foreign archive", &bytes);
    (bytes, xml)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    use base64::prelude::{Engine, BASE64_STANDARD};
    BASE64_STANDARD.decode(s).ok()
}
pub fn b64(d: &[u8]) -> String {
    use base64::prelude::{Engine, BASE64_STANDARD};
    BASE64_STANDARD.encode(d)
}
/// Compare the settings another client stored with what the header says.
pub fn expect_header(class: &str, h: &kdbx_rs::binary::KdbxHeader, a: &Archive) -> R {
    let bad = |what: &str, m: String| viol(format!("{class}: header {what} differs"), m);
    if h.cipher != l_cipher(a.cipher) {
        return bad("cipher", format!("{:?} vs {:?}", a.cipher, h.cipher));
    }
    if h.compression_type != l_gzip(a.gzip.is_some()) {
        return bad("compression", format!("{:?}", h.compression_type));
    }
    if h.kdf_params != l_kdf(&a.kdf) {
        return bad("key derivation", format!("{:?} vs {:?}", a.kdf, h.kdf_params));
    }
    if h.master_seed != a.seed {
        return bad("master seed", String::new());
    }
    if h.encryption_iv != a.iv {
        return bad("IV", String::new());
    }
    Ok(())
}

/// Wrong credentials derived from the right ones. Never equivalent to them.
pub fn gen_wrong(cx: &Cx, c: &Creds) -> Creds {
    let mut w = c.clone();
    match cx.below(16) {
        0 => w.pw = Some(format!("{}x", c.pw.clone().unwrap_or_default())),
        1 => {
            let mut s: Vec<char> = c.pw.clone().unwrap_or_default().chars().collect();
            s.pop();
            w.pw = Some(s.into_iter().collect());
        }
        2 => w.pw = c.pw.as_ref().map(|p| p.to_uppercase()),
        3 => w.pw = None,
        4 => w.keyfile = None,
        5 => {
            w.keyfile = Some(match &c.keyfile {
                Some(k) => {
                    let mut k = k.clone();
                    k.push(0);
                    k
                }
                None => vec![],
            })
        }
        6 => {
            if let Some(k) = &mut w.keyfile {
                if !k.is_empty() {
                    let n = k.len();
                    k[cx.usize(n)] ^= 1 << cx.below(8);
                }
            }
        }
        7 => {
            // swapped parts
            w.pw = c.keyfile.as_ref().map(|k| String::from_utf8_lossy(k).to_string());
            w.keyfile = c.pw.as_ref().map(|p| p.as_bytes().to_vec());
        }
        8 => w.pw = Some(String::new()),
        9 => {
            w = Creds {
                pw: Some("other".into()),
                keyfile: None,
            }
        }
        10 => w.pw = c.pw.as_ref().map(|p| format!(" {p}")),
        11 => {
            // one character
            let mut s: Vec<char> = c.pw.clone().unwrap_or_default().chars().collect();
            if !s.is_empty() {
                let n = s.len();
                let i = if cx.chance(1, 3) { n - 1 } else { cx.usize(n) };
                s[i] = char::from_u32(s[i] as u32 ^ 1 << cx.below(7)).unwrap_or('?');
            }
            w.pw = Some(s.into_iter().collect());
        }
        12 => w.pw = c.pw.as_ref().map(|p| format!("{p} ")),
        13 => {
            // part of a key file
            if let Some(k) = &mut w.keyfile {
                let n = k.len();
                k.truncate(if cx.chance(1, 2) { n.saturating_sub(1) } else { cx.usize(n.max(1)) });
            }
        }
        14 => w.pw = c.pw.as_ref().map(|p| p.repeat(2)),
        _ => {
            // everything in one part
            let mut all = c.pw.clone().unwrap_or_default();
            all.push_str(&String::from_utf8_lossy(c.keyfile.as_deref().unwrap_or(&[])));
            w = Creds {
                pw: Some(all),
                keyfile: None,
            };
        }
    }
    if equivalent(&w, c) {
        w.pw = Some(format!("{}~", c.pw.clone().unwrap_or_default()));
        if equivalent(&w, c) {
            w.keyfile = Some(b"quite another key file".to_vec());
        }
    }
    w
}
/// By the format's definition some different-looking credentials are the same (a lone key file holding the password
/// text).
pub fn equivalent(a: &Creds, b: &Creds) -> bool {
    rc::composite(a) == rc::composite(b)
}
