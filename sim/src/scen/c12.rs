//! C12: changes of key and settings.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::edit;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Unlocked, VariantDict, VariantDictValue};
use kdbx_rs::Kdbx;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C12",
        run,
        quick: 30000,
        thorough: 400000,
        rule: "distinct (origin, sequence of key changes, settings changes, saves, failures and reopens, outcomes) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "credentials the format itself defines as equal (the same composite key) count as one key",
            "key derivation costs up to 25 KiB and 3 passes, or beyond what the parameters of the algorithm allow",
        ],
    }
}

/// The settings as the library states them.
#[derive(Clone, Debug, PartialEq)]
struct InForce {
    cipher: Cipher,
    comp: CompressionType,
    kdf: KdfParams,
    inner: InnerStreamCipherAlgorithm,
    /// None when some setting cannot be honoured
    bad: [Option<&'static str>; 4],
}
impl InForce {
    fn of(k: &Kdbx<Unlocked>) -> InForce {
        let h = k.header();
        InForce {
            cipher: h.cipher,
            comp: h.compression_type,
            kdf: h.kdf_params.clone(),
            inner: k.inner_header().inner_stream_cipher,
            bad: [None; 4],
        }
    }
    fn unsupported(&self) -> Option<&'static str> {
        self.bad.iter().flatten().next().copied()
    }
    fn put(&self, k: &mut Kdbx<Unlocked>) {
        let h = k.header_mut();
        h.cipher = self.cipher;
        h.compression_type = self.comp;
        h.kdf_params = self.kdf.clone();
        k.inner_header_mut().inner_stream_cipher = self.inner;
    }
}

/// The same key derivation with one option changed.
fn one_option(cx: &Cx, k: &KdfParams) -> KdfParams {
    let mut k = k.clone();
    match &mut k {
        KdfParams::Aes { rounds, salt } => match cx.below(3) {
            0 => *rounds = (*rounds + 1) % 1000,
            1 if !salt.is_empty() => {
                let i = cx.usize(salt.len());
                salt[i] ^= 1 << cx.below(8);
            }
            _ => *rounds ^= 1,
        },
        KdfParams::Argon2 {
            variant,
            memory_bytes,
            version,
            salt,
            lanes,
            iterations,
        } => match cx.below(6) {
            0 => *iterations = *iterations % 3 + 1,
            1 => *memory_bytes += 1024,
            2 => *version = if *version == 0x13 { 0x10 } else { 0x13 },
            3 if !salt.is_empty() => {
                let i = cx.usize(salt.len());
                salt[i] ^= 1 << cx.below(8);
            }
            4 if *lanes > 1 => *lanes -= 1,
            _ => {
                *variant = match variant {
                    argon2::Variant::Argon2d => argon2::Variant::Argon2id,
                    _ => argon2::Variant::Argon2d,
                }
            }
        },
        KdfParams::Unknown { .. } => {}
    }
    k
}

fn bad_kdf(cx: &Cx) -> (KdfParams, &'static str) {
    let salt = Prng::new(cx.seed()).bytes(32);
    let argon = |variant, mem: u64, version, salt: Vec<u8>, lanes, iterations| KdfParams::Argon2 {
        variant,
        memory_bytes: mem,
        version,
        salt,
        lanes,
        iterations,
    };
    let d = argon2::Variant::Argon2d;
    match cx.below(10) {
        0 => {
            let mut params = VariantDict::new();
            if cx.chance(1, 2) {
                params.insert("X".into(), VariantDictValue::Uint32(5));
            }
            (
                KdfParams::Unknown {
                    uuid: uuid::Uuid::from_bytes([9; 16]),
                    params,
                },
                "unknown key derivation",
            )
        }
        1 => {
            let n = cx.pick(&[0usize, 1, 16, 31, 33, 64]);
            (
                KdfParams::Aes {
                    rounds: 2,
                    salt: Prng::new(3).bytes(n),
                },
                "AES salt of a wrong size",
            )
        }
        2 => (argon(argon2::Variant::Argon2i, 8192, 0x13, salt, 1, 1), "Argon2i"),
        3 => (argon(d, 8192, 0x13, salt, 0, 1), "no lanes"),
        4 => (argon(d, cx.pick(&[0u64, 1, 1023, 7 * 1024, 8191]), 0x13, salt, 1, 1), "too little memory"),
        5 => (argon(d, 8192, cx.pick(&[0u32, 0x12, 0x14, 99]), salt, 1, 1), "unknown Argon2 version"),
        6 => (argon(d, 8192, 0x13, salt, 1, 0), "no passes"),
        7 => {
            let m = cx.pick(&[1u64 << 42, (1 << 42) + 8192, u64::MAX, u64::MAX - 1023]);
            (argon(d, m, 0x13, salt, 1, 1), "more memory than Argon2 can use")
        }
        8 => {
            let i = cx.pick(&[1u64 << 32, (1 << 32) + 1, u64::MAX]);
            (argon(d, 8192, 0x13, salt, 1, i), "more passes than Argon2 can make")
        }
        _ => {
            let n = cx.below(8) as usize;
            (argon(d, 8192, 0x13, Prng::new(3).bytes(n), 1, 1), "Argon2 salt too short")
        }
    }
}

fn change(cx: &Cx, s: &mut InForce) {
    for _ in 0..cx.range(1, 3) {
        let bad = cx.chance(1, 5);
        let what = cx.below(4);
        cx.sig(what * 2 + bad as u64);
        match (what, bad) {
            (0, false) => {
                s.cipher = l_cipher(cx.pick(&[rc::RCipher::Aes256, rc::RCipher::TwoFish, rc::RCipher::ChaCha20]));
                s.bad[0] = None;
            }
            (0, true) => {
                s.cipher = if cx.chance(1, 2) { Cipher::Aes128 } else { Cipher::Unknown(uuid::Uuid::from_bytes([7; 16])) };
                s.bad[0] = Some("cipher");
            }
            (1, false) => {
                s.comp = l_gzip(cx.chance(1, 2));
                s.bad[1] = None;
            }
            (1, true) => {
                s.comp = CompressionType::Unknown(cx.pick(&[2u32, 3, 255, u32::MAX]));
                s.bad[1] = Some("compression");
            }
            (2, false) => {
                s.kdf = match s.bad[2].is_none() && cx.chance(1, 2) {
                    true => one_option(cx, &s.kdf),
                    false => l_kdf(&gen_kdf(cx)),
                };
                s.bad[2] = None;
            }
            (2, true) => {
                let (k, w) = bad_kdf(cx);
                s.kdf = k;
                s.bad[2] = Some(w);
            }
            (_, false) => {
                s.inner = l_inner(cx.pick(&[rc::RInner::ChaCha20, rc::RInner::Salsa20]));
                s.bad[3] = None;
            }
            (_, true) => {
                s.inner = if cx.chance(1, 2) { InnerStreamCipherAlgorithm::ArcFour } else { InnerStreamCipherAlgorithm::Unknown(cx.pick(&[0u32, 4, 77])) };
                s.bad[3] = Some("inner stream cipher");
            }
        }
    }
    cx.ev(format!("settings {:?} {:?} {:?} {:?}", s.cipher, s.comp, s.inner, s.bad));
}

/// Everything known about a stored archive.
#[derive(Clone)]
struct Saved {
    bytes: Vec<u8>,
    db: MDb,
    key: rc::Creds,
    set: InForce,
}

/// A save that reported success.
fn check_saved(cx: &Cx, s: &Saved, earlier: &[rc::Creds]) -> R {
    let k = reopen_expect("save with the last key", &s.bytes, &s.key, &s.db)?;
    let mut got = InForce::of(&k);
    got.bad = s.set.bad;
    ensure!(
        got == s.set,
        "header states other settings",
        "settings in force {:?}, saved archive states {:?}",
        s.set,
        got
    );
    if s.set.unsupported().is_none() {
        match rc::open4(&s.bytes, &s.key) {
            Err(e) => return viol("save rejected by another client", format!("settings {:?}: {e}", s.set)),
            Ok(o) => {
                let f = (l_cipher(o.cipher), l_gzip(o.gzip), l_kdf(&o.kdf), l_inner(o.inner));
                let w = (s.set.cipher, s.set.comp, s.set.kdf.clone(), s.set.inner);
                ensure!(f == w, "header states other settings", "settings in force {w:?}, stored {f:?}");
            }
        }
    }
    // an earlier key, and some other key
    let mut wrong = vec![gen_wrong(cx, &s.key)];
    if !earlier.is_empty() {
        wrong.push(earlier[cx.usize(earlier.len())].clone());
        wrong.push(earlier[earlier.len() - 1].clone());
    }
    for w in wrong {
        if equivalent(&w, &s.key) {
            continue;
        }
        cx.count("fault.wrong_credentials");
        if open_unlock(&s.bytes, &w)?.is_ok() {
            return viol("save opens with another key", "the save opens with a key other than the last one set");
        }
    }
    Ok(())
}

fn run(cx: &Cx) -> R {
    let origin = cx.weighted(&[5, 3, 1]);
    cx.sig(origin as u64);
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    let v3 = origin == 2;
    let mut key: Option<rc::Creds> = None;
    let mut k = if origin == 0 {
        let mut k = lib("creating an archive", || Kdbx::from_database(l_db(&db)))?;
        // the default key derivation takes 64 MiB
        k.header_mut().kdf_params = l_kdf(&gen_kdf(cx));
        k
    } else {
        let creds = gen_creds(cx);
        let major = if v3 { 3 } else { 4 };
        let a = gen_archive(cx, major, 3000);
        let mut l = Layout::plain();
        l.iso_dates = v3;
        let (bytes, _) = foreign(cx, &a, &db, &mut l, &creds);
        key = Some(creds.clone());
        reopen_expect("archive of another client", &bytes, &creds, &db)?
    };
    let mut set = InForce::of(&k);
    let mut earlier: Vec<rc::Creds> = Vec::new();
    let mut last: Option<Saved> = None;
    let n = cx.range(2, 12);
    cx.sample(format!("origin {origin}, {n} steps, {}", db.summary()));
    for _ in 0..n {
        let op = cx.weighted(&[4, 4, 6, 2, 2, 1]);
        cx.sig(op as u64);
        match op {
            0 => {
                let c = match (&key, cx.below(4)) {
                    (Some(k), 0) => gen_wrong(cx, k),
                    _ => gen_creds(cx),
                };
                let r = lib("set_key", || k.set_key(ckey(&c)))?;
                cx.ev(format!("set_key: {}", r.is_ok()));
                cx.sig(r.is_ok() as u64);
                match r {
                    Ok(()) => {
                        if let Some(o) = key.replace(c) {
                            earlier.push(o);
                        }
                    }
                    Err(e) => {
                        cx.count("fault.set_key_refused");
                        ensure!(
                            set.bad[2].is_some(),
                            "set_key failed",
                            "set_key failed with supported key derivation settings: {e}"
                        );
                    }
                }
            }
            1 => {
                change(cx, &mut set);
                set.put(&mut k);
                if cx.chance(1, 8) {
                    let n = cx.pick(&[0usize, 1, 31, 32, 33, 44, 64, 65, 200]);
                    k.inner_header_mut().inner_stream_key = Prng::new(cx.seed()).bytes(n);
                }
            }
            2 => {
                let frag = if cx.chance(1, 4) { Frag::choose(cx) } else { Frag::none() };
                let (r, st) = save_to(cx, &k, frag, OutFault::None)?;
                let st = st.lock().unwrap();
                let bad = if v3 {
                    Some("format version 3")
                } else if key.is_none() {
                    Some("no key set")
                } else {
                    set.unsupported()
                };
                cx.sig(r.is_ok() as u64);
                match (r, bad) {
                    (Err(e), None) => return viol("save failed", format!("saving with settings {set:?} failed: {e}")),
                    (Err(_), Some(why)) => {
                        cx.count("fault.unsupported_settings");
                        cx.sig_str(why);
                        ensure!(
                            st.accepted.is_empty(),
                            "refused save wrote something",
                            "a save refused because of {why} wrote {} bytes",
                            st.accepted.len()
                        );
                    }
                    (Ok(()), _) => {
                        let Some(c) = &key else {
                            return viol("saved without a key", "a save succeeded although no key was set");
                        };
                        let s = Saved {
                            bytes: st.accepted.clone(),
                            db: db.clone(),
                            key: c.clone(),
                            set: set.clone(),
                        };
                        check_saved(cx, &s, &earlier)?;
                        cx.count("probe.saves_checked");
                        cx.nontrivial();
                        last = Some(s);
                    }
                }
                ensure!(
                    InForce { bad: set.bad, ..InForce::of(&k) } == set,
                    "settings changed by a save",
                    "in force {set:?}, after the save {:?}",
                    InForce::of(&k)
                );
            }
            3 => {
                // a save that fails on its way
                let len = last.as_ref().map_or(2000, |s| s.bytes.len());
                let fault = super::c09::gen_fault(cx, len);
                let (r, st) = save_to(cx, &k, Frag::choose(cx), fault)?;
                let st = st.lock().unwrap();
                if r.is_ok() {
                    let Some(c) = &key else {
                        return viol("saved without a key", "a save succeeded although no key was set");
                    };
                    let s = Saved {
                        bytes: st.accepted.clone(),
                        db: db.clone(),
                        key: c.clone(),
                        set: set.clone(),
                    };
                    check_saved(cx, &s, &earlier)?;
                    last = Some(s);
                }
            }
            4 => {
                if let Some(s) = &last {
                    k = reopen_expect("reopened save", &s.bytes, &s.key, &s.db)?;
                    db = s.db.clone();
                    set = s.set.clone();
                    if let Some(o) = key.replace(s.key.clone()) {
                        earlier.push(o);
                    }
                }
            }
            _ => {
                edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
            }
        }
    }
    expect_content("memory", &k, &db)
}
