//! Independent reference implementation of the KDBX 3.1 and 4 containers, written from the published format.
//! Cipher, hash and deflate primitives come from the same crates the library uses and are trusted.

use aes::cipher::block_padding::{NoPadding, Padding, Pkcs7};
use aes::cipher::generic_array::GenericArray;
use aes::cipher::{BlockDecryptMut, BlockEncrypt, BlockEncryptMut, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};
use std::io::{Read, Write};

pub const SIG1: u32 = 0x9AA2_D903;
pub const SIG2: u32 = 0xB54B_FB67;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RCipher {
    Aes256,
    TwoFish,
    ChaCha20,
}
impl RCipher {
    pub fn uuid(self) -> [u8; 16] {
        match self {
            RCipher::Aes256 => hex16("31c1f2e6bf714350be5805216afc5aff"),
            RCipher::TwoFish => hex16("ad68f29f576f4bb9a36ad47af965346c"),
            RCipher::ChaCha20 => hex16("d6038a2b8b6f4cb5a524339a31dbb59a"),
        }
    }
    pub fn iv_len(self) -> usize {
        if self == RCipher::ChaCha20 {
            12
        } else {
            16
        }
    }
    pub fn from_uuid(u: &[u8]) -> Option<RCipher> {
        [RCipher::Aes256, RCipher::TwoFish, RCipher::ChaCha20]
            .into_iter()
            .find(|c| c.uuid() == u)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RInner {
    Salsa20,
    ChaCha20,
}
impl RInner {
    pub fn id(self) -> u32 {
        match self {
            RInner::Salsa20 => 2,
            RInner::ChaCha20 => 3,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RKdf {
    Aes { rounds: u64, salt: Vec<u8> },
    Argon2 { id: bool, version: u32, mem: u64, iters: u64, lanes: u32, salt: Vec<u8> },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Creds {
    pub pw: Option<String>,
    pub keyfile: Option<Vec<u8>>,
}

pub fn hex16(s: &str) -> [u8; 16] {
    let mut o = [0u8; 16];
    for (i, b) in o.iter_mut().enumerate() {
        *b = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    o
}
pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    m.finalize().into_bytes().into()
}

pub fn composite(c: &Creds) -> [u8; 32] {
    let mut buf = Vec::new();
    if let Some(p) = &c.pw {
        buf.extend_from_slice(&sha256(&[p.as_bytes()]));
    }
    if let Some(k) = &c.keyfile {
        buf.extend_from_slice(&sha256(&[k]));
    }
    sha256(&[&buf])
}
pub fn transform(c: &Creds, kdf: &RKdf) -> Result<[u8; 32], String> {
    let comp = composite(c);
    match kdf {
        RKdf::Aes { rounds, salt } => {
            if salt.len() != 32 {
                return Err("AES-KDF seed length".into());
            }
            let k = aes::Aes256::new(GenericArray::from_slice(salt));
            let mut a = *GenericArray::from_slice(&comp[..16]);
            let mut b = *GenericArray::from_slice(&comp[16..]);
            for _ in 0..*rounds {
                k.encrypt_block(&mut a);
                k.encrypt_block(&mut b);
            }
            Ok(sha256(&[&a, &b]))
        }
        RKdf::Argon2 { id, version, mem, iters, lanes, salt } => {
            let cfg = argon2::Config {
                variant: if *id {
                    argon2::Variant::Argon2id
                } else {
                    argon2::Variant::Argon2d
                },
                version: argon2::Version::from_u32(*version).map_err(|e| e.to_string())?,
                lanes: *lanes,
                mem_cost: u32::try_from(mem / 1024).map_err(|_| "memory")?,
                time_cost: u32::try_from(*iters).map_err(|_| "iterations")?,
                hash_length: 32,
                ad: &[],
                secret: &[],
            };
            let h = argon2::hash_raw(&comp, salt, &cfg).map_err(|e| e.to_string())?;
            Ok(h.try_into().unwrap())
        }
    }
}
pub fn cipher_key(seed: &[u8], tkey: &[u8; 32]) -> [u8; 32] {
    sha256(&[seed, tkey])
}
pub fn hmac_key(seed: &[u8], tkey: &[u8; 32]) -> [u8; 64] {
    sha512(&[seed, tkey, &[1]])
}
pub fn block_key(hk: &[u8; 64], idx: u64) -> [u8; 64] {
    sha512(&[&idx.to_le_bytes(), hk])
}

fn cbc_enc<E: BlockEncryptMut, P: Padding<E::BlockSize>>(e: E, data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    v.resize(data.len() + 16, 0);
    let n = e.encrypt_padded_mut::<P>(&mut v, data.len()).unwrap().len();
    v.truncate(n);
    v
}
fn cbc_dec<D: BlockDecryptMut>(d: D, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = data.to_vec();
    let n = d
        .decrypt_padded_mut::<Pkcs7>(&mut v)
        .map_err(|_| "bad CBC padding")?
        .len();
    v.truncate(n);
    Ok(v)
}
pub fn encrypt(c: RCipher, key: &[u8; 32], iv: &[u8], data: &[u8]) -> Vec<u8> {
    match c {
        RCipher::Aes256 => {
            cbc_enc::<_, Pkcs7>(cbc::Encryptor::<aes::Aes256>::new_from_slices(key, iv).unwrap(), data)
        }
        RCipher::TwoFish => {
            cbc_enc::<_, Pkcs7>(cbc::Encryptor::<twofish::Twofish>::new_from_slices(key, iv).unwrap(), data)
        }
        RCipher::ChaCha20 => {
            let mut v = data.to_vec();
            chacha20::ChaCha20::new_from_slices(key, iv)
                .unwrap()
                .apply_keystream(&mut v);
            v
        }
    }
}
/// Encrypt without adding padding; the data must already fill whole blocks.
pub fn encrypt_nopad(c: RCipher, key: &[u8; 32], iv: &[u8], data: &[u8]) -> Vec<u8> {
    match c {
        RCipher::Aes256 => {
            cbc_enc::<_, NoPadding>(cbc::Encryptor::<aes::Aes256>::new_from_slices(key, iv).unwrap(), data)
        }
        RCipher::TwoFish => {
            cbc_enc::<_, NoPadding>(cbc::Encryptor::<twofish::Twofish>::new_from_slices(key, iv).unwrap(), data)
        }
        RCipher::ChaCha20 => encrypt(c, key, iv, data),
    }
}
pub fn decrypt(c: RCipher, key: &[u8; 32], iv: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
    match c {
        RCipher::Aes256 => cbc_dec(
            cbc::Decryptor::<aes::Aes256>::new_from_slices(key, iv).map_err(|_| "IV length")?,
            data,
        ),
        RCipher::TwoFish => cbc_dec(
            cbc::Decryptor::<twofish::Twofish>::new_from_slices(key, iv).map_err(|_| "IV length")?,
            data,
        ),
        RCipher::ChaCha20 => {
            let mut v = data.to_vec();
            chacha20::ChaCha20::new_from_slices(key, iv)
                .map_err(|_| "IV length")?
                .apply_keystream(&mut v);
            Ok(v)
        }
    }
}

pub struct Keystream(Option<Box<dyn StreamCipher>>);
impl Keystream {
    pub fn new(alg: RInner, key: &[u8]) -> Keystream {
        match alg {
            RInner::ChaCha20 => {
                let h = sha512(&[key]);
                Keystream(Some(Box::new(
                    chacha20::ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap(),
                )))
            }
            RInner::Salsa20 => {
                let h = sha256(&[key]);
                Keystream(Some(Box::new(
                    salsa20::Salsa20::new_from_slices(
                        &h,
                        &[0xE8, 0x30, 0x09, 0x4B, 0x97, 0x20, 0x5D, 0x2A],
                    )
                    .unwrap(),
                )))
            }
        }
    }
    /// Protected values stored as they are.
    pub fn null() -> Keystream {
        Keystream(None)
    }
    pub fn apply(&mut self, data: &mut [u8]) {
        if let Some(c) = &mut self.0 {
            c.apply_keystream(data)
        }
    }
}

// ---- containers: writing ----------------------------------------------------------------------

pub fn header_bytes(major: u16, minor: u16, fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut h = Vec::new();
    h.extend_from_slice(&SIG1.to_le_bytes());
    h.extend_from_slice(&SIG2.to_le_bytes());
    h.extend_from_slice(&minor.to_le_bytes());
    h.extend_from_slice(&major.to_le_bytes());
    for (id, d) in fields {
        h.push(*id);
        if major >= 4 {
            h.extend_from_slice(&(d.len() as u32).to_le_bytes());
        } else {
            h.extend_from_slice(&(d.len() as u16).to_le_bytes());
        }
        h.extend_from_slice(d);
    }
    h
}
pub fn inner_header_bytes(fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut h = Vec::new();
    for (id, d) in fields {
        h.push(*id);
        h.extend_from_slice(&(d.len() as u32).to_le_bytes());
        h.extend_from_slice(d);
    }
    h
}
pub type VEntry = (u8, Vec<u8>, Vec<u8>);
pub fn vdict_bytes(entries: &[VEntry]) -> Vec<u8> {
    let mut o = vec![0x00, 0x01];
    for (ty, k, v) in entries {
        o.push(*ty);
        o.extend_from_slice(&(k.len() as u32).to_le_bytes());
        o.extend_from_slice(k);
        o.extend_from_slice(&(v.len() as u32).to_le_bytes());
        o.extend_from_slice(v);
    }
    o.push(0);
    o
}
pub fn kdf_uuid(k: &RKdf, aes31: bool) -> [u8; 16] {
    match k {
        RKdf::Aes { .. } if aes31 => hex16("c9d9f39a628a4460bf740d08c18a4fea"),
        RKdf::Aes { .. } => hex16("7c02bb8279a74ac0927d114a00648238"),
        RKdf::Argon2 { id: false, .. } => hex16("ef636ddf8c29444b91f7a9a403e30a0c"),
        RKdf::Argon2 { id: true, .. } => hex16("9e298b1956db4773b23dfc3ec6f0a1e6"),
    }
}
pub fn kdf_entries(k: &RKdf, aes31: bool) -> Vec<VEntry> {
    let mut v: Vec<VEntry> = vec![(0x42, b"$UUID".to_vec(), kdf_uuid(k, aes31).to_vec())];
    match k {
        RKdf::Aes { rounds, salt } => {
            v.push((0x05, b"R".to_vec(), rounds.to_le_bytes().to_vec()));
            v.push((0x42, b"S".to_vec(), salt.clone()));
        }
        RKdf::Argon2 { version, mem, iters, lanes, salt, .. } => {
            v.push((0x04, b"V".to_vec(), version.to_le_bytes().to_vec()));
            v.push((0x05, b"M".to_vec(), mem.to_le_bytes().to_vec()));
            v.push((0x05, b"I".to_vec(), iters.to_le_bytes().to_vec()));
            v.push((0x04, b"P".to_vec(), lanes.to_le_bytes().to_vec()));
            v.push((0x42, b"S".to_vec(), salt.clone()));
        }
    }
    v
}

/// Split `data` at the given block lengths; what remains after the last goes into one more block.
pub fn split<'a>(data: &'a [u8], lens: &[usize]) -> Vec<&'a [u8]> {
    let mut out = Vec::new();
    let mut rest = data;
    for l in lens {
        let l = (*l).max(1).min(rest.len());
        if l == 0 {
            break;
        }
        out.push(&rest[..l]);
        rest = &rest[l..];
    }
    if !rest.is_empty() {
        out.push(rest);
    }
    out
}
pub fn hmac_block(hk: &[u8; 64], idx: u64, data: &[u8]) -> Vec<u8> {
    let len = (data.len() as u32).to_le_bytes();
    let mac = hmac256(&block_key(hk, idx), &[&idx.to_le_bytes(), &len, data]);
    let mut o = mac.to_vec();
    o.extend_from_slice(&len);
    o.extend_from_slice(data);
    o
}
pub fn hmac_blocks(hk: &[u8; 64], data: &[u8], lens: &[usize]) -> Vec<u8> {
    let mut o = Vec::new();
    let parts = split(data, lens);
    for (i, p) in parts.iter().enumerate() {
        o.extend_from_slice(&hmac_block(hk, i as u64, p));
    }
    o.extend_from_slice(&hmac_block(hk, parts.len() as u64, &[]));
    o
}
pub fn hashed_blocks(data: &[u8], lens: &[usize]) -> Vec<u8> {
    let mut o = Vec::new();
    let parts = split(data, lens);
    for (i, p) in parts.iter().enumerate() {
        o.extend_from_slice(&(i as u32).to_le_bytes());
        o.extend_from_slice(&sha256(&[p]));
        o.extend_from_slice(&(p.len() as u32).to_le_bytes());
        o.extend_from_slice(p);
    }
    o.extend_from_slice(&(parts.len() as u32).to_le_bytes());
    o.extend_from_slice(&[0u8; 32]);
    o.extend_from_slice(&[0u8; 4]);
    o
}

/// gzip member; style 0 libflate default, 1 fixed codes, 2 stored blocks of the given lengths, 3 with optional fields.
pub fn gzip(data: &[u8], style: u64, lens: &[usize]) -> Vec<u8> {
    match style {
        2 => {
            let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
            let mut parts: Vec<&[u8]> = Vec::new();
            for p in split(data, lens) {
                for c in p.chunks(65535) {
                    parts.push(c);
                    // an empty stored block, as a sync flush writes it
                    if c.len() % 3 == 0 {
                        parts.push(&[]);
                    }
                }
            }
            if parts.is_empty() {
                parts.push(&[]);
            }
            let n = parts.len();
            for (i, p) in parts.iter().enumerate() {
                o.push((i + 1 == n) as u8);
                o.extend_from_slice(&(p.len() as u16).to_le_bytes());
                o.extend_from_slice(&(!(p.len() as u16)).to_le_bytes());
                o.extend_from_slice(p);
            }
            o.extend_from_slice(&crc32(data).to_le_bytes());
            o.extend_from_slice(&(data.len() as u32).to_le_bytes());
            o
        }
        _ => {
            // the default header carries the time of day
            let h = libflate::gzip::HeaderBuilder::new().modification_time(0).finish();
            let mut opts = libflate::gzip::EncodeOptions::new().header(h);
            if style == 1 {
                opts = opts.fixed_huffman_codes();
            }
            if style == 3 {
                let h = libflate::gzip::HeaderBuilder::new()
                    .modification_time(1)
                    .filename(c"inner.xml".to_owned())
                    .comment(c"a comment".to_owned())
                    .finish();
                opts = opts.header(h).block_size(700);
            }
            let mut e = libflate::gzip::Encoder::with_options(Vec::new(), opts).unwrap();
            e.write_all(data).unwrap();
            e.finish().into_result().unwrap()
        }
    }
}
fn crc32(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 {
                    0xEDB8_8320 ^ (c >> 1)
                } else {
                    c >> 1
                };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}
pub fn gunzip(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut d = libflate::gzip::Decoder::new(data).map_err(|e| format!("gzip: {e}"))?;
    let mut o = Vec::new();
    d.read_to_end(&mut o).map_err(|e| format!("gzip: {e}"))?;
    let rest = d.into_inner();
    if !rest.is_empty() {
        return Err(format!("{} bytes after the gzip member", rest.len()));
    }
    Ok(o)
}

/// Everything another client decides about one archive.
#[derive(Clone, Debug)]
pub struct Archive {
    pub major: u16,
    pub minor: u16,
    pub cipher: RCipher,
    pub gzip: Option<u64>,
    pub gzip_lens: Vec<usize>,
    pub kdf: RKdf,
    pub aes31: bool,
    pub inner: RInner,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub inner_key: Vec<u8>,
    pub start_bytes: Vec<u8>,
    pub outer_extra: Vec<(u8, Vec<u8>)>,
    pub inner_extra: Vec<(u8, Vec<u8>)>,
    /// permutation seeds
    pub outer_order: u64,
    pub vdict_order: u64,
    /// entries of the KDF dictionary that mean nothing
    pub vdict_extra: Vec<VEntry>,
    pub inner_order: u64,
    pub end_data: Vec<u8>,
    pub block_lens: Vec<usize>,
}

pub fn shuffle<T>(v: &mut [T], seed: u64) {
    if seed == 0 {
        return;
    }
    let mut p = crate::choice::Prng::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, p.below(i as u64 + 1) as usize);
    }
}

impl Archive {
    pub fn outer_fields(&self) -> Vec<(u8, Vec<u8>)> {
        let mut core: Vec<(u8, Vec<u8>)> = vec![
            (2, self.cipher.uuid().to_vec()),
            (3, (self.gzip.is_some() as u32).to_le_bytes().to_vec()),
            (4, self.seed.clone()),
            (7, self.iv.clone()),
        ];
        if self.major >= 4 {
            let mut e = kdf_entries(&self.kdf, self.aes31);
            e.extend(self.vdict_extra.iter().cloned());
            shuffle(&mut e, self.vdict_order);
            core.push((11, vdict_bytes(&e)));
        } else {
            let RKdf::Aes { rounds, salt } = &self.kdf else {
                panic!("KDBX 3 has AES-KDF only")
            };
            core.push((5, salt.clone()));
            core.push((6, rounds.to_le_bytes().to_vec()));
            core.push((8, self.inner_key.clone()));
            core.push((9, self.start_bytes.clone()));
            core.push((10, self.inner.id().to_le_bytes().to_vec()));
        }
        shuffle(&mut core, self.outer_order);
        // extra fields keep their relative order
        let mut p = crate::choice::Prng::new(self.outer_order);
        let mut pos: Vec<usize> = self
            .outer_extra
            .iter()
            .map(|_| {
                if self.outer_order == 0 {
                    0
                } else {
                    p.below(core.len() as u64 + 1) as usize
                }
            })
            .collect();
        pos.sort();
        for (n, (at, x)) in pos.iter().zip(&self.outer_extra).enumerate() {
            core.insert(at + n, x.clone());
        }
        core.push((0, self.end_data.clone()));
        core
    }
    pub fn header(&self) -> Vec<u8> {
        header_bytes(self.major, self.minor, &self.outer_fields())
    }
    pub fn inner_fields(&self) -> Vec<(u8, Vec<u8>)> {
        let mut core: Vec<(u8, Vec<u8>)> = vec![
            (1, self.inner.id().to_le_bytes().to_vec()),
            (2, self.inner_key.clone()),
        ];
        shuffle(&mut core, self.inner_order);
        let n = if self.inner_order % 3 == 2 { 0 } else { core.len() };
        for (i, x) in self.inner_extra.iter().enumerate() {
            core.insert(n + i, x.clone());
        }
        core.push((0, Vec::new()));
        core
    }
    pub fn keystream(&self) -> Keystream {
        Keystream::new(self.inner, &self.inner_key)
    }
    /// `xml` is the finished inner document (protected values already encrypted).
    pub fn encode(&self, creds: &Creds, xml: &[u8]) -> Vec<u8> {
        let t = transform(creds, &self.kdf).expect("reference KDF");
        let ck = cipher_key(&self.seed, &t);
        let mut out = self.header();
        if self.major >= 4 {
            let mut plain = inner_header_bytes(&self.inner_fields());
            plain.extend_from_slice(xml);
            let packed = match self.gzip {
                Some(s) => gzip(&plain, s, &self.gzip_lens),
                None => plain,
            };
            let enc = encrypt(self.cipher, &ck, &self.iv, &packed);
            let hk = hmac_key(&self.seed, &t);
            let sha = sha256(&[&out]);
            let mac = hmac256(&block_key(&hk, u64::MAX), &[&out]);
            out.extend_from_slice(&sha);
            out.extend_from_slice(&mac);
            out.extend_from_slice(&hmac_blocks(&hk, &enc, &self.block_lens));
        } else {
            let packed = match self.gzip {
                Some(s) => gzip(xml, s, &self.gzip_lens),
                None => xml.to_vec(),
            };
            let mut plain = self.start_bytes.clone();
            plain.extend_from_slice(&hashed_blocks(&packed, &self.block_lens));
            out.extend_from_slice(&encrypt(self.cipher, &ck, &self.iv, &plain));
        }
        out
    }
}

// ---- containers: strict reading of KDBX 4 -----------------------------------------------------

#[derive(Clone, Debug)]
pub struct Opened {
    pub minor: u16,
    pub outer: Vec<(u8, Vec<u8>)>,
    pub cipher: RCipher,
    pub gzip: bool,
    pub kdf: RKdf,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub inner: RInner,
    pub inner_key: Vec<u8>,
    pub inner_fields: Vec<(u8, Vec<u8>)>,
    pub xml: Vec<u8>,
    pub header_len: usize,
    pub block_lens: Vec<usize>,
}

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{} bytes missing", n - self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
}

pub fn parse_vdict(d: &[u8]) -> Result<Vec<VEntry>, String> {
    let mut c = Cur(d);
    let v = c.u16()?;
    if v != 0x0100 {
        return Err(format!("variant dictionary version {v:#x}"));
    }
    let mut out = Vec::new();
    loop {
        let ty = c.u8()?;
        if ty == 0 {
            break;
        }
        let n = c.u32()? as usize;
        let k = c.take(n)?.to_vec();
        let n = c.u32()? as usize;
        let v = c.take(n)?.to_vec();
        let want = match ty {
            0x04 | 0x0C => Some(4),
            0x05 | 0x0D => Some(8),
            0x08 => Some(1),
            0x18 | 0x42 => None,
            _ => return Err(format!("variant type {ty:#x}")),
        };
        if want.is_some_and(|w| w != v.len()) {
            return Err(format!("variant type {ty:#x} with {} bytes", v.len()));
        }
        if out.iter().any(|(_, k2, _): &VEntry| *k2 == k) {
            return Err("duplicate variant key".into());
        }
        out.push((ty, k, v));
    }
    if !c.0.is_empty() {
        return Err("data after the variant dictionary".into());
    }
    Ok(out)
}
pub fn kdf_from(entries: &[VEntry]) -> Result<RKdf, String> {
    let get = |name: &str, ty: u8| -> Result<Vec<u8>, String> {
        entries
            .iter()
            .find(|e| e.0 == ty && e.1 == name.as_bytes())
            .map(|e| e.2.clone())
            .ok_or(format!("KDF parameter {name} missing"))
    };
    let u64of = |v: Vec<u8>| u64::from_le_bytes(v.try_into().unwrap());
    let u32of = |v: Vec<u8>| u32::from_le_bytes(v.try_into().unwrap());
    let id = get("$UUID", 0x42)?;
    if id == hex16("7c02bb8279a74ac0927d114a00648238") || id == hex16("c9d9f39a628a4460bf740d08c18a4fea") {
        return Ok(RKdf::Aes {
            rounds: u64of(get("R", 5)?),
            salt: get("S", 0x42)?,
        });
    }
    let a2d = id == hex16("ef636ddf8c29444b91f7a9a403e30a0c");
    let a2id = id == hex16("9e298b1956db4773b23dfc3ec6f0a1e6");
    if !(a2d || a2id) {
        return Err("unknown KDF".into());
    }
    Ok(RKdf::Argon2 {
        id: a2id,
        version: u32of(get("V", 4)?),
        mem: u64of(get("M", 5)?),
        iters: u64of(get("I", 5)?),
        lanes: u32of(get("P", 4)?),
        salt: get("S", 0x42)?,
    })
}

/// Parse the outer header: version, fields (without the end field) and its length in bytes.
pub fn parse_header(data: &[u8]) -> Result<(u16, u16, Vec<(u8, Vec<u8>)>, usize), String> {
    let mut c = Cur(data);
    if c.u32()? != SIG1 || c.u32()? != SIG2 {
        return Err("signature".into());
    }
    let minor = c.u16()?;
    let major = c.u16()?;
    let mut fields = Vec::new();
    loop {
        let id = c.u8()?;
        let n = if major >= 4 {
            c.u32()? as usize
        } else {
            c.u16()? as usize
        };
        let d = c.take(n)?.to_vec();
        if id == 0 {
            break;
        }
        fields.push((id, d));
    }
    Ok((major, minor, fields, data.len() - c.0.len()))
}
fn one<'a>(f: &'a [(u8, Vec<u8>)], id: u8, what: &str) -> Result<&'a [u8], String> {
    let mut it = f.iter().filter(|x| x.0 == id);
    let v = it.next().ok_or(format!("header field {what} missing"))?;
    if it.next().is_some() {
        return Err(format!("header field {what} twice"));
    }
    Ok(&v.1)
}

pub fn open4(data: &[u8], creds: &Creds) -> Result<Opened, String> {
    let (major, minor, outer, hl) = parse_header(data)?;
    if major != 4 {
        return Err(format!("major version {major}"));
    }
    let cipher =
        RCipher::from_uuid(one(&outer, 2, "cipher")?).ok_or("unknown cipher identifier")?;
    let gz = match one(&outer, 3, "compression")? {
        [0, 0, 0, 0] => false,
        [1, 0, 0, 0] => true,
        o => return Err(format!("compression {o:?}")),
    };
    let seed = one(&outer, 4, "master seed")?.to_vec();
    if seed.len() != 32 {
        return Err(format!("master seed of {} bytes", seed.len()));
    }
    let iv = one(&outer, 7, "IV")?.to_vec();
    if iv.len() != cipher.iv_len() {
        return Err(format!("IV of {} bytes", iv.len()));
    }
    let kdf = kdf_from(&parse_vdict(one(&outer, 11, "KDF parameters")?)?)?;
    let mut c = Cur(&data[hl..]);
    let header = &data[..hl];
    if c.take(32)? != sha256(&[header]) {
        return Err("header hash wrong".into());
    }
    let t = transform(creds, &kdf)?;
    let hk = hmac_key(&seed, &t);
    if c.take(32)? != hmac256(&block_key(&hk, u64::MAX), &[header]) {
        return Err("header authentication code wrong".into());
    }
    let mut enc = Vec::new();
    let mut block_lens = Vec::new();
    let mut idx = 0u64;
    loop {
        let mac = c.take(32)?.to_vec();
        let n = c.u32()? as usize;
        let d = c.take(n)?;
        if mac
            != hmac256(
                &block_key(&hk, idx),
                &[&idx.to_le_bytes(), &(n as u32).to_le_bytes(), d],
            )
        {
            return Err(format!("authentication code of block {idx} wrong"));
        }
        idx += 1;
        if n == 0 {
            break;
        }
        block_lens.push(n);
        enc.extend_from_slice(d);
    }
    if !c.0.is_empty() {
        return Err(format!("{} bytes after the terminator block", c.0.len()));
    }
    let packed = decrypt(cipher, &cipher_key(&seed, &t), &iv, &enc)?;
    let plain = if gz { gunzip(&packed)? } else { packed };
    let mut c = Cur(&plain);
    let mut inner_fields = Vec::new();
    loop {
        let id = c.u8()?;
        let n = c.u32()? as usize;
        let d = c.take(n)?.to_vec();
        if id == 0 {
            break;
        }
        inner_fields.push((id, d));
    }
    let inner = match one(&inner_fields, 1, "inner stream")? {
        [2, 0, 0, 0] => RInner::Salsa20,
        [3, 0, 0, 0] => RInner::ChaCha20,
        o => return Err(format!("inner stream {o:?}")),
    };
    let inner_key = one(&inner_fields, 2, "inner stream key")?.to_vec();
    let xml = c.0.to_vec();
    Ok(Opened {
        minor,
        cipher,
        gzip: gz,
        kdf,
        seed,
        iv,
        inner,
        inner_key,
        inner_fields,
        xml,
        outer,
        header_len: hl,
        block_lens,
    })
}

/// Byte offsets (start, end) of every data block of a KDBX 4 archive, terminator included.
pub fn block_spans(data: &[u8]) -> Vec<(usize, usize)> {
    let Ok((_, _, _, hl)) = parse_header(data) else {
        return Vec::new();
    };
    let mut at = hl + 64;
    let mut v = Vec::new();
    while at + 36 <= data.len() {
        let n = u32::from_le_bytes(data[at + 32..at + 36].try_into().unwrap()) as usize;
        let end = at + 36 + n;
        if end > data.len() {
            break;
        }
        v.push((at, end));
        at = end;
    }
    v
}
