//! C31: errors reveal no secrets.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::interpose;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, Layout};
use crate::simio::*;
use kdbx_rs::binary::{Cipher, InnerStreamCipherAlgorithm, KdfParams};
use kdbx_rs::errors::Error;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::Kdbx;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C31",
        run,
        quick: 20000,
        thorough: 200000,
        rule: "distinct sequences of (archive version, operation, kind of failure, error) of failures that occurred",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "secrets are looked for as text, in hexadecimal, in base64 and as lists of bytes, by markers that do not occur by chance",
            "field names, names of groups and what the format stores in the clear may appear in errors",
        ],
    }
}

/// The secrets of a run, in every form that is looked for.
struct Secrets {
    p: Prng,
    forms: Vec<(String, &'static str)>,
}
impl Secrets {
    /// Look for `b`, which is at least 8 bytes that do not occur by chance.
    fn add(&mut self, b: &[u8], what: &'static str) {
        let b = &b[..b.len().min(32)];
        let hex: String = b[..8].iter().map(|x| format!("{x:02x}")).collect();
        self.forms.push((hex.to_uppercase(), what));
        self.forms.push((hex, what));
        for sep in [", ", ",\n", ",", " "] {
            // as in `{:?}` of bytes; the pretty form has other white space
            self.forms.push((b[..8].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep), what));
        }
        for skip in 0..3 {
            // base64 at each alignment: whole groups of three bytes
            let n = (b.len() - skip) / 3 * 3;
            self.forms.push((b64(&b[skip..skip + n.min(9)]).trim_end_matches('=').to_string(), what));
        }
    }
    fn tag(&mut self, what: &'static str) -> String {
        let t = format!("~{:016x}", self.p.next());
        self.forms.push((t[..9].to_string(), what));
        self.forms.push((t[8..].to_string(), what));
        self.add(t.as_bytes(), what);
        t
    }
    fn bytes(&mut self, b: &[u8], what: &'static str) {
        if b.len() >= 12 {
            self.add(b, what);
            self.forms.push((String::from_utf8_lossy(b).into_owned(), what));
        }
    }
    fn entry(&mut self, e: &mut MEntry) {
        for f in &mut e.fields {
            let t = self.tag(if f.protected { "a protected value" } else { "a value" });
            f.value.push_str(&t);
        }
        for h in &mut e.history {
            self.entry(h);
        }
    }
    fn group(&mut self, g: &mut MGroup) {
        for e in &mut g.entries {
            self.entry(e);
        }
        for c in &mut g.groups {
            self.group(c);
        }
    }
    fn text(&self, op: &str, form: &str, text: &str) -> R {
        // line breaks and indentation of pretty forms
        let flat: String = text.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join("\n");
        for (s, what) in &self.forms {
            if text.contains(s.as_str()) || flat.contains(s.as_str()) {
                return viol(
                    format!("an error of {op} contains {what}"),
                    format!("the {form} form of an error of {op} contains {what} ({s:?}): {}", text.chars().take(400).collect::<String>()),
                );
            }
        }
        Ok(())
    }
    fn error(&self, cx: &Cx, op: &str, e: &(dyn std::error::Error + 'static)) -> R {
        let mut at = Some(e);
        let mut depth = 0;
        while let Some(x) = at {
            let (a, b, c) = lib("formatting an error", || (format!("{x}"), format!("{x:?}"), format!("{x:#?}")))?;
            if depth == 0 {
                let k = kind_of(&b);
                cx.ev(format!("{op}: {k}"));
                cx.sig_str(&k);
            }
            self.text(op, "display", &a)?;
            self.text(op, "debug", &b)?;
            self.text(op, "debug", &c)?;
            at = lib("source of an error", || x.source())?;
            depth += 1;
            if depth > 20 {
                return viol("errors without end", format!("the chain of sources of an error of {op} does not end"));
            }
        }
        cx.count("probe.errors_searched");
        cx.nontrivial();
        Ok(())
    }
    /// The error as it is, and inside the error type for all operations.
    fn both<E: std::error::Error + 'static>(&self, cx: &Cx, op: &str, e: E) -> R
    where
        Error: From<E>,
    {
        self.error(cx, op, &e)?;
        let e = lib("Error::from", || Error::from(e))?;
        self.error(cx, op, &e)
    }
    fn opening(&self, cx: &Cx, data: &[u8], fault: InFault, creds: &rc::Creds) -> R {
        let r = SimReader::new(cx, Arc::new(data.to_vec()), Frag::none(), fault);
        match lib("opening", || kdbx_rs::from_reader(r))? {
            Err(e) => self.both(cx, "opening", e),
            Ok(l) => {
                if super::c13::costly(&l.header().kdf_params) {
                    return Ok(());
                }
                let key = ckey(creds);
                match lib("unlocking", || l.unlock(&key))? {
                    Ok(_) => Ok(()),
                    Err(f) => {
                        let t = lib("formatting an error", || format!("{:?}", f.0))?;
                        self.text("unlocking", "locked archive in the debug", &t)?;
                        self.both(cx, "unlocking", f.1)
                    }
                }
            }
        }
    }
}

/// Positions behind each occurrence of `what`.
fn places(xml: &[u8], what: &[u8]) -> Vec<usize> {
    xml.windows(what.len()).enumerate().filter(|(_, w)| *w == what).map(|(i, _)| i + what.len()).collect()
}
fn some_place(cx: &Cx, xml: &[u8], what: &str) -> Option<usize> {
    let p = places(xml, what.as_bytes());
    (!p.is_empty()).then(|| p[cx.usize(p.len())])
}
fn replace(xml: &mut Vec<u8>, end: usize, len: usize, with: &[u8]) {
    xml.splice(end - len..end, with.iter().copied());
}

/// Make the document one that cannot be read.
fn spoil(cx: &Cx, xml: &mut Vec<u8>) {
    let kind = cx.below(13);
    cx.sig(kind + 40);
    cx.count("fault.document_spoilt");
    match kind {
        0 => {
            let n = cx.usize(xml.len());
            xml.truncate(n);
        }
        1 => {
            if let Some(p) = some_place(cx, xml, "</Value>") {
                replace(xml, p, 8, b"</Valeu>");
            }
        }
        2 | 3 | 4 => {
            // inside or behind a value
            if let Some(p) = some_place(cx, xml, "</Value>") {
                let at = p - 8 - if cx.chance(1, 2) { 0 } else { cx.usize(9) };
                let c: &[u8] = match kind {
                    2 => cx.pick(&[&b"\x01"[..], b"\x00", b"\xef\xbf\xbf"]),
                    3 => cx.pick(&[&b"&bogus;"[..], b"&#0;", b"&", b"&#x110000;", b"<", b"]]>"]),
                    _ => cx.pick(&[&b"\xff"[..], b"\xc0\xaf", b"\xed\xa0\x80", b"\xe2\x82"]),
                };
                let at = (0..=at).rev().find(|i| std::str::from_utf8(&xml[..*i]).is_ok()).unwrap_or(0);
                xml.splice(at..at, c.iter().copied());
            }
        }
        5 => {
            // plain text where an encrypted value is announced
            let mut p = places(xml, b"<Value>");
            p.extend(places(xml, b"<Value Protected=\"False\">"));
            if !p.is_empty() {
                let p = p[cx.usize(p.len())];
                let start = xml[..p].iter().rposition(|b| *b == b'<').unwrap();
                xml.splice(start..p, b"<Value Protected=\"True\">".iter().copied());
            }
        }
        6 | 7 => {
            // an encrypted value that does not decrypt to text, or is no base64
            if let Some(p) = some_place(cx, xml, "Protected=\"True\">") {
                let Some(n) = xml[p..].iter().position(|b| *b == b'<') else { return };
                let t: String = String::from_utf8_lossy(&xml[p..p + n]).into_owned();
                if kind == 6 {
                    if let Some(mut d) = unb64(&t) {
                        if d.is_empty() {
                            return;
                        }
                        let i = if cx.chance(1, 2) { d.len() - 1 } else { cx.usize(d.len()) };
                        d[i] ^= 0x80;
                        xml.splice(p..p + n, b64(&d).into_bytes());
                    }
                } else {
                    let i = p + cx.usize(n + 1);
                    xml.splice(i..i, b"!".iter().copied());
                }
            }
        }
        8 => {
            let tag = cx.pick(&["<UUID>", "<LastModificationTime>", "<UsageCount>", "<Expires>"]);
            if let Some(p) = some_place(cx, xml, tag) {
                let w = cx.pick(&[&b"-"[..], b"not this", b"&#233;"]);
                xml.splice(p..p, w.iter().copied());
            }
        }
        9 => {
            if let Some(p) = some_place(cx, xml, "<Key>") {
                if let Some(n) = xml[p..].iter().position(|b| *b == b'<') {
                    xml.splice(p..p + n, std::iter::empty());
                }
            }
        }
        10 => {
            if let Some(p) = some_place(cx, xml, "</String>") {
                let n = cx.range(100, 400) as usize;
                xml.splice(p..p, "<String><Key>a</Key>".repeat(n).into_bytes());
            }
        }
        11 => {
            if let Some(p) = some_place(cx, xml, "</Entry>") {
                let n = cx.range(120, 200) as usize;
                let mut x = "<Group><Name>a</Name>".repeat(n);
                x.push_str(&"</Group>".repeat(n));
                xml.splice(p..p, x.into_bytes());
            }
        }
        _ => {
            // a second document
            let again = xml.clone();
            xml.extend(again);
        }
    }
}

fn unusable_kdf(cx: &Cx, good: &KdfParams) -> KdfParams {
    let mut k = good.clone();
    match &mut k {
        KdfParams::Argon2 { variant: _, memory_bytes, version, salt, iterations, lanes, .. } => match cx.below(5) {
            0 => *version = cx.pick(&[0, 0x11, 0x14, u32::MAX]),
            1 => salt.truncate(cx.usize(8)),
            2 => *memory_bytes = cx.below(8 * 1024),
            3 => *iterations = 0,
            _ => *lanes = 0,
        },
        KdfParams::Aes { salt, .. } => {
            let n = cx.pick(&[0usize, 5, 16, 31, 33]);
            salt.resize(n, 1);
        }
        _ => {}
    }
    if cx.chance(1, 5) {
        k = KdfParams::Unknown {
            uuid: uuid::Uuid::from_bytes([9; 16]),
            params: Default::default(),
        };
    }
    k
}

fn run(cx: &Cx) -> R {
    let mut s = Secrets {
        p: Prng::new(cx.seed()),
        forms: Vec::new(),
    };
    let creds = {
        let both = cx.below(3);
        let pw = (both != 1).then(|| format!("pw{}", s.tag("the password")));
        let keyfile = (both != 0).then(|| {
            let n = cx.range(12, 200) as usize;
            let b = if cx.chance(1, 3) { s.tag("key file content").into_bytes() } else { s.p.bytes(n) };
            s.bytes(&b, "key file content");
            b
        });
        rc::Creds { pw, keyfile }
    };
    if let Some(p) = &creds.pw {
        s.bytes(&rc::sha256(&[p.as_bytes()]), "a hash of the password");
    }
    s.bytes(&rc::composite(&creds), "the composite key");
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    if db.root.entries.is_empty() && cx.chance(4, 5) {
        db.root.entries.push(gen_entry(cx, PLAIN, 0));
    }
    s.group(&mut db.root);
    for f in &mut db.custom {
        let t = s.tag("a custom value");
        f.value.push_str(&t);
    }
    cx.sample(format!("{}, {} forms", db.summary(), s.forms.len()));
    for _ in 0..cx.range(1, 5) {
        let op = cx.weighted(&[6, 3, 3, 3, 4, 3, 3]);
        cx.sig(op as u64);
        match op {
            0..=2 => {
                let major = cx.pick(&[4, 3]);
                let mut a = gen_archive(cx, major, 3000);
                a.outer_extra.clear();
                cx.sig(major as u64);
                if major == 4 {
                    // in the clear in KDBX 3
                    s.bytes(&a.inner_key, "the inner stream key");
                }
                if let Ok(t) = rc::transform(&creds, &a.kdf) {
                    s.bytes(&t, "the transformed key");
                    s.bytes(&rc::cipher_key(&a.seed, &t), "the cipher key");
                    s.bytes(&rc::hmac_key(&a.seed, &t), "the HMAC key");
                }
                let mut l = Layout::plain();
                l.iso_dates = major == 3;
                if op == 0 {
                    let mut xml = refxml::write_db(&db, &l, Some(&mut a.keystream()));
                    spoil(cx, &mut xml);
                    if cx.chance(1, 6) {
                        // and a stream key or cipher that cannot be used
                        a.inner_key.truncate(cx.usize(33));
                        cx.sig(77);
                    }
                    let bytes = a.encode(&creds, &xml);
                    s.opening(cx, &bytes, InFault::None, &creds)?;
                } else {
                    let (mut bytes, _) = foreign(cx, &a, &db, &mut l, &creds);
                    if op == 1 {
                        let wrong = gen_wrong(cx, &creds);
                        if let Some(p) = &wrong.pw {
                            s.bytes(&rc::sha256(&[p.as_bytes()]), "a hash of the password");
                        }
                        s.bytes(&rc::composite(&wrong), "the composite key");
                        s.opening(cx, &bytes, InFault::None, &wrong)?;
                    } else {
                        let at = cx.usize(bytes.len());
                        let fault = match cx.below(4) {
                            0 => InFault::ErrorAt(at, cx.pick(&ERR_KINDS)),
                            1 => InFault::EofAt(at),
                            _ => {
                                bytes = super::damage::storage(cx, &bytes, &[]).0;
                                InFault::None
                            }
                        };
                        s.opening(cx, &bytes, fault, &creds)?;
                    }
                }
            }
            3 => {
                // a save that cannot be made
                let mut d = db.clone();
                let what = cx.below(6);
                cx.sig(what + 20);
                let bad = cx.pick(&['\u{1}', '\u{8}', '\u{1f}', '\u{ffff}', '\u{0}']);
                if what < 2 {
                    spoil_values(cx, &mut d, what == 0, bad);
                }
                let mut k = lib("creating an archive", || Kdbx::from_database(l_db(&d)))?;
                let st = gen_settings(cx);
                apply(&mut k, &st);
                if what != 2 {
                    set_key(&mut k, &creds)?;
                }
                match what {
                    3 => k.header_mut().cipher = cx.pick(&[Cipher::Aes128, Cipher::Unknown(uuid::Uuid::from_bytes([1; 16]))]),
                    4 => {
                        k.inner_header_mut().inner_stream_cipher =
                            cx.pick(&[InnerStreamCipherAlgorithm::ArcFour, InnerStreamCipherAlgorithm::Unknown(9)])
                    }
                    _ => {}
                }
                let fault = if what == 5 { super::c09::gen_fault(cx, 3000) } else { OutFault::None };
                if let (Err(e), _) = save_to(cx, &k, Frag::none(), fault)? {
                    s.both(cx, "saving", e)?;
                }
            }
            4 => {
                // keys that cannot be derived
                let mut k = lib("creating an archive", || Kdbx::from_database(l_db(&db)))?;
                let st = gen_settings(cx);
                apply(&mut k, &st);
                let p = unusable_kdf(cx, &k.header().kdf_params.clone());
                k.header_mut().kdf_params = p;
                let key = ckey(&creds);
                if let Err(e) = lib("set_key", || k.set_key(key))? {
                    s.both(cx, "setting a key", e)?;
                }
            }
            5 => {
                let mut d = db.clone();
                let fault = if cx.chance(1, 2) {
                    spoil_values(cx, &mut d, cx.chance(1, 2), '\u{1}');
                    OutFault::None
                } else {
                    super::c09::gen_fault(cx, 3000)
                };
                let ld = {
                    let _h = interpose::harness();
                    l_db(&d)
                };
                let (sink, _) = SimSink::new(cx, Frag::none(), fault);
                if let Err(e) = lib("exporting", || kdbx_rs::xml::write_xml(sink, &ld, &mut NullStreamCipher))? {
                    s.both(cx, "exporting", e)?;
                }
            }
            _ => {
                let mut xml = refxml::write_db(&db, &Layout::plain(), Some(&mut rc::Keystream::null()));
                let at = cx.usize(xml.len());
                let fault = match cx.below(4) {
                    0 => InFault::ErrorAt(at, cx.pick(&ERR_KINDS)),
                    1 => InFault::EofAt(at),
                    _ => {
                        spoil(cx, &mut xml);
                        InFault::None
                    }
                };
                let r = SimReader::new(cx, Arc::new(xml), Frag::none(), fault);
                if let Err(e) = lib("importing", || kdbx_rs::xml::parse_xml(r, &mut NullStreamCipher))? {
                    s.both(cx, "importing", e)?;
                }
            }
        }
    }
    Ok(())
}

/// Put a character into values that XML cannot hold, or take the name off a field.
fn spoil_values(cx: &Cx, d: &mut MDb, text: bool, bad: char) {
    let at_end = cx.chance(1, 2);
    let mut all: Vec<&mut MField> = d.custom.iter_mut().collect();
    fn entry<'a>(e: &'a mut MEntry, out: &mut Vec<&'a mut MField>) {
        out.extend(e.fields.iter_mut());
        for h in &mut e.history {
            entry(h, out);
        }
    }
    fn group<'a>(g: &'a mut MGroup, out: &mut Vec<&'a mut MField>) {
        for e in &mut g.entries {
            entry(e, out);
        }
        for c in &mut g.groups {
            group(c, out);
        }
    }
    group(&mut d.root, &mut all);
    if all.is_empty() {
        return;
    }
    let i = cx.usize(all.len());
    let f = &mut *all[i];
    if text {
        f.protected = false;
        let at = if at_end { f.value.len() } else { f.value.len() - 17 };
        f.value.insert(at, bad);
    } else {
        f.key.clear();
    }
}
