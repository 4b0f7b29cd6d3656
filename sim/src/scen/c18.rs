//! C18: nothing secret is written in the clear.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::{lib, viol};
use crate::edit;
use crate::ensure;
use crate::interpose;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, El, Layout};
use crate::simio::*;
use base64::prelude::{Engine, BASE64_STANDARD};
use std::collections::{HashMap, HashSet};

pub fn scenario() -> Scenario {
    Scenario {
        id: "C18",
        run,
        quick: 30000,
        thorough: 150000,
        rule: "distinct (origin, settings, sequence of saves and faults, number of texts searched for) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &["texts are looked for by markers of 17 bytes that do not occur by chance", "header data that the format stores in the clear is not secret"],
    }
}

/// Marks texts and remembers the marks.
struct Marks {
    p: Prng,
    set: HashMap<[u8; 8], String>,
}
impl Marks {
    fn tag(&mut self) -> String {
        let t = format!("~{:016x}", self.p.next());
        self.set.insert(t.as_bytes()[..8].try_into().unwrap(), t.clone());
        t
    }
    fn mark(&mut self, s: &mut String) {
        let t = self.tag();
        s.push_str(&t);
    }
    fn bytes(&mut self, b: &[u8]) {
        if b.len() >= 8 {
            self.set.insert(b[..8].try_into().unwrap(), "key file content".into());
            let n = b.len();
            self.set.insert(b[n - 8..].try_into().unwrap(), "key file content".into());
        }
    }
    /// Whether the text ends with a mark, so that it occurs nowhere else by chance.
    fn ends(&self, s: &str) -> bool {
        let b = s.as_bytes();
        b.len() >= 17 && self.set.get(&b[b.len() - 17..][..8]).is_some_and(|t| b.ends_with(t.as_bytes()))
    }
    fn search(&self, what: &str, data: &[u8]) -> R {
        for w in data.windows(8) {
            let k: [u8; 8] = w.try_into().unwrap();
            if let Some(t) = self.set.get(&k) {
                return viol(format!("{what} contains a secret in the clear"), format!("{what} of {} bytes contains {t}", data.len()));
            }
        }
        Ok(())
    }
    fn entry(&mut self, e: &mut MEntry, same: &str, cx: &Cx) {
        for f in &mut e.fields {
            self.mark(&mut f.key);
            if cx.chance(1, 3) {
                f.value = same.to_string();
                f.protected = true;
            } else {
                self.mark(&mut f.value);
            }
        }
        for h in &mut e.history {
            self.entry(h, same, cx);
        }
    }
    fn group(&mut self, g: &mut MGroup, same: &str, cx: &Cx) {
        self.mark(&mut g.name);
        for e in &mut g.entries {
            self.entry(e, same, cx);
        }
        for c in &mut g.groups {
            self.group(c, same, cx);
        }
    }
    fn db(&mut self, d: &mut MDb, same: &str, cx: &Cx) {
        self.mark(&mut d.name);
        self.mark(&mut d.desc);
        for f in &mut d.custom {
            self.mark(&mut f.key);
            self.mark(&mut f.value);
        }
        self.group(&mut d.root, same, cx);
    }
}

fn protected<'a>(e: &'a El, out: &mut Vec<&'a str>) {
    if e.name == "Value" && e.attrs.iter().any(|(k, v)| k == "Protected" && v.eq_ignore_ascii_case("true")) {
        out.push(&e.text);
    }
    for k in &e.kids {
        protected(k, out);
    }
}

/// The document inside an archive.
fn inner(cx: &Cx, marks: &Marks, xml: &[u8], db: &MDb) -> R {
    let doc = match refxml::parse_doc(xml) {
        Ok(d) => d,
        Err(e) => return viol("document not readable", e),
    };
    let mut vals = Vec::new();
    protected(&doc, &mut vals);
    let mut plain: HashSet<Vec<u8>> = HashSet::new();
    let mut n = 0;
    let text = String::from_utf8_lossy(xml);
    let mut bad = None;
    db.root.for_fields(&mut |f| {
        if f.protected && marks.ends(&f.value) {
            n += 1;
            plain.insert(f.value.as_bytes().to_vec());
            let tail: String = f.value.chars().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect();
            if text.contains(&tail) || text.contains(&b64(f.value.as_bytes())) {
                bad = Some(f.key.clone());
            }
        }
    });
    if let Some(k) = bad {
        return viol("protected value readable in the document", format!("the value of the protected field {k:?} is readable in the document"));
    }
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for v in vals {
        let v: String = v.chars().filter(|c| !c.is_whitespace()).collect();
        let Ok(d) = BASE64_STANDARD.decode(v.as_bytes()) else {
            return viol("protected value not in base64", v);
        };
        if d.len() < 8 {
            continue;
        }
        ensure!(
            !plain.contains(&d),
            "protected value readable in the document",
            "a protected value is stored without encryption"
        );
        ensure!(
            seen.insert(d),
            "equal protected values encrypt equally",
            "two protected values have the same encrypted form"
        );
    }
    cx.count_n("probe.protected_values_checked", n);
    Ok(())
}

fn run(cx: &Cx) -> R {
    let mut m = Marks {
        p: Prng::new(cx.seed()),
        set: HashMap::new(),
    };
    let creds = {
        let both = cx.below(3);
        let pw = (both != 1).then(|| format!("pw{}", m.tag()));
        let keyfile = (both != 0).then(|| {
            let n = cx.range(8, 200) as usize;
            let b = m.p.bytes(n);
            m.bytes(&b);
            b
        });
        rc::Creds { pw, keyfile }
    };
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    let same = format!("same secret {}", m.tag());
    m.db(&mut db, &same, cx);
    let bulk = if cx.chance(1, 60) { cx.range(300_000, 1_300_000) as usize } else { 0 };
    let mut s = gen_settings(cx);
    if bulk > 0 {
        add_bulk(cx, &mut db, bulk);
        s.cipher = cx.pick(&[rc::RCipher::ChaCha20, rc::RCipher::Aes256]);
    }
    let foreign_origin = cx.chance(1, 4);
    let mut k = if foreign_origin && bulk == 0 {
        let mut a = gen_archive(cx, 4, 3000);
        a.outer_extra.clear();
        let (b, _) = foreign(cx, &a, &db, &mut Layout::plain(), &creds);
        m.search("archive of another client", &b).expect("reference encodes in the clear");
        reopen_expect("archive of another client", &b, &creds, &db)?
    } else {
        make(&db, &s, &creds)?
    };
    cx.sample(format!("{:?}, {}, {} marks", s, db.summary(), m.set.len()));
    cx.sig(m.set.len() as u64);
    for _ in 0..cx.range(1, 4) {
        let op = cx.weighted(&[5, 3, 1, 1]);
        cx.sig(op as u64);
        match op {
            0 => {
                let frag = if bulk == 0 && cx.chance(1, 3) { Frag::choose(cx) } else { Frag::none() };
                let (r, st) = save_to(cx, &k, frag, OutFault::None)?;
                let st = st.lock().unwrap();
                m.search("a completed save", &st.accepted)?;
                if let Err(e) = r {
                    return viol("save failed", format!("{e:?}"));
                }
                cx.nontrivial();
                let o = match rc::open4(&st.accepted, &creds) {
                    Ok(o) => o,
                    Err(e) => return viol("save rejected by another client", e),
                };
                inner(cx, &m, &o.xml, &db)?;
                let l = match open_bytes(&st.accepted)? {
                    Ok(l) => l,
                    Err(e) => return viol("save not opened", format!("{e:?}")),
                };
                if cx.chance(1, 2) {
                    // locked copy
                    let (sink, cs) = SimSink::new(cx, Frag::none(), super::c09::gen_fault(cx, st.accepted.len()));
                    let _ = lib("writing a locked archive", || l.write(sink))?;
                    m.search("a copy of the locked archive", &cs.lock().unwrap().accepted)?;
                    cx.count("probe.copies_searched");
                }
                match unlock(l, &creds)? {
                    Ok(u) => {
                        if let Some(x) = u.raw_xml() {
                            inner(cx, &m, x, &db)?;
                        }
                        if cx.chance(1, 2) {
                            k = u;
                        }
                    }
                    Err((_, e)) => return viol("save not unlocked", format!("{e:?}")),
                }
            }
            1 => {
                let f = super::c09::gen_fault(cx, 3000);
                let (r, st) = save_to(cx, &k, Frag::choose(cx), f)?;
                cx.sig(r.is_ok() as u64);
                m.search("an interrupted save", &st.lock().unwrap().accepted)?;
                cx.count("probe.partial_saves_searched");
                cx.nontrivial();
            }
            2 => {
                // settings that may not be supported
                let t = gen_settings(cx);
                apply(&mut k, &t);
                if bulk > 0 {
                    k.header_mut().cipher = l_cipher(rc::RCipher::ChaCha20);
                }
                if cx.chance(1, 3) {
                    let keep = k.header().cipher;
                    k.header_mut().cipher = kdbx_rs::binary::Cipher::Unknown(uuid::Uuid::from_bytes([1; 16]));
                    let (_, st) = save_to(cx, &k, Frag::none(), OutFault::None)?;
                    m.search("a save with an unsupported cipher", &st.lock().unwrap().accepted)?;
                    k.header_mut().cipher = keep;
                    let keep = k.inner_header().inner_stream_cipher;
                    k.inner_header_mut().inner_stream_cipher = kdbx_rs::binary::InnerStreamCipherAlgorithm::ArcFour;
                    let (_, st) = save_to(cx, &k, Frag::none(), OutFault::None)?;
                    m.search("a save with an unsupported inner cipher", &st.lock().unwrap().accepted)?;
                    k.inner_header_mut().inner_stream_cipher = keep;
                }
            }
            _ => {
                edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
                if !representable(&db) {
                    return Ok(());
                }
            }
        }
    }
    let console = std::mem::take(&mut interpose::env().unwrap().console);
    m.search("what was printed", &console)
}
