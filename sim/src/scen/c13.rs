//! C13: malformed archives.
use super::damage;
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::lib;
use crate::ensure;
use crate::interpose::{self, ALLOC};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::{KdfParams, Unlocked};
use kdbx_rs::Kdbx;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C13",
        run,
        quick: 40000,
        thorough: 600000,
        rule: "distinct (format version, layer and kind of malformation, kind of failure or use of the result) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "key derivation settings of a malformed archive ask for at most 1 MiB, 16 lanes, 20 passes and 20000 rounds, or for more than Argon2 can express",
            "memory bound: 24 MiB plus 256 bytes per stored or decompressed byte",
            "nesting up to 10000 levels, documents up to 3 MiB, thread stack 2 MiB",
        ],
    }
}

const NAMES: [&str; 42] = [
    "KeePassFile", "Meta", "Generator", "DatabaseName", "DatabaseDescription", "CustomData", "Item", "Key", "Value",
    "MemoryProtection", "ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes", "HeaderHash",
    "Root", "Group", "UUID", "Name", "Times", "LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime",
    "LocationChanged", "Expires", "UsageCount", "Entry", "String", "History", "Binary", "DeletedObjects", "Notes", "IconID",
    "AutoType", "Tags", "x", "keepassfile", "ns:Group", "Protected", "Binaries",
];

fn gen_value(cx: &Cx) -> String {
    match cx.below(24) {
        0 => String::new(),
        1 => "True".into(),
        2 => "false".into(),
        3 => "maybe".into(),
        4 => cx.pick(&["0", "1", "-1", "4294967295", "4294967296", "99999999999999999999", "1.5", " 7 ", "0x10"]).into(),
        5 => {
            // a date as 8 bytes
            let v = cx.pick(&[0i64, 1, -1, i64::MAX, i64::MIN, 1 << 40, -(1 << 40), 315_537_897_599, 315_537_897_600, 8_210_298_412_799, 1 << 55, -(1 << 55)]);
            b64(&v.to_le_bytes())
        }
        6 => {
            let n = cx.pick(&[0usize, 1, 7, 9, 15, 16, 17, 40]);
            b64(&Prng::new(cx.seed()).bytes(n))
        }
        7 => cx
            .pick(&[
                "2020-01-01T00:00:00Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:60Z", "99999-13-41T25:61:61Z", "-0001-01-01T00:00:00Z",
                "2020-01-01", "2020-02-30T00:00:00Z", "2020-01-01T00:00:00+14:00", "262143-12-31T23:59:59Z", "\u{661}\u{662}",
            ])
            .into(),
        8 => "====".into(),
        9 => "AAAA=AAA".into(),
        10 => "\u{e9}\u{20ac}\u{1f600}".into(),
        11 => "&amp;&lt;&#x41;&#0;".into(),
        12 => "&#x0;".into(),
        13 => "&#xFFFFFFFFFF;".into(),
        14 => "&nothing;".into(),
        15 => "<![CDATA[]]>".into(),
        16 => "<![CDATA[a]]b".into(),
        17 => "<!-- x -- y -->".into(),
        18 => "<!--".into(),
        19 => "<?pi x?>".into(),
        20 => "]]>".into(),
        21 => "\u{1}\u{fffe}".into(),
        22 => bulk_text(cx.seed(), cx.magnitude(3000) as usize),
        _ => gen_text(cx, TextOpts { illegal: true, ..PLAIN }),
    }
}
/// A text much like the given one.
fn twist(cx: &Cx, text: &str) -> String {
    let text = text.trim();
    match (cx.below(10), unb64(text)) {
        (0, _) => gen_value(cx),
        (8 | 9, _) => {
            // characters of several bytes, so that no byte position is safe to cut at
            let with = cx.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{661}"]);
            let n = text.chars().count();
            let (at, drop) = (cx.usize(n + 1), cx.usize(3));
            let mid = with.repeat(cx.range(1, 12) as usize);
            text.chars().take(at).chain(mid.chars()).chain(text.chars().skip(at + drop)).collect()
        }
        (1..=4, Some(mut d)) => {
            // an encoded value of another length
            match cx.below(4) {
                0 => d.truncate(cx.usize(d.len() + 1)),
                1 => d.extend(Prng::new(cx.seed()).bytes(cx.range(1, 20) as usize)),
                2 => {
                    let n = d.len();
                    if n > 0 {
                        d[cx.usize(n)] = cx.pick(&[0, 0x7f, 0x80, 0xff]);
                    }
                }
                _ => d = Prng::new(cx.seed()).bytes(d.len()),
            }
            b64(&d)
        }
        (5, _) => format!("{text}{}", cx.pick(&["=", "A", " ", "0", "-", "Z", "\u{e9}"])),
        (6, _) => text.chars().take(cx.usize(text.chars().count().max(1))).collect(),
        (7, _) => format!("{}{text}", cx.pick(&["=", "-", "+", " ", "0", "9999", "\u{661}"])),
        _ => {
            // one character changed
            let at = cx.usize(text.chars().count().max(1));
            let with = cx.pick(&['0', '9', '-', '+', '=', ':', 'T', 'z', '/', ' ', '\u{20ac}']);
            text.chars().enumerate().map(|(i, c)| if i == at { with } else { c }).collect()
        }
    }
}
fn gen_attrs(cx: &Cx) -> String {
    match cx.below(12) {
        0 => " Protected=\"True\"".into(),
        1 => " Protected=\"true\"".into(),
        2 => " Protected=\"False\"".into(),
        3 => " Protected=\"\"".into(),
        4 => " Protected".into(),
        5 => " a=\"1\" a=\"2\"".into(),
        6 => " Protected='True' Protected='False'".into(),
        7 => " xmlns=\"u\" xmlns:ns=\"v\"".into(),
        8 => " q:z=\"1\"".into(),
        9 => format!(" a=\"{}\"", "&lt;".repeat(cx.magnitude(500) as usize)),
        _ => String::new(),
    }
}
/// Random elements from the vocabulary, well nested or not.
fn soup(cx: &Cx, o: &mut String, depth: u64) {
    let n = cx.range(0, 5);
    for _ in 0..n {
        let name = NAMES[cx.usize(NAMES.len())];
        match cx.weighted(&[6, 6, 2, 1, 1]) {
            0 if depth > 0 => {
                o.push_str(&format!("<{name}{}>", gen_attrs(cx)));
                soup(cx, o, depth - 1);
                o.push_str(&format!("</{name}>"));
            }
            0 | 1 => o.push_str(&format!("<{name}{}>{}</{name}>", gen_attrs(cx), gen_value(cx))),
            2 => o.push_str(&format!("<{name}{}/>", gen_attrs(cx))),
            3 => o.push_str(&gen_value(cx)),
            _ => o.push_str(&format!("<{}{name}>", if cx.chance(1, 2) { "/" } else { "" })),
        }
    }
}
/// Split into tags and texts.
fn tokens(xml: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    for c in xml.chars() {
        if c == '<' && !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
        cur.push(c);
        if c == '>' {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn gen_xml(cx: &Cx, a: &rc::Archive, creds: &rc::Creds) -> (Vec<u8>, &'static str) {
    let _ = creds;
    let db = gen_db(cx, PLAIN);
    let mut l = Layout::choose(cx, a.major == 3);
    l.iso_dates = a.major == 3;
    if a.major == 3 && cx.chance(1, 2) {
        l.header_hash = Some(b64(&rc::sha256(&[&a.header()])));
    }
    let mut ks = a.keystream();
    let xml = crate::refxml::write_db(&db, &l, Some(&mut ks));
    let wrap = |inner: String| format!("<KeePassFile><Meta/><Root>{inner}</Root></KeePassFile>").into_bytes();
    match cx.weighted(&[6, 10, 6, 4, 4, 2, 2, 2, 2, 2, 1, 9]) {
        0 => (xml, "document"),
        11 => {
            let mut t = tokens(&String::from_utf8_lossy(&xml));
            let texts: Vec<usize> = (0..t.len()).filter(|i| !t[*i].starts_with('<') && !t[*i].trim().is_empty()).collect();
            if !texts.is_empty() {
                for _ in 0..cx.range(1, 3) {
                    let i = texts[cx.usize(texts.len())];
                    t[i] = twist(cx, &t[i]);
                }
            }
            (t.concat().into_bytes(), "text changed")
        }
        1 => {
            let mut t = tokens(&String::from_utf8_lossy(&xml));
            let n = t.len();
            let at = cx.usize(n);
            let what = match cx.below(7) {
                0 => {
                    let m = (at + 1 + cx.magnitude(20) as usize).min(n);
                    t.drain(at..m);
                    "tokens dropped"
                }
                1 => {
                    let m = (at + 1 + cx.magnitude(20) as usize).min(n);
                    let d: Vec<String> = t[at..m].to_vec();
                    let to = cx.usize(n);
                    for x in d.into_iter().rev() {
                        t.insert(to, x);
                    }
                    "tokens repeated"
                }
                2 => {
                    let b = cx.usize(n);
                    t.swap(at, b);
                    "tokens swapped"
                }
                3 => {
                    t.truncate(at);
                    "document cut at a token"
                }
                4 => {
                    // change a text
                    let texts: Vec<usize> = (0..n).filter(|i| !t[*i].starts_with('<')).collect();
                    if !texts.is_empty() {
                        let i = texts[cx.usize(texts.len())];
                        t[i] = gen_value(cx);
                    }
                    "text replaced"
                }
                5 => {
                    // rename an element, opening tag and the next closing tag of that name
                    let opens: Vec<usize> = (0..n).filter(|i| t[*i].starts_with('<') && !t[*i].starts_with("</") && !t[*i].starts_with("<!") && !t[*i].starts_with("<?")).collect();
                    if !opens.is_empty() {
                        let i = opens[cx.usize(opens.len())];
                        let name: String = t[i][1..].chars().take_while(|c| c.is_alphanumeric()).collect();
                        let new = NAMES[cx.usize(NAMES.len())];
                        t[i] = t[i].replacen(&name, new, 1);
                        let close = format!("</{name}>");
                        if let Some(j) = (i + 1..n).find(|j| t[*j] == close) {
                            t[j] = format!("</{new}>");
                        }
                    }
                    "element renamed"
                }
                _ => {
                    let mut s = String::new();
                    soup(cx, &mut s, 2);
                    t.insert(at, s);
                    "elements inserted"
                }
            };
            (t.concat().into_bytes(), what)
        }
        2 => {
            let mut s = String::new();
            soup(cx, &mut s, 4);
            if cx.chance(2, 3) {
                (wrap(s), "element soup")
            } else {
                (s.into_bytes(), "element soup")
            }
        }
        3 => {
            let (d, _) = damage::storage(cx, &xml, &[]);
            (d, "bytes of the document damaged")
        }
        4 => {
            // nesting, closed or not
            let depth = cx.pick(&[100u64, 127, 128, 129, 130, 1000, 10_000]) as usize;
            let name = cx.pick(&["Group", "x", "History", "Entry", "Meta", "CustomData", "Item", "Times", "KeePassFile", "Root", "String", "Value"]);
            let (open, close) = if name == "History" {
                ("<History><Entry>".to_string(), "</Entry></History>".to_string())
            } else if name == "Entry" && cx.chance(1, 2) {
                ("<Entry><History>".to_string(), "</History></Entry>".to_string())
            } else {
                (format!("<{name}>"), format!("</{name}>"))
            };
            let mut s = open.repeat(depth);
            if cx.chance(2, 3) {
                s.push_str(&close.repeat(depth));
            }
            let s = match cx.below(4) {
                0 => wrap(format!("<Group>{s}</Group>")),
                1 => wrap(format!("<Group><Entry>{s}</Entry></Group>")),
                2 => s.into_bytes(),
                _ => wrap(s),
            };
            (s, "deep nesting")
        }
        5 => {
            let n = cx.magnitude(60_000) as usize;
            let e = cx.pick(&["<Entry/>", "<Group/>", "<x/>", "<Entry><String/></Entry>", "<Entry><History><Entry/></History></Entry>"]);
            (wrap(format!("<Group>{}</Group>", e.repeat(n))), "many elements")
        }
        6 => {
            let dt = match cx.below(4) {
                0 => "<!DOCTYPE x [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;&a;&a;\"><!ENTITY c \"&b;&b;&b;&b;&b;&b;&b;&b;&b;&b;\"><!ENTITY d \"&c;&c;&c;&c;&c;&c;&c;&c;&c;&c;\"><!ENTITY e \"&d;&d;&d;&d;&d;&d;&d;&d;&d;&d;\"><!ENTITY f \"&e;&e;&e;&e;&e;&e;&e;&e;&e;&e;\"><!ENTITY g \"&f;&f;&f;&f;&f;&f;&f;&f;&f;&f;\"><!ENTITY h \"&g;&g;&g;&g;&g;&g;&g;&g;&g;&g;\">]>",
                1 => "<!DOCTYPE x [<!ENTITY h \"&h;\">]>",
                2 => "<!DOCTYPE x SYSTEM \"file:///etc/passwd\">",
                _ => "<!DOCTYPE x [<!ENTITY h \"<Group><Name>n</Name></Group>\">]>",
            };
            let mut d = dt.as_bytes().to_vec();
            d.extend(format!("<KeePassFile><Meta><DatabaseName>&h;</DatabaseName></Meta><Root><Group><Name>&h;</Name>{}</Group></Root></KeePassFile>", if cx.chance(1, 2) { "&h;" } else { "" }).into_bytes());
            (d, "entity declarations")
        }
        7 => {
            // other encodings
            let s = String::from_utf8_lossy(&xml).to_string();
            let d: Vec<u8> = match cx.below(5) {
                0 => [0xfeu8, 0xff].into_iter().chain(s.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(),
                1 => [0xffu8, 0xfe].into_iter().chain(s.encode_utf16().flat_map(|u| u.to_le_bytes())).collect(),
                2 => [0xefu8, 0xbb, 0xbf].into_iter().chain(s.bytes()).collect(),
                3 => format!("<?xml version=\"1.0\" encoding=\"{}\"?>{s}", cx.pick(&["UTF-16", "ISO-8859-1", "ascii", "x", ""])).into_bytes(),
                _ => s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
            };
            (d, "encodings")
        }
        8 => {
            let d = match cx.below(9) {
                0 => Vec::new(),
                1 => b" ".to_vec(),
                2 => b"<KeePassFile/>".to_vec(),
                3 => b"<KeePassFile><Root/></KeePassFile>".to_vec(),
                4 => b"<KeePassFile><Meta/></KeePassFile>".to_vec(),
                5 => b"<KeePassFile><Root><Group/><Group/></Root></KeePassFile>".to_vec(),
                6 => b"<KeePassFile><Root><Group/></Root><Root><Group/></Root></KeePassFile>".to_vec(),
                7 => b"<Root><Group/></Root>".to_vec(),
                _ => Prng::new(cx.seed()).bytes(cx.magnitude(2000) as usize),
            };
            (d, "near-empty document")
        }
        9 => {
            // one very long piece
            let n = cx.magnitude(400_000) as usize;
            let piece = "y".repeat(n);
            let s = match cx.below(5) {
                0 => format!("<{piece}/>"),
                1 => format!("<Group {piece}=\"1\"/>"),
                2 => format!("<Group a=\"{piece}\"/>"),
                3 => format!("<!--{piece}--><Group/>"),
                _ => format!("<Group><Name>&{piece};</Name></Group>"),
            };
            (wrap(s), "long token")
        }
        _ => {
            let n = cx.magnitude(3000) as usize;
            let attrs: String = (0..n).map(|i| format!(" a{i}=\"\"")).collect();
            (wrap(format!("<Group{attrs}/>")), "many attributes")
        }
    }
}

fn odd_len(cx: &Cx) -> u32 {
    match cx.below(4) {
        0 => cx.pick(&[0u32, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64]),
        1 => cx.pick(&[u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000, 0x4000_0000]),
        2 => 1 << cx.range(16, 31),
        _ => cx.magnitude(100_000) as u32,
    }
}

/// Serialised TLV fields, possibly malformed.
fn tlv(cx: &Cx, fields: &[(u8, Vec<u8>)], wide: bool, what: &mut &'static str) -> Vec<u8> {
    let mut f = fields.to_vec();
    let mut lie: Option<(usize, u32)> = None;
    let n = f.len();
    let at = cx.usize(n);
    match cx.below(11) {
        0 => {
            f.remove(at);
            *what = "field missing";
        }
        1 => {
            let c = f[at].clone();
            let to = cx.usize(n);
            f.insert(to, c);
            *what = "field repeated";
        }
        2 => {
            let n = odd_len(cx).min(70_000) as usize;
            f[at].1.resize(n, 0x41);
            *what = "field of another length";
        }
        3 => {
            f[at].1 = Prng::new(cx.seed()).bytes(f[at].1.len());
            *what = "field with random content";
        }
        4 => {
            lie = Some((at, odd_len(cx)));
            *what = "field length wrong";
        }
        5 => {
            f[at].0 = cx.below(256) as u8;
            *what = "field id changed";
        }
        6 => {
            f.truncate(at);
            *what = "fields cut off";
        }
        7 => {
            let b = cx.usize(n);
            f.swap(at, b);
            *what = "fields swapped";
        }
        8 => {
            for _ in 0..cx.magnitude(3000) {
                f.insert(at, (cx.pick(&[1u8, 3, 12, 77]), Vec::new()));
            }
            *what = "many fields";
        }
        9 => {
            if !f[at].1.is_empty() {
                let i = cx.usize(f[at].1.len());
                f[at].1[i] = f[at].1[i].wrapping_add(1 + cx.below(255) as u8);
            }
            *what = "field byte changed";
        }
        _ => *what = "fields intact",
    }
    let mut o = Vec::new();
    for (i, (id, d)) in f.iter().enumerate() {
        o.push(*id);
        let len = match lie {
            Some((j, l)) if i == j => l,
            _ => d.len() as u32,
        };
        if wide {
            o.extend_from_slice(&len.to_le_bytes());
        } else {
            o.extend_from_slice(&(len as u16).to_le_bytes());
        }
        if wide || d.len() < 65536 {
            o.extend_from_slice(d);
        } else {
            o.extend_from_slice(&d[..d.len() & 0xffff]);
        }
    }
    o
}

/// A dictionary of key derivation settings, possibly malformed.
fn bad_vdict(cx: &Cx, kdf: &rc::RKdf) -> (Vec<u8>, &'static str) {
    let mut e = rc::kdf_entries(kdf, false);
    let n = e.len();
    let at = cx.usize(n);
    let what;
    match cx.below(10) {
        0 => {
            e.remove(at);
            what = "setting missing";
        }
        1 => {
            // another type of the right or a wrong length
            let (ty, len) = cx.pick(&[(4u8, 4usize), (5, 8), (8, 1), (12, 4), (13, 8), (0x18, 7), (0x42, 9), (4, 3), (5, 0), (8, 0), (8, 9), (12, 8), (13, 4), (0x99, 5), (1, 0)]);
            e[at].0 = ty;
            e[at].2 = Prng::new(cx.seed()).bytes(len);
            what = "setting of another type";
        }
        2 => {
            let len = odd_len(cx).min(5000) as usize;
            e[at].2.resize(len, 1);
            what = "setting of another length";
        }
        3 => {
            // numbers beyond what can be honoured
            let v = cx.pick(&[u64::MAX, 1 << 42, 1 << 43, 1 << 63, 0]);
            for x in e.iter_mut() {
                if x.1 == b"M" {
                    x.2 = v.to_le_bytes().to_vec();
                }
            }
            what = "impossible memory";
        }
        4 => {
            for x in e.iter_mut() {
                if x.1 == b"V" || x.1 == b"P" {
                    x.2 = cx.pick(&[0u32, 1, 0x10, 0x12, 0x14, 1 << 24, u32::MAX]).to_le_bytes().to_vec();
                }
            }
            what = "odd version or lanes";
        }
        5 => {
            for x in e.iter_mut() {
                if x.1 == b"S" {
                    x.2 = Prng::new(cx.seed()).bytes(cx.pick(&[0usize, 1, 7, 8, 31, 33, 500]));
                }
            }
            what = "odd salt";
        }
        6 => {
            e[at].1 = gen_value(cx).into_bytes();
            if cx.chance(1, 3) {
                e[at].1 = vec![0xff, 0xfe, 0x00];
            }
            what = "setting renamed";
        }
        7 => {
            let x = e[at].clone();
            e.push(x);
            what = "setting repeated";
        }
        _ => what = "dictionary bytes",
    }
    let mut d = rc::vdict_bytes(&e);
    if what == "dictionary bytes" {
        match cx.below(4) {
            0 => d.truncate(cx.below(d.len() as u64 + 1) as usize),
            1 => {
                let i = cx.usize(d.len());
                d[i] = cx.below(256) as u8;
            }
            2 => {
                // a length field
                let l = odd_len(cx).to_le_bytes();
                let i = cx.usize(d.len().saturating_sub(4).max(1)).min(d.len() - 4);
                d[i..i + 4].copy_from_slice(&l);
            }
            _ => d.extend(Prng::new(cx.seed()).bytes(cx.below(40) as usize)),
        }
    }
    (d, what)
}

/// An archive that is malformed in one or two layers and consistent in all others.
fn build(cx: &Cx, creds: &rc::Creds) -> (Vec<u8>, usize, String) {
    let major = if cx.chance(3, 5) { 4 } else { 3 };
    let mut a = gen_archive(cx, major, 2000);
    let mut notes: Vec<&'static str> = Vec::new();
    // which layers
    let mut layers = vec![cx.weighted(&[10, 5, 4, 3, 3, 4, 2])];
    if cx.chance(1, 6) {
        layers.push(cx.weighted(&[10, 5, 4, 3, 3, 4, 2]));
    }
    let has = |l: usize| layers.contains(&l);
    let xml = if has(0) {
        let (x, w) = gen_xml(cx, &a, creds);
        notes.push(w);
        x
    } else {
        let mut l = Layout::plain();
        l.iso_dates = major == 3;
        let mut ks = a.keystream();
        crate::refxml::write_db(&gen_db(cx, PLAIN), &l, Some(&mut ks))
    };
    if xml.len() > 200_000 {
        if a.cipher == rc::RCipher::TwoFish {
            a.cipher = rc::RCipher::ChaCha20;
            a.iv.resize(12, 3);
        }
        a.block_lens = vec![1 << 20];
    }
    // outer header
    let mut what = "";
    let mut fields = a.outer_fields();
    let mut seed = a.seed.clone();
    if has(3) && major >= 4 {
        let (d, w) = bad_vdict(cx, &a.kdf);
        notes.push(w);
        for f in fields.iter_mut() {
            if f.0 == 11 {
                f.1 = d.clone();
            }
        }
    }
    let mut header = rc::header_bytes(a.major, a.minor, &fields);
    if has(2) {
        let mut h = header[..12].to_vec();
        h.extend(tlv(cx, &fields, major >= 4, &mut what));
        header = h;
        notes.push("outer");
        notes.push(what);
    }
    // the keys this header leads to, as far as it can be read
    if let Ok((_, _, f, _)) = rc::parse_header(&header) {
        if let Some(s) = f.iter().find(|f| f.0 == 4) {
            seed = s.1.clone();
        }
        if let Some(iv) = f.iter().find(|f| f.0 == 7) {
            if iv.1.len() == a.cipher.iv_len() {
                a.iv = iv.1.clone();
            }
        }
    }
    let mut kdf = a.kdf.clone();
    if major >= 4 {
        if let Some(k) = fields.iter().find(|f| f.0 == 11).and_then(|f| rc::parse_vdict(&f.1).ok()).and_then(|e| rc::kdf_from(&e).ok()) {
            kdf = k;
        }
    }
    if costly(&l_kdf(&kdf)) {
        kdf = a.kdf.clone();
    }
    let t = rc::transform(creds, &kdf).unwrap_or([1; 32]);
    let ck = rc::cipher_key(&seed, &t);
    let hk = rc::hmac_key(&seed, &t);
    // inner header, compression, encryption, blocks
    let mut plain = Vec::new();
    if major >= 4 {
        if has(1) {
            plain = tlv(cx, &a.inner_fields(), true, &mut what);
            notes.push("inner");
            notes.push(what);
        } else {
            plain = rc::inner_header_bytes(&a.inner_fields());
        }
    }
    plain.extend_from_slice(&xml);
    let unpacked = plain.len();
    let pack = |cx: &Cx, d: &[u8], notes: &mut Vec<&'static str>| -> Vec<u8> {
        let Some(s) = a.gzip else { return d.to_vec() };
        let mut z = rc::gzip(d, s, &a.gzip_lens);
        if has(4) {
            match cx.below(6) {
                0 => {
                    z = d.to_vec();
                    notes.push("not compressed");
                }
                1 => {
                    z.truncate(cx.below(z.len() as u64) as usize);
                    notes.push("compressed data cut");
                }
                2 => {
                    let i = cx.usize(z.len());
                    z[i] ^= 1 << cx.below(8);
                    notes.push("compressed data damaged");
                }
                3 => {
                    let i = cx.usize(z.len().min(12));
                    z[i] = cx.below(256) as u8;
                    notes.push("compression header damaged");
                }
                4 => {
                    let again = z.clone();
                    z.extend(again);
                    notes.push("second compressed member");
                }
                _ => {
                    let p = Prng::new(cx.seed()).bytes(cx.magnitude(400) as usize);
                    z.extend(p);
                    notes.push("data after compressed data");
                }
            }
        }
        z
    };
    let seal = |cx: &Cx, d: &[u8], notes: &mut Vec<&'static str>| -> Vec<u8> {
        if !has(5) {
            return rc::encrypt(a.cipher, &ck, &a.iv, d);
        }
        let mut p = d.to_vec();
        match cx.below(5) {
            0 => {
                // bad padding
                let n = 16 - p.len() % 16;
                p.resize(p.len() + n, cx.pick(&[0u8, 17, 255, 1, 16]));
                notes.push("bad padding");
            }
            1 => {
                p.clear();
                notes.push("no data");
            }
            2 => {
                let mut c = rc::encrypt(a.cipher, &ck, &a.iv, d);
                let k = 1 + cx.below(15.min(c.len() as u64)) as usize;
                c.truncate(c.len() - k);
                notes.push("partial cipher block");
                return c;
            }
            3 => {
                p.truncate(p.len() / 16 * 16);
                notes.push("no padding");
            }
            _ => {
                let m = p.len().min(cx.below(200) as usize);
                p.truncate(m);
                let mut c = rc::encrypt(a.cipher, &ck, &a.iv, &p);
                if cx.chance(1, 2) {
                    c.extend(vec![7; 16]);
                }
                notes.push("data cut before encryption");
                return c;
            }
        }
        rc::encrypt_nopad(a.cipher, &ck, &a.iv, &p)
    };
    let mut out = header.clone();
    if major >= 4 {
        let z = pack(cx, &plain, &mut notes);
        let enc = seal(cx, &z, &mut notes);
        out.extend_from_slice(&rc::sha256(&[&header]));
        out.extend_from_slice(&rc::hmac256(&rc::block_key(&hk, u64::MAX), &[&header]));
        if has(6) {
            let mut parts: Vec<Vec<u8>> = rc::split(&enc, &a.block_lens).into_iter().map(|p| p.to_vec()).collect();
            match cx.below(6) {
                0 => notes.push("no terminator"),
                1 => {
                    let i = cx.usize(parts.len() + 1);
                    parts.insert(i, Vec::new());
                    notes.push("empty block inside");
                }
                2 => {
                    parts.clear();
                    notes.push("no blocks");
                }
                3 => {
                    parts.push(Vec::new());
                    parts.push(vec![1; 40]);
                    notes.push("blocks after the terminator");
                }
                4 => {
                    for p in parts.iter().enumerate() {
                        out.extend_from_slice(&rc::hmac_block(&hk, p.0 as u64, p.1));
                    }
                    let l = odd_len(cx);
                    out.extend_from_slice(&rc::sha256(&[b"x"]));
                    out.extend_from_slice(&l.to_le_bytes());
                    out.extend(vec![9; cx.magnitude(5000) as usize]);
                    notes.push("block with a wrong length");
                    return (out, unpacked, note(major, &notes));
                }
                _ => {
                    out.truncate(out.len() - cx.below(64) as usize);
                    notes.push("cut in the header hashes");
                    return (out, unpacked, note(major, &notes));
                }
            }
            for (i, p) in parts.iter().enumerate() {
                out.extend_from_slice(&rc::hmac_block(&hk, i as u64, p));
            }
            if !notes.contains(&"no terminator") {
                out.extend_from_slice(&rc::hmac_block(&hk, parts.len() as u64, &[]));
            }
        } else {
            out.extend_from_slice(&rc::hmac_blocks(&hk, &enc, &a.block_lens));
        }
    } else {
        let z = pack(cx, &plain, &mut notes);
        let mut p = a.start_bytes.clone();
        if has(6) || has(1) {
            let parts = rc::split(&z, &a.block_lens);
            let odd = cx.below(7);
            for (i, b) in parts.iter().enumerate() {
                p.extend_from_slice(&(i as u32).to_le_bytes());
                p.extend_from_slice(&rc::sha256(&[b]));
                p.extend_from_slice(&(b.len() as u32).to_le_bytes());
                p.extend_from_slice(b);
            }
            match odd {
                0 => notes.push("no final block"),
                1 => {
                    p.extend_from_slice(&7u32.to_le_bytes());
                    p.extend_from_slice(&[0; 32]);
                    p.extend_from_slice(&odd_len(cx).to_le_bytes());
                    p.extend(vec![3; cx.magnitude(500) as usize]);
                    notes.push("block with a wrong length");
                }
                2 => {
                    p.extend_from_slice(&7u32.to_le_bytes());
                    p.extend_from_slice(&rc::sha256(&[]));
                    p.extend_from_slice(&[0; 4]);
                    notes.push("final block with a hash");
                }
                3 => {
                    p.truncate(cx.below(p.len() as u64 + 1) as usize);
                    notes.push("blocks cut");
                }
                4 => {
                    p.drain(..(cx.below(40) as usize).min(p.len()));
                    notes.push("start bytes cut");
                }
                5 => {
                    p.extend_from_slice(&u32::MAX.to_le_bytes());
                    p.extend_from_slice(&[0; 36]);
                    p.extend(vec![5; cx.magnitude(300) as usize]);
                    notes.push("data after the final block");
                }
                _ => {
                    let i = cx.usize(p.len());
                    p[i] ^= 0x10;
                    p.extend_from_slice(&[0; 40]);
                    notes.push("block byte changed");
                }
            }
        } else {
            p.extend_from_slice(&rc::hashed_blocks(&z, &a.block_lens));
        }
        let enc = seal(cx, &p, &mut notes);
        out.extend_from_slice(&enc);
    }
    (out, unpacked, note(major, &notes))
}
fn note(major: u16, notes: &[&str]) -> String {
    format!("v{major}: {}", notes.join(", "))
}

/// More work or memory than this simulation grants key derivation.
pub fn costly(k: &KdfParams) -> bool {
    match k {
        KdfParams::Aes { rounds, .. } => *rounds > 20_000,
        KdfParams::Argon2 { memory_bytes, lanes, iterations, .. } => {
            let possible = *memory_bytes < 1 << 42 && *iterations < 1 << 32;
            possible && (*memory_bytes > 1 << 20 || *iterations > 20 || (*lanes > 16 && u64::from(*lanes) * 8192 <= *memory_bytes))
        }
        KdfParams::Unknown { .. } => false,
    }
}

/// Use the database the way an application would.
fn use_it(cx: &Cx, k: &mut Kdbx<Unlocked>, creds: &rc::Creds) -> R {
    let db = content(k)?;
    lib("using the database", || {
        let d = k.database().clone();
        assert!(d == *k.database(), "a copy differs");
        std::hint::black_box(format!("{:?}", k));
        let n = d.root().recursive_entries().count() + d.root().recursive_groups().count();
        std::hint::black_box(n);
        let _ = d.find_entry(|_| false).is_some() || d.find_group(|_| false).is_some();
        for e in d.root().recursive_entries() {
            std::hint::black_box((e.title(), e.password(), e.otp().and_then(|o| o.period())));
        }
    })?;
    // and store it again with settings of our own
    k.header_mut().cipher = l_cipher(rc::RCipher::ChaCha20);
    k.header_mut().kdf_params = l_kdf(&rc::RKdf::Aes { rounds: 1, salt: vec![4; 32] });
    k.header_mut().compression_type = l_gzip(false);
    k.inner_header_mut().inner_stream_cipher = l_inner(rc::RInner::ChaCha20);
    let r = save(cx, k)?;
    if let Ok(b) = r {
        cx.count("probe.results_saved");
        reopen_expect("saved again", &b, creds, &db)?;
    }
    Ok(())
}

fn run(cx: &Cx) -> R {
    let r = run_one(cx);
    cx.count_n("fault.standard_stream_failed", interpose::env().unwrap().console_failed);
    r
}
fn run_one(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let (bytes, unpacked, what) = match cx.weighted(&[12, 2, 1]) {
        0 => build(cx, &creds),
        1 => {
            // damaged without repair of any hash, or of the header hash only
            let Some((b, _, _)) = super::c07::any_archive(cx)? else { return Ok(()) };
            let (mut d, w) = damage::storage(cx, &b, &[(0, 12), (12, 300.min(b.len()))]);
            if cx.chance(1, 2) {
                if let Ok((4, _, _, hl)) = rc::parse_header(&d) {
                    if d.len() >= hl + 32 {
                        let h = rc::sha256(&[&d[..hl]]);
                        d[hl..hl + 32].copy_from_slice(&h);
                    }
                }
            }
            let n = d.len();
            (d, n, format!("stored bytes: {w}"))
        }
        _ => {
            let n = cx.magnitude(3000) as usize;
            let mut d = Vec::new();
            if cx.chance(3, 4) {
                d.extend_from_slice(&rc::header_bytes(cx.pick(&[0u16, 1, 2, 3, 4, 5, 65535]), cx.below(3) as u16, &[])[..12]);
            }
            d.extend(Prng::new(cx.seed()).bytes(n));
            (d, n, "random bytes".to_string())
        }
    };
    cx.ev_data("bytes", &bytes);
    cx.ev(&what);
    cx.sig_str(&what);
    cx.count("fault.malformed_archive");
    cx.sample(format!("{what}; {} bytes stored, {unpacked} unpacked", bytes.len()));
    let bound = (24 << 20) + 256 * (bytes.len() + unpacked) as i64;
    let size = bytes.len();
    let frag = if cx.chance(1, 4) { Frag::choose(cx) } else { Frag::none() };
    if cx.chance(1, 4) {
        // nobody reads the standard output of the process any more, or its file system is full
        interpose::env().unwrap().console_errno = cx.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
    }
    let rd = SimReader::new(cx, Arc::new(bytes), frag, InFault::None);
    let start = ALLOC.with(|a| {
        a.peak.set(a.live.get());
        a.live.get()
    });
    let check = |stage: &str| -> R {
        let used = ALLOC.with(|a| a.peak.get()) - start;
        ensure!(
            used <= bound,
            "memory out of proportion",
            "{stage} an archive of {size} stored and {unpacked} unpacked bytes took {used} bytes of memory ({what})"
        );
        Ok(())
    };
    let opened = lib("opening", || kdbx_rs::from_reader(rd))?;
    check("opening")?;
    let locked = match opened {
        Err(e) => {
            cx.sig_str(&kind_of(&format!("{e:?}")));
            cx.count("probe.rejected_on_open");
            return Ok(());
        }
        Ok(l) => l,
    };
    if costly(&locked.header().kdf_params) {
        cx.count("probe.left_out_as_costly");
        return Ok(());
    }
    match unlock(locked, &creds)? {
        Err((_, e)) => {
            check("unlocking")?;
            cx.sig_str(&kind_of(&format!("{e:?}")));
            cx.count("probe.rejected_on_unlock");
        }
        Ok(mut k) => {
            check("unlocking")?;
            cx.count("probe.accepted");
            cx.sig(1);
            use_it(cx, &mut k, &creds)?;
        }
    }
    Ok(())
}
