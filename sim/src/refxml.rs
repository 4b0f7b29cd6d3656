//! Reference XML: an independent strict reader and a writer with free layout.

use crate::choice::Prng;
use crate::ctx::Cx;
use crate::model::*;
use crate::refcodec::Keystream;
use base64::prelude::{Engine, BASE64_STANDARD as B64};

// ---- strict reader ----------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    /// character data directly inside this element, in order
    pub text: String,
    pub kids: Vec<El>,
}
impl El {
    pub fn kid(&self, n: &str) -> Option<&El> {
        self.kids.iter().find(|k| k.name == n)
    }
}

fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
type X<T> = Result<T, String>;
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> X<T> {
        Err(format!("XML: {m} at byte {}", self.i))
    }
    fn ws(&mut self) {
        while self.rest().starts_with([' ', '\t', '\n', '\r']) {
            self.i += 1;
        }
    }
    fn until(&mut self, t: &str) -> X<&'a str> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.i += n + t.len();
                Ok(r)
            }
            None => self.err(&format!("no {t}")),
        }
    }
    fn name(&mut self) -> X<String> {
        let n = self
            .rest()
            .find(|c: char| !(c.is_alphanumeric() || "_-.:".contains(c)))
            .unwrap_or(self.rest().len());
        if n == 0 {
            return self.err("name expected");
        }
        let r = self.rest()[..n].to_string();
        self.i += n;
        Ok(r)
    }
    fn reference(&mut self) -> X<char> {
        let body = self.until(";")?;
        Ok(match body {
            "&amp" => '&',
            "&lt" => '<',
            "&gt" => '>',
            "&quot" => '"',
            "&apos" => '\'',
            _ => {
                let v = if let Some(h) = body.strip_prefix("&#x") {
                    u32::from_str_radix(h, 16)
                } else if let Some(d) = body.strip_prefix("&#") {
                    d.parse()
                } else {
                    return self.err("unknown entity");
                };
                let c = v.ok().and_then(char::from_u32);
                match c {
                    Some(c) if legal(c) => c,
                    _ => return self.err("bad character reference"),
                }
            }
        })
    }
    fn misc(&mut self) -> X<()> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.until("-->")?;
            } else if self.at("<?") {
                self.i += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, depth: usize) -> X<El> {
        if depth > 4000 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("element expected");
        }
        let name = self.name()?;
        let mut el = El {
            name,
            attrs: Vec::new(),
            text: String::new(),
            kids: Vec::new(),
        };
        loop {
            self.ws();
            if self.eat("/>") {
                return Ok(el);
            }
            if self.eat(">") {
                break;
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("= expected");
            }
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return self.err("quote expected");
            };
            let mut v = String::new();
            loop {
                match self.rest().chars().next() {
                    None => return self.err("end in attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) => {
                        self.i += c.len_utf8();
                        v.push(if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c });
                    }
                }
            }
            if el.attrs.iter().any(|a| a.0 == n) {
                return self.err("duplicate attribute");
            }
            el.attrs.push((n, v));
        }
        loop {
            if self.eat("</") {
                let n = self.name()?;
                if n != el.name {
                    return self.err("wrong end tag");
                }
                self.ws();
                if !self.eat(">") {
                    return self.err("> expected");
                }
                return Ok(el);
            }
            if self.eat("<!--") {
                self.until("-->")?;
            } else if self.eat("<![CDATA[") {
                el.text.push_str(self.until("]]>")?);
            } else if self.at("<?") {
                self.i += 2;
                self.until("?>")?;
            } else if self.at("<") {
                el.kids.push(self.element(depth + 1)?);
            } else if self.at("&") {
                el.text.push(self.reference()?);
            } else {
                let n = self.rest().find(['<', '&']).unwrap_or(self.rest().len());
                if n == 0 {
                    return self.err("end of document inside an element");
                }
                let t = &self.rest()[..n];
                if t.contains("]]>") {
                    return self.err("]]> in text");
                }
                el.text.push_str(t);
                self.i += n;
            }
        }
    }
}

/// Parse a complete document, strictly by XML 1.0 as far as this format uses it.
pub fn parse_doc(data: &[u8]) -> X<El> {
    let s = std::str::from_utf8(data).map_err(|e| format!("XML: {e}"))?;
    let s = s.strip_prefix('\u{FEFF}').unwrap_or(s);
    if let Some(c) = s.chars().find(|c| !legal(*c)) {
        return Err(format!("XML: illegal character {:#x}", c as u32));
    }
    // end-of-line handling, XML 1.0 section 2.11
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = P { s: &s, i: 0 };
    if p.eat("<?xml") {
        p.until("?>")?;
    }
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if !p.rest().is_empty() {
        return p.err("content after the root element");
    }
    Ok(e)
}

// ---- document -> model ------------------------------------------------------------------------

fn text_of(e: &El, n: &str) -> String {
    e.kid(n).map(|k| k.text.clone()).unwrap_or_default()
}
fn bool_of(e: &El, n: &str) -> X<bool> {
    match text_of(e, n).as_str() {
        "True" => Ok(true),
        "False" => Ok(false),
        o => Err(format!("{n}: not a boolean: {o:?}")),
    }
}
fn uuid_of(e: &El) -> X<[u8; 16]> {
    B64.decode(text_of(e, "UUID"))
        .ok()
        .and_then(|v| v.try_into().ok())
        .ok_or_else(|| format!("bad UUID in {}", e.name))
}
fn time_of(e: &El, n: &str) -> X<i64> {
    let v = B64
        .decode(text_of(e, n))
        .map_err(|_| format!("{n}: not base64"))?;
    let a: [u8; 8] = v
        .try_into()
        .map_err(|_| format!("{n}: time is not 8 bytes"))?;
    Ok(i64::from_le_bytes(a))
}
fn times_of(e: &El) -> X<MTimes> {
    let t = e.kid("Times").ok_or("no Times")?;
    Ok(MTimes {
        t: [
            time_of(t, "LastModificationTime")?,
            time_of(t, "CreationTime")?,
            time_of(t, "LastAccessTime")?,
            time_of(t, "ExpiryTime")?,
            time_of(t, "LocationChanged")?,
        ],
        expires: bool_of(t, "Expires")?,
        usage: text_of(t, "UsageCount")
            .parse()
            .map_err(|_| "UsageCount")?,
    })
}
/// Decrypt every protected element in document order, in place.
fn unprotect(e: &mut El, ks: &mut Keystream) -> X<()> {
    if e.attrs.iter().any(|a| a.0 == "Protected" && a.1 == "True") {
        let mut v = B64
            .decode(&e.text)
            .map_err(|_| "protected value is not base64".to_string())?;
        ks.apply(&mut v);
        e.text =
            String::from_utf8(v).map_err(|_| "protected value is not UTF-8 text".to_string())?;
    }
    for k in &mut e.kids {
        unprotect(k, ks)?;
    }
    Ok(())
}
fn field_of(e: &El) -> X<MField> {
    let v = e.kid("Value").ok_or("no Value")?;
    Ok(MField {
        key: text_of(e, "Key"),
        value: v.text.clone(),
        protected: v.attrs.iter().any(|a| a.0 == "Protected" && a.1 == "True"),
    })
}
fn entry_of(e: &El) -> X<MEntry> {
    let mut hist = Vec::new();
    for h in e.kids.iter().filter(|k| k.name == "History") {
        for x in h.kids.iter().filter(|k| k.name == "Entry") {
            hist.push(entry_of(x)?);
        }
    }
    Ok(MEntry {
        uuid: uuid_of(e)?,
        fields: e
            .kids
            .iter()
            .filter(|k| k.name == "String")
            .map(field_of)
            .collect::<X<_>>()?,
        history: hist,
        times: times_of(e)?,
    })
}
fn group_of(e: &El) -> X<MGroup> {
    Ok(MGroup {
        uuid: uuid_of(e)?,
        name: text_of(e, "Name"),
        entries: e
            .kids
            .iter()
            .filter(|k| k.name == "Entry")
            .map(entry_of)
            .collect::<X<_>>()?,
        groups: e
            .kids
            .iter()
            .filter(|k| k.name == "Group")
            .map(group_of)
            .collect::<X<_>>()?,
        times: times_of(e)?,
    })
}
pub fn read_db(xml: &[u8], ks: &mut Keystream) -> X<MDb> {
    let mut d = parse_doc(xml)?;
    if d.name != "KeePassFile" {
        return Err(format!("root element {}", d.name));
    }
    unprotect(&mut d, ks)?;
    let m = d.kid("Meta").ok_or("no Meta")?;
    let mp = m.kid("MemoryProtection").ok_or("no MemoryProtection")?;
    let root = d.kid("Root").ok_or("no Root")?;
    let groups: Vec<&El> = root.kids.iter().filter(|k| k.name == "Group").collect();
    if groups.len() != 1 {
        return Err(format!("{} root groups", groups.len()));
    }
    Ok(MDb {
        name: text_of(m, "DatabaseName"),
        desc: text_of(m, "DatabaseDescription"),
        custom: match m.kid("CustomData") {
            None => Vec::new(),
            Some(c) => c
                .kids
                .iter()
                .filter(|k| k.name == "Item")
                .map(field_of)
                .collect::<X<_>>()?,
        },
        prot: [
            bool_of(mp, "ProtectTitle")?,
            bool_of(mp, "ProtectUserName")?,
            bool_of(mp, "ProtectPassword")?,
            bool_of(mp, "ProtectURL")?,
            bool_of(mp, "ProtectNotes")?,
        ],
        root: group_of(groups[0])?,
    })
}

// ---- writer with free layout ------------------------------------------------------------------

/// Layout choices of another client.
#[derive(Clone, Debug)]
pub struct Layout {
    pub decl: u64,
    pub indent: u64,
    pub cdata: bool,
    pub charrefs: bool,
    pub comments: bool,
    pub unknown: bool,
    /// unknown elements that contain elements with interpreted names
    pub nested_unknown: bool,
    /// uninterpreted protected data, which advances the inner stream
    pub unknown_protected: bool,
    pub shuffle: bool,
    pub selfclose: bool,
    pub iso_dates: bool,
    pub lower_bool: bool,
    pub pad_text: bool,
    pub omit_defaults: bool,
    pub seed: u64,
    /// processing instructions inside texts
    pub instructions: bool,
    /// line feeds written as CR LF, which XML readers take as a line feed
    pub crlf: bool,
    /// base64 of the header hash for KDBX 3
    pub header_hash: Option<String>,
}
impl Layout {
    pub fn plain() -> Layout {
        Layout {
            decl: 0,
            indent: 0,
            cdata: false,
            charrefs: false,
            comments: false,
            unknown: false,
            nested_unknown: false,
            unknown_protected: false,
            shuffle: false,
            selfclose: false,
            iso_dates: false,
            lower_bool: false,
            pad_text: false,
            omit_defaults: false,
            instructions: false,
            crlf: false,
            seed: 0,
            header_hash: None,
        }
    }
    pub fn choose(cx: &Cx, v3: bool) -> Layout {
        let mut l = Layout::plain();
        l.decl = cx.below(5);
        l.indent = cx.below(5);
        l.cdata = cx.chance(1, 3);
        l.charrefs = cx.chance(1, 3);
        l.comments = cx.chance(1, 3);
        l.unknown = cx.chance(1, 2);
        l.nested_unknown = cx.chance(1, 4);
        l.unknown_protected = cx.chance(1, 4);
        l.shuffle = cx.chance(1, 3);
        l.selfclose = cx.chance(1, 3);
        l.iso_dates = v3;
        l.lower_bool = cx.chance(1, 6);
        l.pad_text = cx.chance(1, 6);
        l.omit_defaults = cx.chance(1, 6);
        l.instructions = cx.chance(1, 5);
        l.crlf = cx.chance(1, 6);
        l.seed = cx.seed();
        l
    }
    pub fn bits(&self) -> u64 {
        let mut b = self.decl * 8 + self.indent;
        for x in [
            self.cdata,
            self.charrefs,
            self.comments,
            self.unknown,
            self.nested_unknown,
            self.unknown_protected,
            self.shuffle,
            self.selfclose,
            self.iso_dates,
            self.lower_bool,
            self.pad_text,
            self.omit_defaults,
            self.instructions,
            self.crlf,
        ] {
            b = b * 2 + x as u64;
        }
        b
    }
}

pub struct W<'a> {
    l: Layout,
    p: Prng,
    ks: Option<&'a mut Keystream>,
    pub out: String,
    depth: usize,
}

/// A piece of the document to be written; children are written lazily so that the keystream follows document order.
enum N<'m> {
    Text(&'static str, String),
    /// machine-readable text that may be surrounded by white space
    Token(&'static str, String),
    Field(&'static str, &'m MField),
    Times(&'m MTimes),
    Entry(&'m MEntry),
    History(&'m [MEntry]),
    Group(&'m MGroup),
    Raw(El),
    Block(&'static str, Vec<N<'m>>),
}

impl<'a> W<'a> {
    fn r(&mut self, n: u64) -> u64 {
        self.p.below(n)
    }
    fn nl(&mut self) {
        let s = match self.l.indent {
            0 => return,
            1 => "\n",
            2 => "\r\n",
            3 => "\n\n",
            _ => "\n",
        };
        self.out.push_str(s);
        let unit = if self.l.indent == 4 { "  " } else { "\t" };
        for _ in 0..self.depth.min(12) {
            self.out.push_str(unit);
        }
        if self.l.comments && self.r(6) == 0 {
            self.out.push_str("<!-- <Value>x</Value> & -->");
        }
        if self.l.comments && self.r(12) == 0 {
            self.out.push_str("<?pi some data?>");
        }
    }
    fn text(&mut self, t: &str) {
        let mode = if self.l.cdata { self.r(3) } else { 0 };
        if mode == 1 && !t.is_empty() && !t.contains('\r') {
            self.cdata(t);
            return;
        }
        let mut last2 = ['x', 'x'];
        let n = t.chars().count();
        for (i, c) in t.chars().enumerate() {
            match c {
                '&' => self.out.push_str("&amp;"),
                '<' => self.out.push_str("&lt;"),
                '\r' => self.out.push_str("&#xD;"),
                '\n' if self.l.crlf && last2[1] != '\r' => self.out.push_str("\r\n"),
                '>' if last2 == [']', ']'] || self.r(2) == 0 => self.out.push_str("&gt;"),
                '"' if self.l.charrefs => self.out.push_str("&quot;"),
                '\'' if self.l.charrefs => self.out.push_str("&apos;"),
                c if self.l.charrefs && self.p.below(7) == 0 => {
                    let s = if self.p.below(2) == 0 {
                        format!("&#{};", c as u32)
                    } else {
                        format!("&#x{:x};", c as u32)
                    };
                    self.out.push_str(&s);
                }
                c => self.out.push(c),
            }
            last2 = [last2[1], c];
            if n < 200 && i + 1 < n {
                if mode == 2 && self.p.below(9) == 0 {
                    self.out.push_str("<![CDATA[]]>");
                    last2 = ['x', 'x'];
                }
                if self.l.comments && self.p.below(20) == 0 {
                    self.out.push_str("<!--split-->");
                    last2 = ['x', 'x'];
                }
                if self.l.instructions && self.p.below(12) == 0 {
                    self.out.push_str("<?split here?>");
                    last2 = ['x', 'x'];
                }
            }
        }
    }
    fn cdata(&mut self, t: &str) {
        self.out.push_str("<![CDATA[");
        self.out.push_str(&t.replace("]]>", "]]]]><![CDATA[>"));
        self.out.push_str("]]>");
    }
    fn open(&mut self, n: &str, attr: &str) {
        self.out.push('<');
        self.out.push_str(n);
        if !attr.is_empty() {
            self.out.push(' ');
            if self.l.charrefs {
                self.out.push_str(&attr.replace('"', "'"));
            } else {
                self.out.push_str(attr);
            }
        }
        self.out.push('>');
    }
    fn close(&mut self, n: &str) {
        self.out.push_str("</");
        self.out.push_str(n);
        self.out.push('>');
    }
    fn empty(&mut self, n: &str, attr: &str) {
        if self.l.selfclose {
            self.out.push('<');
            self.out.push_str(n);
            if !attr.is_empty() {
                self.out.push(' ');
                self.out.push_str(attr);
            }
            let end = if self.r(2) == 0 { "/>" } else { " />" };
            self.out.push_str(end);
        } else {
            self.open(n, attr);
            self.close(n);
        }
    }
    fn leaf(&mut self, n: &str, t: &str) {
        if t.is_empty() {
            self.empty(n, "");
            return;
        }
        self.open(n, "");
        self.text(t);
        self.close(n);
    }
    fn token(&mut self, n: &str, t: &str) {
        self.open(n, "");
        let pad = self.l.pad_text && self.r(2) == 0;
        if pad {
            self.out.push_str("\n ");
        }
        self.out.push_str(t);
        if pad {
            self.out.push_str(" \n");
        }
        self.close(n);
    }
    fn b(&self, v: bool) -> String {
        match (v, self.l.lower_bool) {
            (true, false) => "True",
            (false, false) => "False",
            (true, true) => "true",
            (false, true) => "false",
        }
        .to_string()
    }
    fn date(&self, s: i64) -> String {
        if self.l.iso_dates {
            from_secs(s).format("%Y-%m-%dT%H:%M:%SZ").to_string()
        } else {
            B64.encode(s.to_le_bytes())
        }
    }
    fn protected(&mut self, n: &str, t: &str) {
        let mut v = t.as_bytes().to_vec();
        if let Some(k) = &mut self.ks {
            k.apply(&mut v);
        }
        let e = B64.encode(v);
        if e.is_empty() {
            self.empty(n, "Protected=\"True\"");
        } else {
            self.open(n, "Protected=\"True\"");
            self.out.push_str(&e);
            self.close(n);
        }
    }
    fn unknown_leaf(&mut self) -> El {
        let names = [
            "IconID", "Tags", "CustomIconUUID", "IsExpanded", "ForegroundColor", "OverrideURL", "QualityCheck",
            "PreviousParentGroup", "LastTopVisibleEntry", "EnableSearching", "DefaultAutoTypeSequence",
        ];
        let i = self.r(names.len() as u64) as usize;
        El {
            name: names[i].into(),
            attrs: Vec::new(),
            text: ["", "0", "True", "text & more"][self.r(4) as usize].into(),
            kids: Vec::new(),
        }
    }
    fn el(name: &str, text: &str, kids: Vec<El>) -> El {
        El {
            name: name.into(),
            attrs: Vec::new(),
            text: text.into(),
            kids,
        }
    }
    /// Things other clients store that this library does not interpret.
    fn unknown(&mut self, place: &str, v: &mut Vec<N<'_>>) {
        if self.l.unknown && self.r(2) == 0 {
            let e = self.unknown_leaf();
            v.push(N::Raw(e));
        }
        if self.l.unknown && place == "Entry" && self.r(3) == 0 {
            v.push(N::Raw(Self::el(
                "AutoType",
                "",
                vec![
                    Self::el("Enabled", "True", vec![]),
                    Self::el("DataTransferObfuscation", "0", vec![]),
                    Self::el(
                        "Association",
                        "",
                        vec![
                            Self::el("Window", "w", vec![]),
                            Self::el("KeystrokeSequence", "{USERNAME}", vec![]),
                        ],
                    ),
                ],
            )));
        }
        if self.l.unknown && place == "Root" {
            v.push(N::Raw(Self::el(
                "DeletedObjects",
                "",
                vec![Self::el(
                    "DeletedObject",
                    "",
                    vec![
                        Self::el("UUID", "AAAAAAAAAAAAAAAAAAAAAA==", vec![]),
                        Self::el("DeletionTime", "AAAAAAAAAAA=", vec![]),
                    ],
                )],
            )));
        }
        if self.l.unknown && place == "Meta" && self.r(2) == 0 {
            v.push(N::Raw(Self::el(
                "CustomIcons",
                "",
                vec![Self::el(
                    "Icon",
                    "",
                    vec![
                        Self::el("UUID", "AQEBAQEBAQEBAQEBAQEBAQ==", vec![]),
                        Self::el("Data", "iVBORw0KGgo=", vec![]),
                        Self::el("Name", "icon name", vec![]),
                    ],
                )],
            )));
        }
        // custom data of groups and entries, KDBX 4.0 and later
        if self.l.nested_unknown && (place == "Entry" || place == "Group") && self.r(3) == 0 {
            v.push(N::Raw(Self::el(
                "CustomData",
                "",
                vec![Self::el(
                    "Item",
                    "",
                    vec![Self::el("Key", "k", vec![]), Self::el("Value", "v", vec![])],
                )],
            )));
        }
        if self.l.nested_unknown && self.r(3) == 0 {
            let inner = match self.r(9) {
                0 => Self::el("UUID", "/////////////////////w==", vec![]),
                1 => Self::el("Name", "not a name", vec![]),
                2 => Self::el(
                    "String",
                    "",
                    vec![
                        Self::el("Key", "Title", vec![]),
                        Self::el("Value", "wrong", vec![]),
                    ],
                ),
                3 => Self::el("Entry", "", vec![]),
                4 => Self::el("Group", "", vec![]),
                5 => Self::el("Times", "", vec![]),
                6 => Self::el("CustomData", "", vec![Self::el("Item", "", vec![Self::el("Key", "q", vec![])])]),
                7 => Self::el("DatabaseName", "wrong", vec![]),
                _ => Self::el(["Meta", "Root", "Entry", "Group", "Times", "History", "CustomData", "MemoryProtection"]
                    [self.p.below(8) as usize], "", vec![]),
            };
            let inner = if self.r(3) == 0 {
                Self::el("Deeper", "", vec![inner])
            } else {
                inner
            };
            v.push(N::Raw(Self::el("PluginData", "", vec![inner])));
        }
        if self.l.unknown_protected && place == "Entry" && self.r(3) == 0 {
            let mut val = Self::el("Value", "attached data", vec![]);
            val.attrs.push(("Protected".into(), "True".into()));
            v.push(N::Raw(Self::el(
                "Binary",
                "",
                vec![Self::el("Key", "file.txt", vec![]), val],
            )));
        }
        if self.l.unknown_protected && self.r(4) == 0 {
            // a secret of a plugin, at some depth
            let n = self.r(60) as usize;
            let mut e = Self::el("Secret", &"s".repeat(n), vec![]);
            e.attrs.push(("Protected".into(), "True".into()));
            for _ in 0..self.r(7) {
                let mut kids = vec![e];
                if self.r(2) == 0 {
                    let mut other = Self::el("Value", "more", vec![]);
                    if self.r(2) == 0 {
                        other.attrs.push(("Protected".into(), "True".into()));
                    }
                    kids.insert(self.r(2) as usize, other);
                }
                let name = ["PluginData", "Deeper", "Item", "String", "Section"][self.r(5) as usize];
                e = Self::el(name, "", kids);
            }
            v.push(N::Raw(Self::el("PluginData", "", vec![e])));
        }
        if self.l.unknown_protected && place == "Meta" {
            let n = 1 + self.r(40) as usize;
            let mut bin = Self::el("Binary", &"z".repeat(n), vec![]);
            bin.attrs.push(("ID".into(), "0".into()));
            bin.attrs.push(("Protected".into(), "True".into()));
            v.push(N::Raw(Self::el("Binaries", "", vec![bin])));
        }
    }
    fn raw(&mut self, e: &El) {
        let attrs: Vec<String> = e
            .attrs
            .iter()
            .filter(|a| a.0 != "Protected")
            .map(|a| format!("{}=\"{}\"", a.0, a.1))
            .collect();
        if e.attrs.iter().any(|a| a.0 == "Protected") {
            self.protected(&e.name, &e.text);
            return;
        }
        if e.kids.is_empty() && e.text.is_empty() {
            self.empty(&e.name, &attrs.join(" "));
            return;
        }
        self.open(&e.name, &attrs.join(" "));
        self.text(&e.text);
        self.depth += 1;
        for k in &e.kids {
            self.nl();
            self.raw(k);
        }
        self.depth -= 1;
        if !e.kids.is_empty() {
            self.nl();
        }
        self.close(&e.name);
    }
    fn nodes(&mut self, mut v: Vec<N<'_>>) {
        if self.l.shuffle {
            // entries, groups and strings keep their relative order: only the other pieces move
            let n = v.len() as u64;
            for _ in 0..n {
                let i = self.r(n) as usize;
                if !matches!(
                    v[i],
                    N::Entry(_) | N::Group(_) | N::Field(_, _)
                ) {
                    let x = v.remove(i);
                    let j = self.r(n) as usize;
                    v.insert(j, x);
                }
            }
        }
        self.depth += 1;
        for n in v {
            self.nl();
            self.node(n);
        }
        self.depth -= 1;
        self.nl();
    }
    fn node(&mut self, n: N<'_>) {
        match n {
            N::Text(name, t) => self.leaf(name, &t),
            N::Token(name, t) => self.token(name, &t),
            N::Raw(e) => self.raw(&e),
            N::Block(name, kids) => {
                self.open(name, "");
                self.nodes(kids);
                self.close(name);
            }
            N::Field(tag, f) => {
                self.open(tag, "");
                self.depth += 1;
                let value_first = self.l.shuffle && self.r(3) == 0;
                for step in 0..2 {
                    self.nl();
                    if (step == 0) != value_first {
                        self.leaf("Key", &f.key);
                    } else if f.protected {
                        self.protected("Value", &f.value);
                    } else {
                        self.leaf("Value", &f.value);
                    }
                }
                if self.l.unknown && tag == "Item" && self.r(2) == 0 {
                    self.leaf("LastModificationTime", "AAAAAAAAAAA=");
                }
                self.depth -= 1;
                self.nl();
                self.close(tag);
            }
            N::Times(t) => {
                let mut v = vec![
                    N::Token("LastModificationTime", self.date(t.t[0])),
                    N::Token("CreationTime", self.date(t.t[1])),
                    N::Token("LastAccessTime", self.date(t.t[2])),
                    N::Token("ExpiryTime", self.date(t.t[3])),
                ];
                if !(self.l.omit_defaults && !t.expires) {
                    v.push(N::Token("Expires", self.b(t.expires)));
                }
                if !(self.l.omit_defaults && t.usage == 0) {
                    v.push(N::Token("UsageCount", t.usage.to_string()));
                }
                v.push(N::Token("LocationChanged", self.date(t.t[4])));
                if self.l.unknown && self.r(3) == 0 {
                    v.push(N::Raw(Self::el("ReviewTime", "never", vec![])));
                }
                self.open("Times", "");
                self.nodes(v);
                self.close("Times");
            }
            N::Entry(e) => {
                let mut v = vec![N::Token("UUID", B64.encode(e.uuid)), N::Times(&e.times)];
                for f in &e.fields {
                    v.push(N::Field("String", f));
                }
                self.unknown("Entry", &mut v);
                if !e.history.is_empty() || !self.l.omit_defaults {
                    v.push(N::History(&e.history));
                }
                self.open("Entry", "");
                self.nodes(v);
                self.close("Entry");
            }
            N::History(h) => {
                if h.is_empty() {
                    self.empty("History", "");
                    return;
                }
                self.open("History", "");
                self.nodes(h.iter().map(N::Entry).collect());
                self.close("History");
            }
            N::Group(g) => {
                let mut v = vec![
                    N::Token("UUID", B64.encode(g.uuid)),
                    N::Text("Name", g.name.clone()),
                    N::Times(&g.times),
                ];
                self.unknown("Group", &mut v);
                for e in &g.entries {
                    v.push(N::Entry(e));
                }
                for c in &g.groups {
                    v.push(N::Group(c));
                }
                if self.l.shuffle && self.r(2) == 0 {
                    // child groups before entries
                    let n = g.entries.len();
                    let at = v.len() - n - g.groups.len();
                    v[at..].rotate_left(n);
                }
                self.open("Group", "");
                self.nodes(v);
                self.close("Group");
            }
        }
    }
}

pub fn write_db(db: &MDb, l: &Layout, ks: Option<&mut Keystream>) -> Vec<u8> {
    let mut w = W {
        l: l.clone(),
        p: Prng::new(l.seed),
        ks,
        out: String::new(),
        depth: 0,
    };
    match l.decl {
        0 => w.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>"),
        1 => {}
        2 => w.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
        3 => w.out.push_str("<?xml version='1.0'?>"),
        // with a byte order mark
        _ => w.out.push_str("\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
    }
    if l.comments {
        w.nl();
    }
    let mut meta: Vec<N> = Vec::new();
    meta.push(N::Text("Generator", "Other Client".into()));
    if let Some(h) = &l.header_hash {
        meta.push(N::Token("HeaderHash", h.clone()));
    }
    if !(l.omit_defaults && db.name.is_empty()) {
        meta.push(N::Text("DatabaseName", db.name.clone()));
    }
    if !(l.omit_defaults && db.desc.is_empty()) {
        meta.push(N::Text("DatabaseDescription", db.desc.clone()));
    }
    if !(l.omit_defaults && db.prot == [false; 5]) {
        let v = vec![
            N::Token("ProtectTitle", w.b(db.prot[0])),
            N::Token("ProtectUserName", w.b(db.prot[1])),
            N::Token("ProtectPassword", w.b(db.prot[2])),
            N::Token("ProtectURL", w.b(db.prot[3])),
            N::Token("ProtectNotes", w.b(db.prot[4])),
        ];
        meta.push(N::Block("MemoryProtection", v));
    }
    w.unknown("Meta", &mut meta);
    if !(l.omit_defaults && db.custom.is_empty()) {
        let v = db.custom.iter().map(|f| N::Field("Item", f)).collect();
        meta.push(N::Block("CustomData", v));
    }
    let mut root: Vec<N> = vec![N::Group(&db.root)];
    w.unknown("Root", &mut root);
    let mut file: Vec<N> = Vec::new();
    if l.nested_unknown && w.r(3) == 0 {
        file.push(N::Raw(W::el("Extension", "", vec![W::el("Meta", "", vec![])])));
    }
    file.push(N::Block("Meta", meta));
    file.push(N::Block("Root", root));
    if l.indent > 0 {
        w.out.push('\n');
    }
    let keep = w.l.shuffle;
    w.open("KeePassFile", "");
    w.l.shuffle = false;
    // Meta precedes Root; only their contents are shuffled
    w.depth = 1;
    for n in file {
        w.nl();
        w.l.shuffle = keep;
        w.node(n);
        w.l.shuffle = false;
    }
    w.depth = 0;
    w.nl();
    w.close("KeePassFile");
    if l.decl == 2 {
        w.out.push('\n');
    }
    w.out.into_bytes()
}
