//! Reference model of a database: a plain ordered tree, its generator, and conversions through the public API.

use crate::choice::Prng;
use crate::ctx::Cx;
use chrono::{DateTime, NaiveDate, NaiveDateTime, Timelike};
use kdbx_rs::database::{Database, Entry, Field, Group, Times};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MField {
    pub key: String,
    pub value: String,
    pub protected: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTimes {
    /// seconds since 0001-01-01: modification, creation, access, expiry, location
    pub t: [i64; 5],
    pub expires: bool,
    pub usage: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MEntry {
    pub uuid: [u8; 16],
    pub fields: Vec<MField>,
    pub history: Vec<MEntry>,
    pub times: MTimes,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MGroup {
    pub uuid: [u8; 16],
    pub name: String,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
    pub times: MTimes,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MDb {
    pub name: String,
    pub desc: String,
    pub custom: Vec<MField>,
    /// title, user name, password, url, notes
    pub prot: [bool; 5],
    pub root: MGroup,
}

pub fn epoch() -> NaiveDateTime {
    NaiveDate::from_ymd_opt(1, 1, 1)
        .unwrap()
        .and_hms_opt(0, 0, 0)
        .unwrap()
}
pub const UNIX_OFFSET: i64 = 62_135_596_800;

/// A leap second, which the format cannot express, counts as the second after it.
pub fn to_secs(t: NaiveDateTime) -> i64 {
    let leap = (t.nanosecond() >= 1_000_000_000) as i64;
    t.with_nanosecond(0)
        .unwrap_or(t)
        .signed_duration_since(epoch())
        .num_seconds()
        + leap
}
pub fn from_secs(s: i64) -> NaiveDateTime {
    DateTime::from_timestamp(s - UNIX_OFFSET, 0)
        .expect("date out of range")
        .naive_utc()
}

// ---- library -> model -------------------------------------------------------------------------

pub fn m_field(f: &Field) -> MField {
    MField {
        key: f.key().to_string(),
        value: f.value().unwrap_or("").to_string(),
        protected: f.protected(),
    }
}
pub fn m_times(t: &Times) -> MTimes {
    MTimes {
        t: [
            to_secs(t.last_modification_time),
            to_secs(t.creation_time),
            to_secs(t.last_access_time),
            to_secs(t.expiry_time),
            to_secs(t.location_changed),
        ],
        expires: t.expires,
        usage: t.usage_count,
    }
}
pub fn m_entry(e: &Entry) -> MEntry {
    MEntry {
        uuid: *e.uuid().as_bytes(),
        fields: e.fields().map(m_field).collect(),
        history: e.history().entries().map(m_entry).collect(),
        times: m_times(e.times()),
    }
}
pub fn m_group(g: &Group) -> MGroup {
    MGroup {
        uuid: *g.uuid().as_bytes(),
        name: g.name().to_string(),
        entries: g.entries().map(m_entry).collect(),
        groups: g.groups().map(m_group).collect(),
        times: m_times(g.times()),
    }
}
pub fn m_db(d: &Database) -> MDb {
    let mp = &d.meta().memory_protection;
    MDb {
        name: d.name().to_string(),
        desc: d.description().to_string(),
        custom: d.meta().custom_data.iter().map(m_field).collect(),
        prot: [
            mp.protect_title,
            mp.protect_user_name,
            mp.protect_password,
            mp.protect_url,
            mp.protect_notes,
        ],
        root: m_group(d.root()),
    }
}

// ---- model -> library -------------------------------------------------------------------------

pub fn l_field(f: &MField) -> Field {
    if f.protected {
        Field::new_protected(&f.key, &f.value)
    } else {
        Field::new(&f.key, &f.value)
    }
}
pub fn l_times(m: &MTimes, t: &mut Times) {
    t.last_modification_time = from_secs(m.t[0]);
    t.creation_time = from_secs(m.t[1]);
    t.last_access_time = from_secs(m.t[2]);
    t.expiry_time = from_secs(m.t[3]);
    t.location_changed = from_secs(m.t[4]);
    t.expires = m.expires;
    t.usage_count = m.usage;
}
pub fn l_entry(m: &MEntry) -> Entry {
    let mut e = Entry::default();
    e.set_uuid(Uuid::from_bytes(m.uuid));
    for f in &m.fields {
        e.add_field(l_field(f));
    }
    for h in &m.history {
        e.history_mut().push(l_entry(h));
    }
    l_times(&m.times, e.times_mut());
    e
}
pub fn l_group(m: &MGroup) -> Group {
    let mut g = Group::new(&m.name);
    g.set_uuid(Uuid::from_bytes(m.uuid));
    for e in &m.entries {
        g.add_entry(l_entry(e));
    }
    for c in &m.groups {
        g.add_group(l_group(c));
    }
    l_times(&m.times, g.times_mut());
    g
}
pub fn l_db(m: &MDb) -> Database {
    let mut d = Database::default();
    d.set_name(&m.name);
    d.set_description(&m.desc);
    let meta = d.meta_mut();
    meta.custom_data = m.custom.iter().map(l_field).collect();
    meta.memory_protection.protect_title = m.prot[0];
    meta.memory_protection.protect_user_name = m.prot[1];
    meta.memory_protection.protect_password = m.prot[2];
    meta.memory_protection.protect_url = m.prot[3];
    meta.memory_protection.protect_notes = m.prot[4];
    d.replace_root(l_group(&m.root));
    d
}

// ---- comparison -------------------------------------------------------------------------------

fn clip(s: &str) -> String {
    if s.len() <= 80 {
        format!("{s:?}")
    } else {
        let mut e = 60;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{:?}.. ({} bytes)", &s[..e], s.len())
    }
}
fn diff_field(p: &str, a: &MField, b: &MField) -> Option<String> {
    if a.key != b.key {
        return Some(format!("{p}.key: {} vs {}", clip(&a.key), clip(&b.key)));
    }
    if a.value != b.value {
        return Some(format!(
            "{p}[{}].value: {} vs {}",
            clip(&a.key),
            clip(&a.value),
            clip(&b.value)
        ));
    }
    if a.protected != b.protected {
        return Some(format!(
            "{p}[{}].protected: {} vs {}",
            clip(&a.key),
            a.protected,
            b.protected
        ));
    }
    None
}
fn diff_list<T>(
    p: &str,
    a: &[T],
    b: &[T],
    f: impl Fn(&str, &T, &T) -> Option<String>,
) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{p}: {} items vs {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(d) = f(&format!("{p}[{i}]"), x, y) {
            return Some(d);
        }
    }
    None
}
fn diff_times(p: &str, a: &MTimes, b: &MTimes) -> Option<String> {
    if a != b {
        Some(format!("{p}.times: {a:?} vs {b:?}"))
    } else {
        None
    }
}
pub fn diff_entry(p: &str, a: &MEntry, b: &MEntry) -> Option<String> {
    if a.uuid != b.uuid {
        return Some(format!("{p}.uuid: {:x?} vs {:x?}", a.uuid, b.uuid));
    }
    diff_list(&format!("{p}.fields"), &a.fields, &b.fields, diff_field)
        .or_else(|| diff_list(&format!("{p}.history"), &a.history, &b.history, diff_entry))
        .or_else(|| diff_times(p, &a.times, &b.times))
}
pub fn diff_group(p: &str, a: &MGroup, b: &MGroup) -> Option<String> {
    if a.uuid != b.uuid {
        return Some(format!("{p}.uuid: {:x?} vs {:x?}", a.uuid, b.uuid));
    }
    if a.name != b.name {
        return Some(format!("{p}.name: {} vs {}", clip(&a.name), clip(&b.name)));
    }
    diff_list(&format!("{p}.entries"), &a.entries, &b.entries, diff_entry)
        .or_else(|| diff_list(&format!("{p}.groups"), &a.groups, &b.groups, diff_group))
        .or_else(|| diff_times(p, &a.times, &b.times))
}
/// First difference between what is expected and what was found.
pub fn diff_db(expected: &MDb, found: &MDb) -> Option<String> {
    if expected == found {
        return None;
    }
    let (a, b) = (expected, found);
    if a.name != b.name {
        return Some(format!("name: {} vs {}", clip(&a.name), clip(&b.name)));
    }
    if a.desc != b.desc {
        return Some(format!("description: {} vs {}", clip(&a.desc), clip(&b.desc)));
    }
    if a.prot != b.prot {
        return Some(format!("memory protection: {:?} vs {:?}", a.prot, b.prot));
    }
    diff_list("custom", &a.custom, &b.custom, diff_field)
        .or_else(|| diff_group("root", &a.root, &b.root))
        .or(Some("differs".into()))
}
/// Stable short name of the kind of difference, for classifying violations.
pub fn diff_kind(d: &str) -> &'static str {
    for k in [
        ".value", ".protected", ".key", ".times", ".uuid", ".history", ".fields", ".entries", ".groups", ".name",
        "description", "memory protection", "custom", "name",
    ] {
        if d.split(": ").next().unwrap_or("").contains(k) {
            return match k {
                ".value" => "value",
                ".protected" => "protection flag",
                ".key" => "field key",
                ".times" => "times",
                ".uuid" => "identifier",
                ".history" => "history",
                ".fields" => "field list",
                ".entries" => "entry list",
                ".groups" => "group list",
                ".name" => "group name",
                "description" => "description",
                "memory protection" => "memory protection",
                "custom" => "custom data",
                _ => "name",
            };
        }
    }
    "content"
}

impl MGroup {
    pub fn count(&self) -> (usize, usize) {
        let mut g = 1;
        let mut e = self.entries.len();
        for c in &self.groups {
            let (a, b) = c.count();
            g += a;
            e += b;
        }
        (g, e)
    }
    pub fn for_fields(&self, f: &mut impl FnMut(&MField)) {
        fn ent(e: &MEntry, f: &mut impl FnMut(&MField)) {
            for x in &e.fields {
                f(x);
            }
            for h in &e.history {
                ent(h, f);
            }
        }
        for e in &self.entries {
            ent(e, f);
        }
        for g in &self.groups {
            g.for_fields(f);
        }
    }
}
impl MDb {
    pub fn for_texts(&self, f: &mut impl FnMut(&str)) {
        fn grp(g: &MGroup, f: &mut impl FnMut(&str)) {
            f(&g.name);
            for c in &g.groups {
                grp(c, f);
            }
        }
        f(&self.name);
        f(&self.desc);
        for x in &self.custom {
            f(&x.key);
            f(&x.value);
        }
        grp(&self.root, f);
        self.root.for_fields(&mut |x| {
            f(&x.key);
            f(&x.value);
        });
    }
    pub fn summary(&self) -> String {
        let (g, e) = self.root.count();
        let mut nf = 0;
        let mut bytes = 0;
        self.root.for_fields(&mut |f| {
            nf += 1;
            bytes += f.value.len();
        });
        format!(
            "{g} groups, {e} entries, {nf} fields, {bytes} value bytes, {} custom",
            self.custom.len()
        )
    }
}

// ---- generation -------------------------------------------------------------------------------

/// What texts may contain.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct TextOpts {
    /// characters XML 1.0 cannot represent
    pub illegal: bool,
    /// raw carriage returns
    pub cr: bool,
    /// leading, trailing and only white space
    pub space: bool,
}
pub const PLAIN: TextOpts = TextOpts {
    illegal: false,
    cr: true,
    space: true,
};

const WORDS: [&str; 24] = [
    "a", "Title", "kdbx", "pass word", "Ünïcödé", "日本語", "🔑🔒", "<b>&amp;</b>", "]]>", "&#65;", "\"quoted\"", "'q'",
    "a\tb", "line1\nline2", "x=1&y=2", "<![CDATA[z]]>", "<!-- c -->", "%s%n", "\u{FEFF}bom", "\u{85}nel", "\u{2028}ls",
    "True", "AAAA", "\u{10FFFF}",
];
const SPACES: [&str; 6] = [" ", "\n", "\t", "  ", " \n", "\u{A0}"];
const CRS: [&str; 3] = ["\r", "\r\n", "a\rb"];
const ILLEGAL: [&str; 6] = ["\u{0}", "\u{1}", "\u{B}", "\u{1F}", "\u{FFFE}", "\u{FFFF}"];

pub fn gen_text(cx: &Cx, o: TextOpts) -> String {
    let mut s = String::new();
    match cx.weighted(&[5, 2, 6, 3, 2]) {
        0 => s.push_str("v"),
        1 => {}
        2 => {
            for _ in 0..cx.range(1, 3) {
                s.push_str(cx.pick(&WORDS));
            }
        }
        3 => {
            let n = cx.magnitude(400) as usize;
            s = bulk_text(cx.seed(), n);
        }
        _ => {
            s.push_str(cx.pick(&WORDS));
        }
    }
    if o.space && cx.chance(1, 4) {
        let sp = cx.pick(&SPACES);
        match cx.below(3) {
            0 => s.push_str(sp),
            1 => s.insert_str(0, sp),
            _ => s = sp.to_string(),
        }
    }
    if o.cr && cx.chance(1, 10) {
        s.push_str(cx.pick(&CRS));
        if cx.chance(1, 2) {
            s.push('x');
        }
    }
    if o.illegal && cx.chance(1, 8) {
        s.push_str(cx.pick(&ILLEGAL));
    }
    s
}
/// Pseudo-random printable text of exactly `n` bytes.
pub fn bulk_text(seed: u64, n: usize) -> String {
    let mut p = Prng::new(seed);
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let mut r = p.next();
        for _ in 0..10 {
            if v.len() == n {
                break;
            }
            v.push(A[(r & 63) as usize]);
            r >>= 6;
        }
    }
    String::from_utf8(v).unwrap()
}
pub fn gen_uuid(cx: &Cx) -> [u8; 16] {
    let mut b = [0u8; 16];
    Prng::new(cx.seed() + 1).fill(&mut b);
    b
}
pub fn gen_secs(cx: &Cx) -> i64 {
    match cx.weighted(&[4, 3, 1, 1]) {
        // 2020-ish
        0 => UNIX_OFFSET + 1_588_000_000 + cx.below(10_000) as i64,
        // 1970..2200
        1 => UNIX_OFFSET + cx.below(7_258_118_400) as i64,
        // year 1..9999
        2 => cx.below(315_537_897_599) as i64,
        // corners
        _ => cx.pick(&[0i64, 1, 59, 86_399, 86_400, UNIX_OFFSET - 1, UNIX_OFFSET, 315_537_897_599]),
    }
}
pub fn gen_times(cx: &Cx) -> MTimes {
    if cx.chance(3, 5) {
        let t = [
            gen_secs(cx),
            gen_secs(cx),
            gen_secs(cx),
            gen_secs(cx),
            gen_secs(cx),
        ];
        MTimes {
            t,
            expires: cx.chance(1, 2),
            usage: cx.magnitude(u32::MAX as u64) as u32,
        }
    } else {
        let s = UNIX_OFFSET + 1_588_000_000;
        MTimes {
            t: [s, s + 1, s + 2, s + 3, s + 4],
            expires: false,
            usage: 0,
        }
    }
}
/// A date before year 1 or after year 9999.
pub fn gen_far(cx: &Cx) -> i64 {
    cx.pick(&[-1i64, -59, -86_400, -40_000_000_000, 315_537_897_600, 400_000_000_000, 1 << 40])
}
const KEYS: [&str; 9] = [
    "Title", "Password", "UserName", "URL", "Notes", "otp", "k", "Key with space", "Ключ&<>",
];
pub fn gen_key(cx: &Cx, o: TextOpts) -> String {
    if cx.chance(1, 5) {
        let t = gen_text(cx, o);
        if t.is_empty() {
            "e".into()
        } else {
            t
        }
    } else {
        cx.pick(&KEYS).to_string()
    }
}
pub fn gen_field(cx: &Cx, o: TextOpts) -> MField {
    let key = gen_key(cx, o);
    let protected = cx.chance(2, 5);
    let value = gen_text(
        cx,
        if protected {
            TextOpts { illegal: true, ..o }
        } else {
            o
        },
    );
    MField {
        key,
        value,
        protected,
    }
}
pub fn gen_entry(cx: &Cx, o: TextOpts, hist_depth: u32) -> MEntry {
    let uuid = gen_uuid(cx);
    let nf = cx.weighted(&[2, 4, 4, 2, 1, 1]);
    let fields = (0..nf).map(|_| gen_field(cx, o)).collect();
    let nh = if hist_depth > 0 && cx.chance(1, 4) {
        cx.range(1, 3)
    } else {
        0
    };
    let history = (0..nh)
        .map(|_| {
            let mut h = gen_entry(cx, o, hist_depth - 1);
            if cx.chance(2, 3) {
                h.uuid = uuid;
            }
            h
        })
        .collect();
    MEntry {
        uuid,
        fields,
        history,
        times: gen_times(cx),
    }
}
pub fn gen_group(cx: &Cx, o: TextOpts, depth: u32) -> MGroup {
    let ne = cx.weighted(&[3, 4, 3, 1]);
    let ng = if depth > 0 {
        cx.weighted(&[5, 3, 2])
    } else {
        0
    };
    MGroup {
        uuid: gen_uuid(cx),
        name: gen_text(cx, o),
        entries: (0..ne).map(|_| gen_entry(cx, o, 2)).collect(),
        groups: (0..ng).map(|_| gen_group(cx, o, depth - 1)).collect(),
        times: gen_times(cx),
    }
}
/// A database of ordinary size.
pub fn gen_db(cx: &Cx, o: TextOpts) -> MDb {
    let name = gen_text(cx, o);
    let desc = gen_text(cx, o);
    let nc = cx.weighted(&[4, 1, 1]);
    let mut db = MDb {
        name,
        desc,
        custom: (0..nc).map(|_| gen_field(cx, o)).collect(),
        prot: [0; 5].map(|_| cx.chance(1, 3)),
        root: {
            let depth = cx.weighted(&[2, 3, 3, 1]) as u32;
            gen_group(cx, o, depth)
        },
    };
    if cx.chance(1, 10) {
        unusual(cx, &mut db, o);
    }
    db
}
/// One unusual shape.
fn unusual(cx: &Cx, db: &mut MDb, o: TextOpts) {
    match cx.below(9) {
        8 => {
            let n = cx.pick(&[100u64, 127, 128, 129, 254, 255, 256, 257, 300]);
            crowd(cx, db, n);
        }
        0 => {
            // a long history
            let mut e = gen_entry(cx, o, 0);
            for _ in 0..cx.range(9, 40) {
                let mut h = gen_entry(cx, o, 0);
                h.uuid = e.uuid;
                e.history.push(h);
            }
            db.root.entries.push(e);
        }
        1 => {
            // many fields
            let mut e = gen_entry(cx, o, 0);
            for i in 0..cx.range(8, 70) {
                let mut f = gen_field(cx, o);
                if cx.chance(2, 3) {
                    f.key = format!("field {i}");
                }
                e.fields.push(f);
            }
            db.root.entries.push(e);
        }
        2 => {
            for _ in 0..cx.range(5, 40) {
                db.custom.push(gen_field(cx, o));
            }
        }
        3 => {
            for _ in 0..cx.range(8, 60) {
                db.root.groups.push(gen_group(cx, o, 0));
            }
        }
        4 => {
            // identifiers that are used twice, or empty
            let id = if cx.chance(1, 2) { [0; 16] } else { db.root.uuid };
            let (mut e, mut g) = (gen_entry(cx, o, 1), gen_group(cx, o, 0));
            e.uuid = id;
            g.uuid = id;
            if let Some(x) = g.entries.first_mut() {
                x.uuid = e.uuid;
            }
            db.root.entries.push(e);
            db.root.groups.push(g);
        }
        5 => {
            // a history in a history in a history
            let mut e = gen_entry(cx, o, 0);
            let n = if cx.chance(1, 5) { cx.range(100, 127) } else { cx.range(3, 20) };
            for i in 0..n {
                let mut outer = if i < 20 { gen_entry(cx, o, 0) } else { small_entry(i) };
                outer.history.push(e);
                e = outer;
            }
            db.root.entries.push(e);
        }
        6 => {
            // a text around a size that fits 8, 12, 13 or 16 bits
            let n = cx.pick(&[255usize, 256, 4096, 8192, 65_535, 65_536]) as i64 + cx.range(0, 4) as i64 - 2;
            let t = bulk_text(cx.seed(), n as usize);
            let mut e = gen_entry(cx, o, 0);
            match cx.weighted(&[5, 1, 1, 1, 1, 1, 1]) {
                0 => e.fields.push(MField { key: "Notes".into(), value: t, protected: cx.chance(1, 2) }),
                1 => e.fields.push(MField { key: t, value: "v".into(), protected: cx.chance(1, 2) }),
                2 => db.root.name = t,
                3 => db.name = t,
                4 => db.desc = t,
                5 => db.custom.push(MField { key: "long".into(), value: t, protected: cx.chance(1, 2) }),
                _ => db.custom.push(MField { key: t, value: "v".into(), protected: cx.chance(1, 2) }),
            }
            db.root.entries.push(e);
        }
        _ => {
            // one character many times, so that it compresses well
            let c = cx.pick(&["a", " ", "é", "&", "\n", "\u{1F511}"]);
            let n = cx.magnitude(60_000) as usize;
            let mut e = gen_entry(cx, o, 0);
            e.fields.push(MField { key: "Notes".into(), value: c.repeat(n), protected: cx.chance(1, 3) });
            db.root.entries.push(e);
        }
    }
}
/// An entry told from others by its number.
fn small_entry(i: u64) -> MEntry {
    let s = UNIX_OFFSET + 1_588_000_000 + i as i64;
    MEntry {
        uuid: (i as u128 + 1).to_be_bytes(),
        fields: vec![MField { key: "Title".into(), value: format!("{i}"), protected: i % 3 == 0 }],
        history: Vec::new(),
        times: MTimes { t: [s, s + 1, s + 2, s + 3, s + 4], expires: i % 2 == 0, usage: i as u32 },
    }
}
/// Many items in one place.
pub fn crowd(cx: &Cx, db: &mut MDb, n: u64) {
    let protected = cx.chance(1, 2);
    let field = |i: u64| MField { key: format!("field {i}"), value: format!("{i}"), protected };
    // large numbers only of what is small
    let what = if n > 5000 { cx.pick(&[1u64, 3]) } else { cx.below(6) };
    cx.sig(n * 8 + what);
    cx.count("probe.crowd");
    match what {
        0 => db.root.entries.extend((0..n).map(small_entry)),
        1 => {
            let mut e = small_entry(n);
            e.fields.extend((0..n).map(field));
            db.root.entries.push(e);
        }
        2 => {
            let mut e = small_entry(n);
            e.history.extend((0..n).map(small_entry));
            db.root.entries.push(e);
        }
        3 => db.custom.extend((0..n).map(field)),
        4 => {
            // protected values, one in each entry
            db.root.entries.extend((0..n).map(|i| {
                let mut e = small_entry(i);
                e.fields[0].protected = true;
                e
            }))
        }
        _ => db.root.groups.extend((0..n).map(|i| {
            let e = small_entry(i);
            MGroup {
                uuid: e.uuid,
                name: format!("group {i}"),
                entries: if i % 16 == 0 { vec![e.clone()] } else { Vec::new() },
                groups: Vec::new(),
                times: e.times,
            }
        })),
    }
}
/// Whether there are more items than slow ciphers can handle in a run.
pub fn crowded(db: &MDb) -> bool {
    db.custom.len() > 1000
        || db.root.entries.len() > 1000
        || db.root.groups.len() > 1000
        || db.root.entries.iter().any(|e| e.fields.len() > 1000 || e.history.len() > 1000)
}
/// Levels of groups.
pub fn depth(g: &MGroup) -> usize {
    1 + g.groups.iter().map(depth).max().unwrap_or(0)
}
/// Levels of entries in histories.
pub fn hist_depth(g: &MGroup) -> usize {
    fn of(e: &MEntry) -> usize {
        1 + e.history.iter().map(of).max().unwrap_or(0)
    }
    let here = g.entries.iter().map(of).max().unwrap_or(0);
    here.max(g.groups.iter().map(hist_depth).max().unwrap_or(0))
}
/// Add bulk so that the stored document reaches `bytes`.
pub fn add_bulk(cx: &Cx, db: &mut MDb, bytes: usize) {
    let protected = cx.chance(1, 3);
    // protected values are stored base64 encoded
    let n = if protected { bytes * 3 / 4 } else { bytes };
    if n > 10_000 && cx.chance(1, 2) {
        // spread over many entries
        let parts = cx.range(5, 40) as usize;
        let seed = cx.seed();
        for i in 0..parts {
            let mut e = gen_entry(cx, PLAIN, 0);
            e.fields.push(MField {
                key: "Notes".into(),
                value: bulk_text(seed + i as u64, n / parts),
                protected,
            });
            db.root.entries.push(e);
        }
        return;
    }
    let value = bulk_text(cx.seed(), n);
    let mut e = gen_entry(cx, PLAIN, 0);
    e.fields.push(MField {
        key: "Notes".into(),
        value,
        protected,
    });
    // more entries after the bulk, so that content crosses the block boundary
    db.root.entries.insert(0, e);
    if cx.chance(1, 2) {
        let e = gen_entry(cx, PLAIN, 1);
        db.root.entries.push(e);
    }
}
