//! C17: editing follows a plain ordered tree through saves and reopens.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, viol};
use crate::ensure;
use crate::interpose;
use crate::model::*;
use crate::refxml::Layout;
use crate::simio::*;
use kdbx_rs::binary::Unlocked;
use kdbx_rs::database::{Database, Entry, Field, Group, Otp};
use kdbx_rs::Kdbx;
use uuid::Uuid;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C17",
        run,
        quick: 24000,
        thorough: 300000,
        rule: "distinct sequences of (operation, kind of place, effect) of editing histories that were compared with the model",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "histories of up to 45 operations",
            "one-time-password secrets are base32 text with or without padding",
            "an empty value counts as equal to a missing value",
        ],
    }
}

/// Where an entry is: path of groups, index, path through histories.
#[derive(Clone, Debug)]
struct At {
    group: Vec<usize>,
    entry: usize,
    hist: Vec<usize>,
}

fn m_group_at<'a>(db: &'a mut MDb, path: &[usize]) -> &'a mut MGroup {
    let mut g = &mut db.root;
    for i in path {
        g = &mut g.groups[*i];
    }
    g
}
fn l_group_at<'a>(d: &'a mut Database, path: &[usize]) -> &'a mut Group {
    let mut g = d.root_mut();
    for i in path {
        g = g.groups_mut().nth(*i).expect("model and library trees differ");
    }
    g
}
fn m_at<'a>(db: &'a mut MDb, at: &At) -> &'a mut MEntry {
    let mut e = &mut m_group_at(db, &at.group).entries[at.entry];
    for i in &at.hist {
        e = &mut e.history[*i];
    }
    e
}
fn l_at<'a>(d: &'a mut Database, at: &At) -> &'a mut Entry {
    let mut e = l_group_at(d, &at.group).entries_mut().nth(at.entry).expect("model and library trees differ");
    for (n, i) in at.hist.iter().enumerate() {
        e = if n % 2 == 0 {
            e.history_mut().get_mut(*i).expect("model and library histories differ")
        } else {
            &mut e.history_mut()[*i]
        };
    }
    e
}

fn pick_group(cx: &Cx, db: &MDb) -> Vec<usize> {
    let mut p = Vec::new();
    let mut g = &db.root;
    while !g.groups.is_empty() && cx.chance(3, 5) {
        let i = cx.usize(g.groups.len());
        p.push(i);
        g = &g.groups[i];
    }
    p
}
fn group_paths(g: &MGroup, here: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(here.clone());
    for (i, c) in g.groups.iter().enumerate() {
        here.push(i);
        group_paths(c, here, out);
        here.pop();
    }
}
fn pick_entry(cx: &Cx, db: &MDb) -> Option<At> {
    let mut all = Vec::new();
    group_paths(&db.root, &mut Vec::new(), &mut all);
    let mut ents = Vec::new();
    for p in all {
        let mut g = &db.root;
        for i in &p {
            g = &g.groups[*i];
        }
        for e in 0..g.entries.len() {
            ents.push((p.clone(), e));
        }
    }
    if ents.is_empty() {
        return None;
    }
    let (group, entry) = ents.swap_remove(cx.usize(ents.len()));
    let mut g = &db.root;
    for i in &group {
        g = &g.groups[*i];
    }
    let mut e = &g.entries[entry];
    let mut hist = Vec::new();
    while !e.history.is_empty() && cx.chance(1, 4) {
        let i = cx.usize(e.history.len());
        hist.push(i);
        e = &e.history[i];
    }
    Some(At { group, entry, hist })
}

const POOL: [&str; 8] = ["A", "B", "Child Group", "", "http://example.com", "Foo", "a b", "é"];
const KEYS: [&str; 9] = ["Title", "UserName", "Password", "URL", "Notes", "otp", "k1", "k2", "title"];

fn text(cx: &Cx) -> String {
    if cx.chance(1, 2) {
        cx.pick(&POOL).to_string()
    } else {
        gen_text(cx, PLAIN)
    }
}
fn key(cx: &Cx, e: Option<&MEntry>) -> String {
    if let Some(e) = e {
        if !e.fields.is_empty() && cx.chance(1, 2) {
            return e.fields[cx.usize(e.fields.len())].key.clone();
        }
    }
    if cx.chance(4, 5) {
        cx.pick(&KEYS).to_string()
    } else {
        gen_key(cx, PLAIN)
    }
}
/// A UUID that is in use in some cases.
fn uuid(cx: &Cx, db: &MDb) -> [u8; 16] {
    if cx.chance(1, 5) {
        let p = pick_group(cx, db);
        let mut g = &db.root;
        for i in &p {
            g = &g.groups[*i];
        }
        if !g.entries.is_empty() && cx.chance(1, 2) {
            return g.entries[cx.usize(g.entries.len())].uuid;
        }
        return g.uuid;
    }
    gen_uuid(cx)
}

fn find_m<'a>(g: &'a MGroup, f: &dyn Fn(&MEntry) -> bool, path: &mut Vec<usize>) -> Option<(Vec<usize>, usize)> {
    if let Some(i) = g.entries.iter().position(f) {
        return Some((path.clone(), i));
    }
    for (i, c) in g.groups.iter().enumerate() {
        path.push(i);
        if let Some(r) = find_m(c, f, path) {
            return Some(r);
        }
        path.pop();
    }
    None
}
fn find_mg(g: &MGroup, f: &dyn Fn(&MGroup) -> bool, path: &mut Vec<usize>) -> Option<Vec<usize>> {
    for (i, c) in g.groups.iter().enumerate() {
        path.push(i);
        if f(c) {
            return Some(path.clone());
        }
        if let Some(r) = find_mg(c, f, path) {
            return Some(r);
        }
        path.pop();
    }
    None
}
fn value<'a>(e: &'a MEntry, key: &str) -> Option<&'a str> {
    e.fields.iter().find(|f| f.key == key).map(|f| f.value.as_str())
}
/// Does the library's answer agree with the model's, an empty value being as good as none?
fn same(l: Option<&str>, m: Option<&str>) -> bool {
    l == m || (l.unwrap_or("").is_empty() && m == Some(""))
}
fn set(e: &mut MEntry, key: &str, v: &str, force: bool) {
    match e.fields.iter_mut().find(|f| f.key == key) {
        Some(f) => {
            f.value = v.into();
            f.protected |= force;
        }
        None => e.fields.push(MField {
            key: key.into(),
            value: v.into(),
            protected: force,
        }),
    }
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn all_entries<'a>(g: &'a MGroup, out: &mut Vec<&'a MEntry>) {
    out.extend(g.entries.iter());
    for c in &g.groups {
        all_entries(c, out);
    }
}
fn all_groups<'a>(g: &'a MGroup, out: &mut Vec<&'a MGroup>) {
    for c in &g.groups {
        out.push(c);
        all_groups(c, out);
    }
}
fn model_entries(g: &mut MGroup, f: &mut dyn FnMut(&mut MEntry)) {
    g.entries.iter_mut().for_each(&mut *f);
    for c in &mut g.groups {
        model_entries(c, f);
    }
}

#[derive(Clone, Copy)]
enum By {
    Uuid,
    Title,
    User,
    Url,
    Pass,
    Field,
    Nested,
}
struct Query {
    by: By,
    uuid: [u8; 16],
    text: String,
    key: String,
}
impl Query {
    fn m(&self, e: &MEntry) -> bool {
        let v = |k: &str| value(e, k).unwrap_or("") == self.text;
        match self.by {
            By::Uuid => e.uuid == self.uuid,
            By::Title => v("Title"),
            By::User => v("UserName"),
            By::Url => v("URL"),
            By::Pass => v("Password"),
            By::Field => e.fields.iter().any(|f| f.key == self.key),
            By::Nested => !e.history.is_empty(),
        }
    }
    fn l(&self, e: &Entry) -> bool {
        let v = |o: Option<&str>| o.unwrap_or("") == self.text;
        match self.by {
            By::Uuid => *e.uuid().as_bytes() == self.uuid,
            By::Title => v(e.title()),
            By::User => v(e.username()),
            By::Url => v(e.url()),
            By::Pass => v(e.password()),
            By::Field => e.find(&self.key).is_some(),
            By::Nested => !e.history().is_empty(),
        }
    }
}
fn query(cx: &Cx, db: &MDb) -> Query {
    let by = [By::Uuid, By::Title, By::User, By::Url, By::Pass, By::Field, By::Nested][cx.usize(7)];
    let mut q = Query {
        by,
        uuid: uuid(cx, db),
        text: text(cx),
        key: key(cx, None),
    };
    // mostly something that exists
    if cx.chance(3, 4) {
        let mut all = Vec::new();
        all_entries(&db.root, &mut all);
        if !all.is_empty() {
            let e = all[cx.usize(all.len())];
            q.uuid = e.uuid;
            let k = match by {
                By::User => "UserName",
                By::Url => "URL",
                By::Pass => "Password",
                _ => "Title",
            };
            q.text = value(e, k).unwrap_or("").to_string();
        }
    }
    q
}

fn getters(cx: &Cx, d: &mut Database, db: &mut MDb) -> R {
    let Some(at) = pick_entry(cx, db) else { return Ok(()) };
    let k = key(cx, Some(m_at(db, &at)));
    let m = m_at(db, &at).clone();
    let e = l_at(d, &at);
    lib("getters", || {
        let pairs = [
            ("title", e.title(), value(&m, "Title")),
            ("username", e.username(), value(&m, "UserName")),
            ("password", e.password(), value(&m, "Password")),
            ("url", e.url(), value(&m, "URL")),
            ("find", e.find(&k).and_then(|f| f.value()), value(&m, &k)),
        ];
        for (what, l, m) in pairs {
            ensure!(same(l, m), "getter", "{what} is {l:?}, the model says {m:?}");
        }
        ensure!(e.find(&k).is_some() == value(&m, &k).is_some(), "getter", "find({k:?}) and the model disagree");
        ensure!(
            e.history().len() == m.history.len() && e.history().is_empty() == m.history.is_empty(),
            "history length",
            "history of {} has length {}",
            m.history.len(),
            e.history().len()
        );
        for i in 0..m.history.len() {
            ensure!(e.history().get(i) == Some(&e.history()[i]), "history index", "version {i} of the history is not the one at index {i}");
        }
        ensure!(e.history().get(m.history.len()).is_none(), "history length", "history has more than {} versions", m.history.len());
        if let Some(u) = value(&m, "otp") {
            let o = e.otp();
            let param = |k: &str| -> Option<&str> { u.split_once('?')?.1.split('&').find_map(|p| p.strip_prefix(k)?.strip_prefix('=')) };
            if u.starts_with("otpauth://totp/kdbxrs:") && u.matches('?').count() == 1 {
                let Some(o) = o else { return viol("one-time password", "one-time-password settings missing".to_string()) };
                ensure!(
                    o.secret() == param("secret")
                        && o.period() == param("period").and_then(|p| p.parse().ok())
                        && o.digits() == param("digits").and_then(|p| p.parse().ok()),
                    "one-time password",
                    "settings {u:?} read as secret {:?}, period {:?}, digits {:?}",
                    o.secret(),
                    o.period(),
                    o.digits()
                );
            }
        } else {
            ensure!(e.otp().is_none(), "one-time password", "one-time-password settings out of nowhere");
        }
        Ok(())
    })?
}

fn entry_edit(cx: &Cx, d: &mut Database, db: &mut MDb, at: &At) -> R {
    let op = cx.below(16);
    cx.sig(100 + op);
    cx.ev(format!("entry edit {op} at {at:?}"));
    let m = m_at(db, at);
    let e = l_at(d, at);
    match op {
        0 => {
            let f = MField {
                key: key(cx, Some(m)),
                value: text(cx),
                protected: cx.chance(1, 3),
            };
            m.fields.push(f.clone());
            lib("add_field", || e.add_field(l_field(&f)))?;
        }
        1 => {
            let k = key(cx, Some(m));
            m.fields.retain(|f| f.key != k);
            lib("remove_field", || e.remove_field(&k))?;
        }
        2 => {
            let (k, v) = (key(cx, Some(m)), text(cx));
            let mf = m.fields.iter_mut().find(|f| f.key == k);
            let lf = lib("find_mut", || e.find_mut(&k))?;
            ensure!(mf.is_some() == lf.is_some(), "find_mut", "find_mut({k:?}) and the model disagree");
            if let (Some(mf), Some(lf)) = (mf, lf) {
                mf.value = v.clone();
                lib("set_value", || lf.set_value(&v))?;
                ensure!(same(lf.value(), Some(&v)), "set_value", "value {v:?} reads back as {:?}", lf.value());
            }
        }
        3 => {
            let k = key(cx, Some(m));
            let n = key(cx, None);
            if let Some(mf) = m.fields.iter_mut().find(|f| f.key == k) {
                mf.key = n.clone();
            }
            lib("set_key", || {
                if let Some(f) = e.find_mut(&k) {
                    f.set_key(&n)
                }
            })?;
        }
        4 => {
            let k = key(cx, Some(m));
            if let Some(mf) = m.fields.iter_mut().find(|f| f.key == k) {
                mf.value.clear();
            }
            lib("clear", || {
                if let Some(f) = e.find_mut(&k) {
                    f.clear()
                }
            })?;
        }
        5 => {
            let k = key(cx, Some(m));
            let p = cx.chance(1, 2);
            if let Some(mf) = m.fields.iter_mut().find(|f| f.key == k) {
                mf.protected = p;
            }
            lib("set_protected", || {
                if let Some(f) = e.find_mut(&k) {
                    f.set_protected(p)
                }
            })?;
        }
        6 => {
            let v = text(cx);
            set(m, "Title", &v, false);
            lib("set_title", || e.set_title(&v))?;
        }
        7 => {
            let v = text(cx);
            set(m, "UserName", &v, false);
            lib("set_username", || e.set_username(&v))?;
        }
        8 => {
            let v = text(cx);
            set(m, "URL", &v, false);
            lib("set_url", || e.set_url(&v))?;
        }
        9 => {
            let v = text(cx);
            set(m, "Password", &v, true);
            lib("set_password", || e.set_password(&v))?;
        }
        10 => {
            let s = cx.pick(&["JBSWY3DPEHPK3PXP", "JBSWY3DPEHPK3PXP====", "ABC", "A=", "", "MZXW6YTBOI======"]);
            let (p, g) = (cx.pick(&[30u32, 60, 0, u32::MAX, 1]), cx.pick(&[6u32, 8, 0, u32::MAX]));
            let read = lib("set_otp", || {
                let o = Otp::new(s, p, g);
                ensure!(
                    o.secret().unwrap_or("") == s && o.period() == Some(p) && o.digits() == Some(g),
                    "one-time password",
                    "new settings ({s:?}, {p}, {g}) read as ({:?}, {:?}, {:?})",
                    o.secret(),
                    o.period(),
                    o.digits()
                );
                e.set_otp(o);
                let o = e.otp();
                let Some(o) = o else { return viol("one-time password", "one-time-password settings missing".to_string()) };
                ensure!(
                    o.secret().unwrap_or("") == s && o.period() == Some(p) && o.digits() == Some(g),
                    "one-time password",
                    "stored settings ({s:?}, {p}, {g}) read as ({:?}, {:?}, {:?})",
                    o.secret(),
                    o.period(),
                    o.digits()
                );
                Ok(e.find("otp").and_then(|f| f.value()).unwrap_or("").to_string())
            })??;
            set(m, "otp", &read, true);
        }
        11 => {
            let mut old = m.clone();
            old.history.clear();
            m.history.push(old);
            lib("new_version", || e.new_version())?;
        }
        12 if !m.history.is_empty() => {
            let i = cx.usize(m.history.len());
            let was = m.history.remove(i);
            let got = lib("history remove", || e.history_mut().remove(i))?;
            if let Some(x) = diff_entry("removed version", &was, &m_entry(&got)) {
                return viol("removed version", x);
            }
        }
        12 | 13 => {
            let mut h = gen_entry(cx, PLAIN, 1);
            if cx.chance(1, 3) {
                h.uuid = m.uuid;
            }
            m.history.push(h.clone());
            lib("history push", || {
                let le = {
                    let _h = interpose::harness();
                    l_entry(&h)
                };
                e.history_mut().push(le)
            })?;
        }
        14 => {
            // every field, or every version
            if cx.chance(1, 2) {
                let p = cx.chance(1, 2);
                m.fields.iter_mut().for_each(|f| f.protected = p);
                lib("fields_mut", || e.fields_mut().for_each(|f: &mut Field| f.set_protected(p)))?;
            } else {
                m.history.iter_mut().for_each(|h| h.times.usage = 7);
                lib("history entries_mut", || e.history_mut().entries_mut().for_each(|h| h.times_mut().usage_count = 7))?;
            }
        }
        _ => {
            let t = gen_times(cx);
            m.times = t.clone();
            lib("times_mut", || l_times(&t, e.times_mut()))?;
        }
    }
    Ok(())
}

fn tree_edit(cx: &Cx, k: &mut Kdbx<Unlocked>, db: &mut MDb) -> R {
    let op = cx.below(24);
    cx.sig(200 + op);
    let path = pick_group(cx, db);
    cx.ev(format!("tree edit {op} at {path:?}"));
    match op {
        0 | 1 => {
            let mut m = gen_entry(cx, PLAIN, 1);
            m.uuid = uuid(cx, db);
            m_group_at(db, &path).entries.push(m.clone());
            lib("add_entry", || {
                let le = {
                    let _h = interpose::harness();
                    l_entry(&m)
                };
                if path.is_empty() {
                    k.add_entry(le)
                } else {
                    l_group_at(k.database_mut(), &path).add_entry(le)
                }
            })?;
        }
        2 | 3 => {
            let mut m = gen_group(cx, PLAIN, 1);
            m.uuid = uuid(cx, db);
            if cx.chance(1, 2) {
                m.name = text(cx);
            }
            m_group_at(db, &path).groups.push(m.clone());
            lib("add_group", || {
                let lg = {
                    let _h = interpose::harness();
                    l_group(&m)
                };
                if path.is_empty() {
                    k.add_group(lg)
                } else {
                    l_group_at(k.database_mut(), &path).add_group(lg)
                }
            })?;
        }
        4 => {
            // a fresh entry filled by setters
            let (t, p) = (text(cx), text(cx));
            let e = lib("Entry::default", || {
                let mut e = Entry::default();
                e.set_title(&t);
                e.set_password(&p);
                e
            })?;
            let m = m_entry(&e);
            ensure!(
                m.fields.len() == 2 && value(&m, "Title") == Some(&t) && value(&m, "Password") == Some(&p) && m.history.is_empty(),
                "fresh entry",
                "a new entry with title and password has {:?}",
                m.fields
            );
            m_group_at(db, &path).entries.push(m);
            lib("add_entry", || l_group_at(k.database_mut(), &path).add_entry(e))?;
        }
        5 => {
            let n = text(cx);
            let g = lib("Group::new", || Group::new(&n))?;
            let m = m_group(&g);
            ensure!(m.name == n && m.entries.is_empty() && m.groups.is_empty(), "fresh group", "a new group is not empty");
            m_group_at(db, &path).groups.push(m);
            lib("add_group", || l_group_at(k.database_mut(), &path).add_group(g))?;
        }
        6 | 7 => {
            // remove or move an entry
            let g = m_group_at(db, &path);
            let u = if g.entries.is_empty() || cx.chance(1, 8) {
                uuid(cx, db)
            } else {
                g.entries[cx.usize(g.entries.len())].uuid
            };
            let g = m_group_at(db, &path);
            let was = g.entries.iter().position(|e| e.uuid == u).map(|i| g.entries.remove(i));
            let got = lib("remove_entry", || l_group_at(k.database_mut(), &path).remove_entry(Uuid::from_bytes(u)))?;
            ensure!(was.is_some() == got.is_some(), "remove_entry", "remove_entry gave {}", got.is_some());
            if let (Some(w), Some(e)) = (was, got) {
                if let Some(x) = diff_entry("removed entry", &w, &m_entry(&e)) {
                    return viol("removed entry", x);
                }
                if op == 7 {
                    let to = pick_group(cx, db);
                    m_group_at(db, &to).entries.push(w);
                    lib("add_entry", || l_group_at(k.database_mut(), &to).add_entry(e))?;
                }
            }
        }
        8 | 9 => {
            let g = m_group_at(db, &path);
            let u = if g.groups.is_empty() || cx.chance(1, 8) {
                uuid(cx, db)
            } else {
                g.groups[cx.usize(g.groups.len())].uuid
            };
            let g = m_group_at(db, &path);
            let was = g.groups.iter().position(|e| e.uuid == u).map(|i| g.groups.remove(i));
            let got = lib("remove_group", || l_group_at(k.database_mut(), &path).remove_group(Uuid::from_bytes(u)))?;
            ensure!(was.is_some() == got.is_some(), "remove_group", "remove_group gave {}", got.is_some());
            if let (Some(w), Some(g)) = (was, got) {
                if let Some(x) = diff_group("removed group", &w, &m_group(&g)) {
                    return viol("removed group", x);
                }
                if op == 9 {
                    let to = pick_group(cx, db);
                    m_group_at(db, &to).groups.push(w);
                    lib("add_group", || l_group_at(k.database_mut(), &to).add_group(g))?;
                }
            }
        }
        10 => {
            let n = text(cx);
            m_group_at(db, &path).name = n.clone();
            lib("set_name", || l_group_at(k.database_mut(), &path).set_name(&n))?;
        }
        11 => {
            let u = uuid(cx, db);
            m_group_at(db, &path).uuid = u;
            lib("set_uuid", || l_group_at(k.database_mut(), &path).set_uuid(Uuid::from_bytes(u)))?;
        }
        12 => {
            let t = gen_times(cx);
            m_group_at(db, &path).times = t.clone();
            lib("times_mut", || l_times(&t, l_group_at(k.database_mut(), &path).times_mut()))?;
        }
        13 => {
            // a search from the root, and an edit of what it finds
            let q = query(cx, db);
            let want = find_m(&db.root, &|e| q.m(e), &mut Vec::new());
            let m = want.map(|(p, i)| At {
                group: p,
                entry: i,
                hist: vec![],
            });
            let got = lib("find_entry", || k.find_entry(|e| q.l(e)).map(m_entry))?;
            let expect = m.as_ref().map(|a| m_at(db, a).clone());
            check_found("find_entry", expect, got)?;
            let v = text(cx);
            if let Some(a) = &m {
                set(m_at(db, a), "Notes", &v, false);
            }
            lib("find_entry_mut", || {
                if let Some(e) = k.find_entry_mut(|e| q.l(e)) {
                    match e.find_mut("Notes") {
                        Some(f) => f.set_value(&v),
                        None => e.add_field(Field::new("Notes", &v)),
                    }
                }
            })?;
        }
        14 => {
            // a search below a group
            let q = query(cx, db);
            let g = m_group_at(db, &path);
            let want = find_m(g, &|e| q.m(e), &mut Vec::new()).map(|(p, i)| {
                let mut x = &*g;
                for j in &p {
                    x = &x.groups[*j];
                }
                x.entries[i].clone()
            });
            let got = lib("find_entry", || l_group_at(k.database_mut(), &path).find_entry(|e| q.l(e)).map(m_entry))?;
            check_found("find_entry", want.clone(), got)?;
            let got = lib("find_entry_mut", || l_group_at(k.database_mut(), &path).find_entry_mut(|e| q.l(e)).map(|e| m_entry(e)))?;
            check_found("find_entry_mut", want, got)?;
        }
        15 | 16 => {
            let mut all = Vec::new();
            all_groups(&db.root, &mut all);
            let (mut n, mut u, mut c) = (text(cx), uuid(cx, db), cx.usize(3));
            if !all.is_empty() && cx.chance(3, 4) {
                let g = all[cx.usize(all.len())];
                n = g.name.clone();
                u = g.uuid;
                c = g.entries.len();
            }
            // the last condition searches itself
            let by = cx.below(4);
            let from = if op == 15 { Vec::new() } else { path.clone() };
            let g = m_group_at(db, &from);
            let want = find_mg(
                g,
                &|g| match by {
                    0 => g.name == n,
                    1 => g.uuid == u,
                    2 => g.entries.len() == c,
                    _ => {
                        find_mg(g, &|h| h.name == n, &mut Vec::new()).is_some()
                            || find_m(g, &|e| e.fields.len() == c, &mut Vec::new()).is_some()
                    }
                },
                &mut Vec::new(),
            );
            let pred = |g: &Group| match by {
                0 => g.name() == n,
                1 => *g.uuid().as_bytes() == u,
                2 => g.entry_count() == c,
                _ => g.find_group(|h| h.name() == n).is_some() || g.find_entry(|e| e.fields().count() == c).is_some(),
            };
            let wanted = want.as_ref().map(|p| {
                let mut x = &*g;
                for j in p {
                    x = &x.groups[*j];
                }
                x.clone()
            });
            let got = lib("find_group", || {
                if op == 15 {
                    k.find_group(pred).map(m_group)
                } else {
                    l_group_at(k.database_mut(), &from).find_group(pred).map(m_group)
                }
            })?;
            ensure!(wanted.is_some() == got.is_some(), "find_group", "find_group found {}, the model {}", got.is_some(), wanted.is_some());
            if let (Some(w), Some(g)) = (&wanted, &got) {
                if let Some(x) = diff_group("found group", w, g) {
                    return viol("found group", x);
                }
            }
            let v = text(cx);
            if let Some(p) = want {
                let mut full = from.clone();
                full.extend(p);
                m_group_at(db, &full).name = v.clone();
            }
            lib("find_group_mut", || {
                let f = if op == 15 {
                    k.find_group_mut(pred)
                } else {
                    l_group_at(k.database_mut(), &from).find_group_mut(pred)
                };
                if let Some(g) = f {
                    g.set_name(&v)
                }
            })?;
        }
        17 => {
            // listings
            let g = m_group_at(db, &path);
            let (mut me, mut mg) = (Vec::new(), Vec::new());
            all_entries(g, &mut me);
            all_groups(g, &mut mg);
            let me = sorted(me.iter().map(|e| format!("{e:?}")).collect());
            let mg = sorted(mg.iter().map(|e| format!("{e:?}")).collect());
            lib("listing", || {
                let g = l_group_at(k.database_mut(), &path);
                let le = sorted(g.recursive_entries().map(|e| format!("{:?}", m_entry(e))).collect());
                let lg = sorted(g.recursive_groups().map(|e| format!("{:?}", m_group(e))).collect());
                ensure!(le == me, "recursive_entries", "{} entries listed, {} in the model", le.len(), me.len());
                ensure!(lg == mg, "recursive_groups", "{} groups listed, {} in the model", lg.len(), mg.len());
                ensure!(
                    g.entry_count() == g.entries().count() && g.group_count() == g.groups().count(),
                    "counts",
                    "{} entries, {} groups counted",
                    g.entry_count(),
                    g.group_count()
                );
                Ok(())
            })??;
        }
        18 => {
            let n = cx.below(1000) as u32;
            model_entries(m_group_at(db, &path), &mut |e| e.times.usage = n);
            lib("recursive_entries_mut", || {
                for e in l_group_at(k.database_mut(), &path).recursive_entries_mut() {
                    e.times_mut().usage_count = n;
                }
            })?;
        }
        19 => {
            let t = text(cx);
            if cx.chance(1, 2) {
                db.name = t.clone();
                lib("set_name", || k.set_name(&t))?;
            } else {
                db.desc = t.clone();
                lib("set_description", || k.set_description(&t))?;
            }
        }
        20 => {
            let i = cx.usize(5);
            db.prot[i] ^= true;
            let p = &mut k.meta_mut().memory_protection;
            let f = [
                &mut p.protect_title,
                &mut p.protect_user_name,
                &mut p.protect_password,
                &mut p.protect_url,
                &mut p.protect_notes,
            ];
            for (j, x) in f.into_iter().enumerate() {
                if i == j {
                    *x = !*x;
                }
            }
        }
        21 => {
            if !db.custom.is_empty() && cx.chance(1, 3) {
                let i = cx.usize(db.custom.len());
                db.custom.remove(i);
                k.meta_mut().custom_data.remove(i);
            } else {
                let f = MField {
                    protected: false,
                    ..gen_field(cx, PLAIN)
                };
                db.custom.push(f.clone());
                k.meta_mut().custom_data.push(l_field(&f));
            }
        }
        22 => {
            // a copy of an entry elsewhere is independent of the original
            if let Some(at) = pick_entry(cx, db) {
                let mut m = m_at(db, &at).clone();
                m.uuid = uuid(cx, db);
                let c = lib("clone", || {
                    let mut c = l_at(k.database_mut(), &at).clone();
                    c.set_uuid(Uuid::from_bytes(m.uuid));
                    c
                })?;
                m_group_at(db, &path).entries.push(m);
                lib("add_entry", || l_group_at(k.database_mut(), &path).add_entry(c))?;
            }
        }
        _ => {
            if cx.chance(1, 4) {
                // a subtree becomes the whole database
                let m = m_group_at(db, &path).clone();
                lib("replace_root", || {
                    let g = l_group_at(k.database_mut(), &path).clone();
                    k.replace_root(g)
                })?;
                db.root = m;
            }
        }
    }
    Ok(())
}

fn check_found(what: &str, want: Option<MEntry>, got: Option<MEntry>) -> R {
    ensure!(want.is_some() == got.is_some(), "search", "{what} found {}, the model {}", got.is_some(), want.is_some());
    if let (Some(w), Some(g)) = (want, got) {
        if let Some(x) = diff_entry("found entry", &w, &g) {
            return viol("search: another entry", format!("{what}: {x}"));
        }
    }
    Ok(())
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let mut s = gen_settings(cx);
    let origin = cx.below(3);
    cx.sig(origin);
    let (mut k, mut db);
    match origin {
        0 => {
            let d = lib("Database::default", Database::default)?;
            k = lib("from_database", || Kdbx::from_database(d))?;
            apply(&mut k, &s);
            set_key(&mut k, &creds)?;
            db = content(&k)?;
        }
        1 => {
            db = gen_db(cx, PLAIN);
            k = make(&db, &s, &creds)?;
        }
        _ => {
            db = gen_db(cx, PLAIN);
            if !representable(&db) {
                return Ok(());
            }
            let major = if cx.chance(1, 4) { 3 } else { 4 };
            let a = gen_archive(cx, major, 3000);
            let mut l = Layout::choose(cx, major == 3);
            let (b, _) = foreign(cx, &a, &db, &mut l, &creds);
            k = reopen_expect("archive of another client", &b, &creds, &db)?;
            if major == 3 {
                // saved as KDBX 4 from then on
                k = lib("from_database", || Kdbx::from_database(k.database().clone()))?;
            }
            s = gen_settings(cx);
            apply(&mut k, &s);
            set_key(&mut k, &creds)?;
        }
    }
    let n = cx.range(2, 45);
    let mut snap: Option<(Database, MDb)> = None;
    cx.sample(format!("origin {origin}, {n} operations on {}", db.summary()));
    for _ in 0..n {
        match cx.weighted(&[18, 18, 6, 5, 2, 1, 1]) {
            0 => tree_edit(cx, &mut k, &mut db)?,
            1 => {
                if let Some(at) = pick_entry(cx, &db) {
                    entry_edit(cx, k.database_mut(), &mut db, &at)?
                }
            }
            2 => getters(cx, k.database_mut(), &mut db)?,
            3 => {
                if representable(&db) {
                    let b = save_ok(cx, &k)?;
                    expect_content("content after a save", &k, &db)?;
                    if cx.chance(3, 4) {
                        k = reopen_expect("content after reopening", &b, &creds, &db)?;
                        cx.count("probe.reopen");
                        cx.sig(301);
                    } else {
                        cx.sig(302);
                    }
                }
            }
            4 => {
                if representable(&db) {
                    let f = super::c09::gen_fault(cx, 6000);
                    let frag = Frag::choose(cx);
                    let (r, _) = save_to(cx, &k, frag, f)?;
                    cx.count(if r.is_err() { "fault.failed_save" } else { "probe.save_with_fault_ok" });
                    cx.sig(303 + r.is_err() as u64);
                }
            }
            5 => {
                snap = Some((lib("clone", || k.database().clone())?, db.clone()));
            }
            _ => {
                if let Some((d, m)) = snap.take() {
                    // back to an earlier state
                    if let Some(x) = diff_db(&m, &m_db(&d)) {
                        return viol("earlier copy changed", x);
                    }
                    *k.database_mut() = d;
                    db = m;
                    cx.sig(305);
                }
            }
        }
        if cx.chance(1, 3) {
            expect_content("content after editing", &k, &db)?;
        }
    }
    expect_content("content after editing", &k, &db)?;
    cx.nontrivial();
    Ok(())
}
