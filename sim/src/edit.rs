//! Editing operations applied to the library's database and to the reference model side by side.
use crate::ctx::*;
use crate::interpose;
use crate::model::*;
use kdbx_rs::binary::Unlocked;
use kdbx_rs::database::{Entry, Field, Group};
use kdbx_rs::Kdbx;
use uuid::Uuid;

fn pick_group<'a>(cx: &Cx, g: &'a mut MGroup, path: &mut Vec<usize>) -> &'a mut MGroup {
    if !g.groups.is_empty() && cx.chance(1, 2) {
        let i = cx.usize(g.groups.len());
        path.push(i);
        return pick_group(cx, &mut g.groups[i], path);
    }
    g
}
fn lib_group<'a>(k: &'a mut Kdbx<Unlocked>, path: &[usize]) -> &'a mut Group {
    let mut g = k.database_mut().root_mut();
    for i in path {
        g = g.groups_mut().nth(*i).expect("model and library trees differ");
    }
    g
}
fn lib_entry<'a>(k: &'a mut Kdbx<Unlocked>, path: &[usize], i: usize) -> &'a mut Entry {
    lib_group(k, path)
        .entries_mut()
        .nth(i)
        .expect("model and library trees differ")
}

/// One small edit; library and model change in the same way.
pub fn random_edit(cx: &Cx, k: &mut Kdbx<Unlocked>, m: &mut MDb, o: TextOpts) -> R {
    let mut path = Vec::new();
    let g = pick_group(cx, &mut m.root, &mut path);
    let op = cx.below(10);
    cx.sig(op);
    cx.ev(format!("edit {op} at {path:?}"));
    match op {
        0 => {
            let t = gen_text(cx, o);
            m.name = t.clone();
            lib("set_name", || k.set_name(t))?;
        }
        1 => {
            let e = gen_entry(cx, o, 1);
            g.entries.push(e.clone());
            lib("add_entry", || {
                let le = {
                    let _h = interpose::harness();
                    l_entry(&e)
                };
                lib_group(k, &path).add_entry(le)
            })?;
        }
        2 => {
            let n = gen_group(cx, o, 1);
            g.groups.push(n.clone());
            lib("add_group", || {
                let lg = {
                    let _h = interpose::harness();
                    l_group(&n)
                };
                lib_group(k, &path).add_group(lg)
            })?;
        }
        3 if !g.entries.is_empty() => {
            let i = cx.usize(g.entries.len());
            let u = g.entries[i].uuid;
            let at = g.entries.iter().position(|e| e.uuid == u).unwrap();
            g.entries.remove(at);
            lib("remove_entry", || {
                lib_group(k, &path).remove_entry(Uuid::from_bytes(u))
            })?;
        }
        4 if !g.groups.is_empty() => {
            let i = cx.usize(g.groups.len());
            let u = g.groups[i].uuid;
            let at = g.groups.iter().position(|e| e.uuid == u).unwrap();
            g.groups.remove(at);
            lib("remove_group", || {
                lib_group(k, &path).remove_group(Uuid::from_bytes(u))
            })?;
        }
        5 if !g.entries.is_empty() => {
            let i = cx.usize(g.entries.len());
            let f = gen_field(cx, o);
            g.entries[i].fields.push(f.clone());
            lib("add_field", || {
                let lf: Field = l_field(&f);
                lib_entry(k, &path, i).add_field(lf)
            })?;
        }
        6 if !g.entries.is_empty() => {
            let i = cx.usize(g.entries.len());
            let e = &mut g.entries[i];
            let mut old = e.clone();
            old.history.clear();
            e.history.push(old);
            lib("new_version", || lib_entry(k, &path, i).new_version())?;
        }
        7 if !g.entries.is_empty() => {
            let i = cx.usize(g.entries.len());
            let p = gen_text(cx, TextOpts { illegal: true, ..o });
            let e = &mut g.entries[i];
            match e.fields.iter_mut().find(|f| f.key == "Password") {
                Some(f) => {
                    f.value = p.clone();
                    f.protected = true;
                }
                None => e.fields.push(MField {
                    key: "Password".into(),
                    value: p.clone(),
                    protected: true,
                }),
            }
            lib("set_password", || lib_entry(k, &path, i).set_password(p))?;
        }
        8 => {
            let t = gen_times(cx);
            g.times = t.clone();
            lib("times_mut", || l_times(&t, lib_group(k, &path).times_mut()))?;
        }
        _ => {
            let t = gen_text(cx, o);
            g.name = t.clone();
            lib("set_name", || lib_group(k, &path).set_name(t))?;
        }
    }
    Ok(())
}
