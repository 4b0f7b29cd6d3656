//! C19: data that is only carried along.
use super::*;
use crate::arch::*;
use crate::choice::Prng;
use crate::ctx::viol;
use crate::edit;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;
use crate::simio::*;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C19",
        run,
        quick: 12000,
        thorough: 150000,
        rule: "distinct (number, kind and size class of carried fields, settings, sequence of saves, edits, settings and key changes) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &["fields of KDBX 4 archives; up to 12 extra fields of up to 70000 bytes"],
    }
}

fn carried(f: &[(u8, Vec<u8>)], own: &[u8]) -> Vec<(u8, Vec<u8>)> {
    f.iter().filter(|x| !own.contains(&x.0)).cloned().collect()
}
fn show(f: &[(u8, Vec<u8>)]) -> String {
    f.iter().map(|x| format!("{}[{}]", x.0, x.1.len())).collect::<Vec<_>>().join(" ")
}

fn more(cx: &Cx, ids: &[u8], v: &mut Vec<(u8, Vec<u8>)>) {
    for _ in 0..cx.weighted(&[3, 2, 2, 1, 1]) {
        let len = match cx.weighted(&[3, 2, 2, 1]) {
            0 => cx.range(0, 40) as usize,
            1 => cx.pick(&[0usize, 1, 255, 256, 257, 65535, 65536, 65537]),
            2 => cx.magnitude(3000) as usize,
            _ => cx.magnitude(70_000) as usize,
        };
        let d = match cx.below(3) {
            0 => vec![0; len],
            _ => Prng::new(cx.seed()).bytes(len),
        };
        let at = cx.usize(v.len() + 1);
        v.insert(at, (cx.pick(ids), d));
    }
}

fn run(cx: &Cx) -> R {
    let mut creds = gen_creds(cx);
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    let mut a = gen_archive(cx, 4, 3000);
    more(cx, &[1, 5, 6, 8, 10, 12, 13, 42, 99, 200, 255], &mut a.outer_extra);
    more(cx, &[3, 3, 3, 4, 5, 77, 255], &mut a.inner_extra);
    let want_outer = carried(&a.outer_fields(), &[0, 2, 3, 4, 7, 11]);
    let want_inner = carried(&a.inner_fields(), &[0, 1, 2]);
    let minor = a.minor;
    cx.sig(want_outer.len() as u64 * 64 + want_inner.len() as u64);
    for (_, d) in want_outer.iter().chain(&want_inner) {
        cx.sig((d.len() as f64 + 1.0).log2() as u64);
    }
    cx.sample(format!("outer {}, inner {}", show(&want_outer), show(&want_inner)));
    let (b, _) = foreign(cx, &a, &db, &mut Layout::plain(), &creds);
    let mut k = reopen_expect("archive of another client", &b, &creds, &db)?;
    let mut set = Settings {
        cipher: a.cipher,
        gzip: a.gzip.is_some(),
        kdf: a.kdf.clone(),
        inner: a.inner,
    };
    for _ in 0..cx.range(1, 7) {
        let op = cx.weighted(&[6, 2, 2, 1, 2]);
        cx.sig(op as u64);
        match op {
            0 => {
                let bytes = save_ok(cx, &k)?;
                let o = match rc::open4(&bytes, &creds) {
                    Ok(o) => o,
                    Err(e) => return viol("save rejected by another client", e),
                };
                let got = carried(&o.outer, &[0, 2, 3, 4, 7, 11]);
                ensure!(
                    got == want_outer,
                    "outer header data not preserved",
                    "outer header fields (id[length]) {} became {}",
                    show(&want_outer),
                    show(&got)
                );
                let got = carried(&o.inner_fields, &[0, 1, 2]);
                ensure!(
                    got == want_inner,
                    "inner header data not preserved",
                    "inner header fields (id[length]) {} became {}",
                    show(&want_inner),
                    show(&got)
                );
                ensure!(o.minor == minor, "minor version not preserved", "minor version {minor} became {}", o.minor);
                ensure!(
                    (o.cipher, o.gzip, o.inner) == (set.cipher, set.gzip, set.inner) && l_kdf(&o.kdf) == l_kdf(&set.kdf),
                    "header settings not preserved",
                    "settings {set:?} became {:?} {} {:?} {:?}",
                    o.cipher,
                    o.gzip,
                    o.inner,
                    o.kdf
                );
                cx.nontrivial();
                cx.count("probe.saves_checked");
                let u = reopen_expect("save", &bytes, &creds, &db)?;
                ensure!(
                    u.minor_version() == minor && u.major_version() == 4,
                    "version not preserved",
                    "version 4.{minor} read as {}.{}",
                    u.major_version(),
                    u.minor_version()
                );
                ensure!(
                    u.header().other_headers == k.header().other_headers && u.inner_header().other_headers == k.inner_header().other_headers,
                    "carried fields read differently",
                    "carried header fields differ after a save and reopen"
                );
                if cx.chance(3, 4) {
                    k = u;
                }
            }
            1 => {
                edit::random_edit(cx, &mut k, &mut db, PLAIN)?;
                if !representable(&db) {
                    return Ok(());
                }
            }
            2 => {
                set = gen_settings(cx);
                apply(&mut k, &set);
            }
            3 => {
                creds = gen_creds(cx);
                set_key(&mut k, &creds)?;
            }
            _ => {
                let f = super::c09::gen_fault(cx, b.len());
                let _ = save_to(cx, &k, Frag::choose(cx), f)?;
            }
        }
    }
    Ok(())
}
