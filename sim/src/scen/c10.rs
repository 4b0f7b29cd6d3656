//! C10: credentials.
use super::*;
use crate::arch::*;
use crate::ctx::lib;
use crate::ensure;
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::Layout;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C10",
        run,
        quick: 24000,
        thorough: 100000,
        rule: "distinct (archive kind, settings, sequence of wrong tries and their outcomes) signatures",
        real: REAL,
        stub: STUB,
        assumptions: &["credentials the format itself defines as equal (the same composite key) count as the right ones", "hash collisions do not occur by chance"],
    }
}

fn run(cx: &Cx) -> R {
    let creds = gen_creds(cx);
    let db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(());
    }
    let origin = cx.weighted(&[3, 3, 2]);
    cx.sig(origin as u64);
    let bytes = if origin == 0 {
        let s = gen_settings(cx);
        let k = make(&db, &s, &creds)?;
        save_ok(cx, &k)?
    } else {
        let major = if origin == 1 { 4 } else { 3 };
        let a = gen_archive(cx, major, 3000);
        let mut l = Layout::plain();
        l.iso_dates = major == 3;
        foreign(cx, &a, &db, &mut l, &creds).0
    };
    let mut locked = match open_bytes(&bytes)? {
        Ok(l) => l,
        Err(e) => return crate::ctx::viol("archive not opened", format!("{e:?}")),
    };
    // the stored form stands for the archive itself
    let seen = |l: &kdbx_rs::Kdbx<kdbx_rs::binary::Locked>| -> R<_> {
        let mut out = Vec::new();
        let r = lib("writing a locked archive", || l.write(&mut out))?;
        Ok((l.header().clone(), (l.major_version(), l.minor_version()), r.is_ok(), out))
    };
    let before = seen(&locked)?;
    let tries = cx.range(1, 7);
    cx.sample(format!("origin {origin}, {tries} wrong tries, {}", db.summary()));
    for t in 0..tries {
        let mut wrong = gen_wrong(cx, &creds);
        if cx.chance(1, 12) {
            wrong = rc::Creds { pw: None, keyfile: None };
            if equivalent(&wrong, &creds) {
                continue;
            }
        }
        // a caller that passes the failure on
        if cx.chance(1, 8) {
            if let Ok(other) = open_bytes(&bytes)? {
                let key = ckey(&wrong);
                let passed = lib("unlocking", || {
                    let r = other.unlock(&key).map(|_| ());
                    if t % 2 == 0 {
                        r.map_err(|f| kdbx_rs::Error::from(f).to_string())
                    } else {
                        r.map_err(|f| kdbx_rs::errors::UnlockError::from(f).to_string())
                    }
                })?;
                ensure!(passed.is_err(), "wrong credentials accepted", "try {t}: a second handle unlocked with wrong credentials");
            }
        }
        // in between, the right key on another handle of the same archive
        if cx.chance(1, 6) {
            reopen_expect("second handle", &bytes, &creds, &db)?;
        }
        match unlock(locked, &wrong)? {
            Ok(_) => {
                return crate::ctx::viol(
                    "wrong credentials accepted",
                    format!("try {t}: unlocked with wrong credentials (password given: {}, key file given: {})", wrong.pw.is_some(), wrong.keyfile.is_some()),
                )
            }
            Err((l, e)) => {
                cx.sig_str(&kind_of(&format!("{e:?}")));
                cx.count("fault.wrong_credentials");
                locked = l;
            }
        }
        ensure!(
            seen(&locked)? == before,
            "failed unlock changed the archive",
            "the locked archive changed in a failed unlock"
        );
    }
    match unlock(locked, &creds)? {
        Err((_, e)) => crate::ctx::viol(
            "right credentials refused",
            format!("after {tries} failed tries the right credentials are refused: {e:?}"),
        ),
        Ok(k) => expect_content("unlocked archive", &k, &db),
    }
}
