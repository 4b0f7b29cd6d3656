//! C25: failures are reported as what they are.
use super::*;
use crate::arch::*;
use crate::ctx::{lib, viol};
use crate::ensure;
use crate::interpose::{self, SimFile};
use crate::model::*;
use crate::refcodec as rc;
use crate::simio::*;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::errors::{Error, HeaderError, OpenError, UnlockError, WriteError};
use kdbx_rs::Kdbx;
use std::io;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C25",
        run,
        quick: 12000,
        thorough: 120000,
        rule: "distinct sequences of (archive version, kind of failure, error kind, place in the archive) of failures that occurred",
        real: REAL,
        stub: STUB,
        assumptions: &["the cause of a failure is read from the error value and its chain of sources, not from its text"],
    }
}

/// The input or output error inside an error.
fn io_kind(e: &(dyn std::error::Error + 'static)) -> Option<io::ErrorKind> {
    let mut at = Some(e);
    while let Some(e) = at {
        if let Some(x) = e.downcast_ref::<io::Error>() {
            return Some(x.kind());
        }
        at = e.source();
    }
    None
}

fn expect_io(what: &str, e: &(dyn std::error::Error + 'static), kind: io::ErrorKind) -> R {
    let got = io_kind(e);
    if got != Some(kind) {
        return viol(
            format!("{what} reported as something else"),
            format!("{what} of kind {kind:?} was reported as {e:?}"),
        );
    }
    Ok(())
}

fn wrapped_open(e: OpenError) -> R {
    match lib("Error::from", || Error::from(e))? {
        Error::Open(_) => Ok(()),
        e => viol("wrong wrapping", format!("an error of opening is wrapped as {e:?}")),
    }
}

fn input(cx: &Cx, data: &Arc<Vec<u8>>, hl: usize) -> R {
    let len = data.len();
    let v4 = data[10] == 4;
    let must = if v4 { hl + 64 } else { hl };
    let by_file = cx.chance(1, 4);
    let early = cx.chance(1, 3);
    let at = if early {
        cx.usize(must)
    } else {
        match cx.below(3) {
            0 => cx.usize(len + 1),
            1 => cx.usize(must),
            _ => cx.below(16) as usize,
        }
    };
    cx.sig(by_file as u64 * 2 + early as u64);
    cx.sig(if at < 12 { at as u64 / 4 } else if at < hl { 8 } else if at < must { 9 } else { 10 });
    let (r, kind) = if by_file {
        let env = interpose::env().unwrap();
        let path = format!("/sim/e{}", env.files.len());
        let mut plan = super::c07::gen_plan(cx, len);
        let mut open_errno = 0;
        let mut d = data.to_vec();
        let kind = if early {
            d.truncate(at);
            cx.count("fault.file_truncated");
            io::ErrorKind::UnexpectedEof
        } else {
            let errno = cx.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN, libc::EACCES, libc::ENOENT, libc::ETIMEDOUT]);
            if cx.chance(1, 3) {
                open_errno = errno;
            } else {
                plan.fail_at = Some((at as u64, errno));
            }
            cx.count("fault.file_error");
            io::Error::from_raw_os_error(errno).kind()
        };
        env.files.insert(
            path.clone(),
            SimFile {
                data: d,
                open_errno,
                open_eintr: 0,
                plan,
            },
        );
        (lib("opening a failing file", || kdbx_rs::open(&path))?, kind)
    } else {
        let (fault, kind) = if early {
            (InFault::EofAt(at), io::ErrorKind::UnexpectedEof)
        } else {
            let k = cx.pick(&ERR_KINDS);
            (InFault::ErrorAt(at, k), k)
        };
        let frag = if cx.chance(1, 2) { Frag::choose(cx) } else { Frag::none() };
        let r = SimReader::new(cx, data.clone(), frag, fault);
        cx.count(if early { "fault.input_ended" } else { "fault.input_error" });
        (lib("opening a failing input", || kdbx_rs::from_reader(r))?, kind)
    };
    cx.sig_str(&format!("{kind:?}"));
    match r {
        Ok(_) => viol("input failure not reported", format!("the input failed at byte {at} of {len}, opening reported success")),
        Err(e) => {
            cx.count("probe.input_failures_classified");
            expect_io(if early { "an early end of the input" } else { "an input error" }, &e, kind)?;
            wrapped_open(e)
        }
    }
}

/// Data that is no archive this library can read.
fn foreign_data(cx: &Cx, data: &[u8], hl: usize) -> R {
    let mut d = data.to_vec();
    let what = cx.below(5);
    cx.sig(what);
    let (name, ok): (&str, fn(&OpenError, &[u8]) -> bool) = match what {
        0 => {
            let i = cx.usize(4);
            d[i] ^= 1 << cx.below(8);
            ("another signature", |e, _| matches!(e, OpenError::NonKeepassFormat))
        }
        1 => {
            let i = 4 + cx.usize(4);
            d[i] ^= 1 << cx.below(8);
            ("another second signature", |e, _| matches!(e, OpenError::UnsupportedFileFormat))
        }
        2 => {
            let v = cx.pick(&[0u16, 1, 2, 5, 6, 255, 256, 0x0403, 0xffff]);
            d[10..12].copy_from_slice(&v.to_le_bytes());
            if cx.chance(1, 3) {
                d.truncate(12);
            }
            ("another major version", |e, d| matches!(e, OpenError::UnsupportedMajorVersion(n) if *n == u16::from_le_bytes([d[10], d[11]])))
        }
        3 => {
            if d[10] != 4 {
                return Ok(());
            }
            let i = hl + cx.usize(32);
            d[i] ^= 1 << cx.below(8);
            ("a wrong header checksum", |e, _| matches!(e, OpenError::InvalidHeader(HeaderError::ChecksumFailed)))
        }
        _ => {
            // a value that is valid but not the one the checksum was made for
            if d[10] != 4 {
                return Ok(());
            }
            let Ok((_, _, fields, _)) = rc::parse_header(&d) else { return Ok(()) };
            let mut at = 12;
            let mut places = Vec::new();
            for (id, v) in fields {
                if matches!(id, 4 | 7) && !v.is_empty() {
                    places.push((at + 5, at + 5 + v.len()));
                }
                at += 5 + v.len();
            }
            if places.is_empty() {
                return Ok(());
            }
            let (a, b) = places[cx.usize(places.len())];
            let i = a + cx.usize(b - a);
            d[i] ^= 1 << cx.below(8);
            ("a changed header", |e, _| matches!(e, OpenError::InvalidHeader(HeaderError::ChecksumFailed)))
        }
    };
    cx.count("fault.foreign_data");
    match open_bytes(&d)? {
        Ok(_) => viol(format!("{name} accepted"), format!("data with {name} was opened")),
        Err(e) => {
            ensure!(ok(&e, &d), format!("{name} reported as something else"), "{name} was reported as {e:?}");
            cx.count("probe.foreign_data_classified");
            wrapped_open(e)
        }
    }
}

fn credentials(cx: &Cx, data: &[u8], creds: &rc::Creds) -> R {
    let wrong = gen_wrong(cx, creds);
    let l = match open_bytes(data)? {
        Ok(l) => l,
        Err(e) => return viol("archive cannot be opened", format!("{e:?}")),
    };
    let v4 = data[10] == 4;
    let key = ckey(&wrong);
    let f = match lib("unlocking", || l.unlock(&key))? {
        Ok(_) => return viol("wrong credentials accepted", "wrong credentials accepted"),
        Err(f) => f,
    };
    let ok = match &f.1 {
        UnlockError::HmacInvalid => v4,
        UnlockError::StartBytesInvalid => !v4,
        _ => false,
    };
    ensure!(
        ok,
        "wrong credentials reported as something else",
        "wrong credentials for a KDBX {} archive were reported as {:?}",
        data[10],
        f.1
    );
    cx.count("probe.wrong_credentials_classified");
    match lib("Error::from", || Error::from(f))? {
        Error::Unlock(UnlockError::HmacInvalid | UnlockError::StartBytesInvalid) => Ok(()),
        e => viol("wrong wrapping", format!("wrong credentials are wrapped as {e:?}")),
    }
}

/// Damage behind the authenticated header of a KDBX 4 archive.
fn content_damage(cx: &Cx, data: &[u8], creds: &rc::Creds) -> R {
    let spans = rc::block_spans(data);
    if data[10] != 4 || spans.is_empty() {
        return Ok(());
    }
    let mut d = data.to_vec();
    let (a, b) = spans[cx.usize(spans.len())];
    let i = a + cx.usize(b - a);
    if (32..36).contains(&(i - a)) && i - a > 33 {
        // lengths of gigabytes are another property's business
        return Ok(());
    }
    d[i] ^= 1 << cx.below(8);
    cx.count("fault.content_damaged");
    let l = match open_bytes(&d)? {
        Ok(l) => l,
        Err(e) => return viol("archive cannot be opened", format!("{e:?}")),
    };
    match unlock(l, creds)? {
        Ok(_) => Ok(()),
        Err((_, e)) => {
            ensure!(
                !matches!(e, UnlockError::HmacInvalid | UnlockError::StartBytesInvalid | UnlockError::KeyGen(_)),
                "damage reported as wrong credentials",
                "damaged content was reported as {e:?} although the credentials are right"
            );
            cx.count("probe.damage_classified");
            Ok(())
        }
    }
}

enum Subject {
    Locked(Kdbx<Locked>),
    Unlocked(Kdbx<Unlocked>),
}

fn output(cx: &Cx, s: &Subject, len: usize) -> R {
    let kind = cx.pick(&OUT_ERR_KINDS);
    let at = match cx.below(3) {
        0 => cx.below(300) as usize,
        1 => 0,
        _ => cx.usize(len.max(1)),
    };
    let (fault, kind) = match cx.weighted(&[4, 1, 2]) {
        0 => (OutFault::ErrorAt(at, kind), kind),
        1 => (OutFault::ZeroAt(at), io::ErrorKind::WriteZero),
        _ => (OutFault::FlushError(kind), kind),
    };
    let frag = if cx.chance(1, 2) { Frag::choose(cx) } else { Frag::none() };
    let (sink, st) = SimSink::new(cx, frag, fault);
    let r = match s {
        Subject::Locked(k) => lib("copying", || k.write(sink))?,
        Subject::Unlocked(k) => lib("saving", || k.write(sink))?,
    };
    cx.sig_str(&format!("{kind:?}"));
    let failed = {
        let st = st.lock().unwrap();
        st.errors > 0
    };
    match r {
        Ok(()) => {
            ensure!(!failed, "output error not reported", "the output failed with {kind:?}, saving reported success");
            Ok(())
        }
        Err(e) => {
            ensure!(failed, "healthy output blamed", "no fault had occurred, saving failed with {e:?}");
            cx.count("fault.output_error");
            cx.count("probe.output_errors_classified");
            ensure!(matches!(e, WriteError::Io(_)), "an output error reported as something else", "an output error of kind {kind:?} was reported as {e:?}");
            expect_io("an output error", &e, kind)?;
            match lib("Error::from", || Error::from(e))? {
                Error::Write(_) => Ok(()),
                e => viol("wrong wrapping", format!("an error of saving is wrapped as {e:?}")),
            }
        }
    }
}

/// Archives that cannot be saved as they are.
fn unsavable(cx: &Cx, db: &MDb, creds: &rc::Creds) -> R {
    let mut k = lib("creating an archive", || Kdbx::from_database(l_db(db)))?;
    k.header_mut().kdf_params = l_kdf(&gen_kdf(cx));
    let without_key = cx.chance(1, 2);
    cx.sig(without_key as u64);
    if !without_key {
        set_key(&mut k, creds)?;
        let bad = format!("a{}b", cx.pick(&['\u{1}', '\u{8}', '\u{1f}', '\u{ffff}']));
        lib("set_name", || k.database_mut().root_mut().set_name(bad))?;
    }
    let (r, _) = save_to(cx, &k, Frag::none(), OutFault::None)?;
    match r {
        Ok(()) => viol("unsavable archive saved", "an archive without a key or with text that XML cannot hold was saved"),
        Err(WriteError::MissingKeys) if without_key => Ok(()),
        Err(WriteError::XmlWrite(_)) if !without_key => Ok(()),
        Err(e) => viol(
            if without_key { "a missing key reported as something else" } else { "unsuitable text reported as something else" },
            format!("reported as {e:?}"),
        ),
    }?;
    cx.count("probe.unsavable_classified");
    Ok(())
}

fn run(cx: &Cx) -> R {
    let Some((bytes, creds, db)) = super::c07::any_archive(cx)? else { return Ok(()) };
    let data = Arc::new(bytes);
    let Ok((_, _, _, hl)) = rc::parse_header(&data) else { return Ok(()) };
    cx.sig(data[10] as u64);
    cx.sample(format!("KDBX {}, {} bytes, {}", data[10], data.len(), db.summary()));
    let mut subject: Option<Subject> = None;
    for _ in 0..cx.range(1, 6) {
        let what = cx.weighted(&[5, 4, 3, 3, 4, 1]);
        cx.sig(what as u64 + 100);
        match what {
            0 => input(cx, &data, hl)?,
            1 => foreign_data(cx, &data, hl)?,
            2 => credentials(cx, &data, &creds)?,
            3 => content_damage(cx, &data, &creds)?,
            4 => {
                if subject.is_none() {
                    let l = match open_bytes(&data)? {
                        Ok(l) => l,
                        Err(e) => return viol("archive cannot be opened", format!("{e:?}")),
                    };
                    subject = Some(if data[10] == 4 && cx.chance(2, 3) {
                        match unlock(l, &creds)? {
                            Ok(k) => Subject::Unlocked(k),
                            Err((_, e)) => return viol("archive cannot be unlocked", format!("{e:?}")),
                        }
                    } else {
                        Subject::Locked(l)
                    });
                }
                output(cx, subject.as_ref().unwrap(), data.len())?
            }
            _ => unsavable(cx, &db, &creds)?,
        }
        cx.nontrivial();
    }
    Ok(())
}
