//! C08: input errors and early ends are reported, and opening again works.
use super::*;
use crate::arch::*;
use crate::ctx::lib;
use crate::ensure;
use crate::interpose::{self, SimFile};
use crate::refcodec as rc;
use crate::simio::*;
use std::sync::Arc;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C08",
        run,
        quick: 6000,
        thorough: 60000,
        rule: "distinct (archive kind, fault kind, place class, delivery, outcome) signatures of faults that fired",
        real: REAL,
        stub: STUB,
        assumptions: &["a fault is an error other than an interruption, or an end of input before the stored length"],
    }
}

fn run(cx: &Cx) -> R {
    let Some((bytes, creds, db)) = super::c07::any_archive(cx)? else { return Ok(()) };
    let data = Arc::new(bytes);
    let len = data.len();
    let hl = rc::parse_header(&data).map_or(0, |h| h.3);
    let spans = if data[10] == 4 { rc::block_spans(&data) } else { Vec::new() };
    // what follows the final block of a KDBX 3 archive is at most one block of padding
    let padding = |at: usize| data[10] == 3 && len - at < 16;
    cx.sample(format!("{len} bytes, {} blocks", spans.len()));
    for _ in 0..cx.range(1, 6) {
        let at = match cx.weighted(&[3, 2, 3, 2, 2]) {
            0 => cx.usize(len),
            1 => cx.usize(hl + 64),
            2 => {
                // just before the end
                len - 1 - cx.usize(80.min(len))
            }
            3 if !spans.is_empty() => {
                let (a, b) = spans[cx.usize(spans.len())];
                match cx.below(4) {
                    0 => a,
                    1 => a + 32,
                    2 => a + 36,
                    _ => b.saturating_sub(1),
                }
            }
            _ => cx.magnitude(len as u64 - 1) as usize,
        }
        .min(len - 1);
        let class = if at < hl { 0 } else if at < hl + 64 { 1 } else if at + 80 > len { 3 } else { 2 };
        let eof = cx.chance(2, 5);
        cx.sig(class * 2 + eof as u64);
        if cx.chance(3, 4) {
            let fault = if eof {
                InFault::EofAt(at)
            } else if cx.chance(1, 3) {
                InFault::ErrorOnceAt(at, cx.pick(&ERR_KINDS))
            } else {
                InFault::ErrorAt(at, cx.pick(&ERR_KINDS))
            };
            let frag = if cx.chance(1, 2) { Frag::choose(cx) } else { Frag::none() };
            let r = SimReader::new(cx, data.clone(), frag, fault);
            let st = r.stats.clone();
            let got = lib("opening a failing input", || kdbx_rs::from_reader(r))?;
            let s = st.lock().unwrap().clone();
            ensure!(
                s.reads <= len as u64 + s.eintr + 64,
                "too many reads",
                "{} reads for {len} bytes and {} interruptions",
                s.reads,
                s.eintr
            );
            match got {
                Err(e) => {
                    ensure!(
                        s.faulted,
                        "healthy input rejected",
                        "opening failed although no fault had occurred: {e:?}"
                    );
                    cx.sig(20);
                }
                Ok(l) => {
                    ensure!(
                        eof || !s.faulted,
                        "input error not reported",
                        "the input failed with an error at byte {at} of {len}, opening reported success"
                    );
                    match unlock(l, &creds)? {
                        Err((_, e)) => cx.sig_str(&kind_of(&format!("{e:?}"))),
                        Ok(k) => {
                            ensure!(
                                !s.faulted || padding(at),
                                "truncated input accepted",
                                "the input ended at byte {at} of {len}, the archive was opened and unlocked"
                            );
                            expect_content("archive", &k, &db)?;
                        }
                    }
                }
            }
        } else {
            // the same through a file
            let env = interpose::env().unwrap();
            let path = format!("/sim/f{}", env.files.len());
            let mut plan = super::c07::gen_plan(cx, len);
            let mut d = data.to_vec();
            let mut open_errno = 0;
            match cx.weighted(&[3, 3, 1]) {
                0 => plan.fail_at = Some((at as u64, cx.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN]))),
                1 => d.truncate(at),
                _ => open_errno = cx.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO]),
            }
            let short = d.len() < len;
            env.files.insert(
                path.clone(),
                SimFile {
                    data: d,
                    open_errno,
                    open_eintr: 0,
                    plan,
                },
            );
            if short {
                cx.count("fault.file_truncated");
            }
            let r = lib("opening a failing file", || kdbx_rs::open(&path))?;
            let env = interpose::env().unwrap();
            for (k, v) in &env.fd_faults {
                cx.count_n(&format!("fault.file_{k}"), *v);
            }
            env.fd_faults.clear();
            match r {
                Err(_) => cx.sig(21),
                Ok(l) => {
                    ensure!(
                        short,
                        "file error not reported",
                        "reading the file failed at byte {at} of {len}, opening reported success"
                    );
                    match unlock(l, &creds)? {
                        Err((_, e)) => cx.sig_str(&kind_of(&format!("{e:?}"))),
                        Ok(k) => {
                            ensure!(
                                padding(at),
                                "truncated file accepted",
                                "the file ended at byte {at} of {len}, the archive was opened and unlocked"
                            );
                            expect_content("archive", &k, &db)?;
                        }
                    }
                }
            }
        }
    }
    // once the input is healthy the archive opens
    reopen_expect("archive from a healthy input", &data, &creds, &db)?;
    Ok(())
}
