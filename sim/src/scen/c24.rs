//! C24: the command line programs.
use super::*;
use crate::arch::*;
use crate::cli::{self, Ended};
use crate::ctx::{lib, lib_catch, viol};
use crate::ensure;
use crate::interpose::{self, Folder, RngFault, SimFile};
use crate::model::*;
use crate::refcodec as rc;
use crate::refxml::{self, Layout};
use kdbx_rs::binary::{KdfParams, Locked};
use kdbx_rs::Kdbx;

pub fn scenario() -> Scenario {
    Scenario {
        id: "C24",
        run,
        quick: 8000,
        thorough: 150000,
        rule: "distinct sequences of (program, state of the file, password given, behaviour of the file and of the standard output, outcome)",
        real: "the four programs of src/bin with their main functions, all of kdbx-rs and its dependencies, std::env, std::fs, std::io and the standard streams of std",
        stub: "argument list, file contents (memory files behind open/read/write/close), write calls of the standard streams, operating system randomness, wall clock; std::process::exit ends the simulated program only",
        assumptions: &[
            "programs are the [[bin]] targets named in Cargo.toml",
            "a panic of a program counts as ending with failure",
            "damage that asks for more key derivation than 1 MiB or 20000 rounds is left out",
            "whether a damaged archive opens is what the library says; other properties decide whether that is right",
        ],
    }
}

const DEFAULT: &str = "kdbxrs";

struct Stored {
    bytes: Vec<u8>,
    pw: String,
    /// the document inside, if known
    xml: Option<Vec<u8>>,
    db: MDb,
}

fn gen_pw(cx: &Cx) -> String {
    if cx.chance(1, 3) {
        return DEFAULT.to_string();
    }
    let c = gen_creds(cx);
    c.pw.unwrap_or_else(|| "secret".into()).replace('\0', "0")
}

fn stored(cx: &Cx) -> R<Option<Stored>> {
    let pw = gen_pw(cx);
    let creds = rc::Creds {
        pw: Some(pw.clone()),
        keyfile: None,
    };
    let mut db = gen_db(cx, PLAIN);
    if !representable(&db) {
        return Ok(None);
    }
    if cx.chance(1, 6) {
        let n = cx.range(300, 30_000) as usize;
        add_bulk(cx, &mut db, n);
    }
    let origin = cx.weighted(&[2, 3, 2]);
    cx.sig(origin as u64);
    if origin == 0 {
        let k = make(&db, &gen_settings(cx), &creds)?;
        let bytes = save_ok(cx, &k)?;
        return Ok(Some(Stored { bytes, pw, xml: None, db }));
    }
    let major = if origin == 1 { 4 } else { 3 };
    let a = gen_archive(cx, major, 4000);
    let mut l = if cx.chance(1, 2) { Layout::choose(cx, major == 3) } else { Layout::plain() };
    l.iso_dates = major == 3;
    let mut ks = a.keystream();
    let mut xml = refxml::write_db(&db, &l, Some(&mut ks));
    match cx.below(6) {
        0 => xml.extend_from_slice(b"\n"),
        1 => xml.extend_from_slice(b"\r\n \n"),
        2 => xml.extend_from_slice("<!-- \u{e9}\u{4e16}\u{1f511} -->".as_bytes()),
        _ => {}
    }
    let bytes = a.encode(&creds, &xml);
    Ok(Some(Stored {
        bytes,
        pw,
        xml: Some(xml),
        db,
    }))
}

fn header_lines(k: &Kdbx<Locked>) -> Vec<String> {
    let h = k.header();
    let mut v = vec![
        format!("Version: {}.{}", k.major_version(), k.minor_version()),
        format!("Cipher: {:?}", h.cipher),
        format!("Compression: {:?}", h.compression_type),
        format!("Master Seed: {:?}", h.master_seed),
        format!("Encryption IV: {:?}", h.encryption_iv),
        format!("Other headers: {:?}", h.other_headers),
    ];
    match &h.kdf_params {
        KdfParams::Argon2 {
            variant,
            salt,
            iterations,
            memory_bytes,
            version,
            lanes,
        } => v.extend([
            "KDF: Argon2".to_string(),
            format!("\tVariant: {variant:?}"),
            format!("\tVersion: {version}"),
            format!("\tLanes: {lanes}"),
            format!("\tMemory: {memory_bytes} bytes ({}kib)", memory_bytes / 1024),
            format!("\tIterations: {iterations}"),
            format!("\tSalt: {salt:?}"),
        ]),
        KdfParams::Aes { rounds, salt } => v.extend([
            "KDF: AES".to_string(),
            format!("\tRounds: {rounds}"),
            format!("\tSalt: {salt:?}"),
        ]),
        KdfParams::Unknown { uuid, .. } => v.push(format!("KDF: Unknown ({uuid})")),
    }
    v
}

/// What a program should print, if it succeeds.
enum Want {
    Exactly(Vec<u8>),
    /// lines in any order
    Lines(Vec<String>),
    Nothing,
}

struct Plan {
    damaged: bool,
    read_fails: bool,
    out_accepts: Option<usize>,
}

fn judge(cx: &Cx, prog: &str, want: &Want, p: &Plan, e: &Ended) -> R {
    let shown = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    match want {
        Want::Nothing => {
            ensure!(
                !e.success,
                format!("{prog} reports success without an opened archive"),
                "{prog} ended with success although the archive could not be opened (damaged {}, read error {})",
                p.damaged,
                p.read_fails
            );
            ensure!(
                e.stdout.is_empty(),
                format!("{prog} prints although nothing was opened"),
                "{prog} printed {:?}",
                shown(&e.stdout)
            );
            cx.count("probe.refused");
            cx.sig(1);
        }
        Want::Exactly(w) => {
            // a document that is not UTF-8 may be refused
            let complete = p.out_accepts.is_none_or(|n| n >= w.len()) && std::str::from_utf8(w).is_ok();
            if e.success {
                cx.count("probe.outputs_compared");
                let at = e.stdout.iter().zip(w).position(|(a, b)| a != b).unwrap_or(e.stdout.len().min(w.len()));
                ensure!(
                    &e.stdout == w,
                    if e.stdout.len() < w.len() && at == e.stdout.len() {
                        format!("{prog} reports success with incomplete output")
                    } else {
                        format!("{prog} prints something else")
                    },
                    "{prog} ended with success and printed {} bytes, expected {}; first difference at {at}: {:?} instead of {:?}",
                    e.stdout.len(),
                    w.len(),
                    shown(&e.stdout[at.min(e.stdout.len())..]),
                    shown(&w[at.min(w.len())..])
                );
                cx.sig(2);
            } else {
                ensure!(
                    !complete,
                    format!("{prog} fails on an archive that opens"),
                    "{prog} ended with failure ({:?}), the archive opens",
                    e.panic
                );
                ensure!(
                    w.starts_with(&e.stdout),
                    format!("{prog} prints something else"),
                    "{prog} ended with failure after printing {:?}",
                    shown(&e.stdout)
                );
                cx.count("probe.output_errors_reported");
                cx.sig(3);
            }
        }
        Want::Lines(lines) => {
            // the parameters of an unknown key derivation come on a line of their own
            let unknown = lines.iter().any(|l| l.starts_with("KDF: Unknown"));
            let total: usize = lines.iter().map(|l| l.len() + 1).sum();
            if e.success {
                cx.count("probe.outputs_compared");
                let text = String::from_utf8_lossy(&e.stdout).into_owned();
                let found: Vec<&str> = text.lines().collect();
                for l in lines {
                    ensure!(
                        found.contains(&l.as_str()),
                        format!("{prog} does not show a setting"),
                        "{prog} ended with success; the line {l:?} is missing from {:?}",
                        shown(&e.stdout)
                    );
                }
                cx.sig(4);
            } else {
                ensure!(
                    p.out_accepts.is_some_and(|n| unknown || n < total),
                    format!("{prog} fails on an archive that opens"),
                    "{prog} ended with failure ({:?}), the archive opens",
                    e.panic
                );
                cx.count("probe.output_errors_reported");
                cx.sig(5);
            }
        }
    }
    Ok(())
}

fn sample_db() -> MDb {
    let day = |y, m, d, h, mi, s| to_secs(chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(h, mi, s).unwrap());
    let created = day(2020, 4, 1, 1, 1, 3);
    let times = MTimes {
        t: [day(2020, 4, 1, 1, 2, 3), created, day(2020, 5, 1, 1, 2, 3), created, created],
        expires: false,
        usage: 1,
    };
    let field = |key: &str, value: &str, protected| MField {
        key: key.into(),
        value: value.into(),
        protected,
    };
    MDb {
        name: "BarName".into(),
        desc: "BazDesc".into(),
        custom: vec![],
        prot: [false; 5],
        root: MGroup {
            uuid: 0x1234_5678u128.to_be_bytes(),
            name: "Root".into(),
            entries: vec![MEntry {
                uuid: 0x0065_4321u128.to_be_bytes(),
                fields: vec![field("Title", "Bar", false), field("Password", "kdbxrs", true)],
                history: vec![],
                times: times.clone(),
            }],
            groups: vec![],
            times,
        },
    }
}

/// kdbx-generate: success means a complete archive of the sample database.
fn generate(cx: &Cx) -> R {
    let env = interpose::env().unwrap();
    let mut folder = Folder::default();
    if cx.chance(1, 2) {
        let n = cx.pick(&[1u64, 100, 3000, 70_000]) as usize;
        folder.files.insert("kdbx_rs.kdbx".into(), vec![0x5a; n]);
    }
    let kind = cx.weighted(&[3, 2, 2, 4, 1, 1]);
    match kind {
        0 => {}
        1 => folder.cap = cx.range(1, 300) as usize,
        2 => folder.eintr = cx.range(1, 6) as u32,
        3 => folder.fail_at = Some((cx.below(3000), cx.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]))),
        4 => folder.open_errno = cx.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE]),
        _ => env.rng_fault = RngFault::FailFrom(env.entropy_calls + 1 + cx.below(6)),
    }
    cx.sig(kind as u64);
    env.folder = Some(folder);
    let e = cli::run("kdbx-generate", &[]);
    let env = interpose::env().unwrap();
    env.rng_fault = RngFault::None;
    let folder = env.folder.take().unwrap();
    cx.count_n("fault.output_file", folder.faults);
    cx.ev(format!("kdbx-generate: success {} {:?}", e.success, e.panic));
    cx.nontrivial();
    if e.success {
        let Some(bytes) = folder.files.get("kdbx_rs.kdbx") else {
            return viol("kdbx-generate stores nothing", "kdbx-generate ended with success, kdbx_rs.kdbx does not exist");
        };
        let creds = rc::Creds {
            pw: Some(DEFAULT.into()),
            keyfile: None,
        };
        match rc::open4(bytes, &creds) {
            Ok(o) => cx.ev(format!("document of {} bytes", o.xml.len())),
            Err(m) => {
                return viol(
                    "kdbx-generate stores a broken archive",
                    format!("kdbx-generate ended with success, {} bytes stored; another client refuses them: {m}", bytes.len()),
                )
            }
        }
        reopen_expect("generated archive", bytes, &creds, &sample_db())?;
        cx.count("probe.generated_archives");
        cx.sig(1);
    } else {
        ensure!(
            kind >= 3,
            "kdbx-generate fails",
            "kdbx-generate ended with failure ({:?}) on a healthy folder",
            e.panic
        );
        cx.sig(2);
    }
    Ok(())
}

fn usage(cx: &Cx) -> R {
    let prog = cx.pick(&["kdbx-decrypt", "kdbx-parse", "kdbx-dump-header"]);
    interpose::env().unwrap().console.clear();
    let e = cli::run(prog, &[]);
    let console = std::mem::take(&mut interpose::env().unwrap().console);
    ensure!(
        e.panic.is_none(),
        format!("{prog} panics without arguments"),
        "{prog} without arguments panicked: {}",
        e.panic.unwrap()
    );
    ensure!(
        String::from_utf8_lossy(&console).to_lowercase().contains("usage"),
        format!("{prog} does not show its usage"),
        "{prog} without arguments printed {:?}",
        String::from_utf8_lossy(&console)
    );
    cx.sig_str(prog);
    cx.nontrivial();
    cx.count("probe.usage_shown");
    Ok(())
}

fn run(cx: &Cx) -> R {
    let what = cx.weighted(&[60, 2, 1]);
    cx.sig(what as u64);
    match what {
        1 => return usage(cx),
        2 => return generate(cx),
        _ => {}
    }
    let Some(st) = stored(cx)? else { return Ok(()) };
    for _ in 0..cx.range(1, 3) {
        let prog = cx.pick(&["kdbx-decrypt", "kdbx-parse", "kdbx-dump-header"]);
        cx.sig_str(prog);
        let mut data = st.bytes.clone();
        let mut p = Plan {
            damaged: false,
            read_fails: false,
            out_accepts: None,
        };
        if cx.chance(1, 6) {
            let (d, kind) = super::damage::storage(cx, &data, &[(0, 200)]);
            p.damaged = d != data;
            data = d;
            cx.count("fault.damaged_archive");
            cx.sig_str(kind);
        }
        // the password
        let given = match cx.weighted(&[6, 3, 3]) {
            0 => Some(st.pw.clone()),
            1 => Some(
                gen_wrong(
                    cx,
                    &rc::Creds {
                        pw: Some(st.pw.clone()),
                        keyfile: None,
                    },
                )
                .pw
                .unwrap_or_default()
                .replace('\0', "0"),
            ),
            _ => None,
        };
        let pw = given.clone().unwrap_or(DEFAULT.into());
        cx.sig(given.is_none() as u64 * 2 + (pw == st.pw) as u64);
        // the file
        let env = interpose::env().unwrap();
        let path = format!("/sim/f{}", env.files.len());
        let mut f = SimFile {
            plan: super::c07::gen_plan(cx, data.len()),
            data: data.clone(),
            open_errno: 0,
            open_eintr: if cx.chance(1, 10) { 1 } else { 0 },
        };
        match cx.weighted(&[10, 2, 1]) {
            0 => {}
            1 => {
                f.plan.fail_at = Some((cx.below(data.len() as u64 + 1), cx.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN])));
                p.read_fails = true;
            }
            _ => {
                f.open_errno = cx.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO]);
                p.read_fails = true;
            }
        }
        cx.sig(p.read_fails as u64);
        env.files.insert(path.clone(), f);
        // what the library makes of the bytes
        let opened = match lib_catch(|| kdbx_rs::from_reader(&data[..])) {
            Ok(Ok(k)) => Some(k),
            _ => None,
        };
        if opened.as_ref().is_some_and(|k| super::c13::costly(&k.header().kdf_params)) {
            return Ok(());
        }
        let want = match opened {
            _ if p.read_fails => Want::Nothing,
            None => Want::Nothing,
            Some(k) if prog == "kdbx-dump-header" => Want::Lines(lib("header", || header_lines(&k))?),
            Some(k) => {
                let key = kdbx_rs::CompositeKey::from_password(&pw);
                match lib_catch(|| k.unlock(&key)) {
                    Ok(Ok(k)) => {
                        if !p.damaged {
                            expect_content("archive", &k, &st.db)?;
                        }
                        if prog == "kdbx-decrypt" {
                            let mut w = lib("raw_xml", || k.raw_xml().map(<[u8]>::to_vec))?.unwrap_or_default();
                            if let (false, Some(x)) = (p.damaged, &st.xml) {
                                w = x.clone();
                            }
                            w.push(b'\n');
                            Want::Exactly(w)
                        } else {
                            Want::Exactly(lib("Debug", || format!("{:#?}\n", k.database()))?.into_bytes())
                        }
                    }
                    _ => Want::Nothing,
                }
            }
        };
        // the standard output
        let env = interpose::env().unwrap();
        match cx.weighted(&[4, 2, 1, 2]) {
            0 => {}
            1 => env.console_cap = cx.pick(&[1usize, 7, 100, 1000]),
            2 => env.console_eintr = cx.range(1, 5) as u32,
            _ => {
                let n = match &want {
                    Want::Exactly(w) => cx.below(w.len() as u64 + 100) as usize,
                    _ => cx.below(1500) as usize,
                };
                env.console_errno = cx.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
                env.console_accepts = n;
                p.out_accepts = Some(n);
                cx.sig(9);
            }
        }
        let mut args = vec![path];
        args.extend(given);
        cx.sample(format!("{prog} on {} bytes (damaged {}, read error {}), output accepts {:?}", data.len(), p.damaged, p.read_fails, p.out_accepts));
        let e = cli::run(prog, &args);
        let env = interpose::env().unwrap();
        cx.count_n("fault.standard_output", env.console_failed);
        for (k, v) in &env.fd_faults {
            cx.count_n(&format!("fault.file_{k}"), *v);
        }
        env.console_failed = 0;
        env.fd_faults.clear();
        env.console_cap = 0;
        env.console_eintr = 0;
        env.console_errno = 0;
        env.console.clear();
        cx.ev(format!("{prog}: success {} {:?}", e.success, e.panic));
        cx.ev_data("standard output", &e.stdout);
        cx.nontrivial();
        judge(cx, prog, &want, &p, &e)?;
    }
    Ok(())
}
