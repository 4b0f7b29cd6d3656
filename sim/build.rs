use std::fmt::Write;

fn main() {
    // The harness binary defines libc symbols (getrandom, clock_gettime, ...); export them so that
    // look-ups by name find them as well.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_CLI").is_some() {
        programs();
    }
}

/// The command line programs of the repository as modules, each with its unchanged `main`.
fn programs() {
    println!("cargo:rerun-if-changed=/repo/Cargo.toml");
    println!("cargo:rerun-if-changed=/repo/src/bin");
    let manifest = std::fs::read_to_string("/repo/Cargo.toml").unwrap();
    let value = |part: &str, key: &str| {
        let line = part.lines().find(|l| l.trim_start().starts_with(key))?;
        Some(line.split('"').nth(1)?.to_string())
    };
    let mut out = String::new();
    let mut table = String::from("pub const PROGRAMS: &[(&str, fn() -> std::process::ExitCode)] = &[\n");
    for part in manifest.split("[[bin]]").skip(1) {
        let part = part.split("\n[").next().unwrap();
        let (Some(name), Some(path)) = (value(part, "name"), value(part, "path")) else { continue };
        let path = format!("/repo/{path}");
        println!("cargo:rerun-if-changed={path}");
        let module = name.replace('-', "_");
        writeln!(out, "#[allow(warnings)]\npub mod {module} {{").unwrap();
        let mut source = std::fs::read_to_string(&path).unwrap();
        // ending the process must only end the simulated program
        source = source.replace("std::process::exit", "crate::cli::exit").replace("crate::cli::exit_code", "std::process::exit_code");
        source = source.replace(" process::exit(", " crate::cli::exit(");
        if let Some((before, after)) = source.split_once("use std::process::{") {
            let (list, rest) = after.split_once('}').unwrap();
            let names: Vec<&str> = list.split(',').map(str::trim).collect();
            if names.contains(&"exit") {
                let others: Vec<&str> = names.into_iter().filter(|n| *n != "exit").collect();
                source = format!("{before}use crate::cli::exit; use std::process::{{{}}}{rest}", others.join(", "));
            }
        }
        for line in source.lines() {
            // attributes and comments of the crate have no place in a module
            if !line.starts_with("//!") && !line.starts_with("#!") {
                writeln!(out, "{line}").unwrap();
            }
        }
        writeln!(out, "pub fn entry() -> std::process::ExitCode {{ std::process::Termination::report(main()) }}\n}}").unwrap();
        writeln!(table, "    (\"{name}\", {module}::entry),").unwrap();
    }
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/programs.rs"), format!("{out}{table}];\n")).unwrap();
}
