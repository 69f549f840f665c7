//! Hand-written programs (/verif/corpus) with the results they must give

use crate::run::{self, Compiled, Env, JobLog, Opts};
use crate::special::violation;
use crate::work::*;
use std::process::Command;
use std::time::Duration;

pub struct Prog {
    pub name: String,
    pub props: Vec<String>,
    pub want: Vec<String>,
    pub body: String,
}

pub fn load(env: &Env) -> Vec<Prog> {
    let dir = env.verif.join("corpus");
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .unwrap_or_else(|_| run::die("no corpus"))
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|x| x == "rs"))
        .collect();
    files.sort();
    files
        .iter()
        .map(|f| {
            let text = std::fs::read_to_string(f).unwrap();
            let mut p = Prog {
                name: f.file_stem().unwrap().to_string_lossy().into_owned(),
                props: vec![],
                want: vec![],
                body: String::new(),
            };
            for l in text.lines() {
                if let Some(x) = l.strip_prefix("//props ") {
                    p.props = x.split_whitespace().map(|s| s.to_string()).collect();
                } else if let Some(x) = l.strip_prefix("//want ") {
                    p.want.push(x.chars().flat_map(|c| c.escape_default()).collect());
                } else {
                    p.body.push_str(l);
                    p.body.push('\n');
                }
            }
            p
        })
        .collect()
}

/// Compile and run the programs that concern `prop`
pub fn check(env: &Env, prop: &'static str, editions: &[&'static str]) -> Report {
    let progs: Vec<Prog> = load(env)
        .into_iter()
        .filter(|p| prop == "C11" || p.props.iter().any(|x| x == prop))
        .collect();
    let mut rep = Report::default();
    if progs.is_empty() {
        return rep;
    }
    let mods: Vec<String> = progs
        .iter()
        .enumerate()
        .map(|(k, p)| format!("mod m{} {{\n{}}}\n", k, p.body))
        .collect();
    let reps = run::parallel(editions, |_, ed| {
        let mut rep = Report::default();
        let o = Opts {
            edition: ed,
            prelude: if prop == "C11" { "#![forbid(unsafe_code)]".into() } else { String::new() },
            ..Opts::default()
        };
        let name = format!("corpus{}", ed);
        let b = run::build(env, &name, &mods, &o);
        for (k, p) in progs.iter().enumerate() {
            rep.stats.add("corpus programs", 1);
            if b.results[k] != Compiled::Yes && b.results[k] != Compiled::Undecided {
                rep.violations.push(violation(
                    prop,
                    hash(&(&p.name, ed)),
                    p.body.len() / 10,
                    format!("corpus program {} does not compile (edition {}): {:?}", p.name, ed, b.results[k]),
                    String::new(),
                    "",
                    &mods[k],
                ));
            }
        }
        let Some(bin) = b.bin else { return rep };
        let live: Vec<usize> = (0..progs.len()).filter(|k| b.results[*k].ok()).collect();
        let jobs: Vec<String> = live.iter().map(|k| format!("{} 0 l100000", k)).collect();
        let logs = run::run_jobs(env, &bin, &name, &jobs, 8 << 20, Duration::from_secs(60));
        let _ = std::fs::remove_file(&bin);
        for (k, log) in live.iter().zip(&logs) {
            let p = &progs[*k];
            let got: Vec<String> = match log {
                JobLog::Log(l) => l.lines().filter(|l| !l.starts_with("e ")).map(|l| l.to_string()).collect(),
                JobLog::Skipped => continue,
                o => vec![format!("{:?}", o)],
            };
            rep.stats.add("corpus results compared", p.want.len() as u64);
            if got != p.want {
                let at = got.iter().zip(&p.want).take_while(|(a, b)| a == b).count();
                rep.violations.push(violation(
                    prop,
                    hash(&(&p.name, ed)),
                    p.body.len() / 10,
                    format!(
                        "corpus program {}, result {}: observed {:?}, correct is {:?}",
                        p.name,
                        at,
                        got.get(at).map_or("nothing", |s| s),
                        p.want.get(at).map_or("nothing", |s| s)
                    ),
                    format!("observed:\n{}\nwanted:\n{}", got.join("\n"), p.want.join("\n")),
                    "0 0 l100000",
                    &mods[*k],
                ));
            }
        }
        rep
    });
    for r in reps {
        rep.merge(r);
    }
    rep
}

/// Programs of two crates (/verif/corpus/crates): a library with parsers, and a program that uses it
pub fn crates(env: &Env, prop: &'static str) -> Report {
    let mut rep = Report::default();
    let dir = env.verif.join("corpus/crates");
    let mut names: Vec<String> = std::fs::read_dir(&dir)
        .unwrap_or_else(|_| run::die("no corpus"))
        .flatten()
        .filter_map(|e| e.file_name().to_string_lossy().strip_suffix(".lib.rs").map(|s| s.to_string()))
        .collect();
    names.sort();
    for name in names {
        for ed in ["2018", "2021", "2024"] {
            let lib = dir.join(format!("{}.lib.rs", name));
            let main = dir.join(format!("{}.main.rs", name));
            let rlib = env.work.join(format!("lib{}{}.rlib", name, ed));
            let bin = env.work.join(format!("{}{}.bin", name, ed));
            let rustc = |file: &std::path::Path, out: &std::path::Path, args: &[String]| {
                let mut c = Command::new("rustc");
                c.args(["--edition", ed, "-Awarnings", "-Cdebuginfo=0", "--error-format=short"]).args(args);
                c.arg("-L").arg(format!("dependency={}", env.macro_so.parent().unwrap().display()));
                c.arg("-o").arg(out).arg(file).env("TMPDIR", &env.work);
                run::run_limited(&mut c, Duration::from_secs(120), 0)
            };
            let a = ["--crate-type=lib", "--crate-name=pgdep", "--extern"].map(String::from);
            let a = [&a[..], &[format!("parsegen={}", env.macro_so.display())]].concat();
            let mut r = rustc(&lib, &rlib, &a);
            let mut at = "the library does not compile";
            if r.status == Some(0) {
                // (the program itself does not know the macro)
                let a = ["--crate-name=user".to_string(), "--extern".to_string(), format!("pgdep={}", rlib.display())];
                r = rustc(&main, &bin, &a);
                at = "a program that uses the library does not compile";
            }
            if r.status == Some(0) {
                r = run::run_limited(&mut Command::new(&bin), Duration::from_secs(60), 0);
                at = "a program that uses the library observes something else";
            }
            rep.stats.add("programs of two crates", 1);
            if r.status != Some(0) {
                rep.violations.push(violation(
                    prop,
                    hash(&(&name, ed)),
                    10,
                    format!("parsers in a library of their own ({}, edition {}): {}: {}", name, ed, at, run::tail(&r.stderr)),
                    std::fs::read_to_string(&main).unwrap_or_default(),
                    "",
                    &std::fs::read_to_string(&lib).unwrap_or_default(),
                ));
            }
            let _ = std::fs::remove_file(&rlib);
            let _ = std::fs::remove_file(&bin);
        }
    }
    rep
}
