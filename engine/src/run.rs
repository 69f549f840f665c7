//! Builds the macro and the test programs, runs them

use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub struct Env {
    pub verif: PathBuf,
    pub macro_so: PathBuf,
    pub pgrt: PathBuf,
    pub pgrt_deps: PathBuf,
    /// a library to preload, see probe.c
    pub probe: Option<PathBuf>,
    pub work: PathBuf,
}

pub fn die(msg: &str) -> ! {
    eprintln!("pgmon: {}", msg);
    std::process::exit(3)
}

fn newest(dir: &Path, prefix: &str, suffix: &str) -> Option<PathBuf> {
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(dir).ok()?.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with(prefix) && n.ends_with(suffix) {
            let t = e.metadata().ok()?.modified().ok()?;
            if best.as_ref().is_none_or(|b| t > b.0) {
                best = Some((t, e.path()));
            }
        }
    }
    best.map(|b| b.1)
}

impl Env {
    /// Build the macro from /repo's working tree and locate the monitor library
    pub fn prepare(verif: &Path) -> Env {
        let build = verif.join(".build");
        let host = build.join("host");
        // never reuse a build of the macro
        let fp = host.join("release/.fingerprint");
        if let Ok(d) = std::fs::read_dir(&fp) {
            for e in d.flatten() {
                if e.file_name().to_string_lossy().starts_with("parsegen-") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        if let Ok(d) = std::fs::read_dir(host.join("release/deps")) {
            for e in d.flatten() {
                if e.file_name().to_string_lossy().starts_with("libparsegen-") {
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
        let out = Command::new("cargo")
            .args(["build", "--release", "--offline", "--locked", "--manifest-path"])
            .arg(verif.join("host/Cargo.toml"))
            .arg("--target-dir")
            .arg(&host)
            .env_remove("RUSTFLAGS")
            .output()
            .unwrap_or_else(|e| die(&format!("cargo: {}", e)));
        if !out.status.success() {
            die(&format!("the macro does not build:\n{}", String::from_utf8_lossy(&out.stderr)));
        }
        let macro_so = newest(&host.join("release/deps"), "libparsegen-", ".so")
            .unwrap_or_else(|| die("no libparsegen-*.so"));
        let rt = build.join("rt/release");
        let pgrt = rt.join("libpgrt.rlib");
        if !pgrt.exists() {
            die("no libpgrt.rlib");
        }
        let work = build.join(format!("work-{}", std::process::id()));
        std::fs::create_dir_all(&work).unwrap();
        Env {
            verif: verif.into(),
            macro_so,
            pgrt,
            pgrt_deps: rt.join("deps"),
            probe: Some(verif.join(".build/probe.so")).filter(|p| p.exists()),
            work,
        }
    }

    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }
}

pub struct Outcome {
    pub status: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub stderr: String,
    pub stdout: Vec<u8>,
}

/// Run a command with limits; memory in MB
pub fn run_limited(cmd: &mut Command, wall: Duration, mem_mb: u64) -> Outcome {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    unsafe {
        cmd.pre_exec(move || {
            #[repr(C)]
            struct Rlimit {
                cur: u64,
                max: u64,
            }
            extern "C" {
                fn setrlimit(r: i32, l: *const Rlimit) -> i32;
                fn setpgid(a: i32, b: i32) -> i32;
            }
            let l = Rlimit {
                cur: mem_mb << 20,
                max: mem_mb << 20,
            };
            if mem_mb > 0 {
                setrlimit(9, &l);
            }
            let core = Rlimit { cur: 0, max: 0 };
            setrlimit(4, &core);
            setpgid(0, 0);
            Ok(())
        });
    }
    let mut child = cmd
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die(&format!("cannot run {:?}: {}", cmd, e)));
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let mut timeout = false;
    let mut nap = 1;
    let st = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None => {
                if t0.elapsed() > wall {
                    timeout = true;
                    extern "C" {
                        fn kill(p: i32, s: i32) -> i32;
                    }
                    unsafe {
                        kill(-(child.id() as i32), 9);
                    }
                    break child.wait().unwrap();
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            }
        }
    };
    Outcome {
        status: st.code(),
        signal: st.signal(),
        timeout,
        stdout: a.join().unwrap(),
        stderr: String::from_utf8_lossy(&b.join().unwrap()).into_owned(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Compiled {
    Yes,
    /// error text; true if the macro itself panicked or reported it
    No(String),
    Hang,
    Crash(String),
    /// in one crate with something that hangs
    Undecided,
}

impl Compiled {
    pub fn ok(&self) -> bool {
        *self == Compiled::Yes
    }
}

#[derive(Clone)]
pub struct Opts {
    pub edition: &'static str,
    pub metadata_only: bool,
    pub expand_only: bool,
    pub wall: Duration,
    pub prelude: String,
    /// 0: debug, 1: no debug assertions and overflow checks, 2: optimised as well
    pub profile: u8,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts {
            edition: "2021",
            metadata_only: false,
            expand_only: false,
            wall: Duration::from_secs(120),
            prelude: String::new(),
            profile: 0,
        }
    }
}

/// how many batches did not end
static HANGS: AtomicUsize = AtomicUsize::new(0);

pub struct Built {
    pub results: Vec<Compiled>,
    /// program containing all modules that compiled
    pub bin: Option<PathBuf>,
    pub rounds: usize,
}

pub fn rustc(env: &Env, file: &Path, out: &Path, o: &Opts, mem_mb: u64) -> Outcome {
    let mut c = Command::new("rustc");
    c.arg("--edition").arg(o.edition).args([
        "--crate-name",
        "batch",
        "--error-format=short",
        "-Awarnings",
        "-Cdebuginfo=0",
        "-Copt-level=0",
    ]);
    c.arg("--extern").arg(format!("parsegen={}", env.macro_so.display()));
    c.arg("--extern").arg(format!("pgrt={}", env.pgrt.display()));
    c.arg("-L").arg(format!("dependency={}", env.pgrt_deps.display()));
    match o.profile {
        1 => {
            c.args(["-Cdebug-assertions=no", "-Coverflow-checks=no"]);
        }
        2 => {
            c.args(["-Copt-level=2", "-Cdebug-assertions=no", "-Coverflow-checks=no"]);
        }
        _ => {}
    }
    if o.expand_only {
        c.arg("-Zunpretty=expanded").env("RUSTC_BOOTSTRAP", "1");
    } else if o.metadata_only {
        c.args(["--emit=metadata", "--crate-type=bin"]);
    }
    c.arg("-o").arg(out).arg(file);
    c.env("RUST_BACKTRACE", "0").env("TMPDIR", &env.work);
    run_limited(&mut c, o.wall, mem_mb)
}

fn program(mods: &[(usize, &String)], o: &Opts) -> (String, Vec<(usize, usize, usize)>) {
    let mut s = String::from("#![allow(warnings)]\n");
    s += &o.prelude;
    if !s.ends_with('\n') {
        s.push('\n');
    }
    let mut spans = vec![];
    for (k, m) in mods {
        let a = s.matches('\n').count() + 1;
        s += m;
        if !s.ends_with('\n') {
            s.push('\n');
        }
        let b = s.matches('\n').count();
        spans.push((a, b, *k));
    }
    s += "fn main() { ::pgrt::main(&[";
    for (k, _) in mods {
        s += &format!("({}, m{}::ENTRIES), ", k, k);
    }
    s += "]) }\n";
    (s, spans)
}

/// At the end of the modules of a program that is compiled that way (so that it is also in the replays)
fn profile_mark(k: u8) -> String {
    format!("// profile {}\n", k)
}

/// Some programs are compiled without debug assertions, some optimised
pub fn some_profile(mods: &mut [String], seed: u64) -> u8 {
    let k = match seed % 16 {
        0..=3 => 1,
        4 => 2,
        _ => 0,
    };
    if k > 0 {
        for m in mods {
            if !m.ends_with('\n') {
                m.push('\n');
            }
            *m += &profile_mark(k);
        }
    }
    k
}

/// Compile modules named m<index>; find out which are refused
pub fn build(env: &Env, name: &str, mods: &[String], o: &Opts) -> Built {
    let mut results: Vec<Compiled> = vec![Compiled::Yes; mods.len()];
    let mut rounds = 0;
    loop {
        let live: Vec<(usize, &String)> = mods
            .iter()
            .enumerate()
            .filter(|(k, _)| results[*k].ok())
            .collect();
        if live.is_empty() {
            return Built {
                results,
                bin: None,
                rounds,
            };
        }
        rounds += 1;
        let (text, spans) = program(&live, o);
        let mut o = o.clone();
        for k in [1, 2] {
            if text.contains(&profile_mark(k)) {
                o.profile = k;
            }
        }
        let o = &o;
        let file = env.work.join(format!("{}.rs", name));
        let out = env.work.join(format!("{}.bin", name));
        std::fs::write(&file, text).unwrap();
        let r = rustc(env, &file, &out, o, 0);
        if r.status == Some(0) {
            return Built {
                results,
                bin: Some(out),
                rounds,
            };
        }
        if r.timeout {
            // one that does not end is enough
            let mut idx: Vec<usize> = live.iter().map(|(k, _)| *k).collect();
            let all = idx.clone();
            if HANGS.fetch_add(1, Ordering::Relaxed) == 0 {
                while idx.len() > 1 {
                    let part = &idx[..idx.len() / 2];
                    let (text, _) = program(&part.iter().map(|k| (*k, &mods[*k])).collect::<Vec<_>>(), o);
                    std::fs::write(&file, text).unwrap();
                    let mut oo = o.clone();
                    oo.wall = (o.wall / 2).min(Duration::from_secs(25));
                    if rustc(env, &file, &out, &oo, 0).timeout {
                        idx = part.to_vec();
                    } else {
                        idx.drain(..idx.len() / 2);
                    }
                }
                let (text, _) = program(&[(idx[0], &mods[idx[0]])], o);
                std::fs::write(&file, text).unwrap();
                let hangs = all.len() == 1 || rustc(env, &file, &out, o, 0).timeout;
                results[idx[0]] = if hangs { Compiled::Hang } else { Compiled::Undecided };
            }
            for k in all {
                if results[k].ok() {
                    results[k] = Compiled::Undecided;
                }
            }
            let _ = std::fs::remove_file(&out);
            return Built {
                results,
                bin: None,
                rounds,
            };
        }
        let mut hit: BTreeMap<usize, String> = BTreeMap::new();
        if r.signal.is_none() {
            let tag = format!("{}.rs:", name);
            for line in r.stderr.lines() {
                let Some(at) = line.find(&tag) else { continue };
                let rest = &line[at + tag.len()..];
                let mut it = rest.splitn(3, ':');
                let (Some(l), Some(_), Some(msg)) = (it.next(), it.next(), it.next()) else {
                    continue;
                };
                let Ok(l) = l.parse::<usize>() else { continue };
                if !msg.trim_start().starts_with("error") {
                    continue;
                }
                if let Some((_, _, k)) = spans.iter().find(|(a, b, _)| *a <= l && l <= *b) {
                    hit.entry(*k).or_insert_with(|| msg.trim().to_string());
                }
            }
        }
        if hit.is_empty() {
            // not attributable to a line: classify by halving
            let idx: Vec<usize> = live.iter().map(|(k, _)| *k).collect();
            for part in [&idx[..idx.len() / 2], &idx[idx.len() / 2..]] {
                let rs = build_subset(env, &format!("{}_h", name), mods, part, o);
                for (k, c) in part.iter().zip(rs) {
                    results[*k] = c;
                }
            }
            if idx.iter().all(|k| results[*k].ok()) {
                // invocations of the macro in one crate must not influence each other
                for k in &idx[idx.len() / 2..] {
                    results[*k] = Compiled::No(format!(
                        "compiles, but not together with other invocations of the macro: {}",
                        tail(&r.stderr)
                    ));
                }
            }
            continue;
        }
        for (k, m) in hit {
            results[k] = Compiled::No(m);
        }
    }
}

fn build_subset(env: &Env, name: &str, mods: &[String], idx: &[usize], o: &Opts) -> Vec<Compiled> {
    let mut results: BTreeMap<usize, Compiled> = idx.iter().map(|k| (*k, Compiled::Yes)).collect();
    loop {
        let live: Vec<(usize, &String)> = idx
            .iter()
            .filter(|k| results[k].ok())
            .map(|k| (*k, &mods[*k]))
            .collect();
        if live.is_empty() {
            break;
        }
        let (text, spans) = program(&live, o);
        let file = env.work.join(format!("{}.rs", name));
        let out = env.work.join(format!("{}.bin", name));
        std::fs::write(&file, text).unwrap();
        let r = rustc(env, &file, &out, o, 0);
        let _ = std::fs::remove_file(&out);
        if r.status == Some(0) {
            break;
        }
        let mut hit = BTreeMap::new();
        if !r.timeout && r.signal.is_none() {
            let tag = format!("{}.rs:", name);
            for line in r.stderr.lines() {
                if let Some(at) = line.find(&tag) {
                    let rest = &line[at + tag.len()..];
                    if let Some(l) = rest.split(':').next().and_then(|x| x.parse::<usize>().ok()) {
                        if line.contains(": error") {
                            if let Some((_, _, k)) = spans.iter().find(|(a, b, _)| *a <= l && l <= *b) {
                                hit.entry(*k).or_insert_with(|| line.to_string());
                            }
                        }
                    }
                }
            }
        }
        if !hit.is_empty() {
            for (k, m) in hit {
                results.insert(k, Compiled::No(m));
            }
            continue;
        }
        if live.len() == 1 {
            results.insert(
                live[0].0,
                if r.timeout {
                    Compiled::Hang
                } else if r.signal.is_some() {
                    Compiled::Crash(tail(&r.stderr))
                } else {
                    Compiled::No(tail(&r.stderr))
                },
            );
            continue;
        }
        let mid = live.len() / 2;
        let mut oo = o.clone();
        oo.wall = (o.wall / 2).max(Duration::from_secs(20));
        for part in [&live[..mid], &live[mid..]] {
            let ix: Vec<usize> = part.iter().map(|p| p.0).collect();
            for (k, c) in ix.iter().zip(build_subset(env, name, mods, &ix, &oo)) {
                results.insert(*k, c);
            }
        }
        break;
    }
    idx.iter().map(|k| results[k].clone()).collect()
}

pub fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().collect();
    let k = v.len().saturating_sub(12);
    v[k..].join(" / ").chars().take(1500).collect()
}

/// What happened to a job
#[derive(Clone, Debug, PartialEq)]
pub enum JobLog {
    Log(String),
    /// the program died or hung in this job
    Crash(String),
    Hang,
    /// not run (after too many crashes)
    Skipped,
}

/// Run jobs (one line each) in a built program
pub fn run_jobs(env: &Env, bin: &Path, name: &str, jobs: &[String], stack: usize, wall: Duration) -> Vec<JobLog> {
    let mut out: Vec<JobLog> = vec![];
    let mut bad = 0;
    while out.len() < jobs.len() {
        if bad >= 4 {
            out.resize(jobs.len(), JobLog::Skipped);
            break;
        }
        let base = out.len();
        let jf = env.work.join(format!("{}.jobs", name));
        let lf = env.work.join(format!("{}.log", name));
        std::fs::write(&jf, jobs[base..].join("\n") + "\n").unwrap();
        let _ = std::fs::remove_file(&lf);
        let mut c = Command::new(bin);
        c.arg(&jf).arg(&lf).arg(stack.to_string());
        let r = run_limited(&mut c, wall, 3500);
        let log = std::fs::read_to_string(&lf).unwrap_or_default();
        for l in split_log(&log) {
            out.push(JobLog::Log(l));
        }
        if out.len() > jobs.len() {
            die("more logs than jobs");
        }
        if out.len() < jobs.len() {
            bad += 1;
            if r.timeout {
                out.push(JobLog::Hang);
            } else {
                out.push(JobLog::Crash(format!(
                    "status {:?} signal {:?}: {}",
                    r.status,
                    r.signal,
                    tail(&r.stderr)
                )));
            }
        }
        let _ = std::fs::remove_file(&jf);
        let _ = std::fs::remove_file(&lf);
    }
    out
}

/// Complete logs in a log file
pub fn split_log(log: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Option<String> = None;
    for line in log.split_inclusive('\n') {
        if line.starts_with("J ") {
            cur = Some(String::new());
        } else if line == ".\n" {
            if let Some(c) = cur.take() {
                out.push(c);
            }
        } else if let Some(c) = &mut cur {
            c.push_str(line);
        }
    }
    out
}

/// Items that were not judged because this program is wrong, and all
pub static LOST: AtomicUsize = AtomicUsize::new(0);
pub static ALL: AtomicUsize = AtomicUsize::new(0);

/// Run `f` over the items on all cores, results in order
pub fn parallel<T: Sync, R: Send + Default>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<R>>> = items.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= items.len() {
                    break;
                }
                ALL.fetch_add(1, Ordering::Relaxed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(k, &items[k])));
                let r = r.unwrap_or_else(|_| {
                    LOST.fetch_add(1, Ordering::Relaxed);
                    R::default()
                });
                *out[k].lock().unwrap() = Some(r);
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

/// Run a program in Miri, under `n` schedules
pub fn miri(env: &Env, name: &str, text: &str, args: &[String], first: u64, n: u64) -> Outcome {
    let target = env.verif.join(".build/miri");
    // never reuse a build of the macro
    for d in ["build", ".fingerprint", "deps", "incremental"] {
        if let Ok(d) = std::fs::read_dir(target.join("miri/debug").join(d)) {
            for e in d.flatten() {
                if e.file_name().to_string_lossy().trim_start_matches("lib").starts_with("parsegen") {
                    let _ = std::fs::remove_dir_all(e.path()).or_else(|_| std::fs::remove_file(e.path()));
                }
            }
        }
    }
    let file = env.work.join(format!("{}-miri.rs", name));
    std::fs::write(&file, text).unwrap();
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--locked", "--manifest-path"])
        .arg(env.verif.join("miri/Cargo.toml"))
        .arg("--target-dir")
        .arg(&target)
        .arg("--")
        .args(args)
        .env("PGMON_PROGRAM", &file)
        .env(
            "MIRIFLAGS",
            format!(
                "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03 -Zmiri-many-seeds={}..{}",
                first,
                first + n
            ),
        )
        .env_remove("RUSTFLAGS")
        .env("RUST_BACKTRACE", "0");
    let out = run_limited(&mut c, Duration::from_secs(200), 0);
    let _ = std::fs::remove_file(&file);
    out
}
