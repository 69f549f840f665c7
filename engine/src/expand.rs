//! C15: the expansion is a function of the macro's input

use crate::gen;
use crate::json;
use crate::pats::World;
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Env};
use crate::special::violation;
use crate::work::*;
use std::collections::{HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

/// A module with markers around its contents
fn marked(m: &str, name: &str) -> String {
    let m = module_as(m, name);
    let open = m.find('{').unwrap() + 1;
    let close = m.rfind('}').unwrap();
    format!(
        "{}\npub const BEGIN_{}: () = ();\n{}\npub const END_{}: () = ();\n}}\n",
        &m[..open],
        name,
        m[open..close]
            // the pretty printer puts comments anywhere
            .replace("// comment\n", "\n")
            .replace("/* comment */", "")
            .replace("#![allow(warnings)]", "").replace("#![forbid(unsafe_code)]", ""),
        name
    )
}

const VALUES: &[&str] = &["", "0", "1", "8", "true", "debug", "release", "alpha.1", "/tmp", "other_name"];

const CARGO: &[&str] = &[
    "MANIFEST_DIR", "MANIFEST_PATH", "PKG_VERSION", "PKG_VERSION_MAJOR", "PKG_VERSION_MINOR", "PKG_VERSION_PATCH",
    "PKG_VERSION_PRE", "PKG_AUTHORS", "PKG_NAME", "PKG_DESCRIPTION", "PKG_HOMEPAGE", "PKG_REPOSITORY", "PKG_LICENSE",
    "PKG_RUST_VERSION", "CRATE_NAME", "BIN_NAME", "PRIMARY_PACKAGE", "TARGET_TMPDIR", "INCREMENTAL", "TARGET_DIR", "ENCODED_RUSTFLAGS",
];

/// Where an expansion takes place
#[derive(Clone, Debug)]
struct Context {
    order: Vec<usize>,
    crate_name: &'static str,
    lib: bool,
    dir: usize,
    env: Vec<(String, String)>,
    unset: Option<String>,
    /// a file in the working directory (relative path) and what it contains
    file: Option<(String, String)>,
    clear: bool,
    /// another date, host name, user, number of processors
    machine: bool,
    args: Vec<&'static str>,
    /// blank lines and other items in front
    shift: usize,
}

fn context(r: &mut Rng, n: usize, k: usize) -> Context {
    let mut order: Vec<usize> = (0..n).collect();
    if k > 0 {
        r.shuffle(&mut order);
        if r.pct(40) {
            order.truncate(r.range(1, n));
        }
    }
    const ENVS: &[&[(&str, &str)]] = &[
        &[],
        &[("HOME", "/nonexistent"), ("USER", "nobody"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
        &[("RUST_LOG", "trace"), ("DEBUG", "1"), ("PARSEGEN_DEBUG", "1"), ("PARSEGEN_LOG", "1"), ("VERBOSE", "1")],
        &[("CARGO_MANIFEST_DIR", "/tmp"), ("CARGO_PKG_NAME", "other"), ("CARGO_CRATE_NAME", "other"), ("OUT_DIR", "/nonexistent"), ("PROFILE", "release")],
        &[("TERM", "dumb"), ("COLUMNS", "20"), ("NO_COLOR", "1"), ("TZ", "Pacific/Auckland"), ("SOURCE_DATE_EPOCH", "0")],
        &[("RUST_BACKTRACE", "full"), ("RAYON_NUM_THREADS", "1"), ("RUST_MIN_STACK", "33554432"), ("CI", "true"), ("RUSTFLAGS", "-Copt-level=3")],
        &[("HASH_SEED", "1"), ("RANDOM_SEED", "7"), ("TARGET", "none"), ("OPT_LEVEL", "3"), ("NUM_JOBS", "64")],
    ];
    const ARGS: &[&[&str]] = &[
        &[],
        &["-Copt-level=3"],
        &["-Cdebug-assertions=yes", "-Coverflow-checks=yes"],
        &["--cfg", "test"],
        &["--cfg", "feature=\"debug\"", "-Cdebuginfo=2"],
        &["-Zthreads=4"],
        &["--edition", "2018"],
    ];
    Context {
        order,
        crate_name: if k == 0 { "batch" } else { *r.pick(&["batch", "other", "parsegen_user", "a"]) },
        lib: k > 0 && r.pct(50),
        dir: r.below(3),
        env: if k == 0 {
            vec![]
        } else {
            let own = |l: &[(&str, &str)]| -> Vec<(String, String)> { l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
            let mut e = own(r.pick(ENVS));
            // what cargo says about the crate
            for v in CARGO {
                if r.pct(30) {
                    e.push((format!("CARGO_{}", v), r.pick(VALUES).to_string()));
                }
            }
            e
        },
        unset: None,
        file: None,
        clear: k > 0 && r.pct(25),
        machine: k % 3 == 2,
        // the edition stays the same
        args: if k == 0 { vec![] } else { ARGS[r.below(ARGS.len() - 1)].to_vec() },
        shift: if k == 0 { 0 } else { r.below(4) },
    }
}

/// `probe`: the file in which the preloaded library notes what the macro asks for
fn expand(env: &Env, name: &str, mods: &[String], c: &Context, probe: Option<&Path>) -> Result<HashMap<usize, String>, String> {
    let mut s = String::from("#![allow(warnings)]\n");
    for k in 0..c.shift * 7 {
        s += &format!("const SHIFT{}: u8 = {};\n\n", k, k);
    }
    for k in &c.order {
        s += &mods[*k];
    }
    if !c.lib {
        s += "fn main() {}\n";
    }
    let dir = env.work.join(format!("{}-d{}", name, c.dir));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join(format!("{}.rs", name));
    std::fs::write(&file, s).unwrap();
    // the macro has no business with these
    if c.dir > 0 {
        let text = format!("[package]\nname = \"d{}\"\nversion = \"{}.0.0-pre\"\nedition = \"2018\"\n", c.dir, c.dir);
        for f in ["Cargo.toml", "parsegen.toml", ".parsegen.toml"] {
            std::fs::write(dir.join(f), &text).unwrap();
        }
    }
    let extra = c.file.as_ref().map(|(f, text)| {
        let f = dir.join(f);
        let _ = std::fs::create_dir_all(f.parent().unwrap());
        let _ = std::fs::write(&f, text);
        f
    });
    let mut cmd = Command::new("rustc");
    if c.clear {
        let keep: Vec<(String, String)> = ["PATH", "HOME", "RUSTUP_HOME", "CARGO_HOME", "RUSTUP_TOOLCHAIN"]
            .iter()
            .filter_map(|k| Some((k.to_string(), std::env::var(k).ok()?)))
            .collect();
        cmd.env_clear();
        cmd.envs(keep);
    }
    for (k, v) in &c.env {
        // rustup needs its own
        if k == "HOME" && std::env::var("RUSTUP_HOME").is_err() {
            continue;
        }
        cmd.env(k, v);
    }
    if c.dir > 0 && !c.env.iter().any(|(k, _)| k == "CARGO_MANIFEST_DIR") {
        cmd.env("CARGO_MANIFEST_DIR", &dir);
    }
    if let Some(k) = &c.unset {
        cmd.env_remove(k);
    }
    if let (Some(log), Some(so)) = (probe, &env.probe) {
        cmd.env("LD_PRELOAD", so).env("PGMON_PROBE_LOG", log);
        cmd.env("PGMON_PROBE_LIB", env.macro_so.file_name().unwrap());
    }
    if let (true, Some(so)) = (c.machine, &env.probe) {
        cmd.env("LD_PRELOAD", so).env("PGMON_OTHER_MACHINE", "1");
        cmd.env("PGMON_PROBE_LIB", env.macro_so.file_name().unwrap());
    }
    cmd.env("RUSTC_BOOTSTRAP", "1").env("TMPDIR", &env.work);
    cmd.current_dir(&dir);
    cmd.args(["--edition", "2021", "--crate-name", c.crate_name, "-Zunpretty=expanded", "-Awarnings"]);
    cmd.arg(if c.lib { "--crate-type=rlib" } else { "--crate-type=bin" });
    cmd.args(&c.args);
    cmd.arg("--extern").arg(format!("parsegen={}", env.macro_so.display()));
    cmd.arg("--extern").arg(format!("pgrt={}", env.pgrt.display()));
    cmd.arg("-L").arg(format!("dependency={}", env.pgrt_deps.display()));
    if c.dir == 1 {
        cmd.arg(file.file_name().unwrap());
    } else {
        cmd.arg(&file);
    }
    let o = run::run_limited(&mut cmd, Duration::from_secs(200), 0);
    if let Some(f) = extra {
        let _ = std::fs::remove_file(f);
    }
    if o.status != Some(0) {
        return Err(run::tail(&o.stderr));
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut out = HashMap::new();
    for k in &c.order {
        let a = text.find(&format!("pub const BEGIN_m{}: () = ();", k));
        let b = text.find(&format!("pub const END_m{}: () = ();", k));
        let (Some(a), Some(b)) = (a, b) else {
            return Err(format!("no expansion of m{}", k));
        };
        let a = a + format!("pub const BEGIN_m{}", k).len();
        // the printer's layout depends on the surroundings
        out.insert(*k, text[a..b].split_whitespace().collect::<Vec<_>>().join("\n"));
    }
    Ok(out)
}

/// Strings that the macro's source mentions: a dictionary for what it could look for.
pub fn words(env: &Env) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    let mut files: Vec<PathBuf> = std::fs::read_dir(env.verif.join("../repo/src"))
        .map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        if f.file_name().is_some_and(|n| n == "test_grammars.rs") {
            continue;
        }
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        for l in text.lines() {
            for (k, w) in l.split('"').enumerate() {
                if k % 2 == 1 && (1..40).contains(&w.len()) && w.chars().all(|c| c.is_ascii_graphic() || c == ' ') && seen.insert(w.to_string()) {
                    out.push(w.to_string());
                }
            }
        }
    }
    // plain words first
    out.sort_by_key(|w| !w.chars().all(|c| c.is_ascii_alphanumeric() || "_-.".contains(c)));
    out
}

/// Which environment variables does the macro read? Contexts in which these have other values
fn asked_for(env: &Env, id: usize, mods: &[String], r: &mut Rng, n: usize, st: &mut Stats) -> Vec<Context> {
    let log = env.work.join(format!("x{}.probe", id));
    let _ = std::fs::remove_file(&log);
    let base = context(r, n, 0);
    let mut watched = Context { dir: 3, ..base.clone() };
    // what a build sets
    let dir = env.work.join(format!("x{}-d{}", id, watched.dir));
    for v in ["OUT_DIR", "CARGO_TARGET_DIR", "CARGO_MANIFEST_DIR"] {
        watched.env.push((v.into(), dir.display().to_string()));
    }
    if expand(env, &format!("x{}", id), mods, &watched, Some(&log)).is_err() {
        st.add("processes in which what the macro reads is observed, failed", 1);
        return vec![];
    }
    st.add("processes in which what the macro reads is observed", 1);
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let named = |kind: &str| -> Vec<&str> {
        let mut v: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix(kind)).collect();
        v.sort();
        v.dedup();
        v
    };
    let (names, files) = (named("E "), named("F "));
    st.add("environment variables that the macro reads", names.len() as u64);
    st.add("files that the macro looks for", files.len() as u64);
    let mut out = vec![];
    if names.is_empty() && files.is_empty() {
        return out;
    }
    let words = words(env);
    for name in names.into_iter().take(8) {
        for v in VALUES.iter().copied().chain(words.iter().map(|s| s.as_str()).filter(|s| !s.contains(['{', ' ', '\0'])).take(60)) {
            out.push(Context {
                env: vec![(name.to_string(), v.to_string())],
                ..base.clone()
            });
        }
        out.push(Context {
            unset: Some(name.to_string()),
            ..base.clone()
        });
    }
    // only those that would be made in the working directory
    let inside = files.into_iter().filter_map(|f| {
        let p = Path::new(f);
        let p = if p.is_relative() { p } else { p.strip_prefix(&dir).ok()? };
        let plain = p.components().all(|c| matches!(c, std::path::Component::Normal(_) | std::path::Component::CurDir));
        (plain && p.file_name().is_some() && p.extension().is_none_or(|e| e != "rs")).then(|| p.display().to_string())
    });
    for f in inside.take(6) {
        let mut texts: Vec<String> = ["", "\n", "1\n", "true\n"].map(String::from).to_vec();
        texts.push(words.join("\n"));
        for (eq, v) in [(" = ", "true"), ("=", "1"), (": ", "true"), (" = ", "\"x\"")] {
            texts.push(words.iter().map(|w| format!("{}{}{}\n", w, eq, v)).collect());
        }
        texts.extend(words.iter().take(40).cloned());
        for t in texts {
            let c = Context {
                file: Some((f.clone(), t)),
                ..watched.clone()
            };
            out.push(c);
        }
    }
    out
}

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, contexts: usize, p: &Profile) -> Report {
    let mut rep = Report::default();
    let mut mods: Vec<String> = vec![];
    let mut shows: Vec<String> = vec![];
    for k in 0..n {
        let name = format!("m{}", k);
        if k % 5 == 4 {
            let w = World::random(r);
            let only = r.below(w.terms.len());
            mods.push(marked(&w.module(r, &name, only, false), &name));
            shows.push(format!("patterns {:?}", w.terms.iter().map(|t| &t.1).collect::<Vec<_>>()));
        } else {
            let c = if k == 0 && id < 3 * gen::LARGE {
                let sk = gen::large(r, id);
                let mut c = finish_case(r, sk, p);
                c.g.family = "large";
                c
            } else {
                make_case(r, p)
            };
            features(&c, &mut rep.stats);
            mods.push(marked(&render::module(&c.g, &c.style, &name), &name));
            shows.push(c.g.show());
        }
    }
    let mut base: Option<HashMap<usize, String>> = None;
    let mut todo: VecDeque<Context> = (0..contexts).map(|k| context(r, n, k)).collect();
    let mut k = 0;
    while let Some(c) = todo.pop_front() {
        if k == 1 && env.probe.is_some() {
            todo.extend(asked_for(env, id, &mods, r, n, &mut rep.stats));
        }
        k += 1;
        let x = match expand(env, &format!("x{}", id), &mods, &c, None) {
            Ok(x) => x,
            Err(m) => {
                // whether it compiles is not the question here, but it must not depend on
                // the context
                rep.stats.add("contexts in which the crate did not expand", 1);
                if let Some(_) = &base {
                    let msg = format!("a crate expands in one context but not in another: {}", m);
                    rep.violations.push(violation("C15", hash(&(&mods, k)), 1000, msg, format!("{:?}", c), "", &mods[c.order[0]]));
                } else {
                    // not a matter of this property, unless it expands the next time
                    if expand(env, &format!("x{}", id), &mods, &c, None).is_ok() {
                        let msg = format!("a crate expands in one process but not in another: {}", m);
                        rep.violations.push(violation("C15", hash(&(&mods, k)), 1000, msg, format!("{:?}", c), "", &mods[c.order[0]]));
                    }
                    return rep;
                }
                continue;
            }
        };
        rep.stats.add("compiler processes", 1);
        if c.machine && env.probe.is_some() {
            rep.stats.add("compiler processes in which the macro sees another date, host, user and number of processors", 1);
        }
        rep.stats.max("modules in a crate", c.order.len() as u64);
        let Some(b) = &base else {
            if id == 0 {
                let t = b_len(&x);
                rep.stats.add("bytes of expansion (first crate)", t);
            }
            base = Some(x);
            continue;
        };
        for (m, t) in &x {
            rep.stats.add("expansions compared", 1);
            rep.stats.add("bytes compared", t.len() as u64);
            rep.stats.distinct.insert(hash(&(&mods[*m], format!("{:?}", c))));
            if rep.stats.samples.len() < 1 && k > 1 {
                rep.stats.samples.push(json::obj(vec![
                    ("input", shows[*m].clone().into()),
                    ("context", format!("{:?}", c).into()),
                    ("observed", format!("{} bytes, equal: {}", t.len(), *t == b[m]).into()),
                ]));
            }
            if *t != b[m] {
                let (la, lb): (Vec<&str>, Vec<&str>) = (b[m].lines().collect(), t.lines().collect());
                let at = la.iter().zip(&lb).take_while(|(a, b)| a == b).count();
                rep.violations.push(violation(
                    "C15",
                    hash(&mods[*m]),
                    mods[*m].len(),
                    format!(
                        "two expansions differ in word {}: {:?} and {:?}",
                        at,
                        la[at.saturating_sub(5).min(la.len())..(at + 5).min(la.len())].join(" "),
                        lb[at.saturating_sub(5).min(lb.len())..(at + 5).min(lb.len())].join(" ")
                    ),
                    format!("context of the second: {:?}\n{}", c, shows[*m]),
                    "",
                    &mods[*m],
                ));
            }
        }
    }
    rep
}

fn b_len(x: &HashMap<usize, String>) -> u64 {
    x.values().map(|s| s.len() as u64).sum()
}
