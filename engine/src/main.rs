mod checks;
mod corpus;
mod cost;
mod deep;
mod earley;
mod expand;
mod gen;
mod gram;
mod illformed;
mod json;
mod judge;
mod logp;
mod lr;
mod pats;
mod prng;
mod render;
mod run;
mod special;
mod state;
mod total;
mod variants;
mod work;

use std::path::{Path, PathBuf};
use std::time::Instant;
use work::*;

fn arg_env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

/// `known: property=<id> key=<key>` lines; `fixed:` lines suppress nothing
fn known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let key = rest.strip_prefix("key=")?;
            let (key, what) = key.split_once(" -- ").unwrap_or((key, ""));
            (p == prop).then(|| (key.to_string(), what.to_string()))
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(arg_env("VERIF_DIR").unwrap_or_else(|| "/verif".into()));
    let Some(prop) = args.get(1) else {
        run::die("usage: pgmon <property> | replay <file>");
    };
    if prop == "replay" {
        checks::replay(&verif, Path::new(&args[2]));
        return;
    }
    if prop == "setup" {
        return;
    }
    let Some(id) = checks::ALL.iter().find(|p| *p == prop) else {
        run::die("unknown property");
    };
    let thorough = arg_env("VERIF_TIER").as_deref() == Some("thorough");
    let seed: u64 = arg_env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let env = run::Env::prepare(&verif);
    let mut out = checks::run(&env, id, seed, thorough);
    env.cleanup();

    let known = known(&verif, id);
    let mut vs: Vec<Violation> = vec![];
    let mut others: std::collections::BTreeMap<&str, u64> = Default::default();
    let mut hit = vec![false; known.len()];
    let mut n_viol = 0i64;
    for v in out.rep.violations.drain(..) {
        if v.prop != *id {
            *others.entry(v.prop).or_insert(0) += 1;
            continue;
        }
        if let Some(k) = known.iter().position(|(k, _)| *k == v.key) {
            hit[k] = true;
            continue;
        }
        n_viol += 1;
        vs.push(v);
    }
    for (k, (key, what)) in known.iter().enumerate() {
        if hit[k] {
            println!("KNOWN-FINDING: property={} {} [{}]", id, what, key);
        }
    }
    // the simplest ones first
    vs.sort_by_key(|v| (v.size, v.msg.len()));
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    for (k, v) in vs.iter().take(3).enumerate() {
        let f = dir.join(format!("{}-seed{}-{}.txt", id, seed, k));
        let _ = std::fs::write(&f, &v.detail);
        println!("{}: {}", id, v.msg.chars().take(400).collect::<String>());
        println!("VIOLATION property={} replay={}", id, f.display());
    }
    let st = &out.rep.stats;
    let evals = st.n.get(out.evaluations).copied().unwrap_or(0);
    let mut cov: Vec<(String, json::Value)> = vec![
        ("evaluations".into(), evals.into()),
        ("distinct_nontrivial".into(), st.distinct.len().into()),
        ("rule".into(), out.rule.clone().into()),
        ("samples".into(), json::Value::Arr(st.samples.clone())),
    ];
    cov.push((
        "observed".into(),
        json::Value::Obj(st.n.iter().map(|(k, v)| (k.clone(), (*v).into())).collect()),
    ));
    if !others.is_empty() {
        cov.push((
            "monitors of other properties that fired".into(),
            json::Value::Obj(others.iter().map(|(k, v)| (k.to_string(), (*v).into())).collect()),
        ));
    }
    let lost = run::LOST.load(std::sync::atomic::Ordering::Relaxed);
    if lost > 0 {
        cov.push(("parts not judged (the engine panicked)".into(), lost.into()));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json::Value::Obj(vec![
        ("property".into(), (*id).into()),
        ("tier".into(), (if thorough { "thorough" } else { "quick" }).into()),
        ("seed".into(), json::Value::Int(seed as i64)),
        ("level".into(), "exploration".into()),
        ("coverage".into(), json::Value::Obj(cov)),
        (
            "assumptions".into(),
            json::Value::Arr(out.assumptions.iter().map(|s| (*s).into()).collect()),
        ),
        ("wall_s".into(), json::Value::Num(wall)),
        ("violations".into(), json::Value::Int(n_viol)),
    ]);
    let mut text = String::new();
    ev.write(&mut text, 0);
    text.push('\n');
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", id)), text).is_err() {
        run::die("cannot write the evidence file");
    }
    println!(
        "{} {}: {} {}, {} distinct and non-trivial, {} violations, {:.1} s",
        id,
        if thorough { "thorough" } else { "quick" },
        evals,
        out.evaluations,
        st.distinct.len(),
        n_viol,
        wall
    );
    if arg_env("VERIF_SHOW").is_some() {
        for (k, v) in &st.n {
            println!("{:10} {}", v, k);
        }
        println!("others: {:?}", others);
    }
    if n_viol > 0 {
        std::process::exit(1);
    }
    if lost * 4 > run::ALL.load(std::sync::atomic::Ordering::Relaxed) {
        run::die("too much was not judged");
    }
    if evals == 0 {
        run::die("nothing was observed");
    }
}
