//! C18: the outcome of a parse depends on its input only

use crate::gen;
use crate::json;
use crate::judge;
use crate::logp;
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Env, Opts, Outcome};
use crate::special::violation;
use crate::work::*;
use std::path::Path;
use std::process::Command;
use std::time::Duration;

struct Phased {
    logs: Vec<String>,
    /// (phase, job, log)
    other: Vec<(usize, usize, String)>,
    /// (phase, runs, most runs in progress at once)
    done: Vec<(usize, u64, u64)>,
    out: Outcome,
}

fn run_phases(
    env: &Env,
    bin: &Path,
    name: &str,
    lines: &[String],
    phases: &[String],
    vars: &[(String, String)],
    wall: Duration,
) -> Phased {
    let jf = env.work.join(format!("{}.jobs", name));
    let lf = env.work.join(format!("{}.log", name));
    std::fs::write(&jf, lines.join("\n") + "\n").unwrap();
    let _ = std::fs::remove_file(&lf);
    let mut c = Command::new(bin);
    c.arg(&jf).arg(&lf).arg((8 << 20).to_string());
    c.args(phases);
    c.envs(vars.iter().map(|(k, v)| (k, v)));
    let out = run::run_limited(&mut c, wall, 6000);
    let log = std::fs::read_to_string(&lf).unwrap_or_default();
    let mut other = vec![];
    let mut done = vec![];
    for l in log.lines() {
        if let Some(x) = l.strip_prefix("X ") {
            let mut w = x.splitn(3, ' ');
            other.push((
                w.next().unwrap().parse().unwrap(),
                w.next().unwrap().parse().unwrap(),
                w.next().unwrap().to_string(),
            ));
        } else if let Some(x) = l.strip_prefix("Y ") {
            let v: Vec<u64> = x.split(' ').map(|x| x.parse().unwrap()).collect();
            done.push((v[0] as usize, v[1], v[2]));
        }
    }
    let _ = std::fs::remove_file(&jf);
    let _ = std::fs::remove_file(&lf);
    Phased {
        logs: run::split_log(&log),
        other,
        done,
        out,
    }
}

struct J {
    case: usize,
    line: String,
    /// nested runs: the job they are added to, and which auxiliary ones
    of: Option<usize>,
    aux: Vec<usize>,
}

/// The runs to perform, and those of them that are also performed inside of others
fn plan(r: &mut Rng, p: &Profile, cases: &[Case], ok: &[bool], inputs: usize, rep: &mut Report) -> (Vec<J>, Vec<usize>) {
    let mut js: Vec<J> = vec![];
    let mut aux: Vec<usize> = vec![];
    for (k, c) in cases.iter().enumerate() {
        if !ok[k] {
            rep.stats.add("grammars refused", 1);
            continue;
        }
        rep.stats.add("grammars", 1);
        features(c, &mut rep.stats);
        let first = js.len();
        let es = c.g.entries();
        let mut sizes: Vec<(u64, u64)> = vec![];
        for (ke, e) in es.iter().enumerate() {
            for j in jobs_for(r, p, c, *e, (inputs / es.len()).max(3)) {
                let Some(x) = judge::expect(&c.g, &c.lr, *e, &j.items, None) else { continue };
                sizes.push((x.n_acts as u64, j.items.len() as u64 + 1));
                js.push(J {
                    case: k,
                    line: job_line(k, ke, &j, x.n_acts as u64 * 2 + 64),
                    of: None,
                    aux: vec![],
                });
            }
        }
        // some of them are also run inside others
        let plain = js.len() - first;
        if plain == 0 {
            continue;
        }
        let mine: Vec<usize> = (0..4).map(|_| first + r.below(plain)).collect();
        let a0 = aux.len();
        aux.extend(&mine);
        for x in 0..plain {
            if !r.pct(35) {
                continue;
            }
            let (acts, pulls) = sizes[x];
            let mut line = js[first + x].line.clone();
            let mut inner = vec![];
            for _ in 0..r.range(1, 3) {
                let a = a0 + r.below(4);
                if acts > 0 && r.pct(60) {
                    line += &format!(" Na{}:{}", r.below(acts as usize), a);
                } else {
                    line += &format!(" Np{}:{}", r.below(pulls as usize), a);
                }
                inner.push(a);
            }
            js.push(J {
                case: k,
                line,
                of: Some(first + x),
                aux: inner,
            });
        }
        // inside another one that is inside another one
        let deep: Vec<usize> = (0..js.len()).filter(|j| js[*j].of.is_some() && *j >= first).collect();
        if let Some(d) = deep.first().copied() {
            let a = aux.len();
            aux.push(d);
            for x in 0..plain.min(6) {
                let (acts, pulls) = sizes[x];
                let mut line = js[first + x].line.clone();
                if acts > 0 && r.pct(60) {
                    line += &format!(" Na{}:{}", r.below(acts as usize), a);
                } else {
                    line += &format!(" Np{}:{}", r.below(pulls as usize), a);
                }
                js.push(J {
                    case: k,
                    line,
                    of: Some(first + x),
                    aux: vec![a],
                });
            }
        }
    }
    (js, aux)
}

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, rounds: usize, p: &Profile) -> Report {
    let mut rep = Report::default();
    let cases: Vec<Case> = (0..n)
        .map(|k| {
            if k == 0 && id % 10 == 5 {
                finish_case(r, gen::large(&mut r.clone(), 5 + id), p)
            } else {
                make_case(r, p)
            }
        })
        .filter(|c| wanted(p.want, &c.g, &c.lr))
        .collect();
    let mut mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let name = format!("s{}", id);
    let seed = hash(&mods.first());
    match run::some_profile(&mut mods, seed) {
        1 => rep.stats.add("programs compiled without debug assertions and overflow checks", 1),
        2 => rep.stats.add("programs compiled with optimisation", 1),
        _ => {}
    }
    let b = run::build(env, &name, &mods, &Opts::default());
    let Some(bin) = b.bin else { return rep };
    let ok: Vec<bool> = b.results.iter().map(|x| x.ok()).collect();
    let (js, aux) = plan(r, p, &cases, &ok, p.inputs, &mut rep);
    if js.is_empty() {
        return rep;
    }
    let mut lines: Vec<String> = aux.iter().map(|a| format!("@{}", js[*a].line)).collect();
    lines.extend(js.iter().map(|j| j.line.clone()));
    let mut phases = vec![
        format!("hist:{}", r.next() >> 1),
        format!("threads:8:{}:{}", r.next() >> 1, rounds),
        format!("hist:{}", r.next() >> 1),
        format!("odd:{}", r.next() >> 1),
        format!("threads:3:{}:{}", r.next() >> 1, rounds),
    ];
    // more runs than fit 16 bits
    if id % 5 == 1 {
        phases.insert(3, format!("soak:70000:{}", r.next() >> 1));
    }
    let res = run_phases(env, &bin, &name, &lines, &phases, &[], Duration::from_secs(120));
    // once more, in a process in which the first use of the parsers is by several threads at once
    let cold = [format!("cold:8:{}", r.next() >> 1)];
    // (with other environment variables, among them those named by strings in the macro's source)
    let vars: Vec<(String, String)> = crate::expand::words(env)
        .into_iter()
        .filter(|w| !w.contains('=') && !w.starts_with("LD_") && w != "PATH")
        .flat_map(|w| [w.to_ascii_uppercase(), w])
        .chain(["RUST_LOG", "DEBUG", "PARSEGEN_TRACE", "RUST_BACKTRACE", "TRACE"].map(String::from))
        .map(|w| (w, "1".to_string()))
        .collect();
    let vars: &[(String, String)] = if id % 2 == 0 { &vars } else { &[] };
    let res2 = run_phases(env, &bin, &name, &lines, &cold, vars, Duration::from_secs(120));
    if !vars.is_empty() {
        rep.stats.add("processes with another environment compared", 1);
    }
    let _ = std::fs::remove_file(&bin);
    let bad = |rep: &mut Report, j: usize, msg: String, detail: String| {
        let c = &cases[js[j].case];
        let mut w = js[j].line.splitn(2, ' ');
        w.next();
        rep.violations.push(violation(
            "C18",
            hash(&(c.g.show(), &js[j].line)),
            c.g.size() * 4 + js[j].line.len(),
            msg,
            format!("grammar: {}\njob: {}\n{}", c.g.show(), js[j].line, detail),
            &format!("0 {}", w.next().unwrap()),
            &mods[js[j].case],
        ));
    };
    let n_plain = js.len();
    if res.logs.len() < n_plain {
        let j = res.logs.len();
        if js[j].of.is_some() {
            bad(
                &mut rep,
                j,
                format!("the program died or hung in a run with nested runs: {:?} {:?}", res.out.signal, run::tail(&res.out.stderr)),
                String::new(),
            );
        } else {
            rep.stats.add("not used: the program died in a plain run", 1);
        }
        return rep;
    }
    for (k, j) in js.iter().enumerate() {
        let log = &res.logs[k];
        rep.stats.add("runs", 1);
        let g = hash(&cases[j.case].g.show());
        rep.stats.distinct.insert(hash(&(g, &j.line)));
        let Some(of) = j.of else { continue };
        // the run around the nested ones
        let outer: String = log.split_inclusive('\n').filter(|l| !l.starts_with("N ")).collect();
        if outer != res.logs[of] {
            bad(
                &mut rep,
                k,
                "a run with nested runs of the same grammar inside does something else than without them".into(),
                format!("without:\n{}\nwith:\n{}", res.logs[of], log),
            );
            continue;
        }
        rep.stats.add("runs with nested runs compared with those without", 1);
        let mut seen = 0;
        for l in log.lines() {
            let Some(x) = l.strip_prefix("N ") else { continue };
            let (a, inner) = x.split_once(' ').unwrap();
            let a: usize = a.parse().unwrap();
            seen += 1;
            if inner != judge::esc(&res.logs[aux[a]]) {
                bad(
                    &mut rep,
                    k,
                    "a nested run does something else than the same run alone".into(),
                    format!("alone:\n{}\nnested:\n{}", judge::esc(&res.logs[aux[a]]), inner),
                );
                break;
            }
            rep.stats.add("nested runs compared with the same run alone", 1);
        }
        let _ = (seen, &j.aux);
        if rep.stats.samples.is_empty() && seen > 1 {
            rep.stats.samples.push(json::obj(vec![
                ("grammar", cases[j.case].g.show().into()),
                ("job", j.line.clone().into()),
                ("observed", log.chars().take(600).collect::<String>().into()),
            ]));
        }
    }
    for (ph, j, log) in &res.other {
        bad(
            &mut rep,
            *j,
            format!("the same run does something else in phase {}", phases[*ph]),
            format!("at first:\n{}\nthen:\n{}", judge::esc(&res.logs[*j]), log),
        );
    }
    for (ph, runs, most) in &res.done {
        rep.stats.add("runs", *runs);
        let kind = match &phases[*ph] {
            x if x.starts_with("hist") => "in another order",
            x if x.starts_with("odd") => "in destructors",
            x if x.starts_with("soak") => "again and again",
            _ => "on several threads",
        };
        rep.stats.add(&format!("runs {} compared with the first", kind), *runs);
        rep.stats.max("runs in progress at once", *most);
    }
    for (_, j, log) in &res2.other {
        bad(
            &mut rep,
            *j,
            "a run does something else when the parsers are first used by several threads at once".into(),
            format!("on its own:\n{}\nthere:\n{}", judge::esc(&res2.logs[*j]), log),
        );
    }
    if let Some(j) = (0..n_plain).find(|j| res2.logs.get(*j) != res.logs.get(*j)) {
        let what = match res2.logs.get(j) {
            Some(_) => "a run does something else after the parsers were first used by several threads at once".to_string(),
            None => format!(
                "the program dies or hangs when the parsers are first used by several threads at once: {:?} {}",
                res2.out.signal,
                run::tail(&res2.out.stderr)
            ),
        };
        let d = format!("{:?}\n{:?}", res.logs[j], res2.logs.get(j));
        bad(&mut rep, j, what, d);
    }
    for (_, runs, _) in &res2.done {
        rep.stats.add("runs", *runs);
        rep.stats.add("runs on several threads in a fresh process compared", *runs);
    }
    if res.done.len() < phases.len() && res.other.is_empty() {
        let j = js.len() - 1;
        let what = if res.out.timeout { "hangs" } else { "dies" };
        bad(
            &mut rep,
            j,
            format!(
                "the program {} in phase {}, all runs ended in the first pass: {:?} {}",
                what,
                phases[res.done.len()],
                res.out.signal,
                run::tail(&res.out.stderr)
            ),
            String::new(),
        );
    }
    // what kinds of history there were
    for l in res.logs.iter().take(400) {
        let run = logp::parse(l);
        rep.stats.add(
            match run.res {
                logp::LRes::Ok(_) => "result Ok",
                logp::LRes::Lex(_) => "result LexerError",
                logp::LRes::Syn(..) => "result ParserError",
                logp::LRes::Injected => "result injected panic",
                _ => "result other",
            },
            1,
        );
    }
    rep
}

/// A few small programs run by Miri, which detects data races and undefined behaviour, on
/// several threads under several schedules
pub fn miri(env: &Env, id: usize, r: &mut Rng, schedules: u64, p: &Profile) -> Report {
    let mut rep = Report::default();
    let mut q = p.clone();
    q.max_states = 40;
    q.inputs = 6;
    let mut cases: Vec<Case> = vec![];
    for _ in 0..40 {
        let c = make_case(r, &q);
        if wanted(p.want, &c.g, &c.lr) && c.g.n_prods() <= 14 {
            cases.push(c);
        }
        if cases.len() == 4 {
            break;
        }
    }
    let mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let name = format!("i{}", id);
    let o = Opts {
        metadata_only: true,
        ..Opts::default()
    };
    let b = run::build(env, &name, &mods, &o);
    let ok: Vec<bool> = b.results.iter().map(|x| x.ok()).collect();
    // the nested runs of the plan are left out, there are simpler ones below
    let (mut js, _) = plan(r, p, &cases, &ok, 6, &mut Report::default());
    let mut seen = vec![0; cases.len()];
    // one long run per grammar
    let mut long: Vec<usize> = vec![0; cases.len()];
    for j in &js {
        if j.of.is_none() && j.line.len() < 400 {
            long[j.case] = long[j.case].max(j.line.len());
        }
    }
    js.retain(|j| {
        if j.of.is_some() {
            return false;
        }
        if j.line.len() == long[j.case] {
            long[j.case] = 0;
            return true;
        }
        seen[j.case] += 1;
        j.line.len() < 40 && seen[j.case] <= 6
    });
    if js.is_empty() {
        return rep;
    }
    // nested runs: the first run of the grammar inside of every third one
    let mut lines: Vec<String> = vec![];
    let firsts: Vec<Option<usize>> = (0..cases.len()).map(|c| js.iter().position(|j| j.case == c)).collect();
    let mut ax: Vec<usize> = vec![0; cases.len()];
    for (c, f) in firsts.iter().enumerate() {
        if let Some(f) = f {
            ax[c] = lines.len();
            lines.push(format!("@{}", js[*f].line));
        }
    }
    for (k, j) in js.iter().enumerate() {
        lines.push(match k % 3 {
            0 => format!("{} Np0:{}", j.line, ax[j.case]),
            1 => format!("{} Na0:{}", j.line, ax[j.case]),
            _ => j.line.clone(),
        });
    }
    let keep: Vec<usize> = (0..cases.len()).filter(|k| ok[*k]).collect();
    let mut text = String::new();
    for k in &keep {
        text += &mods[*k].replace("#![allow(warnings)]\n", "").replace("#![forbid(unsafe_code)]\n", "");
    }
    text += "fn main() { ::pgrt::main(&[";
    for k in &keep {
        text += &format!("({}, m{}::ENTRIES), ", k, k);
    }
    text += "]) }\n";
    let jf = env.work.join(format!("{}.jobs", name));
    std::fs::write(&jf, lines.join("\n") + "\n").unwrap();
    let first = r.below(100_000) as u64;
    let args = vec![
        jf.display().to_string(),
        "-".into(),
        (1 << 20).to_string(),
        format!("cold:3:{}", r.next() >> 1),
    ];
    let out = run::miri(env, &name, &text, &args, first, schedules);
    let _ = std::fs::remove_file(&jf);
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let ub = out
        .stderr
        .lines()
        .find(|l| l.contains("error: Undefined Behavior") || l.contains("Data race detected"));
    let diff = stdout.lines().find(|l| l.starts_with("X "));
    let done = stdout.lines().filter(|l| l.starts_with("Y 0 ")).count() as u64;
    rep.stats.add("Miri: programs", 1);
    rep.stats.add("Miri: schedules run to their end", done);
    rep.stats.add("Miri: parses per schedule", (js.len() * 4) as u64);
    if ub.is_some() || diff.is_some() {
        let at = out.stderr.lines().position(|l| Some(l) == ub).unwrap_or(0);
        let ctx: Vec<&str> = out.stderr.lines().skip(at).take(25).collect();
        rep.violations.push(violation(
            "C18",
            hash(&ub),
            1000,
            format!("in Miri: {}", ub.or(diff).unwrap()),
            format!("jobs:\n{}\nMiri says:\n{}", lines.join("\n"), ctx.join("\n")),
            "",
            &text,
        ));
    } else if done < schedules {
        rep.stats.add("Miri: programs that it could not run", 1);
        rep.stats.samples.push(json::obj(vec![(
            "Miri could not run a program",
            run::tail(&out.stderr).into(),
        )]));
    }
    rep
}
