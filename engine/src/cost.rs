//! C21: time linear in the input, memory in proportion to the parser's stack

use crate::deep::{self, Seg};
use crate::json;
use crate::logp::{self, LRes};
use crate::lr::Ev;
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Env, JobLog, Opts};
use crate::special::violation;
use crate::work::*;
use std::collections::HashMap;
use std::time::Duration;

struct Run {
    case: usize,
    line: String,
    what: String,
    n: usize,
    /// symbols on the stack at most
    depth: u64,
    steps: u64,
    pulls: u64,
    acts: u64,
    /// the same input, REACH times shorter
    short: Option<usize>,
    segs: Vec<Seg>,
}

const FIXED: u64 = 64 << 10;
const PER_SYMBOL: u64 = 256;
const PER_STEP: u64 = 512;
/// how much longer the longer one of two inputs is
const REACH: usize = 64;
const REPEAT: usize = 4;
/// for six runs, in s; they take less than one
const WALL: u64 = 60;
/// allowance for noise, in ns
const NOISE: u64 = 60_000_000;

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, len: usize, p: &Profile) -> Report {
    let mut rep = Report::default();
    let mut cases: Vec<Case> = vec![];
    let mut runs: Vec<Run> = vec![];
    let mut tries = 0;
    while cases.len() < n && tries < n * 20 {
        tries += 1;
        let c = make_case(r, p);
        let lens: HashMap<u32, usize> = c
            .g
            .nts
            .iter()
            .flat_map(|n| n.prods.iter().map(|p| (p.id, p.syms.len())))
            .collect();
        let k = cases.len();
        let mut any = false;
        for (ke, e) in c.g.entries().into_iter().enumerate().take(2) {
            for p in deep::pumps(r, &c.g, e, 2) {
                let unit = p.u.len() + p.v.len();
                let kind = match (p.u.is_empty(), p.v.is_empty()) {
                    (true, _) => "left recursion",
                    (_, true) => "right recursion",
                    _ => "nesting",
                };
                let how = r.weighted(&[5, 2, 2, 1]);
                let what = ["sentence", "ends in the middle", "an error item in the middle", "more after the end"][how];
                let mut short = None;
                for m in [(len / unit).max(8), (len / unit).max(8) * REACH] {
                    let segs = match how {
                        0 => deep::segs(&p, m, m),
                        1 => deep::segs(&p, m, 0)[..p.pre.len() + 1 + p.mid.len()].to_vec(),
                        2 => {
                            let mut s = deep::segs(&p, m, m / 2);
                            let at = s.len() - p.post.len();
                            s.insert(at, Seg::One(None));
                            s
                        }
                        _ => {
                            let mut s = deep::segs(&p, m, m);
                            s.extend(p.mid.iter().map(|t| Seg::One(Some(*t))));
                            s
                        }
                    };
                    let it = deep::items(&segs);
                    let lim = (it.len() + 2) * (c.g.n_prods() + 4) * 8;
                    let Some((evs, ..)) = c.lr.run(e, &it, lim, None) else {
                        rep.stats.add("reference does not end", 1);
                        break;
                    };
                    // the first pull shifts nothing
                    let (mut d, mut depth) = (0i64, 1i64);
                    let (mut pulls, mut acts) = (0, 0);
                    for e in &evs {
                        match e {
                            Ev::Pull => {
                                d += 1;
                                pulls += 1;
                            }
                            Ev::Act(p) => {
                                d += 1 - lens[p] as i64;
                                acts += 1;
                            }
                        }
                        depth = depth.max(d);
                    }
                    any = true;
                    runs.push(Run {
                        case: k,
                        line: deep::line(k, ke, acts as usize * 2 + 100, &segs),
                        what: format!("{}, {}", kind, what),
                        n: it.len(),
                        depth: depth as u64,
                        steps: pulls + acts,
                        pulls,
                        acts,
                        short,
                        segs,
                    });
                    short = Some(runs.len() - 1);
                }
            }
        }
        if any {
            cases.push(c);
        }
    }
    if cases.is_empty() {
        return rep;
    }
    let mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let name = format!("cost{}", id);
    let o = Opts {
        prelude: "#[global_allocator] static COUNTING: ::pgrt::Counting = ::pgrt::Counting;\n".into(),
        ..Opts::default()
    };
    let b = run::build(env, &name, &mods, &o);
    for c in &cases {
        rep.stats.add("recursive grammars", 1);
        features(c, &mut rep.stats);
    }
    let Some(bin) = b.bin else { return rep };
    let at: Vec<usize> = (0..runs.len()).filter(|i| b.results[runs[*i].case].ok()).collect();
    let measure = |which: &[usize], tag: &str, repeat: usize, sum: u64| -> HashMap<usize, Vec<JobLog>> {
        let mut of: Vec<usize> = vec![];
        for _ in 0..repeat {
            of.extend(which);
        }
        let mut m: HashMap<usize, Vec<JobLog>> = HashMap::new();
        let mut ns = 0;
        for g in of.chunks(6) {
            let lines: Vec<String> = g.iter().map(|i| runs[*i].line.clone()).collect();
            let logs = run::run_jobs(env, &bin, &format!("{}{}", name, tag), &lines, 64 << 20, Duration::from_secs(WALL));
            for (i, l) in g.iter().zip(logs) {
                ns += match &l {
                    JobLog::Log(l) => logp::parse(l).cost.2,
                    _ => 1_000_000_000 * WALL,
                };
                m.entry(*i).or_default().push(l);
            }
            // more than a hundred times what it should take: there are suspects enough
            if ns > sum {
                break;
            }
        }
        m
    };
    let first = measure(&at, "a", 1, 20_000_000_000);
    // CPU time: the least of what was measured
    let least = |m: &HashMap<usize, Vec<JobLog>>, i: usize| -> Option<u64> {
        m.get(&i)?
            .iter()
            .filter_map(|l| match l {
                JobLog::Log(l) => Some(logp::parse(l).cost.2),
                _ => None,
            })
            .min()
    };
    let slow = |m: &HashMap<usize, Vec<JobLog>>, i: usize| -> Option<(u64, u64)> {
        let s = runs[i].short?;
        let (a, b) = (least(m, s)?, least(m, i)?);
        // by the number of steps
        let times = runs[i].steps / runs[s].steps.max(1) + 1;
        (b > a * times * 4 + NOISE).then_some((a, b))
    };
    let suspects: Vec<usize> = at.iter().copied().filter(|i| slow(&first, *i).is_some()).collect();
    let mut again = vec![];
    for i in suspects.iter().take(3) {
        let which = vec![runs[*i].short.unwrap(), *i];
        let m = measure(&which, "b", REPEAT, 60_000_000_000);
        match slow(&m, *i) {
            Some(t) => again.push((*i, t)),
            None => rep.stats.add("slow once, but not when measured again", 1),
        }
    }
    let _ = std::fs::remove_file(&bin);
    for i in &at {
        let x = &runs[*i];
        let c = &cases[x.case];
        let mut bad = vec![];
        let Some(JobLog::Log(l)) = first.get(i).and_then(|v| v.first()) else {
            match first.get(i).and_then(|v| v.first()) {
                Some(JobLog::Hang) => bad.push(("C21", format!("an input of {} items takes more than {} s", x.n, WALL))),
                Some(JobLog::Crash(m)) => rep.violations.push(violation(
                    "C16",
                    hash(&x.line),
                    c.g.size() * 4 + x.line.len(),
                    format!("the program died: {}", m),
                    format!("grammar: {}", c.g.show()),
                    &x.line,
                    &mods[x.case],
                )),
                _ => rep.stats.add("not run", 1),
            }
            for (p, m) in bad {
                rep.violations.push(violation(p, hash(&x.line), c.g.size() * 4 + x.line.len(), m, format!("grammar: {}", c.g.show()), &x.line, &mods[x.case]));
            }
            continue;
        };
        let run = logp::parse(l);
        let (peak, total, ns) = run.cost;
        let st = &mut rep.stats;
        if matches!(run.res, LRes::Panic(_) | LRes::Limit) || run.summary.is_none_or(|s| (s.0, s.1) != (x.pulls, x.acts)) {
            // the matter of other monitors
            st.add("runs that go another way than the reference", 1);
        }
        st.add("measured runs", 1);
        st.add("items", x.n as u64);
        st.add(&format!("measured: {}", x.what), 1);
        st.max("items of an input", x.n as u64);
        st.max("deepest stack", x.depth);
        if x.depth < 100 {
            st.max("peak memory of runs with less than 100 symbols on the stack, in bytes", peak);
        }
        if x.depth > 1000 {
            st.max("peak memory per symbol on the stack, in bytes", peak / x.depth);
        }
        st.max("bytes allocated per step, at most 1000 * ", (total * 1000) / (x.steps + 1000));
        st.max("ns per step of a run of 10000 steps or more", if x.steps >= 10_000 { ns / x.steps } else { 0 });
        st.distinct.insert(hash(&(c.g.show(), &x.line)));
        if st.samples.len() < 2 && x.short.is_some() {
            st.samples.push(json::obj(vec![
                ("grammar", c.g.show().into()),
                ("input", x.segs.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" ").into()),
                (
                    "observed",
                    format!(
                        "{} items, {} steps, {} symbols on the stack at most: {} bytes held at most, {} allocated, {} ns",
                        x.n, x.steps, x.depth, peak, total, ns
                    )
                    .into(),
                ),
            ]));
        }
        if peak > FIXED + PER_SYMBOL * (x.depth + 2) {
            bad.push((
                "C21",
                format!("{} bytes are held at most for {} symbols on the stack, on an input of {} items", peak, x.depth, x.n),
            ));
        }
        if total > FIXED + PER_STEP * x.steps {
            bad.push(("C21", format!("{} bytes are allocated in {} steps", total, x.steps)));
        }
        // the same input in two lengths: what is held must not grow but with the stack, what is
        // allocated in all no faster than the number of steps
        let before = x.short.and_then(|s| match first.get(&s).and_then(|v| v.first()) {
            Some(JobLog::Log(l)) => Some((s, logp::parse(l).cost)),
            _ => None,
        });
        if let Some((s, (p, t, _))) = before {
            let s = &runs[s];
            st.add("runs compared with a shorter one", 1);
            if bad.is_empty() && peak > 2 * p + 4096 + PER_SYMBOL * (x.depth.saturating_sub(s.depth)) {
                bad.push((
                    "C21",
                    format!(
                        "{} bytes are held at most on {} items ({} symbols on the stack), {} on {} items ({} symbols)",
                        peak, x.n, x.depth, p, s.n, s.depth
                    ),
                ));
            }
            if bad.is_empty() && total > 4 * (x.steps / s.steps.max(1) + 1) * t + FIXED {
                bad.push(("C21", format!("{} bytes are allocated in {} steps, {} in {}", total, x.steps, t, s.steps)));
            }
        }
        if let Some((_, (a, b))) = again.iter().find(|(k, _)| k == i) {
            let s = &runs[x.short.unwrap()];
            bad.push(("C21", format!("{} steps take {} ns, {} steps {} ns", s.steps, a, x.steps, b)));
        }
        for (prop, msg) in bad {
            let mut w = x.line.splitn(2, ' ');
            w.next();
            rep.violations.push(violation(
                prop,
                hash(&(c.g.show(), &x.line)),
                c.g.size() * 4 + x.line.len(),
                format!("{} ({})", msg, x.what),
                format!("grammar: {}", c.g.show()),
                &format!("0 {}", w.next().unwrap()),
                &mods[x.case],
            ));
        }
    }
    rep
}
