//! C16: long and deeply nested inputs on a small stack

use crate::gen;
use crate::gram::*;
use crate::json;
use crate::judge;
use crate::logp::{self, LRes};
use crate::lr::{Ev, Verdict};
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Env, JobLog, Opts};
use crate::special::violation;
use crate::work::*;
use std::collections::{HashMap, VecDeque};
use std::time::Duration;

/// `pre u^n mid v^n post` is a sentence for every n
#[derive(Clone, Debug)]
pub struct Pump {
    pub pre: Vec<usize>,
    pub u: Vec<usize>,
    pub mid: Vec<usize>,
    pub v: Vec<usize>,
    pub post: Vec<usize>,
    nt: usize,
}

type Edge = (usize, usize, usize); // non-terminal, production, position

/// Shortest (with random ties) path of edges from one non-terminal to another, at least one edge
fn path(r: &mut Rng, g: &Gram, min: &[usize], from: usize, to: usize) -> Option<Vec<Edge>> {
    let mut prev: HashMap<usize, Edge> = HashMap::new();
    let mut q = VecDeque::from([from]);
    let mut started = vec![false; g.nts.len()];
    started[from] = true;
    while let Some(n) = q.pop_front() {
        let mut es: Vec<(Edge, usize)> = vec![];
        for (k, p) in g.nts[n].prods.iter().enumerate() {
            if p.syms.iter().any(|s| matches!(s, Sym::N(m) if min[*m] == usize::MAX)) {
                continue;
            }
            for (i, s) in p.syms.iter().enumerate() {
                if let Sym::N(m) = s {
                    es.push(((n, k, i), *m));
                }
            }
        }
        r.shuffle(&mut es);
        for (e, m) in es {
            if m == to {
                let mut out = vec![e];
                let mut at = n;
                while at != from {
                    let e = prev[&at];
                    out.push(e);
                    at = e.0;
                }
                out.reverse();
                return Some(out);
            }
            if !started[m] {
                started[m] = true;
                prev.insert(m, e);
                q.push_back(m);
            }
        }
    }
    None
}

fn around(r: &mut Rng, g: &Gram, s: &gen::Sampler, es: &[Edge], budget: usize) -> Option<(Vec<usize>, Vec<usize>)> {
    let (mut a, mut b): (Vec<Sym>, Vec<Sym>) = (vec![], vec![]);
    for (n, k, i) in es {
        let p = &g.nts[*n].prods[*k].syms;
        a.extend(&p[..*i]);
        let mut c = p[i + 1..].to_vec();
        c.extend(b);
        b = c;
    }
    Some((s.expand(r, &a, budget)?, s.expand(r, &b, budget)?))
}

pub fn pumps(r: &mut Rng, g: &Gram, entry: usize, max: usize) -> Vec<Pump> {
    let s = gen::Sampler::new(g);
    let min = g.min_len();
    let mut nts: Vec<usize> = (0..g.nts.len()).collect();
    r.shuffle(&mut nts);
    let mut out: Vec<Pump> = vec![];
    for n in nts {
        if out.len() >= max {
            break;
        }
        if min[n] == usize::MAX {
            continue;
        }
        let Some(c) = path(r, g, &min, n, n) else { continue };
        let Some((u, v)) = around(r, g, &s, &c, *r.clone().pick(&[0, 0, 3])) else { continue };
        if u.is_empty() && v.is_empty() || u.len() + v.len() > 40 {
            continue;
        }
        let (pre, post) = if n == entry {
            (vec![], vec![])
        } else {
            let Some(c) = path(r, g, &min, entry, n) else { continue };
            let Some(x) = around(r, g, &s, &c, 0) else { continue };
            x
        };
        let Some(mid) = s.expand(r, &[Sym::N(n)], 2) else { continue };
        if pre.len() + post.len() + mid.len() > 2000 {
            continue;
        }
        out.push(Pump { pre, u, mid, v, post, nt: n });
    }
    out
}

/// A sentence in which something is repeated many times
pub fn pumped(r: &mut Rng, g: &Gram, entry: usize, max: usize) -> Option<Vec<usize>> {
    let p = pumps(r, g, entry, 1).pop()?;
    let once = p.u.len() + p.v.len();
    let fixed = p.pre.len() + p.mid.len() + p.post.len();
    let n = *r.pick(&[9, 17, 33, 40, 70, 140]);
    let room = max.checked_sub(fixed)? / once;
    let n = if max > 200 { room } else { n.min(room) };
    let mut s = p.pre.clone();
    for _ in 0..n {
        s.extend(&p.u);
    }
    s.extend(&p.mid);
    for _ in 0..n {
        s.extend(&p.v);
    }
    s.extend(&p.post);
    Some(s)
}

#[derive(Clone, Debug)]
pub enum Seg {
    One(Option<usize>),
    Rep(usize, Vec<usize>),
}

pub fn line(case: usize, entry: usize, limit: usize, segs: &[Seg]) -> String {
    let mut s = format!("{} {} q l{}", case, entry, limit);
    for x in segs {
        match x {
            Seg::One(Some(t)) => s += &format!(" {}", t),
            Seg::One(None) => s += " e7",
            Seg::Rep(n, ts) => {
                if *n > 0 && !ts.is_empty() {
                    s += &format!(" r{}x{}", n, ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("."));
                }
            }
        }
    }
    s
}

pub fn items(segs: &[Seg]) -> Vec<Option<usize>> {
    let mut v = vec![];
    for s in segs {
        match s {
            Seg::One(t) => v.push(*t),
            Seg::Rep(n, ts) => {
                for _ in 0..*n {
                    v.extend(ts.iter().map(|t| Some(*t)));
                }
            }
        }
    }
    v
}

pub fn segs(p: &Pump, n: usize, m: usize) -> Vec<Seg> {
    let mut s: Vec<Seg> = p.pre.iter().map(|t| Seg::One(Some(*t))).collect();
    s.push(Seg::Rep(n, p.u.clone()));
    s.extend(p.mid.iter().map(|t| Seg::One(Some(*t))));
    s.push(Seg::Rep(m, p.v.clone()));
    s.extend(p.post.iter().map(|t| Seg::One(Some(*t))));
    s
}

struct Run {
    case: usize,
    k_entry: usize,
    entry: usize,
    segs: Vec<Seg>,
    what: String,
    /// position of the same input, but small
    small: Option<usize>,
}

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, len: usize, p: &Profile, big: bool) -> Report {
    let mut rep = Report::default();
    let stack = 512 << 10;
    let mut cases: Vec<Case> = vec![];
    let mut runs: Vec<Run> = vec![];
    let mut tries = 0;
    while cases.len() < n && tries < n * 20 {
        tries += 1;
        let c = if big {
            let sk = gen::large(r, id);
            let mut c = finish_case(r, sk, p);
            c.g.family = "large";
            c
        } else {
            make_case(r, p)
        };
        let k = cases.len();
        let mut any = false;
        for (ke, e) in c.g.entries().into_iter().enumerate().take(3) {
            let ps = pumps(r, &c.g, e, 3);
            for p in ps {
                any = true;
                let unit = p.u.len() + p.v.len();
                let many = (len / unit).max(100);
                let kind = match (p.u.is_empty(), p.v.is_empty()) {
                    (true, _) => "left recursion",
                    (_, true) => "right recursion",
                    _ => "nesting",
                };
                let mut add = |f: &dyn Fn(usize) -> Vec<Seg>, what: &str| {
                    runs.push(Run {
                        case: k,
                        k_entry: ke,
                        entry: e,
                        segs: f(20),
                        what: format!("{}, {}, small", kind, what),
                        small: None,
                    });
                    let s = runs.len() - 1;
                    runs.push(Run {
                        case: k,
                        k_entry: ke,
                        entry: e,
                        segs: f(many),
                        what: format!("{}, {}", kind, what),
                        small: Some(s),
                    });
                };
                add(&|n| segs(&p, n, n), "sentence");
                match r.below(4) {
                    0 => add(&|n| segs(&p, n, 0)[..p.pre.len() + 1 + p.mid.len()].to_vec(), "ends in the middle"),
                    1 => {
                        let t = r.below(c.g.terms.len());
                        add(
                            &|n| {
                                let mut s = segs(&p, n, n / 2);
                                let at = s.len() - p.post.len();
                                s.insert(at, Seg::One(Some(t)));
                                s
                            },
                            "another token in the middle",
                        )
                    }
                    2 => add(
                        &|n| {
                            let mut s = segs(&p, n, n / 2);
                            let at = s.len() - p.post.len();
                            s.insert(at, Seg::One(None));
                            s
                        },
                        "an error item in the middle",
                    ),
                    _ => add(
                        &|n| {
                            let mut s = segs(&p, n, n);
                            s.extend(p.mid.iter().map(|t| Seg::One(Some(*t))));
                            s.push(Seg::Rep(n, p.u.clone()));
                            s
                        },
                        "more after the end",
                    ),
                }
            }
        }
        if any {
            cases.push(c);
        }
    }
    if cases.is_empty() {
        return rep;
    }
    let mut mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let name = format!("d{}{}{}", id, if big { "b" } else { "" }, p.prop);
    let seed = hash(&mods.first());
    match run::some_profile(&mut mods, seed) {
        1 => rep.stats.add("programs compiled without debug assertions and overflow checks", 1),
        2 => rep.stats.add("programs compiled with optimisation", 1),
        _ => {}
    }
    let b = run::build(env, &name, &mods, &Opts::default());
    for (k, c) in cases.iter().enumerate() {
        rep.stats.add("recursive grammars", 1);
        features(c, &mut rep.stats);
        let _ = k;
    }
    let Some(bin) = b.bin else { return rep };
    // what the reference does
    let mut want = vec![];
    let mut lines = vec![];
    let mut refs: Vec<usize> = vec![];
    let mut place: HashMap<usize, usize> = HashMap::new();
    for (i, x) in runs.iter().enumerate() {
        if !b.results[x.case].ok() {
            continue;
        }
        let c = &cases[x.case];
        let it = items(&x.segs);
        let lim = (it.len() + 2) * (c.g.n_prods() + 4) * 8;
        let Some((evs, verdict, expected)) = c.lr.run(x.entry, &it, lim, None) else {
            rep.stats.add("reference does not end", 1);
            continue;
        };
        let mut h: u64 = 0;
        let (mut pulls, mut acts) = (0u64, 0u64);
        for e in &evs {
            match e {
                Ev::Pull => pulls += 1,
                Ev::Act(p) => {
                    acts += 1;
                    h = h.wrapping_mul(0x100000001b3).wrapping_add(*p as u64 + 1);
                }
            }
        }
        place.insert(i, refs.len());
        refs.push(i);
        lines.push(line(x.case, x.k_entry, acts as usize * 2 + 100, &x.segs));
        want.push((pulls, acts, h, verdict, expected, it.len()));
    }
    let logs = run::run_jobs(env, &bin, &name, &lines, stack, Duration::from_secs(150));
    let _ = std::fs::remove_file(&bin);
    for (j, i) in refs.iter().enumerate() {
        let x = &runs[*i];
        let c = &cases[x.case];
        let st = &mut rep.stats;
        if logs[j] == JobLog::Skipped {
            st.add("skipped", 1);
            continue;
        }
        // a frame that does not fit at all is no growth
        if let Some(s) = x.small {
            if let Some(k) = place.get(&s) {
                if matches!(logs[*k], JobLog::Crash(_)) {
                    st.add("not judged: the small input does not fit the stack either", 1);
                    continue;
                }
            }
        }
        let (pulls, acts, h, verdict, expected, n) = &want[j];
        let mut bad: Vec<(&'static str, String)> = vec![];
        match &logs[j] {
            JobLog::Crash(m) => {
                if x.small.is_some() {
                    bad.push(("C16", format!("the program died on an input of {} items, but not on a short one: {}", n, m)));
                }
            }
            JobLog::Hang => bad.push(("C16", format!("parse does not return on an input of {} items", n))),
            JobLog::Skipped => {}
            JobLog::Log(l) => {
                let run = logp::parse(l);
                match &run.res {
                    LRes::Panic(m) => bad.push(("C16", format!("panic: {}", m))),
                    LRes::Limit => bad.push(("C16", format!("more actions or pulls than the {} actions and {} items there are", acts, n))),
                    res => {
                        let says = || format!("result {:?}, the reference says {:?} {:?}", res, verdict, expected);
                        let s = run.summary.unwrap_or_default();
                        match (verdict, res) {
                            (Verdict::Accept, LRes::Ok(_)) | (Verdict::Lex(_), LRes::Lex(7)) => {}
                            (Verdict::Accept, _) => bad.push(("C02", says())),
                            (Verdict::Lex(_), _) => bad.push(("C08", says())),
                            (Verdict::Error(p), LRes::Syn(f, e)) => {
                                let found = items(&x.segs).get(*p).map_or("end-of-input".to_string(), |t| c.g.terms[t.unwrap()].name.clone());
                                let exp = expected.iter().map(|t| c.g.terms[*t].name.as_str()).collect::<Vec<_>>().join(", ");
                                if judge::esc(&found) != *f {
                                    bad.push(("C06", says()));
                                }
                                if judge::esc(&exp) != *e && c.cl.reduced && c.cl.conflict_free {
                                    bad.push(("C07", says()));
                                }
                            }
                            (Verdict::Error(_), res) => {
                                bad.push(("C06", says()));
                                if matches!(res, LRes::Ok(_)) {
                                    bad.push(("C01", says()));
                                }
                            }
                        }
                        if (s.1, s.2) != (*acts, *h) {
                            bad.push((if c.cl.conflict_free { "C03" } else { "C12" }, format!("{} actions (hash {:x}), the reference performs {} ({:x})", s.1, s.2, acts, h)));
                        }
                        if s.1 > *acts * 2 + 50 {
                            bad.push(("C16", format!("{} actions instead of {}", s.1, acts)));
                        }
                        if s.0 != *pulls {
                            bad.push(("C09", format!("{} pulls instead of {}", s.0, pulls)));
                        }
                        if run.alive != 0 {
                            bad.push(("C17", format!("{} values alive afterwards", run.alive)));
                        }
                    }
                }
                st.add("actions performed on long inputs", run.summary.unwrap_or_default().1);
            }
        }
        st.add("deep runs", 1);
        st.add(&format!("deep: {}", x.what), 1);
        st.max("items of an input", *n as u64);
        st.add("items", *n as u64);
        if x.small.is_some() {
            st.distinct.insert(hash(&(c.g.show(), &lines[j])));
            if st.samples.len() < 2 {
                st.samples.push(json::obj(vec![
                    ("grammar", c.g.show().into()),
                    ("input", x.segs.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" ").into()),
                    ("observed", format!("{:?}", logs[j]).into()),
                ]));
            }
        }
        for (prop, msg) in bad {
            let mut w = lines[j].splitn(2, ' ');
            w.next();
            rep.violations.push(violation(
                prop,
                hash(&(c.g.show(), &lines[j])),
                c.g.size() * 4 + lines[j].len(),
                format!("{} ({})", msg, x.what),
                format!("grammar: {}\nentry point: {}\nstack: {} bytes", c.g.show(), c.g.nts[x.entry].name, stack),
                &format!("0 {}", w.next().unwrap()),
                &mods[x.case],
            ));
        }
    }
    rep
}
