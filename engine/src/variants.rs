//! C14 and C19: the same grammar published, ordered, named or laid out differently

use crate::gen;
use crate::gram::*;
use crate::json;
use crate::judge::{self, Job};
use crate::logp::{self, LEv, LRes};
use crate::lr::Lr;
use crate::prng::Rng;
use crate::render::{self, Style};
use crate::run::{self, Compiled, Env, JobLog, Opts};
use crate::special::violation;
use crate::work::*;
use std::collections::BTreeSet;
use std::time::Duration;

/// What a run did, apart from when values were dropped
#[derive(PartialEq, Clone, Debug)]
struct Seen {
    evs: Vec<LEv>,
    res: LRes,
    alive: i64,
    /// terminals found and expected, by index
    syn: Option<(usize, BTreeSet<usize>)>,
}

fn seen(g: &Gram, log: &JobLog, ordered: bool) -> Option<Seen> {
    let JobLog::Log(l) = log else {
        return match log {
            JobLog::Skipped => None,
            JobLog::Hang => Some(Seen {
                evs: vec![],
                res: LRes::Hang,
                alive: 0,
                syn: None,
            }),
            _ => Some(Seen {
                evs: vec![],
                res: LRes::Crash(String::new()),
                alive: 0,
                syn: None,
            }),
        };
    };
    let run = logp::parse(l);
    let mut res = run.res.clone();
    let mut syn = None;
    if let (LRes::Syn(f, e), false) = (&run.res, ordered) {
        let num = |s: &str| -> usize {
            if s == "end-of-input" {
                // may also be the text of a terminal
                return 1_000_000;
            }
            g.terms.iter().position(|t| judge::esc(&t.name) == s).unwrap_or(2_000_000)
        };
        let set = if e.is_empty() { BTreeSet::new() } else { e.split(", ").map(num).collect() };
        syn = Some((num(f), set));
        res = LRes::Syn(String::new(), String::new());
    }
    if let LRes::Crash(m) = &mut res {
        m.clear();
    }
    Some(Seen {
        evs: run.evs.into_iter().filter(|e| !matches!(e, LEv::Drop(_))).collect(),
        res,
        alive: run.alive,
        syn,
    })
}

struct Variant {
    g: Gram,
    style: Style,
    what: String,
    /// number of each non-terminal among the published ones
    entry: Vec<Option<usize>>,
}

fn variant(g: Gram, style: Style, what: String) -> Variant {
    let mut k = 0;
    let entry = (0..g.nts.len())
        .map(|n| {
            let public = style.publish.as_ref().map_or(g.nts[n].public, |p| p[n]);
            public.then(|| {
                k += 1;
                k - 1
            })
        })
        .collect();
    Variant { g, style, what, entry }
}

fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match r.below(4) {
        0 => v.reverse(),
        1 if n > 0 => v.rotate_left(1),
        _ => r.shuffle(&mut v),
    }
    v
}

/// Runs the same jobs in all variants; every variant must do what the first one does
fn compare(
    env: &Env,
    prop: &'static str,
    name: &str,
    groups: &[(Case, Vec<Variant>, Vec<(usize, Job)>)],
    ordered: bool,
) -> Report {
    let mut rep = Report::default();
    let mut mods = vec![];
    let mut at = vec![];
    for (gi, (_, vs, _)) in groups.iter().enumerate() {
        for (vi, v) in vs.iter().enumerate() {
            mods.push(render::module(&v.g, &v.style, &format!("m{}", mods.len())));
            at.push((gi, vi));
        }
    }
    let seed = hash(&mods.first());
    match run::some_profile(&mut mods, seed) {
        1 => rep.stats.add("programs compiled without debug assertions and overflow checks", 1),
        2 => rep.stats.add("programs compiled with optimisation", 1),
        _ => {}
    }
    let b = run::build(env, name, &mods, &Opts::default());
    let mut lines = vec![];
    let mut refs: Vec<(usize, usize)> = vec![];
    for (m, (gi, vi)) in at.iter().enumerate() {
        let (c, vs, jobs) = &groups[*gi];
        let v = &vs[*vi];
        rep.stats.add("variants", 1);
        match &b.results[m] {
            Compiled::Yes => {}
            Compiled::Undecided => {
                rep.stats.add("not decided: the compiler did not finish", 1);
                continue;
            }
            x => {
                rep.stats.add("variants refused", 1);
                if c.cl.conflict_free {
                    rep.violations.push(violation(
                        prop,
                        hash(&mods[m]),
                        c.g.size() * 4,
                        format!("a variant of a grammar does not compile ({}): {:?}", v.what, x),
                        format!("grammar: {}", v.g.show()),
                        "",
                        &mods[m],
                    ));
                }
                continue;
            }
        }
        for (j, (e, job)) in jobs.iter().enumerate() {
            if let Some(k) = v.entry[*e] {
                let lim = judge::expect(&c.g, &c.lr, *e, &job.items, None).map_or(100_000, |x| x.n_acts as u64 * 2 + 64);
                lines.push(job_line(m, k, job, lim));
                refs.push((m, j));
            }
        }
    }
    let Some(bin) = b.bin else { return rep };
    let logs = run::run_jobs(env, &bin, name, &lines, 8 << 20, Duration::from_secs(100));
    let _ = std::fs::remove_file(&bin);
    // the first variant that has the entry point is the base
    let mut base: std::collections::HashMap<(usize, usize), (Seen, usize)> = Default::default();
    for (((m, j), log), line) in refs.iter().zip(&logs).zip(&lines) {
        let (gi, vi) = at[*m];
        let (c, vs, jobs) = &groups[gi];
        let v = &vs[vi];
        let (e, job) = &jobs[*j];
        let Some(s) = seen(&v.g, log, ordered) else {
            rep.stats.add("skipped", 1);
            continue;
        };
        rep.stats.add("runs", 1);
        let Some((b, bm)) = base.get(&(gi, *j)) else {
            base.insert((gi, *j), (s, *m));
            continue;
        };
        rep.stats.add("runs compared with the base", 1);
        rep.stats.add(&format!("compared: {}", v.what), 1);
        rep.stats.distinct.insert(hash(&(&mods[*m], e, &job.items)));
        if rep.stats.samples.len() < 2 && job.items.len() > 2 && s.evs.len() > 6 {
            rep.stats.samples.push(json::obj(vec![
                ("base", vs[bm - (m - vi)].g.show().into()),
                ("variant", format!("{}: {}", v.what, v.g.show()).into()),
                ("input", show_items(&v.g, &job.items).into()),
                ("observed in both", format!("{:?}", s).chars().take(500).collect::<String>().into()),
            ]));
        }
        if s != *b {
            let bv = &vs[bm - (m - vi)];
            let d = if s.res != b.res || s.syn != b.syn {
                format!("{:?} {:?} instead of {:?} {:?}", s.res, s.syn, b.res, b.syn)
            } else if s.alive != b.alive {
                "other values alive afterwards".into()
            } else {
                let at = s.evs.iter().zip(&b.evs).take_while(|(a, b)| a == b).count();
                format!("event {}: {:?} instead of {:?}", at, s.evs.get(at), b.evs.get(at))
            };
            rep.violations.push(violation(
                prop,
                hash(&(c.g.show(), e, &job.items, &v.what)),
                c.g.size() * 4 + job.items.len(),
                format!("variant ({}) behaves differently: {}", v.what, d),
                format!(
                    "entry point: {}\ninput: {}\nbase ({}): {}\nvariant: {}\n\nbase did: {:?}\nvariant did: {:?}\n\nprogram of the base:\n{}",
                    v.g.nts[*e].name,
                    show_items(&v.g, &job.items),
                    bv.what,
                    bv.g.show(),
                    v.g.show(),
                    b,
                    s,
                    mods[*bm]
                ),
                &line.replacen(&m.to_string(), "0", 1),
                &mods[*m],
            ));
        }
    }
    rep
}

pub fn entry_points(env: &Env, id: usize, r: &mut Rng, n: usize, p: &Profile) -> Report {
    let mut groups = vec![];
    while groups.len() < n {
        // publish several non-terminals
        let mut found = None;
        for _ in 0..300 {
            let mut sk = if r.pct(4) { gen::large(r, 5) } else { skeleton(r, &p.fam) };
            if sk.n_terms == 0 || sk.nts.len() < 2 {
                continue;
            }
            let pct = *r.pick(&[100, 60, 40]);
            for x in sk.public.iter_mut() {
                *x = *x || r.pct(pct);
            }
            if sk.public.iter().filter(|x| **x).count() < 2 {
                continue;
            }
            let g = gen::plain(&sk);
            let Some(lr) = Lr::build(&g, p.max_states) else { continue };
            if !wanted(p.want, &g, &lr) {
                continue;
            }
            found = Some(sk);
            break;
        }
        let Some(sk) = found else { run::die("no grammar with several entry points found") };
        let c = finish_case(r, sk, p);
        let all = c.g.entries();
        let mut vs = vec![];
        let set = |es: &[usize]| Some((0..c.g.nts.len()).map(|i| es.contains(&i)).collect::<Vec<bool>>());
        // each alone is a base
        let mut jobs = vec![];
        let mut es = all.clone();
        r.shuffle(&mut es);
        es.truncate(4);
        for e in &es {
            vs.push(variant(
                c.g.clone(),
                Style {
                    publish: set(&[*e]),
                    ..c.style.clone()
                },
                "alone".into(),
            ));
            for j in jobs_for(r, p, &c, *e, (p.inputs / es.len()).max(15)) {
                jobs.push((*e, j));
            }
        }
        vs.push(variant(c.g.clone(), c.style.clone(), "all published".into()));
        vs.push(variant(
            c.g.clone(),
            Style {
                nt_order: Some(perm(r, c.g.nts.len())),
                ..c.style.clone()
            },
            "all published, declared in another order".into(),
        ));
        let mut some = all.clone();
        r.shuffle(&mut some);
        some.truncate(r.range(2, 4));
        if !some.iter().any(|e| es.contains(e)) {
            some.push(es[0]);
        }
        vs.push(variant(
            c.g.clone(),
            Style {
                publish: set(&some),
                nt_order: Some(perm(r, c.g.nts.len())),
                ..c.style.clone()
            },
            "some published".into(),
        ));
        features(&c, &mut Stats::default());
        groups.push((c, vs, jobs));
    }
    let mut rep = compare(env, "C14", &format!("v{}", id), &groups, true);
    for (c, ..) in &groups {
        rep.stats.add("grammars", 1);
        features(c, &mut rep.stats);
        rep.stats.add("entry points", c.g.entries().len() as u64);
    }
    rep
}

pub fn presentation(env: &Env, id: usize, r: &mut Rng, n: usize, p: &Profile, big: Option<usize>) -> Report {
    let mut groups = vec![];
    for _ in 0..n {
        let mut c = match big {
            Some(k) => {
                let sk = gen::large(r, k);
                let mut c = finish_case(r, sk, p);
                c.g.family = "large";
                c
            }
            None => make_case(r, p),
        };
        c.g = gen::rename(r, &c.g);
        c.style.seed = 0;
        let g = &c.g;
        let mut jobs = vec![];
        let es = g.entries();
        for e in &es {
            for j in jobs_for(r, p, &c, *e, (p.inputs / es.len()).max(15)) {
                jobs.push((*e, j));
            }
        }
        let mut vs = vec![variant(g.clone(), Style::default(), "as it is".into())];
        let nt_order = |r: &mut Rng| Some(perm(r, g.nts.len()));
        let term_order = |r: &mut Rng| Some(perm(r, g.terms.len()));
        let prod_order = |r: &mut Rng| Some(g.nts.iter().map(|n| perm(r, n.prods.len())).collect());
        let kinds: Vec<usize> = if big.is_some() {
            vec![5]
        } else {
            let mut k = vec![0, 1, 2, 3, 4, 6];
            r.shuffle(&mut k);
            k.truncate(2);
            k.push(5);
            k
        };
        for k in kinds {
            let v = match k {
                0 => (
                    g.clone(),
                    Style {
                        nt_order: nt_order(r),
                        ..Style::default()
                    },
                    "non-terminals in another order",
                ),
                1 => (
                    g.clone(),
                    Style {
                        prod_order: prod_order(r),
                        ..Style::default()
                    },
                    "productions in another order",
                ),
                2 => (
                    g.clone(),
                    Style {
                        term_order: term_order(r),
                        ..Style::default()
                    },
                    "terminals in another order",
                ),
                3 => (gen::rename(r, g), Style::default(), "renamed"),
                4 => (
                    g.clone(),
                    Style {
                        seed: r.next() | 1,
                        ..Style::default()
                    },
                    "another surface form",
                ),
                6 => (
                    g.clone(),
                    Style {
                        seed: if r.pct(50) { r.next() | 1 } else { 0 },
                        fragments: r.next() | 1,
                        ..Style::default()
                    },
                    "with macro fragments",
                ),
                _ => (
                    gen::rename(r, g),
                    Style {
                        seed: r.next() | 1,
                        nt_order: nt_order(r),
                        term_order: term_order(r),
                        prod_order: prod_order(r),
                        ..Style::default()
                    },
                    "all at once",
                ),
            };
            vs.push(variant(v.0, v.1, v.2.into()));
        }
        groups.push((c, vs, jobs));
    }
    let mut rep = compare(
        env,
        "C19",
        &format!("v{}{}", id, if big.is_some() { "b" } else { "" }),
        &groups,
        false,
    );
    for (c, ..) in &groups {
        rep.stats.add("grammars", 1);
        features(c, &mut rep.stats);
    }
    rep
}
