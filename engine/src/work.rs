//! The standard workload: random grammars, compiled with the real macro, run on many inputs,
//! every run judged by all monitors

use crate::earley::Earley;
use crate::gen;
use crate::json;
use crate::gram::*;
use crate::judge::{self, Class, Finding, It, Job};
use crate::logp::{self, LEv, LRes};
use crate::lr::{Lr, Verdict};
use crate::prng::Rng;
use crate::render::{self, Style};
use crate::run::{self, Compiled, Env, JobLog};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Case {
    pub g: Gram,
    pub lr: Lr,
    pub cl: Class,
    pub style: Style,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    ConflictFree,
    /// conflict free, all reachable non-terminals productive
    Reduced,
    /// shift/reduce conflicts only
    Sr,
    /// no reduce/reduce conflicts
    NoRr,
    Rr,
    Any,
}

#[derive(Clone)]
pub struct Profile {
    pub prop: &'static str,
    /// weights: random, lead, composed, tiny, ambiguous, rr, mutated
    pub fam: [usize; 7],
    pub want: Want,
    pub inputs: usize,
    /// percentage of inputs with an Err item / with a fault
    pub err_pct: usize,
    pub fault_pct: usize,
    pub chunk: usize,
    pub chunks: usize,
    pub large: usize,
    pub forbid_unsafe: bool,
    pub deadline: Duration,
    pub max_states: usize,
    pub styled_pct: usize,
    /// all values of type V
    pub uniform: bool,
    pub bind_pct: Option<usize>,
    /// mostly sentences
    pub sentences: bool,
    /// percentage of grammars with anonymous actions
    pub anon_pct: usize,
    /// percentage of entry points that get inputs of hundreds or thousands of items
    pub long_pct: usize,
}

impl Profile {
    pub fn new(prop: &'static str) -> Profile {
        Profile {
            prop,
            fam: [3, 3, 5, 1, 0, 0, 2],
            want: Want::ConflictFree,
            inputs: 260,
            err_pct: 10,
            fault_pct: 5,
            chunk: 20,
            chunks: 24,
            large: 9,
            forbid_unsafe: false,
            deadline: Duration::from_secs(60),
            max_states: 400,
            styled_pct: 60,
            uniform: false,
            bind_pct: None,
            sentences: false,
            anon_pct: 0,
            long_pct: 15,
        }
    }
}

pub fn skeleton(r: &mut Rng, fam: &[usize; 7]) -> gen::Sk {
    let mut g = short_skeleton(r, fam);
    if r.pct(8) {
        gen::stretch(r, &mut g);
    }
    g
}

fn short_skeleton(r: &mut Rng, fam: &[usize; 7]) -> gen::Sk {
    match r.weighted(fam) {
        0 => gen::random(r),
        1 => gen::lead(r),
        2 => gen::composed(r),
        3 => gen::tiny(r),
        4 => gen::ambiguous(r),
        5 => gen::rr(r),
        _ => {
            let mut g = match r.below(3) {
                0 => gen::random(r),
                1 => gen::lead(r),
                _ => gen::composed(r),
            };
            gen::mutate(r, &mut g);
            g
        }
    }
}

pub fn wanted(want: Want, g: &Gram, lr: &Lr) -> bool {
    let c = &lr.conflicts;
    match want {
        Want::ConflictFree => c.rr == 0 && c.sr == 0,
        Want::Reduced => c.rr == 0 && c.sr == 0 && g.reduced(),
        Want::Sr => c.rr == 0 && c.sr > 0 && g.reduced(),
        Want::NoRr => c.rr == 0,
        Want::Rr => c.rr > 0,
        Want::Any => true,
    }
}

/// How interesting a grammar is: prefer those where something can go wrong
fn score(g: &Gram, lr: &Lr) -> usize {
    let null = g.nullable();
    let mut s = 0;
    s += null.iter().filter(|x| **x).count().min(4) * 2;
    s += (lr.n_states() / 4).min(8);
    if lr.lalr_rr {
        s += 6;
    }
    let p: usize = g.n_prods();
    s += p.min(10);
    // nullable non-terminals that are not just empty, before other symbols
    for n in &g.nts {
        for q in &n.prods {
            for (k, y) in q.syms.iter().enumerate() {
                if matches!(y, Sym::N(m) if null[*m]) && k + 1 < q.syms.len() {
                    s += 1;
                }
            }
        }
    }
    s
}

pub fn make_case(r: &mut Rng, p: &Profile) -> Case {
    let mut best: Option<(usize, gen::Sk, Lr)> = None;
    let tries = if r.pct(50) { 4 } else { 1 };
    let mut found = 0;
    for _ in 0..4000 {
        let mut sk = skeleton(r, &p.fam);
        if sk.n_terms == 0 {
            continue;
        }
        let pct = match p.want {
            Want::Sr => 90,
            Want::NoRr => 30,
            _ => 0,
        };
        if pct > 0 && sk.family != "ambiguous" && r.pct(pct) {
            gen::continue_some(r, &mut sk);
        }
        let mut g = gen::plain(&sk);
        if g.size() > 400 {
            continue;
        }
        let Some(mut lr) = Lr::build(&g, p.max_states) else {
            continue;
        };
        if !wanted(p.want, &g, &lr) {
            continue;
        }
        if matches!(p.want, Want::Sr | Want::NoRr) && lr.conflicts.sr_late > 0 && r.pct(90) {
            // look for an order of declarations that is not refused
            for _ in 0..10 {
                if lr.conflicts.sr_late == 0 {
                    break;
                }
                let mut other = sk.clone();
                let mut order: Vec<usize> = (0..other.nts.len()).collect();
                r.shuffle(&mut order);
                gen::permute_nts(&mut other, &order);
                for n in &mut other.nts {
                    r.shuffle(n);
                }
                let h = gen::plain(&other);
                let Some(l) = Lr::build(&h, p.max_states) else { break };
                if l.conflicts.sr_late <= lr.conflicts.sr_late {
                    (sk, g, lr) = (other, h, l);
                }
            }
            if lr.conflicts.sr_late > 0 {
                continue;
            }
        }
        let s = score(&g, &lr);
        if best.as_ref().is_none_or(|b| s > b.0) {
            best = Some((s, sk, lr));
        }
        found += 1;
        if found >= tries {
            break;
        }
    }
    let Some((_, sk, _)) = best else {
        run::die("no grammar of the wanted kind found");
    };
    finish_case(r, sk, p)
}

pub fn finish_case(r: &mut Rng, sk: gen::Sk, p: &Profile) -> Case {
    let mut d = gen::Dress::random(r);
    if let Some(b) = p.bind_pct {
        d.bind_pct = b;
    }
    if p.anon_pct > 0 && r.pct(p.anon_pct) {
        d.anon = true;
    }
    d.uniform |= p.uniform;
    let g = gen::dress(r, &sk, &d);
    let lr = Lr::build(&g, 1 << 20).unwrap();
    let cl = Class {
        conflict_free: lr.conflict_free(),
        reduced: g.reduced(),
    };
    Case {
        style: Style {
            seed: if r.pct(p.styled_pct) { r.next() | 1 } else { 0 },
            forbid_unsafe: p.forbid_unsafe,
            fragments: if p.styled_pct > 0 && g.size() < 400 && r.pct(6) { r.next() | 1 } else { 0 },
            ..Style::default()
        },
        g,
        lr,
        cl,
    }
}

pub fn job_line(case: usize, entry: usize, j: &Job, limit: u64) -> String {
    let mut s = format!("{} {} l{}", case, entry, limit);
    if let Some(p) = j.panic_at_act {
        s += &format!(" p{}", p);
    }
    if j.hint > 0 {
        s += &format!(" h{}", j.hint);
    }
    for i in &j.items {
        match i {
            It::Tok(t) => s += &format!(" {}", t),
            It::Err(c) => s += &format!(" e{}", c),
            It::Panic => s += " !",
        }
    }
    s
}

pub fn show_items(g: &Gram, items: &[It]) -> String {
    items
        .iter()
        .map(|i| match i {
            It::Tok(t) => format!("{:?}", g.terms[*t].name),
            It::Err(c) => format!("Err({})", c),
            It::Panic => "panic!".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<json::Value>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            if let Some(m) = k.strip_prefix("max ") {
                self.max(m, v);
            } else {
                self.add(&k, v);
            }
        }
        self.distinct.extend(o.distinct);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
            self.samples.truncate(6);
        }
    }
}

/// A violation with everything needed to look at it again
pub struct Violation {
    pub prop: &'static str,
    /// identifies the failing input
    pub key: String,
    pub size: usize,
    pub msg: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Report {
    pub stats: Stats,
    pub violations: Vec<Violation>,
}

impl Report {
    pub fn merge(&mut self, o: Report) {
        self.stats.merge(o.stats);
        self.violations.extend(o.violations);
    }
}

pub fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn jobs_for(r: &mut Rng, p: &Profile, c: &Case, entry: usize, budget: usize) -> Vec<Job> {
    let mut ins = gen::inputs(r, &c.g, &c.lr, entry, budget);
    if r.pct(40) {
        if let Some(mut s) = crate::deep::pumped(r, &c.g, entry, 180) {
            if r.pct(35) {
                let at = s.len() - r.below(s.len().min(4) + 1);
                match r.below(3) {
                    0 => s.truncate(at),
                    1 => s.insert(at, r.below(c.g.terms.len())),
                    _ => {
                        if at < s.len() {
                            s[at] = r.below(c.g.terms.len())
                        }
                    }
                }
            }
            ins.seqs.push(s);
        }
    }
    // long ones: what depends on the size of a stack shows in these only
    let mut long = 0;
    if r.pct(p.long_pct) {
        let max = *r.pick(&[300, 600, 1100, 1100, 2200, 4400]);
        if let Some(s) = crate::deep::pumped(r, &c.g, entry, max) {
            for _ in 0..r.range(2, 4) {
                let mut s = s.clone();
                let at = if r.pct(40) { s.len() - r.below(s.len().min(4) + 1) } else { r.below(s.len() + 1) };
                match r.below(4) {
                    0 => s.truncate(at),
                    1 => s.insert(at, r.below(c.g.terms.len())),
                    2 if at < s.len() => s[at] = r.below(c.g.terms.len()),
                    _ => {}
                }
                ins.seqs.push(s);
                long += 1;
            }
        }
    }
    let mut jobs = vec![];
    let n = ins.seqs.len();
    for (k, s) in ins.seqs.into_iter().enumerate() {
        let mut items: Vec<It> = s.iter().map(|t| It::Tok(*t)).collect();
        let mut j = Job::default();
        let is_long = k >= n - long;
        if items.is_empty() {
            // as it is
        } else if r.pct(if is_long { p.err_pct.max(20) } else { p.err_pct }) {
            let at = r.below(items.len() + 1);
            items.insert(at, It::Err(r.below(1000) as u32));
            if r.pct(20) {
                let at = r.below(items.len() + 1);
                items.insert(at, It::Err(1000 + r.below(1000) as u32));
            }
            if r.pct(50) && !c.g.terms.is_empty() {
                items.push(It::Tok(r.below(c.g.terms.len())));
            }
        } else if r.pct(if is_long { p.fault_pct.max(20) } else { p.fault_pct }) {
            if r.pct(50) {
                let at = r.below(items.len() + 1);
                items.insert(at, It::Panic);
            } else {
                j.panic_at_act = Some(r.below(items.len() + 2) as u64);
            }
        }
        j.items = items;
        j.hint = r.weighted(&[5, 3, 2, 2, 2]) as u8;
        jobs.push(j);
    }
    jobs
}

/// Inputs of more items are not given to Earley
const LONG: usize = 280;

/// Judge one run and account for it
pub fn judge_one(
    c: &Case,
    k_entry: usize,
    entry: usize,
    job: &Job,
    log: &JobLog,
    src: &str,
    cover: &mut HashSet<u64>,
    rep: &mut Report,
    gh: u64,
) {
    let x = judge::expect(&c.g, &c.lr, entry, &job.items, Some(cover));
    let st = &mut rep.stats;
    let Some(x) = x else {
        st.add("reference does not end", 1);
        if matches!(log, JobLog::Hang) || matches!(log, JobLog::Log(l) if logp::parse(l).res == LRes::Limit) {
            rep.violations.push(Violation {
                prop: "C16",
                key: format!("{:x}", hash(&(c.g.show(), entry, &job.items, job.panic_at_act))),
                size: c.g.size() * 4 + job.items.len(),
                msg: "parse does not end".into(),
                detail: format!(
                    "property: C16\nobserved: parse does not end\n\ngrammar: {}\ninput: {}\n=== job\n{}\n=== program\n{}",
                    c.g.show(),
                    show_items(&c.g, &job.items),
                    job_line(0, k_entry, job, 1_000_000),
                    module_as(src, "m0")
                ),
            });
        }
        return;
    };
    // membership and viable prefix by Earley, cross-checks the reference LR machine
    let toks: Vec<Option<usize>> = job
        .items
        .iter()
        .map(|i| if let It::Tok(t) = i { Some(*t) } else { None })
        .collect();
    let mut in_lang = None;
    if toks.len() > LONG {
        // Earley could take quadratic time
        if c.cl.conflict_free && toks.iter().all(|t| t.is_some()) {
            in_lang = Some(x.verdict == Verdict::Accept);
        }
        st.add("runs on long inputs", 1);
    } else {
        let mut e = Earley::new(&c.g, entry);
        let mut verdict = None;
        for (k, t) in toks.iter().enumerate() {
            match t {
                None => {
                    verdict = Some(Verdict::Lex(k));
                    break;
                }
                Some(t) => {
                    if !e.push(*t) {
                        verdict = Some(Verdict::Error(k));
                        break;
                    }
                }
            }
        }
        let verdict = verdict.unwrap_or_else(|| {
            if e.accepts() {
                Verdict::Accept
            } else {
                Verdict::Error(toks.len())
            }
        });
        if toks.iter().all(|t| t.is_some()) {
            in_lang = Some(verdict == Verdict::Accept);
        }
        if c.cl.conflict_free {
            let agree = if c.cl.reduced {
                verdict == x.verdict
            } else {
                (verdict == Verdict::Accept) == (x.verdict == Verdict::Accept)
            };
            if !agree {
                run::die(&format!(
                    "the references disagree: Earley {:?}, LR(1) {:?}\n{}\n{}",
                    verdict,
                    x.verdict,
                    c.g.show(),
                    show_items(&c.g, &job.items)
                ));
            }
            if c.cl.reduced && matches!(x.verdict, Verdict::Error(_)) && e.next() != x.expected {
                run::die(&format!(
                    "the references disagree: Earley expects {:?}, LR(1) {:?}\n{}\n{}",
                    e.next(),
                    x.expected,
                    c.g.show(),
                    show_items(&c.g, &job.items)
                ));
            }
            st.add("runs in which Earley and reference LR(1) were compared", 1);
        }
    }
    let mut run = match log {
        JobLog::Log(l) => logp::parse(l),
        JobLog::Crash(m) => logp::Run {
            evs: vec![],
            res: LRes::Crash(m.clone()),
            res_at: 0,
            alive: 0,
            summary: None,
            cost: (0, 0, 0),
            raw: String::new(),
        },
        JobLog::Hang => logp::Run {
            evs: vec![],
            res: LRes::Hang,
            res_at: 0,
            alive: 0,
            summary: None,
            cost: (0, 0, 0),
            raw: String::new(),
        },
        JobLog::Skipped => {
            st.add("skipped", 1);
            return;
        }
    };
    if c.g.anon {
        identify(&c.g, &x, &mut run);
        st.add("runs with anonymous actions", 1);
    }
    if job.hint > 0 {
        st.add("runs in which the iterator has a size_hint", 1);
    }
    st.add("runs", 1);
    let fault = job.panic_at_act.is_some() || job.items.contains(&It::Panic);
    if fault {
        st.add("runs with an injected panic", 1);
    }
    st.add(
        match &run.res {
            LRes::Ok(_) => "result Ok",
            LRes::Lex(_) => "result LexerError",
            LRes::Syn(..) => "result ParserError",
            LRes::Injected => "result injected panic",
            _ => "result other",
        },
        1,
    );
    for e in &run.evs {
        match e {
            LEv::Next(_) | LEv::NextErr(_) | LEv::End | LEv::Over => st.add("pull events", 1),
            LEv::Act { .. } => st.add("action events", 1),
            LEv::Drop(_) => st.add("drop events", 1),
            LEv::Inject => {}
        }
    }
    if !job.items.is_empty() {
        st.distinct.insert(hash(&(gh, entry, &job.items, job.panic_at_act)));
    }
    st.max("input length", job.items.len() as u64);
    let mut fs: Vec<Finding> = vec![];
    judge::judge(&c.g, &c.cl, entry, job, &x, in_lang, &run, &mut fs);
    if st.samples.len() < 2 && job.items.len() > 2 && x.n_acts > 1 {
        st.samples.push(json::obj(vec![
            ("grammar", c.g.show().into()),
            ("entry", c.g.nts[entry].name.clone().into()),
            ("input", show_items(&c.g, &job.items).into()),
            ("observed", format!("{} pulls, actions {:?}, {:?}", run.pulls(), run.acts().collect::<Vec<_>>(), run.res).into()),
        ]));
    }
    for f in fs {
        rep.violations.push(Violation {
            prop: f.prop,
            key: format!("{:x}", hash(&(c.g.show(), entry, &job.items, job.panic_at_act))),
            size: c.g.size() * 4 + job.items.len(),
            msg: f.msg.clone(),
            detail: format!(
                "property: {}\nobserved: {}\n\ngrammar ({}): {}\nproduction numbers: {}\nentry point: {} (number {})\ninput: {}\nreference: verdict {:?}, actions {:?}\n\nrecorded log:\n{}\n=== job\n{}\n=== program\n{}",
                f.prop,
                f.msg,
                c.g.family,
                c.g.show(),
                prod_list(&c.g),
                c.g.nts[entry].name,
                k_entry,
                show_items(&c.g, &job.items),
                x.verdict,
                x.evs.iter().filter_map(|e| if let judge::XEv::Act { p, .. } = e { Some(*p) } else { None }).collect::<Vec<_>>(),
                match log { JobLog::Log(l) => l.clone(), o => format!("{:?}", o) },
                job_line(0, k_entry, job, 1_000_000),
                module_as(src, "m0")
            ),
        });
    }
}

/// Take the n-th anonymous action for that of the n-th production of the reference
fn identify(g: &Gram, x: &judge::Expect, run: &mut logp::Run) {
    let ps: Vec<u32> = x
        .evs
        .iter()
        .filter_map(|e| if let judge::XEv::Act { p, .. } = e { Some(*p) } else { None })
        .collect();
    let mut n = 0;
    for e in &mut run.evs {
        if let LEv::Act { p, binds, .. } = e {
            if let Some(q) = ps.get(n).filter(|_| *p == ANON) {
                let (i, k) = g.prod_by_id(*q).unwrap();
                let pos = g.nts[i].prods[k].by_name();
                *p = *q;
                for b in binds {
                    b.0 = pos.get(b.0 as usize).map_or(ANON, |k| *k as u32);
                }
            }
            n += 1;
        }
    }
}

pub fn prod_list(g: &Gram) -> String {
    let mut v = vec![];
    for n in &g.nts {
        for p in &n.prods {
            v.push(format!("{}: {} -> {} symbols", p.id, n.name, p.syms.len()));
        }
    }
    v.join(", ")
}

pub fn features(c: &Case, st: &mut Stats) {
    let g = &c.g;
    st.add(&format!("grammars of family {}", g.family), 1);
    let null = g.nullable();
    if null.iter().any(|x| *x) {
        st.add("grammars with nullable non-terminals", 1);
    }
    if c.lr.lalr_rr {
        st.add("grammars that are LR(1) but would have LALR(1) reduce/reduce conflicts", 1);
    }
    if c.lr.conflicts.sr > 0 {
        st.add("grammars with shift/reduce conflicts", 1);
    }
    if !c.cl.reduced {
        st.add("grammars with unproductive non-terminals", 1);
    }
    if g.entries().len() > 1 {
        st.add("grammars with several entry points", 1);
    }
    let left = g
        .nts
        .iter()
        .enumerate()
        .any(|(i, n)| n.prods.iter().any(|p| p.syms.first() == Some(&Sym::N(i))));
    if left {
        st.add("grammars with direct left recursion", 1);
    }
    let long = g.nts.iter().flat_map(|n| &n.prods).map(|p| p.syms.len()).max().unwrap_or(0);
    st.max("symbols of a production", long as u64);
    if long >= 8 {
        st.add("grammars with productions of 8 or more symbols", 1);
    }
    st.add("reference LR(1) states", c.lr.n_states() as u64);
    st.max("reference LR(1) states of a grammar", c.lr.n_states() as u64);
    st.max("terminals", g.terms.len() as u64);
    st.max("non-terminals", g.nts.len() as u64);
    st.max("productions", g.n_prods() as u64);
}

/// Compile a set of cases, run jobs, judge. `jobs[i]`: (number of the entry, entry, job)
pub fn run_cases(env: &Env, name: &str, cases: &[Case], jobs: &[Vec<(usize, usize, Job)>], p: &Profile) -> Report {
    let mut rep = Report::default();
    let mut mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let seed = hash(&mods.first());
    match run::some_profile(&mut mods, seed) {
        1 => rep.stats.add("programs compiled without debug assertions and overflow checks", 1),
        2 => rep.stats.add("programs compiled with optimisation", 1),
        _ => {}
    }
    let b = run::build(env, name, &mods, &run::Opts::default());
    for (k, c) in cases.iter().enumerate() {
        rep.stats.add("grammars", 1);
        features(c, &mut rep.stats);
        match &b.results[k] {
            Compiled::Yes => rep.stats.add("grammars compiled", 1),
            Compiled::Undecided => rep.stats.add("not decided: the compiler did not finish", 1),
            r => {
                rep.stats.add("grammars refused", 1);
                if c.cl.conflict_free {
                    for prop in ["C11", "C02"] {
                        let msg = format!("a conflict-free grammar does not compile: {:?}", r);
                        rep.violations.push(Violation {
                            prop,
                            key: format!("{:x}", hash(&c.g.show())),
                            size: c.g.size() * 4,
                            msg: msg.clone(),
                            detail: format!("property: {}\nobserved: {}\n\ngrammar: {}\n=== program\n{}", prop, msg, c.g.show(), module_as(&mods[k], "m0")),
                        });
                    }
                }
            }
        }
    }
    let Some(bin) = b.bin else { return rep };
    let mut lines = vec![];
    let mut refs = vec![];
    for (k, js) in jobs.iter().enumerate() {
        if !b.results[k].ok() {
            continue;
        }
        for (ke, e, j) in js {
            let lim = judge::expect(&cases[k].g, &cases[k].lr, *e, &j.items, None).map_or(100_000, |x| x.n_acts as u64 * 2 + 64);
            lines.push(job_line(k, *ke, j, lim));
            refs.push((k, *ke, *e, j));
        }
    }
    let logs = run::run_jobs(env, &bin, name, &lines, 8 << 20, Duration::from_secs(60));
    let mut cover: Vec<HashSet<u64>> = vec![Default::default(); cases.len()];
    let hs: Vec<u64> = cases.iter().map(|c| hash(&c.g.show())).collect();
    let mut seeds = vec![];
    for ((k, ke, e, j), log) in refs.into_iter().zip(&logs) {
        let n = rep.violations.len();
        judge_one(&cases[k], ke, e, j, log, &mods[k], &mut cover[k], &mut rep, hs[k]);
        if rep.violations.len() > n {
            seeds.push((k, ke, e, j.items.clone(), log.clone()));
        }
    }
    // a parser that departs from the reference without breaking this property: follow it, by
    // what it says it expects, to where it does
    follow(env, &bin, name, cases, &mods, &hs, seeds, p, &mut rep);
    let _ = std::fs::remove_file(&bin);
    for (k, c) in cases.iter().enumerate() {
        if b.results[k].ok() {
            rep.stats.add("table cells of the reference", c.lr.n_states() as u64 * (c.g.terms.len() as u64 + 1));
            rep.stats.add("table cells exercised", cover[k].len() as u64);
            let s: HashSet<u64> = cover[k].iter().map(|x| x >> 32).collect();
            rep.stats.add("states exercised", s.len() as u64);
        }
    }
    let _ = p;
    rep
}

#[allow(clippy::too_many_arguments)]
fn follow(
    env: &Env,
    bin: &std::path::Path,
    name: &str,
    cases: &[Case],
    mods: &[String],
    hs: &[u64],
    mut seeds: Vec<(usize, usize, usize, Vec<It>, JobLog)>,
    p: &Profile,
    rep: &mut Report,
) {
    let mut cover = HashSet::new();
    let mut seen: HashSet<(usize, usize, Vec<It>)> = HashSet::new();
    for _ in 0..16 {
        if rep.violations.iter().any(|v| v.prop == p.prop) {
            return;
        }
        let mut next = vec![];
        for (k, ke, e, items, log) in &seeds {
            let JobLog::Log(l) = log else { continue };
            let run = logp::parse(l);
            let LRes::Syn(_, exp) = &run.res else { continue };
            let at = run.pulls().saturating_sub(1).min(items.len());
            for t in 0..cases[*k].g.terms.len() {
                let n = judge::esc(&cases[*k].g.terms[t].name);
                if !exp.contains(&n) {
                    continue;
                }
                for tail in [&items[items.len()..], &items[at..], &items[(at + 1).min(items.len())..]] {
                    let mut v = items[..at].to_vec();
                    v.push(It::Tok(t));
                    v.extend(tail);
                    if seen.insert((*k, *ke, v.clone())) {
                        next.push((*k, *ke, *e, v));
                    }
                }
            }
        }
        next.truncate(600);
        if next.is_empty() {
            return;
        }
        let jobs: Vec<Job> = next
            .iter()
            .map(|n| Job {
                items: n.3.clone(),
                ..Job::default()
            })
            .collect();
        let lines: Vec<String> = next
            .iter()
            .zip(&jobs)
            .map(|((k, ke, _, v), j)| job_line(*k, *ke, j, (v.len() as u64 + 8) * 400))
            .collect();
        let logs = run::run_jobs(env, bin, name, &lines, 8 << 20, Duration::from_secs(30));
        seeds.clear();
        for (((k, ke, e, v), j), log) in next.into_iter().zip(&jobs).zip(logs) {
            rep.stats.add("runs that follow a departing parser", 1);
            judge_one(&cases[k], ke, e, j, &log, &mods[k], &mut cover, rep, hs[k]);
            seeds.push((k, ke, e, v, log));
        }
    }
}

pub fn standard(env: &Env, seed: u64, p: &Profile) -> Report {
    let t0 = Instant::now();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut ids: Vec<usize> = (0..p.chunks).collect();
    // the large grammars first: they take longest
    let big: Vec<usize> = (0..p.large).map(|k| 1_000_000 + k).collect();
    ids.splice(0..0, big);
    let reps = run::parallel(&ids, |_, id| {
        if stop.load(std::sync::atomic::Ordering::Relaxed) || t0.elapsed() > p.deadline {
            let mut r = Report::default();
            r.stats.add("chunks not started (time)", 1);
            return r;
        }
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(*id as u64) ^ hash(&p.prop));
        let mut cases = vec![];
        let mut jobs = vec![];
        if *id >= 1_000_000 {
            // keep only those of the wanted kind
            let sk = gen::large(&mut r, *id - 1_000_000 + seed as usize);
            let mut c = finish_case(&mut r, sk, p);
            c.g.family = "large";
            if wanted(p.want, &c.g, &c.lr) {
                cases.push(c);
            } else if p.want != Want::Sr && p.want != Want::Rr {
                run::die(&format!("large grammar is not of the wanted kind: {}", c.lr.conflicts.sample));
            }
        } else {
            for _ in 0..p.chunk {
                cases.push(make_case(&mut r, p));
            }
        }
        for c in &cases {
            let es = c.g.entries();
            let mut v = vec![];
            let many = es.len();
            for (ke, e) in es.iter().enumerate() {
                let b = (p.inputs / many).max(20);
                for j in jobs_for(&mut r, p, c, *e, b) {
                    v.push((ke, *e, j));
                }
            }
            jobs.push(v);
        }
        if cases.is_empty() {
            return Report::default();
        }
        let rep = run_cases(env, &format!("c{}", id), &cases, &jobs, p);
        if rep.violations.iter().filter(|v| v.prop == p.prop).count() > 0 {
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        rep
    });
    let mut rep = Report::default();
    for r in reps {
        rep.merge(r);
    }
    rep
}

/// Rename the module of a program text
pub fn module_as(src: &str, name: &str) -> String {
    match (src.strip_prefix("mod "), src.find(" {")) {
        (Some(_), Some(k)) => format!("mod {}{}", name, &src[k..]),
        _ => src.to_string(),
    }
}
