//! Workloads and oracles that are not the standard one

use crate::gen;
use crate::json;
use crate::judge;
use crate::lr::Lr;
use crate::pats::World;
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Compiled, Env, JobLog, Opts};
use crate::work::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// Run chunks of work on all cores until done, out of time or something was found
pub fn chunks(
    env: &Env,
    prop: &'static str,
    seed: u64,
    n: usize,
    deadline: Duration,
    f: impl Fn(&Env, usize, &mut Rng) -> Report + Sync,
) -> Report {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let ids: Vec<usize> = (0..n).collect();
    let reps = run::parallel(&ids, |_, id| {
        if stop.load(Ordering::Relaxed) || t0.elapsed() > deadline {
            let mut r = Report::default();
            r.stats.add("chunks not started (time)", 1);
            return r;
        }
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(*id as u64) ^ hash(&prop));
        let rep = f(env, *id, &mut r);
        if rep.violations.iter().any(|v| v.prop == prop) {
            stop.store(true, Ordering::Relaxed);
        }
        rep
    });
    let mut rep = Report::default();
    for r in reps {
        rep.merge(r);
    }
    rep
}

pub fn violation(prop: &'static str, key: u64, size: usize, msg: String, detail: String, job: &str, program: &str) -> Violation {
    Violation {
        prop,
        key: format!("{:x}", key),
        size,
        detail: format!(
            "property: {}\nobserved: {}\n\n{}\n=== job\n{}\n=== program\n{}",
            prop,
            msg,
            detail,
            job,
            module_as(program, "m0")
        ),
        msg,
    }
}

// ---------------------------------------------------------------------------------------------
// C05: token classification

pub fn patterns(env: &Env, id: usize, r: &mut Rng, n: usize, forbid_unsafe: bool, run_it: bool) -> Report {
    let mut rep = Report::default();
    let mut worlds = vec![];
    let mut mods = vec![];
    for k in 0..n {
        let w = World::random(r);
        let only = r.below(w.terms.len());
        mods.push(w.module(r, &format!("m{}", k), only, forbid_unsafe));
        worlds.push((w, only));
    }
    let o = Opts {
        metadata_only: !run_it,
        edition: if run_it { "2021" } else { *r.pick(&["2018", "2021", "2024"]) },
        ..Opts::default()
    };
    let seed = hash(&mods.first());
    match run::some_profile(&mut mods, seed) {
        1 => rep.stats.add("programs compiled without debug assertions and overflow checks", 1),
        2 => rep.stats.add("programs compiled with optimisation", 1),
        _ => {}
    }
    let b = run::build(env, &format!("p{}", id), &mods, &o);
    let st = &mut rep.stats;
    for (k, (w, _)) in worlds.iter().enumerate() {
        st.add("token types", 1);
        st.add("patterns", w.terms.len() as u64);
        if w.lifetimes > 0 {
            st.add("token types with lifetimes", 1);
        }
        if w.alias {
            st.add("token types that are aliases", 1);
        }
        match &b.results[k] {
            Compiled::Yes => st.add("token types compiled", 1),
            Compiled::Undecided => st.add("not decided: the compiler did not finish", 1),
            c => {
                for prop in ["C11", "C05"] {
                    rep.violations.push(violation(
                        prop,
                        hash(&mods[k]),
                        mods[k].len(),
                        format!("a grammar with well-formed token patterns does not compile: {:?}", c),
                        String::new(),
                        "",
                        &mods[k],
                    ));
                }
            }
        }
    }
    let (true, Some(bin)) = (run_it, b.bin) else { return rep };
    // jobs
    let mut lines = vec![];
    let mut refs: Vec<(usize, usize, Vec<usize>)> = vec![];
    for (k, (w, _)) in worlds.iter().enumerate() {
        if !b.results[k].ok() {
            continue;
        }
        for v in 0..w.values.len() {
            refs.push((k, 1, vec![v]));
            if r.pct(30) {
                refs.push((k, 0, vec![v]));
            }
        }
        for _ in 0..w.values.len() / 2 {
            refs.push((k, 0, (0..r.range(2, 12)).map(|_| r.below(w.values.len())).collect()));
        }
    }
    for (k, e, vs) in &refs {
        lines.push(format!(
            "{} {} l1000 {}",
            k,
            e,
            vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
        ));
    }
    let logs = run::run_jobs(env, &bin, &format!("p{}", id), &lines, 8 << 20, Duration::from_secs(60));
    let _ = std::fs::remove_file(&bin);
    for (((k, e, vs), log), line) in refs.iter().zip(&logs).zip(&lines) {
        let (w, only) = &worlds[*k];
        let st = &mut rep.stats;
        if *log == JobLog::Skipped {
            st.add("skipped", 1);
            continue;
        }
        st.add("runs", 1);
        let mut want: Vec<String> = vec![];
        let mut res = String::from("R ok ");
        for (i, v) in vs.iter().enumerate() {
            let (t, parts) = w.classify(&w.values[*v]);
            st.add("tokens classified", 1);
            st.distinct.insert(hash(&(format!("{:?}", w.terms), &w.terms[t].0, *v)));
            if *e == 0 {
                let d = if w.terms[t].2 { w.dbg_chosen(&parts, i as u32) } else { "\"unbound\"".into() };
                if w.terms[t].2 {
                    st.add("payload parts compared", parts.len() as u64);
                }
                want.push(format!("c {} {}", t, judge::esc(&d)));
            } else if t != *only {
                res = format!(
                    "R pe {}\t{}",
                    judge::esc(&w.terms[t].0),
                    judge::esc(&w.terms[*only].0)
                );
            }
        }
        want.push(res);
        let got: Vec<String> = match log {
            JobLog::Log(l) => l
                .lines()
                .filter(|l| l.starts_with("c ") || l.starts_with("R "))
                .map(|l| l.to_string())
                .collect(),
            o => vec![format!("{:?}", o)],
        };
        if st.samples.len() < 2 && vs.len() > 2 {
            st.samples.push(json::obj(vec![
                ("patterns", format!("{:?}", w.terms.iter().map(|t| &t.1).collect::<Vec<_>>()).into()),
                ("tokens", format!("{:?}", vs.iter().map(|v| &w.values[*v]).collect::<Vec<_>>()).into()),
                ("observed", got.join("; ").into()),
            ]));
        }
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let msg = format!(
                "token {}: observed {:?}, the first matching pattern gives {:?}",
                at,
                got.get(at).map_or("nothing", |s| s),
                want.get(at).map_or("nothing", |s| s)
            );
            rep.violations.push(violation(
                "C05",
                hash(&(&mods[*k], vs)),
                w.terms.len() * 4 + vs.len(),
                msg,
                format!(
                    "tokens: {:?}\nexpected notes:\n{}\nobserved:\n{}",
                    vs.iter().map(|v| &w.values[*v]).collect::<Vec<_>>(),
                    want.join("\n"),
                    got.join("\n")
                ),
                &line.replacen(&k.to_string(), "0", 1),
                &mods[*k],
            ));
        }
    }
    rep
}

// ---------------------------------------------------------------------------------------------
// C10: reduce/reduce conflicts

/// From here on, the numbers of large cases are those of conflicts that are far apart
pub const FAR: usize = 1 << 40;

fn rr_case(r: &mut Rng, p: &Profile, big: Option<usize>) -> Case {
    let want_cells = *r.pick(&[1, 1, 1, 2, 4, 1000]);
    let mut best: Option<(usize, gen::Sk)> = None;
    for k in 0..600 {
        let mut sk = match big {
            Some(kind) if kind >= FAR => gen::far(r, kind),
            Some(kind) => gen::large(r, kind),
            None => match r.below(10) {
                0 | 1 => gen::rr(r),
                2 => gen::random(r),
                3 => gen::ambiguous(r),
                4 => gen::tiny(r),
                _ => skeleton(r, &[2, 4, 6, 0, 1, 0, 0]),
            },
        };
        let far = big.is_some_and(|k| k >= FAR);
        if !far && (big.is_some() || r.pct(60)) {
            gen::inject(r, &mut sk);
        }
        if big.is_some() && !far {
            sk.family = "large, injected";
        }
        if sk.n_terms == 0 {
            continue;
        }
        let g = gen::plain(&sk);
        let Some(lr) = Lr::build(&g, p.max_states.max(if big.is_some() { 2000 } else { 0 })) else { continue };
        let n = lr.conflicts.rr;
        if n == 0 {
            continue;
        }
        if best.as_ref().is_none_or(|b| n < b.0) {
            best = Some((n, sk));
        }
        if best.as_ref().is_some_and(|b| b.0 <= want_cells) || k > 200 || big.is_some() && k > 5 {
            break;
        }
    }
    match best {
        Some((_, sk)) => finish_case(r, sk, p),
        None => rr_case(r, p, None),
    }
}

fn rr_tags(c: &Case) -> Vec<&'static str> {
    let mut t = vec![];
    let g = &c.g;
    let prod = |id: u32| {
        let (n, k) = g.prod_by_id(id).unwrap();
        (n, &g.nts[n].prods[k])
    };
    let cells = &c.lr.conflicts.cells;
    let eof = g.terms.len();
    if cells.iter().all(|c| c.1 == eof) {
        t.push("only at the end of the input");
    }
    if cells.iter().all(|c| c.1 == eof - 1) {
        t.push("only on the last declared terminal");
    }
    if cells.iter().all(|c| c.1 == 0) {
        t.push("only on the first declared terminal");
    }
    if cells.iter().all(|c| c.2.is_none() || c.3.is_none()) {
        t.push("only with the end of an entry point's parse");
    }
    if cells.iter().all(|c| c.0 > 255) {
        t.push("only in states after the 256th");
    }
    let both: Vec<_> = cells
        .iter()
        .filter_map(|c| Some((prod(c.2?), prod(c.3?))))
        .collect();
    if !both.is_empty() && both.len() == cells.len() {
        if both.iter().all(|(a, b)| a.0 == b.0) {
            t.push("only within one non-terminal");
        } else {
            t.push("between non-terminals");
        }
        if both.iter().all(|(a, b)| a.1.syms.is_empty() && b.1.syms.is_empty()) {
            t.push("only between empty productions");
        }
        if both.iter().all(|(a, b)| a.1.syms.is_empty() != b.1.syms.is_empty()) {
            t.push("only between an empty and a non-empty production");
        }
        if both.iter().all(|(a, b)| a.1.syms == b.1.syms) {
            t.push("only between equal right-hand sides");
        }
        if both.iter().all(|(a, b)| a.1.syms.len() != b.1.syms.len()) {
            t.push("only between right-hand sides of different lengths");
        }
    }
    if c.lr.conflicts.sr > 0 {
        t.push("together with shift/reduce conflicts");
    }
    if c.lr.conflicts.rr == 1 {
        t.push("in a single cell");
    }
    if g.entries().len() > 1 {
        t.push("with several entry points");
    }
    t
}

pub fn reduce_reduce(env: &Env, id: usize, r: &mut Rng, n: usize, p: &Profile, big: bool) -> Report {
    let mut rep = Report::default();
    let cases: Vec<Case> = if big {
        vec![rr_case(r, p, Some(id))]
    } else {
        (0..n).map(|_| rr_case(r, p, None)).collect()
    };
    let mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let o = Opts {
        metadata_only: true,
        edition: *r.pick(&["2018", "2021", "2024"]),
        ..Opts::default()
    };
    let b = run::build(env, &format!("r{}{}", id, if big { "b" } else { "" }), &mods, &o);
    for (k, c) in cases.iter().enumerate() {
        let st = &mut rep.stats;
        st.add("grammars with a reduce/reduce conflict", 1);
        st.add(&format!("family {}", c.g.family), 1);
        for t in rr_tags(c) {
            st.add(&format!("conflict {}", t), 1);
        }
        st.max("reference LR(1) states of a grammar", c.lr.n_states() as u64);
        st.distinct.insert(hash(&c.g.show()));
        if st.samples.len() < 2 {
            st.samples.push(json::obj(vec![
                ("grammar", c.g.show().into()),
                ("conflict", c.lr.conflicts.sample.clone().into()),
                ("observed", format!("{:?}", b.results[k]).into()),
            ]));
        }
        match &b.results[k] {
            Compiled::Yes => {
                let msg = format!("a grammar with a reduce/reduce conflict is accepted: {}", c.lr.conflicts.sample);
                rep.violations.push(violation(
                    "C10",
                    hash(&c.g.show()),
                    c.g.size(),
                    msg,
                    format!("grammar: {}", c.g.show()),
                    "",
                    &mods[k],
                ));
            }
            Compiled::No(m) => {
                st.add("refused", 1);
                // what it was refused with, for the record
                if !m.contains("macro panicked") {
                    st.add("refused with an error of another kind than a panic of the macro", 1);
                }
            }
            Compiled::Hang | Compiled::Undecided => st.add("not decided: the compiler did not finish", 1),
            Compiled::Crash(_) => st.add("refused", 1),
        }
    }
    rep
}

// ---------------------------------------------------------------------------------------------
// C11: well-formed grammars compile

pub fn compile_only(env: &Env, id: usize, r: &mut Rng, cases: Vec<Case>, tag: &str) -> Report {
    let mut rep = Report::default();
    let mods: Vec<String> = cases
        .iter()
        .enumerate()
        .map(|(k, c)| render::module(&c.g, &c.style, &format!("m{}", k)))
        .collect();
    let o = Opts {
        metadata_only: true,
        edition: *r.pick(&["2018", "2021", "2024"]),
        wall: Duration::from_secs(400),
        ..Opts::default()
    };
    let b = run::build(env, &format!("w{}{}", tag, id), &mods, &o);
    for (k, c) in cases.iter().enumerate() {
        let st = &mut rep.stats;
        st.add("grammars", 1);
        st.add(&format!("compiled for edition {}", o.edition), 1);
        features(c, st);
        st.distinct.insert(hash(&mods[k]));
        if st.samples.len() < 2 {
            st.samples.push(json::obj(vec![
                ("grammar", c.g.show().into()),
                ("observed", format!("{:?}", b.results[k]).into()),
            ]));
        }
        match &b.results[k] {
            Compiled::Yes => st.add("grammars compiled", 1),
            Compiled::Undecided => st.add("not decided: the compiler did not finish", 1),
            Compiled::Hang if tag == "h" => st.add("not decided: the compiler did not finish", 1),
            x => {
                let msg = format!("a well-formed conflict-free grammar does not compile: {:?}", x);
                rep.violations.push(violation(
                    "C11",
                    hash(&c.g.show()),
                    c.g.size(),
                    msg,
                    format!("edition {}\ngrammar: {}", o.edition, c.g.show()),
                    "",
                    &mods[k],
                ));
            }
        }
    }
    rep
}

/// Many non-terminals with a type of its own each
pub fn many_types(env: &Env, id: usize, r: &mut Rng) -> Report {
    let mut rep = Report::default();
    let n = r.range(330, 400);
    let mut s = String::from("mod m0 {\n#![allow(warnings)]\n#[derive(Debug, Clone, Copy)] pub struct Code<const N: u64>;\n");
    s += "#[derive(Debug)] pub enum Token { A, B, C }\n";
    s += "parsegen::parser! {\nenum Token { \"a\" => Token::A, \"b\" => Token::B, \"c\" => Token::C }\n";
    let ty = |r: &mut Rng| match r.below(3) {
        0 => format!("Code<0x{:x}>", r.next()),
        1 => format!("Option<Code<{}>>", r.next()),
        _ => format!("Code<{}>", r.below(1 << 20)),
    };
    let mut value = String::from("Code");
    s += "pub S: u8 = { N0 => 0 };\n";
    for k in 0..n {
        let t = ty(r);
        value.clear();
        value += if t.starts_with("Option") { "Some(Code)" } else { "Code" };
        let next = if k + 1 < n { format!("<x:N{}>", k + 1) } else { String::new() };
        s += &format!("N{}: {} = {{ \"{}\" {} => {}, \"c\" => {} }};\n", k, t, if k % 2 == 0 { "a" } else { "b" }, next, value, value);
    }
    s += "}\npub const ENTRIES: &[::pgrt::Entry] = &[];\n}\n";
    let o = Opts {
        metadata_only: true,
        ..Opts::default()
    };
    let b = run::build(env, &format!("t{}", id), &[s.clone()], &o);
    rep.stats.add("grammars", 1);
    rep.stats.max("types of one grammar", n as u64);
    rep.stats.distinct.insert(hash(&s));
    match &b.results[0] {
        Compiled::Yes => rep.stats.add("grammars compiled", 1),
        Compiled::Undecided | Compiled::Hang => rep.stats.add("not decided: the compiler did not finish", 1),
        x => rep.violations.push(violation(
            "C11",
            hash(&s),
            1000,
            format!("a grammar of {} non-terminals, each of its own type, does not compile: {:?}", n, x),
            String::new(),
            "",
            &s,
        )),
    }
    rep
}

pub fn wellformed(env: &Env, id: usize, r: &mut Rng, n: usize, p: &Profile) -> Report {
    let cases = (0..n).map(|_| make_case(r, p)).collect();
    compile_only(env, id, r, cases, "")
}

pub fn wellformed_large(env: &Env, id: usize, r: &mut Rng, kind: usize, huge: bool, p: &Profile) -> Report {
    let sk = if huge { gen::huge(r, kind) } else { gen::large(r, kind) };
    let mut c = finish_case(r, sk, p);
    c.g.family = if huge { "huge" } else { "large" };
    if !wanted(p.want, &c.g, &c.lr) {
        run::die(&format!("large grammar is not of the wanted kind: {}", c.lr.conflicts.sample));
    }
    compile_only(env, id, r, vec![c], if huge { "h" } else { "l" })
}
