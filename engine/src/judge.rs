//! The offline monitors: compare a recorded run with what must have happened

use crate::gram::*;
use crate::logp::*;
use crate::lr::{Ev, Lr, Verdict};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum It {
    Tok(usize),
    Err(u32),
    Panic,
}

#[derive(Clone, Debug, Default)]
pub struct Job {
    pub items: Vec<It>,
    pub panic_at_act: Option<u64>,
    /// what the iterator's `size_hint` says, see the runtime
    pub hint: u8,
}

#[derive(Clone, Debug)]
pub enum XEv {
    Pull,
    Act {
        p: u32,
        binds: Vec<(u32, Vec<u32>)>,
        out: Vec<u32>,
        pass: bool,
    },
}

/// What the reference says happens
pub struct Expect {
    pub evs: Vec<XEv>,
    pub verdict: Verdict,
    /// terminals that could have followed, for a syntax error
    pub expected: Vec<usize>,
    pub root: Vec<u32>,
    pub n_acts: usize,
}

pub const NT_ID_BASE: u32 = 1 << 26;

pub fn token_ids(g: &Gram, i: usize, t: usize) -> Vec<u32> {
    (0..g.terms[t].fields.len()).map(|f| (i as u32 + 1) * 8 + f as u32).collect()
}

fn chosen_ids(g: &Gram, i: usize, t: usize) -> Vec<u32> {
    g.terms[t].chosen().map(|f| (i as u32 + 1) * 8 + f as u32).collect()
}

pub fn expect(
    g: &Gram,
    lr: &Lr,
    entry: usize,
    items: &[It],
    cover: Option<&mut std::collections::HashSet<u64>>,
) -> Option<Expect> {
    // a panicking iterator ends the run; look at the prefix as if it were an Err
    let seq: Vec<Option<usize>> = items
        .iter()
        .map(|i| match i {
            It::Tok(t) => Some(*t),
            _ => None,
        })
        .collect();
    let (evs, verdict, expected) = lr.run(entry, &seq, 200 * (items.len() + 2) * (g.n_prods() + 2), cover)?;
    let mut stack: Vec<Vec<u32>> = vec![];
    let mut pos = 0usize;
    let mut first = true;
    let mut next = NT_ID_BASE;
    let mut out = vec![];
    let mut n_acts = 0;
    // production id -> (nt, index)
    let mut by_id = vec![(0, 0); g.n_prods()];
    for (n, nt) in g.nts.iter().enumerate() {
        for (k, p) in nt.prods.iter().enumerate() {
            by_id[p.id as usize] = (n, k);
        }
    }
    for e in evs {
        match e {
            Ev::Pull => {
                if !first {
                    // the previous look-ahead was shifted
                    if let Some(Some(t)) = seq.get(pos) {
                        stack.push(chosen_ids(g, pos, *t));
                    }
                    pos += 1;
                }
                first = false;
                out.push(XEv::Pull);
            }
            Ev::Act(id) => {
                n_acts += 1;
                let (n, k) = by_id[id as usize];
                let p = &g.nts[n].prods[k];
                let args = stack.split_off(stack.len() - p.syms.len());
                let binds: Vec<(u32, Vec<u32>)> = p
                    .binds
                    .iter()
                    .enumerate()
                    .filter(|(_, b)| b.is_some())
                    .map(|(k, _)| (k as u32, args[k].clone()))
                    .collect();
                let v: Vec<u32> = match p.pass {
                    Some(k) => args[k].clone(),
                    None => {
                        let c = g.nts[n].ty.ids as u32;
                        next += c;
                        (next - c..next).collect()
                    }
                };
                stack.push(v.clone());
                out.push(XEv::Act {
                    p: id,
                    binds,
                    out: v,
                    pass: p.pass.is_some(),
                });
            }
        }
    }
    let root = if verdict == Verdict::Accept {
        stack.pop().unwrap()
    } else {
        vec![]
    };
    Some(Expect {
        evs: out,
        verdict,
        expected,
        root,
        n_acts,
    })
}

pub struct Finding {
    pub prop: &'static str,
    pub msg: String,
}

pub struct Class {
    pub conflict_free: bool,
    pub reduced: bool,
}

pub fn esc(s: &str) -> String {
    s.chars().flat_map(|c| c.escape_default()).collect()
}

fn norm_binds(b: &[(u32, Vec<u32>)]) -> Vec<(u32, Vec<u32>)> {
    let mut b = b.to_vec();
    b.sort();
    b
}

/// Replays recorded actions as a reversed rightmost derivation. Token positions may be
/// consumed only once they have been pulled. True if it yields exactly the input.
pub fn replay_derives(g: &Gram, entry: usize, items: &[It], run: &Run) -> Result<(), String> {
    // The recorded actions say which productions, in order; tokens are shifted as needed.
    // Reduction k applies to the top of the stack: the right-hand side must be there. Shifts
    // are forced: shift until the suffix matches; with the sequence of reductions fixed the
    // number of shifts before each is determined by the total yield, computed bottom-up.
    let mut by_id = vec![None; g.n_prods()];
    for (n, nt) in g.nts.iter().enumerate() {
        for (k, p) in nt.prods.iter().enumerate() {
            by_id[p.id as usize] = Some((n, k));
        }
    }
    // Rightmost derivation: expand from the start symbol, last action first
    let acts: Vec<u32> = run.acts().collect();
    let mut right: Vec<usize> = vec![]; // tokens derived, reversed
    let mut stack: Vec<Sym> = vec![Sym::N(entry)];
    let mut k = acts.len();
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => right.push(t),
            Sym::N(n) => {
                if k == 0 {
                    return Err(format!("no action left for {}", g.nts[n].name));
                }
                k -= 1;
                match by_id.get(acts[k] as usize).copied().flatten() {
                    Some((m, p)) if m == n => {
                        // rightmost first: push left to right, pop from the right
                        for s in &g.nts[m].prods[p].syms {
                            stack.push(*s);
                        }
                    }
                    _ => {
                        return Err(format!(
                            "action {} is not one of {} where the derivation needs it",
                            acts[k], g.nts[n].name
                        ))
                    }
                }
            }
        }
    }
    if k != 0 {
        return Err(format!("{} actions are not part of the derivation", k));
    }
    right.reverse();
    let toks: Vec<usize> = items
        .iter()
        .map(|i| match i {
            It::Tok(t) => *t,
            _ => usize::MAX,
        })
        .collect();
    if right != toks {
        return Err("the derived token sequence is not the input".into());
    }
    Ok(())
}

fn terminals(g: &Gram, ts: &[usize]) -> String {
    ts.iter().map(|t| g.terms[*t].name.as_str()).collect::<Vec<_>>().join(", ")
}

/// `in_language`: membership according to Earley (for inputs without Err items)
pub fn judge(
    g: &Gram,
    cl: &Class,
    entry: usize,
    job: &Job,
    x: &Expect,
    in_language: Option<bool>,
    run: &Run,
    out: &mut Vec<Finding>,
) {
    let fault = job.panic_at_act.is_some() || job.items.contains(&It::Panic);
    let mut f = |prop: &'static str, msg: String| out.push(Finding { prop, msg });
    ledger(g, &job.items, run, &mut f);
    match &run.res {
        LRes::Crash(m) => {
            for p in ["C16", "C17"] {
                f(p, format!("the program died while parsing: {}", m));
            }
        }
        LRes::Hang => f("C16", "parse does not return".into()),
        LRes::Limit => f(
            "C16",
            format!("does not end: more actions or pulls than the {} actions and {} items there are", x.n_acts, job.items.len() + 1),
        ),
        LRes::Panic(m) => f("C16", format!("panic: {}", m)),
        LRes::Injected if !fault => f("C16", "unexpected injected panic".into()),
        _ => {}
    }
    // events after the end
    if run.evs.contains(&LEv::Over) {
        f("C09", "the iterator is polled again after it returned None or an Err".into());
    }
    // C09: look-ahead of one. Shifts so far are known from the reference action sequence.
    let xacts: Vec<(usize, &XEv)> = {
        let mut pulls = 0;
        let mut v = vec![];
        for e in &x.evs {
            match e {
                XEv::Pull => pulls += 1,
                e => v.push((pulls, e)),
            }
        }
        v
    };
    let xp: Vec<u32> = xacts
        .iter()
        .map(|(_, e)| match e {
            XEv::Act { p, .. } => *p,
            _ => unreachable!(),
        })
        .collect();
    let op: Vec<u32> = run.acts().collect();
    let same = xp.iter().zip(&op).take_while(|(a, b)| a == b).count();
    {
        let mut pulls = 0;
        let mut k = 0;
        for e in &run.evs {
            match e {
                LEv::Next(_) | LEv::NextErr(_) | LEv::End => pulls += 1,
                LEv::Act { p, .. } => {
                    if k < same && pulls > xacts[k].0 {
                        f(
                            "C09",
                            format!(
                                "{} items had been pulled when action {} ran, {} tokens shifted",
                                pulls,
                                p,
                                xacts[k].0 - 1
                            ),
                        );
                        break;
                    }
                    k += 1;
                }
                _ => {}
            }
        }
    }
    if fault {
        // what happened before the fault must be a prefix of the reference
        if same < op.len() && (cl.conflict_free) {
            f("C03", format!("actions {:?} before the fault, expected a prefix of {:?}", op, xp));
        }
        return;
    }
    let xpulls = x.evs.iter().filter(|e| matches!(e, XEv::Pull)).count();
    let pulls = run.pulls();
    let seq_differs = xp != op;

    if !cl.conflict_free {
        // C12: shift precedence
        if seq_differs {
            f("C12", format!("reductions {:?}, with shift precedence they are {:?}", op, xp));
        }
        let agree = match (&x.verdict, &run.res) {
            (Verdict::Accept, LRes::Ok(_)) => true,
            (Verdict::Error(p), LRes::Syn(..)) => pulls == p + 1,
            (Verdict::Lex(p), LRes::Lex(_)) => pulls == p + 1,
            _ => false,
        };
        if !agree {
            f("C12", format!("result {:?} after {} pulls, with shift precedence {:?}", run.res, pulls, x.verdict));
        }
    } else if seq_differs {
        f("C03", format!("actions {:?}, expected {:?}", op, xp));
    }

    // values
    let mut vals_ok = true;
    {
        let mut k = 0;
        for e in &run.evs {
            if let LEv::Act { p, binds, out: o } = e {
                if k >= same {
                    break;
                }
                let XEv::Act { binds: xb, out: xo, pass, .. } = xacts[k].1 else { unreachable!() };
                let b = norm_binds(binds);
                if &b != xb {
                    vals_ok = false;
                    f("C04", format!("action {} (the {}th) got {:?}, its symbols' values are {:?}", p, k, b, xb));
                    let tok = b.iter().zip(xb).any(|(a, b)| a != b && b.1.iter().any(|i| *i < NT_ID_BASE));
                    if tok {
                        f("C05", format!("action {} got {:?}, its symbols' values are {:?}", p, b, xb));
                    }
                    break;
                }
                if *pass && o != xo {
                    f("C04", format!("action {} handed on {:?} instead of {:?}", p, o, xo));
                    break;
                }
                k += 1;
            }
        }
    }
    if let (Verdict::Accept, LRes::Ok(r)) = (&x.verdict, &run.res) {
        // the root's value: of the last action that ran
        if vals_ok && !seq_differs && *r != x.root {
            f("C04", format!("parse returned {:?}, the root's value is {:?}", r, x.root));
        }
    }
    if let (Verdict::Accept, LRes::Panic(m)) = (&x.verdict, &run.res) {
        f("C04", format!("no value is returned for a sentence, panic: {}", m));
    }

    // C01
    if let LRes::Ok(_) = run.res {
        if in_language == Some(false) {
            f("C01", "Ok for an input that is not in the language".into());
        } else if let Err(m) = replay_derives(g, entry, &job.items, run) {
            f("C01", format!("the actions are no derivation of the input: {}", m));
        }
        if pulls != job.items.len() + 1 {
            f("C01", format!("Ok after {} of {} pulls", pulls, job.items.len() + 1));
        }
    }
    // C02
    if cl.conflict_free && in_language == Some(true) && !matches!(run.res, LRes::Ok(_)) {
        f("C02", format!("a sentence is not accepted: {:?}", run.res));
    }
    // C06, C07
    if cl.conflict_free && cl.reduced {
        match (&x.verdict, &run.res) {
            (Verdict::Accept, LRes::Ok(_)) => {}
            (Verdict::Accept, r) => f("C06", format!("every token can continue, but the result is {:?}", r)),
            (Verdict::Error(p), LRes::Syn(..)) => {
                if pulls != p + 1 {
                    f("C06", format!("syntax error reported at item {}, item {} is the first that cannot continue", pulls as i64 - 1, p));
                } else if seq_differs && op.len() > xp.len() && same == xp.len() {
                    f("C06", format!("actions {:?} ran on the strength of the offending item", &op[same..]));
                }
            }
            (Verdict::Error(p), r) => f("C06", format!("item {} cannot continue, but the result is {:?}", p, r)),
            _ => {}
        }
    }
    if let LRes::Syn(found, exp) = &run.res {
        let at = pulls.wrapping_sub(1);
        let want = match job.items.get(at) {
            Some(It::Tok(t)) => Some(esc(&g.terms[*t].name)),
            None => Some("end-of-input".to_string()),
            _ => None,
        };
        if let Some(w) = want {
            if *found != w {
                f("C07", format!("found {:?}, the offending item is {:?}", found, w));
            }
        }
        if cl.conflict_free && cl.reduced && matches!(x.verdict, Verdict::Error(p) if p == at) {
            let w = esc(&terminals(g, &x.expected));
            if *exp != w {
                f("C07", format!("expected is {:?}, exactly {:?} can follow", exp, w));
            }
        }
    } else if cl.conflict_free && cl.reduced && matches!(x.verdict, Verdict::Error(_)) {
        f("C07", format!("no syntax error is reported: {:?}", run.res));
    }
    // C08
    if let Verdict::Lex(p) = x.verdict {
        let It::Err(code) = job.items[p] else { unreachable!() };
        if run.res != LRes::Lex(code) {
            f("C08", format!("result {:?} instead of the lexer error {} at item {}", run.res, code, p));
        } else {
            if pulls != p + 1 {
                f("C08", format!("{} pulls for a lexer error at item {}", pulls, p));
            }
            if seq_differs {
                f("C08", format!("actions {:?}, before the lexer error {:?}", op, xp));
            }
        }
    } else if let LRes::Lex(c) = run.res {
        f("C08", format!("lexer error {} reported, the result should be {:?}", c, x.verdict));
    }
    // C09 totals
    match run.res {
        LRes::Ok(_) if pulls != job.items.len() + 1 => {
            f("C09", format!("{} pulls on success, there are {} tokens", pulls, job.items.len()))
        }
        LRes::Syn(..) if matches!(x.verdict, Verdict::Error(_)) && pulls != xpulls => {
            f("C09", format!("{} pulls at a syntax error at item {}", pulls, xpulls - 1))
        }
        LRes::Lex(_) if matches!(x.verdict, Verdict::Lex(_)) && pulls != xpulls => {
            f("C09", format!("{} pulls at a lexer error at item {}", pulls, xpulls - 1))
        }
        _ => {}
    }
    // C16: linear work is the reference's number of actions
    if op.len() > x.n_acts * 2 + 16 {
        f("C16", format!("{} actions, the input needs {}", op.len(), x.n_acts));
    }
}

/// C17: conservation of values
fn ledger(g: &Gram, items: &[It], run: &Run, f: &mut impl FnMut(&'static str, String)) {
    use std::collections::HashMap;
    if matches!(run.res, LRes::Crash(_) | LRes::Hang) {
        return;
    }
    let mut created: HashMap<u32, usize> = HashMap::new();
    let mut dropped: HashMap<u32, usize> = HashMap::new();
    let mut moved: HashMap<u32, u32> = HashMap::new();
    for (k, e) in run.evs.iter().enumerate() {
        match e {
            LEv::Next(i) => {
                if let Some(It::Tok(t)) = items.get(*i as usize) {
                    for id in token_ids(g, *i as usize, *t) {
                        created.insert(id, k);
                    }
                }
            }
            LEv::Act { p, binds, out } => {
                for (_, ids) in binds {
                    for id in ids {
                        if out.contains(id) {
                            continue; // handed on
                        }
                        if let Some(q) = moved.insert(*id, *p) {
                            f("C17", format!("value {} was given to action {} and to action {}", id, q, p));
                        }
                    }
                }
                for id in out {
                    created.entry(*id).or_insert(k);
                }
            }
            LEv::Drop(id) => {
                if let Some(_) = dropped.insert(*id, k) {
                    f("C17", format!("value {} was dropped twice", id));
                }
            }
            _ => {}
        }
    }
    if run.summary.is_some() {
        if run.alive != 0 {
            f("C17", format!("{} values still alive at the end", run.alive));
        }
        return;
    }
    let result: Vec<u32> = match &run.res {
        LRes::Ok(ids) => ids.clone(),
        _ => vec![],
    };
    let mut ids: Vec<u32> = created.keys().copied().collect();
    ids.sort();
    for id in ids {
        match dropped.get(&id) {
            None => f("C17", format!("value {} is never dropped", id)),
            Some(at) => {
                if *at >= run.res_at && !result.contains(&id) {
                    f("C17", format!("value {} outlives parse without being returned", id));
                } else if *at < run.res_at && result.contains(&id) {
                    f("C17", format!("value {} was returned after it was dropped", id));
                }
            }
        }
    }
    for id in dropped.keys() {
        // a fresh value of an action that then panicked has no action line; there are none
        if !created.contains_key(id) {
            f("C17", format!("value {} was dropped but never given", id));
        }
    }
    if run.alive != 0 {
        f("C17", format!("{} values still alive at the end", run.alive));
    }
}
