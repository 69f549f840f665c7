//! Workload generator: grammars and inputs

use crate::gram::*;
use crate::lr::Lr;
use crate::prng::Rng;
use std::collections::HashMap;

/// Bare grammar: symbols only
#[derive(Clone, Debug)]
pub struct Sk {
    pub n_terms: usize,
    pub nts: Vec<Vec<Vec<Sym>>>,
    pub public: Vec<bool>,
    pub family: &'static str,
}

use Sym::{N as SN, T as ST};

impl Sk {
    fn new(family: &'static str) -> Sk {
        Sk {
            n_terms: 0,
            nts: vec![],
            public: vec![],
            family,
        }
    }
    fn nt(&mut self) -> usize {
        self.nts.push(vec![]);
        self.public.push(false);
        self.nts.len() - 1
    }
    fn t(&mut self) -> Sym {
        self.n_terms += 1;
        ST(self.n_terms - 1)
    }
    fn p(&mut self, n: usize, syms: Vec<Sym>) {
        self.nts[n].push(syms);
    }
}

// ---------------------------------------------------------------------------------------------
// Families

/// Unrestricted random grammar
pub fn random(r: &mut Rng) -> Sk {
    let mut g = Sk::new("random");
    let m = if r.pct(20) { 7 } else { 4 };
    let nn = r.range(1, m);
    let m = if r.pct(20) { 7 } else { 4 };
    g.n_terms = r.range(1, m);
    let p_t = r.range(35, 75);
    let p_stop = r.range(25, 60);
    let max_rhs = if r.pct(10) { 9 } else { 4 };
    for _ in 0..nn {
        g.nt();
    }
    for i in 0..nn {
        let np = if r.pct(3) { 0 } else { 1 + r.weighted(&[4, 5, 3, 1]) };
        for _ in 0..np {
            let mut p = vec![];
            while p.len() < max_rhs && !r.pct(p_stop) {
                p.push(if r.pct(p_t) {
                    ST(r.below(g.n_terms))
                } else {
                    SN(r.below(nn))
                });
            }
            g.p(i, p);
        }
    }
    publish(r, &mut g);
    g
}

/// Every production of a non-terminal starts with a terminal of its own (or is the one
/// empty production): mostly conflict free, rich in FOLLOW interplay
pub fn lead(r: &mut Rng) -> Sk {
    let mut g = Sk::new("lead");
    let nn = r.range(1, 6);
    g.n_terms = r.range(2, 7);
    for _ in 0..nn {
        g.nt();
    }
    let p_t = r.range(25, 60);
    let p_stop = r.range(25, 50);
    for i in 0..nn {
        let mut ts: Vec<usize> = (0..g.n_terms).collect();
        r.shuffle(&mut ts);
        let np = r.range(1, 3.min(g.n_terms));
        for k in 0..np {
            let mut p = vec![];
            if r.pct(15) && i + 1 < nn {
                p.push(SN(r.range(i + 1, nn - 1)));
            }
            p.push(ST(ts[k]));
            while p.len() < 6 && !r.pct(p_stop) {
                p.push(if r.pct(p_t) {
                    ST(r.below(g.n_terms))
                } else {
                    SN(r.below(nn))
                });
            }
            g.p(i, p);
        }
        if r.pct(50) {
            let at = r.below(g.nts[i].len() + 1);
            g.nts[i].insert(at, vec![]);
        }
    }
    publish(r, &mut g);
    g
}

fn publish(r: &mut Rng, g: &mut Sk) {
    let n = g.nts.len();
    g.public[r.below(n)] = true;
    for i in 0..n {
        if r.pct(15) {
            g.public[i] = true;
        }
    }
}

/// Builds a non-terminal that generates something; composed of templates
fn piece(r: &mut Rng, g: &mut Sk, depth: usize, pool: &mut Vec<usize>) -> Sym {
    if depth == 0 {
        if !pool.is_empty() && r.pct(25) {
            return SN(*r.pick(pool));
        }
        if g.n_terms > 0 && r.pct(45) {
            return ST(r.below(g.n_terms));
        }
        return g.t();
    }
    let n = g.nt();
    // references back to enclosing pieces become possible
    if r.pct(30) {
        pool.push(n);
    }
    let d = depth - 1;
    match r.below(24) {
        // left recursive list
        0 => {
            let e = piece(r, g, d, pool);
            g.p(n, vec![SN(n), e]);
            if r.pct(50) {
                g.p(n, vec![]);
            } else {
                g.p(n, vec![e]);
            }
        }
        // right recursive list
        1 => {
            let e = piece(r, g, d, pool);
            g.p(n, vec![e, SN(n)]);
            if r.pct(50) {
                g.p(n, vec![]);
            } else {
                g.p(n, vec![e]);
            }
        }
        // separated list, with optional trailing separator
        2 => {
            let e = piece(r, g, d, pool);
            let s = g.t();
            let l = g.nt();
            g.p(l, vec![e]);
            if r.pct(50) {
                g.p(l, vec![SN(l), s, e]);
            } else {
                g.p(l, vec![e, s, SN(l)]);
            }
            g.p(n, vec![SN(l)]);
            if r.pct(40) {
                g.p(n, vec![]);
            }
            if r.pct(40) {
                g.p(n, vec![SN(l), s]);
            }
        }
        // bracketed
        3 => {
            let e = piece(r, g, d, pool);
            let (o, c) = (g.t(), g.t());
            g.p(n, vec![o, e, c]);
            if r.pct(40) {
                g.p(n, vec![o, c]);
            }
        }
        // optional
        4 => {
            let e = piece(r, g, d, pool);
            g.p(n, vec![e]);
            g.p(n, vec![]);
        }
        // expression tower
        5 | 6 => {
            let levels = r.range(1, 3);
            let atom = g.nt();
            let mut below = SN(atom);
            let mut top = n;
            for l in 0..levels {
                let me = if l + 1 == levels { n } else { g.nt() };
                let ops = r.range(1, 2);
                for _ in 0..ops {
                    let op = g.t();
                    if r.pct(60) {
                        g.p(me, vec![SN(me), op, below]);
                    } else {
                        g.p(me, vec![below, op, SN(me)]);
                    }
                    if r.pct(70) {
                        break;
                    }
                }
                if r.pct(20) {
                    let op = g.t();
                    g.p(me, vec![op, SN(me)]);
                }
                g.p(me, vec![below]);
                below = SN(me);
                top = me;
            }
            let e = piece(r, g, d, pool);
            g.p(atom, vec![e]);
            let (o, c) = (g.t(), g.t());
            g.p(atom, vec![o, SN(top), c]);
        }
        // alternatives
        7 | 8 => {
            for _ in 0..r.range(2, 4) {
                let a = piece(r, g, d, pool);
                let mut p = vec![a];
                if r.pct(60) {
                    p.insert(0, g.t());
                }
                if r.pct(30) {
                    p.push(g.t());
                }
                g.p(n, p);
            }
        }
        // sequence
        9 | 10 => {
            let mut p = vec![];
            for _ in 0..r.range(2, 4) {
                p.push(piece(r, g, d, pool));
            }
            g.p(n, p);
        }
        // chain of optionals: nullable prefixes, middles, suffixes
        11 | 12 => {
            let mut p = vec![];
            for _ in 0..r.range(2, 4) {
                let o = g.nt();
                let e = if r.pct(70) { g.t() } else { piece(r, g, d, pool) };
                g.p(o, vec![e]);
                if r.pct(30) {
                    g.p(o, vec![SN(o), e]);
                    g.nts[o][0] = vec![];
                } else {
                    g.p(o, vec![]);
                }
                // nullable through a chain
                if r.pct(30) {
                    let w = g.nt();
                    g.p(w, vec![SN(o)]);
                    p.push(SN(w));
                } else {
                    p.push(SN(o));
                }
            }
            if r.pct(60) {
                p.push(piece(r, g, d, pool));
            }
            if r.pct(30) {
                let t = g.t();
                p.insert(0, t);
            }
            g.p(n, p);
        }
        // unit chain
        13 => {
            let mut m = n;
            for _ in 0..r.range(1, 4) {
                let k = g.nt();
                g.p(m, vec![SN(k)]);
                if r.pct(30) {
                    let t = g.t();
                    g.p(m, vec![t, SN(m)]);
                }
                m = k;
            }
            let e = piece(r, g, d, pool);
            g.p(m, vec![e]);
        }
        // LR(1) but not LALR(1):  a E c | a F d | b F c | b E d ; E = e ; F = e
        14 | 15 => {
            let (a, b, c, dd) = (g.t(), g.t(), g.t(), g.t());
            let e = if r.pct(50) { g.t() } else { piece(r, g, d.min(1), pool) };
            let (ee, ff) = (g.nt(), g.nt());
            g.p(ee, vec![e]);
            g.p(ff, vec![e]);
            g.p(n, vec![a, SN(ee), c]);
            g.p(n, vec![a, SN(ff), dd]);
            g.p(n, vec![b, SN(ff), c]);
            g.p(n, vec![b, SN(ee), dd]);
            if r.pct(50) {
                let x = g.t();
                g.p(ee, vec![SN(ee), x]);
            }
        }
        // context decides through the look-ahead between nullable pieces
        16 => {
            let (a, b, c) = (g.t(), g.t(), g.t());
            let (x, y) = (g.nt(), g.nt());
            g.p(x, vec![]);
            g.p(y, vec![]);
            if r.pct(50) {
                let t = g.t();
                g.p(x, vec![t, SN(x)]);
            }
            g.p(n, vec![SN(x), a]);
            g.p(n, vec![SN(y), b]);
            if r.pct(50) {
                g.p(n, vec![c, SN(y), a]);
                g.p(n, vec![c, SN(x), b]);
            }
        }
        // palindrome with a centre mark
        17 => {
            let (a, b, m) = (g.t(), g.t(), g.t());
            g.p(n, vec![a, SN(n), a]);
            g.p(n, vec![b, SN(n), b]);
            g.p(n, vec![m]);
        }
        // mutual recursion
        18 => {
            let k = g.nt();
            let (a, b) = (g.t(), g.t());
            let e = piece(r, g, d, pool);
            g.p(n, vec![SN(k), a]);
            g.p(n, vec![e]);
            g.p(k, vec![SN(n), b]);
            if r.pct(50) {
                let t = g.t();
                g.p(k, vec![t]);
            }
        }
        // statements
        19 => {
            let (semi, eq, id) = (g.t(), g.t(), g.t());
            let e = piece(r, g, d, pool);
            let st = g.nt();
            g.p(st, vec![id, eq, e, semi]);
            let (o, c) = (g.t(), g.t());
            g.p(st, vec![o, SN(n), c]);
            if r.pct(50) {
                g.p(st, vec![semi]);
            }
            g.p(n, vec![]);
            if r.pct(50) {
                g.p(n, vec![SN(n), SN(st)]);
            } else {
                g.p(n, vec![SN(st), SN(n)]);
            }
        }
        // calls and indexing: postfix operators
        20 => {
            let e = piece(r, g, d, pool);
            let (o, c, dot) = (g.t(), g.t(), g.t());
            g.p(n, vec![e]);
            g.p(n, vec![SN(n), dot, e]);
            g.p(n, vec![SN(n), o, SN(n), c]);
            if r.pct(50) {
                g.p(n, vec![SN(n), o, c]);
            }
        }
        // what a symbol derives is known only at the end of a chain
        21 | 22 => {
            let k = r.range(2, 8);
            let mut chain: Vec<usize> = (0..k).map(|_| g.nt()).collect();
            if r.pct(30) {
                chain.reverse();
            } else if r.pct(20) {
                r.shuffle(&mut chain);
            }
            let (a, b) = (g.t(), g.t());
            for i in 0..k - 1 {
                let next = SN(chain[i + 1]);
                match r.below(8) {
                    // conjunction of nullable symbols
                    0 => {
                        let o = g.nt();
                        g.p(o, vec![]);
                        g.p(chain[i], vec![SN(o), next]);
                    }
                    1 => {
                        let o = g.nt();
                        g.p(o, vec![]);
                        g.p(chain[i], vec![next, SN(o)]);
                    }
                    2 => {
                        let t = g.t();
                        g.p(chain[i], vec![t]);
                        g.p(chain[i], vec![next]);
                    }
                    _ => g.p(chain[i], vec![next]),
                }
            }
            if r.pct(70) {
                g.p(chain[k - 1], vec![]);
            }
            if g.nts[chain[k - 1]].is_empty() || r.pct(30) {
                let e = piece(r, g, d, pool);
                let t = g.t();
                g.p(chain[k - 1], vec![t, e]);
            }
            let first = SN(chain[0]);
            let x = g.nt();
            g.p(x, vec![a]);
            match r.below(4) {
                0 => g.p(n, vec![SN(x), first, b]),
                1 => g.p(n, vec![first, b]),
                2 => g.p(n, vec![SN(x), first]),
                _ => {
                    g.p(n, vec![SN(x), first, SN(x)]);
                }
            }
        }
        // long production
        _ => {
            let mut p = vec![];
            for _ in 0..r.range(4, 12) {
                p.push(if r.pct(60) {
                    g.t()
                } else if !pool.is_empty() && r.pct(30) {
                    SN(*r.pick(pool))
                } else {
                    piece(r, g, d.min(1), pool)
                });
            }
            g.p(n, p);
            if r.pct(50) {
                g.p(n, vec![]);
            }
        }
    }
    SN(n)
}

pub fn composed(r: &mut Rng) -> Sk {
    let mut g = Sk::new("composed");
    let mut pool = vec![];
    let depth = r.range(1, 3);
    let top = piece(r, &mut g, depth, &mut pool);
    if let SN(n) = top {
        g.public[n] = true;
    }
    // sometimes a second entry point that uses parts of the first
    if r.pct(30) {
        let n = r.below(g.nts.len());
        g.public[n] = true;
    }
    if r.pct(15) {
        let mut pool = (0..g.nts.len()).collect();
        if let SN(n) = piece(r, &mut g, 2, &mut pool) {
            g.public[n] = true;
        }
    }
    merge_terms(r, &mut g);
    // order of declarations
    let n = g.nts.len();
    if r.pct(50) {
        let mut p: Vec<usize> = (0..n).rev().collect();
        if r.pct(50) {
            r.shuffle(&mut p);
        }
        permute_nts(&mut g, &p);
    }
    g
}

/// Identify some terminals, so that look-ahead sets overlap
fn merge_terms(r: &mut Rng, g: &mut Sk) {
    let n = g.n_terms;
    if n < 3 || r.pct(40) {
        return;
    }
    let mut map: Vec<usize> = (0..n).collect();
    for _ in 0..r.range(1, n / 3 + 1) {
        let (a, b) = (r.below(n), r.below(n));
        let (a, b) = (map[a], map[b]);
        for m in &mut map {
            if *m == a {
                *m = b;
            }
        }
    }
    let mut names: HashMap<usize, usize> = HashMap::new();
    for t in 0..n {
        let k = names.len();
        names.entry(map[t]).or_insert(k);
    }
    for ps in &mut g.nts {
        for p in ps {
            for s in p {
                if let ST(t) = s {
                    *t = names[&map[*t]];
                }
            }
        }
    }
    g.n_terms = names.len();
}

/// Make some productions long: blocks of 4 to 40 more symbols, mostly terminals
pub fn stretch(r: &mut Rng, g: &mut Sk) {
    let all: Vec<(usize, usize)> = (0..g.nts.len())
        .flat_map(|n| (0..g.nts[n].len()).map(move |k| (n, k)))
        .collect();
    if all.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 2) {
        let (n, k) = *r.pick(&all);
        let len = match r.below(10) {
            0 => r.range(20, 40),
            1..=3 => r.range(4, 7),
            _ => r.range(7, 18),
        };
        let fresh: Vec<Sym> = (0..r.range(1, 3)).map(|_| g.t()).collect();
        let old: Vec<Sym> = g.nts[n][k].clone();
        let mix = r.pct(30);
        let block: Vec<Sym> = (0..len)
            .map(|i| {
                if i > 0 && mix && !old.is_empty() && r.pct(30) {
                    *r.pick(&old)
                } else {
                    *r.pick(&fresh)
                }
            })
            .collect();
        let at = match r.below(3) {
            0 => old.len(),
            1 => 0,
            _ => r.below(old.len() + 1),
        };
        g.nts[n][k].splice(at..at, block);
    }
}

pub fn mutate(r: &mut Rng, g: &mut Sk) {
    for _ in 0..r.range(1, 3) {
        let n = r.below(g.nts.len());
        if g.nts[n].is_empty() {
            g.p(n, vec![]);
        }
        let np = g.nts[n].len();
        let k = r.below(np);
        let sym = |r: &mut Rng, g: &Sk| {
            if g.n_terms > 0 && r.pct(60) {
                ST(r.below(g.n_terms))
            } else {
                SN(r.below(g.nts.len()))
            }
        };
        match r.below(9) {
            0 => {
                let s = sym(r, g);
                let at = r.below(g.nts[n][k].len() + 1);
                g.nts[n][k].insert(at, s);
            }
            1 => {
                if !g.nts[n][k].is_empty() {
                    let at = r.below(g.nts[n][k].len());
                    g.nts[n][k].remove(at);
                }
            }
            2 => {
                if !g.nts[n][k].is_empty() {
                    let at = r.below(g.nts[n][k].len());
                    g.nts[n][k][at] = sym(r, g);
                }
            }
            3 => {
                if !g.nts[n].contains(&vec![]) {
                    g.p(n, vec![]);
                }
            }
            4 => {
                if np > 1 {
                    g.nts[n].remove(k);
                }
            }
            5 => {
                let m = r.below(g.nts.len());
                if let Some(p) = g.nts[m].first().cloned() {
                    g.p(n, p);
                }
            }
            6 => g.nts[n].swap(k, 0),
            7 => {
                let m = r.below(g.nts.len());
                g.public[m] = !g.public[m];
                if !g.public.contains(&true) {
                    g.public[m] = true;
                }
            }
            _ => merge_terms(r, g),
        }
    }
    g.family = "mutated";
}

/// Grammars with shift/reduce conflicts, of the kinds users write
pub fn ambiguous(r: &mut Rng) -> Sk {
    let mut g = Sk::new("ambiguous");
    match r.below(5) {
        // dangling else
        0 => {
            let s = g.nt();
            let (i, c, t, e, x) = (g.t(), g.t(), g.t(), g.t(), g.t());
            g.p(s, vec![i, c, t, SN(s)]);
            g.p(s, vec![i, c, t, SN(s), e, SN(s)]);
            g.p(s, vec![x]);
            if r.pct(50) {
                g.nts[s].swap(0, 1);
            }
            g.public[s] = true;
        }
        // ambiguous binary operators
        1 => {
            let s = g.nt();
            let x = g.t();
            for _ in 0..r.range(1, 3) {
                let o = g.t();
                g.p(s, vec![SN(s), o, SN(s)]);
            }
            g.p(s, vec![x]);
            if r.pct(40) {
                let m = g.t();
                g.p(s, vec![m, SN(s)]);
            }
            if r.pct(40) {
                let m = g.t();
                g.p(s, vec![SN(s), m]);
            }
            g.public[s] = true;
        }
        // optional else part
        2 => {
            let (s, o) = (g.nt(), g.nt());
            let (i, e, x) = (g.t(), g.t(), g.t());
            g.p(s, vec![i, SN(s), SN(o)]);
            g.p(s, vec![x]);
            g.p(o, vec![e, SN(s)]);
            g.p(o, vec![]);
            if r.pct(50) {
                g.nts[o].swap(0, 1);
            }
            g.public[s] = true;
        }
        // greedy lists
        3 => {
            let (s, l) = (g.nt(), g.nt());
            let (x, y) = (g.t(), g.t());
            g.p(s, vec![SN(l), SN(l)]);
            if r.pct(50) {
                g.p(l, vec![x, SN(l)]);
                g.p(l, vec![x]);
            } else {
                g.p(l, vec![x, SN(l)]);
                g.p(l, vec![y]);
                g.p(l, vec![x]);
            }
            g.public[s] = true;
        }
        // needs two tokens of look-ahead
        _ => {
            let (s, a) = (g.nt(), g.nt());
            let (x, y, z) = (g.t(), g.t(), g.t());
            g.p(s, vec![SN(a), y, z]);
            g.p(s, vec![x, y, y]);
            g.p(a, vec![x]);
            if r.pct(50) {
                g.nts[s].swap(0, 1);
            }
            g.public[s] = true;
        }
    }
    if r.pct(50) {
        // embed
        let t = g.nt();
        let inner = g.public.iter().position(|x| *x).unwrap();
        let (o, c) = (g.t(), g.t());
        g.p(t, vec![o, SN(inner), c]);
        if r.pct(50) {
            g.p(t, vec![SN(t), SN(t)]);
        }
        g.public[t] = true;
        if r.pct(60) {
            g.public[inner] = false;
        }
    }
    if r.pct(40) {
        let n = g.nts.len();
        let p: Vec<usize> = {
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            p
        };
        permute_nts(&mut g, &p);
    }
    if r.pct(30) {
        mutate(r, &mut g);
        g.family = "ambiguous";
    }
    g
}

/// Add productions that continue others: where the added terminal can follow, this is a
/// shift/reduce conflict
pub fn continue_some(r: &mut Rng, g: &mut Sk) {
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let n = r.below(g.nts.len());
        if g.nts[n].is_empty() {
            continue;
        }
        let k = r.below(g.nts[n].len());
        let mut p = g.nts[n][k].clone();
        if p.len() > 6 {
            continue;
        }
        p.push(ST(r.below(g.n_terms)));
        for _ in 0..r.below(3) {
            p.push(if r.pct(50) { ST(r.below(g.n_terms)) } else { SN(r.below(g.nts.len())) });
        }
        if r.pct(80) {
            g.nts[n].push(p);
        } else {
            let m = r.below(g.nts.len());
            g.nts[m].push(p);
        }
    }
}

/// Grammars with reduce/reduce conflicts of many kinds
pub fn rr(r: &mut Rng) -> Sk {
    let mut g = Sk::new("reduce-reduce");
    match r.below(7) {
        // the same right-hand side in two non-terminals
        0 => {
            let (s, a, b) = (g.nt(), g.nt(), g.nt());
            let x = g.t();
            g.p(s, vec![SN(a)]);
            g.p(s, vec![SN(b)]);
            g.p(a, vec![x]);
            g.p(b, vec![x]);
            g.public[s] = true;
        }
        // two nullable alternatives
        1 => {
            let (s, a, b) = (g.nt(), g.nt(), g.nt());
            let (x, y) = (g.t(), g.t());
            g.p(s, vec![SN(a), x]);
            g.p(s, vec![SN(b), x]);
            g.p(s, vec![y]);
            g.p(a, vec![]);
            g.p(b, vec![]);
            g.public[s] = true;
        }
        // duplicate production
        2 => {
            let s = g.nt();
            let x = g.t();
            g.p(s, vec![x]);
            g.p(s, vec![x]);
            g.public[s] = true;
        }
        // unit cycle
        3 => {
            let (s, a) = (g.nt(), g.nt());
            let x = g.t();
            g.p(s, vec![SN(a)]);
            g.p(a, vec![SN(s)]);
            g.p(a, vec![x]);
            g.public[s] = true;
        }
        // accept against reduce
        4 => {
            let s = g.nt();
            let x = g.t();
            g.p(s, vec![SN(s)]);
            g.p(s, vec![x]);
            if r.pct(50) {
                g.nts[s].swap(0, 1);
            }
            g.public[s] = true;
        }
        // conflict only in one of two contexts
        5 => {
            let (s, e, f) = (g.nt(), g.nt(), g.nt());
            let (a, b, c, d, x) = (g.t(), g.t(), g.t(), g.t(), g.t());
            g.p(s, vec![a, SN(e), c]);
            g.p(s, vec![a, SN(f), d]);
            g.p(s, vec![b, SN(f), c]);
            g.p(s, vec![b, SN(e), c]);
            g.p(e, vec![x]);
            g.p(f, vec![x]);
            g.public[s] = true;
        }
        // only at the end of the input, or only on the last declared terminal
        _ => {
            let (s, e, f) = (g.nt(), g.nt(), g.nt());
            let (x, y, z) = (g.t(), g.t(), g.t());
            g.p(s, vec![SN(e)]);
            g.p(s, vec![SN(f)]);
            g.p(s, vec![SN(e), y]);
            g.p(s, vec![SN(f), z]);
            g.p(e, vec![x]);
            g.p(f, vec![x]);
            g.public[s] = true;
        }
    }
    let inner = g.public.iter().position(|x| *x).unwrap();
    if r.pct(60) {
        let t = g.nt();
        let (o, c) = (g.t(), g.t());
        g.p(t, vec![o, SN(inner), c]);
        if r.pct(50) {
            g.p(t, vec![c, SN(t)]);
        }
        g.public[t] = true;
        g.public[inner] = false;
    }
    if r.pct(50) {
        // hide it in a bigger grammar
        let mut pool = (0..g.nts.len()).collect();
        let n = piece(r, &mut g, 2, &mut pool);
        if let SN(n) = n {
            g.public[n] = true;
        }
    }
    if r.pct(50) {
        let n = g.nts.len();
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        permute_nts(&mut g, &p);
    }
    g.family = "reduce-reduce";
    g
}

/// Add productions that may compete with existing ones in few places: a copy of (some
/// productions of) a non-terminal, used in a variant of one production
pub fn inject(r: &mut Rng, g: &mut Sk) {
    let uses: Vec<(usize, usize, usize)> = g
        .nts
        .iter()
        .enumerate()
        .flat_map(|(n, ps)| ps.iter().enumerate().map(move |(k, p)| (n, k, p)))
        .flat_map(|(n, k, p)| {
            p.iter()
                .enumerate()
                .filter(|(_, s)| matches!(s, SN(_)))
                .map(move |(i, _)| (n, k, i))
        })
        .collect();
    match r.below(if uses.is_empty() { 1 } else { 9 }) {
        // inline a production of a non-terminal where it is used, with its end (perhaps
        // nothing) as a non-terminal of its own
        5..=7 => {
            let (n, k, i) = *r.pick(&uses);
            let SN(m) = g.nts[n][k][i] else { unreachable!() };
            if g.nts[m].is_empty() {
                return;
            }
            let mut q = r.pick(&g.nts[m]).clone();
            let j = if r.pct(40) { q.len() } else { r.below(q.len() + 1) };
            let tail = q.split_off(j);
            let x = g.nt();
            g.p(x, tail);
            if r.pct(25) {
                let t = g.t();
                g.p(x, vec![t]);
            }
            q.push(SN(x));
            let mut p = g.nts[n][k].clone();
            p.splice(i..i + 1, q);
            let at = r.below(g.nts[n].len() + 1);
            g.nts[n].insert(at, p);
        }
        // a production again, or one that a unit production makes redundant
        0 => {
            let n = r.below(g.nts.len());
            if !g.nts[n].is_empty() {
                let p = r.pick(&g.nts[n]).clone();
                let at = r.below(g.nts[n].len() + 1);
                g.nts[n].insert(at, p);
            }
        }
        // inline a production of a non-terminal where it is used
        1 => {
            let (n, k, i) = *r.pick(&uses);
            let SN(m) = g.nts[n][k][i] else { unreachable!() };
            if g.nts[m].is_empty() {
                return;
            }
            let q = r.pick(&g.nts[m]).clone();
            let mut p = g.nts[n][k].clone();
            p.splice(i..i + 1, q);
            let at = r.below(g.nts[n].len() + 1);
            g.nts[n].insert(at, p);
        }
        _ => {
            let (n, k, i) = *r.pick(&uses);
            let SN(m) = g.nts[n][k][i] else { unreachable!() };
            let x = g.nt();
            let all = r.pct(30);
            for q in g.nts[m].clone() {
                if all || r.pct(50) {
                    g.p(x, q);
                }
            }
            if g.nts[x].is_empty() {
                let q = g.nts[m].first().cloned().unwrap_or_default();
                g.p(x, q);
            }
            let mut p = g.nts[n][k].clone();
            p[i] = SN(x);
            if r.pct(50) && !g.nts.is_empty() {
                // with another context behind it
                p.truncate(i + 1);
                if r.pct(60) {
                    let t = if r.pct(50) { g.t() } else { ST(r.below(g.n_terms)) };
                    p.push(t);
                }
            }
            let at = r.below(g.nts[n].len() + 1);
            g.nts[n].insert(at, p);
        }
    }
    g.family = "injected";
}

/// Non-terminal i moves to position p[i]
pub fn permute_nts(g: &mut Sk, p: &[usize]) {
    let n = g.nts.len();
    let mut nts = vec![vec![]; n];
    let mut public = vec![false; n];
    for i in 0..n {
        nts[p[i]] = g.nts[i]
            .iter()
            .map(|q| {
                q.iter()
                    .map(|s| match s {
                        SN(m) => SN(p[*m]),
                        t => *t,
                    })
                    .collect()
            })
            .collect();
        public[p[i]] = g.public[i];
    }
    g.nts = nts;
    g.public = public;
}

/// Many layers, each of which mentions the next one (or the one behind it) several times: whatever
/// follows all ways through the grammar takes exponential time. The automaton can be small or
/// exponential as well, that is for the caller to find out
pub fn layered(r: &mut Rng) -> Sk {
    let mut g = Sk::new("layered");
    let n = r.range(28, 44);
    for _ in 0..=n {
        g.nt();
    }
    let ts: Vec<Sym> = (0..r.range(1, 4)).map(|_| g.t()).collect();
    // 0: the next layer, 1: the one after it, 2: the top, 3..: terminals
    let mut alts: Vec<Vec<usize>> = vec![];
    let mut mentions = 0;
    while mentions < 2 || (alts.len() < 2 && r.pct(50)) {
        let mut a = vec![];
        for _ in 0..r.range(1, 4) {
            let k = r.weighted(&[8, 3, if n % 7 == 0 { 1 } else { 0 }, 7]);
            a.push(if k == 3 { 3 + r.below(ts.len()) } else { k });
        }
        mentions += a.iter().filter(|k| **k < 2).count();
        // a terminal of its own keeps the automaton small
        if r.pct(60) {
            let at = *r.pick(&[0, a.len()]);
            a.insert(at, 3 + alts.len() % ts.len());
        }
        alts.push(a);
    }
    for i in 0..n {
        for a in &alts {
            let p = a
                .iter()
                .map(|k| match k {
                    0 => SN(i + 1),
                    1 => SN((i + 2).min(n)),
                    2 => SN(0),
                    k => ts[k - 3],
                })
                .collect();
            g.p(i, p);
        }
        if r.pct(3) {
            g.p(i, if r.pct(50) { vec![] } else { vec![ts[0]] });
        }
    }
    let last = match r.below(4) {
        0 => vec![],
        1 => vec![SN(0)],
        2 => vec![SN(n)],
        _ => {
            let t = g.t();
            vec![t]
        }
    };
    g.p(n, last);
    g.public[0] = true;
    if r.pct(30) {
        g.public[n / 2] = true;
    }
    if r.pct(50) {
        let mut p: Vec<usize> = (0..=n).collect();
        match r.below(2) {
            0 => p.reverse(),
            _ => r.shuffle(&mut p),
        }
        permute_nts(&mut g, &p);
    }
    g
}

/// Big along one dimension, past the sizes at which narrow integers overflow
/// Number of kinds of large grammars
pub const LARGE: usize = 11;

pub fn large(r: &mut Rng, kind: usize) -> Sk {
    let mut g = Sk::new("large");
    match kind % LARGE {
        // many terminals, in one non-terminal
        0 => {
            let s = g.nt();
            let n = r.range(257, 290);
            for _ in 0..n {
                let t = g.t();
                g.p(s, vec![t]);
            }
            g.public[s] = true;
        }
        // many terminals, each followed by its own second one (many states)
        1 => {
            let (s, l) = (g.nt(), g.nt());
            let n = r.range(155, 200);
            let ts: Vec<Sym> = (0..n).map(|_| g.t()).collect();
            for k in 0..n {
                g.p(s, vec![ts[k], ts[(k * 7 + 3) % n], ts[(k * 5 + 1) % n]]);
            }
            g.p(l, vec![SN(s)]);
            g.public[l] = true;
        }
        // many non-terminals: a chain with a choice at each step
        2 => {
            let n = r.range(258, 275);
            let x = g.t();
            let y = g.t();
            for _ in 0..n {
                g.nt();
            }
            for i in 0..n {
                if i + 1 < n {
                    g.p(i, vec![x, SN(i + 1)]);
                }
                if i % 3 == 0 || i + 1 == n {
                    g.p(i, vec![y]);
                }
            }
            g.public[0] = true;
            g.public[n - 2] = true;
        }
        // many productions over several non-terminals
        3 => {
            let ts: Vec<Sym> = (0..20).map(|_| g.t()).collect();
            let s = g.nt();
            for a in 0..20 {
                let m = g.nt();
                g.p(s, vec![ts[a], SN(m)]);
                for b in 0..14 {
                    g.p(m, vec![ts[b]]);
                }
            }
            g.public[s] = true;
        }
        // long right-hand side
        4 => {
            let (s, a, e) = (g.nt(), g.nt(), g.nt());
            let (x, y) = (g.t(), g.t());
            let n = r.range(257, 300);
            let p = (0..n)
                .map(|i| match i % 5 {
                    0 => x,
                    1 => SN(e),
                    2 => SN(a),
                    3 => y,
                    _ => x,
                })
                .collect();
            g.p(s, p);
            g.p(a, vec![x, y]);
            g.p(a, vec![y]);
            g.p(e, vec![]);
            g.public[s] = true;
        }
        // many entry points
        5 => {
            let (e, x) = (g.nt(), g.t());
            g.p(e, vec![x]);
            let o = g.t();
            g.p(e, vec![SN(e), o, x]);
            for i in 0..r.range(20, 40) {
                let n = g.nt();
                let t = g.t();
                g.p(n, vec![t, SN(e)]);
                if i % 2 == 0 {
                    g.p(n, vec![SN(e), t, SN(e)]);
                }
                g.public[n] = true;
            }
            g.public[e] = true;
        }
        // deep expression tower
        6 => {
            let n = r.range(12, 20);
            let atom = g.nt();
            let (x, o, c) = (g.t(), g.t(), g.t());
            let mut below = atom;
            for k in 0..n {
                let me = g.nt();
                let op = g.t();
                if k % 2 == 0 {
                    g.p(me, vec![SN(me), op, SN(below)]);
                } else {
                    g.p(me, vec![SN(below), op, SN(me)]);
                }
                g.p(me, vec![SN(below)]);
                below = me;
            }
            g.p(atom, vec![x]);
            g.p(atom, vec![o, SN(below), c]);
            g.public[below] = true;
        }
        // many states by contexts: every pair (bracket, separator) its own list
        7 => {
            let s = g.nt();
            let x = g.t();
            for _ in 0..r.range(25, 32) {
                let (o, c, sep) = (g.t(), g.t(), g.t());
                let l = g.nt();
                g.p(l, vec![x]);
                g.p(l, vec![SN(l), sep, x]);
                g.p(s, vec![o, SN(l), c]);
                if r.pct(30) {
                    g.p(s, vec![o, c]);
                }
            }
            g.public[s] = true;
        }
        // more than 1024 states
        9 => {
            let s = g.nt();
            let n = r.range(25, 26);
            let ts: Vec<Sym> = (0..n).map(|_| g.t()).collect();
            for i in 0..n {
                for j in 0..n {
                    g.p(s, vec![ts[i], ts[j], ts[(i * 3 + j * 7) % n]]);
                }
            }
            g.public[s] = true;
        }
        // many non-terminals with the same production, told apart by what follows
        10 => {
            let s = g.nt();
            let x = g.t();
            for _ in 0..r.range(258, 272) {
                let (n, t) = (g.nt(), g.t());
                g.p(n, vec![x]);
                g.p(s, vec![SN(n), t]);
            }
            g.public[s] = true;
        }
        // a long row of optionals: nullable everywhere
        _ => {
            let s = g.nt();
            let n = r.range(14, 22);
            let mut p = vec![];
            for _ in 0..n {
                let o = g.nt();
                let t = g.t();
                g.p(o, vec![t]);
                g.p(o, vec![]);
                p.push(SN(o));
            }
            g.p(s, p);
            g.public[s] = true;
        }
    }
    g
}

/// A reduce/reduce conflict in one cell, between non-terminals or productions whose numbers are
/// far apart, by a round number more often than not
pub fn far(r: &mut Rng, k: usize) -> Sk {
    let mut g = Sk::new("far apart");
    let d = match k % 7 {
        0 => 256,
        1 => 128,
        2 => 64,
        3 => 32,
        4 => 16,
        5 => 100,
        _ => r.range(20, 270),
    };
    let n = d + r.range(2, 12);
    let i = r.below(n - d);
    let x = g.t();
    let s = g.nt();
    if r.pct(50) {
        let mut ts = vec![];
        for _ in 0..n {
            let (n, t) = (g.nt(), g.t());
            g.p(n, vec![x]);
            ts.push((n, t));
        }
        for k in 0..n {
            let t = if k == i + d { ts[i].1 } else { ts[k].1 };
            g.p(s, vec![SN(ts[k].0), t]);
        }
    } else {
        let (a, b) = (g.nt(), g.t());
        for k in 0..n {
            let t = g.t();
            g.p(a, vec![if k == i || k == i + d { x } else { t }]);
        }
        g.p(s, vec![SN(a), b]);
        if r.pct(50) {
            g.p(s, vec![b]);
        }
    }
    g.public[s] = true;
    g
}

/// Larger than `large`, for the thorough runs
pub fn huge(r: &mut Rng, kind: usize) -> Sk {
    let mut g = Sk::new("huge");
    match kind % 6 {
        0 => {
            let s = g.nt();
            for _ in 0..r.range(700, 1100) {
                let t = g.t();
                g.p(s, vec![t]);
            }
            g.public[s] = true;
        }
        1 => {
            let (s, l) = (g.nt(), g.nt());
            let n = r.range(260, 330);
            let ts: Vec<Sym> = (0..n).map(|_| g.t()).collect();
            for k in 0..n {
                g.p(s, vec![ts[k], ts[(k * 7 + 3) % n], ts[(k * 5 + 1) % n]]);
            }
            g.p(l, vec![SN(s)]);
            g.public[l] = true;
        }
        2 => {
            let n = r.range(500, 700);
            let (x, y) = (g.t(), g.t());
            for _ in 0..n {
                g.nt();
            }
            for i in 0..n {
                if i + 1 < n {
                    g.p(i, vec![x, SN(i + 1)]);
                }
                if i % 3 == 0 || i + 1 == n {
                    g.p(i, vec![y]);
                }
            }
            g.public[0] = true;
        }
        3 => {
            let ts: Vec<Sym> = (0..60).map(|_| g.t()).collect();
            let s = g.nt();
            for a in 0..60 {
                let m = g.nt();
                g.p(s, vec![ts[a], SN(m)]);
                for b in 0..25 {
                    g.p(m, vec![ts[b]]);
                }
            }
            g.public[s] = true;
        }
        4 => {
            let (s, a, e) = (g.nt(), g.nt(), g.nt());
            let (x, y) = (g.t(), g.t());
            let p = (0..r.range(700, 1200))
                .map(|i| match i % 5 {
                    0 => x,
                    1 => SN(e),
                    2 => SN(a),
                    3 => y,
                    _ => x,
                })
                .collect();
            g.p(s, p);
            g.p(a, vec![x, y]);
            g.p(a, vec![y]);
            g.p(e, vec![]);
            g.public[s] = true;
        }
        _ => {
            let n = r.range(30, 45);
            let atom = g.nt();
            let (x, o, c) = (g.t(), g.t(), g.t());
            let mut below = atom;
            for k in 0..n {
                let me = g.nt();
                let op = g.t();
                if k % 2 == 0 {
                    g.p(me, vec![SN(me), op, SN(below)]);
                } else {
                    g.p(me, vec![SN(below), op, SN(me)]);
                }
                g.p(me, vec![SN(below)]);
                below = me;
            }
            g.p(atom, vec![x]);
            g.p(atom, vec![o, SN(below), c]);
            g.public[below] = true;
        }
    }
    g
}

/// All small grammars over two non-terminals and two terminals: pick the k-th
pub fn tiny(r: &mut Rng) -> Sk {
    let mut g = Sk::new("tiny");
    g.n_terms = 2;
    let s = g.nt();
    let a = g.nt();
    let syms = [ST(0), ST(1), SN(0), SN(1)];
    let rhs = |r: &mut Rng| -> Vec<Sym> {
        let k = r.below(1 + 4 + 16 + 16);
        match k {
            0 => vec![],
            1..=4 => vec![syms[k - 1]],
            5..=20 => vec![syms[(k - 5) / 4], syms[(k - 5) % 4]],
            _ => (0..3).map(|_| *r.pick(&syms)).collect(),
        }
    };
    for n in [s, a] {
        for _ in 0..r.range(1, 3) {
            let p = rhs(r);
            if !g.nts[n].contains(&p) {
                g.p(n, p);
            }
        }
    }
    g.public[s] = true;
    g.public[a] = r.pct(30);
    g
}

// ---------------------------------------------------------------------------------------------
// Dressing: names, types, binders, token variants

pub const TEXTS: &[&str] = &[
    "+", "-", "*", "/", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "==", "=>", "<", ">", "..",
    "if", "else", "id", "num", "string literal", "'", "\"", "\\", "\\n", "\n", "\t", "a, b", ", ",
    "", " ", "é", "日本語", "🦀", "end-of-input", "x\"y", "r#\"z\"#", "{}", "{0}", "%s", "`", "``",
    "None", "Some", "fn", "\u{0}", "\u{7f}", "a\u{301}", "EOF", "$", "|", "ß", "A", "a", "_",
];

pub const NT_NAMES: &[&str] = &[
    "S", "Expr", "Expr1", "Expr11", "Stmt", "E", "T", "F", "A", "A1", "A11", "B", "B1", "B2", "Lists",
    "Opt", "R", "Foo", "Foo0", "Foo1", "Foo10", "X", "X1", "Y", "Z", "Program", "Größe", "Item",
    "Items", "Args", "Q_", "__P", "L1", "L2", "L10", "I", "Err1", "parse", "Self_", "NonTerminal0",
    "Terminal", "State", "Start", "Start1", "r#type", "r#match",
    "x", "state", "token", "input", "f0", "value_stack", "expected", "found", "expr", "l", "next_state",
    "parse_generic",
];

/// only for private non-terminals (a pub one declares a type of that name)
pub const PRIV_NAMES: &[&str] = &[
    "Token", "ParseError", "LRAction", "SemanticActionResult", "Some", "Ok", "Err", "None", "Vec",
    "Result", "Option", "E0", "String",
];

pub const BINDERS: &[&str] = &[
    "x", "y", "z", "a", "b", "l", "r", "expr", "f0", "f1", "f2", "token", "state", "input", "value",
    "value_stack", "values", "stack", "r#type", "r#fn", "_x", "__", "x1", "action_idx", "token_",
    "token_value", "größe", "state_stack", "err", "found", "expected", "E", "R", "self_", "vec", "pop",
    "parse", "next", "terminal_idx", "lhs", "rhs", "result", "n_symbols", "t", "f",
];

pub const TYPES: &[(&str, usize)] = &[
    ("V", 1),
    ("pgrt::V", 1),
    ("N<0>", 1),
    ("N<1>", 1),
    ("N<2>", 1),
    ("Vec<V>", 1),
    ("Option<V>", 1),
    ("Box<V>", 1),
    ("(V, V)", 2),
    ("(V,)", 1),
    ("[V; 3]", 3),
    ("()", 0),
    ("u8", 0),
    ("&'static str", 0),
    ("String", 0),
    ("Result<V, N<3>>", 1),
    ("(V, Option<N<1>>, [V; 2], ())", 4),
    ("Box<Vec<(V, V)>>", 2),
    // the same names
    ("pgrt::a::V", 1),
    ("::pgrt::a::b::V", 1),
    ("pgrt::a::b::N<1>", 1),
    ("Vec<pgrt::a::V>", 1),
    ("(V, pgrt::a::V)", 2),
    ("(pgrt::a::V, V)", 2),
    // other ways to write types
    ("(V)", 1),
    ("((V, V))", 2),
    ("N<{ 1 + 1 }>", 1),
    ("[V; 1 + 1]", 2),
    ("pgrt::same!(V)", 1),
    ("<V as pgrt::Same>::T", 1),
    ("Box<dyn pgrt::Thing>", 1),
    ("Box<dyn pgrt::Thing + Send>", 1),
    ("fn()", 0),
    ("fn(V) -> V", 0),
    ("fn(V) -> Box<V>", 0),
    ("*const u8", 0),
    ("*mut u8", 0),
    ("&'static [u8]", 0),
    ("&'static [&'static str]", 0),
    ("std::borrow::Cow<'static, str>", 0),
    ("i64", 0),
    ("f32", 0),
    ("bool", 0),
    ("usize", 0),
    ("std::marker::PhantomData<V>", 0),
    ("std::marker::PhantomData<&'static V>", 0),
    ("std::rc::Rc<V>", 1),
    ("std::rc::Rc<std::cell::RefCell<V>>", 1),
];

#[derive(Clone, Debug)]
pub struct Dress {
    /// all non-terminals of type V
    pub uniform: bool,
    pub odd_names: bool,
    pub bind_pct: usize,
    pub mut_pct: usize,
    pub pass_pct: usize,
    /// payload fields of terminals
    pub max_fields: usize,
    /// actions do not tell which production they belong to
    pub anon: bool,
}

impl Dress {
    pub fn random(r: &mut Rng) -> Dress {
        Dress {
            uniform: r.pct(40),
            odd_names: r.pct(60),
            bind_pct: *r.pick(&[0, 40, 70, 100, 100]),
            mut_pct: *r.pick(&[0, 15, 50]),
            pass_pct: *r.pick(&[0, 20, 60]),
            max_fields: *r.pick(&[1, 2, 3]),
            anon: false,
        }
    }
}

const KEYWORDS: &[&str] = &[
    "as", "async", "await", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final",
    "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub",
    "ref", "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "union", "unsafe",
    "unsized", "use", "virtual", "where", "while", "yield", "abstract", "become", "Self", "_",
];

/// Make some names differ from another one in a little: as identifiers, they have nothing to do with each other
fn near_misses(r: &mut Rng, names: &mut [String], pct: usize) {
    if names.len() < 2 {
        return;
    }
    for i in 0..names.len() {
        if !r.pct(pct) {
            continue;
        }
        let j = r.below(names.len());
        let of = names[j].clone();
        let bare = of.strip_prefix("r#").unwrap_or(&of).to_string();
        let first = bare.chars().next().unwrap();
        let new = match r.below(12) {
            0 | 1 => format!("{}_", bare),
            2 => format!("_{}", bare),
            3 => format!("{}0", bare),
            4 => format!("{}1", bare),
            5 => format!("{}__", bare),
            6 => first.to_uppercase().chain(bare.chars().skip(1)).collect(),
            7 => first.to_lowercase().chain(bare.chars().skip(1)).collect(),
            8 => bare.to_uppercase(),
            9 => bare.to_lowercase(),
            10 => format!("{}{}", bare, bare),
            _ => format!("{}_1", bare),
        };
        let forbidden = KEYWORDS.contains(&new.as_str()) || PRIV_NAMES.contains(&new.as_str()) || new.chars().all(|c| c == '_');
        // `É` is `é` only if normalised
        if i != j && !forbidden && !names.contains(&new) && !names.contains(&format!("r#{}", new)) {
            names[i] = new;
        }
    }
}

/// Give terminals, non-terminals and binders other names; no terminal text is empty or
/// contains a comma, so that lists of them can be taken apart
pub fn rename(r: &mut Rng, g: &Gram) -> Gram {
    let mut g = g.clone();
    let mut pool: Vec<String> = match r.below(3) {
        0 => vec![],
        _ => TEXTS
            .iter()
            .filter(|t| !t.is_empty() && !t.contains(',') && **t != "end-of-input")
            .map(|t| t.to_string())
            .collect(),
    };
    r.shuffle(&mut pool);
    let tag = *r.pick(&["t", "Z", "9", "-"]);
    for (k, t) in g.terms.iter_mut().enumerate() {
        t.name = match pool.pop() {
            Some(x) if r.pct(80) => x,
            _ => format!("{}{}{}", tag, tag, k * 7 % 101 + k),
        };
    }
    // distinct
    let mut seen = std::collections::HashSet::new();
    for (k, t) in g.terms.iter_mut().enumerate() {
        if !seen.insert(t.name.clone()) {
            t.name = format!("unique{}", k);
            seen.insert(t.name.clone());
        }
    }
    let mut pool: Vec<&str> = if r.pct(60) { NT_NAMES.to_vec() } else { vec![] };
    let mut ppool: Vec<&str> = if r.pct(40) { PRIV_NAMES.to_vec() } else { vec![] };
    r.shuffle(&mut pool);
    r.shuffle(&mut ppool);
    let mut order: Vec<usize> = (0..g.nts.len()).collect();
    r.shuffle(&mut order);
    let tag = *r.pick(&["M", "Zz", "A", "_n"]);
    for (k, n) in order.iter().enumerate() {
        let n = &mut g.nts[*n];
        n.name = if !n.public && r.pct(30) && !ppool.is_empty() {
            ppool.pop().unwrap().to_string()
        } else if let Some(x) = pool.pop() {
            x.to_string()
        } else {
            format!("{}{}_", tag, k)
        };
    }
    if r.pct(50) {
        let mut names: Vec<String> = g.nts.iter().map(|n| n.name.clone()).collect();
        near_misses(r, &mut names, 40);
        for (n, name) in g.nts.iter_mut().zip(names) {
            n.name = name;
        }
    }
    let plain = r.pct(40);
    for n in &mut g.nts {
        for p in &mut n.prods {
            let mut pool: Vec<&str> = BINDERS.to_vec();
            r.shuffle(&mut pool);
            for (k, b) in p.binds.iter_mut().enumerate() {
                if let Some(b) = b {
                    b.name = match pool.pop() {
                        Some(x) if !plain => x.to_string(),
                        _ => format!("w{}", 99 + k),
                    };
                }
            }
        }
    }
    g
}

pub fn dress(r: &mut Rng, sk: &Sk, d: &Dress) -> Gram {
    let mut texts: Vec<String> = vec![];
    if d.odd_names {
        let mut pool: Vec<&str> = TEXTS.to_vec();
        r.shuffle(&mut pool);
        texts.extend(pool.iter().map(|s| s.to_string()));
    }
    let mut k = 0;
    while texts.len() < sk.n_terms {
        texts.push(if k < 26 {
            ((b'a' + k as u8) as char).to_string() + if d.odd_names { "2" } else { "" }
        } else {
            format!("t{}", k)
        });
        k += 1;
    }
    let terms = (0..sk.n_terms)
        .map(|t| {
            let form = r.weighted(&[3, 4, 2]) as u8;
            let nf = match form {
                0 => 0,
                _ => r.range(1, d.max_fields),
            };
            let all = r.pct(60);
            let mut fields: Vec<bool> = (0..nf).map(|_| all || r.pct(60)).collect();
            if nf > 0 && r.pct(15) {
                fields = vec![false; nf];
            }
            Term {
                name: texts[t].clone(),
                form,
                dots: nf > 0 && !fields[nf - 1] && r.pct(50),
                fields,
            }
        })
        .collect();

    let mut names: Vec<String> = vec![];
    let mut pool: Vec<&str> = NT_NAMES.to_vec();
    let mut ppool: Vec<&str> = PRIV_NAMES.to_vec();
    r.shuffle(&mut pool);
    r.shuffle(&mut ppool);
    for i in 0..sk.nts.len() {
        let name = if !d.odd_names {
            format!("N{}", i)
        } else if !sk.public[i] && r.pct(15) && !ppool.is_empty() {
            ppool.pop().unwrap().to_string()
        } else if let Some(n) = pool.pop() {
            n.to_string()
        } else {
            format!("M{}", i)
        };
        names.push(name);
    }
    if d.odd_names && r.pct(40) {
        near_misses(r, &mut names, 30);
    }
    let palette: Vec<Ty> = if d.uniform {
        vec![Ty {
            src: "V".into(),
            ids: 1,
        }]
    } else {
        (0..r.range(1, 5))
            .map(|_| {
                let few = r.pct(50);
                let (s, n) = *r.pick(if few { &TYPES[..18] } else { TYPES });
                Ty {
                    src: s.into(),
                    ids: n,
                }
            })
            .collect()
    };
    let nts: Vec<Nt> = (0..sk.nts.len())
        .map(|i| Nt {
            name: names[i].clone(),
            public: sk.public[i],
            ty: r.pick(&palette).clone(),
            prods: vec![],
        })
        .collect();
    let mut g = Gram {
        terms,
        nts,
        family: sk.family,
        anon: d.anon,
    };
    for i in 0..sk.nts.len() {
        for p in &sk.nts[i] {
            let mut pool: Vec<&str> = BINDERS.to_vec();
            r.shuffle(&mut pool);
            if d.anon {
                // few names, so that different productions use the same ones
                pool.retain(|b| ["l", "r", "x", "y", "f0", "f1"].contains(b));
            }
            let mut fresh = 0;
            // which symbols are bound: each one independently, or a block of them
            let (from, to, inside) = match r.below(20) {
                _ if d.bind_pct == 100 || d.bind_pct == 0 || p.is_empty() => (0, 0, false),
                0 => (0, p.len(), true),
                1 => (0, p.len(), false),
                2 => (0, r.below(p.len()), true),
                3 => (r.below(p.len()), p.len(), true),
                4 => {
                    let k = r.below(p.len());
                    (k, k + 1, true)
                }
                5 => {
                    let k = r.below(p.len());
                    (k, k + 1, false)
                }
                6 => {
                    let k = r.below(p.len());
                    (k, r.range(k, p.len()), false)
                }
                _ => (0, 0, false),
            };
            let block = from < to || inside;
            let mut binds: Vec<Option<Bind>> = (0..p.len())
                .map(|k| {
                    let bound = if block {
                        (from <= k && k < to) == inside
                    } else {
                        r.pct(d.bind_pct)
                    };
                    if !bound {
                        return None;
                    }
                    let name = if (d.odd_names || d.anon) && !pool.is_empty() {
                        pool.pop().unwrap().to_string()
                    } else {
                        fresh += 1;
                        format!("v{}", fresh)
                    };
                    Some(Bind {
                        name,
                        mutable: r.pct(d.mut_pct),
                    })
                })
                .collect();
            if d.odd_names && r.pct(30) {
                let mut names: Vec<String> = binds.iter().flatten().map(|b| b.name.clone()).collect();
                near_misses(r, &mut names, 40);
                for (b, name) in binds.iter_mut().flatten().zip(names) {
                    b.name = name;
                }
            }
            let mut pass = None;
            if r.pct(d.pass_pct) {
                let cand: Vec<usize> = (0..p.len())
                    .filter(|k| match p[*k] {
                        SN(m) => g.nts[m].ty.src == g.nts[i].ty.src,
                        ST(t) => {
                            g.nts[i].ty.src == "V" && g.terms[t].chosen().count() == 1
                        }
                    })
                    .collect();
                if !cand.is_empty() {
                    let k = *r.pick(&cand);
                    pass = Some(k);
                    if binds[k].is_none() {
                        binds[k] = Some(Bind {
                            name: "passed".into(),
                            mutable: false,
                        });
                    }
                }
            }
            g.nts[i].prods.push(Prod {
                id: 0,
                syms: p.clone(),
                binds,
                pass,
            });
        }
    }
    g.renumber();
    g
}

/// Look at a grammar without dressing
pub fn plain(sk: &Sk) -> Gram {
    dress(
        &mut Rng::new(1),
        sk,
        &Dress {
            uniform: true,
            odd_names: false,
            bind_pct: 0,
            mut_pct: 0,
            pass_pct: 0,
            max_fields: 1, anon: false,
        },
    )
}

// ---------------------------------------------------------------------------------------------
// Inputs

pub struct Sampler<'g> {
    g: &'g Gram,
    min: Vec<usize>,
}

impl<'g> Sampler<'g> {
    pub fn new(g: &'g Gram) -> Self {
        Sampler {
            min: g.min_len(),
            g,
        }
    }

    fn cost(&self, p: &Prod) -> usize {
        p.syms.iter().fold(0usize, |l, s| {
            l.saturating_add(match s {
                ST(_) => 1,
                SN(m) => self.min[*m],
            })
        })
    }

    /// Expand a sequence of symbols into tokens; None if it derives nothing. `budget` steers
    /// towards short derivations once used up.
    pub fn expand(&self, r: &mut Rng, syms: &[Sym], budget: usize) -> Option<Vec<usize>> {
        let mut out = vec![];
        let mut stack: Vec<Sym> = syms.iter().rev().copied().collect();
        if stack
            .iter()
            .any(|s| matches!(s, SN(m) if self.min[*m] == usize::MAX))
        {
            return None;
        }
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            match s {
                ST(t) => out.push(t),
                SN(n) => {
                    steps += 1;
                    let ps = &self.g.nts[n].prods;
                    let ok: Vec<usize> = (0..ps.len())
                        .filter(|k| self.cost(&ps[*k]) != usize::MAX)
                        .collect();
                    let p = if steps > budget {
                        // cheapest; among equals the first with the fewest non-terminals
                        // (minimal cost alone could follow a unit cycle for ever)
                        *ok.iter()
                            .min_by_key(|k| (self.cost(&ps[**k]), self.height(&ps[**k])))
                            .unwrap()
                    } else {
                        *r.pick(&ok)
                    };
                    if steps > 20_000 {
                        return None;
                    }
                    for s in ps[p].syms.iter().rev() {
                        stack.push(*s);
                    }
                }
            }
        }
        Some(out)
    }

    fn height(&self, p: &Prod) -> usize {
        p.syms.iter().filter(|s| matches!(s, SN(_))).count()
    }
}

/// Token sequences (terminal numbers) for an entry point, tags for the evidence
pub struct Inputs {
    pub seqs: Vec<Vec<usize>>,
    /// known to be sentences
    pub sentences: usize,
}

/// `budget`: number of inputs wanted
pub fn inputs(r: &mut Rng, g: &Gram, lr: &Lr, entry: usize, budget: usize) -> Inputs {
    let s = Sampler::new(g);
    let nt = g.terms.len();
    let mut set: indexset::Set = Default::default();
    let mut sentences: Vec<Vec<usize>> = vec![];

    // 1. every reachable (state, item): a sentence through it, and all one-token
    //    continuations of the prefix
    let mut paths = lr.item_paths(entry, 4000);
    let keep = budget / 3;
    if paths.len() > keep {
        r.shuffle(&mut paths);
        paths.truncate(keep.max(1));
    }
    let mut prefixes: Vec<Vec<usize>> = vec![];
    for p in &paths {
        let b = if r.pct(70) { 0 } else { 12 };
        let Some(pre) = s.expand(r, &p.before, b) else {
            continue;
        };
        if pre.len() > 3000 {
            continue;
        }
        let b = if r.pct(70) { 0 } else { 12 };
        if let Some(post) = s.expand(r, &p.after, b) {
            let mut x = pre.clone();
            x.extend(post);
            sentences.push(x.clone());
            set.add(x);
        }
        prefixes.push(pre);
    }
    // 2. random sentences
    for k in 0..budget / 4 {
        let b = [3, 8, 20, 60][k % 4];
        if let Some(x) = s.expand(r, &[SN(entry)], b) {
            if x.len() <= 400 {
                sentences.push(x.clone());
                set.add(x);
            }
        }
    }
    // 3. cells: prefix + each terminal (+ junk)
    prefixes.sort();
    prefixes.dedup();
    r.shuffle(&mut prefixes);
    'cells: for p in &prefixes {
        set.add(p.clone());
        let mut ts: Vec<usize> = (0..nt).collect();
        if nt > 12 {
            r.shuffle(&mut ts);
            ts.truncate(8);
        }
        for t in ts {
            if set.0.len() >= budget * 3 / 4 {
                break 'cells;
            }
            let mut x = p.clone();
            x.push(t);
            if r.pct(30) {
                x.push(r.below(nt));
            }
            set.add(x);
        }
    }
    // 4. mutated sentences
    let n_sent = sentences.len();
    if n_sent > 0 && nt > 0 {
        for _ in 0..budget / 5 {
            let mut x = sentences[r.below(n_sent)].clone();
            for _ in 0..r.range(1, 2) {
                let l = x.len();
                match r.below(5) {
                    0 if l > 0 => {
                        x.remove(r.below(l));
                    }
                    1 => x.insert(r.below(l + 1), r.below(nt)),
                    2 if l > 0 => x[r.below(l)] = r.below(nt),
                    3 if l > 1 => {
                        let k = r.below(l - 1);
                        x.swap(k, k + 1)
                    }
                    4 => x.truncate(r.below(l + 1)),
                    _ => x.push(r.below(nt)),
                }
            }
            set.add(x);
        }
    }
    // 5. all short strings
    if nt > 0 && nt <= 4 {
        let mut cur: Vec<Vec<usize>> = vec![vec![]];
        let mut done = 0;
        while done < budget / 4 && !cur.is_empty() && cur[0].len() < 6 {
            let mut next = vec![];
            for x in &cur {
                for t in 0..nt {
                    let mut y = x.clone();
                    y.push(t);
                    set.add(y.clone());
                    done += 1;
                    next.push(y);
                }
            }
            cur = next;
        }
    }
    set.add(vec![]);
    Inputs {
        seqs: set.1,
        sentences: n_sent,
    }
}

mod indexset {
    #[derive(Default)]
    pub struct Set(
        pub std::collections::HashSet<Vec<usize>>,
        pub Vec<Vec<usize>>,
    );
    impl Set {
        pub fn add(&mut self, x: Vec<usize>) {
            if self.0.insert(x.clone()) {
                self.1.push(x);
            }
        }
    }
}
