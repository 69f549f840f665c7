//! Reference canonical LR(1) construction: LR(0) items with look-ahead sets,
//! states identified by their kernels. Used to classify grammars and to predict
//! the exact sequence of moves (shift precedence where shift/reduce conflicts exist).

use crate::gram::{Bits, Gram, Sym};
use std::collections::{BTreeMap, HashMap};

/// (production number, dot); production numbers: entries first
pub type Core = (u32, u32);

struct P {
    lhs: usize,
    rhs: Vec<Sym>,
    /// production id in the grammar; None for an entry production
    id: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Move {
    Shift(u32),
    /// production index
    Reduce(u32),
    Accept,
}

#[derive(Clone, Debug, Default)]
pub struct Conflicts {
    pub rr: usize,
    pub sr: usize,
    /// cells in which the item that reduces is not declared before those that shift: parsegen may
    /// refuse them. Guides the choice of grammars only.
    pub sr_late: usize,
    /// reduce/reduce conflicts in which one side is the end of an entry point's parse
    pub accept_rr: usize,
    pub sample: String,
    /// reduce/reduce cells: (state, terminal or n_terms for the end, production numbers;
    /// None: accept)
    pub cells: Vec<(usize, usize, Option<u32>, Option<u32>)>,
}

pub struct Lr {
    prods: Vec<P>,
    /// state -> terminal (n_terms = EOF) -> move
    pub action: Vec<Vec<Option<Move>>>,
    goto: Vec<HashMap<usize, u32>>,
    /// entry non-terminal -> initial state
    init: HashMap<usize, u32>,
    pub conflicts: Conflicts,
    /// would merging states with equal cores (LALR) create reduce/reduce conflicts
    pub lalr_rr: bool,
    pub n_items: usize,
    n_terms: usize,
    /// items of each state
    pub items: Vec<Vec<Core>>,
    trans: Vec<BTreeMap<Sym, u32>>,
    by_lhs: Vec<Vec<u32>>,
}

pub struct ItemPath {
    pub state: u32,
    pub before: Vec<Sym>,
    pub after: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// pull of item i
    Pull,
    /// reduction by the production with this id
    Act(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    /// syntax error at item i
    Error(usize),
    /// item i is an Err
    Lex(usize),
}

impl Lr {
    /// None if there are more than `max` states
    pub fn build(g: &Gram, max: usize) -> Option<Lr> {
        let nt = g.terms.len();
        let first = g.first();
        let null = g.nullable();
        let mut prods = vec![];
        let mut by_lhs: Vec<Vec<u32>> = vec![vec![]; g.nts.len()];
        let entries = g.entries();
        for e in &entries {
            prods.push(P {
                lhs: usize::MAX,
                rhs: vec![Sym::N(*e)],
                id: None,
            });
        }
        for (i, n) in g.nts.iter().enumerate() {
            for p in &n.prods {
                by_lhs[i].push(prods.len() as u32);
                prods.push(P {
                    lhs: i,
                    rhs: p.syms.clone(),
                    id: Some(p.id),
                });
            }
        }

        let closure = |kernel: &BTreeMap<Core, Bits>| -> BTreeMap<Core, Bits> {
            let mut c = kernel.clone();
            let mut work: Vec<Core> = c.keys().copied().collect();
            while let Some(it) = work.pop() {
                let la = c[&it].clone();
                let rhs = &prods[it.0 as usize].rhs;
                if let Some(Sym::N(m)) = rhs.get(it.1 as usize) {
                    let mut f = Bits::new(nt + 1);
                    let mut all = true;
                    for s in &rhs[it.1 as usize + 1..] {
                        match s {
                            Sym::T(t) => {
                                f.set(*t);
                                all = false;
                            }
                            Sym::N(k) => {
                                f.union(&first[*k]);
                                all = null[*k];
                            }
                        }
                        if !all {
                            break;
                        }
                    }
                    if all {
                        f.union(&la);
                    }
                    // a look-ahead set may be empty (useless symbols after the dot): an item
                    // without look-aheads is no LR(1) item
                    if f.is_empty() {
                        continue;
                    }
                    for p in &by_lhs[*m] {
                        let e = c.entry((*p, 0)).or_insert_with(|| Bits::new(nt + 1));
                        if e.union(&f) {
                            work.push((*p, 0));
                        }
                    }
                }
            }
            c
        };

        let mut index: HashMap<BTreeMap<Core, Bits>, u32> = HashMap::new();
        let mut states: Vec<BTreeMap<Core, Bits>> = vec![];
        let mut init = HashMap::new();
        for (k, e) in entries.iter().enumerate() {
            let mut kernel = BTreeMap::new();
            let mut la = Bits::new(nt + 1);
            la.set(nt);
            kernel.insert((k as u32, 0), la);
            init.insert(*e, states.len() as u32);
            index.insert(kernel.clone(), states.len() as u32);
            states.push(kernel);
        }
        let mut trans: Vec<BTreeMap<Sym, u32>> = vec![];
        let mut action = vec![];
        let mut conflicts = Conflicts::default();
        let mut n_items = 0;
        let mut items = vec![];
        let mut i = 0;
        let mut lalr: BTreeMap<Vec<Core>, BTreeMap<Core, Bits>> = BTreeMap::new();
        while i < states.len() {
            let c = closure(&states[i]);
            n_items += c.len();
            let mut next: BTreeMap<Sym, BTreeMap<Core, Bits>> = BTreeMap::new();
            let mut reduce: Vec<Option<Move>> = vec![None; nt + 1];
            let cores: Vec<Core> = c.keys().copied().collect();
            items.push(cores.clone());
            let merged = lalr.entry(cores).or_default();
            for (it, la) in &c {
                merged
                    .entry(*it)
                    .or_insert_with(|| Bits::new(nt + 1))
                    .union(la);
                let p = &prods[it.0 as usize];
                match p.rhs.get(it.1 as usize) {
                    Some(s) => {
                        next.entry(*s)
                            .or_default()
                            .insert((it.0, it.1 + 1), la.clone());
                    }
                    None => {
                        let mv = if p.id.is_none() {
                            Move::Accept
                        } else {
                            Move::Reduce(it.0)
                        };
                        for t in la.iter() {
                            if let Some(old) = reduce[t] {
                                conflicts.rr += 1;
                                let id = |m: Move| match m {
                                    Move::Reduce(p) => prods[p as usize].id,
                                    _ => None,
                                };
                                if conflicts.cells.len() < 100 {
                                    conflicts.cells.push((i, t, id(old), id(mv)));
                                }
                                if old == Move::Accept || mv == Move::Accept {
                                    conflicts.accept_rr += 1;
                                }
                                if conflicts.sample.is_empty() {
                                    conflicts.sample = format!(
                                        "state {} look-ahead {}: {:?} vs {:?}",
                                        i,
                                        if t == nt { "EOF".into() } else { format!("{:?}", g.terms[t].name) },
                                        old,
                                        mv
                                    );
                                }
                                // accept has precedence here; irrelevant, such grammars are refused
                                if mv == Move::Accept {
                                    reduce[t] = Some(mv);
                                }
                            } else {
                                reduce[t] = Some(mv);
                            }
                        }
                    }
                }
            }
            let mut tr = BTreeMap::new();
            for (s, kernel) in next {
                let id = match index.get(&kernel) {
                    Some(x) => *x,
                    None => {
                        let x = states.len() as u32;
                        if states.len() >= max {
                            return None;
                        }
                        index.insert(kernel.clone(), x);
                        states.push(kernel);
                        x
                    }
                };
                if let Sym::T(t) = s {
                    if reduce[t].is_some() {
                        conflicts.sr += 1;
                        let red = match reduce[t] {
                            Some(Move::Reduce(p)) => (p, prods[p as usize].rhs.len() as u32),
                            _ => (0, 0),
                        };
                        let first_shift = items[i]
                            .iter()
                            .filter(|c| prods[c.0 as usize].rhs.get(c.1 as usize) == Some(&s))
                            .min();
                        if first_shift.is_some_and(|f| *f < red) {
                            conflicts.sr_late += 1;
                        }
                    }
                    reduce[t] = Some(Move::Shift(id));
                }
                tr.insert(s, id);
            }
            action.push(reduce);
            trans.push(tr);
            i += 1;
        }
        // LALR: merge look-aheads of states with equal closure cores, look for new r/r conflicts
        let mut lalr_rr = false;
        for m in lalr.values() {
            let complete: Vec<&Bits> = m
                .iter()
                .filter(|(it, _)| it.1 as usize == prods[it.0 as usize].rhs.len())
                .map(|(_, b)| b)
                .collect();
            for a in 0..complete.len() {
                for b in 0..a {
                    lalr_rr |= complete[a].meets(complete[b]);
                }
            }
        }
        let goto = trans
            .iter()
            .map(|t| {
                t.iter()
                    .filter_map(|(s, x)| match s {
                        Sym::N(m) => Some((*m, *x)),
                        Sym::T(_) => None,
                    })
                    .collect()
            })
            .collect();
        Some(Lr {
            prods,
            action,
            goto,
            init,
            conflicts,
            lalr_rr,
            n_items,
            n_terms: nt,
            items,
            trans,
            by_lhs,
        })
    }

    /// Shortest ways to reach each (state, item) from an entry point: for each, the symbols
    /// read up to the dot (partial derivation) and the symbols that complete it to a sentential
    /// form. Both are sequences of grammar symbols.
    pub fn item_paths(&self, entry: usize, max: usize) -> Vec<ItemPath> {
        #[derive(Clone)]
        struct Node {
            state: u32,
            item: Core,
            parent: usize,
            /// symbol advanced over, or None for an expansion
            via: Option<Sym>,
        }
        let mut seen: std::collections::HashSet<(u32, Core)> = Default::default();
        let mut nodes: Vec<Node> = vec![];
        let Some(init) = self.init.get(&entry) else {
            return vec![];
        };
        let start = self
            .prods
            .iter()
            .position(|p| p.id.is_none() && p.rhs == [Sym::N(entry)])
            .unwrap() as u32;
        seen.insert((*init, (start, 0)));
        nodes.push(Node {
            state: *init,
            item: (start, 0),
            parent: usize::MAX,
            via: None,
        });
        let mut i = 0;
        while i < nodes.len() && nodes.len() < max {
            let n = nodes[i].clone();
            if let Some(s) = self.prods[n.item.0 as usize].rhs.get(n.item.1 as usize) {
                if let Some(next) = self.trans[n.state as usize].get(s) {
                    let it = (n.item.0, n.item.1 + 1);
                    if seen.insert((*next, it)) {
                        nodes.push(Node {
                            state: *next,
                            item: it,
                            parent: i,
                            via: Some(*s),
                        });
                    }
                }
                if let Sym::N(m) = s {
                    for p in &self.by_lhs[*m] {
                        if seen.insert((n.state, (*p, 0))) {
                            nodes.push(Node {
                                state: n.state,
                                item: (*p, 0),
                                parent: i,
                                via: None,
                            });
                        }
                    }
                }
            }
            i += 1;
        }
        let mut out = vec![];
        for k in 0..nodes.len() {
            let mut before = vec![];
            let mut after: Vec<Sym> = vec![];
            let n = &nodes[k];
            after.extend(&self.prods[n.item.0 as usize].rhs[n.item.1 as usize..]);
            let mut j = k;
            while nodes[j].parent != usize::MAX {
                let par = nodes[j].parent;
                match nodes[j].via {
                    Some(s) => before.push(s),
                    None => {
                        // expansion: the rest of the parent's production follows
                        let it = nodes[par].item;
                        after.extend(&self.prods[it.0 as usize].rhs[it.1 as usize + 1..]);
                    }
                }
                j = par;
            }
            before.reverse();
            out.push(ItemPath {
                state: n.state,
                before,
                after,
            });
        }
        out
    }

    pub fn conflict_free(&self) -> bool {
        self.conflicts.rr == 0 && self.conflicts.sr == 0
    }

    pub fn n_states(&self) -> usize {
        self.action.len()
    }

    /// Simulate on a sequence of items (None = Err item). Returns the events, the verdict
    /// and, for a syntax error, the terminals that have a move in the state it was found in.
    /// `limit` bounds the number of reductions.
    pub fn run(
        &self,
        entry: usize,
        items: &[Option<usize>],
        limit: usize,
        mut cover: Option<&mut std::collections::HashSet<u64>>,
    ) -> Option<(Vec<Ev>, Verdict, Vec<usize>)> {
        let mut ev = vec![Ev::Pull];
        let mut stack = vec![self.init[&entry]];
        let mut pos = 0;
        let mut acts = 0;
        loop {
            let t = match items.get(pos) {
                None => self.n_terms,
                Some(None) => return Some((ev, Verdict::Lex(pos), vec![])),
                Some(Some(t)) => *t,
            };
            let s = *stack.last().unwrap() as usize;
            if let Some(c) = cover.as_mut() {
                c.insert((s as u64) << 32 | t as u64);
            }
            match self.action[s][t] {
                None => {
                    let exp = (0..self.n_terms)
                        .filter(|t| self.action[s][*t].is_some())
                        .collect();
                    return Some((ev, Verdict::Error(pos), exp));
                }
                Some(Move::Accept) => return Some((ev, Verdict::Accept, vec![])),
                Some(Move::Shift(n)) => {
                    stack.push(n);
                    pos += 1;
                    ev.push(Ev::Pull);
                }
                Some(Move::Reduce(p)) => {
                    let p = &self.prods[p as usize];
                    ev.push(Ev::Act(p.id.unwrap()));
                    acts += 1;
                    if acts > limit {
                        return None;
                    }
                    stack.truncate(stack.len() - p.rhs.len());
                    let s = *stack.last().unwrap() as usize;
                    stack.push(self.goto[s][&p.lhs]);
                }
            }
        }
    }
}
