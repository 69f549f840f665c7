//! Earley recogniser: decides membership and which terminals can follow a prefix.
//! Independent of any LR machinery.

use crate::gram::{Gram, Sym};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct It {
    nt: u32,
    prod: u32,
    dot: u32,
    from: u32,
}

pub struct Earley<'g> {
    g: &'g Gram,
    entry: usize,
    nullable: Vec<bool>,
    sets: Vec<Vec<It>>,
}

impl<'g> Earley<'g> {
    pub fn new(g: &'g Gram, entry: usize) -> Self {
        let mut e = Earley {
            g,
            entry,
            nullable: g.nullable(),
            sets: vec![],
        };
        let start: Vec<It> = (0..g.nts[entry].prods.len())
            .map(|p| It {
                nt: entry as u32,
                prod: p as u32,
                dot: 0,
                from: 0,
            })
            .collect();
        e.complete(start);
        e
    }

    fn next_sym(&self, it: &It) -> Option<Sym> {
        self.g.nts[it.nt as usize].prods[it.prod as usize]
            .syms
            .get(it.dot as usize)
            .copied()
    }

    fn complete(&mut self, start: Vec<It>) {
        let here = self.sets.len() as u32;
        let mut seen: HashSet<It> = HashSet::new();
        let mut set: Vec<It> = vec![];
        let mut predicted = vec![false; self.g.nts.len()];
        let add = |set: &mut Vec<It>, seen: &mut HashSet<It>, it: It| {
            if seen.insert(it) {
                set.push(it);
            }
        };
        for it in start {
            add(&mut set, &mut seen, it);
        }
        let mut i = 0;
        while i < set.len() {
            let it = set[i];
            i += 1;
            match self.next_sym(&it) {
                Some(Sym::T(_)) => {}
                Some(Sym::N(m)) => {
                    if !predicted[m] {
                        predicted[m] = true;
                        for p in 0..self.g.nts[m].prods.len() {
                            add(
                                &mut set,
                                &mut seen,
                                It {
                                    nt: m as u32,
                                    prod: p as u32,
                                    dot: 0,
                                    from: here,
                                },
                            );
                        }
                    }
                    if self.nullable[m] {
                        add(&mut set, &mut seen, It { dot: it.dot + 1, ..it });
                    }
                }
                None => {
                    let n = it.nt as usize;
                    if it.from == here {
                        // nullable completion inside this set; covered by the nullable rule,
                        // but also advance what is already here
                        let waiting: Vec<It> = set
                            .iter()
                            .filter(|w| self.next_sym(w) == Some(Sym::N(n)))
                            .copied()
                            .collect();
                        for w in waiting {
                            add(&mut set, &mut seen, It { dot: w.dot + 1, ..w });
                        }
                    } else {
                        for k in 0..self.sets[it.from as usize].len() {
                            let w = self.sets[it.from as usize][k];
                            if self.next_sym(&w) == Some(Sym::N(n)) {
                                add(&mut set, &mut seen, It { dot: w.dot + 1, ..w });
                            }
                        }
                    }
                }
            }
        }
        self.sets.push(set);
    }

    /// Number of tokens read
    pub fn len(&self) -> usize {
        self.sets.len() - 1
    }

    /// Read a token; false (and no change) if it cannot follow
    pub fn push(&mut self, t: usize) -> bool {
        let start: Vec<It> = self
            .sets
            .last()
            .unwrap()
            .iter()
            .filter(|it| self.next_sym(it) == Some(Sym::T(t)))
            .map(|it| It {
                dot: it.dot + 1,
                ..*it
            })
            .collect();
        if start.is_empty() {
            return false;
        }
        self.complete(start);
        true
    }

    pub fn pop(&mut self) {
        self.sets.pop();
    }

    /// Terminals that can follow
    pub fn next(&self) -> Vec<usize> {
        let mut r: Vec<usize> = self
            .sets
            .last()
            .unwrap()
            .iter()
            .filter_map(|it| match self.next_sym(it) {
                Some(Sym::T(t)) => Some(t),
                _ => None,
            })
            .collect();
        r.sort();
        r.dedup();
        r
    }

    /// Is what was read a sentence
    pub fn accepts(&self) -> bool {
        self.sets.last().unwrap().iter().any(|it| {
            it.nt as usize == self.entry && it.from == 0 && self.next_sym(it).is_none()
        })
    }
}
