//! Grammar model

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

/// Value type of a non-terminal
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ty {
    pub src: String,
    /// how many tracked values a value of this type holds
    pub ids: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bind {
    pub name: String,
    pub mutable: bool,
}

#[derive(Clone, Debug)]
pub struct Prod {
    /// identifies the production in logs, unique in the grammar
    pub id: u32,
    pub syms: Vec<Sym>,
    pub binds: Vec<Option<Bind>>,
    /// the action hands on the value bound at this position
    pub pass: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Nt {
    pub name: String,
    pub public: bool,
    pub ty: Ty,
    pub prods: Vec<Prod>,
}

/// How a token variant is declared and which of its fields are chosen
#[derive(Clone, Debug)]
pub struct Term {
    pub name: String,
    /// 0: unit, 1: tuple, 2: struct
    pub form: u8,
    /// one per field: chosen or not
    pub fields: Vec<bool>,
    /// trailing `..` in the pattern instead of the unchosen fields at the end
    pub dots: bool,
}

impl Term {
    pub fn chosen(&self) -> impl Iterator<Item = usize> + '_ {
        self.fields
            .iter()
            .enumerate()
            .filter(|(_, c)| **c)
            .map(|(i, _)| i)
    }
}

#[derive(Clone, Debug)]
pub struct Gram {
    pub terms: Vec<Term>,
    pub nts: Vec<Nt>,
    /// where it came from
    pub family: &'static str,
    /// actions do not tell which production they belong to
    pub anon: bool,
}

/// The production number in the logs of anonymous actions
pub const ANON: u32 = u32::MAX;

impl Prod {
    /// Positions of bound symbols, in the order of the names they are bound to
    pub fn by_name(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.binds.len()).filter(|k| self.binds[*k].is_some()).collect();
        v.sort_by_key(|k| self.binds[*k].as_ref().unwrap().name.clone());
        v
    }
}

impl Gram {
    pub fn n_prods(&self) -> usize {
        self.nts.iter().map(|n| n.prods.len()).sum()
    }

    pub fn entries(&self) -> Vec<usize> {
        (0..self.nts.len()).filter(|i| self.nts[*i].public).collect()
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nts.len()];
        loop {
            let mut ch = false;
            for (i, n) in self.nts.iter().enumerate() {
                if !r[i]
                    && n.prods.iter().any(|p| {
                        p.syms
                            .iter()
                            .all(|s| matches!(s, Sym::N(m) if r[*m]))
                    })
                {
                    r[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return r;
            }
        }
    }

    pub fn productive(&self) -> Vec<bool> {
        self.min_len().iter().map(|l| *l != usize::MAX).collect()
    }

    /// Length of the shortest sentence of each non-terminal
    pub fn min_len(&self) -> Vec<usize> {
        let mut r = vec![usize::MAX; self.nts.len()];
        loop {
            let mut ch = false;
            for (i, n) in self.nts.iter().enumerate() {
                for p in &n.prods {
                    let mut l = 0usize;
                    for s in &p.syms {
                        l = l.saturating_add(match s {
                            Sym::T(_) => 1,
                            Sym::N(m) => r[*m],
                        });
                    }
                    if l < r[i] {
                        r[i] = l;
                        ch = true;
                    }
                }
            }
            if !ch {
                return r;
            }
        }
    }

    /// Non-terminals reachable from pub ones
    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nts.len()];
        let mut work = self.entries();
        for w in &work {
            r[*w] = true;
        }
        while let Some(n) = work.pop() {
            for p in &self.nts[n].prods {
                for s in &p.syms {
                    if let Sym::N(m) = s {
                        if !r[*m] {
                            r[*m] = true;
                            work.push(*m);
                        }
                    }
                }
            }
        }
        r
    }

    /// Every reachable non-terminal derives a sentence
    pub fn reduced(&self) -> bool {
        let p = self.productive();
        let r = self.reachable();
        (0..self.nts.len()).all(|i| !r[i] || p[i])
    }

    /// Productions with a useless symbol on a non-terminal's right-hand side also make
    /// lookaheads inexact; `reduced` implies there is none among the reachable ones.
    pub fn prod_by_id(&self, id: u32) -> Option<(usize, usize)> {
        for (i, n) in self.nts.iter().enumerate() {
            for (j, p) in n.prods.iter().enumerate() {
                if p.id == id {
                    return Some((i, j));
                }
            }
        }
        None
    }

    pub fn renumber(&mut self) {
        let mut k = 0;
        for n in &mut self.nts {
            for p in &mut n.prods {
                p.id = k;
                k += 1;
            }
        }
    }

    pub fn size(&self) -> usize {
        self.nts
            .iter()
            .flat_map(|n| n.prods.iter())
            .map(|p| p.syms.len() + 1)
            .sum()
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        for n in &self.nts {
            s += &format!("{}{} ->", if n.public { "pub " } else { "" }, n.name);
            for (i, p) in n.prods.iter().enumerate() {
                if i > 0 {
                    s += " |";
                }
                if p.syms.is_empty() {
                    s += " (empty)";
                }
                for y in &p.syms {
                    s += " ";
                    match y {
                        Sym::T(t) => s += &format!("{:?}", self.terms[*t].name),
                        Sym::N(m) => s += &self.nts[*m].name,
                    }
                }
            }
            s += "; ";
        }
        s
    }

    /// FIRST sets (bit sets over terminals), textbook fixpoint
    pub fn first(&self) -> Vec<Bits> {
        let null = self.nullable();
        let nt = self.terms.len() + 1;
        let mut r = vec![Bits::new(nt); self.nts.len()];
        loop {
            let mut ch = false;
            for i in 0..self.nts.len() {
                for p in &self.nts[i].prods {
                    for s in &p.syms {
                        match s {
                            Sym::T(t) => {
                                ch |= r[i].set(*t);
                                break;
                            }
                            Sym::N(m) => {
                                let f = r[*m].clone();
                                ch |= r[i].union(&f);
                                if !null[*m] {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            if !ch {
                return r;
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Bits(pub Vec<u64>);

impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits(vec![0; n.div_ceil(64)])
    }
    pub fn set(&mut self, i: usize) -> bool {
        let old = self.get(i);
        self.0[i / 64] |= 1 << (i % 64);
        !old
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn union(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let n = *a | *b;
            ch |= n != *a;
            *a = n;
        }
        ch
    }
    pub fn meets(&self, o: &Bits) -> bool {
        self.0.iter().zip(&o.0).any(|(a, b)| a & b != 0)
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.0.len() * 64).filter(|i| self.get(*i))
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
}
