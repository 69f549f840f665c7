//! Token classification programs: random token types, random overlapping patterns, random
//! token values; the reference decides by first match in declaration order

use crate::prng::Rng;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    V,
    U8,
    I64,
    I8,
    U128,
    F64,
    Char,
    Bool,
    Str,
    /// `&'static [u8]`
    Bytes,
    /// `&'a str` of the token's lifetime (number)
    RefStr(usize),
    /// opaque to patterns
    Arr,
    Opt(Box<Ty>),
    Tuple(Vec<Ty>),
    Named(usize),
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    /// 0 unit, 1 tuple, 2 struct
    pub form: u8,
    pub fields: Vec<(String, Ty)>,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub is_enum: bool,
    /// a struct has one
    pub variants: Vec<Variant>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    V(u32),
    Int(i128),
    /// as Debug prints it
    Float(&'static str),
    Bytes(&'static [u8]),
    Char(char),
    Bool(bool),
    Str(&'static str),
    RefStr(u32),
    Arr(u32),
    None,
    Some(Box<Val>),
    Tuple(Vec<Val>),
    Named(usize, usize, Vec<Val>),
}

#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Choose,
    /// source text
    Lit(String, Val),
    None,
    Some(Box<Pat>),
    Tuple(Seq),
    /// by position
    Enum(usize, usize, Seq),
    /// by field name: (field, pattern); trailing dots
    Struct(usize, usize, Vec<(usize, Pat)>, bool),
    Path(usize, usize),
}

/// Patterns before `..`, patterns after it; None: no `..`
#[derive(Clone, Debug)]
pub struct Seq(pub Vec<Pat>, pub Option<Vec<Pat>>);

pub struct World {
    pub defs: Vec<Def>,
    /// constants: name, type, value
    pub consts: Vec<(String, Ty, Val)>,
    pub root: Ty,
    /// number of lifetimes of the token type
    pub lifetimes: usize,
    pub token_name: String,
    /// the token type is an alias for a type that is not a definition of its own
    pub alias: bool,
    pub terms: Vec<(String, Pat, bool)>,
    pub values: Vec<Val>,
}

const VNAMES: &[&str] = &["A", "B", "Cc", "Dd", "Id", "Num", "Ok_", "X1", "f0", "Eof", "None_"];
const FNAMES: &[&str] = &["a", "b", "value", "r#type", "f0", "f1", "token", "x", "self_"];
const STRS: &[&str] = &["", "a", "b", "if", "=>", "x\"y", "ä"];
const FLOATS: &[&str] = &["1.5", "0.25", "-1.5", "3.0"];
const BYTES: &[&[u8]] = &[b"", b"a", b"ab", b"\xff"];
const CHARS: &[char] = &['a', 'b', '\'', '"', '\n', 'ß', '('];

impl World {
    fn def_of(&self, ty: &Ty) -> Option<usize> {
        match ty {
            Ty::Named(d) => Some(*d),
            _ => None,
        }
    }

    pub fn ty_src(&self, t: &Ty) -> String {
        match t {
            Ty::V => "V".into(),
            Ty::U8 => "u8".into(),
            Ty::I64 => "i64".into(),
            Ty::I8 => "i8".into(),
            Ty::U128 => "u128".into(),
            Ty::F64 => "f64".into(),
            Ty::Bytes => "&'static [u8]".into(),
            Ty::Char => "char".into(),
            Ty::Bool => "bool".into(),
            Ty::Str => "&'static str".into(),
            Ty::RefStr(k) => format!("&{} str", LT[*k]),
            Ty::Arr => "[V; 1]".into(),
            Ty::Opt(t) => format!("Option<{}>", self.ty_src(t)),
            Ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty_src(t)).collect();
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Ty::Named(d) => {
                let d = &self.defs[*d];
                if d.name == self.token_name && self.lifetimes > 0 {
                    format!("{}<{}>", d.name, LT[..self.lifetimes].join(", "))
                } else {
                    d.name.clone()
                }
            }
        }
    }

    fn rand_ty(&self, r: &mut Rng, depth: usize, vs: &mut usize) -> Ty {
        loop {
            return match r.below(if depth == 0 { 8 } else { 13 }) {
                0 | 1 => {
                    if *vs == 0 {
                        continue;
                    }
                    *vs -= 1;
                    Ty::V
                }
                2 => Ty::U8,
                3 => match r.below(6) {
                    0 => Ty::I8,
                    1 | 2 => Ty::U128,
                    3 => Ty::F64,
                    _ => Ty::I64,
                },
                4 => Ty::Char,
                5 => Ty::Bool,
                6 => {
                    if self.lifetimes > 0 && r.pct(60) && *vs > 0 {
                        *vs -= 1;
                        Ty::RefStr(r.below(self.lifetimes))
                    } else if r.pct(20) {
                        Ty::Bytes
                    } else {
                        Ty::Str
                    }
                }
                7 => {
                    if r.pct(70) || *vs == 0 {
                        continue;
                    }
                    *vs -= 1;
                    Ty::Arr
                }
                8 => Ty::Opt(Box::new(self.rand_ty(r, depth - 1, vs))),
                9 | 10 => {
                    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
                    Ty::Tuple((0..n).map(|_| self.rand_ty(r, depth - 1, vs)).collect())
                }
                _ => {
                    if self.defs.is_empty() {
                        continue;
                    }
                    // leaves of a definition are counted conservatively
                    if *vs < 2 {
                        continue;
                    }
                    *vs -= 2;
                    Ty::Named(r.below(self.defs.len()))
                }
            };
        }
    }

    fn rand_def(&self, r: &mut Rng, name: &str, is_enum: bool, depth: usize, vs: usize) -> Def {
        let mut names: Vec<&str> = VNAMES.to_vec();
        r.shuffle(&mut names);
        let n = if is_enum { r.range(1, 5) } else { 1 };
        let variants = (0..n)
            .map(|k| {
                let form = r.weighted(&[2, 5, 4]) as u8;
                let nf = if form == 0 {
                    0
                } else if form == 1 && r.pct(8) {
                    // wider than the tuples that the standard library knows
                    r.range(12, 16)
                } else {
                    *r.pick(&[0, 1, 1, 2, 2, 3, 4])
                };
                let mut vs = vs;
                let mut fnames: Vec<&str> = FNAMES.to_vec();
                r.shuffle(&mut fnames);
                Variant {
                    name: if is_enum { names[k].to_string() } else { name.to_string() },
                    form,
                    fields: (0..nf)
                        .map(|k| (fnames.get(k).unwrap_or(&"").to_string(), self.rand_ty(r, if nf > 4 { 0 } else { depth }, &mut vs)))
                        .collect(),
                }
            })
            .collect();
        Def {
            name: name.into(),
            is_enum,
            variants,
        }
    }

    fn rand_val(&self, r: &mut Rng, t: &Ty, comp: &mut u32) -> Val {
        let mut c = || {
            *comp += 1;
            *comp - 1
        };
        match t {
            Ty::V => Val::V(c()),
            Ty::Arr => Val::Arr(c()),
            Ty::RefStr(_) => Val::RefStr(c()),
            Ty::U8 => Val::Int(*r.pick(&[0, 1, 2, 97, 255])),
            Ty::I64 => Val::Int(*r.pick(&[0, 1, 2, 3, 1 << 40, -1, -1, i64::MIN as i128])),
            Ty::I8 => Val::Int(*r.pick(&[0, 1, -1, -128, 127])),
            Ty::U128 => Val::Int(*r.pick(&[0, 1, u64::MAX as i128, u64::MAX as i128 + 1, u64::MAX as i128 + 2, i128::MAX])),
            Ty::F64 => Val::Float(*r.pick(FLOATS)),
            Ty::Bytes => Val::Bytes(*r.pick(BYTES)),
            Ty::Char => Val::Char(*r.pick(CHARS)),
            Ty::Bool => Val::Bool(r.pct(50)),
            Ty::Str => Val::Str(*r.pick(STRS)),
            Ty::Opt(t) => {
                if r.pct(35) {
                    Val::None
                } else {
                    Val::Some(Box::new(self.rand_val(r, t, comp)))
                }
            }
            Ty::Tuple(ts) => Val::Tuple(ts.iter().map(|t| self.rand_val(r, t, comp)).collect()),
            Ty::Named(d) => {
                let k = r.below(self.defs[*d].variants.len());
                let fs = self.defs[*d].variants[k].fields.clone();
                Val::Named(*d, k, fs.iter().map(|f| self.rand_val(r, &f.1, comp)).collect())
            }
        }
    }

    fn lit(&self, r: &mut Rng, t: &Ty, v: &Val) -> Pat {
        if r.pct(25) {
            let c: Vec<&(String, Ty, Val)> = self.consts.iter().filter(|c| c.1 == *t && c.2 == *v).collect();
            if !c.is_empty() {
                return Pat::Lit(r.pick(&c).0.clone(), v.clone());
            }
        }
        let s = match v {
            Val::Int(x) => match (t, r.below(4)) {
                (Ty::U8, 0) => format!("b'\\x{:02x}'", x),
                (Ty::U8, 1) => format!("{}u8", x),
                (Ty::I64, 0) => format!("{}_i64", x),
                (Ty::I8, 0) => format!("{}i8", x),
                (Ty::U128, 0) => format!("{}_u128", x),
                (Ty::U128, 1) => format!("0b{:b}", x),
                (_, 2) if *x >= 0 => format!("0x{:x}", x),
                (_, 3) if *x >= 1000 => {
                    let s = x.to_string();
                    format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..])
                }
                _ => x.to_string(),
            },
            Val::Char(c) => format!("{:?}", c),
            Val::Bool(b) => b.to_string(),
            Val::Float(x) => match r.below(3) {
                0 => format!("{}f64", x),
                1 => format!("{}e0", x),
                _ => x.to_string(),
            },
            Val::Bytes(x) => match (r.pct(30), std::str::from_utf8(x)) {
                (true, Ok(x)) => format!("br#\"{}\"#", x),
                _ => bytes(x),
            },
            Val::Str(s) => {
                if r.pct(30) && !s.contains('#') {
                    format!("r#\"{}\"#", s)
                } else {
                    format!("{:?}", s)
                }
            }
            _ => unreachable!(),
        };
        Pat::Lit(s, v.clone())
    }

    /// A pattern that matches `v`
    fn pat(&self, r: &mut Rng, t: &Ty, v: &Val, depth: usize, left: &mut usize) -> Pat {
        let p = if depth == 0 { 8 } else { 30 };
        if r.pct(p) {
            return if r.pct(50) && *left > 0 {
                *left -= 1;
                Pat::Choose
            } else {
                Pat::Wild
            };
        }
        match (t, v) {
            (Ty::V | Ty::Arr | Ty::RefStr(_), _) => {
                if r.pct(75) && *left > 0 {
                    *left -= 1;
                    Pat::Choose
                } else {
                    Pat::Wild
                }
            }
            (Ty::Opt(_), Val::None) => Pat::None,
            (Ty::Opt(t), Val::Some(v)) => Pat::Some(Box::new(self.pat(r, t, v, depth + 1, left))),
            (Ty::Tuple(ts), Val::Tuple(vs)) => Pat::Tuple(self.seq(r, ts, vs, depth, left)),
            (Ty::Named(d), Val::Named(_, k, vs)) => {
                let var = &self.defs[*d].variants[*k];
                let ts: Vec<Ty> = var.fields.iter().map(|f| f.1.clone()).collect();
                match var.form {
                    0 => {
                        if r.pct(15) {
                            Pat::Struct(*d, *k, vec![], r.pct(50))
                        } else {
                            Pat::Path(*d, *k)
                        }
                    }
                    1 => {
                        if r.pct(6) {
                            Pat::Struct(*d, *k, vec![], true)
                        } else {
                            Pat::Enum(*d, *k, self.seq(r, &ts, vs, depth, left))
                        }
                    }
                    _ => {
                        let mut order: Vec<usize> = (0..ts.len()).collect();
                        r.shuffle(&mut order);
                        let mut dots = false;
                        let mut fs = vec![];
                        for k in order {
                            if r.pct(20) {
                                dots = true;
                                continue;
                            }
                            fs.push((k, self.pat(r, &ts[k], &vs[k], depth + 1, left)));
                        }
                        if !dots {
                            dots = r.pct(10);
                        }
                        Pat::Struct(*d, *k, fs, dots)
                    }
                }
            }
            _ => self.lit(r, t, v),
        }
    }

    fn seq(&self, r: &mut Rng, ts: &[Ty], vs: &[Val], depth: usize, left: &mut usize) -> Seq {
        let n = ts.len();
        if n >= 12 && r.pct(50) {
            // the payload must not be more than tuples can be
            *left = left.saturating_sub(n);
            return Seq(vec![Pat::Choose; n], None);
        }
        let (a, b) = if r.pct(30) {
            let a = r.below(n + 1);
            (a, Some(r.range(a, n)))
        } else {
            (n, None)
        };
        let pre = (0..a).map(|k| self.pat(r, &ts[k], &vs[k], depth + 1, left)).collect();
        let post = b.map(|b| (b..n).map(|k| self.pat(r, &ts[k], &vs[k], depth + 1, left)).collect());
        Seq(pre, post)
    }

    // ----------------------------------------------------------------------------------------

    pub fn matches<'v>(&self, p: &Pat, v: &'v Val, out: &mut Vec<&'v Val>) -> bool {
        match (p, v) {
            (Pat::Wild, _) => true,
            (Pat::Choose, v) => {
                out.push(v);
                true
            }
            (Pat::Lit(_, l), v) => l == v,
            (Pat::None, Val::None) => true,
            (Pat::Some(p), Val::Some(v)) => self.matches(p, v, out),
            (Pat::Tuple(s), Val::Tuple(vs)) => self.seq_matches(s, vs, out),
            (Pat::Enum(_, k, s), Val::Named(_, j, vs)) => k == j && self.seq_matches(s, vs, out),
            (Pat::Path(_, k), Val::Named(_, j, _)) => k == j,
            (Pat::Struct(_, k, fs, _), Val::Named(_, j, vs)) => {
                k == j && fs.iter().all(|(f, p)| self.matches(p, &vs[*f], out))
            }
            _ => false,
        }
    }

    fn seq_matches<'v>(&self, s: &Seq, vs: &'v [Val], out: &mut Vec<&'v Val>) -> bool {
        s.0.iter().zip(vs).all(|(p, v)| self.matches(p, v, out))
            && match &s.1 {
                None => true,
                Some(post) => post
                    .iter()
                    .zip(&vs[vs.len() - post.len()..])
                    .all(|(p, v)| self.matches(p, v, out)),
            }
    }

    /// Terminal and chosen parts of a value
    pub fn classify<'v>(&self, v: &'v Val) -> (usize, Vec<&'v Val>) {
        for (k, (_, p, _)) in self.terms.iter().enumerate() {
            let mut out = vec![];
            if self.matches(p, v, &mut out) {
                return (k, out);
            }
        }
        panic!("patterns are not exhaustive");
    }

    pub fn dbg(&self, v: &Val, i: u32) -> String {
        match v {
            Val::V(c) => format!("V{}", (i + 1) * 8 + c),
            Val::Arr(c) => format!("[V{}]", (i + 1) * 8 + c),
            Val::RefStr(c) => format!("{:?}", format!("s{}.{}", i, c)),
            Val::Int(x) => x.to_string(),
            Val::Float(x) => x.to_string(),
            Val::Bytes(x) => format!("{:?}", x),
            Val::Char(c) => format!("{:?}", c),
            Val::Bool(b) => b.to_string(),
            Val::Str(s) => format!("{:?}", s),
            Val::None => "None".into(),
            Val::Some(v) => format!("Some({})", self.dbg(v, i)),
            Val::Tuple(vs) => {
                let v: Vec<String> = vs.iter().map(|v| self.dbg(v, i)).collect();
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Val::Named(d, k, vs) => {
                let var = &self.defs[*d].variants[*k];
                let v: Vec<String> = vs.iter().map(|v| self.dbg(v, i)).collect();
                match var.form {
                    0 => var.name.clone(),
                    _ if v.is_empty() => var.name.clone(),
                    1 => format!("{}({})", var.name, v.join(", ")),
                    _ => format!(
                        "{} {{ {} }}",
                        var.name,
                        var.fields
                            .iter()
                            .zip(&v)
                            .map(|(f, v)| format!("{}: {}", f.0.trim_start_matches("r#"), v))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                }
            }
        }
    }

    /// Debug form of the value of a bound terminal
    pub fn dbg_chosen(&self, parts: &[&Val], i: u32) -> String {
        let v: Vec<String> = parts.iter().map(|v| self.dbg(v, i)).collect();
        if v.len() == 1 {
            v[0].clone()
        } else {
            format!("({})", v.join(", "))
        }
    }

    fn expr(&self, v: &Val) -> String {
        match v {
            Val::V(c) => format!("::pgrt::v(i, {})", c),
            Val::Arr(c) => format!("[::pgrt::v(i, {})]", c),
            Val::RefStr(c) => format!("::pgrt::s(i, {})", c),
            Val::Int(x) => x.to_string(),
            Val::Float(x) => x.to_string(),
            Val::Bytes(x) => bytes(x),
            Val::Char(c) => format!("{:?}", c),
            Val::Bool(b) => b.to_string(),
            Val::Str(s) => format!("{:?}", s),
            Val::None => "None".into(),
            Val::Some(v) => format!("Some({})", self.expr(v)),
            Val::Tuple(vs) => {
                let v: Vec<String> = vs.iter().map(|v| self.expr(v) + ",").collect();
                format!("({})", v.join(" "))
            }
            Val::Named(d, k, vs) => {
                let def = &self.defs[*d];
                let var = &def.variants[*k];
                let p = self.plain_path(*d, *k);
                match var.form {
                    0 => p,
                    1 => format!("{}({})", p, vs.iter().map(|v| self.expr(v)).collect::<Vec<_>>().join(", ")),
                    _ => format!(
                        "{} {{ {} }}",
                        p,
                        var.fields
                            .iter()
                            .zip(vs)
                            .map(|(f, v)| format!("{}: {}", f.0, self.expr(v)))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                }
            }
        }
    }

    fn plain_path(&self, d: usize, k: usize) -> String {
        let def = &self.defs[d];
        if def.is_enum {
            format!("{}::{}", def.name, def.variants[k].name)
        } else {
            def.name.clone()
        }
    }

    fn path(&self, r: &mut Rng, d: usize, k: usize) -> String {
        let def = &self.defs[d];
        let s = self.plain_path(d, k);
        match r.below(8) {
            1 if def.is_enum => format!("Al{}::{}", d, def.variants[k].name),
            _ => s,
        }
    }

    fn pat_src(&self, r: &mut Rng, t: &Ty, p: &Pat) -> String {
        match (p, t) {
            (Pat::Wild, _) => "_".into(),
            (Pat::Choose, t) => {
                let s = self.ty_src(t);
                match r.below(6) {
                    0 => format!("< {} >", s),
                    _ => format!("<{}>", s),
                }
            }
            (Pat::Lit(s, _), _) => s.clone(),
            (Pat::None, _) => (*r.pick(&["None", "Option::None", "core::option::Option::None"])).into(),
            (Pat::Some(p), Ty::Opt(t)) => {
                let a = *r.pick(&["Some", "Option::Some", "std::option::Option::Some"]);
                format!("{}({})", a, self.pat_src(r, t, p))
            }
            (Pat::Tuple(s), Ty::Tuple(ts)) => {
                let mut v = self.seq_src(r, ts, s);
                let n = s.0.len() + s.1.as_ref().map_or(0, |x| x.len() + 1);
                if n == 1 && s.1.is_none() {
                    v += ",";
                } else if n > 0 && r.pct(20) {
                    v += ",";
                }
                format!("({})", v)
            }
            (Pat::Enum(d, k, s), _) => {
                let ts: Vec<Ty> = self.defs[*d].variants[*k].fields.iter().map(|f| f.1.clone()).collect();
                let mut v = self.seq_src(r, &ts, s);
                if !v.is_empty() && r.pct(20) {
                    v += ",";
                }
                format!("{}({})", self.path(r, *d, *k), v)
            }
            (Pat::Path(d, k), _) => self.path(r, *d, *k),
            (Pat::Struct(d, k, fs, dots), _) => {
                let var = &self.defs[*d].variants[*k];
                let mut v: Vec<String> = fs
                    .iter()
                    .map(|(f, p)| format!("{}: {}", var.fields[*f].0, self.pat_src(r, &var.fields[*f].1, p)))
                    .collect();
                if *dots {
                    v.push("..".into());
                } else if !v.is_empty() && r.pct(30) {
                    v.push("".into());
                }
                format!("{} {{ {} }}", self.path(r, *d, *k), v.join(", "))
            }
            _ => unreachable!(),
        }
    }

    fn seq_src(&self, r: &mut Rng, ts: &[Ty], s: &Seq) -> String {
        let mut v: Vec<String> = (0..s.0.len()).map(|k| self.pat_src(r, &ts[k], &s.0[k])).collect();
        if let Some(post) = &s.1 {
            v.push("..".into());
            let at = ts.len() - post.len();
            for (k, p) in post.iter().enumerate() {
                v.push(self.pat_src(r, &ts[at + k], p));
            }
        }
        v.join(", ")
    }

    /// Make a token universe: types, values, overlapping patterns
    pub fn random(r: &mut Rng) -> World {
        let mut w = World {
            defs: vec![],
            consts: vec![],
            root: Ty::U8,
            lifetimes: 0,
            token_name: (*r.pick(&["Token", "Token", "Tok", "T", "Value", "Str"])).to_string(),
            alias: false,
            terms: vec![],
            values: vec![],
        };
        for (k, (t, v)) in [
            (Ty::U8, Val::Int(1)),
            (Ty::I64, Val::Int(1 << 40)),
            (Ty::Char, Val::Char('b')),
            (Ty::Str, Val::Str("if")),
            (Ty::Bool, Val::Bool(true)),
        ]
        .into_iter()
        .enumerate()
        {
            w.consts.push((format!("K{}", k), t, v));
        }
        for k in 0..r.below(4) {
            let e = r.pct(60);
            let d = w.rand_def(r, &format!("D{}", k), e, 1, 2);
            // at most two tracked leaves each
            w.defs.push(d);
            if w.leaves(&Ty::Named(k)) > 2 {
                w.defs.pop();
                break;
            }
        }
        let kind = r.below(12);
        if kind < 9 {
            w.lifetimes = if r.pct(30) { r.range(1, 2) } else { 0 };
            loop {
                let name = w.token_name.clone();
                let d = w.rand_def(r, &name, kind != 8, 2, 7);
                w.defs.push(d);
                let k = w.defs.len() - 1;
                w.root = Ty::Named(k);
                // the declaration must use each of its lifetimes
                let used = (0..w.lifetimes).all(|l| w.uses_lifetime(&w.root, l));
                if w.leaves(&w.root) <= 7 && used {
                    break;
                }
                w.defs.pop();
            }
        } else {
            w.alias = true;
            loop {
                let mut vs = 7;
                w.root = w.rand_ty(r, 3, &mut vs);
                if !matches!(w.root, Ty::RefStr(_)) && w.leaves(&w.root) <= 7 {
                    break;
                }
            }
        }
        let n = r.range(12, 40);
        for _ in 0..n {
            let root = w.root.clone();
            let v = w.rand_val(r, &root, &mut 0);
            w.values.push(v);
        }
        let n = r.range(1, 9);
        let root = w.root.clone();
        let mut pats = vec![];
        for _ in 0..n {
            let v = w.values[r.below(w.values.len())].clone();
            let mut left = if r.pct(25) { 16 } else { 6 };
            pats.push(w.pat(r, &root, &v, 0, &mut left));
        }
        if r.pct(40) {
            // most specific last: only the order decides
            pats.reverse();
        }
        // a catch-all somewhere near the end, complete variant by variant, or both
        let def = w.def_of(&w.root);
        if let (Some(d), true) = (def, r.pct(50)) {
            for k in 0..w.defs[d].variants.len() {
                let var = &w.defs[d].variants[k];
                pats.push(match var.form {
                    0 => Pat::Path(d, k),
                    1 => {
                        if r.pct(50) {
                            Pat::Enum(d, k, Seq(vec![], Some(vec![])))
                        } else {
                            let p = if var.fields.len() >= 12 { 90 } else { 50 };
                            Pat::Enum(d, k, Seq(var.fields.iter().map(|_| if r.pct(p) { Pat::Choose } else { Pat::Wild }).collect(), None))
                        }
                    }
                    _ => Pat::Struct(d, k, vec![], true),
                });
            }
            if r.pct(40) {
                // after completion nothing more matches
                pats.push(Pat::Wild);
            }
        } else {
            pats.push(if r.pct(40) { Pat::Choose } else { Pat::Wild });
        }
        for (k, p) in pats.into_iter().enumerate() {
            w.terms.push((format!("t{}", k), p, r.pct(85)));
        }
        w
    }

    fn uses_lifetime(&self, t: &Ty, l: usize) -> bool {
        match t {
            Ty::RefStr(k) => *k == l,
            Ty::Opt(t) => self.uses_lifetime(t, l),
            Ty::Tuple(ts) => ts.iter().any(|t| self.uses_lifetime(t, l)),
            Ty::Named(d) => self.defs[*d]
                .variants
                .iter()
                .any(|v| v.fields.iter().any(|f| self.uses_lifetime(&f.1, l))),
            _ => false,
        }
    }

    /// Most tracked leaves a value of the type can have
    fn leaves(&self, t: &Ty) -> usize {
        match t {
            Ty::V | Ty::Arr | Ty::RefStr(_) => 1,
            Ty::Opt(t) => self.leaves(t),
            Ty::Tuple(ts) => ts.iter().map(|t| self.leaves(t)).sum(),
            Ty::Named(d) => self.defs[*d]
                .variants
                .iter()
                .map(|v| v.fields.iter().map(|f| self.leaves(&f.1)).sum())
                .max()
                .unwrap_or(0),
            _ => 0,
        }
    }

    /// Program: entry 0 accepts every token sequence and notes each token; entry 1 accepts
    /// exactly one token, of terminal `only`
    pub fn module(&self, r: &mut Rng, name: &str, only: usize, forbid_unsafe: bool) -> String {
        let mut s = format!("mod {} {{\n#![allow(warnings)]\n", name);
        if forbid_unsafe {
            s += "#![forbid(unsafe_code)]\n";
        }
        s += "use ::pgrt::V;\n";
        for (n, t, v) in &self.consts {
            let _ = write!(s, "const {}: {} = {};\n", n, self.ty_src(t), self.expr(v));
        }
        for (k, d) in self.defs.iter().enumerate() {
            let lt = if d.name == self.token_name && self.lifetimes > 0 {
                format!("<{}>", LT[..self.lifetimes].join(", "))
            } else {
                String::new()
            };
            let body = |v: &Variant, vis: &str| match v.form {
                0 => String::new(),
                1 => format!(
                    "({})",
                    v.fields.iter().map(|f| format!("{}{}", vis, self.ty_src(&f.1))).collect::<Vec<_>>().join(", ")
                ),
                _ => format!(
                    " {{ {} }}",
                    v.fields
                        .iter()
                        .map(|f| format!("{}{}: {}", vis, f.0, self.ty_src(&f.1)))
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
            };
            if d.is_enum {
                let vs: Vec<String> = d.variants.iter().map(|v| format!("{}{}", v.name, body(v, ""))).collect();
                let _ = write!(s, "#[derive(Debug)] pub enum {}{} {{ {} }}\n", d.name, lt, vs.join(", "));
                let _ = write!(s, "use {} as Al{};\n", d.name, k);
            } else {
                let v = &d.variants[0];
                let _ = write!(
                    s,
                    "#[derive(Debug)] pub struct {}{}{}{}\n",
                    d.name,
                    lt,
                    body(v, "pub "),
                    if v.form == 2 { "" } else { ";" }
                );
            }
        }
        if self.alias {
            let _ = write!(s, "pub type {} = {};\n", self.token_name, self.ty_src(&self.root));
        }
        let tname = &self.token_name;
        let lts = if self.lifetimes > 0 {
            format!("<{}>", vec!["'static"; self.lifetimes].join(", "))
        } else {
            String::new()
        };
        let _ = write!(s, "pub fn mk(k: u32, i: u32) -> {}{} {{\n    match k {{\n", tname, lts);
        for (k, v) in self.values.iter().enumerate() {
            let _ = write!(s, "        {} => {},\n", k, self.expr(v));
        }
        s += "        _ => unreachable!(),\n    }\n}\n";
        let dlt = if self.lifetimes > 0 {
            format!("<{}>", LT[..self.lifetimes].join(", "))
        } else {
            String::new()
        };
        let _ = write!(s, "parsegen::parser! {{\nenum {}{} {{\n", tname, dlt);
        for (n, p, _) in &self.terms {
            let _ = write!(s, "    {:?} => {},\n", n, self.pat_src(r, &self.root, p));
        }
        s += "}\npub L: () = {\n    => (),\n    L One => (),\n};\nOne: () = {\n";
        for (k, (n, p, bound)) in self.terms.iter().enumerate() {
            if *bound && chosen(p) > 12 {
                // no longer Debug
                let parts = vec!["{:?}"; chosen(p)].join(", ");
                let args: Vec<String> = (0..chosen(p)).map(|k| format!("x.{}", k)).collect();
                let _ = write!(s, "    <x:{:?}> => ::pgrt::note({}, format_args!(\"({})\", {})),\n", n, k, parts, args.join(", "));
            } else if *bound {
                let _ = write!(s, "    <x:{:?}> => ::pgrt::note({}, x),\n", n, k);
            } else {
                let _ = write!(s, "    {:?} => ::pgrt::note({}, \"unbound\"),\n", n, k);
            }
        }
        let _ = write!(s, "}};\npub Only: () = {{\n    {:?} => (),\n}};\n}}\n", self.terms[only].0);
        s += &crate::render::entry_fn(0, "L");
        s += &crate::render::entry_fn(1, "Only");
        s += "pub const ENTRIES: &[::pgrt::Entry] = &[e0, e1];\n}\n";
        s
    }
}

const LT: [&str; 2] = ["'a", "'input"];

fn bytes(x: &[u8]) -> String {
    let v: Vec<String> = x.iter().map(|b| b.escape_ascii().to_string()).collect();
    format!("b\"{}\"", v.concat())
}

/// Number of chosen parts
fn chosen(p: &Pat) -> usize {
    match p {
        Pat::Choose => 1,
        Pat::Some(p) => chosen(p),
        Pat::Tuple(s) | Pat::Enum(_, _, s) => s.0.iter().chain(s.1.iter().flatten()).map(chosen).sum(),
        Pat::Struct(_, _, fs, _) => fs.iter().map(|f| chosen(&f.1)).sum(),
        _ => 0,
    }
}
