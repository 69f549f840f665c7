//! Renders a grammar as a Rust module that uses `parser!`

use crate::gram::*;
use crate::prng::Rng;
use std::fmt::Write;

#[derive(Clone, Debug, Default)]
pub struct Style {
    /// seed for the free choices of layout; 0: canonical layout
    pub seed: u64,
    /// which non-terminals to publish, overriding the grammar
    pub publish: Option<Vec<bool>>,
    pub forbid_unsafe: bool,
    /// order of non-terminal declarations (indices), default as is
    pub nt_order: Option<Vec<usize>>,
    pub term_order: Option<Vec<usize>>,
    /// seed for which parts are passed in as fragments of a `macro_rules` macro; 0: none
    pub fragments: u64,
    /// order of productions of each non-terminal
    pub prod_order: Option<Vec<Vec<usize>>>,
}

impl Style {
    /// Name of the token type
    pub fn token(&self) -> &'static str {
        match self.seed % 11 {
            1 => "r#enum",
            2 => "Größe_",
            3 => "tok",
            4 => "LexerError",
            5 => "SemanticAction",
            6 => "Tok",
            _ => "Token",
        }
    }
}

const OPEN: char = '\u{f0001}';
const CLOSE: char = '\u{f0002}';

/// Something that can be passed in as a fragment
fn part(on: bool, kind: &str, s: String) -> String {
    if on {
        format!("{}{}:{}{}", OPEN, kind, s, CLOSE)
    } else {
        s
    }
}

/// Make fragments of some parts; all binders and actions, or none, since they must agree
fn with_fragments(text: &str, seed: u64) -> String {
    let mut r = Rng::new(seed);
    let locals = r.pct(75);
    let pct = *r.pick(&[15, 50, 100]);
    let mut out = String::new();
    let mut head = vec![];
    let mut args = vec![];
    for (k, piece) in text.split(OPEN).enumerate() {
        if k == 0 {
            out += piece;
            continue;
        }
        let (x, rest) = piece.split_once(CLOSE).unwrap();
        let (kind, x) = x.split_once(':').unwrap();
        let kind = match kind {
            "expr" if x.starts_with('{') && r.pct(50) => "block",
            "binder" | "name" if r.pct(15) => "tt",
            "binder" | "name" => "ident",
            "literal" if r.pct(20) => "expr",
            "literal" if r.pct(20) => "tt",
            k => k,
        };
        let local = matches!(piece.split(':').next(), Some("expr" | "binder"));
        if if local { locals } else { r.pct(pct) } {
            out += &format!("$p{}", head.len());
            head.push(format!("$p{}:{}", head.len(), kind));
            args.push(x.to_string());
        } else {
            out += x;
        }
        out += rest;
    }
    head.push("end".into());
    args.push("end".into());
    format!("macro_rules! parts {{ ({}) => {{ {} }} }}\nparts!({});\n", head.join(", "), out, args.join(", "))
}

pub fn lit(s: &str) -> String {
    format!("{:?}", s)
}

fn lit_styled(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => {
            let plain = !s.contains('\r') && s.chars().all(|c| c != '\0');
            let mut h = String::new();
            while s.contains(&format!("\"{}", h)) {
                h.push('#');
            }
            if plain {
                return format!("r{}\"{}\"{}", h, s, h);
            }
            lit(s)
        }
        1 => {
            let mut o = String::from("\"");
            for c in s.chars() {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            o.push('"');
            o
        }
        _ => lit(s),
    }
}

pub fn token_pattern(t: usize, term: &Term, ty: &str, frag: bool) -> String {
    let mut s = part(frag, "path", format!("{}::T{}", ty, t));
    let n = term.fields.len();
    // trailing unchosen fields that `..` stands for
    let cut = if term.dots {
        let k = term.fields.iter().rposition(|c| *c).map_or(0, |k| k + 1);
        Some(k)
    } else {
        None
    };
    let upto = cut.unwrap_or(n);
    match term.form {
        0 => {}
        1 => {
            s += "(";
            for i in 0..upto {
                s += &if term.fields[i] { format!("<{}>, ", part(frag, "ty", "V".into())) } else { "_, ".into() };
            }
            if cut.is_some() {
                s += "..";
            }
            s += ")";
        }
        _ => {
            s += " { ";
            for i in 0..upto {
                let _ = write!(s, "f{}: {}, ", i, if term.fields[i] { format!("<{}>", part(frag, "ty", "V".into())) } else { "_".into() });
            }
            if cut.is_some() {
                s += "..";
            }
            s += " }";
        }
    }
    s
}

pub fn action(r: &mut Option<Rng>, p: &Prod, anon: bool) -> String {
    let mut s = format!("::pgrt::a({})", if anon { ANON } else { p.id });
    // labels of the bound values: positions, or, so that the actions of productions that bind
    // the same names are the same text, ranks
    let order = if anon {
        p.by_name()
    } else {
        (0..p.binds.len()).collect()
    };
    let mut last = None;
    for (rank, k) in order.into_iter().enumerate() {
        let label = if anon { rank } else { k };
        if let Some(b) = &p.binds[k] {
            if b.mutable {
                let _ = write!(s, ".m(&mut {})", b.name);
            }
            if p.pass != Some(k) {
                let _ = write!(s, ".b({}, {})", label, b.name);
            } else {
                last = Some((label, &b.name));
            }
        }
    }
    match last {
        Some((k, name)) => {
            let _ = write!(s, ".pass({}, {})", k, name);
        }
        None => s += ".r()",
    }
    if anon {
        return s;
    }
    if let Some(r) = r {
        match r.below(8) {
            0 => return format!("{{ {} }}", s),
            1 => return format!("{{ let value_stack = {}; value_stack }}", s),
            2 => return format!("{{ return {}; }}", s),
            3 => return format!("if true {{ {} }} else {{ unreachable!() }}", s),
            4 => return format!("({})", s),
            _ => {}
        }
    }
    s
}

pub fn symbol(r: &mut Option<Rng>, g: &Gram, s: &Sym, b: &Option<Bind>, frag: bool) -> String {
    let base = match s {
        Sym::T(t) => part(
            frag,
            "literal",
            match r {
                Some(r) => lit_styled(r, &g.terms[*t].name),
                None => lit(&g.terms[*t].name),
            },
        ),
        Sym::N(m) => part(frag, "name", g.nts[*m].name.clone()),
    };
    match b {
        None => base,
        Some(b) => format!(
            "<{}{}:{}>",
            if b.mutable { "mut " } else { "" },
            part(frag, "binder", b.name.clone()),
            base
        ),
    }
}

/// `parser! { .. }` without the surrounding module
pub fn macro_text(g: &Gram, st: &Style) -> String {
    let mut r = if st.seed == 0 { None } else { Some(Rng::new(st.seed)) };
    let frag = st.fragments != 0;
    let mut items: Vec<String> = vec![];

    let mut e = format!("enum {} {{\n", part(frag, "name", st.token().into()));
    let order: Vec<usize> = st.term_order.clone().unwrap_or_else(|| (0..g.terms.len()).collect());
    for (k, t) in order.iter().enumerate() {
        let l = match &mut r {
            Some(r) => lit_styled(r, &g.terms[*t].name),
            None => lit(&g.terms[*t].name),
        };
        let _ = write!(
            e,
            "    {} => {}",
            part(frag, "literal", l),
            token_pattern(*t, &g.terms[*t], st.token(), frag)
        );
        if k + 1 < order.len() || r.as_mut().is_none_or(|r| r.pct(50)) {
            e += ",";
        }
        e += "\n";
    }
    e += "}\n";
    items.push(e);

    let order: Vec<usize> = st.nt_order.clone().unwrap_or_else(|| (0..g.nts.len()).collect());
    for n in order {
        let nt = &g.nts[n];
        let public = st.publish.as_ref().map_or(nt.public, |p| p[n]);
        let mut s = format!(
            "{} {}: {} = ",
            part(frag, "vis", if public { "pub" } else { "" }.into()),
            part(frag, "name", nt.name.clone()),
            part(frag, "ty", nt.ty.src.clone())
        );
        let porder: Vec<usize> = st
            .prod_order
            .as_ref()
            .map_or_else(|| (0..nt.prods.len()).collect(), |o| o[n].clone());
        let single = porder.len() == 1 && r.as_mut().is_some_and(|r| r.pct(50));
        let prods: Vec<(String, String, bool, bool)> = porder
            .iter()
            .map(|k| {
                let p = &nt.prods[*k];
                let syms: Vec<String> = p
                    .syms
                    .iter()
                    .zip(&p.binds)
                    .map(|(y, b)| symbol(&mut r, g, y, b, frag))
                    .collect();
                let starts_lt = p.syms.first().is_some() && p.binds[0].is_some();
                let a = action(&mut r, p, g.anon);
                // what the comma may be left out behind
                let open = a.ends_with("()");
                (syms.join(" "), part(frag, "expr", a), starts_lt, open)
            })
            .collect();
        if single {
            let (a, b, ..) = &prods[0];
            let _ = write!(s, "{} => {},\n", a, b);
        } else {
            s += "{\n";
            for (k, (a, b, _, open)) in prods.iter().enumerate() {
                let _ = write!(s, "    {} => {}", a, b);
                let next_lt = prods.get(k + 1).is_some_and(|p| p.2);
                // the comma is optional; leave it out only where the expression cannot
                // swallow what follows
                let omit = !next_lt && *open && r.as_mut().is_some_and(|r| r.pct(30));
                s += if omit { "\n" } else { ",\n" };
            }
            s += "};\n";
        }
        items.push(s);
    }
    if let Some(r) = &mut r {
        // position of the token enum, `type State`
        if r.pct(30) {
            let ty = *r.pick(&["u32", "Vec<V>", "()", "&'static str"]);
            let at = r.below(items.len() + 1);
            let at = at.max(1);
            items.insert(at, format!("type State = {};\n", ty));
        }
        if r.pct(40) {
            let e = items.remove(0);
            let at = r.below(items.len() + 1);
            items.insert(at, e);
        }
    }
    let (sep, form) = match &mut r {
        Some(r) => (r.below(5), r.below(8)),
        None => (9, 9),
    };
    let body = items.join(match sep {
        0 => "\n\n    // comment\n\n",
        1 => "/* comment */ ",
        _ => "\n",
    });
    let text = match form {
        0 => format!("parsegen::parser!({});\n", body),
        1 => format!("::parsegen::parser![{}];\n", body),
        2 => format!("use parsegen::parser; parser! {{ {} }}\n", body),
        _ => format!("parsegen::parser! {{\n{}}}\n", body),
    };
    if frag {
        with_fragments(&text, st.fragments)
    } else {
        text
    }
}

/// The token type and the function that makes tokens
pub fn token_type(g: &Gram, ty: &str) -> String {
    let mut s = format!("pub enum {} {{\n", ty);
    for (t, term) in g.terms.iter().enumerate() {
        let n = term.fields.len();
        let _ = match term.form {
            0 => write!(s, "    T{},\n", t),
            1 => write!(s, "    T{}({}),\n", t, vec!["V"; n].join(", ")),
            _ => write!(
                s,
                "    T{} {{ {} }},\n",
                t,
                (0..n).map(|i| format!("f{}: V", i)).collect::<Vec<_>>().join(", ")
            ),
        };
    }
    let _ = write!(
        s,
        "}}\npub fn mk(k: u32, i: u32) -> {} {{\n    let _ = i;\n    match k {{\n",
        ty
    );
    for (t, term) in g.terms.iter().enumerate() {
        let n = term.fields.len();
        let _ = match term.form {
            0 => write!(s, "        {} => {}::T{},\n", t, ty, t),
            1 => write!(
                s,
                "        {} => {}::T{}({}),\n",
                t,
                ty,
                t,
                (0..n).map(|f| format!("::pgrt::v(i, {})", f)).collect::<Vec<_>>().join(", ")
            ),
            _ => write!(
                s,
                "        {} => {}::T{} {{ {} }},\n",
                t,
                ty,
                t,
                (0..n).map(|f| format!("f{}: ::pgrt::v(i, {})", f, f)).collect::<Vec<_>>().join(", ")
            ),
        };
    }
    s += "        _ => unreachable!(),\n    }\n}\n";
    s
}

pub fn entry_fn(k: usize, name: &str) -> String {
    format!(
        "pub fn e{k}(job: &::pgrt::Job) {{ match {name}::parse(::pgrt::Src::new(job, mk)) {{ Ok(x) => ::pgrt::ok(x), Err(ParseError::LexerError(e)) => ::pgrt::err(::pgrt::Res::Lex(&e)), Err(ParseError::ParserError {{ found, expected }}) => ::pgrt::err(::pgrt::Res::Syn(found, expected)) }} }}\n"
    )
}

/// The whole module; entries in the order of the published non-terminals' indices
pub fn module(g: &Gram, st: &Style, name: &str) -> String {
    let mut s = format!("mod {} {{\n#![allow(warnings)]\n", name);
    if st.forbid_unsafe {
        s += "#![forbid(unsafe_code)]\n";
    }
    s += "use ::pgrt::{V, N};\n";
    s += &token_type(g, st.token());
    s += &macro_text(g, st);
    let mut k = 0;
    for n in 0..g.nts.len() {
        let public = st.publish.as_ref().map_or(g.nts[n].public, |p| p[n]);
        if public {
            s += &entry_fn(k, &g.nts[n].name);
            k += 1;
        }
    }
    let _ = write!(
        s,
        "pub const ENTRIES: &[::pgrt::Entry] = &[{}];\n}}\n",
        (0..k).map(|k| format!("e{}", k)).collect::<Vec<_>>().join(", ")
    );
    s
}
