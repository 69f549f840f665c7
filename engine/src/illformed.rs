//! C13: grammars with one injected defect must not compile

use crate::gram::*;
use crate::json;
use crate::prng::Rng;
use crate::render;
use crate::run::{self, Compiled, Env, Opts};
use crate::special::violation;
use crate::work::*;

#[derive(Clone)]
struct PProd {
    syms: Vec<String>,
    arrow: String,
    action: String,
}

#[derive(Clone)]
struct PNt {
    head: String,
    name: String,
    ty: String,
    eq: &'static str,
    prods: Vec<PProd>,
    end: &'static str,
}

#[derive(Clone)]
struct PEnum {
    head: String,
    entries: Vec<(String, String)>,
}

#[derive(Clone)]
enum Item {
    Enum(PEnum),
    Nt(PNt),
    Raw(String),
}

#[derive(Clone)]
struct Pieces {
    items: Vec<Item>,
}

/// terminals that no production of the base uses
const FRESH: usize = 4;

fn pieces(r: &mut Rng, g: &Gram) -> Pieces {
    let mut items = vec![];
    let entries = g
        .terms
        .iter()
        .enumerate()
        .map(|(t, x)| (render::lit(&x.name), render::token_pattern(t, x, "Token", false)))
        .collect();
    items.push(Item::Enum(PEnum {
        head: "enum Token".into(),
        entries,
    }));
    for n in &g.nts {
        let prods = n
            .prods
            .iter()
            .map(|p| PProd {
                syms: p
                    .syms
                    .iter()
                    .zip(&p.binds)
                    .map(|(y, b)| render::symbol(&mut None, g, y, b, false))
                    .collect(),
                arrow: "=>".into(),
                action: render::action(&mut None, p, g.anon),
            })
            .collect();
        items.push(Item::Nt(PNt {
            head: if n.public { "pub ".into() } else { String::new() },
            name: n.name.clone(),
            ty: n.ty.src.clone(),
            eq: "=",
            prods,
            end: ";",
        }));
    }
    if r.pct(50) {
        let e = items.remove(0);
        let at = r.below(items.len() + 1);
        items.insert(at, e);
    }
    Pieces { items }
}

fn text(p: &Pieces) -> String {
    let mut s = String::from("parsegen::parser! {\n");
    for i in &p.items {
        match i {
            Item::Raw(t) => {
                s += t;
                s.push('\n');
            }
            Item::Enum(e) => {
                s += &e.head;
                s += " {\n";
                for (a, b) in &e.entries {
                    s += &format!("    {} => {},\n", a, b);
                }
                s += "}\n";
            }
            Item::Nt(n) => {
                s += &format!("{}{}: {} {} {{\n", n.head, n.name, n.ty, n.eq);
                for p in &n.prods {
                    s += &format!("    {} {} {},\n", p.syms.join(" "), p.arrow, p.action);
                }
                s += &format!("}}{}\n", n.end);
            }
        }
    }
    s += "}\n";
    s
}

fn module(g: &Gram, p: &Pieces, name: &str) -> String {
    let mut s = format!("mod {} {{\n#![allow(warnings)]\nuse ::pgrt::{{V, N}};\n", name);
    s += &render::token_type(g, "Token");
    s += &text(p);
    s += "pub const ENTRIES: &[::pgrt::Entry] = &[];\n}\n";
    s
}

/// Where a defect is put
struct Place<'a> {
    g: &'a Gram,
    p: Pieces,
    fresh: Vec<usize>,
}

impl Place<'_> {
    fn nts(&self) -> Vec<usize> {
        (0..self.p.items.len()).filter(|k| matches!(self.p.items[*k], Item::Nt(_))).collect()
    }
    fn nt(&mut self, k: usize) -> &mut PNt {
        match &mut self.p.items[k] {
            Item::Nt(n) => n,
            _ => unreachable!(),
        }
    }
    fn en(&mut self) -> &mut PEnum {
        self.p
            .items
            .iter_mut()
            .find_map(|i| match i {
                Item::Enum(e) => Some(e),
                _ => None,
            })
            .unwrap()
    }
    fn fresh(&mut self) -> String {
        let t = self.fresh.pop().unwrap();
        render::lit(&self.g.terms[t].name)
    }

    /// Put symbols somewhere: into a production or a production of their own that
    /// starts with an otherwise unused terminal (no conflict whatever it is taken for),
    /// possibly in a new non-terminal that nothing uses
    fn put(&mut self, r: &mut Rng, syms: Vec<String>) -> &'static str {
        let nts = self.nts();
        match r.below(5) {
            0 | 1 => {
                let k = *r.pick(&nts);
                let n = self.nt(k);
                if !n.prods.is_empty() {
                    let q = r.below(n.prods.len());
                    let at = r.below(n.prods[q].syms.len() + 1);
                    n.prods[q].syms.splice(at..at, syms);
                    return "in a production";
                }
                "nowhere"
            }
            2 | 3 => {
                let f = self.fresh();
                let k = *r.pick(&nts);
                let after = r.pct(30).then(|| self.fresh());
                let n = self.nt(k);
                let mut v = vec![f];
                v.extend(syms);
                v.extend(after);
                let at = r.below(n.prods.len() + 1);
                n.prods.insert(
                    at,
                    PProd {
                        syms: v,
                        arrow: "=>".into(),
                        action: "::pgrt::a(9999).r()".into(),
                    },
                );
                "in a new production"
            }
            _ => {
                let at = r.below(self.p.items.len() + 1);
                self.p.items.insert(
                    at,
                    Item::Nt(PNt {
                        head: String::new(),
                        name: "Unused9".into(),
                        ty: "V".into(),
                        eq: "=",
                        prods: vec![PProd {
                            syms,
                            arrow: "=>".into(),
                            action: "::pgrt::a(9999).r()".into(),
                        }],
                        end: ";",
                    }),
                );
                "in an unused non-terminal"
            }
        }
    }
}

fn bound(r: &mut Rng, s: String) -> String {
    match r.below(3) {
        0 => format!("<q9:{}>", s),
        1 => format!("<mut q9:{}>", s),
        _ => s,
    }
}

/// Inject one defect; None if this grammar has no place for it
fn inject(r: &mut Rng, pl: &mut Place, kind: usize) -> Option<(String, String)> {
    let g = pl.g;
    let names: Vec<String> = g.nts.iter().map(|n| n.name.clone()).collect();
    let texts: Vec<String> = g.terms.iter().map(|t| t.name.clone()).collect();
    match kind {
        0 => {
            let base = r.pick(&names).clone();
            // texts of terminals that could be names
            let idents: Vec<&String> = texts
                .iter()
                .filter(|t| {
                    t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                        && t.chars().next().is_some_and(|c| c.is_ascii_alphabetic())
                })
                .collect();
            let n = match r.below(14) {
                9..=11 if !idents.is_empty() => r.pick(&idents).to_string(),
                12 => format!("T{}", r.below(texts.len())),
                13 => base.to_lowercase(),
                0 => "Undefined9".to_string(),
                1 | 2 => format!("{}1", base),
                3 => format!("{}_", base),
                4 => format!("{}0", base),
                5 => "Token".into(),
                6 => base.to_uppercase(),
                7 | 9..=11 => format!("_{}", base),
                _ => "State".into(),
            };
            if names.contains(&n) || syn_keyword(&n) {
                return None;
            }
            let s = bound(r, n.clone());
            let w = pl.put(r, vec![s]);
            Some(("undefined non-terminal".into(), format!("{} {}", n, w)))
        }
        1 => {
            let base = r.pick(&texts).clone();
            let t = match r.below(9) {
                7 => r.pick(&names).clone(),
                8 => base.trim().to_lowercase(),
                0 => "undefined9".to_string(),
                1 => format!("{} ", base),
                2 => format!(" {}", base),
                3 => String::new(),
                4 => base.to_uppercase(),
                5 => format!("{}{}", base, base),
                _ => names[0].clone(),
            };
            if texts.contains(&t) {
                return None;
            }
            let s = bound(r, render::lit(&t));
            let w = pl.put(r, vec![s]);
            Some(("undefined terminal".into(), format!("{:?} {}", t, w)))
        }
        2 => {
            let k = r.below(texts.len());
            let name = match r.below(3) {
                0 => texts[k].chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>(),
                _ => String::new(),
            };
            let name = if name.is_empty() { render::lit(&texts[k]) } else { format!("\"{}\"", name) };
            let pat = match r.below(3) {
                0 => render::token_pattern(k, &g.terms[k], "Token", false),
                1 => {
                    let o = r.below(texts.len());
                    render::token_pattern(o, &g.terms[o], "Token", false)
                }
                _ => "_".into(),
            };
            let e = pl.en();
            let at = if pat == "_" { e.entries.len() } else { r.below(e.entries.len() + 1) };
            e.entries.insert(at, (name, pat));
            Some(("terminal declared twice".into(), format!("{:?}", texts[k])))
        }
        3 => {
            let ks = pl.nts();
            let k = *r.pick(&ks);
            let f = pl.fresh();
            let mut n = pl.nt(k).clone();
            let what = match r.below(4) {
                0 => "same productions",
                1 => {
                    n.prods.clear();
                    "no productions"
                }
                2 => {
                    for p in &mut n.prods {
                        p.syms.insert(0, f.clone());
                    }
                    "other productions"
                }
                _ => {
                    n.prods = vec![PProd {
                        syms: vec![f],
                        arrow: "=>".into(),
                        action: "::pgrt::a(9999).r()".into(),
                    }];
                    "one other production"
                }
            };
            let was_pub = !n.head.is_empty();
            let v = r.below(3);
            if v == 0 {
                n.head.clear();
            } else if v == 1 && !was_pub {
                n.head = "pub ".into();
            }
            let at = r.below(pl.p.items.len() + 1);
            let d = format!("{} ({}), {} then {}", n.name, what, was_pub, n.head);
            pl.p.items.insert(at, Item::Nt(n));
            Some(("non-terminal declared twice".into(), d))
        }
        4 => {
            let mut e = pl.en().clone();
            let what = match r.below(4) {
                0 => "same",
                1 => {
                    e.entries.clear();
                    "empty"
                }
                2 => {
                    let k = r.below(e.entries.len());
                    e.entries = vec![("\"other9\"".into(), e.entries[k].1.clone())];
                    "other entries"
                }
                _ => {
                    e.head = "enum Token2".into();
                    "other name"
                }
            };
            let at = r.below(pl.p.items.len() + 1);
            pl.p.items.insert(at, Item::Enum(e));
            Some(("token type declared twice".into(), what.into()))
        }
        5 => {
            let tys = ["u32", "String", "()", "V"];
            let a = *r.pick(&tys);
            let b = if r.pct(50) { a } else { *r.pick(&tys) };
            for t in [a, b] {
                let at = r.below(pl.p.items.len() + 1);
                pl.p.items.insert(at, Item::Raw(format!("type State = {};", t)));
            }
            Some(("type State declared twice".into(), format!("{} {}", a, b)))
        }
        6 => {
            pl.p.items.retain(|i| !matches!(i, Item::Enum(_)));
            if r.pct(50) {
                // not even a terminal is used
                for k in pl.nts() {
                    for p in &mut pl.nt(k).prods {
                        p.syms.clear();
                        p.action = "::pgrt::a(9999).r()".into();
                    }
                    pl.nt(k).prods.truncate(1);
                }
            }
            Some(("token type missing".into(), String::new()))
        }
        7 => {
            let n = *r.pick(&["Stat", "state", "Error", "Token", "STATE", "State1", "Location", "S", "_State", "LexerError"]);
            let at = r.below(pl.p.items.len() + 1);
            pl.p.items.insert(at, Item::Raw(format!("type {} = u32;", n)));
            Some(("unknown type declaration".into(), n.into()))
        }
        8 => {
            let op = *r.pick(&["+", "*", "?", "+?", "*+"]);
            let base = if r.pct(50) { render::lit(r.pick(&texts)) } else { r.pick(&names).clone() };
            let s = if r.pct(30) {
                // an operator on the whole binding
                format!("<q9:{}>{}", base, op)
            } else {
                bound(r, format!("{}{}", base, op))
            };
            let w = pl.put(r, vec![s.clone()]);
            Some((format!("unsupported construct {}", &op[..1]), format!("{} {}", s, w)))
        }
        9 => {
            let ks = pl.nts();
            let k = *r.pick(&ks);
            let n = pl.nt(k);
            if n.prods.is_empty() {
                return None;
            }
            let q = r.below(n.prods.len());
            let all = r.pct(20);
            for (i, p) in n.prods.iter_mut().enumerate() {
                if i != q && !all {
                    continue;
                }
                p.arrow = "=>?".into();
                let a = p.action.clone();
                p.action = match r.below(12) {
                    0 => format!("Ok::<_, ()>({})", a),
                    1 | 2 => format!("Ok({})", a),
                    3 => format!("{{ Ok({}) }}", a),
                    4 => format!("Result::Ok({})", a),
                    5 => format!("(Ok({}))", a),
                    6 => format!("Some({})", a),
                    7 => format!("Err({})", a),
                    8 => format!("match Ok({}) {{ Ok(x) => Ok(x), Err(e) => Err(e) }}", a),
                    9 => format!("return Ok({})", a),
                    _ => a,
                };
            }
            Some(("unsupported construct =>?".into(), n.name.clone()))
        }
        10 => {
            // malformed patterns
            let pats = [
                "",
                "Token::",
                "Token::T0 Token::T0",
                "Token::T0 | Token::T1",
                "Token::T0(<V>,,)",
                "Token::T0(<V> <V>)",
                "Token::T0(<V> ..)",
                "Token::T0(<>)",
                "Token::T0(<V)",
                "Token::T0(<V>>)",
                "Token::T0 { f0 }",
                "Token::T0 { f0: }",
                "Token::T0 { f0: <V> f1: <V> }",
                "Token::T0 { .., f0: <V> }",
                "Token::T0 { .., }",
                "Token::T0 { ..; }",
                "Token::T0 { .. .. }",
                "Token::T0(..) { .. }",
                "Token::T0 if true",
                "&Token::T0",
                "[_]",
                "<V",
                "V>",
                "Token::T0(x @ _)",
                "ref x",
                "_ _",
                "!",
                "Token::T0 => Token::T0",
                "1..",
                "(<V>;)",
                "Token::T0(_, .., _, ..)",
                "Token::T0(<V>, <V>, <V>, <V>, <V>, <V>, <V>, <V>)",
                "Token::T0 { no_such_field: _, .. }",
                "Token::T0(<NoSuchType>)",
                "Token::NoSuchVariant",
            ];
            let p = *r.pick(&pats);
            let e = pl.en();
            let at = r.below(e.entries.len() + 1);
            if r.pct(50) || at == e.entries.len() {
                e.entries.insert(at, ("\"pattern9\"".into(), p.into()));
            } else {
                e.entries[at].1 = p.into();
            }
            Some(("malformed pattern".into(), p.into()))
        }
        11 => {
            // malformed declarations of terminals
            let keys = ["'x9'", "9", "x9", "b\"x9\"", "", "\"x9\" \"y9\"", "<q9:\"x9\">", "c\"x9\"", "-\"x9\"", "true", "\"x9\"suffix"];
            let k = *r.pick(&keys);
            let e = pl.en();
            let at = r.below(e.entries.len() + 1);
            let p = r.pick(&e.entries).1.clone();
            e.entries.insert(at, (k.into(), p));
            Some(("malformed terminal".into(), k.into()))
        }
        12 => {
            // malformed symbols
            let t = render::lit(r.pick(&texts));
            let n = r.pick(&names).clone();
            let s = match r.below(17) {
                0 => format!("<{}>", t),
                1 => format!("<q9 {}>", n),
                2 => format!("<q9:>"),
                3 => format!("<:{}>", n),
                4 => format!("q9:{}", n),
                5 => format!("<q9:{} {}>", n, t),
                6 => format!("({})", t),
                7 => format!("<q9:{}", t),
                8 => format!("{} | {}", t, n),
                9 => format!("<mut:{}>", n),
                10 => format!("[{}]", n),
                11 => "'x9'".into(),
                13 => format!("{}{}", t, n),
                14 => format!("'x9' {}", n),
                15 => format!("{} <q9:{}>", *r.pick(&["1", "true", "1.5", "b'x'", "b\"x\""]), n),
                12 => "9".into(),
                _ => format!("{},", n),
            };
            let w = pl.put(r, vec![s.clone()]);
            Some(("malformed symbol".into(), format!("{} {}", s, w)))
        }
        13 => {
            // malformed declarations
            let ks = pl.nts();
            let k = *r.pick(&ks);
            let what = r.below(12);
            let raw = |pl: &mut Place, r: &mut Rng, s: &str| {
                let at = r.below(pl.p.items.len() + 1);
                pl.p.items.insert(at, Item::Raw(s.into()));
            };
            let d = match what {
                0 => {
                    pl.nt(k).eq = "";
                    "no ="
                }
                1 => {
                    pl.nt(k).ty = String::new();
                    "no type"
                }
                2 => {
                    pl.nt(k).end = "";
                    "no ; after }"
                }
                3 => {
                    if pl.nt(k).head.is_empty() {
                        return None;
                    }
                    pl.nt(k).head = "pub pub ".into();
                    "pub pub"
                }
                4 => {
                    if pl.nt(k).prods.is_empty() {
                        return None;
                    }
                    pl.nt(k).prods[0].arrow = "=".into();
                    "= instead of =>"
                }
                5 => {
                    if pl.nt(k).prods.is_empty() {
                        return None;
                    }
                    pl.nt(k).prods[0].action = String::new();
                    "no action"
                }
                6 => {
                    raw(pl, r, "struct X;");
                    "struct"
                }
                7 => {
                    raw(pl, r, "type State = ;");
                    "type State without a type"
                }
                8 => {
                    raw(pl, r, "type State = u32");
                    "type State without ;"
                }
                9 => {
                    raw(pl, r, "type = u32;");
                    "type without a name"
                }
                10 => {
                    let f = pl.fresh();
                    raw(pl, r, &format!("Q9<X>: V = {{ {} => ::pgrt::a(9999).r() }};", f));
                    "non-terminal with parameters"
                }
                _ => {
                    raw(pl, r, ";");
                    "stray ;"
                }
            };
            Some(("malformed declaration".into(), d.into()))
        }
        _ => {
            // two declarations with the same name, one of them hidden behind a pub one
            let pubs: Vec<String> = g.nts.iter().filter(|n| n.public).map(|n| n.name.clone()).collect();
            let f = pl.fresh();
            let n = r.pick(&pubs).clone();
            let at = r.below(pl.p.items.len() + 1);
            pl.p.items.insert(
                at,
                Item::Nt(PNt {
                    head: String::new(),
                    name: n.clone(),
                    ty: "u32".into(),
                    eq: "=",
                    prods: vec![PProd {
                        syms: vec![f],
                        arrow: "=>".into(),
                        action: "0".into(),
                    }],
                    end: ";",
                }),
            );
            Some(("non-terminal declared twice".into(), format!("{} with another type", n)))
        }
    }
}

fn syn_keyword(s: &str) -> bool {
    ["_", "Self", "self", "super", "crate", "fn", "type", "mod", "use", "in", "_1"].contains(&s)
}

const KINDS: usize = 15;

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, p: &Profile) -> Report {
    let mut rep = Report::default();
    let mut bases: Vec<(Gram, Pieces)> = vec![];
    for _ in 0..n {
        let c = make_case(r, p);
        let mut g = c.g;
        for k in 0..FRESH {
            g.terms.push(Term {
                name: format!("fresh{}", k),
                form: 0,
                fields: vec![],
                dots: false,
            });
        }
        for nt in &mut g.nts {
            nt.ty.src = "V".into();
            nt.ty.ids = 1;
        }
        let ps = pieces(r, &g);
        bases.push((g, ps));
    }
    let mods: Vec<String> = bases
        .iter()
        .enumerate()
        .map(|(k, (g, p))| module(g, p, &format!("m{}", k)))
        .collect();
    let o = Opts {
        metadata_only: true,
        edition: *r.pick(&["2018", "2021", "2024"]),
        ..Opts::default()
    };
    let b = run::build(env, &format!("ib{}", id), &mods, &o);
    let mut bad: Vec<(usize, String, String)> = vec![];
    let mut bmods: Vec<String> = vec![];
    for (k, (g, ps)) in bases.iter().enumerate() {
        rep.stats.add("base grammars", 1);
        if !b.results[k].ok() {
            rep.stats.add("base grammars that do not compile (not used)", 1);
            continue;
        }
        for kind in 0..KINDS {
            for _ in 0..if matches!(kind, 0 | 1 | 3 | 8 | 10 | 12 | 13) { 3 } else { 1 } {
                let mut pl = Place {
                    g,
                    p: ps.clone(),
                    fresh: (g.terms.len() - FRESH..g.terms.len()).collect(),
                };
                let Some((what, d)) = inject(r, &mut pl, kind) else { continue };
                let m = module(g, &pl.p, &format!("m{}", bmods.len()));
                if d.ends_with("nowhere") || module_as(&m, "x") == module_as(&mods[k], "x") {
                    continue;
                }
                bad.push((k, what, d));
                bmods.push(m);
            }
        }
    }
    let b = run::build(env, &format!("ii{}", id), &bmods, &o);
    for (j, (k, what, d)) in bad.iter().enumerate() {
        let st = &mut rep.stats;
        st.add("ill-formed grammars", 1);
        st.add(&format!("defect: {}", what), 1);
        st.distinct.insert(hash(&bmods[j]));
        if st.samples.len() < 4 && j % 7 == 3 {
            st.samples.push(json::obj(vec![
                ("base", bases[*k].0.show().into()),
                ("defect", format!("{}: {}", what, d).into()),
                ("observed", format!("{:?}", b.results[j]).into()),
            ]));
        }
        match &b.results[j] {
            Compiled::Yes => {
                rep.violations.push(violation(
                    "C13",
                    hash(&bmods[j]),
                    bmods[j].len(),
                    format!("an ill-formed grammar is accepted: {}: {}", what, d),
                    format!("base grammar: {}", bases[*k].0.show()),
                    "",
                    &bmods[j],
                ));
            }
            Compiled::No(m) => {
                st.add("refused", 1);
                let by = if m.contains("macro panicked") {
                    "refused: the macro panicked"
                } else if m.contains("error[E") {
                    "refused: compile error in the expansion"
                } else {
                    "refused: syntax error"
                };
                st.add(by, 1);
            }
            Compiled::Hang | Compiled::Undecided => st.add("not decided: the compiler did not finish", 1),
            Compiled::Crash(_) => st.add("refused", 1),
        }
    }
    rep
}
