//! C20: the expansion ends, whatever the macro is given

use crate::gen;
use crate::gram::*;
use crate::json;
use crate::lr::Lr;
use crate::prng::Rng;
use crate::render::{self, Style};
use crate::run::{self, Env, Opts, Outcome};
use crate::special::violation;
use crate::work::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Token trees

#[derive(Clone, Debug)]
enum Tt {
    Leaf(String),
    Group(char, Vec<Tt>),
}

fn close(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}

/// Split a program text into token trees; only what the generators write is understood
fn lex(s: &[char], at: &mut usize) -> Vec<Tt> {
    let mut v = vec![];
    while *at < s.len() {
        let c = s[*at];
        let from = *at;
        let word = |c: char| c.is_alphanumeric() || c == '_';
        if c.is_whitespace() {
            *at += 1;
        } else if c == '/' && s.get(*at + 1) == Some(&'/') {
            while *at < s.len() && s[*at] != '\n' {
                *at += 1;
            }
        } else if c == '/' && s.get(*at + 1) == Some(&'*') {
            let mut depth = 0;
            while *at + 1 < s.len() {
                if s[*at] == '/' && s[*at + 1] == '*' {
                    depth += 1;
                    *at += 2;
                } else if s[*at] == '*' && s[*at + 1] == '/' {
                    depth -= 1;
                    *at += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    *at += 1;
                }
            }
        } else if "([{".contains(c) {
            *at += 1;
            let inner = lex(s, at);
            *at += 1;
            v.push(Tt::Group(c, inner));
        } else if ")]}".contains(c) {
            return v;
        } else if c == '"' || (c == 'r' && matches!(s.get(*at + 1), Some('"' | '#')) && raw(s, *at)) {
            if c == 'r' {
                *at += 1;
                let mut n = 0;
                while s[*at] == '#' {
                    n += 1;
                    *at += 1;
                }
                *at += 1;
                loop {
                    if s[*at] == '"' && s[*at + 1..].iter().take_while(|c| **c == '#').count() >= n {
                        *at += 1 + n;
                        break;
                    }
                    *at += 1;
                }
            } else {
                *at += 1;
                while s[*at] != '"' {
                    *at += if s[*at] == '\\' { 2 } else { 1 };
                }
                *at += 1;
            }
            v.push(Tt::Leaf(s[from..*at].iter().collect()));
        } else if c == 'r' && s.get(*at + 1) == Some(&'#') {
            *at += 2;
            while *at < s.len() && word(s[*at]) {
                *at += 1;
            }
            v.push(Tt::Leaf(s[from..*at].iter().collect()));
        } else if word(c) || c == '\'' {
            *at += 1;
            if c == '\'' && s.get(*at + 1) == Some(&'\'') {
                *at += 2;
            } else {
                while *at < s.len() && word(s[*at]) {
                    *at += 1;
                }
            }
            v.push(Tt::Leaf(s[from..*at].iter().collect()));
        } else {
            let two: String = s[*at..(*at + 2).min(s.len())].iter().collect();
            if ["=>", "::", "..", "->"].contains(&two.as_str()) {
                *at += 2;
                v.push(Tt::Leaf(two));
            } else {
                *at += 1;
                v.push(Tt::Leaf(c.to_string()));
            }
        }
    }
    v
}

fn raw(s: &[char], at: usize) -> bool {
    let mut k = at + 1;
    while s.get(k) == Some(&'#') {
        k += 1;
    }
    s.get(k) == Some(&'"')
}

fn show(v: &[Tt], out: &mut String) {
    for t in v {
        match t {
            Tt::Leaf(s) => {
                out.push_str(s);
                out.push(if s == ";" || s == "," { '\n' } else { ' ' });
            }
            Tt::Group(c, v) => {
                out.push(*c);
                show(v, out);
                out.push(close(*c));
                out.push(' ');
            }
        }
    }
}

fn count(v: &[Tt]) -> usize {
    v.iter()
        .map(|t| match t {
            Tt::Leaf(_) => 1,
            Tt::Group(_, v) => 1 + count(v),
        })
        .sum()
}

const POOL: &[&str] = &[
    "=>", "=>?", "=", ":", "::", ";", ",", ",,", "<", ">", "<<", ">>", "->", "+", "*", "?", "..", "...", "..=", ".", "|", "||", "&",
    "&&", "!", "#", "@", "$", "_", "-", "-1", "1", "1.5", "0x1f", "b'x'", "'x'", "\"x\"", "\"\"", "b\"x\"", "r#\"x\"#", "'a", "'_", "'static",
    "pub", "enum", "type", "State", "mut", "ref", "struct", "fn", "impl", "dyn", "Self", "self", "crate", "super", "Token", "V", "x",
    "value_stack", "r#type", "pub(crate)", "pub(in self)", "{}", "()", "[]", "(())", "{,}", "<x:X>", "<x:>", "<:X>", "<mut x:X>",
    "type State = V;", "enum Token {}", "enum Token<'a> {}", "X: V = {};", "pub X: V = {};", "X: V = X => x,", "Token::T0", "Token::T0(<V>)",
    "Token::T0(<V>, ..)", "Token::T0 { .. }", "Vec<Vec<V>>", "fn(V) -> V", "impl Fn(V) -> V", "[V; 1 + 1]", "(V,)", "!", "for<'a> fn(&'a V)",
    "if x { y } else { z }", "|x| x", "{ x; y }", "x.await", "x?", "return x", "loop {}", "match x {}", "unsafe { x }", "async { x }", "const { 1 }",
    "\"x\"y", "1y", "true", "#[x]", "#![x]", "///x\n", "//!x\n", "/**x*/",
];

fn change(r: &mut Rng, v: &mut Vec<Tt>, bits: &[Tt]) {
    // into a group, by its size
    let n = v.len();
    if n > 0 && r.pct(75) {
        let gs: Vec<usize> = (0..n).filter(|k| matches!(&v[*k], Tt::Group(_, w) if !w.is_empty())).collect();
        let total: usize = count(v);
        if !gs.is_empty() && r.below(total.max(1)) >= n / 2 {
            let w: Vec<usize> = gs.iter().map(|k| if let Tt::Group(_, x) = &v[*k] { count(x) } else { 0 }).collect();
            let k = gs[r.weighted(&w)];
            if let Tt::Group(_, x) = &mut v[k] {
                change(r, x, bits);
            }
            return;
        }
    }
    let at = r.below(n + 1);
    let other = |r: &mut Rng| -> Tt {
        if r.pct(40) && !bits.is_empty() {
            r.pick(bits).clone()
        } else {
            Tt::Leaf(r.pick(POOL).to_string())
        }
    };
    match r.below(9) {
        0 | 1 if at < n => {
            v.remove(at);
        }
        2 if at < n => {
            let x = v[at].clone();
            let k = r.below(v.len() + 1);
            v.insert(k, x);
        }
        3 if n > 1 => {
            let k = r.below(n);
            v.swap(at.min(n - 1), k);
        }
        4 | 5 if at < n => v[at] = other(r),
        6 if at < n => {
            // another delimiter, or none
            if let Tt::Group(c, x) = v[at].clone() {
                match r.below(3) {
                    0 => v[at] = Tt::Group(*r.pick(&['(', '[', '{']), x),
                    1 => {
                        v.splice(at..=at, x);
                    }
                    _ => v[at] = Tt::Group(c, vec![Tt::Group(c, x)]),
                }
            } else {
                v[at] = Tt::Group(*r.pick(&['(', '[', '{']), vec![v[at].clone()]);
            }
        }
        7 if at < n => {
            // a stretch of tokens goes
            let k = (at + 1 + r.below(6)).min(n);
            v.drain(at..k);
        }
        _ => {
            let x = other(r);
            v.insert(at, x);
        }
    }
}

fn leaves(v: &[Tt], out: &mut Vec<Tt>) {
    for t in v {
        if count(std::slice::from_ref(t)) < 12 {
            out.push(t.clone());
        }
        if let Tt::Group(_, v) = t {
            leaves(v, out);
        }
    }
}

/// The text inside `parser! { .. }`, split
fn invocation(m: &str) -> Option<(String, Vec<Tt>, String)> {
    let at = m.find("parser!")? + 7;
    let chars: Vec<char> = m[at..].chars().collect();
    let mut k = 0;
    while k < chars.len() && chars[k].is_whitespace() {
        k += 1;
    }
    if !matches!(chars.get(k), Some('{' | '(' | '[')) {
        return None;
    }
    let c = chars[k];
    k += 1;
    let v = lex(&chars, &mut k);
    if chars.get(k) != Some(&close(c)) {
        return None;
    }
    let rest: String = chars[k + 1..].iter().collect();
    Some((format!("{}{}", &m[..at], c), v, format!("{}{}", close(c), rest)))
}

// ---------------------------------------------------------------------------------------------
// Shapes that are long or nested

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

fn shape(r: &mut Rng, kind: usize) -> (String, String) {
    let d = r.range(20, 100);
    let n = r.range(200, 1500);
    let tok = "enum Token { \"a\" => Token::A, \"b\" => Token::B(<u32>), }\n";
    let (what, body) = match kind % 26 {
        0 => ("long production", format!("{}pub S: () = {{ {} => (), }};", tok, rep("\"a\" ", n))),
        1 => ("many alternatives", format!("{}pub S: () = {{ {} }};", tok, (0..n / 8).map(|k| format!("{} => (),", rep("\"a\" ", k))).collect::<Vec<_>>().join("\n"))),
        2 => ("many equal alternatives", format!("{}pub S: () = {{ {} }};", tok, rep("\"a\" => (),", n))),
        3 => ("chain of unit productions", format!("{}pub N0: () = {{ N1 => (), }};\n{}", tok, (1..n / 2).map(|k| format!("N{}: () = {{ N{} => (), }};", k, if k + 1 < n / 2 { k + 1 } else { 0 })).collect::<Vec<_>>().join("\n"))),
        4 => ("cycle", format!("{}pub A: () = {{ B => (), => (), }};\nB: () = {{ A A => (), C B C => (), }};\nC: () = {{ A => (), \"a\" => (), }};", tok)),
        5 => ("nullable sequence", format!("{}pub S: () = {{ {} => (), }};\nE: () = {{ => (), \"a\" => (), }};", tok, rep("E ", d / 5))),
        6 => ("nullable chain", format!("{}pub N0: () = {{ N1 N1 => (), }};\n{}\nN{}: () = {{ => (), }};", tok, (1..60).map(|k| format!("N{}: () = {{ N{} N{} => (), }};", k, k + 1, k + 1)).collect::<Vec<_>>().join("\n"), 60)),
        7 => ("no productions", format!("{}pub S: () = {{}};\nT: () = {{}};", tok)),
        8 => ("only itself", format!("{}pub S: () = {{ S => (), }};", tok)),
        9 => ("itself between itself", format!("{}pub S: () = {{ S S S => (), S S => (), S => (), => (), }};", tok)),
        10 => ("nested type", format!("{}pub S: {}u32{} = {{ \"a\" => todo!(), }};", tok, rep("Vec<", d), rep(">", d))),
        11 => ("nested tuple type", format!("{}pub S: {}u32{} = {{ \"a\" => todo!(), }};", tok, rep("(", d), rep(",)", d))),
        12 => ("nested pattern", format!("enum Token {{ \"a\" => {}<u32>{}, }}\npub S: () = {{ \"a\" => (), }};", rep("Token::B(", d), rep(")", d))),
        13 => ("nested tuple pattern", format!("enum Token {{ \"a\" => {}_{}, }}\npub S: () = {{ \"a\" => (), }};", rep("(", d), rep(",)", d))),
        14 => ("nested struct pattern", format!("enum Token {{ \"a\" => {}_{}, }}\npub S: () = {{ \"a\" => (), }};", rep("Token::B { f: ", d), rep("}", d))),
        15 => ("nested action", format!("{}pub S: () = {{ \"a\" => {}(){}, }};", tok, rep("{", d / 2), rep("}", d / 2))),
        16 => ("repeated operators", format!("{}pub S: () = {{ \"a\"{} => (), }};", tok, rep(r.pick(&["+", "*", "?", "+*?", "+ "]), d))),
        17 => ("nested binders", format!("{}pub S: () = {{ {}S{} => (), }};", tok, rep("<x:", d), rep(">", d))),
        18 => ("many lifetimes", format!("enum Token<{}> {{ \"a\" => Token::A, }}\npub S: () = {{ \"a\" => (), }};", (0..d).map(|k| format!("'a{},", k)).collect::<String>())),
        19 => ("lifetimes without end", (*r.pick(&["enum Token<", "enum Token<'a", "enum Token<'a,", "enum Token<,>{}", "enum Token<'a 'b>{}", "enum Token<T>{}", "enum Token<'a: 'b>{}", "enum Token<>{} pub S: () = {=>(),};"])).to_string()),
        20 => ("unfinished", (*r.pick(&["", "enum", "enum Token", "type", "type State", "type State =", "type State = V", "pub", "S", "S:", "S: ()", "S: () =", "pub S: () = {}", "S: () = \"a\"", "S: () = \"a\" =>", "S: () = \"a\" => (),", "S: () = => ,", ";", ",", "=>", "<", "{", "{}"].map(|s| if s == "{" { "{}" } else { s }))).to_string()),
        21 => ("many non-terminals that nothing reaches", format!("{}pub S: () = {{ \"a\" => (), }};\n{}", tok, (0..n).map(|k| format!("N{}: () = {{ \"a\" N{} => (), }};", k, (k * 7 + 3) % n)).collect::<Vec<_>>().join("\n"))),
        22 => ("many terminals", format!("enum Token {{ {} }}\npub S: () = {{ {} }};", (0..n / 4).map(|k| format!("\"t{}\" => Token({}),", k, k)).collect::<String>(), (0..n / 4).map(|k| format!("\"t{}\" => (),", k)).collect::<String>())),
        23 => ("right recursion through many", format!("{}pub N0: () = {{ \"a\" N1 => (), }};\n{}", tok, (1..n / 4).map(|k| format!("N{}: () = {{ \"a\" N{} => (), => (), }};", k, (k + 1) % (n / 4))).collect::<Vec<_>>().join("\n"))),
        24 => ("every non-terminal is an entry point", format!("{}{}", tok, (0..d).map(|k| format!("pub N{}: () = {{ \"a\" N{} => (), \"b\" => (), }};", k, (k * 5 + 2) % d)).collect::<Vec<_>>().join("\n"))),
        _ => ("ambiguous in every way", format!("{}pub S: () = {{ S \"a\" S => (), \"a\" S => (), S \"b\" => (), S S => (), \"b\" => (), => (), T => (), }};\nT: () = {{ S => (), T T => (), }};", tok)),
    };
    (what.to_string(), body)
}

/// Pass parts of the grammar through a `macro_rules!` macro: tokens in invisible groups
fn fragments(r: &mut Rng, v: &[Tt], name: &str) -> Option<String> {
    let kinds = ["tt", "ty", "expr", "literal", "ident", "vis", "path", "pat", "lifetime", "block", "stmt", "item", "meta"];
    let k = *r.pick(&kinds);
    let arg = match k {
        "ty" => "Vec<u32>",
        "expr" => "1 + 1",
        "literal" => "\"a\"",
        "ident" => "X9",
        "vis" => *r.pick(&["pub", "pub(crate)", ""]),
        "path" => "Token::T0",
        "pat" => "Token::T0",
        "lifetime" => "'a",
        "block" => "{ 1 }",
        "stmt" => "let x = 1",
        "item" => "fn f() {}",
        "meta" => "inline",
        _ => "T0",
    };
    let mut w = v.to_vec();
    for _ in 0..r.range(1, 3) {
        put_leaf(r, &mut w, "$x");
    }
    let mut s = String::new();
    show(&w, &mut s);
    if s.contains('$') && s.replace("$x", "").contains('$') {
        return None;
    }
    Some(format!(
        "macro_rules! mac9_{} {{ ($x:{}) => {{ parsegen::parser! {{ {} }} }} }}\nmac9_{}! {{ {} }}\n",
        name, k, s, name, arg
    ))
}

fn put_leaf(r: &mut Rng, v: &mut Vec<Tt>, s: &str) {
    let gs: Vec<usize> = (0..v.len()).filter(|k| matches!(&v[*k], Tt::Group(..))).collect();
    if !gs.is_empty() && r.pct(75) {
        let k = *r.pick(&gs);
        if let Tt::Group(_, x) = &mut v[k] {
            put_leaf(r, x, s);
        }
        return;
    }
    if v.is_empty() || r.pct(30) {
        let at = r.below(v.len() + 1);
        v.insert(at, Tt::Leaf(s.into()));
    } else {
        let at = r.below(v.len());
        v[at] = Tt::Leaf(s.into());
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(PartialEq, Clone, Debug)]
enum End {
    Ends(i32),
    Bad(String),
}

fn compile(env: &Env, file: &str, mods: &[(String, String)], idx: &[usize], wall: Duration, ed: &'static str, st: &mut Stats) -> End {
    let mut text = String::from("#![allow(warnings)]\n");
    let mut spans = vec![];
    let mut line = 2;
    for k in idx {
        text += &mods[*k].1;
        text.push('\n');
        let end = line + mods[*k].1.matches('\n').count();
        spans.push((line, end));
        line = end + 1;
    }
    text += "fn main() {}\n";
    let f = env.work.join(format!("{}.rs", file));
    let out: PathBuf = env.work.join(format!("{}.bin", file));
    std::fs::write(&f, text).unwrap();
    let o = Opts {
        edition: ed,
        expand_only: true,
        wall,
        ..Opts::default()
    };
    let r: Outcome = run::rustc(env, &f, &out, &o, 6000);
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&f);
    let tag = format!("{}.rs:", file);
    let mut hit = vec![false; idx.len()];
    for l in r.stderr.lines() {
        let Some(at) = l.find(&tag) else { continue };
        let mut it = l[at + tag.len()..].splitn(3, ':');
        let (Some(n), Some(_), Some(msg)) = (it.next(), it.next(), it.next()) else { continue };
        let Ok(n) = n.parse::<usize>() else { continue };
        let msg = msg.trim_start();
        if !msg.starts_with("error") {
            continue;
        }
        if ["unclosed delimiter", "unterminated", "unknown start of token", "closing delimiter", "unknown prefix"].iter().any(|x| msg.contains(x)) {
            st.add("batches that are no token trees (nothing expanded)", 1);
            if std::env::var("VERIF_SHOW").is_ok() {
                eprintln!("{}", l);
            }
        }
        if let Some(k) = spans.iter().position(|(a, b)| *a <= n && n <= *b) {
            if !std::mem::replace(&mut hit[k], true) {
                st.add(
                    if msg.contains("proc macro panicked") {
                        "first error of an input: the macro panicked"
                    } else if msg.contains("error[") {
                        "first error of an input: in the expansion"
                    } else {
                        "first error of an input: a syntax error"
                    },
                    1,
                );
            }
        }
    }
    if r.timeout {
        End::Bad(format!("the expansion does not end within {} s", wall.as_secs()))
    } else if let Some(s) = r.signal {
        End::Bad(format!("the compiler is killed by signal {}: {}", s, run::tail(&r.stderr)))
    } else if r.stderr.contains("memory allocation of") && r.stderr.contains("failed") {
        End::Bad(format!("memory is exhausted: {}", run::tail(&r.stderr)))
    } else {
        End::Ends(r.status.unwrap_or(-1))
    }
}

static FOUND: AtomicBool = AtomicBool::new(false);

pub fn check(env: &Env, id: usize, r: &mut Rng, n: usize, large: bool) -> Report {
    let mut rep = Report::default();
    let mut mods: Vec<(String, String)> = vec![];
    let wrap = |k: usize, head: &str, body: &str| format!("mod m{} {{\n{}\n{}\n}}\n", k, head, body);
    while mods.len() < n {
        let k = mods.len();
        let ask = if large { 0 } else { r.weighted(&[5, 9, 2, 2, 1]) };
        match ask {
            // a grammar of any kind
            0 => {
                let mut sk = if large {
                    gen::large(r, id)
                } else {
                    skeleton(r, &[4, 2, 2, 2, 4, 3, 3])
                };
                if sk.n_terms == 0 {
                    continue;
                }
                for _ in 0..r.below(4) {
                    gen::inject(r, &mut sk);
                }
                let mut d = gen::Dress::random(r);
                d.bind_pct = 40;
                let g: Gram = gen::dress(r, &sk, &d);
                if !large && g.size() > 160 {
                    continue;
                }
                let style = Style {
                    seed: r.next() | 1,
                    ..Style::default()
                };
                mods.push(("a grammar of any kind".into(), render::module(&g, &style, &format!("m{}", k))));
            }
            // a grammar whose text was changed
            1 | 2 => {
                let sk = skeleton(r, &[4, 4, 4, 2, 1, 1, 1]);
                if sk.n_terms == 0 {
                    continue;
                }
                let d = gen::Dress::random(r);
                let g: Gram = gen::dress(r, &sk, &d);
                if g.size() > 90 {
                    continue;
                }
                let style = Style {
                    seed: r.next() | 1,
                    ..Style::default()
                };
                let m = render::module(&g, &style, &format!("m{}", k));
                let Some((a, mut v, z)) = invocation(&m) else {
                    rep.stats.add("modules not understood (not used)", 1);
                    mods.push(("a grammar of any kind".into(), m));
                    continue;
                };
                if ask == 2 {
                    let Some(b) = fragments(r, &v, &k.to_string()) else { continue };
                    mods.push(("with macro fragments".into(), wrap(k, "", &b)));
                    continue;
                }
                let mut bits = vec![];
                leaves(&v, &mut bits);
                for _ in 0..*r.pick(&[1, 1, 2, 3, 5, 12]) {
                    change(r, &mut v, &bits);
                }
                let mut s = String::new();
                show(&v, &mut s);
                mods.push(("a grammar with changed tokens".into(), format!("{}{}{}", a, s, z)));
            }
            4 => {
                // only those with a small automaton
                let sk = gen::layered(r);
                let t0 = Instant::now();
                let small = Lr::build(&gen::plain(&sk), 300).is_some();
                rep.stats.max("ms for the automaton of a layered grammar", t0.elapsed().as_millis() as u64);
                if !small {
                    rep.stats.add("layered grammars with too many states (not used)", 1);
                    continue;
                }
                let mut d = gen::Dress::random(r);
                d.bind_pct = 20;
                let g: Gram = gen::dress(r, &sk, &d);
                let style = Style {
                    seed: r.next() | 1,
                    ..Style::default()
                };
                mods.push(("a layered grammar".into(), render::module(&g, &style, &format!("m{}", k))));
            }
            _ => {
                let kind = r.below(26);
                let (what, body) = shape(r, kind);
                let mut body = body;
                if r.pct(15) {
                    let chars: Vec<char> = body.chars().collect();
                    let mut v = lex(&chars, &mut 0);
                    let mut bits = vec![];
                    leaves(&v, &mut bits);
                    change(r, &mut v, &bits);
                    body.clear();
                    show(&v, &mut body);
                }
                mods.push((format!("shape: {}", what), wrap(k, "pub enum Token { A, B(u32) }", &format!("parsegen::parser! {{ {} }}", body))));
            }
        }
    }
    let ed = *r.pick(&["2018", "2021", "2024"]);
    let idx: Vec<usize> = (0..mods.len()).collect();
    let file = format!("tot{}{}", id, if large { "l" } else { "" });
    let t0 = Instant::now();
    // a batch takes up to 3 s
    let wall = Duration::from_secs(if large { 120 } else { 75 });
    let mut notes = Stats::default();
    let end = compile(env, &file, &mods, &idx, wall, ed, &mut notes);
    rep.stats.merge(notes);
    rep.stats.max("seconds for a batch", t0.elapsed().as_secs());
    rep.stats.add("compiler processes", 1);
    for (what, m) in &mods {
        rep.stats.add("inputs expanded", 1);
        rep.stats.add(what, 1);
        rep.stats.distinct.insert(hash(m));
    }
    match &end {
        End::Ends(c) => {
            rep.stats.add(&format!("compiler ended with status {}", c), 1);
            if rep.stats.samples.len() < 2 && id % 7 == 1 {
                let (what, m) = &mods[mods.len() / 2];
                rep.stats.samples.push(json::obj(vec![
                    ("kind", what.clone().into()),
                    ("input", m.chars().take(600).collect::<String>().into()),
                    ("observed", format!("the batch of {} inputs ended with status {} after {:.1} s", mods.len(), c, t0.elapsed().as_secs_f64()).into()),
                ]));
            }
        }
        End::Bad(why) => {
            // narrow it down
            let mut idx = idx;
            let mut why = why.clone();
            let limit = Duration::from_secs(if large { 120 } else { 15 });
            if FOUND.load(Ordering::Relaxed) {
                rep.stats.add("not decided: one that does not end was found elsewhere", 1);
                return rep;
            }
            while idx.len() > 1 {
                let (a, b) = idx.split_at(idx.len() / 2);
                match compile(env, &file, &mods, a, limit, ed, &mut Stats::default()) {
                    End::Bad(w) => {
                        why = w;
                        idx = a.to_vec();
                    }
                    _ => {
                        idx = b.to_vec();
                    }
                }
            }
            // by itself, and once more, with all the time a small input could need
            let again = compile(env, &file, &mods, &idx, wall, ed, &mut Stats::default());
            let End::Bad(w) = again else {
                rep.stats.add("not decided: ends by itself", 1);
                return rep;
            };
            let _ = why;
            FOUND.store(true, Ordering::Relaxed);
            rep.violations.push(violation(
                "C20",
                hash(&mods[idx[0]].1),
                mods[idx[0]].1.len(),
                format!("{} ({})", w, mods[idx[0]].0),
                format!("edition {}", ed),
                "",
                &mods[idx[0]].1,
            ));
        }
    }
    rep
}

pub fn replay(env: &Env, prog: &str) {
    let mods = vec![(String::new(), prog.to_string())];
    let end = compile(env, "replay", &mods, &[0], Duration::from_secs(120), "2021", &mut Stats::default());
    match end {
        End::Ends(c) => println!("observed now: the compiler ends with status {}", c),
        End::Bad(why) => println!("observed now: {}", why),
    }
}
