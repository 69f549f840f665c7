//! One check per property

use crate::cost;
use crate::corpus;
use crate::deep;
use crate::expand;
use crate::gen;
use crate::illformed;
use crate::prng::Rng;
use crate::run::{self, Env};
use crate::special;
use crate::state;
use crate::total;
use crate::variants;
use crate::work::*;
use std::path::Path;
use std::time::Duration;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21",
];

pub struct Out {
    pub rep: Report,
    /// which counter is the number of evaluations
    pub evaluations: &'static str,
    pub rule: String,
    pub assumptions: Vec<&'static str>,
}

const TRUSTED: &[&str] = &[
    "the reference canonical LR(1) construction and the Earley recogniser (written independently, compared with each other on every run judged)",
    "rustc and std compile the generated code faithfully",
];

const STD_RULE: &str = "random grammars (families: unrestricted, lead-terminal, composed idioms, tiny, mutated, ambiguous, large; filtered by the reference construction) compiled with the macro built from /repo; inputs: a sentence through every reachable (state, item) of the reference automaton, all one-token continuations, random and mutated sentences, short strings, lexer errors and injected panics, and inputs of 70 000 tokens (judged by the number and hash of the actions, pulls and result). One evaluation is one run of a generated parser judged by the monitors; distinct by (grammar, entry point, input, fault), non-trivial if the input is not empty";

/// The standard workload, and some inputs with more tokens than fit 16 bits
fn standard_out(env: &Env, seed: u64, p: &Profile, thorough: bool) -> Out {
    let mut rep = standard(env, seed, p);
    let (n, t) = if thorough { (48, 120) } else { (8, 12) };
    let mut q = p.clone();
    q.max_states = q.max_states.min(300);
    rep.merge(special::chunks(env, p.prop, seed ^ 0x1660, n, Duration::from_secs(t), |env, k, r| {
        deep::check(env, k, r, 5, 70_000, &q, false)
    }));
    let m = rep.stats.n.get("deep runs").copied().unwrap_or(0);
    rep.stats.add("runs", m);
    Out {
        rep,
        evaluations: "runs",
        rule: STD_RULE.into(),
        assumptions: TRUSTED.to_vec(),
    }
}

pub fn run(env: &Env, id: &'static str, seed: u64, thorough: bool) -> Out {
    let mut out = run_workload(env, id, seed, thorough);
    if id != "C11" {
        let rep = corpus::check(env, id, &["2021"]);
        out.rep.merge(rep);
    }
    out
}

fn run_workload(env: &Env, id: &'static str, seed: u64, thorough: bool) -> Out {
    let mut p = Profile::new(id);
    if thorough {
        p.chunks = 600;
        p.deadline = Duration::from_secs(480);
        p.large = 3 * gen::LARGE;
        p.max_states = 1200;
    } else {
        p.chunks = 72;
        p.deadline = Duration::from_secs(36);
        p.large = gen::LARGE;
    }
    match id {
        "C01" => {
            p.fam = [3, 3, 4, 1, 4, 0, 3];
            p.want = Want::NoRr;
            p.err_pct = 5;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C02" => {
            p.fam = [4, 3, 6, 2, 0, 0, 3];
            p.err_pct = 0;
            p.fault_pct = 0;
            p.sentences = true;
            standard_out(env, seed, &p, thorough)
        }
        "C03" => {
            p.want = Want::Reduced;
            standard_out(env, seed, &p, thorough)
        }
        "C04" => {
            p.want = Want::Reduced;
            p.bind_pct = Some(90);
            p.anon_pct = 30;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C05" => {
            let (n, t) = if thorough { (400, 400) } else { (60, 36) };
            let mut rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                special::patterns(env, k, r, 25, false, true)
            });
            p.chunks = if thorough { 80 } else { 8 };
            p.large = 0;
            p.want = Want::Reduced;
            p.bind_pct = Some(100);
            p.deadline = Duration::from_secs(if thorough { 100 } else { 10 });
            rep.merge(standard(env, seed, &p));
            Out {
                rep,
                evaluations: "runs",
                rule: "random token types (enums, structs, tuples, primitive types, options, nested, with lifetimes), random overlapping pattern lists generalised from random token values, random token sequences; the reference matches patterns one after the other. Plus standard grammars whose terminals have payloads. Distinct by (patterns, terminal, token value) or (grammar, entry point, input), non-trivial if there is a token".into(),
                assumptions: TRUSTED.to_vec(),
            }
        }
        "C06" | "C07" => {
            p.want = Want::Reduced;
            p.fam = [3, 4, 5, 2, 0, 0, 3];
            p.err_pct = 8;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C08" => {
            p.want = Want::Reduced;
            p.err_pct = 85;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C09" => {
            p.want = Want::Reduced;
            p.err_pct = 20;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C10" => {
            let (n, t) = if thorough { (900, 500) } else { (150, 36) };
            let q = p.clone();
            let mut rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                special::reduce_reduce(env, k, r, 30, &q, false)
            });
            let n = if thorough { 9 * gen::LARGE } else { 2 * gen::LARGE };
            rep.merge(special::chunks(env, id, seed ^ 77, n, Duration::from_secs(t), |env, k, r| {
                special::reduce_reduce(env, k + seed as usize, r, 1, &q, true)
            }));
            let n = if thorough { 70 } else { 14 };
            rep.merge(special::chunks(env, id, seed ^ 78, n, Duration::from_secs(t), |env, k, r| {
                special::reduce_reduce(env, special::FAR + k, r, 1, &q, true)
            }));
            Out {
                rep,
                evaluations: "grammars with a reduce/reduce conflict",
                rule: "random grammars with a reduce/reduce conflict according to the reference construction, made by hand-written shapes and by injecting competing productions into conflict-free grammars, preferring few conflicting cells; each is compiled with the macro and must be refused. Distinct by grammar; all are non-trivial (each has a conflict)".into(),
                assumptions: TRUSTED.to_vec(),
            }
        }
        "C11" => {
            let (n, t) = if thorough { (700, 420) } else { (80, 30) };
            p.forbid_unsafe = true;
            p.fam = [4, 3, 6, 1, 0, 0, 3];
            let q = p.clone();
            let mut rep = corpus::check(env, id, &["2018", "2021", "2024"]);
            rep.merge(corpus::crates(env, id));
            rep.merge(special::chunks(env, id, seed ^ 5, gen::LARGE + 2, Duration::from_secs(t), |env, k, r| {
                if k < 2 {
                    special::many_types(env, k, r)
                } else {
                    special::wellformed_large(env, k, r, k - 2, false, &q)
                }
            }));
            if thorough {
                rep.merge(special::chunks(env, id, seed ^ 6, 12, Duration::from_secs(t), |env, k, r| {
                    special::wellformed_large(env, k, r, k, true, &q)
                }));
            }
            rep.merge(special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                special::wellformed(env, k, r, 40, &q)
            }));
            rep.merge(special::chunks(env, id, seed ^ 7, n / 3, Duration::from_secs(t / 3), |env, k, r| {
                special::patterns(env, k, r, 40, true, false)
            }));
            let m = rep.stats.n.get("token types").copied().unwrap_or(0) + rep.stats.n.get("corpus programs").copied().unwrap_or(0);
            rep.stats.add("grammars", m);
            Out {
                rep,
                evaluations: "grammars",
                rule: "random conflict-free grammars of all families including large ones, in random surface forms, with odd names, texts, binders and value types; random token types and patterns; hand-written programs (/verif/corpus); each is compiled with the macro under forbid(unsafe_code) in a random edition. Distinct by program text; all are non-trivial (each has a pub non-terminal and a token type)".into(),
                assumptions: TRUSTED.to_vec(),
            }
        }
        "C12" => {
            p.want = Want::Sr;
            p.fam = [4, 1, 1, 1, 6, 0, 2];
            p.err_pct = 3;
            p.fault_pct = 0;
            standard_out(env, seed, &p, thorough)
        }
        "C13" => {
            let (n, t) = if thorough { (500, 450) } else { (150, 36) };
            p.forbid_unsafe = false;
            p.max_states = 120;
            let q = p.clone();
            let rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                illformed::check(env, k, r, 8, &q)
            });
            Out {
                rep,
                evaluations: "ill-formed grammars",
                rule: "random conflict-free grammars that compile, each with one injected defect (undefined or near-miss names, duplicate declarations, missing or unknown declarations, unsupported operators, malformed patterns, symbols and declarations), also in parts of the grammar that no entry point reaches; each must be refused. Distinct by program text; all are non-trivial (each has a defect)".into(),
                assumptions: vec!["the injected change makes the grammar ill-formed (each kind was reviewed by hand)"],
            }
        }
        "C14" => {
            let (n, t) = if thorough { (450, 450) } else { (56, 36) };
            p.want = Want::NoRr;
            p.fam = [4, 3, 5, 1, 1, 0, 3];
            p.inputs = 80;
            let q = p.clone();
            let mut rep = corpus::crates(env, id);
            rep.merge(special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                variants::entry_points(env, k, r, 6, &q)
            }));
            Out {
                rep,
                evaluations: "runs compared with the base",
                rule: "random grammars with several candidates for pub; the same inputs (as in the standard workload) are run with the entry point as the only pub non-terminal and in variants with all or some of the others pub, also declared in other orders. One evaluation is one run whose pulls, actions, bound and returned values, errors and surviving values are compared with those of the base. Distinct by (variant's program, entry point, input), all non-trivial".into(),
                assumptions: vec!["rustc and std compile the generated code faithfully"],
            }
        }
        "C19" => {
            let (n, t) = if thorough { (450, 400) } else { (56, 30) };
            p.want = Want::ConflictFree;
            p.inputs = 80;
            let q = p.clone();
            let mut rep = special::chunks(env, id, seed ^ 3, if thorough { 3 * gen::LARGE } else { gen::LARGE }, Duration::from_secs(t), |env, k, r| {
                variants::presentation(env, k, r, 1, &q, Some(k))
            });
            rep.merge(special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                variants::presentation(env, k, r, 8, &q, None)
            }));
            Out {
                rep,
                evaluations: "runs compared with the base",
                rule: "random conflict-free grammars and variants of them with declarations permuted, consistently renamed, or written in another surface form; the same inputs are run in all of them. One evaluation is one run whose pulls, actions, bound and returned values, errors (terminals compared as sets, up to the renaming) and surviving values are compared with those of the base. Distinct by (variant's program, entry point, input), all non-trivial".into(),
                assumptions: vec!["rustc and std compile the generated code faithfully"],
            }
        }
        "C15" => {
            let (n, t, k) = if thorough { (240, 450, 24) } else { (40, 32, 8) };
            p.want = Want::ConflictFree;
            let q = p.clone();
            let rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, c, r| {
                expand::check(env, c, r, 12, k, &q)
            });
            Out {
                rep,
                evaluations: "expansions compared",
                rule: "crates of random grammars (all families, large ones, random token types), each expanded (rustc -Zunpretty=expanded) by several compiler processes that differ in crate name and type, working directory, path, environment, options, position, order and choice of the parser! invocations in the crate; one evaluation is the text of one expansion compared with that of the first process. Distinct by (input, context), all non-trivial".into(),
                assumptions: vec!["the pretty-printed expansion determines the code"],
            }
        }
        "C20" => {
            let (n, t) = if thorough { (3000, 450) } else { (128, 30) };
            let mut rep = special::chunks(env, id, seed ^ 9, if thorough { 6 * gen::LARGE } else { gen::LARGE }, Duration::from_secs(t), |env, k, r| {
                total::check(env, k, r, 1, true)
            });
            rep.merge(special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                total::check(env, k, r, 60, false)
            }));
            Out {
                rep,
                evaluations: "inputs expanded",
                rule: "inputs of parser!: random grammars of all kinds (cyclic, ambiguous, unproductive, with any conflicts, large), grammars with 1 to 12 changes of their token trees (dropped, doubled, moved, replaced tokens, changed delimiters), with parts passed as macro_rules fragments, and 26 long, nested, unfinished or degenerate shapes; rustc expands them in batches under limits on time and memory. Distinct by program text; all are non-trivial (each invokes the macro)".into(),
                assumptions: vec!["rustc itself ends on these inputs (a batch that does not is narrowed down to one input and tried again)"],
            }
        }
        "C16" => {
            let (n, t, len) = if thorough { (300, 300, 400_000) } else { (40, 24, 70_000) };
            p.want = Want::NoRr;
            p.fam = [3, 3, 5, 1, 3, 0, 2];
            let q = p.clone();
            let mut rep = special::chunks(env, id, seed ^ 3, if thorough { 3 * gen::LARGE } else { gen::LARGE }, Duration::from_secs(t), |env, k, r| {
                deep::check(env, k, r, 1, len, &q, true)
            });
            rep.merge(special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                deep::check(env, k, r, 10, len, &q, false)
            }));
            p.chunks = if thorough { 200 } else { 28 };
            p.large = 0;
            p.err_pct = 15;
            p.deadline = Duration::from_secs(if thorough { 150 } else { 16 });
            rep.merge(standard(env, seed, &p));
            let m = rep.stats.n.get("deep runs").copied().unwrap_or(0);
            rep.stats.add("runs", m);
            Out {
                rep,
                evaluations: "runs",
                rule: "random grammars the macro accepts (shift/reduce conflicts included). Deep runs: pumped inputs p u^n w v^n s for cycles of the grammar (left recursion, right recursion, nesting), also cut off, with a wrong token or an Err item in the middle, or continued after the end, on a stack of 512 KiB, compared with the same input with n = 20 and with the action sequence (by hash), pulls and verdict of the reference. Plus the standard workload with limits on actions and pulls. Distinct by (grammar, entry point, input), non-trivial if the input is not empty".into(),
                assumptions: TRUSTED.to_vec(),
            }
        }
        "C17" => {
            p.want = Want::NoRr;
            p.fam = [3, 3, 5, 1, 2, 0, 2];
            p.err_pct = 25;
            p.fault_pct = 60;
            standard_out(env, seed, &p, thorough)
        }
        "C18" => {
            let (n, t, rounds) = if thorough { (400, 400, 4) } else { (40, 26, 2) };
            p.want = Want::NoRr;
            p.fam = [3, 3, 5, 1, 1, 0, 2];
            p.inputs = 40;
            p.err_pct = 15;
            p.fault_pct = 25;
            let q = p.clone();
            let mut rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| {
                state::check(env, k, r, 10, rounds, &q)
            });
            let (n, schedules) = if thorough { (12, 64) } else { (1, 8) };
            let mut r = Rng::new(seed ^ 0x3141);
            for k in 0..n {
                rep.merge(state::miri(env, k, &mut r, schedules, &p));
            }
            Out {
                rep,
                evaluations: "runs",
                rule: "random grammars; inputs as in the standard workload with many injected panics and errors. Every run is recorded once in a fresh program, then inside actions and iterators of other runs (also two levels deep), then in other orders, then on 3 and 8 threads at once with random delays at every action and pull; each log (pulls, actions, values, drops, result) must be equal to the first. Distinct by (grammar, entry point, input, faults, nested runs), all non-trivial".into(),
                assumptions: vec!["rustc and std compile the generated code faithfully"],
            }
        }
        "C21" => {
            let (n, t) = if thorough { (2000, 450) } else { (96, 28) };
            p.want = Want::ConflictFree;
            p.fam = [3, 3, 5, 1, 0, 0, 2];
            p.uniform = true;
            let len = if thorough { 3000 } else { 1000 };
            let q = p.clone();
            let rep = special::chunks(env, id, seed, n, Duration::from_secs(t), |env, k, r| cost::check(env, k, r, 8, len, &q));
            Out {
                rep,
                evaluations: "measured runs",
                rule: "random conflict-free grammars with recursion; inputs in which a recursion is repeated many times (left, right, nesting), also cut off, with a lexer error inside, or with more behind the end, each in two lengths, 64 times apart. A counting allocator measures what parse holds at most and what it allocates in all, the CPU clock of the thread what it takes (suspects are measured four times more). Distinct by (grammar, input), all non-trivial".into(),
                assumptions: TRUSTED.to_vec(),
            }
        }
        _ => run::die("no check for this property yet"),
    }
}

/// Rebuild the program of a replay file and perform its job
pub fn replay(verif: &Path, file: &Path) {
    let env = Env::prepare(verif);
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| run::die(&format!("{}: {}", file.display(), e)));
    let (head, prog) = text
        .split_once("=== program\n")
        .unwrap_or_else(|| run::die("no program in this file"));
    let (head, job) = head.split_once("=== job\n").unwrap_or((head, ""));
    println!("{}", head);
    if head.starts_with("property: C20") {
        crate::total::replay(&env, prog);
        env.cleanup();
        return;
    }
    let mods = vec![prog.to_string()];
    let b = run::build(&env, "replay", &mods, &run::Opts::default());
    println!("compiled: {:?}", b.results[0]);
    if let (Some(bin), false) = (b.bin, job.trim().is_empty()) {
        let lines: Vec<String> = job.trim().lines().map(|s| s.to_string()).collect();
        for l in run::run_jobs(&env, &bin, "replay", &lines, 8 << 20, Duration::from_secs(60)) {
            match l {
                run::JobLog::Log(l) => println!("observed now:\n{}", l),
                o => println!("observed now: {:?}", o),
            }
        }
    }
    env.cleanup();
}
