#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the texts below)"""
import json, os
A = "runtime monitoring: "
REPLAY = "offline replay of the recorded action log"
T = {
"C01": (A+"event logs of generated parsers replayed as derivations, plus an Earley recogniser as oracle",
  "Exploration of random accepted grammars (also with settled shift/reduce conflicts) and inputs; every Ok is re-derived from the logged actions alone and, when possible, checked with Earley. Trusts the reference constructions, rustc, std."),
"C02": (A+"results of generated parsers judged by an Earley recogniser",
  "Exploration: random conflict-free grammars of several families, sentences through every reachable (state, item) of the reference automaton. Trusts the reference constructions, rustc, std."),
"C03": (A+"trace of semantic actions checked against the reference derivation",
  "Exploration: the logged actions are replayed as a reversed rightmost derivation and compared with the reference automaton, also on failing inputs. Trusts the reference constructions, rustc, std."),
"C04": (A+"identity of every bound and returned value checked against the replayed tree",
  "Exploration: each value carries a unique id, each action logs the ids it was given; the replay of the tree says which id it must be. Trusts the reference constructions, rustc, std."),
"C05": (A+"payloads and classification of tokens logged by actions, judged by a reference pattern matcher",
  "Exploration: random token types, overlapping pattern lists and token values. Trusts the reference matcher (rustc itself rejects patterns that do not type-check), rustc, std."),
"C06": (A+"pull counts, actions and errors judged by an Earley recogniser",
  "Exploration: every reachable state of the reference automaton is visited with every terminal and the end of input, in random conflict-free grammars. Trusts the reference constructions, rustc, std."),
"C07": (A+"fields of the returned errors judged by an Earley recogniser",
  "Exploration: as C06, with arbitrary terminal texts. Trusts the reference constructions, rustc, std."),
"C08": (A+"injected lexer errors; results, pulls and actions judged by a trace checker",
  "Exploration: errors injected at many positions (also several, also behind syntax errors) of random runs; the error's identity is tracked. Trusts the reference constructions, rustc, std."),
"C09": (A+"trace automaton over the interleaving of Iterator::next calls and actions",
  "Exploration: every next call is logged; the iterator notices polls after None or Err. Trusts the reference constructions, rustc, std."),
"C10": (A+"compiler verdicts on grammars with reduce/reduce conflicts, against the reference construction",
  "Exploration: grammars with hand-written and injected conflicts, preferring few conflicting cells. Trusts the reference LR(1) construction."),
"C11": (A+"compiler verdicts (macro, rustc, forbid(unsafe_code), editions 2018 to 2024) on well-formed grammars",
  "Exploration: random well-formed conflict-free grammars, token types and hand-written programs. Trusts the reference LR(1) construction."),
"C12": (A+"trace of semantic actions checked against the reference automaton with shift precedence",
  "Exploration of random grammars with shift/reduce conflicts. Trusts the reference construction, rustc, std."),
"C13": (A+"compiler verdicts on grammars with one injected defect",
  "Exploration: 15 kinds of defects injected at random places of random grammars; their defect-free bases are known to compile. Trusts the review of the kinds."),
"C14": (A+"differential trace comparison of grammars with different pub non-terminals",
  "Exploration: whole traces (pulls, actions, ids, errors, survivors) compared run by run. Trusts rustc, std."),
"C15": (A+"expansions logged by many compiler processes in varied contexts and histories, compared; a probe logs what the macro reads",
  "Exploration: the text of the expansion (whitespace and comments aside) must be the same in all contexts tried; a preloaded probe logs the environment variables and files the macro asks for, and the contexts vary those. Trusts rustc's pretty printer."),
"C16": (A+"watchdogs for steps, panics and stack use on ordinary and pumped inputs",
  "Exploration: random accepted grammars, inputs of up to 6*10^4 (quick) or 10^6 (thorough) tokens on threads with small stacks, step budgets, panics caught. Trusts the reference constructions, rustc, std."),
"C17": (A+"ledger of created, moved and dropped values under injected errors and panics",
  "Exploration: every value of every run is accounted for, a fault at pulls and actions of the run. Trusts rustc, std."),
"C18": (A+"traces of nested, repeated and concurrent parses compared with the solo trace; Miri as data race detector",
  "Exploration of histories, nestings and schedules of random parsers. The generated code is safe Rust without shared mutable state, the race detector confirms it on the schedules it ran. Trusts rustc, std, Miri."),
"C20": (A+"watchdogs for time, memory and signals on compiler processes that expand fuzzed token trees",
  "Exploration: grammars of every kind, mutated token trees, macro fragments and degenerate shapes; an expansion is taken not to end after 75 s (others take less than 3 s). Trusts rustc."),
"C21": (A+"counting allocator and CPU clock around runs on pumped inputs of two lengths, judged against the reference run",
  "Exploration: random conflict-free grammars, inputs of up to 6.4*10^4 (quick) or 1.9*10^5 (thorough) tokens; bounds of 64 KiB + 256 bytes per symbol on the stack held, 512 bytes per step allocated, time at most 4 times what is linear plus 60 ms, suspects measured again. Trusts the reference constructions, rustc, std, the CPU clock within these margins."),
"C19": (A+"differential trace comparison of permuted, renamed and reformatted grammars",
  "Exploration: whole traces compared run by run, up to the renaming. Trusts rustc, std."),
}
checks = [dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
    technique=t, level="exploration", level_note=n) for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the monitors observe generated parsers and compiler verdicts from outside.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
