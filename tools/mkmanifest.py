#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run after adding a check."""
import json
T = {
 "C01": ("differential monitor of the real token automaton against an exact regex oracle", "Exact on the automata compared (product walk), sampled over token rules; trusts our derivative-based regex semantics and regex-syntax's parsing is checked against our own printing."),
 "C02": ("online monitor of compiled lexers against the token rules", "Every call of every compiled lexer on curated, random and hostile texts is compared with our longest-prefix oracle."),
 "C03": ("trace checker over recorded lexer calls", "Offline checker of spans and slices over all recorded calls, ASCII and multi-byte."),
 "C04": ("outcome monitor of generation against an exact tie oracle", "Ties found exactly per token set by our automata; sampled over token sets."),
 "C05": ("sanitized C++ lexers under an online monitor", "ASan/UBSan builds, monitored call by call on valid and malformed UTF-8."),
 "C06": ("monitor of delivered rules against an independent reader", "Random grammars, layouts and mutilations; trusts our hand-written reader."),
 "C07": ("monitor of spans and rendered diagnostics against an independent reader", "Every span and every rendered section is compared."),
 "C08": ("differential monitor of the two front ends", "Exact comparison of patterns; sampled over the common dialect."),
 "C09": ("monitor of derived rules against set semantics of the written patterns", "Bounded language equality per named production; refusals exercised."),
 "C10": ("outcome monitor of generation against our predict sets", "Exact class decision per grammar; sampled over grammars."),
 "C11": ("outcome and report monitor against our LR automata", "Exact class decision per grammar; sampled over grammars."),
 "C12": ("monitor of compiled Rust parsers against an Earley oracle", "Exhaustive short inputs, sampled long ones, on curated and random grammars."),
 "C13": ("offline checker of recorded visitor events", "Every callback stream is replayed against the grammar."),
 "C14": ("offline checker of error reports against viable prefixes", "Viable prefixes and continuations from Earley, exact per input."),
 "C15": ("monitor of compiled GLR parsers against an Earley oracle", "Ambiguous and conflicting grammars; inputs needing too many parallel stacks are left out."),
 "C16": ("offline checker of recorded GLR visitor events", "Every callback stream is replayed against the grammar, for successes and failures."),
 "C17": ("sanitized C++ LL parsers under an event checker", "ASan/UBSan builds; verdict and tree checked per input."),
 "C18": ("sanitized C++ LR parsers under an event checker, paired with Rust ones", "ASan/UBSan builds; verdict, error token and callbacks compared per input."),
 "C23": ("monitor of printed tables against our automata and the compiled parsers", "Every cell of every printed table; table-driven parses against compiled ones."),
 "C24": ("offline checker over recorded parse histories, with threads", "Histories of calls on one object against fresh objects; parallel objects on threads."),
 "C25": ("fault injection in token sources under an event checker", "Errors at every position of many inputs."),
 "C19": ("byte-wise comparison of outputs of repeated processes", "Many processes with varied environment, location, locale and address layout."),
 "C20": ("compilation of generated code for hostile names", "rustc and clang++ on whole generated sets with hostile legal names."),
 "C21": ("write fault injection at every write of the command line program", "LD_PRELOAD shim and resource limits; outcome against the files found."),
 "C22": ("process monitor of the command line program", "Option combinations with an open-for-write log, exit status and files compared."),
 "C26": ("monitor of template instantiation against an independent scanner, with faulty writers", "Own placeholder scanner; failures injected at every write offset."),
 "C27": ("Miri on the generator, ASan/UBSan/LSan on emitted C++", "Undefined behaviour detectors under hostile inputs; only executed paths are judged."),
 "C28": ("process monitor of the debug command", "Real cargo builds of debug parsers; printed derivation replayed."),
}
LEVEL = {"C21": "fault_enumeration", "C26": "fault_enumeration", "C25": "fault_enumeration"}
import sys, os
claimed = [l.strip() for l in open(os.path.join(os.path.dirname(__file__), "claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in claimed:
    t, n = T[p]
    checks.append({
        "property": p,
        "quick_cmd": f"bash /verif/check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": t,
        "level": LEVEL.get(p, "exploration"),
        "level_note": n,
    })
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in props if p not in claimed],
    "notes": "No hooks: the monitors use the public interfaces of the crates, the command line program and the generated code.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
