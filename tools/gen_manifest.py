#!/usr/bin/env python3
"""Writes MANIFEST.json (run in /verif)."""
import json
EX = "exploration"; MC = "model_checking"; FE = "fault_enumeration"
ref = "the independent reference assembler in engine/model.cpp"
common = ("Every execution is the real code (all of /repo/src compiled from the working tree, main() included); "
          "assurance is complete within the stated bounds and nothing beyond them; trusts engine/ and ")
T = {
"C01": (EX, "exhaustive enumeration of all instruction forms x operand values on the implementation against a reference assembler"),
"C02": (EX, "exhaustive enumeration of all mnemonic x operand-form combinations the 6502 lacks, on the implementation"),
"C03": (EX, "exhaustive enumeration of literals (all values, all radixes, all short digit strings) against the reference"),
"C04": (EX, "exhaustive enumeration of branch source/target distances and layouts against the reference"),
"C05": (MC, "stateless and explicit-state search over programs of jump and label lines, every transition replayed on the implementation"),
"C06": (MC, "stateless and explicit-state search over programs of code, data and .ORG lines, every transition replayed on the implementation"),
"C07": (MC, "stateless and explicit-state search over symbol definitions and uses, every transition replayed on the implementation"),
"C08": (EX, "exhaustive enumeration of symbol sets, names and insertion orders against the reference map"),
"C09": (MC, "stateless and explicit-state search over pending forward references, every transition replayed on the implementation"),
"C10": (EX, "exhaustive enumeration of all token sequences up to a depth against the reference grammar"),
"C11": (EX, "exhaustive enumeration of layout variants of statements, compared with the canonical spelling on the implementation"),
"C12": (EX, "exhaustive enumeration of line lengths and paddings, compared with the unpadded program"),
"C13": (EX, "exhaustive enumeration of foreign bytes x positions against the reference"),
"C14": (EX, "exhaustive enumeration of faulty statements x places, names and line numbers, diagnostics compared with the reference"),
"C15": (MC, "stateless and explicit-state search over programs with and without errors, exit status and report monitored"),
"C16": (FE, "exhaustive enumeration of fault plans (each I/O call failing, pairs, read chunkings) on the implementation"),
"C17": (FE, "exhaustive enumeration of allocation-failure plans (each allocation, each from-then-on) on the implementation under ASan"),
"C18": (EX, "exhaustive enumeration of short byte strings, token strings and structured extremes under ASan and UBSan with a hang watchdog"),
"C19": (MC, "stateless and explicit-state search over programs around .END, every transition replayed on the implementation"),
"C20": (EX, "exhaustive enumeration of command lines x file-system states on the real program, file-system effects monitored"),
"C21": (MC, "explicit-state search over histories of runs (output files, memory contents) on the implementation"),
"C22": (MC, "stateless and explicit-state search over statement sequences, each compared with the same statement alone"),
"C23": (EX, "exhaustive enumeration of directive spellings in all statement forms, compared on the implementation"),
"C24": (EX, "exhaustive enumeration of symbol values x instruction forms, compared with the literal's code"),
"C25": (MC, "stateless and explicit-state search over layouts, every label's value read back from the image"),
"C26": (EX, "exhaustive enumeration of memory contents and process surroundings x programs, compared on the implementation"),
"C27": (EX, "exhaustive enumeration of label names and combinations of names, compared with reference names on the implementation"),
"C28": (EX, "exhaustive enumeration of the orders of program sections, compared on the implementation"),
"C29": (EX, "exhaustive enumeration of start addresses x programs against the reference"),
"C31": (FE, "exhaustive enumeration of failing I/O calls and allocations, argument vectors and names on the implementation, printed text compared"),
"C32": (EX, "exhaustive enumeration of pairs, triples and sequences of programs, the whole compared with its parts on the implementation"),
"C33": (EX, "exhaustive enumeration of inserted and moved definitions, compared on the implementation"),
"C34": (FE, "exhaustive enumeration of crash points and torn writes, alone and in sequences, on the implementation and the real program, next run compared with a first run"),
"C35": (EX, "preemption-bounded exhaustive enumeration of the interleavings of the system calls of two real processes under a controlled scheduler"),
"C30": (EX, "exhaustive enumeration of erroneous lines x continuations, compared on the implementation"),
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    lv, tech = T[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": "model checking: " + tech,
        "level": lv,
        "level_note": common + ref + "; bounds and oracle in DESIGN.md, section " + p["id"] + ", and in the evidence file.",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: libc calls are intercepted by the linker (--wrap) in /verif. Recorded defects: KNOWN_FINDINGS.md."},
          open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
