#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif: python3 tools/gen_manifest.py)."""
import json, subprocess, sys
claimed = sys.argv[1:] or ["C%02d" % i for i in range(1, 25)]
NOTE = {
 "syntax": "Exhaustive within the stated alphabets and bounds of each space; every document explored is run on the real parser and compared with an independent reference model (printer and recogniser in mc/src). Trusts the reference model and the bounds.",
 "sem": "Exhaustive within the stated menus and bounds of each document machine; every document explored is run on the real checked parser and compared with an independent reference checker (mc/src/refsem.rs). Trusts the reference rules (DESIGN.md, The rules) and the bounds.",
}
NOTE["cost"] = "Exhaustive over a bounded set of families of inputs (all pairs of repeated parts, all repeated units of up to 2 tokens per context), each judged by the growth of the cost between two sizes a factor of four apart; sizes stay below 200 kB, so growth that only shows beyond that is not seen. Allocation counts are exact; CPU time is judged only above 0.25 s, with a margin between quadratic (16) and cubic (64) growth, and measured again before it is reported."
T = {
 "C01": "explicit-state exploration of all inputs within bounds, real code under catch_unwind and a watchdog",
 "C02": "explicit-state exploration of token and character machines, language model compared on every state",
 "C03": "explicit-state exploration of a document machine, AST compared with the generating model",
 "C04": "explicit-state exploration of settings lists, AST compared with the generating model",
 "C05": "explicit-state exploration of literal contents and positions, values compared with the model",
 "C06": "explicit-state exploration of documents x layouts, spans compared with the printer model",
 "C07": "explicit-state exploration of gap x separator combinations, invariance checked on every one",
 "C08": "explicit-state exploration of block sequences, composition law checked on every one",
 "C09": "explicit-state exploration of call histories in one process, replayed against fresh processes",
 "C20": "explicit-state exploration of documents x rewritings, verdict equality on every pair",
 "C21": "explicit-state exploration of permutations and frame insertions, verdict equality on every pair",
 "C22": "explicit-state exploration of documents x queries, analysis compared with the reference relation",
 "C24": "explicit-state enumeration of families of inputs at growing sizes, cost monitor (allocations, peak memory, CPU time, retained memory) on every call",
 "C23": "explicit-state enumeration of all strings near the vocabularies, conversions compared with the model",
}
checks = []
for c in claimed:
    n = int(c[1:])
    checks.append({
        "property": c,
        "quick_cmd": f"./check {c} quick",
        "thorough_cmd": f"./check {c} thorough",
        "technique": "model checking: " + T.get(c, "explicit-state exploration of document machines, verdict compared with the reference checker on every document"),
        "level": "model_checking",
        "level_note": NOTE["cost"] if n == 24 else NOTE["sem"] if 10 <= n <= 19 else NOTE["syntax"],
    })
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "hooks": {"guard": "cfg(dbml_verif)", "enable": "RUSTFLAGS=\"--cfg dbml_verif\" (only the check of C22 needs it)", "source_commits": hooks},
 "checks": checks,
 "not_applicable": [],
 "notes": "See DESIGN.md. Replay a reported violation with ./check replay <file>. Genuine defects found are in known_findings.txt (all fixed).",
}
allp = [json.loads(l)["id"] for l in open("properties.jsonl")]
for p in allp:
    if p not in claimed:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
