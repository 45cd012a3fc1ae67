#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run: python3 tools/manifest.py"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/harness/props/*.go"):
    have |= set(re.findall(r"^//sym:prop (\w+) ", open(f).read(), re.M))
NOTE = {
    "crypto": "Exhaustive over all byte values for the listed lengths, by symbolic execution of the SSA of the current source and SMT; cipher primitives are uninterpreted permutations pinned to real values when a counterexample is replayed. Trusts the engine, its models of library functions, and the reference specification in harness/spec.",
    "plain": "Exhaustive over all byte values for the listed lengths, by symbolic execution of the SSA of the current source and SMT. Trusts the engine and its models of library functions.",
    "service": "Exhaustive over the listed call sequences with symbolic arguments, by symbolic execution of the real service and repository; key material symbolic within the listed lengths. Trusts the engine, its models of library functions and the reference specification.",
    "conc": "Exhaustive over all interleavings of the listed concurrent calls at lock, map and field granularity (sequential consistency), by symbolic execution with a happens-before race check; violations are replayed natively under the race detector. Trusts the engine's scheduler and its model of sync.",
    "http": "Exhaustive over symbolic request values of the listed lengths through the real router set-up, decoders, endpoints and encoders. gorilla/mux matching, encoding/json and net/http containers are models.",
    "cli": "Exhaustive over the listed flag classes with symbolic values through the real main; package flag and os are models; violations are replayed with the real binary.",
}
def kind(i):
    if i in ("S08", "S09"): return "conc"
    if i[0] == "S": return "service"
    if i[0] == "H": return "http"
    if i[0] == "C": return "cli"
    if i[0] in "KU" or i == "R03": return "plain"
    return "crypto"
NA = {}
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                 "technique": "symbolic execution of the Go SSA of the real code with SMT solving, counterexamples replayed natively",
                 "level": "model_checking", "level_note": NOTE[kind(i)]} for i in ids if i in have],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in have],
     "notes": "No hooks: in-package access is not needed; the engine reads /repo's source. Known findings: known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
