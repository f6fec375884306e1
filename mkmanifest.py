#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the goals that exist"""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
goals = {}
mv = os.path.join(here, "mirver/mv")
for f in sorted(os.listdir(mv)):
    if f.startswith("g_"):
        t = open(os.path.join(mv, f)).read()
        m = re.search(r"^GOALS = (\{.*\})", t, re.S | re.M)
        for p, l in re.findall(r'"(C\d\d)": \[([^\]]*)\]', m.group(1)):
            goals.setdefault(p, []).extend(x.strip() for x in l.split(",") if x.strip())
NA = {"C25": "liveness under fairness of the scheduler and of the peer: partial-correctness contracts (what a function ensures if it returns) cannot express that something eventually happens; the safety half is C08-C10"}
NOTE = {
    "C04": "The version check and the header skipping are decided for every header length the 16-bit field can name.",
    "C18": "The reuse of nonce sequences by the two directions of one connection, and of the handshake key between connections of the same key pair, are recorded known findings (known-findings.txt); the check still fails for any other reuse.",
    "C17": "One call of poll_write is given less than 2 GiB; larger ones are decided for the first two operations only.",
}
checks = []
for p in props:
    i = p["id"]
    if i not in goals:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "technique": "contract-based deductive verification: contracts on bromine's functions discharged with z3 over the MIR rustc produces from /repo on every run",
        "level": "proof",
        "level_note": ("Obligations (%s) are generated from the compiled code on every run and discharged for all inputs; loops by invariant (closed state sets), library functions by the contracts in mirver/mv/lib.py, which are assumed and cross-checked by running the real code (harness). " % ", ".join(goals[i])) + NOTE.get(i, "")
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in goals]
m = {
    "version": 1,
    "setup_cmd": "python3-vt check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: private functions are reached through the compiled MIR. Each check extracts the MIR from /repo's current tree, discharges its obligations and runs the replay harness (harness/), see DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
