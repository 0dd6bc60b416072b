#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, re, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = set()
for f in glob.glob('/verif/harness/*/*.go'):
    for m in re.finditer(r'^func vh(C\d\d)_', open(f).read(), re.M):
        have.add(m.group(1))
NA = {}
SEQ = "Symbolic execution of the real Go code (go/ssa, regenerated from /repo on every run) with an SMT solver (z3; counterexamples replayed natively)"
CONC = SEQ + "; schedules, clock and faults are symbolic choices of a bounded scheduler"
conc = {'C18','C19','C20','C21','C22','C23','C24','C25','C05','C26','C28','C29','C30'}
note = ("Bounded: every assertion is discharged for all values within the bounds listed per harness in the evidence file, or reported as a limit. "
        "Trusted: the executor's reading of go/ssa (validated on every run by replaying path witnesses natively), z3, and the models listed under assumptions. "
        "A violation is reported only after its counterexample reproduced on the native build of /repo.")
checks = []
for p in props:
    if p['id'] not in have:
        continue
    i = p['id']
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s -tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded symbolic execution of the Go SSA with SMT solving" + (" over symbolic inputs and schedules" if i in conc else ""),
        "level": "model_checking", "level_note": (CONC if i in conc else SEQ) + ". " + note})
na = [{"property": p['id'], "reason": NA.get(p['id'], "check not built yet")} for p in props if p['id'] not in have]
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: harnesses and shims are compiled in through a go build overlay. ./check.sh replay FILE runs a recorded counterexample natively."},
    open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
