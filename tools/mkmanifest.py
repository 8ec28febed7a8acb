#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rules of the checker."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
rules, consts = {}, {}
for f in glob.glob(here + '/checker/rules_*.go'):
    consts.update(re.findall(r'^const (\w+) = "([^"]*)"', open(f).read(), re.M))
for f in glob.glob(here + '/checker/rules_*.go'):
    s = open(f).read()
    for m in re.finditer(r'register\(&Rule\{ID:\s*"(C\d+)",\s*Technique:\s*("[^"]*"|\w+),', s):
        rest = s[m.end():m.end() + 3000]
        rest = rest[:rest.index('Run:')]
        tr = re.search(r'Trusts:\s*\[\]string\{(.*?)\},?\n', rest, re.S)
        t = m.group(2)
        t = t[1:-1] if t[0] == '"' else consts[t]
        rules[m.group(1)] = (t, re.findall(r'"((?:[^"\\]|\\.)*)"', tr.group(1)) if tr else [])
NA = {
 "C35": "Byte-identity of compressed content depends on the values compress/gzip, archive/tar and archive/zip compute at run time; no source-level rule in reach decides it. What is decidable from the source (the whole backup is copied, every error is reported, nothing is deleted before the archive is in place) is C29 and C30.",
 "C36": "The five-second bound is a real-time property of the scheduler, the timer and the destination; static analysis of the source cannot bound it. The loop structure that flushes on the timer is covered by C12.",
 "C37": "Which records fall on which side of a period boundary depends on wall-clock values read at run time, on clock changes and on restarts; the source only fixes the comparison, which C24 decides.",
}
NOTE = ("Disjunctive abstract interpretation of the SSA form of /repo's current source (value numbering, difference bounds, typestate), "
        "to a fixpoint over all paths of the entry points: every construct the rule speaks of is an obligation, one that cannot be discharged is reported. "
        "No code is executed and no solver is used. Not a machine-checked proof. ")
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules:
        t, tr = rules[i]
        note = NOTE + ("Trusts: " + "; ".join(tr) + "; " if tr else "Trusts: ") + "the documented behaviour of the Go standard library, go/types and go/ssa."
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "static analysis: " + t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No rule has been built for it yet.")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analysis reads the source as it is. Repairs of genuine defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
