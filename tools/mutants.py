#!/usr/bin/env python3
"""Self-test of the checker: edits of a scratch copy of /repo that break a
property (bad) or keep all of them (ok), and what the checks say.
usage: mutants.py [-c CHECKER] [name-prefix ...]
environment: J jobs, ALL=1 every rule on every ok edit, RULES=C02,.. these only on an ok edit that names none,
KIND=ok|bad, PROP=C02,.. the edits that name one of these"""
import os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
checker = "/tmp/checker"
args = sys.argv[1:]
if args[:1] == ["-c"]:
    checker = args[1]; args = args[2:]

def load():
    """mutants/*.txt: '== name kind props' / '-- file' / '<<<' old '===' new '>>>'"""
    out = []
    for f in sorted(glob.glob(here + "/mutants/*.txt")):
        cur = None; mode = None; fn = None
        for line in open(f):
            if line.startswith("== "):
                w = line.split()
                cur = dict(name=w[1], kind=w[2], props=[p for x in w[3:] for p in x.split(",")], edits=[]); out.append(cur); mode = None
            elif mode is None and line.startswith("-- "):
                fn = line.split()[1]
            elif mode is None and line.startswith("<<<"):
                mode = "old"; old = []; new = []
            elif mode == "old" and line.startswith("==="):
                mode = "new"
            elif mode == "new" and line.startswith(">>>"):
                cur["edits"].append((fn, "".join(old), "".join(new))); mode = None
            elif mode == "old": old.append(line)
            elif mode == "new": new.append(line)
    return out

def run(m):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d + "/r"], check=True)
        for fn, old, new in m["edits"]:
            p = d + "/r/" + fn
            s = open(p).read()
            if s.count(old) != 1:
                return m, "EDIT %d matches in %s of %r" % (s.count(old), fn, old[:60]), []
            open(p, "w").write(s.replace(old, new))
        b = subprocess.run(["go", "vet", "./..."] if os.environ.get("VET") else ["go", "build", "./..."], cwd=d + "/r", capture_output=True, text=True)
        if b.returncode:
            return m, "BUILD " + b.stderr[:300], []
        env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_DIR=d + "/v")
        props = m["props"] if m["kind"] == "bad" else (m["props"] if m["props"] and not os.environ.get("ALL") else os.environ.get("RULES", "all").split(","))
        hit, txt = [], []
        for p in props:
            try:
                o = subprocess.run([checker, p], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                hit.append(p + "(timeout)"); continue
            for l in (o.stdout + o.stderr).splitlines():
                v = re.match(r"VIOLATION property=(\S+)", l)
                if v: hit.append(v.group(1))
                elif "holds" not in l and not l.startswith("--"): txt.append(l[:260])
        want = m["kind"] == "bad"
        good = (set(hit) == set(m["props"])) if want else not hit
        return m, ("ok   " if good else "MISS " if want else "ALARM ") + " ".join(hit), [] if good and not os.environ.get("V") else txt[:4]
    finally:
        shutil.rmtree(d)

ms = [m for m in load() if not args or any(m["name"].startswith(a) for a in args)]
if os.environ.get("PROP"):
    ms = [m for m in ms if set(m["props"]) & set(os.environ["PROP"].split(","))]
ms = [m for m in ms if m["kind"] == os.environ.get("KIND", m["kind"])]
fails = 0
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for m, res, txt in ex.map(run, ms):
        if not res.startswith("ok"): fails += 1
        print("%-34s %-4s %-16s %s" % (m["name"], m["kind"], ",".join(m["props"]), res), flush=True)
        for t in txt: print("      " + t)
print(len(ms), "edits,", fails, "unexpected")
