#!/usr/bin/env python3
"""Run the checks against each planted bug in scratch copies of /repo's tracked files; print the catch table.

usage: runseeds.py [seed ids] [--all]     (--all: every claimed check, not only the seed's own)"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = "--all" in sys.argv; only = [a for a in sys.argv[1:] if not a.startswith("-")]
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
tmp = tempfile.mkdtemp(prefix="seedrun-")
def job(j):
    s, p, d = j
    r = subprocess.run(["./check", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VSA_REPO=d))
    first = [l for l in r.stdout.splitlines() if "[" in l and "]" in l]
    return s, p, r.returncode == 1 and ("VIOLATION property=%s" % p) in r.stdout, (first[:1] or [r.stdout[-200:]])[0][:170]
jobs = []; own = {}
for s in sorted(os.listdir(V + "/seeded")):
    if only and s not in only: continue
    m = json.load(open(V + "/seeded/" + s + "/meta.json")); own[s] = m["property"]
    d = tmp + "/" + s; os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
    subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + d, V + "/seeded/" + s + "/patch.diff"], cwd="/")
    jobs += [(s, p, d) for p in (claimed if allp else [m["property"]] if m["property"] in claimed else [])]
res = {}
with ThreadPoolExecutor(6) as ex:
    for s, p, c, l in ex.map(job, jobs): res.setdefault(s, {})[p] = (c, l)
for s in sorted(own):
    r = res.get(s, {})
    o = r.get(own[s])
    print(s, own[s], "CAUGHT" if o and o[0] else "MISSED", "| also:", " ".join(p for p in sorted(r) if p != own[s] and r[p][0]), "|", o[1] if o else "")
shutil.rmtree(tmp, ignore_errors=True)
