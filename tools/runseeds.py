#!/usr/bin/env python3
"""Runs the checks against the planted bugs, each in a copy of /repo.

  runseeds.py [-j N] [-p PROP] [id ...]   prints one line per bug
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
jobs, prop = 2, None
while a and a[0] in ("-j", "-p"):
    if a[0] == "-j":
        jobs = int(a[1])
    else:
        prop = a[1]
    a = a[2:]
ids = a or sorted(os.listdir(os.path.join(V, "seeded")))


def one(i):
    full = [d for d in os.listdir(os.path.join(V, "seeded")) if d == i or d.startswith(i + "-")]
    d = os.path.join(V, "seeded", full[0])
    meta = json.load(open(os.path.join(d, "meta.json")))
    p = prop or meta["property"]
    t = tempfile.mkdtemp(prefix="seedrun-")
    try:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")], check=True)
        v = os.path.join(t, "verif")
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        e = dict(os.environ, REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
        t0 = time.time()
        q = subprocess.run([sys.executable, os.path.join(v, "check.py"), p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = q.returncode == 1 and f"VIOLATION property={p} " in q.stdout
        return full[0], p, ("caught" if hit else f"MISSED (exit {q.returncode})"), time.time() - t0, q.stdout[:300] if hit else q.stdout[-300:]
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(jobs) as ex:
    for i, p, res, s, out in ex.map(one, ids):
        print(f"{i:36s} {p} {res} {s:.0f}s | {out.strip()[:160]!r}", flush=True)
