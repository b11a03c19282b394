#!/usr/bin/env python3
"""Runs the monitors against every mutant of the library (a search for gaps,
not a check). Usage: run.py OUT.jsonl [--every K] [--jobs N] [file...]. Works through
overlays: /repo is not touched."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = "/repo"
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
out = sys.argv[1]
args = sys.argv[2:]
jobs = 3
if "--jobs" in args:
    i = args.index("--jobs"); jobs = int(args[i+1]); del args[i:i+2]
every = 1
if "--every" in args:
    i = args.index("--every"); every = int(args[i+1]); del args[i:i+2]
files = args or ["bfloat/bfloat.go", "binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go", "float.go",
         "internal/strconv/itoa.go", "internal/strconv/ftoa.go", "internal/strconv/decimal.go", "internal/strconv/extfloat.go"]
tmp = tempfile.mkdtemp(prefix="mut-")
mut = os.path.join(tmp, "mutate")
subprocess.run(["go", "build", "-o", mut, "."], cwd=HERE, env=env, check=True)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["n"]))
todo = []
for f in files:
    ls = subprocess.run([mut, "-file", os.path.join(REPO, f)], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    for l in ls[1:]:
        n, what = l.split(" ", 1)
        if (f, int(n)) not in done and int(n) % every == 0:
            todo.append((f, int(n), what))
print(len(todo), "mutants")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from scale import MUL
FMT = ["C13", "C07", "C08", "C09", "C10"]
PROPS = {"bfloat/bfloat.go": ["C01", "C06", "C15", "C17", "C19"], "binary16/binary16.go": "C02 C06 C07 C12 C13 C14 C11 C15 C27 C16 C17".split(),
         "binary128/binary128.go": "C03 C06 C08 C12 C13 C14 C11 C15 C27 C16 C17".split(), "float80x86/float80x86.go": "C04 C06 C09 C12 C13 C14 C11 C15 C27 C16 C17 C28".split(),
         "float128ppc/float128ppc.go": "C05 C06 C10 C12 C13 C14 C11 C15 C27 C16 C17".split(), "float.go": "C21 C22 C16 C17 C19".split(),
         "internal/strconv/itoa.go": "C26 C25 C17 C16".split()}
for f in ("ftoa", "decimal", "extfloat"): PROPS["internal/strconv/%s.go" % f] = "C24 C23 C25 C22 C21 C17".split()
def one(t):
    f, n, what = t
    d = tempfile.mkdtemp(dir=tmp)
    try:
        src = os.path.join(d, "m.go")
        with open(src, "wb") as o:
            subprocess.run([mut, "-file", os.path.join(REPO, f), "-n", str(n)], stdout=o, check=True)
        ov = os.path.join(d, "ov.json"); json.dump({"Replace": {os.path.join(REPO, f): src}}, open(ov, "w"))
        e = dict(env, TMPDIR=d)
        mon = os.path.join(d, "mon")
        p = subprocess.run(["go", "build", "-overlay", ov, "-o", mon, "."], cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return dict(file=f, n=n, what=what, res="nocompile")
        try:
            p = subprocess.run(["go", "test", "-vet=off", "-overlay", ov, "-timeout", "20s", "./..."], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90)
            if p.returncode: return dict(file=f, n=n, what=what, res="tests")
        except subprocess.TimeoutExpired:
            return dict(file=f, n=n, what=what, res="tests")
        res = os.path.join(d, "r.json")
        for prop in PROPS[f]:
            if os.path.exists(res): os.remove(res)
            try:
                p = subprocess.run([mon, "-prop", prop, "-failfast", "-workers", "2", "-mul", str(MUL.get(prop, 1)), "-out", res], env=dict(e, GOMEMLIMIT="4GiB"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return dict(file=f, n=n, what=what, res="timeout", by=prop)
            if p.returncode == 0: continue
            if os.path.exists(res):
                v = [x for x in (json.load(open(res))["violations"] or []) if not x.get("finding")]
                return dict(file=f, n=n, what=what, res="caught", by=prop, stream=v[0]["stream"] if v else "", msg=v[0]["message"][:200] if v else "")
            return dict(file=f, n=n, what=what, res="died", by=prop, msg=p.stdout[:1500])
        return dict(file=f, n=n, what=what, res="SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(max_workers=jobs) as ex, open(out, "a") as o:
    for r in ex.map(one, todo):
        o.write(json.dumps(r) + "\n"); o.flush()
shutil.rmtree(tmp, ignore_errors=True)
