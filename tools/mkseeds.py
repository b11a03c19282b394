#!/usr/bin/env python3
"""Builds /verif/seeded/ from the specifications in seeds/*.txt beside it... 

Each spec is a Python file defining: prop, needs, breaks, edits (list of
(file, old, new)), main (Go program of the demonstration; exits non-zero when
it sees the breakage), and optionally run (the shell line running it) and more
files. usage: mkseeds.py [id...]
For each: applies the edits to a scratch copy of /repo, takes the diff, checks
that it builds, passes the stable tests, and that the demonstration tells the
two apart."""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, "seeded")
PRE = '''#!/bin/bash
# Run with cwd = the repository; exits non-zero when the property is broken.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/
cat > "$d/go.mod" <<EOF
module github.com/mewmew/float/demo

go 1.21

require github.com/mewmew/float v0.0.0

replace github.com/mewmew/float => $repo
EOF
cd "$d" || exit 2
'''
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    ids = sys.argv[1:]
    bad = 0
    for path in sorted(glob.glob(os.path.join(HERE, "seedspecs", "*.py"))):
        sid = os.path.basename(path)[:-3]
        if ids and sid not in ids: continue
        g = {"HERE": HERE}
        exec(open(path).read(), g)
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            for f, old, new in g["edits"]:
                p = os.path.join(repo, f); s = open(p).read()
                if s.count(old) != 1:
                    print(sid, "EDIT does not match once:", f, repr(old[:60]), s.count(old)); raise SystemExit(1)
                open(p, "w").write(s.replace(old, new))
            env = '. /opt/vp/env.sh; '
            rc, o = sh(env + "go build ./...", repo)
            if rc or o.strip(): print(sid, "BUILD", o); bad = 1
            rc, o = sh(env + "go test -vet=off -count=1 ./...", repo)
            if rc: print(sid, "TESTS FAIL", o[-1500:]); bad = 1
            diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True, check=True).stdout
            dst = os.path.join(OUT, sid)
            shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
            open(dst + "/patch.diff", "w").write(diff)
            if "main" in g: open(dst + "/main.go", "w").write(g["main"])
            for n, t in g.get("files", {}).items(): open(os.path.join(dst, n), "w").write(t)
            open(dst + "/demo.sh", "w").write(g.get("script") or PRE + g.get("run", "go run .") + "\n")
            os.chmod(dst + "/demo.sh", 0o755)
            json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            demo = os.path.join(tmp, "elsewhere"); shutil.copytree(dst, demo)
            rc1, o1 = sh("bash %s/demo.sh" % demo, "/repo")
            rc2, o2 = sh("bash %s/demo.sh" % demo, repo)
            ok = rc1 == 0 and rc2 not in (0, 2)
            print(sid, g["prop"], "ok" if ok else "DEMO BAD: %d %d" % (rc1, rc2), (o2.strip().splitlines() or [""])[0][:150])
            if not ok: print(o1[-800:], "\n--\n", o2[-800:]); bad = 1
        finally:
            subprocess.run(["rm", "-rf", tmp])
    sys.exit(bad)
main()
