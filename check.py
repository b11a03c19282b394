#!/usr/bin/env python3
"""Decides one property of mewmew/float by running the real code under a monitor.

  check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay <file>       run the recorded case again

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (the build failed, the workload missed a class of inputs it
must contain, or a watchdog fired).
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
MODULE = "github.com/mewmew/float"
MON = MODULE + "/verifmon"
T0 = time.time()
DEADLINE = {"quick": 780, "thorough": 6 * 3600}
NCPU = os.cpu_count() or 1

# How often the quick workload of a property repeats itself.
MUL = {}
exec(open(os.path.join(VERIF, "tools", "scale.py")).read())


class Inconclusive(Exception):
    pass


class Late(Inconclusive):
    """A monitor was still running at the deadline."""


def gotool(version=None):
    if version:
        p = f"/opt/veriftools/{version}/bin/go"
        return p if os.path.exists(p) else None
    p = "/opt/veriftools/go1.27.3/bin/go"
    return p if os.path.exists(p) else shutil.which("go")


def goenv(tmp, **kw):
    e = dict(os.environ)
    for k in ("GOOS", "GOARCH", "GO386", "GOAMD64", "GOEXPERIMENT", "GODEBUG", "GOCOVERDIR", "GORACE", "GOFLAGS", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    e.update(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GOTELEMETRY="off", CGO_ENABLED="0")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["TMPDIR"] = tmp
    e.update(kw)
    return e


def left(tier):
    return max(1, DEADLINE[tier] - (time.time() - T0))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-float-")
        self.modfile = os.path.join(self.tmp, "mon.mod")
        with open(os.path.join(VERIF, "harness", "go.mod")) as f:
            mod = re.sub(r"=> .*", "=> " + REPO, f.read())
        with open(self.modfile, "w") as f:
            f.write(mod)
        open(os.path.join(self.tmp, "mon.sum"), "w").close()
        self.mul = MUL.get(prop, 1) if tier == "quick" else 1
        self.violations = []   # dicts, with "config"
        self.findings = {}
        self.missing = set()
        self.configs = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def sh(self, argv, env, cwd=None, ok=(0,), stdin=None, timeout=None):
        try:
            p = subprocess.run(argv, env=env, cwd=cwd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout or left(self.tier), text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise Inconclusive("timed out: " + " ".join(argv))
        if p.returncode not in ok:
            raise Inconclusive(f"exit {p.returncode}: {' '.join(argv)}\n{p.stdout[-2000:]}{p.stderr[-4000:]}")
        return p

    def build(self, name, flags=(), version=None, cover=False, **env):
        out = os.path.join(self.tmp, "mon-" + name)
        e = goenv(self.tmp, **env)
        go = gotool(version)
        args = [go, "build", "-modfile=" + self.modfile, *flags]
        if cover:
            pk = self.sh([go, "list", "-modfile=" + self.modfile, "-deps", "."], e, os.path.join(VERIF, "harness")).stdout.split()
            pk = [p for p in pk if (p == MODULE or p.startswith(MODULE + "/")) and p != MON]
            args += ["-cover", "-covermode=set", "-coverpkg=" + ",".join(pk)]
        self.sh(args + ["-o", out, "."], e, os.path.join(VERIF, "harness"))
        return out

    def monitor(self, exe, config, args=(), env=None, workers=NCPU, seed=None, prop=None):
        """Runs a monitor process and takes in what it observed."""
        seed = self.seed if seed is None else seed
        prop = prop or self.prop
        out = os.path.join(self.tmp, f"res-{config}-{seed}.json")
        argv = [exe, "-prop", prop, "-tier", self.tier, "-seed", str(seed), "-config", config, "-workers", str(workers),
                "-repo", REPO, "-tmp", self.tmp, "-out", out, *args]
        if "-mul" not in args:
            argv += ["-mul", str(self.mul)]
        e = goenv(self.tmp, **(env or {}))
        e["GOTRACEBACK"] = "all"
        errp = out + ".err"
        with open(errp, "w") as ef:
            p = subprocess.Popen(argv, env=e, stdout=subprocess.DEVNULL, stderr=ef)
            try:
                rc = p.wait(left(self.tier))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Late(f"{config}: the monitor was still running at the deadline")
        err = open(errp, errors="replace").read(400000)
        cmd = argv[1:]
        if not os.path.exists(out) or not os.path.getsize(out):
            # The process died. A fatal error below the library's frames is an
            # observation; anything else is an error of the monitor.
            if rc != 0 and re.search(died(self.prop), err, re.M) and fatal_in_target(err):
                self.violations.append(dict(property=self.prop, config=config, stream="", chunk=-1, case=0, input="(process died)",
                                            message=first_fatal(err), seed=seed, args=cmd))
                return None
            m = re.search(r"^=+\n==\d+==ERROR: AddressSanitizer.*?(?=^Shadow bytes|\Z)", err, re.M | re.S)
            if m:
                self.violations.append(dict(property=self.prop, config=config, stream="", chunk=-1, case=0, input="(process died)",
                                            message=m.group(0)[:4000], seed=seed, args=cmd))
                return None
            raise Inconclusive(f"{config}: the monitor ended with {rc} and no result\n{err[-6000:]}")
        r = json.load(open(out))
        if rc not in (0, 1) and not (rc == 66 and config.startswith("race")):
            raise Inconclusive(f"{config}: the monitor ended with {rc}\n{err[-4000:]}")
        r["stderr"] = err
        for k, empty in (("samples", []), ("classes", {}), ("digests", {})):
            r[k] = r.get(k) or empty
        self.take(r, config, seed, cmd)
        return r

    def take(self, r, config, seed, cmd):
        for v in r["violations"] or []:
            if v.get("finding"):
                continue
            v = dict(v, config=config, seed=seed, args=cmd)
            self.violations.append(v)
        for k, f in (r.get("findings") or {}).items():
            g = self.findings.setdefault(k, {"count": 0, "sample": f["sample"], "config": config, "seed": seed, "args": cmd})
            g["count"] += f["count"]
        self.missing.update(f"{config}: {m}" for m in r.get("missing_classes") or [])
        self.configs.append({"config": config, "seed": seed, "evaluations": r["evaluations"], "distinct": r["distinct"], "wall_s": round(r["wall_s"], 2)})
        if r.get("other_calls"):
            self.configs[-1]["other_calls"] = r["other_calls"]


def died(prop):
    """How a process ends by the doing of the library (see fatal_in_target)."""
    return r"^SIGSYS" if prop == "C41" else r"^(fatal error|runtime): |^SIG"


def fatal_in_target(err):
    """Whether the goroutine that died was executing the library."""
    m = re.search(r"^goroutine \d+ .*\[running.*?(?=^\s*$)", err, re.M | re.S)
    block = m.group(0) if m else err[:20000]
    return any(l.startswith(MODULE) and not l.startswith(MON) for l in block.split("\n"))


def first_fatal(err):
    m = re.search(r"^(fatal error|runtime: goroutine stack|SIG).*$", err, re.M)
    lines = [l for l in err.split("\n") if l.startswith(MODULE) and not l.startswith(MON)]
    return (m.group(0) if m else "died") + "\n" + "\n".join(lines[:12])


def coverage(run, covdir):
    """Statement coverage of the library, by package."""
    out = os.path.join(run.tmp, "cov.txt")
    try:
        run.sh([gotool(), "tool", "covdata", "textfmt", "-i=" + covdir, "-o=" + out], goenv(run.tmp), os.path.join(VERIF, "harness"), timeout=120)
    except Inconclusive:
        return None
    blocks = {}
    for l in open(out):
        m = re.match(r"(\S+)/([^/]+\.go):(\S+) (\d+) (\d+)$", l)
        if m:
            pkg, f, pos, n, hit = m.groups()
            k = (pkg, f, pos)
            o = blocks.get(k, (0, 0))
            blocks[k] = (int(n), max(o[1], int(hit)))
    tot = {}
    for (pkg, f, pos), (n, hit) in blocks.items():
        t = tot.setdefault(pkg.replace(MODULE, ".", 1), [0, 0])
        t[1] += n
        t[0] += n if hit else 0
    return {k: f"{a}/{b}" for k, (a, b) in sorted(tot.items()) if a}


# ---------------------------------------------------------------- kinds of run

def plain(run):
    args = []
    if run.prop == "C28":
        helper = os.path.join(run.tmp, "conv")
        run.sh(["gcc", "-O2", "-o", helper, os.path.join(VERIF, "helper", "conv.c")], goenv(run.tmp))
        args = ["-helper", helper, "-clang", "clang"]
    exe = run.build("default", cover=True)
    cov = os.path.join(run.tmp, "cov")
    os.mkdir(cov)
    with ThreadPoolExecutor(max_workers=1) as ex:
        # The same property where an int has 32 bits.
        exe32 = ex.submit(run.build, "386", GOARCH="386") if run.prop != "C28" else None
        exeg = ex.submit(guided_build, run) if run.prop not in UNGUIDED else None
        r = run.monitor(exe, "default", args, {"GOCOVERDIR": cov})
        exe32 = exe32 and exe32.result()
        exeg = exeg and exeg.result()
    extra = {}
    missing = set(run.missing)
    if exe32 and not run.violations:
        run.monitor(exe32, "386", ["-div", "6"], seed=run.seed + 500)
    run.missing = missing  # of the full run
    if exeg and not run.violations:
        extra["guided"] = guided(run, exe, exeg)
    if r:
        c = coverage(run, cov)
        if c:
            extra["library_statements_executed"] = c
        extra["classes"] = r["classes"]
        extra["samples"] = r["samples"]
    return extra


UNGUIDED = {"C01", "C02", "C15", "C28", "C37", "C40"}


def guided_build(run):
    """The monitor as a libFuzzer target, the library's packages instrumented
    for coverage and comparisons."""
    e = goenv(run.tmp, CGO_ENABLED="1", CC="clang")
    cwd = os.path.join(VERIF, "harness")
    pk = run.sh([gotool(), "list", "-modfile=" + run.modfile, "-deps", "."], e, cwd).stdout.split()
    flags = [f"-gcflags={p}=-d=libfuzzer" for p in pk if (p == MODULE or p.startswith(MODULE + "/")) and p != MON]
    ar = os.path.join(run.tmp, "mon-guided.a")
    exe = os.path.join(run.tmp, "mon-guided")
    run.sh([gotool(), "build", "-modfile=" + run.modfile, "-tags", "libfuzzer", *flags, "-buildmode=c-archive", "-o", ar, "."], e, cwd)
    run.sh(["clang", "-fsanitize=fuzzer", ar, "-o", exe, "-lpthread"], e, cwd)
    return exe


def guided(run, plain_exe, exe):
    """Several coverage-guided processes, from different seeds."""
    secs = int(os.environ.get("VERIF_GUIDED_S", "10" if run.tier == "quick" else "1800"))
    secs = min(secs, max(1, int(left(run.tier) - 60)))
    res = {"processes": 0, "executions": 0, "seconds_each": secs, "edges": 0, "features": 0, "kept_inputs": 0}

    def one(i):
        seed = run.seed * 1000 + i
        d = os.path.join(run.tmp, f"corpus{i}")
        os.mkdir(d)
        run.sh([plain_exe, "-prop", run.prop, "-repo", REPO, "-seed", str(seed), "-corpus", d], goenv(run.tmp))
        out = os.path.join(run.tmp, f"guided{i}.json")
        e = goenv(run.tmp, MON_PROP=run.prop, MON_OUT=out, MON_REPO=REPO, MON_SEED=str(seed), MON_TIER=run.tier, GOTRACEBACK="all", GOMAXPROCS="2")
        argv = [exe, f"-seed={seed}", f"-max_total_time={secs}", "-use_value_profile=1", f"-max_len={[400, 64, 120][i % 3]}", "-timeout=0", "-rss_limit_mb=0",
                "-detect_leaks=0", "-print_final_stats=1", "-len_control=0", "-artifact_prefix=" + d + "/", d]
        errp = out + ".err"
        with open(errp, "w") as ef:
            p = subprocess.Popen(argv, env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=d)
            try:
                rc = p.wait(secs + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Inconclusive("a guided process did not end")
        shutil.rmtree(d, ignore_errors=True)
        return i, seed, rc, out, open(errp, errors="replace").read(), argv

    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        for i, seed, rc, out, err, argv in ex.map(one, range(NCPU)):
            if not os.path.exists(out) or not os.path.getsize(out):
                if re.search(died(run.prop), err, re.M) and fatal_in_target(err):
                    run.violations.append(dict(property=run.prop, config="guided", stream="guided", chunk=-1, case=0, input="(process died)",
                                               message=first_fatal(err), seed=seed, args=[]))
                    continue
                raise Inconclusive(f"a guided process ended with {rc} and no result\n{err[-5000:]}")
            r = json.load(open(out))
            if rc != 0 and not r["violations"]:
                if re.search(died(run.prop), err, re.M) and fatal_in_target(err):
                    run.violations.append(dict(property=run.prop, config="guided", stream="guided", chunk=-1, case=0, input="(process died)",
                                               message=first_fatal(err), seed=seed, args=[]))
                    continue
                raise Inconclusive(f"a guided process ended with {rc}\n{err[-5000:]}")
            run.take(r, "guided", seed, [])
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", err)
            res["processes"] += 1
            n = re.search(r"number_of_executed_units: (\d+)", err)
            res["executions"] += int(n.group(1)) if n else 0
            if m:
                for k, v in zip(("edges", "features", "kept_inputs"), m[-1]):
                    res[k] = max(res[k], int(v))
    return res


def serial(run):
    """C17, C37: processes of one worker each, so that the calls of a history follow
    one another in the process as they do in the history, and what is measured
    is the call's own."""
    exe = run.build("default", cover=True)
    cov = os.path.join(run.tmp, "cov")
    os.mkdir(cov)
    n = 6 if run.tier == "quick" else 24
    classes, samples = {}, []
    with ThreadPoolExecutor(max_workers=min(n, NCPU)) as ex:
        for r in ex.map(lambda i: run.monitor(exe, f"serial{i}", ["-div", str(n)], {"GOCOVERDIR": cov}, workers=1, seed=run.seed * 1000 + i), range(n)):
            if r:
                for k, v in r["classes"].items():
                    classes[k] = classes.get(k, 0) + v
                samples += (r["samples"] or [])[:6]
    merged(run, classes)
    extra = {"processes": n, "classes": classes, "samples": samples}
    if run.prop == "C17" and not run.violations:
        # Processes that make a few calls each: the first ones, every time.
        cold = 240 if run.tier == "quick" else 4000
        hints = os.path.join(run.tmp, "hints.json")
        run.monitor(exe, "cold", ["-mul", "1", "-hints", hints], workers=1, prop="C17-cold")
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            list(ex.map(lambda i: run.monitor(exe, "cold", ["-mul", "1", "-hints", hints], {"GOCOVERDIR": cov}, workers=1,
                                              seed=run.seed * 100000 + i, prop="C17-cold"), range(cold)))
        extra["cold_processes"] = cold + 1
        run.configs = run.configs[:n] + [dict(config="cold processes together", seed=run.seed, evaluations=sum(c["evaluations"] for c in run.configs[n:]),
                                              distinct=sum(c["distinct"] for c in run.configs[n:]), wall_s=0)]
        # Processes that make very many calls.
        if not run.violations:
            with ThreadPoolExecutor(max_workers=NCPU) as ex:
                for r in ex.map(lambda i: run.monitor(exe, f"long{i}", ["-part", f"{i}/{NCPU}", "-mul", "1"], {"GOCOVERDIR": cov}, workers=1, prop="C17-long"), range(NCPU)):
                    extra["calls_in_long_runs"] = extra.get("calls_in_long_runs", 0) + (r or {}).get("classes", {}).get("calls in long runs", 0)
    if not run.violations and run.prop not in UNGUIDED:
        extra["guided"] = guided(run, exe, guided_build(run))
    c = coverage(run, cov)
    if c:
        extra["library_statements_executed"] = c
    return extra


def merged(run, classes):
    """Missing classes are judged over all processes together."""
    need = {m.split(": ", 1)[1] for m in run.missing}
    run.missing = {m for m in need if not classes.get(m)}


def race(run):
    """C18: processes with cold state, each under the race detector; then many
    more, in the usual build and under the race detector, whose goroutines make
    the first calls of each kind at once."""
    exe = run.build("race", ["-race"], CGO_ENABLED="1")
    usual = run.build("default")
    n = 12 if run.tier == "quick" else 40
    reports, classes, samples = [], {}, []
    with ThreadPoolExecutor(max_workers=3) as ex:
        def one(i):
            log = os.path.join(run.tmp, f"race-{i}")
            e = {"GORACE": f"halt_on_error=0 log_path={log} history_size=4", "GOMAXPROCS": str([4, 8, 2, 6, 3, 16][i % 6])}
            return i, run.monitor(exe, f"race{i}", ["-div", str(n)], e, workers=1, seed=run.seed * 1000 + i)
        for i, r in ex.map(one, range(n)):
            text = ""
            for f in os.listdir(run.tmp):
                if f.startswith(f"race-{i}."):
                    text += open(os.path.join(run.tmp, f), errors="replace").read()
            for b in re.findall(r"WARNING: DATA RACE.*?(?:={18}|\Z)", text, re.S):
                reports.append((i, b))
            if r:
                for k, v in r["classes"].items():
                    classes[k] = classes.get(k, 0) + v
                samples += r["samples"][:3]
    ncold = (300, 80) if run.tier == "quick" else (6000, 1200)
    before = len(run.configs)
    if not run.violations and not reports:
        hints = os.path.join(run.tmp, "hints.json")
        run.monitor(usual, "cold", ["-mul", "1", "-hints", hints], workers=1, prop="C18-cold")

        def coldone(i):
            raced = i >= ncold[0]
            e = {"GOMAXPROCS": "8"}
            log = os.path.join(run.tmp, f"raced-{i}")
            if raced:
                e["GORACE"] = f"halt_on_error=0 log_path={log}"
            r = run.monitor(exe if raced else usual, "cold", ["-mul", "1", "-hints", hints], e, workers=1, seed=run.seed * 100000 + i, prop="C18-cold")
            return i, r, "".join(open(os.path.join(run.tmp, f), errors="replace").read() for f in os.listdir(run.tmp) if f.startswith(f"raced-{i}.")) if raced else ""
        with ThreadPoolExecutor(max_workers=2) as ex:
            for i, r, text in ex.map(coldone, range(sum(ncold))):
                for b in re.findall(r"WARNING: DATA RACE.*?(?:={18}|\Z)", text, re.S):
                    reports.append((i, b))
                for k, v in (r or {}).get("classes", {}).items():
                    classes[k] = classes.get(k, 0) + v
    if not run.violations and not reports:
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            for r in ex.map(lambda i: run.monitor(usual, f"uneven{i}", ["-part", f"{i}/{NCPU}", "-mul", "1"], workers=1, prop="C18-uneven"), range(NCPU)):
                for k, v in (r or {}).get("classes", {}).items():
                    classes[k] = classes.get(k, 0) + v
    cold = run.configs[before:]
    run.configs = run.configs[:before] + [dict(config="cold and uneven processes together", seed=run.seed, evaluations=sum(c["evaluations"] for c in cold),
                                               distinct=sum(c["distinct"] for c in cold), wall_s=0)]
    distinct = {}
    for i, b in reports:
        fr = [re.sub(r"\(.*", "", l.strip()) for l in b.split("\n") if l.startswith("  ") and MODULE in l and not l.strip().startswith("/")]
        lib = tuple(x for x in fr if MON not in x and "main." not in x)
        # No value is shared by the monitor except read-only arguments, so
        # every report involves the library; one without a frame of it would
        # be a fault of the monitor.
        distinct.setdefault(lib, (i, b))
    for lib, (i, b) in distinct.items():
        if not lib:
            raise Inconclusive("a race report without a frame of the library:\n" + b)
        run.violations.append(dict(property=run.prop, config=f"race{i}", stream="concurrent", chunk=0, case=0,
                                   seed=run.seed * 1000 + i, input="concurrent calls: " + " ".join(lib)[:400],
                                   message="the race detector reports a data race\n" + b[:4000], args=["-prop", run.prop]))
    merged(run, classes)
    return {"race_reports": len(reports), "processes": n, "cold_processes": ncold, "classes": classes, "samples": samples}


def memory(run):
    """C40: fenced memory in the usual builds, then workloads of this and other
    properties with AddressSanitizer, with checks of pointer arithmetic, and
    with a collector that runs all the time and overwrites what it frees."""
    extra = plain(run)
    if run.violations:
        return extra
    lib = "-gcflags=github.com/mewmew/float/...=-d=checkptr=2"
    with ThreadPoolExecutor(max_workers=2) as ex:
        fa = ex.submit(run.build, "asan", ["-asan"], CGO_ENABLED="1")
        fc = ex.submit(run.build, "checkptr", [lib])
        exes = {"asan": fa.result(), "checkptr": fc.result()}
    k = 1 if run.tier == "quick" else 4
    missing = set(run.missing)
    classes = {}
    for name, exe, div, env in (("checkptr", exes["checkptr"], 8, {"GOGC": "20"}),
                                ("clobberfree", exes["checkptr"], 16, {"GODEBUG": "clobberfree=1,invalidptr=1", "GOGC": "1"}),
                                ("asan", exes["asan"], 32, {"ASAN_OPTIONS": "detect_leaks=0"})):
        if run.violations:
            break
        r = run.monitor(exe, name, ["-div", str(max(div // k, 1))], env, seed=run.seed + 900, prop="C40-san")
        if r:
            classes[name] = sum(r["classes"].values())
    run.missing = missing
    extra["sanitized_observations"] = classes
    return extra


def wasm_runner():
    p = gotool()
    if os.path.sep not in p:
        p = shutil.which(p) or p
    return os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(p))), "lib", "wasm", "wasm_exec_node.js")


def wasm(run, node, exe, div, hints):
    """One process for each part of the chunks: the programs have one thread."""
    launch = os.path.join(run.tmp, "wasm.sh")
    with open(launch, "w") as f:
        f.write(f'#!/bin/sh\nexec "{node}" --stack-size=8192 "{wasm_runner()}" "{exe}" "$@"\n')
    os.chmod(launch, 0o755)
    out = {"digests": {}, "classes": {}, "samples": []}
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        rs = list(ex.map(lambda k: run.monitor(launch, f"wasm-{k}", ["-div", str(div), "-part", f"{k}/{NCPU}", "-hints", hints], workers=1), range(NCPU)))
    for r in rs:
        if not r:
            return None
        for s, h in r["digests"].items():
            out["digests"][s] = (out["digests"].get(s, 0) + int(h, 16)) & (2**64 - 1)
        for k, v in r["classes"].items():
            out["classes"][k] = out["classes"].get(k, 0) + v
        out["samples"] += r["samples"]
    out["digests"] = {s: "%x" % h for s, h in out["digests"].items()}
    return out


def strange(i=0):
    """Variables that a program might look at, those that the library's source
    mentions included, with values that are not the usual ones. With i, the
    i-th of the values that the source mentions near a variable, or None."""
    e = {"LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "TZ": "Asia/Kathmandu", "HOME": "/nonexistent", "USER": "nobody",
         "PATH": "/nonexistent", "TERM": "dumb", "CI": "1", "DEBUG": "1", "VERBOSE": "1", "GOMAXPROCS": "3", "GODEBUG": "cpu.all=off"}
    more = False
    for root, _, fs in os.walk(REPO):
        for f in fs:
            if f.endswith(".go") and not f.endswith("_test.go"):
                src = open(os.path.join(root, f), errors="replace").read()
                for m in re.finditer(r'"([A-Za-z]\w{2,40})"', src):
                    n = m.group(1)
                    if n in ("TMPDIR", "GODEBUG") or n.startswith(("LD_", "GO")) or n.upper() != n:
                        continue
                    if i == 0:
                        e.setdefault(n, "1")
                    elif re.search(r"env|Env", src):
                        near = src[max(0, m.start() - 300):m.end() + 1500]
                        vals = [v for v in dict.fromkeys(re.findall(r'"([^"\\\n]{1,24})"', near) + ["0", "true", "no"]) if v != n]
                        if i <= len(vals):
                            e[n], more = vals[i - 1], True
    return e if i == 0 or more else None


def configs(run):
    """C20: the workloads of the other properties in other builds."""
    quick = run.tier == "quick"
    div = 20 if quick else 8
    few = 1000 if quick else 40   # where code runs slowly
    # The library alone without optimisation (the monitor stays fast).
    e = goenv(run.tmp)
    pk = run.sh([gotool(), "list", "-modfile=" + run.modfile, "-deps", "."], e, os.path.join(VERIF, "harness")).stdout.split()
    NL = ["-gcflags=" + p + "=-N -l" for p in pk if (p == MODULE or p.startswith(MODULE + "/")) and p != MON]
    cf = [
        ("amd64", [], None, {}, div),
        ("386", [], None, {"GOARCH": "386"}, div),
        ("386-noopt", NL, None, {"GOARCH": "386"}, div),
        ("386-softfloat", ["-tags=math_big_pure_go"], None, {"GOARCH": "386", "GO386": "softfloat"}, div),
        ("amd64-noopt", NL + ["-tags=math_big_pure_go"], None, {}, div),
        ("go1.23", [], "go1.23.12", {}, div),
        ("go1.24", [], "go1.24.13", {}, div),
        ("go1.25", [], "go1.25.14", {}, div),
        ("go1.26", [], "go1.26.10", {}, div),
    ]
    try:
        flags = open("/proc/cpuinfo").read()
        if all(re.search(rf"\b{f}\b", flags) for f in ("avx2", "bmi1", "bmi2", "fma", "abm")):
            cf.append(("amd64v3", [], None, {"GOAMD64": "v3"}, div))
    except OSError:
        pass
    cf.append(("race", ["-race"], None, {"CGO_ENABLED": "1"}, few))
    # WebAssembly, run by node: another 64-bit architecture.
    node = shutil.which("node")
    if node and os.path.exists(wasm_runner()):
        cf.append(("wasm", [], None, {"GOOS": "js", "GOARCH": "wasm"}, few))
    # The usual build in an unusual environment.
    envs = {"environment": strange()}
    for i in range(1, 13):
        if strange(i):
            envs[f"environment{i}"] = strange(i)
    cf += [(n, [], None, {}, div) for n in envs]
    # The least alike first: on a slow machine the last ones are left out.
    last = ["amd64v3", "go1.24", "go1.25", "go1.26"]
    cf = sorted((c for c in cf if gotool(c[2])), key=lambda c: last.index(c[0]) + 2 if c[0] in last else int(c[0] == "race"))
    left_out = []
    digs = {}
    exes = {}
    hints = os.path.join(run.tmp, "hints.json")
    with ThreadPoolExecutor(max_workers=4) as ex:
        futs = {c[0]: ex.submit(run.build, c[0], c[1], c[2], **c[3]) for c in cf if c[0] not in envs}
        for k, f in futs.items():
            exes[k] = f.result()
    for k in envs:
        exes[k] = exes["amd64"]
    classes, samples, streams = {}, [], set()

    def saw(name, d, r):
        for s, h in r["digests"].items():
            digs.setdefault((d, s), {}).setdefault(h, []).append(name)
            streams.add(s)
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v

    for name, _, _, env, d in cf:
        if run.violations:
            break
        if left(run.tier) < (200 if name in last else 40) and name not in ("amd64", "386"):
            left_out.append(name)
            continue
        # The digests compare like with like: same seed, same chunks.
        try:
            if name == "wasm":
                r = wasm(run, node, exes[name], d, hints)
            else:
                r = run.monitor(exes[name], name, ["-div", str(d), "-hints", hints], envs.get(name))
        except Late:
            if name in ("amd64", "386"):
                raise
            left_out.append(name)
            continue
        if r:
            saw(name, d, r)
            samples += r["samples"][:4]
    # A reference run of the 64-bit build on the chunks of the slower builds.
    for d in [] if run.violations else sorted({c[4] for c in cf} - {div}):
        try:
            r = run.monitor(exes["amd64"], f"amd64-ref{d}", ["-div", str(d), "-hints", hints])
        except Late:
            r = None
        if r:
            saw("amd64", d, r)
    bad = {v["config"] for v in run.violations}
    for (d, s), hs in digs.items():
        if len(hs) > 1 and not bad:
            run.violations.append(dict(property=run.prop, config="+".join(sorted(n for ns in hs.values() for n in ns)), stream=s, chunk=-1,
                                       case=0, seed=run.seed, input=f"stream {s}, chunks divided by {d}", args=["-prop", run.prop],
                                       message="the results differ between builds: " + json.dumps(hs)))
    return {"configurations": [c[0] for c in cf if c[0] not in left_out], "left_out_for_lack_of_time": left_out, "digests_compared": len(digs), "classes": classes, "samples": samples}


def generators(run):
    """C29: run the generators, examine their output, run what they emit."""
    errs = os.path.join(VERIF, "helper", "errors")
    mod = os.path.join(run.tmp, "gen.mod")
    with open(mod, "w") as f:
        f.write(f"module {MODULE}\n\ngo 1.21\n\nrequire github.com/pkg/errors v0.9.1\n\nreplace github.com/pkg/errors => {errs}\n")
    open(os.path.join(run.tmp, "gen.sum"), "w").close()
    e = goenv(run.tmp)
    out = {}

    def gen(pkg):
        o = os.path.join(run.tmp, f"{pkg}_extra_test.go")
        cwd = os.path.join(REPO, pkg)
        exe = os.path.join(run.tmp, "gen-" + pkg)
        src = sorted(f for f in os.listdir(cwd) if f.endswith(".go") and not f.endswith("_test.go")
                     and re.search(r"^//\s*\+build ignore|^//go:build ignore", open(os.path.join(cwd, f)).read(), re.M))
        run.sh([gotool(), "build", "-modfile=" + mod, "-o", exe] + src, e, cwd)
        # A second one at the same time, with another hash seed, scheduled
        # differently, has to emit the same bytes.
        o2 = o + ".again"
        with open(o2, "wb") as f:  # an older and longer output is replaced
            f.truncate(1 << 28)
        q = subprocess.Popen([exe, "-o", o2], cwd=cwd, env=dict(e, GOMAXPROCS="3"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run([exe, "-o", o], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=left(run.tier), errors="replace")
        q.wait(left(run.tier))
        same[pkg] = os.path.exists(o) and os.path.getsize(o) == os.path.getsize(o2) and open(o, "rb").read() == open(o2, "rb").read()
        return o, p

    same = {}
    faults = {}

    def faulty(pkg):
        """A generator that cannot write all of its output has to say so; and
        without -o the output is extra_test.go in the current directory."""
        src = os.path.join(REPO, pkg)
        cwd = os.path.join(run.tmp, "cwd-" + pkg)
        os.mkdir(cwd)
        for f in os.listdir(src):
            if os.path.isfile(os.path.join(src, f)) and not f.endswith("_test.go"):
                shutil.copy(os.path.join(src, f), cwd)
        exe = os.path.join(run.tmp, "gen-" + pkg)
        full = os.path.join(run.tmp, "full-" + pkg)
        cases = [("a full device", [exe, "-o", "/dev/full"], None),
                 ("a directory that is not there", [exe, "-o", os.path.join(run.tmp, "nowhere", "x.go")], None),
                 ("room for all but the last byte", [exe, "-o", full], os.path.getsize(out[pkg]) - 1),
                 ("", [exe], None)]
        if not os.path.exists("/dev/full"):
            del cases[0]

        def one(case):
            what, argv, limit = case

            def pre():
                if limit:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            return subprocess.run(argv, cwd=cwd, env=dict(e, GOMAXPROCS="2"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  errors="replace", preexec_fn=pre, timeout=left(run.tier)).returncode
        with ThreadPoolExecutor(max_workers=4) as ex:
            rcs = list(ex.map(one, cases))
        res = [(c[0], rc) for c, rc in zip(cases, rcs) if c[0] and not (c[2] and os.path.exists(full) and os.path.getsize(full) < c[2])]
        return res, rcs[-1], os.path.join(cwd, "extra_test.go")

    with ThreadPoolExecutor(max_workers=2) as ex:
        for pkg, (o, p) in zip(("binary16", "binary128"), ex.map(gen, ("binary16", "binary128"))):
            if p.returncode or not os.path.exists(o):
                run.violations.append(dict(property=run.prop, config="generator", stream=pkg, chunk=0, case=0, seed=0, args=[],
                                           input=f"go run gen.go in {pkg}", message="the generator failed\n" + p.stdout[-3000:]))
            elif not same[pkg]:
                run.violations.append(dict(property=run.prop, config="generator", stream=pkg, chunk=0, case=0, seed=0, args=[],
                                           input=f"two runs of gen.go in {pkg}", message="the generator emitted different vectors the second time"))
            else:
                out[pkg] = o
    if run.violations:
        return {"samples": []}
    with ThreadPoolExecutor(max_workers=2) as ex:
        for pkg, (res, rc, path) in zip(("binary16", "binary128"), ex.map(faulty, ("binary16", "binary128"))):
            for what, r in res:
                faults[pkg + ": " + what] = r
                if r == 0:
                    run.violations.append(dict(property=run.prop, config="generator", stream=pkg, chunk=0, case=0, seed=0, args=[],
                                               input=f"gen.go in {pkg}, with {what}", message="the generator reports success without having written its vectors"))
            if rc != 0 or not os.path.exists(path) or open(path, "rb").read() != open(out[pkg], "rb").read():
                run.violations.append(dict(property=run.prop, config="generator", stream=pkg, chunk=0, case=0, seed=0, args=[],
                                           input=f"gen.go in {pkg}, without -o", message=f"extra_test.go does not hold the vectors (exit {rc})"))
            shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    if run.violations:
        return {"samples": []}
    exe = run.build("default")
    ov = os.path.join(run.tmp, "ov.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, p, "zz_extra_verif_test.go"): o for p, o in out.items()}}, f)

    def test(pkg):
        t = os.path.join(run.tmp, f"test-{pkg}")
        p = subprocess.run([gotool(), "test", "-c", "-vet=off", "-overlay", ov, "-o", t, "./" + pkg], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=left(run.tier))
        if p.returncode:
            return pkg, p, 0
        names = re.findall(r"^func (Test\w*)\(", open(out[pkg]).read(), re.M)
        q = subprocess.run([t, "-test.v", "-test.run", "^(" + "|".join(names) + ")$"], cwd=os.path.join(REPO, pkg), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=left(run.tier))
        return pkg, q, len(re.findall(r"^--- PASS", q.stdout, re.M))

    passed = {}
    with ThreadPoolExecutor(max_workers=3) as ex:
        futs = [ex.submit(test, p) for p in out]
        r = run.monitor(exe, "default", ["-gen16", out["binary16"], "-gen128", out["binary128"]], workers=4)
        for f in futs:
            pkg, p, n = f.result()
            passed[pkg] = n
            if p.returncode:
                run.violations.append(dict(property=run.prop, config="generated test", stream=pkg, chunk=0, case=0, seed=0, args=[],
                                           input=f"go test of the generated vectors in {pkg}",
                                           message="the generated test does not compile or fails\n" + p.stdout[:3000]))
            elif n == 0:
                run.missing.add(f"no generated test ran in {pkg}")
    return {"generated_tests_passed": passed, "faults_and_exit_status": faults, "classes": r["classes"] if r else {}, "samples": r["samples"] if r else []}


def effects(run):
    """C41: processes that watch themselves while the workloads of the other
    properties run, and processes that import the library and do nothing."""
    exe = run.build("default")
    extra = {"importing": importing(run)}
    if run.violations:
        return extra
    div = "2" if run.tier == "quick" else "1"
    classes, samples = {}, []
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        fg = ex.submit(guided_build, run)
        for r in ex.map(lambda k: run.monitor(exe, f"watched{k}", ["-part", f"{k}/{NCPU}", "-div", div], {"GOMAXPROCS": "2"}, workers=1), range(NCPU)):
            if r:
                for k, v in r["classes"].items():
                    classes[k] = classes.get(k, 0) + v
                samples += (r["samples"] or [])[:6]
        fg = fg.result()
    merged(run, classes)
    if not run.violations:
        extra["guided"] = guided(run, exe, fg)
    return dict(extra, classes=classes, samples=samples)


def importing(run):
    """A program that imports the library and does nothing with it, beside the
    same program without the import."""
    seen = {}
    cwd = os.path.join(run.tmp, "empty")
    os.mkdir(cwd)
    for name, tags in (("without", []), ("with", ["-tags", "lib"])):
        exe = os.path.join(run.tmp, "imports-" + name)
        run.sh([gotool(), "build", "-modfile=" + run.modfile, *tags, "-o", exe, "./imports"], goenv(run.tmp), os.path.join(VERIF, "harness"))
        res = os.path.join(run.tmp, "settings")
        e = {k: v for k, v in goenv(run.tmp).items() if k in ("PATH", "HOME", "LANG")}
        e.update(GODEBUG="randautoseed=0", GOMAXPROCS="3")
        p = subprocess.run([exe, res], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        o = {"status": p.returncode, "output": (p.stdout + p.stderr).decode(errors="replace"), "files made": sorted(os.listdir(cwd)),
             "settings": open(res).read().split("\n") if os.path.exists(res) else []}
        tr = os.path.join(run.tmp, "trace-" + name)
        q = subprocess.run(["strace", "-f", "-qq", "-o", tr, "-e", "trace=file,network,process,kill,ioctl,write,pwrite64,writev", exe, res], cwd=cwd, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60) if shutil.which("strace") else None
        o["traced"] = bool(q) and q.returncode == 0 and os.path.exists(tr) and os.path.getsize(tr) > 0
        o["calls"] = set()
        if o["traced"]:
            for l in open(tr, errors="replace"):
                m = re.match(r"\d+\s+(\w+)\((.*)", l)
                # Threads come and go, and are woken by signals.
                if m and m.group(1) not in ("execve", "exit", "exit_group", "tgkill", "wait4", "waitid", "write") and "CLONE_THREAD" not in l:
                    o["calls"].add(re.sub(r"0x[0-9a-f]+|\d{3,}", "N", m.group(1) + "(" + m.group(2)))
                elif m and m.group(1) == "execve" and exe not in l:
                    o["calls"].add(m.group(0))
        seen[name] = o
    a, b = seen["without"], seen["with"]
    bad = []
    if b["status"] != a["status"]:
        bad.append(f"the process that imports the library ended with {b['status']}: {b['output'][:600]}")
    elif b["output"] != a["output"]:
        bad.append("importing the library writes: " + b["output"][:600])
    if b["files made"] != a["files made"]:
        bad.append("importing the library makes files: " + " ".join(b["files made"]))
    if a["settings"] and b["settings"]:
        for x in sorted(set(a["settings"]) ^ set(b["settings"])):
            bad.append("importing the library changes a setting of the process, with or without: " + x)
    if a["traced"] and b["traced"]:
        for x in sorted(b["calls"] - a["calls"]):
            bad.append("importing the library makes a system call: " + x)
    for x in bad:
        run.violations.append(dict(property=run.prop, config="importing", stream="", chunk=-1, case=0, seed=0, args=[], input="import of the library's packages", message=x))
    return {"settings_compared": len(a["settings"]), "system_calls_compared": len(a["calls"] | b["calls"]) if a["traced"] and b["traced"] else 0}


# ------------------------------------------------------------------- reporting

def listed(prop):
    """The findings listed for a property: id -> text."""
    res = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


RULES = json.load(open(os.path.join(VERIF, "tools", "rules.json")))


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        extra = {"C17": serial, "C37": serial, "C18": race, "C20": configs, "C29": generators, "C40": memory, "C41": effects}.get(prop, plain)(run)
        inconclusive = None
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        extra, inconclusive = {"samples": []}, str(e)
    except Exception:  # of this script; what was observed before still counts
        import traceback
        extra, inconclusive = {"samples": []}, traceback.format_exc()
    finally:
        run.close()
    known = listed(prop)
    for k, f in run.findings.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]} ({f['count']} inputs this run, e.g. {f['sample'][:300]})")
        else:
            run.violations.append(dict(property=prop, config=f["config"], stream="", chunk=-1, case=0, seed=f["seed"], args=f["args"],
                                       input=f["sample"], message=f"{k} ({f['count']} inputs)"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = (extra.pop("samples", None) or [])[:40] or ["none observed"]
    cov = {"evaluations": sum(c["evaluations"] for c in run.configs), "distinct_nontrivial": sum(c["distinct"] for c in run.configs),
           "rule": RULES[prop], "samples": samples, "runs": run.configs}
    cov.update(extra)
    if run.findings:
        cov["known_findings_seen"] = {k: f["count"] for k, f in run.findings.items() if k in known}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["math/big and the harness's own integer arithmetic are correct", "the Go toolchain and this CPU execute Go as specified"],
          "wall_s": round(time.time() - T0, 2), "violations": len(run.violations)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if run.violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-seed{seed}-{tier}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": run.violations[:20]}, f, indent=1)
        for v in run.violations[:5]:
            print(f"{v['config']} {v['stream']}: {v['input'][:600]}\n    {v['message'][:1200]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive:
        print(f"no verdict on {prop}: {inconclusive}")
        return 2
    if run.missing or cov["evaluations"] == 0:
        print(f"no verdict on {prop}: not observed: {sorted(run.missing)}")
        return 2
    print(f"{prop} held: {cov['evaluations']} observations, {cov['distinct_nontrivial']} distinct, {len(run.configs)} process(es), {ev['wall_s']} s")
    return 0


def setup():
    """Checks that what the checks need is there, and that the monitor builds."""
    for tool in ("gcc", "clang"):
        if not shutil.which(tool):
            print("missing:", tool)
            return 1
    run = Run("C01", "quick", 1)
    try:
        run.build("default")
    finally:
        run.close()
    return 0


def replay(path):
    rec = json.load(open(path))
    run = Run(rec["property"], rec["tier"], rec["seed"])
    rc = 0
    try:
        exes = {}
        args = []
        if rec["property"] == "C28":
            helper = os.path.join(run.tmp, "conv")
            run.sh(["gcc", "-O2", "-o", helper, os.path.join(VERIF, "helper", "conv.c")], goenv(run.tmp))
            args = ["-helper", helper]
        for v in rec["violations"]:
            print(f"--- {v['config']} {v['stream']}: {v['input'][:600]}\n    {v['message'][:2000]}")
            m = re.search(r"input bytes ([0-9a-f]+)", v["message"])
            if m and v["chunk"] < 0:
                exes["replay"] = exes.get("replay") or run.build("replay")
                p = subprocess.run([exes["replay"], "-prop", rec["property"], "-repo", REPO, "-input", m.group(1)], env=goenv(run.tmp))
                rc = max(rc, p.returncode)
            elif v["chunk"] >= 0 and v["case"] > 0:
                cmd = [a for a in v["args"]]
                for flag in ("-helper", "-clang", "-out", "-tmp", "-repo", "-hints", "-gen16", "-gen128"):
                    if flag in cmd:
                        i = cmd.index(flag)
                        del cmd[i:i + 2]
                arch = {"GOARCH": "386"} if v["config"].startswith("386") else {}
                name = "replay" + "".join(arch.values())
                exes.setdefault(name, None)
                exes[name] = exes[name] or run.build(name, **arch)
                p = subprocess.run([exes[name], *cmd, "-tmp", run.tmp, "-repo", REPO, *args, "-stream", v["stream"], "-chunk", str(v["chunk"]), "-case", str(v["case"])],
                                   env=goenv(run.tmp))
                rc = max(rc, p.returncode)
    finally:
        run.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())
