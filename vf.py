#!/usr/bin/env python3
"""Build and run the harnesses of /verif against the current tree of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(VERIF, "eng")


def goenv():
    env = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode().split("=", 1)
            if k.startswith("GO") or k in ("PATH", "HOME", "CGO_ENABLED"):
                env[k] = v
    env.setdefault("GOFLAGS", "-mod=mod")
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    return env


def overlay(mode, harness, scratch):
    rep = {}

    def add(src, dst):
        for f in sorted(os.listdir(src)):
            if f.endswith(".go") or f.endswith(".s"):
                rep[os.path.join(REPO, dst, f)] = os.path.join(src, f)

    add(os.path.join(ENG, "sym"), "zzverif/sym")
    add(os.path.join(ENG, "hlib"), "zzverif/hlib")
    for extra in ("circ",):
        p = os.path.join(ENG, extra)
        if os.path.isdir(p):
            add(p, "zzverif/" + extra)
    add(os.path.join(ENG, harness), "zzverif/" + harness)
    if mode == "ideal":
        d = os.path.join(REPO, "jindo")
        for f in os.listdir(d):
            if f.endswith(".go"):
                rep[os.path.join(d, f)] = ""
        add(os.path.join(ENG, "idealjindo"), "jindo")
    f = os.path.join(scratch, "overlay.json")
    with open(f, "w") as h:
        json.dump({"Replace": rep}, h)
    return f


def modfile(mode, scratch):
    """A copy of go.mod/go.sum, so that nothing is written in the repository."""
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(scratch, "go.mod"))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    if mode == "ring":
        with open(os.path.join(scratch, "go.mod"), "a") as h:
            h.write("\nreplace github.com/tuneinsight/lattigo/v6 => %s\n" % os.path.join(ENG, "lattigostub"))
    return os.path.join(scratch, "go.mod")


def build(harness, mode, scratch):
    """Returns (binary, None) or (None, error text)."""
    out = os.path.join(scratch, harness + "-" + mode)
    tags = {"ideal": "zzideal", "real": "zzreal", "ring": "zzring"}[mode]
    cmd = ["go", "build", "-modfile", modfile(mode, scratch), "-overlay", overlay(mode, harness, scratch),
           "-tags", tags, "-o", out, "./zzverif/" + harness]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stdout + r.stderr
    return out, None


# A violation is reported: how long the other processes may go on.
GRACE = 60


def run(binary, args, env, timeout, scratch, stop=None):
    rep = os.path.join(scratch, "report-%d.json" % time.time_ns())
    e = dict(goenv())
    e.update(env)
    e["VERIF_REPORT"] = rep
    log = rep + ".log"
    end, rc = time.time() + timeout, None
    with open(log, "w") as h:
        pr = subprocess.Popen([binary] + args, env=e, stdout=h, stderr=subprocess.STDOUT, cwd=scratch)
        while rc is None:
            try:
                rc = pr.wait(1)
            except subprocess.TimeoutExpired:
                late = time.time() > end
                if stop is not None:
                    if not stop.get("at") and os.path.exists(rep):
                        stop["at"] = time.time()
                    if stop.get("at") and time.time() > stop["at"] + GRACE:
                        late = True
                if late:
                    pr.kill()
                    pr.wait()
                    rc = -1
    with open(log, errors="replace") as h:
        out = h.read()
    if rc == -1:
        out += "\nstopped after %ds" % (time.time() - end + timeout)
        if stop is not None and stop.get("at"):
            rc = 0
            if not os.path.exists(rep):
                return {}, out, 0
    try:
        with open(rep) as h:
            return json.load(h), out, rc
    except Exception:
        return None, out, rc


LISTS = ("cases", "violations", "reduced", "notes", "functions", "samples", "bounds")
SUMS = ("obligations", "discharged", "witnesses", "validated", "queries", "unsat", "sat", "unknown", "paths", "solver_s")


def merge(reps):
    m = {}
    for r in reps:
        for k in LISTS:
            m.setdefault(k, [])
            for x in r.get(k) or []:
                if x not in m[k]:
                    m[k].append(x)
        for k in SUMS:
            m[k] = m.get(k, 0) + (r.get(k) or 0)
        m["max_monomials"] = max(m.get("max_monomials", 0), r.get("max_monomials") or 0)
    return m


def crashed(out, cur):
    """A process that died: was it the code under test? Returns a violation or None."""
    if "fatal error: " not in out and "panic: " not in out and "SIGSEGV" not in out:
        return None
    if "out of memory" in out or "symbolic execution: unsupported" in out:
        return None
    # the first frame that is not the runtime
    i = out.find("\ngoroutine ")
    top = ""
    for l in out[i + 1:].split("\n"):
        if l.startswith("\t") or l.startswith("goroutine ") or not l.strip() or l.startswith("runtime.") or l.startswith("panic(") or l.startswith("runtime/"):
            continue
        if l.startswith("[") or "(" not in l:
            continue
        top = l.strip()
        break
    if "ringo-snark/" not in top or "/zzverif/" in top:
        return None
    case = ""
    try:
        case = open(cur).read()
    except OSError:
        pass
    k = max(out.find("fatal error: "), 0) or max(out.find("panic: "), 0)
    return {"key": "crash/" + case, "what": "the code crashes the process in %s: %s" % (top.split("(")[0], out[k:k + 200].split("\n")[0]),
            "case": case, "model": {}, "replay": "", "real": False}


def run_sharded(binary, shards, tier, timeout, scratch, extra=None):
    """Runs a harness in several processes; returns (report, problems)."""
    import concurrent.futures as cf

    stop = {}

    def one(i):
        env = {"VERIF_TIER": tier, "VERIF_SHARD": "%d/%d" % (i, shards)}
        env.update(extra or {})
        d = os.path.join(scratch, "s%d" % i)
        os.makedirs(d, exist_ok=True)
        cur = os.path.join(d, "case")
        env["VERIF_CUR"] = cur
        rep, out, rc = run(binary, [], env, timeout, d, stop)
        if rc not in (0, -1):
            v = crashed(out, cur)
            if v:
                # once more, that case alone
                env2 = dict(env, VERIF_SHARD="0/1", VERIF_ONLY=v["case"])
                rep2, out2, rc2 = run(binary, [], env2, timeout, d)
                v["real"] = rc2 not in (0, -1) and crashed(out2, cur) is not None
                v["replay"] = "the case alone crashes again" if v["real"] else "did not crash again"
                return {"violations": [v], "cases": [v["case"]], "obligations": 1}, "", 0
        return rep, out, rc

    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    problems = []
    for i, (rep, out, rc) in enumerate(res):
        if rep is None or rc != 0:
            problems.append("shard %d/%d: rc %s: %s" % (i, shards, rc, out[-1500:]))
    return merge([r[0] for r in res if r[0]]), problems, "".join(r[1] for r in res)


def do_run(run, tier, seed, left, scratch):
    """One harness run of a check: (merged report or None, problems)."""
    if run.get("python"):
        import importlib
        return importlib.import_module(run["python"]).run(run, tier, seed, left, scratch)
    b, err = build(run["harness"], run.get("mode", "ideal"), scratch)
    if err:
        return None, ["the harness does not build against this tree: " + err[-1500:]]
    rep, prob, _ = run_sharded(b, run.get("shards", 8), tier, left, os.path.join(scratch, run["harness"]),
                               {"VERIF_ONLY": os.environ.get("VERIF_ONLY", ""), "VERIF_SEED": str(seed), **run.get("env", {})})
    return rep, prob


if __name__ == "__main__":
    if sys.argv[1] == "harness":
        name, mode = sys.argv[2], (sys.argv[3] if len(sys.argv) > 3 else "ideal")
        s = tempfile.mkdtemp(prefix="vf-")
        try:
            b, err = build(name, mode, s)
            if err:
                print(err)
                sys.exit(2)
            n = int(os.environ.get("SHARDS", "8"))
            rep, prob, out = run_sharded(b, n, os.environ.get("VERIF_TIER", "quick"), 3000, s)
            print(out)
            print(json.dumps(rep, indent=1))
            print("PROBLEMS", prob)
        finally:
            shutil.rmtree(s)
