#!/usr/bin/env python3
"""Engine B: symbolic execution of the SSA form of the current tree (eng/ssax)."""
import concurrent.futures as cf
import glob, importlib, json, os, re, shutil, subprocess, time

import vf

H = os.path.join(vf.ENG, "ssah")


def env():
    e = vf.goenv()
    e["GOFLAGS"] = "-mod=mod"
    e["GONOSUMDB"] = "*"
    e["GOSUMDB"] = "off"
    return e


def build_engine(scratch):
    d = os.path.join(scratch, "ssax")
    shutil.copytree(os.path.join(vf.ENG, "ssax"), d)
    out = os.path.join(scratch, "ssax.bin")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=d, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("engine: " + r.stderr[-2000:])
    return out


def overlay(ssax, scratch, stubs, pkgs, keep=None):
    """Harness files and replaced functions laid over the repository: {path: file}."""
    o = {}
    for p in ["zzverif/v", "zzverif/fe"] + sorted(pkgs):
        src = os.path.join(H, "v" if p == "zzverif/v" else p)
        if re.search(r"/internal/zp\d*$", p):
            # one harness for all bundled fields
            src = os.path.join(scratch, "gen", p)
            os.makedirs(src)
            for f in os.listdir(os.path.join(H, "zp")):
                t = open(os.path.join(H, "zp", f)).read()
                open(os.path.join(src, f), "w").write(t.replace("package zp\n", "package %s\n" % os.path.basename(p), 1))
        if not os.path.isdir(src):
            continue
        fs = sorted(f for f in os.listdir(src) if f.endswith(".go") and (not keep or f in keep or p.startswith("zzverif/")))
        for f in fs:
            o[os.path.join(vf.REPO, p, f)] = os.path.join(src, f)
        if p.startswith("zzverif/"):
            continue
        # the native entry
        names, pkg = [], None
        for f in fs:
            t = open(os.path.join(src, f)).read()
            pkg = re.search(r"^package (\w+)", t, re.M).group(1)
            names += re.findall(r"^func (ZZ\w+)\(\)", t, re.M)
        if pkg:
            g = os.path.join(scratch, "gen", p.replace("/", "_") + "_zz_run_test.go")
            os.makedirs(os.path.dirname(g), exist_ok=True)
            with open(g, "w") as h:
                h.write('package %s\n\nimport (\n\t"os"\n\t"testing"\n\n\t"github.com/sp301415/ringo-snark/zzverif/v"\n)\n\n' % pkg)
                h.write("func TestZZVerif(t *testing.T) {\n\tv.Run(map[string]func(){\n")
                for n in names:
                    h.write('\t\t"%s": %s,\n' % (n, n))
                h.write('\t}[os.Getenv("VERIF_HARNESS")])\n}\n')
            o[os.path.join(vf.REPO, p, "zz_run_test.go")] = g
    for pkg, st in (stubs or {}).items():
        d = os.path.join(scratch, "stub", pkg.replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        sf = d + ".json"
        json.dump(st, open(sf, "w"))
        r = subprocess.run([ssax, "-stub", os.path.join(vf.REPO, pkg), "-stubs", sf, "-out", d], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("replacing functions of %s: %s" % (pkg, r.stderr[-500:]))
        for f in os.listdir(d):
            o[os.path.join(vf.REPO, pkg, f)] = os.path.join(d, f)
    return o


def prepare(scratch, ssax, group):
    """Builds the native binaries of a group of jobs; returns (overlay, flags)."""
    pkgs = {j["pkg"] for j in group["jobs"]}
    o = overlay(ssax, scratch, group.get("stubs"), pkgs | set(group.get("extra", [])), group.get("files"))
    of = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": o}, open(of, "w"))
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(vf.REPO, "go.mod"), mod)
    shutil.copy(os.path.join(vf.REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    tags = group.get("tags", "")
    bins = {}
    for p in pkgs:
        out = os.path.join(scratch, p.replace("/", "_") + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", of, "-o", out]
        if tags:
            cmd += ["-tags", tags]
        r = subprocess.run(cmd + ["./" + p], cwd=vf.REPO, env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("the harness of %s does not build: %s" % (p, (r.stdout + r.stderr)[-1500:]))
        bins[p] = out
    fl = ["-modfile=" + mod]
    if tags:
        fl.append("-tags=" + tags)
    return o, fl, bins


def run(spec, tier, seed, left, scratch):
    t0 = time.time()
    scratch = os.path.join(scratch, "ssa-" + spec["harness"])
    os.makedirs(scratch, exist_ok=True)
    ssax = build_engine(scratch)
    groups = importlib.import_module("ssajobs").groups(spec["harness"], tier)
    only = os.environ.get("VERIF_ONLY")
    reps, problems, work = [], [], []
    for gi, g in enumerate(groups):
        d = os.path.join(scratch, "g%d" % gi)
        os.makedirs(d)
        try:
            o, fl, bins = prepare(d, ssax, g)
        except RuntimeError as e:
            problems.append(str(e))
            continue
        jobs = []
        for j in g["jobs"]:
            j = dict(j)
            j["binary"] = bins[j["pkg"]]
            j.setdefault("params", {})
            if not j.get("name"):
                j["name"] = j["func"] + "".join(" %s=%s" % kv for kv in sorted(j["params"].items()))
            if g.get("name"):
                j["name"] = g["name"] + ": " + j["name"]
            if only and j["name"] != only:
                continue
            jobs.append(j)
        # heavy first, dealt out to the processes
        n = max(1, min(spec.get("shards", 8), len(jobs)))
        jobs.sort(key=lambda j: -j.get("weight", 1))
        load = [0] * n
        parts = [[] for _ in range(n)]
        for j in jobs:
            k = load.index(min(load))
            load[k] += j.get("weight", 1)
            parts[k].append(j)
        for k, p in enumerate(parts):
            if p:
                work.append((d, gi, k, o, fl, sorted({"./" + j["pkg"] for j in p}), p))

    def one(w):
        d, gi, k, o, fl, pats, jobs = w
        sd = os.path.join(d, "w%d" % k)
        os.makedirs(sd)
        rp = os.path.join(sd, "report.json")
        c = {"repo": vf.REPO, "overlay": o, "flags": fl, "patterns": pats, "jobs": jobs, "report": rp, "scratch": sd}
        cfgf = os.path.join(sd, "config.json")
        json.dump(c, open(cfgf, "w"))
        lim = max(left - (time.time() - t0), 10)
        try:
            with open(os.path.join(sd, "log"), "w") as h:
                rc = subprocess.run([ssax, "-config", cfgf], env=env(), cwd=sd, stdout=h, stderr=subprocess.STDOUT, timeout=lim).returncode
        except subprocess.TimeoutExpired:
            rc = "stopped after %ds" % lim
        log = open(os.path.join(sd, "log"), errors="replace").read()
        rep = None
        try:
            rep = json.load(open(rp))
        except Exception:
            pass
        if os.environ.get("VERIF_DEBUG"):
            print(log[-20000:])
        return rep, rc, log

    with cf.ThreadPoolExecutor(8) as ex:
        for rep, rc, log in ex.map(one, work):
            if rep:
                reps.append(rep)
            if rc != 0:
                problems.append("engine: rc %s: %s" % (rc, log[-1500:]))
    return vf.merge(reps), problems
