#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]  -- decide one property for the tree in /repo.
   check.py --replay <file>                      -- re-run a reported counterexample.

Exit 0: held on everything explored (listed known findings aside).
Exit 1: a violation that was reproduced on the real code; a line
        VIOLATION property=<id> replay=<path>
is printed for it."""
import json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from registry import CHECKS

KNOWN = os.path.join(vf.VERIF, "known-findings.txt")


def known_keys(pid):
    """Lines: known: property=<id> key=<key> <text>   (fixed: lines suppress nothing)."""
    out = {}
    try:
        for l in open(KNOWN):
            f = l.split(None, 3)
            if len(f) == 4 and f[0] == "known:" and f[1] == "property=" + pid and f[2].startswith("key="):
                out[f[2][4:]] = f[3].strip()
    except FileNotFoundError:
        pass
    return out


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        print(json.dumps(r, indent=1))
        os.environ["VERIF_ONLY"] = r["violation"].get("case", "")
        sys.argv[1:] = [r["property"], "--tier", r["tier"]]
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    reps, problems, parts = [], [], []
    try:
        for run in spec["runs"]:
            if run.get("tier") == "thorough" and tier != "thorough":
                continue
            left = (780 if tier == "quick" else 6 * 3600) - (time.time() - t0)
            try:
                rep, prob = vf.do_run(run, tier, seed, max(left, 5), scratch)
            except Exception:
                rep, prob = None, [traceback.format_exc()[-2000:]]
            parts.append({"run": run["harness"], "built": rep is not None})
            if rep:
                reps.append(rep)
            problems += prob
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    m = vf.merge(reps)
    viol = [v for v in m.get("violations", []) if v.get("real")]
    unreal = [v for v in m.get("violations", []) if not v.get("real")]
    kn = known_keys(pid)
    new, old = [], []
    for v in viol:
        (old if v["key"] in kn else new).append(v)
    for v in unreal:
        m["reduced"].append("counterexample that did not reproduce on the real code: %s" % v["what"])
    reduced = m.get("reduced", []) + ["harness problem: " + p for p in problems]

    cov = {
        "explanation": "Symbolic execution of the real code decided by an SMT solver. " + spec["explain"],
        "states": m.get("paths", 0),
        "transitions": m.get("queries", 0),
        "traces_validated_against_impl": m.get("validated", 0),
        "samples": (m.get("samples") or ["none"])[:10],
        "obligations": m.get("obligations", 0),
        "discharged": m.get("discharged", 0),
        "reachability_witnesses": m.get("witnesses", 0),
        "functions_encoded": m.get("functions", []) or spec.get("functions", []),
        "bounds": (m.get("bounds") or []) + spec.get("bounds", []),
        "cases": m.get("cases", []),
        "solver": {"queries": m.get("queries", 0), "unsat": m.get("unsat", 0), "sat": m.get("sat", 0),
                   "unknown": m.get("unknown", 0), "seconds": round(m.get("solver_s", 0.0), 2)},
        "largest_query_monomials": m.get("max_monomials", 0),
        "reduced": reduced,
        "parts": parts,
        "notes": m.get("notes", []),
        "known_findings_seen": [v["key"] for v in old],
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vf.VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)

    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]))
    for r in reduced[:20]:
        print("REDUCED: " + r[:400])
    print("%s %s: %d cases, %d/%d obligations, %d queries (%d unsat, %d sat, %d unknown, %.1fs), %d paths, wall %.1fs"
          % (pid, tier, len(cov["cases"]), cov["discharged"], cov["obligations"], cov["transitions"], m.get("unsat", 0),
             m.get("sat", 0), m.get("unknown", 0), m.get("solver_s", 0), cov["states"], ev["wall_s"]))
    if new:
        d = os.path.join(vf.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:10]):
            f = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(f, "w") as h:
                json.dump({"property": pid, "tier": tier, "violation": v,
                           "how": "python3 /verif/check.py --replay " + f}, h, indent=1)
            print("  %s: %s [%s]" % (v["key"], v["what"][:300], v.get("replay", "")[:200]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(0)
