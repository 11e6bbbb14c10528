#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property for /repo's current
sources; print VIOLATION / KNOWN-FINDING lines, write evidence/<property>.json.
Exit 0 held, 1 violated, 2 the analysis could not decide."""
import importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(20000)
from ir import AnalysisError, load, REPO
from result import Result

def known(pid):
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s key=" % pid):
                k, _, what = l.split("key=", 1)[1].partition(" ")
                out[k] = what
    return out

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    r = Result(pid, tier)
    err = None
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(r)
        r.finish()
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kn = known(pid)
    viol = [v for v in r.violations if v["key"] not in kn]
    hits = [v for v in r.violations if v["key"] in kn]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": dict(r.coverage, explanation=r.explanation or pid, rules=r.rules),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": r.assumptions}
    if hits: ev["known_findings"] = [v["key"] for v in hits]
    if err: ev["error"] = err[-2000:]
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in hits:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[v["key"]], v["key"]))
    if viol:
        d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("%s: %s\n  rule: %s\n  %s\n" % (v["where"], v["msg"], v["rule"], r.rules.get(v["rule"], "")))
                for p in v["path"]: f.write("    %s\n" % p)
                f.write("  key: %s\n\n" % v["key"])
        for v in viol[:20]:
            print("%s: %s [%s]" % (v["where"], v["msg"], v["rule"]))
            for p in v["path"][-8:]: print("    " + p)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ANALYSIS-ERROR property=%s\n%s" % (pid, err), file=sys.stderr)
        return 2
    print("OK property=%s %s" % (pid, json.dumps(r.coverage, sort_keys=True)))
    return 0

if __name__ == "__main__":
    sys.exit(main())
