"""Run the analyses a property needs, report violations, write the evidence.

    check C01 [--thorough]     exit 0: the property holds on everything analysed
                               exit 1: VIOLATION property=C01 replay=<path>
                               exit 2: the analysis cannot answer (an anchor vanished, ...)
"""

import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

from .engine import AnalysisError
from .registry import PROPERTIES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("BSA_ROOT", "/repo")
LIMIT = 780


def work(job):
    """One task in a process of its own."""
    module, kw = job
    t = time.time()
    res = {"task": module, "config": kw, "reports": [], "counts": {}, "error": None}
    try:
        sys.setrecursionlimit(20000)
        m = importlib.import_module("bsa." + module)
        out = m.task(ROOT, **kw)
        res.update(out)
    except AnalysisError as err:
        res["error"] = "analysis cannot answer: %s" % err
    except SyntaxError as err:
        res["error"] = "source does not compile: %s" % err
    except MemoryError:
        res["error"] = "out of memory"
    except Exception:
        res["error"] = "internal error: " + traceback.format_exc(limit=-6)
    res["wall_s"] = round(time.time() - t, 2)
    return res


def known(pid):
    """The known findings of a property: (construct, message) patterns."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) at=(\S+) message=(.*)$", line.rstrip("\n"))
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    spec = PROPERTIES[pid]
    t0 = time.time()
    jobs = list(spec["tasks"])
    if tier == "thorough":
        jobs += spec.get("thorough", [])
    results = []
    with multiprocessing.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        pend = [(j, pool.apply_async(work, (j,))) for j in jobs]
        for j, p in pend:
            left = LIMIT - (time.time() - t0)
            try:
                results.append(p.get(max(left, 1)))
            except multiprocessing.TimeoutError:
                results.append({"task": j[0], "config": j[1], "reports": [], "counts": {}, "error": "time ran out"})
        pool.terminate()

    violations = []
    seen = set()
    for r in results:
        for rule, site, msg, trace, stack in r["reports"]:
            if rule != pid:
                continue
            k = (site[1] if len(site) > 1 else site[0], msg)
            if k in seen:
                continue
            seen.add(k)
            violations.append((r, site, msg, trace, stack))
    errors = ["%s %s: %s" % (r["task"], r["config"], r["error"]) for r in results if r["error"]]
    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    floor = []
    for k, least in spec.get("floor", {}).items():
        if counts.get(k, 0) < least:
            floor.append("only %d instances of '%s' were met, at least %d were expected" % (counts.get(k, 0), k, least))
    kn = known(pid)
    listed = []
    fresh = []
    for v in violations:
        site, msg = v[1], v[2]
        fn = site[1] if len(site) > 1 else site[0]
        if any(a == fn and b == msg for a, b in kn):
            listed.append(v)
        else:
            fresh.append(v)

    functions = sorted({f for r in results for f in r.get("functions", ())})
    coverage = {
        "explanation": spec["rule"],
        "analyses": [
            {
                "analysis": r["task"],
                "configuration": {k: str(v) for k, v in r["config"].items()},
                "instructions_interpreted": r.get("steps", 0),
                "loop_invariants": r.get("loops", 0),
                "outcomes": r.get("outcomes", {}),
                "wall_s": r.get("wall_s", 0),
                "error": r["error"],
            }
            for r in results
        ],
        "functions_analysed": functions,
        "call_sites": sum(r.get("sites", 0) for r in results),
        "obligations_met": {k: v for k, v in sorted(counts.items())},
        "samples": ["%s: %s" % (r["config"], s) for r in results for s in r.get("samples", ())[:3]][:12],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": coverage,
        "wall_s": round(time.time() - t0, 2),
        "violations": [
            {"file": v[1][0], "function": v[1][1] if len(v[1]) > 1 else "", "line": v[1][2] if len(v[1]) > 2 else 0, "message": v[2]}
            for v in fresh
        ],
        "assumptions": spec.get("assumptions", []),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, v[2]))
    if fresh:
        path = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(path, "w") as f:
            for r, site, msg, trace, stack in fresh:
                f.write("%s:%s in %s: %s\n" % (site[0], site[2] if len(site) > 2 else "?", site[1] if len(site) > 1 else "?", msg))
                f.write("  analysis %s %s\n" % (r["task"], r["config"]))
                for s in stack:
                    f.write("  called at %s\n" % s)
                for s in trace:
                    f.write("    %s\n" % s[:400])
                f.write("\n")
        for r, site, msg, trace, stack in fresh[:8]:
            print("%s:%s in %s: %s" % (site[0], site[2] if len(site) > 2 else "?", site[1] if len(site) > 1 else "?", msg[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors or floor:
        for x in errors + floor:
            print("ANALYSIS-ERROR property=%s %s" % (pid, x))
        return 2
    print("property %s holds on everything analysed: %d functions, %d call sites, %.1f s" % (
        pid, len(functions), coverage["call_sites"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
