"""Self-test: planted breakages that have to be reported, rewritings that must not be.

    python3 dev/corpus.py [-k NAME] [-f FILE] [--same|--bug]

Each variant is a patched copy of /repo's sources in a scratch directory; only the
analyses run, nothing of the variant is executed."""

import importlib
import multiprocessing
import warnings
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
from bsa import registry, run  # noqa: E402
from dev import mech, variants  # noqa: E402

for _name, _edits in mech.variants(os.environ.get("REPO", "/repo")):
    variants.ALL[_name] = {"breaks": "", "edits": _edits}


def one(args):
    name, v, jobs = args
    out = []
    for job in jobs:
        n, j, r = single((name, v, job))
        out.append((j, r))
        if {x[0] for x in r["reports"]} & set(v["breaks"].split()):
            break
    return name, out


def single(args):
    name, v, job = args
    d = tempfile.mkdtemp(prefix="bsa-")
    try:
        for x in ("bmaptools", "contrib"):
            shutil.copytree(os.path.join(os.environ.get("REPO", "/repo"), x), os.path.join(d, x))
        for f, old, new in v["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, job, {"error": "edit does not apply: %r" % old[:60], "reports": [], "wall_s": 0}
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            try:
                compile(s, p, "exec")
            except SyntaxError as err:
                return name, job, {"error": "does not compile: %s" % err, "reports": [], "wall_s": 0}
        run.ROOT = d
        return name, job, run.work(job)
    finally:
        shutil.rmtree(d)


def judge(name, rs, verbose):
    v = variants.ALL[name]
    rules = {}
    errs = set()
    wall = 0
    for job, r in rs:
        wall = max(wall, r["wall_s"])
        if r["error"]:
            errs.add((job[0], str(job[1])[:80], r["error"][-300:]))
        for x in r["reports"]:
            rules.setdefault(x[0], set()).add((x[1][-1], x[2]))
    want = set(v["breaks"].split())
    ok = bool(want & set(rules)) if want else not rules and not errs
    miss = sorted(want - set(rules)) if want else []
    print("%-4s %-30s reports %s%s max %.0fs" % (
        "ok" if ok else "BAD", name, " ".join(sorted(rules)) or "nothing",
        " (not: %s)" % " ".join(miss) if miss else "", wall))
    if not ok or verbose:
        for k in sorted(rules):
            for l, m in sorted(rules[k], key=str)[:3]:
                print("        %s line %s: %s" % (k, l, m[:260]))
    if errs and (not ok or verbose or not want):
        for e in sorted(errs)[:4]:
            print("        ERROR %s %s: %s" % e)
    sys.stdout.flush()
    return not ok


def main():
    a = sys.argv[1:]
    sel = [x for x in a if not x.startswith("-")]
    todo = []
    for name, v in variants.ALL.items():
        if sel and not any(s in name for s in sel):
            continue
        if "--same" in a and v["breaks"] or "--bug" in a and not v["breaks"]:
            continue
        jobs = []
        files = {e[0] for e in v["edits"]}
        for job in registry.tasks_for(files, v["breaks"]):
            if os.environ.get("ONLY") and job[0] not in os.environ["ONLY"].split(","):
                continue
            if v["breaks"] and "--all" not in a and not any(job in registry.PROPERTIES[p]["tasks"] for p in v["breaks"].split() if p in registry.PROPERTIES):
                continue
            jobs.append(job)
        if v["breaks"] and "--all" not in a:
            jobs and todo.append((name, v, jobs))
        else:
            todo += [(name, v, [j]) for j in jobs]
    t = time.time()
    res = {}
    bad = 0
    left = {}
    for name, _, _ in todo:
        left[name] = left.get(name, 0) + 1
    jn = int(os.environ.get("JOBS", "7"))
    with multiprocessing.Pool(jn, maxtasksperchild=4) as pool:
        for name, rs in pool.imap_unordered(one, todo):
            res.setdefault(name, []).extend(rs)
            left[name] -= 1
            if not left[name]:
                bad += judge(name, res[name], "-v" in a)
    print("%d variants, %d bad, %.0f s" % (len(res), bad, time.time() - t))


if __name__ == "__main__":
    main()
