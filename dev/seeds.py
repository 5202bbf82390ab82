"""The planted bugs: writes seeded/<id>/ and tries them out in scratch copies.

    python3 dev/seeds.py write                 (re)write every seeded/<id>/
    python3 dev/seeds.py demo [NAME...]        demo on the unchanged tree and with the patch
    python3 dev/seeds.py tests [NAME...]       stable tests with the patch
    python3 dev/seeds.py check [NAME...]       the property's check with the patch
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
SEEDS = {}
DEMO_SH = '''#!/bin/sh
# exit 0: the property holds; exit 1: it is broken
PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
'''


def seed(name, prop, edits, needs, breaks, demo, pre=None):
    SEEDS[name] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre)


def lib(name):
    with open(os.path.join(V, "dev", "demolib", name)) as f:
        return f.read()


def patched(s, root):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f)
        t = open(p).read()
        assert t.count(old) == 1, (t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def write():
    base = os.path.join(V, "seeded")
    for n in os.listdir(base):
        if n not in SEEDS:
            shutil.rmtree(os.path.join(base, n))
    for n, s in SEEDS.items():
        d = os.path.join(base, n)
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            for side in "ab":
                for f in {e[0] for e in s["edits"]}:
                    os.makedirs(os.path.dirname(os.path.join(tmp, side, f)), exist_ok=True)
                    shutil.copy(os.path.join(os.environ.get("REPO", "/repo"), f), os.path.join(tmp, side, f))
            patched(s, os.path.join(tmp, "b"))
            diff = ""
            for f in sorted({e[0] for e in s["edits"]}):
                r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f, "--label", "a/" + f, "--label", "b/" + f], cwd=tmp, capture_output=True, text=True)
                diff += r.stdout
        finally:
            shutil.rmtree(tmp)
        put(d, "patch.diff", diff)
        put(d, "demo.sh", DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        put(d, "demo.py", PRE + "".join(lib(x) for x in (s["pre"] or "").split()) + s["demo"].lstrip("\n"))
        put(d, "meta.json", json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
    print(len(SEEDS), "seeds")


def put(d, n, text):
    with open(os.path.join(d, n), "w") as f:
        f.write(text)


def copy(n, apply=True):
    d = tempfile.mkdtemp(prefix="seed-%s-" % n)
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", os.environ.get("REPO", "/repo"), r], check=True)
    if apply:
        subprocess.run(["git", "apply", os.path.join(V, "seeded", n, "patch.diff")], cwd=r, check=True)
    return d, r


def demo(n):
    out = []
    for apply in (False, True):
        d, r = copy(n, apply)
        try:
            x = subprocess.run(["sh", os.path.join(V, "seeded", n, "demo.sh")], cwd=r, capture_output=True, text=True)
            out.append((x.returncode, (x.stdout + x.stderr)[-300:].strip().replace("\n", " | ")))
        finally:
            shutil.rmtree(d)
    ok = out[0][0] == 0 and out[1][0] == 1
    return "%s %s: %s / %s" % ("ok " if ok else "BAD", n, out[0], out[1])


def tests(n):
    d, r = copy(n)
    try:
        sh = open("/opt/vp/test.sh").read().replace(os.environ.get("REPO", "/repo"), r)
        put(d, "test.sh", sh)
        subprocess.run(["bash", os.path.join(d, "test.sh"), os.path.join(d, "out.json")], capture_output=True)
        got = json.load(open(os.path.join(d, "out.json")))
        base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(got)
        names = base.get("stable") or base.get("passed") or base
        bad = [x for x in names if x not in (got.get("passed") or [])]
        return "%s %s: %s" % ("ok " if not bad else "BAD", n, bad[:3] or txt[:60])
    except Exception as err:
        return "BAD %s: %r" % (n, err)
    finally:
        shutil.rmtree(d)


def check(n):
    d, r = copy(n)
    try:
        env = dict(os.environ, BSA_ROOT=r)
        p = SEEDS[n]["prop"]
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for x in ("check", "bsa", "known_findings.txt"):
            subprocess.run(["cp", "-a", os.path.join(V, x), v], check=True)
        x = subprocess.run(["./check", p], cwd=v, env=env, capture_output=True, text=True)
        return "%s %s: exit %d %s" % ("ok " if x.returncode == 1 and "VIOLATION property=%s" % p in x.stdout else "MISS", n, x.returncode, (x.stdout + x.stderr)[-260:].strip().replace("\n", " | "))
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    from dev import seeddefs  # noqa: F401
    SEEDS = seeddefs.SEEDS
    cmd = sys.argv[1]
    names = [n for n in SEEDS if not sys.argv[2:] or any(x in n for x in sys.argv[2:])]
    if cmd == "write":
        write()
    else:
        with ThreadPoolExecutor({"demo": 6, "tests": 4, "check": 2}[cmd]) as ex:
            for line in ex.map({"demo": demo, "tests": tests, "check": check}[cmd], names):
                print(line, flush=True)
