"""What the analyses share."""

from collections import Counter

from . import terms as tm


def result(e, outs, counts):
    """The result of one analysis in the form bsa.run expects."""
    oc = Counter()
    for o in outs:
        k = o.outcome[0]
        if k == "raise":
            k += " " + tm.show(e.exc_class(o, o.outcome[1]))
        oc[k] += 1
    reports = []
    seen = set()
    for r in e.sink:
        if r[0] == "emit":
            continue
        if (r[0], r[1], r[2]) not in seen:
            seen.add((r[0], r[1], r[2]))
            reports.append(r)
    return {
        "reports": reports,
        "counts": dict(counts),
        "outcomes": dict(oc),
        "steps": e.steps,
        "loops": e.loops_solved,
        "functions": sorted("%s:%s" % (f[0], f[1]) for f in e.functions),
        "sites": len(e.sites),
        "samples": [],
    }
