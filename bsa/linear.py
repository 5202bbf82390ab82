"""Entailment between linear inequalities over opaque monomials (the numeric part of the
abstract domain): Fourier-Motzkin elimination with a small, fixed budget."""

from . import terms as tm

_MAXC = 160


def _sym_consts(c):
    return c.get((), 0)


def _key(c):
    return frozenset(c.items())


def infeasible(cons):
    """True if the conjunction of 'p >= 0' for p in cons has no rational solution."""
    seen = set()
    work = []
    for c in cons:
        k = _key(c)
        if k in seen:
            continue
        seen.add(k)
        if not c or set(c) == {()}:
            if c.get((), 0) < 0:
                return True
            continue
        work.append(c)
    while True:
        occ = {}
        for c in work:
            for m, v in c.items():
                if m == ():
                    continue
                o = occ.setdefault(m, [0, 0])
                o[0 if v > 0 else 1] += 1
        if not occ:
            return False
        m = min(occ, key=lambda k: (occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1], tuple(x.id for x in k)))
        pos = [c for c in work if c.get(m, 0) > 0]
        neg = [c for c in work if c.get(m, 0) < 0]
        rest = [c for c in work if m not in c]
        seen = set(_key(c) for c in rest)
        for a in pos:
            for b in neg:
                r = tm.p_add(
                    {k: v * -b[m] for k, v in a.items()},
                    {k: v * a[m] for k, v in b.items()},
                )
                r.pop(m, None)
                if not r or set(r) == {()}:
                    if r.get((), 0) < 0:
                        return True
                    continue
                k = _key(r)
                if k not in seen:
                    seen.add(k)
                    rest.append(r)
                    if len(rest) > _MAXC:
                        return False
        work = rest


def monos(c):
    return [m for m in c if m != ()]


def related(cons, goal, limit=60):
    """The constraints connected with the goal through shared monomials."""
    want = set(monos(goal))
    out = []
    todo = list(cons)
    progress = True
    while progress and len(out) < limit:
        progress = False
        nxt = []
        for c in todo:
            ms = monos(c)
            if any(m in want for m in ms):
                out.append(c)
                want.update(ms)
                progress = True
            else:
                nxt.append(c)
        todo = nxt
    return out


def intrinsic(polys, positive, fact=None):
    """Facts that hold by construction of the terms in the polynomials: lengths are not
    negative, bounds of // and %.  'positive(t)' tells whether t >= 1 is known."""
    out = []
    seen = set()
    todo = []

    def scan(p):
        for m in p:
            for x in m:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)

    for p in polys:
        scan(p)
    while todo:
        x = todo.pop()
        if x.op != "app":
            continue
        name, args = x.args[0], x.args[1]
        me = {(x,): 1}
        if name in ("len", "abs"):
            out.append(me)
        elif name in ("//", "%") and len(args) == 2:
            a, b = tm.to_poly(args[0]), tm.to_poly(args[1])
            if (tm.is_k(args[1]) and tm.kv(args[1]) > 0) or positive(args[1]):
                if name == "%":
                    out.append(me)
                    c = tm.p_add(tm.p_add(b, me, -1), {(): -1})
                    out.append(c)
                    scan(c)
                else:
                    bq = tm.p_mul(b, me)
                    lo = tm.p_add(a, bq, -1)
                    hi = tm.p_add(tm.p_add(bq, b), a, -1)
                    hi = tm.p_add(hi, {(): -1})
                    out.append(lo)
                    out.append(hi)
                    scan(lo)
                    scan(hi)
        elif name in ("min", "max"):
            for y in args:
                c = tm.p_add(tm.to_poly(y), me, -1)
                if name == "max":
                    c = {k: -v for k, v in c.items()}
                out.append(c)
                scan(c)
    # n // d and (n - 1) // d are equal, unless d divides n
    quot = [x for x in seen if x.op == "app" and x.args[0] == "//" and len(x.args[1]) == 2]
    if len(quot) > 1:
        by = {(x.args[1][0], x.args[1][1]): x for x in quot}
        for (n, d), x in by.items():
            y = by.get((tm.sub(n, tm.ONE), d))
            if y is None or not ((tm.is_k(d) and tm.kv(d) > 0) or positive(d)):
                continue
            diff = tm.p_add({(x,): 1}, {(y,): 1}, -1)
            minus = {k: -v for k, v in diff.items()}
            r = fact(tm.eq0(tm.mod(n, d))) if fact else None
            if r is not True:
                out.append(diff)
            else:
                out.append(tm.p_add(diff, {(): -1}))
            if r is not False:
                out.append(tm.p_add(minus, {(): 1}))
            else:
                out.append(minus)
    return out
