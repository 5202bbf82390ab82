"""Loops: widening to an inductive invariant per partition.

A loop head state is generalised over the values it has on entry and after each
iteration: positions that differ become loop symbols (phi), positions that grow in step
are tied by an affine relation, and the facts that hold on entry and are re-established by
every iteration are kept.  States that differ in shape (None or not, which object, which
monitor state) stay in separate partitions.
"""

from . import terms as tm
from .state import Obj
from .terms import K, is_k, kv, mk, ty

MAX_ROUNDS = 18


def slots(st):
    """The positions of a state that hold values: (path, value), in a fixed order."""
    out = []

    def frame(tag, fr):
        for k in sorted(fr.loc):
            out.append(((tag, "l", k), fr.loc[k]))
        for i, v in enumerate(fr.stack):
            out.append(((tag, "s", i), v))

    for i, fr in enumerate(st.frames):
        frame(i, fr)
    for ref in sorted(st.heap, key=lambda r: r.id):
        o = st.heap[ref]
        for k in sorted(o.attrs):
            out.append(((ref, "a", k), o.attrs[k]))
        if o.items is not None:
            for i, x in enumerate(o.items):
                if isinstance(x, tuple):
                    out.append(((ref, "k", i), x[0]))
                    out.append(((ref, "v", i), x[1]))
                else:
                    out.append(((ref, "i", i), x))
        if o.fr is not None:
            frame(ref, o.fr)
    for k in sorted(st.g):
        out.append((("g", k), st.g[k]))
    out.append((("x",), st.exc))
    return out


def rebuild(st, values):
    """Store values (in slots() order) into the state."""
    it = iter(values)

    def frame(fr):
        for k in sorted(fr.loc):
            fr.loc[k] = next(it)
        for i in range(len(fr.stack)):
            fr.stack[i] = next(it)

    for fr in st.frames:
        frame(fr)
    for ref in sorted(st.heap, key=lambda r: r.id):
        o = st.heap[ref]
        attrs = {k: next(it) for k in sorted(o.attrs)}
        items = o.items
        if items is not None:
            new = []
            for x in items:
                if isinstance(x, tuple):
                    new.append((next(it), next(it)))
                else:
                    new.append(next(it))
            items = tuple(new)
        fr = o.fr
        if fr is not None:
            fr = fr.clone()
            frame(fr)
        st.heap[ref] = Obj(o.kind, o.cls, attrs, items, fr)
    for k in sorted(st.g):
        st.g[k] = next(it)
    st.exc = next(it)
    st._lin = None


def shape(t, coarse):
    op = t.op
    if op == "k":
        k = t.args[0]
        if k in ("NoneType", "bool"):
            return t
        if k in ("str", "bytes") and not coarse:
            return t
        return "v"
    if op in ("ref", "fn", "cls", "mod", "ext", "bound", "meth", "partial", "null", "unset"):
        return t
    if op == "tup":
        return ("tup",) + tuple(shape(x, coarse) for x in t.args)
    if op == "exc":
        return ("exc", t.args[0])
    return "v"


def pkey(st, coarse=False):
    """The partition a loop head state belongs to."""
    fr = []
    for f in st.frames:
        fr.append((f.code.key, f.pc, f.ctx, f.ret if all(not isinstance(x, tm.T) for x in f.ret) else f.ret, tuple(sorted(f.loc)), len(f.stack)))
    hp = []
    for ref in sorted(st.heap, key=lambda r: r.id):
        o = st.heap[ref]
        g = None
        if o.fr is not None:
            g = (o.fr.code.key, o.fr.pc, tuple(sorted(o.fr.loc)), len(o.fr.stack), o.fr.ctx)
        exact = o.attrs.get("i") if o.kind == "iter" else None
        hp.append((ref, o.kind, o.cls, tuple(sorted(o.attrs)), None if o.items is None else len(o.items), g, exact))
    sl = tuple(shape(v, coarse) for _, v in slots(st))
    return (tuple(fr), tuple(hp), tuple(sorted(st.g)), frozenset(st.ctl.items()), sl, st.eng.mon.merge_key(st))


def summarise_lists(states, summ):
    """Containers whose length differs between iterations keep only a generic element."""
    lens = {}
    for s in states:
        at = frozenset((r, o.attrs["i"]) for r, o in s.heap.items() if o.kind == "iter" and "i" in o.attrs)
        for r, o in s.heap.items():
            if o.kind in ("list", "dict", "set", "deque") and r not in summ:
                lens.setdefault((r, at), set()).add(None if o.items is None else len(o.items))
    for (r, _), l in lens.items():
        if len(l) > 1:
            o = states[0].heap.get(r)
            if o is not None and o.items is not None and len(o.items) <= 6 and all(x is not None and x <= len(o.items) for x in l):
                continue  # only gets shorter: finitely many partitions
            summ.add(r)
    elems = {}
    for s in states:
        for r in summ:
            o = s.heap.get(r)
            if o is not None and o.kind != "dict":
                elems.setdefault(r, set()).update(o.items or () if o.items is not None else [o.attrs[k] for k in ("elem",) if k in o.attrs])
    for s in states:
        for r in summ:
            o = s.heap.get(r)
            if o is not None and o.items is not None:
                attrs = {}
                if o.kind != "dict":
                    attrs["n"] = tm.K(len(o.items))
                    vals = set(o.items)
                    if len(vals) == 1:
                        attrs["elem"] = next(iter(vals))
                    elif vals or elems.get(r):
                        # (an empty list has the same shape as the others: anything is true of its elements)
                        attrs["elem"] = tm.sym("elem-of", r)
                s.heap[r] = Obj(o.kind, o.cls, attrs, None)


def solve(eng, st):
    fr = st.frames[-1]
    head = fr.pc
    depth = len(st.frames)
    body = fr.code.loops[head]
    key = (fr.ctx, fr.code.key, head)
    st.gc()
    old = [t for t in st.gen if t.op == "phi" and t.args[0] == key]
    for t in old:
        st.rename(t)
    st.gc()
    memo = (st.core(), frozenset(st.facts.items()), depth, key)
    hit = eng.loop_memo.get(memo)
    if hit is not None:
        exits, sink = hit
        eng.sink.extend(sink)
        return [e.clone() for e in exits]
    eng.loops_solved += 1
    region = (depth, fr.ctx, head, body, fr.code)
    entry = st.clone()
    summ = set()
    coarse = False
    inv = {pkey(entry): entry}
    saved = eng.sink
    exits = []
    sink = []
    eng.regions.append(key)
    try:
        for rnd in range(MAX_ROUNDS + 1):
            if rnd == MAX_ROUNDS:
                raise tm_error(eng, st, "loop does not stabilise")
            eng.sink = []
            exits, arrivals = eng.explore([s.clone() for s in inv.values()], region)
            sink = eng.sink
            if not arrivals:
                if rnd == 0:
                    break
            contribs = [entry.clone()] + arrivals
            ren = {}
            for s in arrivals:
                for t in s.gen:
                    if t.op == "phi" and t.args[0] == key:
                        ren[t] = mk("phi", ("old",) + key, t.args[1], t.args[2])
            if ren:
                for s in arrivals:
                    m = {a: b for a, b in ren.items() if a in s.gen}
                    if m:
                        s.apply(m)
            for s in contribs:
                s.gc()
            summarise_lists(contribs, summ)
            if summ:
                for s in contribs:
                    s.gc()
            groups = {}
            for i, s in enumerate(contribs):
                groups.setdefault(pkey(s, coarse), []).append((s, i == 0))
            if len(groups) > 120:
                if coarse:
                    raise tm_error(eng, st, "too many loop partitions")
                coarse = True
                groups = {}
                for i, s in enumerate(contribs):
                    groups.setdefault(pkey(s, coarse), []).append((s, i == 0))
            new = {}
            for pk, members in groups.items():
                new[pk] = generalise(eng, key, members, inv.get(pk), rnd)
            if eng.verbose:
                debug(eng, key, rnd, new, inv)
            if same(new, inv):
                break
            inv = new
    finally:
        eng.sink = saved
        eng.regions.pop()
    eng.sink.extend(sink)
    eng.loop_memo[memo] = ([e.clone() for e in exits], list(sink))
    return exits


def debug(eng, key, rnd, new, inv):
    print("loop", key[1], key[2], "round", rnd, "partitions", len(new))
    for pk, s in new.items():
        o = inv.get(pk)
        if o is None:
            print("   new partition", {str(k): tm.show(v) for k, v in s.g.items()}, s.ctl)
            print("       facts", [("" if v else "not ") + tm.show(a) for a, v in s.facts.items()])
        elif o.core() != s.core() or o.facts != s.facts:
            for (p, v), (q, w) in zip(slots(s), slots(o)):
                if v is not w:
                    print("   ", p, tm.show(w), "->", tm.show(v))
            print("   facts +", [tm.show(a) for a in s.facts if a not in o.facts])
            print("   facts -", [tm.show(a) for a in o.facts if a not in s.facts])


def tm_error(eng, st, msg):
    from .engine import AnalysisError

    return AnalysisError("%s at %s" % (msg, st.where()))


def same(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        x, y = a[k], b[k]
        if x.core() != y.core() or x.facts != y.facts:
            return False
    return True


def is_old(t):
    return t.op == "phi" and t.args[0][0] == "old"


def has_old(t):
    return any(is_old(x) for x in tm.leaves(t))


def degree(p):
    return (max([len(m) for m in p] or [0]), len(p), sum(abs(c) for c in p.values() if isinstance(c, (int, float))))


def numeric(v):
    t = ty(v)
    return t in ("int", "bool", "float") or (t is None and v.op in ("sym", "phi", "prev", "app", "attr"))


def generalise(eng, key, members, old, rnd):
    states = [s for s, _ in members]
    base = states[0].clone()
    allslots = [slots(s) for s in states]
    paths = [p for p, _ in allslots[0]]
    n = len(states)
    vals = [[allslots[c][i][1] for c in range(n)] for i in range(len(paths))]
    oldvals = None
    if old is not None:
        os_ = slots(old)
        if [p for p, _ in os_] == paths:
            ren = {}
            for _, v in os_:
                for l in tm.leaves(v):
                    if l.op == "phi" and l.args[0] == key:
                        ren[l] = mk("phi", ("old",) + key, l.args[1], l.args[2])
            oldvals = [tm.substitute(v, ren) for _, v in os_]
    phis = {}  # phi -> vector of values
    byvec = {}
    nums = []  # (path, vector, old value)

    def plain(path, vec):
        k = tuple(vec)
        if k in byvec:
            return byvec[k]
        tys = set(ty(v) for v in vec)
        t = tys.pop() if len(tys) == 1 else None
        if tys and t is None and tys <= {"int", "bool"}:
            t = "int"
        p = mk("phi", key, path, t)
        byvec[k] = p
        phis[p] = vec
        return p

    def anti(path, vec, oldv):
        v0 = vec[0]
        if all(v is v0 for v in vec) and not has_old(v0) and (rnd < 3 or oldv is None or oldv is v0 or not eng.mon.projects):
            return v0
        if all(v.op == "tup" and len(v.args) == len(v0.args) for v in vec):
            return tm.tup(
                [
                    anti(
                        path + (j,),
                        [v.args[j] for v in vec],
                        oldv.args[j] if oldv is not None and oldv.op == "tup" and len(oldv.args) == len(v0.args) else None,
                    )
                    for j in range(len(v0.args))
                ]
            )
        if all(v.op == "app" and v.args[0] == v0.args[0] and len(v.args[1]) == len(v0.args[1]) for v in vec) and v0.args[0] not in (
            "//", "%", "min", "max", "len",
        ):
            return mk(
                "app",
                v0.args[0],
                tuple(
                    anti(
                        path + (j,),
                        [v.args[1][j] for v in vec],
                        oldv.args[1][j]
                        if oldv is not None and oldv.op == "app" and oldv.args[0] == v0.args[0] and len(oldv.args[1]) == len(v0.args[1])
                        else None,
                    )
                    for j in range(len(v0.args[1]))
                ),
                v0.args[2],
            )
        if all(numeric(v) for v in vec):
            k = ("num", path)
            nums.append((path, vec, oldv))
            return k
        return plain(path, vec)

    gen = [
        anti(paths[i], vals[i], oldvals[i] if oldvals else None) for i in range(len(paths))
    ]
    # numeric positions: tie those that move together
    solved = {}
    bases = []  # (phi, vec, deltas)

    def deltas(vec, oldv):
        if oldv is not None and n >= 1:
            d = [tm.p_add(tm.to_poly(v), tm.to_poly(oldv), -1) for v in vec]
        else:
            d = [tm.p_add(tm.to_poly(v), tm.to_poly(vec[0]), -1) for v in vec]
        return d

    items = []
    for path, vec, oldv in nums:
        d = deltas(vec, oldv)
        nz = [x for x in d if x]
        items.append((min([degree(x) for x in nz] or [(99, 0, 0)]), str(path), path, vec, d))
    items.sort(key=lambda x: (x[0], x[1]))
    for _, _, path, vec, d in items:
        found = None
        k = tuple(vec)
        if k in byvec:
            solved[path] = byvec[k]
            continue
        if rnd < 12:
            for phi, bvec, bd in bases:
                for x, y in zip(d, bd):
                    if not x or not y:
                        continue
                    q = tm.p_div(x, y)
                    if q is None or any(has_old(l) for m in q for l in m):
                        continue
                    off = None
                    ok = True
                    for c in range(n):
                        o = tm.p_add(
                            tm.to_poly(vec[c]), tm.p_mul(q, tm.to_poly(bvec[c])), -1
                        )
                        if off is None:
                            off = o
                        elif o != off:
                            ok = False
                            break
                    if ok and not has_old(tm.from_poly(off)):
                        found = tm.from_poly(tm.p_add(off, tm.p_mul(q, {(phi,): 1})))
                        break
                if found is not None:
                    break
        if found is None:
            found = plain(path, vec)
            if ty(found) is None and all(v.op in ("k", "poly") or ty(v) == "int" for v in vec):
                found = plain(path, vec)
            bases.append((found, vec, d))
        solved[path] = found

    def deep(g):
        if isinstance(g, tuple) and len(g) == 2 and g[0] == "num" and g[1] in solved:
            return solved[g[1]]
        if isinstance(g, tm.T):
            if g.op in ("tup",):
                return tm.tup([deep(x) for x in g.args])
            if g.op == "app" and g.args[0] not in ("//", "%", "min", "max"):
                return mk("app", g.args[0], tuple(deep(x) for x in g.args[1]), g.args[2])
        return g

    gen = [deep(g) for g in gen]
    # state skeleton
    rebuild(base, gen)
    base.facts = {}
    base._lin = None
    base.gen = base.gen | frozenset(phis)
    meta = {}
    for l, v in states[0].meta.items():
        if all(s.meta.get(l) is v for s in states[1:]) and not has_old(v):
            meta[l] = v
    for p, vec in phis.items():
        ms = set()
        for s, v in zip(states, vec):
            m = s.meta.get(v)
            ms.add(m)
        if len(ms) == 1:
            m = ms.pop()
            if m is not None and not has_old(m):
                meta[p] = m
    base.meta = meta
    # facts
    cands = {}
    if old is not None:
        for a, v in old.facts.items():
            cands[(a, v)] = True
    if rnd < 8:
        for c, s in enumerate(states):
            inv = {}
            for p, vec in phis.items():
                v = vec[c]
                if is_old(v):
                    inv[v] = p
                    continue
                if v.op == "poly":
                    pol = tm.to_poly(v)
                    for m, k in pol.items():
                        if len(m) == 1 and is_old(m[0]) and abs(k) == 1 and m[0] not in inv:
                            rest = dict(pol)
                            rest.pop(m)
                            if any(has_old(x) for mm in rest for x in mm):
                                continue
                            # p = k*m + rest  =>  m = k*(p - rest)
                            r = tm.p_add({(p,): 1}, rest, -1)
                            inv[m[0]] = tm.from_poly({mm: kk * k for mm, kk in r.items()})
            symmap = {}
            for p, vec in phis.items():
                v = vec[c]
                if v.op in ("sym", "prev", "app", "attr") or (v.op == "phi" and not is_old(v)):
                    symmap[v] = p
            for a, v in s.facts.items():
                forms = [a]
                if inv:
                    forms.append(tm.substitute(a, inv))
                if symmap:
                    forms += [tm.substitute(f, symmap) for f in list(forms)]
                for f in forms:
                    if f.op == "not":
                        f, v2 = f.args[0], not v
                    else:
                        v2 = v
                    if f.op == "k" or has_old(f):
                        continue
                    cands[(f, v2)] = True
            for p, vec in phis.items() if rnd <= 3 and base.eng.mon.projects else ():
                # what is known where it is a constant may be known relative to it
                if not (is_k(vec[c]) and isinstance(kv(vec[c]), int) and not isinstance(kv(vec[c]), bool)):
                    continue
                d = tm.sub(p, vec[c])
                for a, v in s.facts.items():
                    if a.op == "lt0" and not has_old(a) and a.args[0].op == "poly" and any(s2.facts.get(a) is not v for s2 in states):
                        for f in (tm.lt(tm.add(a.args[0], d), tm.ZERO), tm.lt(tm.sub(a.args[0], d), tm.ZERO)):
                            if f.op == "lt0":
                                cands[(f, v)] = True
            for p, vec in phis.items():
                v = vec[c]
                if numeric(v) and not has_old(v):
                    f = tm.lt(p, v)
                    if f.op == "lt0":
                        cands[(f, False)] = True
                    f = tm.lt(v, p)
                    if f.op == "lt0":
                        cands[(f, False)] = True
        for p, vec in phis.items():
            if all(numeric(v) for v in vec):
                cands[(mk("lt0", p), False)] = True
        for f, v in base.eng.mon.candidates(base, phis):
            if f.op == "not":
                f, v = f.args[0], not v
            if f.op != "k" and not has_old(f):
                cands[(f, v)] = True
    elif old is not None:
        cands = {(a, v): True for a, v in old.facts.items()}
    subst = [{p: vec[c] for p, vec in phis.items()} for c in range(n)]
    kept = {}
    for (a, v) in cands:
        ok = True
        for c, s in enumerate(states):
            m = subst[c]
            f = tm.substitute(a, m) if any(l in m for l in tm.leaves(a)) else a
            if s.decide(f) is not v:
                ok = False
                break
        if ok:
            kept[a] = v
    base.facts = kept
    base._lin = None
    base.trace = states[0].trace
    base.gc()
    # drop facts implied by the others (keeps the invariant small and canonical)
    return prune(base)


def prune(st):
    for a in sorted(st.facts, key=lambda x: -x.id):
        if a.op not in ("lt0",):
            continue
        v = st.facts.pop(a)
        st._lin = None
        st.linear_only = True  # what follows with products only is kept, it may be needed as it is
        if st.decide(a) is not v:
            st.facts[a] = v
        st.linear_only = False
        st._lin = None
    return st
