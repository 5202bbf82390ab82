"""Abstract states: call stack, heap, path facts and monitor (ghost) data."""

from . import terms as tm
from . import linear
from .terms import T, K, is_k, kv


MINUS_ONE = tm.K(-1)


class Obj:
    """An abstract heap object (immutable; replaced on every write)."""

    __slots__ = ("kind", "cls", "attrs", "items", "fr")

    def __init__(self, kind, cls=None, attrs=None, items=None, fr=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs or {}
        self.items = items
        self.fr = fr

    def key(self):
        return (
            self.kind,
            self.cls,
            frozenset(self.attrs.items()),
            self.items,
            self.fr.key() if self.fr else None,
        )

    def with_attr(self, name, v):
        a = dict(self.attrs)
        if v is None:
            a.pop(name, None)
        else:
            a[name] = v
        return Obj(self.kind, self.cls, a, self.items, self.fr)

    def with_items(self, items):
        return Obj(self.kind, self.cls, self.attrs, items, self.fr)

    def with_fr(self, fr):
        return Obj(self.kind, self.cls, self.attrs, self.items, fr)

    def terms(self):
        if self.cls is not None:
            yield self.cls
        yield from self.attrs.values()
        if self.items is not None:
            for x in self.items:
                if isinstance(x, tuple):
                    yield from x
                else:
                    yield x
        if self.fr:
            yield from self.fr.terms()

    def map(self, f):
        attrs = {k: f(v) for k, v in self.attrs.items()}
        items = self.items
        if items is not None:
            items = tuple(
                tuple(f(y) for y in x) if isinstance(x, tuple) else f(x) for x in items
            )
        fr = self.fr.map(f) if self.fr else None
        return Obj(self.kind, self.cls, attrs, items, fr)


class Frame:
    __slots__ = (
        "code", "pc", "stack", "loc", "cells", "glob", "ctx", "ret", "kw", "ns", "fn", "args"
    )

    def __init__(self, code, glob, ctx, ret, fn=None):
        self.code = code
        self.pc = 0
        self.stack = []
        self.loc = {}
        self.cells = {}
        self.glob = glob
        self.ctx = ctx
        self.ret = ret
        self.kw = ()
        self.ns = None
        self.fn = fn
        self.args = ()

    def clone(self):
        f = Frame.__new__(Frame)
        f.code = self.code
        f.pc = self.pc
        f.stack = list(self.stack)
        f.loc = dict(self.loc)
        f.cells = self.cells
        f.glob = self.glob
        f.ctx = self.ctx
        f.ret = self.ret
        f.kw = self.kw
        f.ns = self.ns
        f.fn = self.fn
        f.args = self.args
        return f

    def key(self):
        return (
            self.code.key,
            self.pc,
            tuple(self.stack),
            frozenset(self.loc.items()),
            self.ctx,
            self.ret,
            frozenset(self.cells.items()),
            self.ns,
        )

    def terms(self):
        yield from self.stack
        yield from self.loc.values()
        yield from self.cells.values()
        if self.ns is not None:
            yield self.ns
        for x in self.ret:
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        yield y
        yield from self.args

    def map(self, f):
        g = self.clone()
        g.stack = [f(x) for x in self.stack]
        g.loc = {k: f(v) for k, v in self.loc.items()}
        g.cells = {k: f(v) for k, v in self.cells.items()}
        if self.ns is not None:
            g.ns = f(self.ns)

        def m(x):
            if isinstance(x, T):
                return f(x)
            if isinstance(x, tuple):
                return tuple(m(y) for y in x)
            return x

        g.ret = tuple(m(x) for x in self.ret)
        g.args = tuple(f(x) for x in self.args)
        return g


class State:
    __slots__ = (
        "frames", "heap", "facts", "g", "ctl", "gen", "meta", "exc", "trace", "outcome",
        "_lin", "eng", "linear_only",
    )

    def __init__(self, eng):
        self.eng = eng
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.g = {}
        self.ctl = {}
        self.gen = frozenset()
        self.meta = {}
        self.exc = tm.NONE
        self.trace = None
        self.outcome = None
        self._lin = None
        self.linear_only = False

    def clone(self):
        s = State.__new__(State)
        s.linear_only = False
        s.eng = self.eng
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.g = dict(self.g)
        s.ctl = dict(self.ctl)
        s.gen = self.gen
        s.meta = dict(self.meta)
        s.exc = self.exc
        s.trace = self.trace
        s.outcome = self.outcome
        s._lin = self._lin
        return s

    # -------------------------------------------------------------- heap

    def obj(self, ref):
        o = self.heap.get(ref)
        if o is None:
            o = self.eng.base.get(ref)
        return o

    def attr(self, ref, name):
        o = self.obj(ref)
        return o.attrs.get(name) if o else None

    def setattr(self, ref, name, v):
        o = self.obj(ref)
        if o is None:
            o = Obj("ext")
        self.heap[ref] = o.with_attr(name, v)

    # -------------------------------------------------------------- symbols

    def fresh(self, t):
        """'t' names a value produced now; an older value of that name is renamed."""
        if t in self.gen:
            self.rename(t)
        self.gen = self.gen | {t}
        return t

    def rename(self, t):
        if not self.uses(t):
            return
        p = tm.mk("prev", t)
        if p in self.gen:
            self.rename(p)
        self.apply({t: p})
        self.gen = self.gen | {p}

    def uses(self, t):
        for x in self.all_terms():
            if x is t or t in tm.leaves(x):
                return True
        return t in self.heap

    def all_terms(self):
        for f in self.frames:
            yield from f.terms()
        for o in self.heap.values():
            yield from o.terms()
        yield from self.g.values()
        yield from self.facts
        yield from self.meta
        yield from self.meta.values()
        yield self.exc

    def apply(self, mapping):
        """Substitute leaves everywhere."""
        memo = {}
        keys = set(mapping)

        def f(t):
            if t in mapping:
                return mapping[t]
            if not (tm.leaves(t) & keys):
                return t
            return tm.substitute(t, mapping, memo)

        self.frames = [fr.map(f) for fr in self.frames]
        self.heap = {f(k): o.map(f) for k, o in self.heap.items()}
        self.g = {k: f(v) for k, v in self.g.items()}
        facts = {}
        for a, v in self.facts.items():
            a2 = f(a)
            if a2.op == "not":
                a2, v = a2.args[0], not v
            if not is_k(a2):
                facts[a2] = v
        self.facts = facts
        self.meta = {f(k): f(v) for k, v in self.meta.items()}
        self.exc = f(self.exc)
        self.gen = frozenset(f(x) for x in self.gen)
        self._lin = None

    # -------------------------------------------------------------- facts

    def decide(self, atom):
        """True, False or None (unknown)."""
        if atom is tm.TRUE:
            return True
        if atom is tm.FALSE:
            return False
        if atom.op == "not":
            r = self.decide(atom.args[0])
            return None if r is None else not r
        r = self.facts.get(atom)
        if r is not None:
            return r
        if atom.op in ("lt0", "eq0"):
            return self.linear(atom)
        if atom.op == "is" and is_k(atom.args[1]) and kv(atom.args[1]) is None:
            x = atom.args[0]
            t = tm.ty(x)
            if t is not None and t != "none":
                return False
            if self.facts.get(tm.mk("truth", x)):
                return False
        if atom.op == "truth":
            if self.facts.get(tm.mk("is", atom.args[0], tm.NONE)):
                return False
        if atom.op == "eq":
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if is_k(y):
                    if kv(y) is None:
                        return self.decide(tm.mk("is", x, tm.NONE))
                    for f, v in self.facts.items():
                        if v and f.op == "eq" and x in f.args:
                            z = f.args[0] if f.args[1] is x else f.args[1]
                            if is_k(z) and kv(z) != kv(y):
                                return False
        return None

    def constraints(self):
        if self._lin is None:
            out = []
            for a, v in self.facts.items():
                if a.op == "lt0":
                    p = tm.to_poly(a.args[0])
                    if v:
                        out.append(tm.p_add({k: -c for k, c in p.items()}, {(): -1}))
                    else:
                        out.append(p)
                elif a.op == "eq0" and v:
                    p = tm.to_poly(a.args[0])
                    out.append(p)
                    out.append({k: -c for k, c in p.items()})
            for p in list(out):
                q = self.unfloor(p)
                if q is not None:
                    out.append(q)
            have = {frozenset(p.items()) for p in out}
            for a, v in self.facts.items():
                if a.op == "eq0" and not v:
                    p = tm.to_poly(a.args[0])
                    minus = {k: -c for k, c in p.items()}
                    for q in (p, minus):
                        if frozenset(q.items()) in have:
                            out.append(tm.p_add(q, {(): -1}))
            self._lin = [out, {}]
        return self._lin

    def positive(self, t):
        """Is t >= 1 known (quick check)?"""
        if is_k(t):
            return kv(t) >= 1
        if self.facts.get(tm.mk("lt0", tm.sub(t, tm.ONE))) is False:
            return True
        if self.facts.get(tm.mk("lt0", tm.neg(t))) is True:
            return True
        if self.nonneg(t) and self.facts.get(tm.eq0(t)) is False:
            return True
        if t.op == "app" and t.args[0] == "max":
            return any(self.positive(x) for x in t.args[1])
        return False

    def nonneg(self, t):
        if is_k(t):
            return kv(t) >= 0
        if t.op == "poly":
            return self.nonneg_poly(tm.to_poly(t))
        if t.op == "app" and t.args[0] in ("len", "abs", ".fileno", ".st_size"):
            return True
        if t.op == "app" and t.args[0] == "//":
            return self.nonneg(t.args[1][0]) and self.positive(t.args[1][1])
        if t.op == "app" and t.args[0] == "%":
            return self.positive(t.args[1][1])
        if t.op == "app" and t.args[0] == "max":
            return any(self.nonneg(x) for x in t.args[1])
        return (
            self.facts.get(tm.mk("lt0", t)) is False
            or self.facts.get(tm.mk("lt0", tm.sub(t, tm.ONE))) is False
        )

    def nonneg_poly(self, p):
        low = 0
        for m, c in p.items():
            if m == ():
                low += c
                continue
            if c < 0:
                return False
            if not all(self.nonneg(x) for x in m):
                return False
            if all(self.positive(x) for x in m):
                low += c
        return low >= 0

    def entails(self, p):
        """Do the facts imply p >= 0 (p a polynomial)?"""
        lin = self.constraints()
        k = frozenset(p.items())
        r = lin[1].get(k)
        if r is None:
            lin[1][k] = False  # in progress
            r = self._entails(p, lin[0])
            lin[1][k] = r
        return r

    def _entails(self, p, cons):
        if self.nonneg_poly(p):
            return True
        q = None if self.linear_only else self.factor(p)
        if q is not None and self.entails(q):
            return True
        q = self.unfloor(p)
        if q is not None and self.entails(q):
            return True
        q = self.eliminate(p)
        if q is not None:
            if self.nonneg_poly(q):
                return True
            q2 = None if self.linear_only else self.factor(q)
            if q2 is not None and self.entails(q2):
                return True
        goal = tm.p_add({k: -c for k, c in p.items()}, {(): -1})
        intr = linear.intrinsic([p] + cons, self.positive, self.facts.get)
        base = list(cons) + intr
        rel = linear.related(base, goal)
        extra = []
        seen = set()
        for c in rel + [goal]:
            for m in c:
                if m == () or m in seen:
                    continue
                seen.add(m)
                if all(self.nonneg(x) for x in m):
                    extra.append({m: 1})
                    if all(self.positive(x) for x in m):
                        extra.append({m: 1, (): -1})
        if linear.infeasible(rel + extra + [goal]):
            return True
        for q in self.refloor(p, cons):
            if self.entails(q):
                return True
        for q in self.bridge(p, cons):
            if self.entails(q):
                return True
        if self.linear_only:
            return False
        # facts multiplied with a value that is known to be positive
        for b in sorted({x for m in p if len(m) == 2 for x in m if self.positive(x)}, key=lambda x: x.id)[:1]:
            inside = {y for m in p if b in m for y in m if y is not b}
            more = []
            for c in cons:
                if all(len(m) < 2 for m in c) and any(m and m[0] in inside for m in c):
                    more.append(tm.p_mul({(b,): 1}, c))
            if more and linear.infeasible(linear.related(base + more, goal) + extra + [goal]):
                return True
        # the goal multiplied likewise
        if not any(len(m) > 1 for m in p):
            mine = {m[0] for m in p if m}
            bs = {x for c in cons for m in c if len(m) == 2 and mine & set(m) for x in m if x not in mine and self.positive(x)}
            for b in sorted(bs, key=lambda x: x.id)[:1]:
                g = tm.p_mul({(b,): 1}, goal)
                if linear.infeasible(linear.related(base, g) + [g]):
                    return True
        return False

    def bridge(self, p, cons):
        """Goals with a quotient in them from which p >= 0 follows with one fact."""
        if any(len(m) > 1 or m and m[0].op == "app" for m in p):
            return
        for c in cons:
            if not any(len(m) == 1 and m[0].op == "app" and m[0].args[0] == "//" for m in c) or any(len(m) > 1 for m in c):
                continue
            if any(m and p.get(m) == v for m, v in c.items()):
                q = tm.p_add(p, c, -1)
                r = self.unfloor(q)
                if r is not None:
                    yield r

    def refloor(self, p, cons):
        """The converse of unfloor, with quotients that occur in the facts."""
        if not any(len(m) > 1 for m in p):
            return
        seen = set()
        for c in cons:
            for m in c:
                if len(m) != 1 or m[0] in seen:
                    continue
                x = m[0]
                seen.add(x)
                if x.op != "app" or x.args[0] != "//" or is_k(x.args[1][1]) or not self.positive(x.args[1][1]):
                    continue
                a, b = tm.to_poly(x.args[1][0]), tm.to_poly(x.args[1][1])
                r = tm.p_add(p, a, -1)
                q = tm.p_div(r, b) if r else {}
                if q is not None:
                    yield tm.p_add(q, {(x,): 1})
                r = tm.p_add(tm.p_add(tm.p_add(p, a), {(): 1}), b, -1)
                q = tm.p_div(r, b) if r else {}
                if q is not None:
                    yield tm.p_add(q, {(x,): -1})

    def unfloor(self, p):
        """a // b + r >= 0 is a + b * r >= 0, and r - a // b >= 0 is b * r + b - a - 1 >= 0 (integers, b
        positive and not constant): the latter, or None."""
        for m, c in p.items():
            if len(m) != 1 or c not in (1, -1):
                continue
            x = m[0]
            if x.op != "app" or x.args[0] != "//" or is_k(x.args[1][1]) or not self.positive(x.args[1][1]):
                continue
            a, b = tm.to_poly(x.args[1][0]), tm.to_poly(x.args[1][1])
            r = {k: v for k, v in p.items() if k != m}
            if any(x in k for k in r):
                continue
            q = tm.p_mul(b, r)
            if c == 1:
                return tm.p_add(q, a)
            return tm.p_add(tm.p_add(tm.p_add(q, b), a, -1), {(): -1})
        return None

    def factor(self, p):
        """p = m * q with m a product of values known to be >= 0: q, or None."""
        if len(p) < 2:
            return None
        common = None
        for m in p:
            c = list(m)
            if common is None:
                common = c
            else:
                rest = list(m)
                keep = []
                for x in common:
                    if x in rest:
                        rest.remove(x)
                        keep.append(x)
                common = keep
            if not common:
                return None
        common = [x for x in common if self.nonneg(x)]
        if not common:
            return None
        out = {}
        for m, c in p.items():
            rest = list(m)
            for x in common:
                rest.remove(x)
            out[tuple(rest)] = c
        return out

    def eliminate(self, p):
        """Use known equalities to remove variables from products."""
        if all(len(m) < 2 for m in p):
            return None
        done = set()
        q = dict(p)
        for a, v in self.facts.items():
            if a.op != "eq0" or not v:
                continue
            e = tm.to_poly(a.args[0])
            for m, c in e.items():
                if len(m) == 1 and c in (1, -1) and m[0] not in done and any(m[0] in n for n in q if len(n) > 1):
                    rest = {k: -x * c for k, x in e.items() if k != m}
                    if any(m[0] in k for k in rest):
                        continue
                    out = {}
                    for n, x in q.items():
                        if m[0] in n and len(n) > 1:
                            r = list(n)
                            pw = r.count(m[0])
                            r = [y for y in r if y is not m[0]]
                            t = {tuple(r): x}
                            for _ in range(pw):
                                t = tm.p_mul(t, rest)
                            out = tm.p_add(out, t)
                        else:
                            out = tm.p_add(out, {n: x})
                    q = out
                    done.add(m[0])
                    break
        return q if done else None

    def tidy(self, t):
        """Simplify what substitution has left."""
        m = {}
        for x in tm.walk(t):
            if x.op == "app" and x.args[0] == "//" and x.args[1][0] is MINUS_ONE and self.positive(x.args[1][1]):
                m[x] = MINUS_ONE
        return tm.substitute(t, m) if m else t

    def minus_one(self, p):
        """-1 // b is -1 for positive b (such terms come about by substitution)."""
        for m in list(p):
            for i, x in enumerate(m):
                if x.op == "app" and x.args[0] == "//" and x.args[1][0] is MINUS_ONE and self.positive(x.args[1][1]):
                    q = {k: c for k, c in p.items() if k != m}
                    return self.minus_one(tm.p_add(q, {m[:i] + m[i + 1:]: -p[m]}))
        return p

    def linear(self, atom):
        p = self.minus_one(tm.to_poly(atom.args[0]))
        minus = {k: -c for k, c in p.items()}
        if atom.op == "lt0":
            if self.entails(p):
                return False
            if self.entails(tm.p_add(minus, {(): -1})):
                return True
            return None
        # eq0
        if self.entails(tm.p_add(p, {(): -1})) or self.entails(tm.p_add(minus, {(): -1})):
            return False
        if self.entails(p) and self.entails(minus):
            return True
        return None

    def assume(self, atom, val=True):
        """Add a fact; False if that contradicts what is known."""
        if atom.op == "not":
            return self.assume(atom.args[0], not val)
        d = self.decide(atom)
        if d is not None:
            return d == val
        self.facts[atom] = val
        self._lin = None
        return True

    def keep(self, atom, val):
        """Record a fact that follows from others, which may be forgotten."""
        if atom.op == "not":
            atom, val = atom.args[0], not val
        if atom.op != "k" and atom not in self.facts:
            self.facts[atom] = val
            self._lin = None

    # -------------------------------------------------------------- keys

    def note(self, text):
        self.trace = (self.trace, text)

    def where(self):
        if not self.frames:
            return ("?", "?", 0)
        f = self.frames[-1]
        i = max(0, f.pc - 1)
        return (f.code.filename, f.code.name, f.code.ins[min(i, len(f.code.ins) - 1)].line)

    def gc(self):
        """Forget dead locals, unreachable objects and facts about dead symbols."""
        eng = self.eng
        eng.mon.settle(self)
        live = set()
        work = []
        seen_t = set()

        def touch(t):
            if t in seen_t:
                return
            seen_t.add(t)
            for l in tm.leaves(t):
                if l not in live:
                    live.add(l)
                    work.append(l)

        for i, f in enumerate(self.frames):
            n = f.pc
            alive = f.code.live[n] if n < len(f.code.live) else frozenset()
            if i < len(self.frames) - 1 and n:
                # in the middle of a call, which may fail
                h = f.code.handler[n - 1]
                if h is not None:
                    alive = alive | f.code.live[h[0]]
            if len(f.loc) > len(alive) or any(k not in alive for k in f.loc):
                f.loc = {k: v for k, v in f.loc.items() if k in alive or k in eng.keep_locals}
            for t in f.terms():
                touch(t)
        for v in self.g.values():
            touch(v)
        touch(self.exc)
        if self.outcome is not None:
            touch(self.outcome[1])
        for k, o in self.heap.items():
            if k.op in ("mod", "cls"):
                for t in o.terms():
                    touch(t)
        live |= eng.base_leaves
        for l in eng.base_leaves:
            if l in self.heap:
                work.append(l)
        while work:
            l = work.pop()
            o = self.heap.get(l)
            if o is not None:
                for t in o.terms():
                    touch(t)
            m = self.meta.get(l)
            if m is not None:
                touch(m)
        self.heap = {k: o for k, o in self.heap.items() if k in live or k.op in ("mod", "cls")}
        if any(not (tm.leaves(a) <= live) for a in self.facts):
            more = self.project(live) if eng.mon.projects else ()
            self.facts = {a: v for a, v in self.facts.items() if tm.leaves(a) <= live}
            for a in more:
                self.facts.setdefault(a, False)
            self._lin = None
        self.meta = {k: v for k, v in self.meta.items() if k in live}
        self.gen = frozenset(x for x in self.gen if x in live)
        return live

    def project(self, live):
        """The linear facts about live symbols that follow through symbols about to be forgotten."""
        cons = []
        out = []
        for a, v in self.facts.items():
            if a.op == "lt0":
                p = tm.to_poly(a.args[0])
                if len(p) <= 5:
                    cons.append((tm.p_add({k: -c for k, c in p.items()}, {(): -1}) if v else p, a))
        dead = set()
        for p, _ in cons:
            for m in p:
                if m and any(not (tm.leaves(x) <= live) for x in m):
                    dead.add(m)
        cons = [p for p, _ in cons]
        have = {frozenset(p.items()) for p in cons}
        for m in sorted(dead, key=lambda m: tuple(x.id for x in m)):
            pos = [p for p in cons if p.get(m, 0) == 1]
            neg = [p for p in cons if p.get(m, 0) == -1]
            cons = [p for p in cons if not p.get(m, 0)]
            if len(pos) * len(neg) > 36:
                continue
            for a in pos:
                for b in neg:
                    r = tm.p_add(a, b)
                    k = frozenset(r.items())
                    if len(r) <= 4 and k not in have and r and set(r) != {()}:
                        have.add(k)
                        cons.append(r)
        for p in cons:
            if all(tm.leaves(x) <= live for m in p for x in m):
                a = tm.lt(tm.from_poly(p), tm.ZERO)
                if a.op == "lt0" and a not in self.facts:
                    out.append(a)
        return out

    def core(self):
        return (
            tuple(f.key() for f in self.frames),
            frozenset((k, o.key()) for k, o in self.heap.items()),
            frozenset(self.g.items()),
            frozenset(self.ctl.items()),
            frozenset(self.meta.items()),
            self.exc,
            self.outcome,
        )
