"""Hash-consed value terms: the value-numbering domain of the analysis.

A term denotes a run-time value of the analysed program on the paths that reach a
program point.  Equal terms denote equal values.  Arithmetic is kept as sums of products
(polynomials over opaque terms), strings as concatenations, so that two ways of writing
the same expression give the same term.
"""

_table = {}


class T:
    __slots__ = ("op", "args", "id", "leaves")

    def __init__(self, op, args, ident):
        self.op = op
        self.args = args
        self.id = ident
        self.leaves = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(op, args, len(_table))
        _table[key] = t
    return t


def K(v):
    """A constant."""
    return mk("k", type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ZERO = K(0)
ONE = K(1)
NULL = mk("null")
UNSET = mk("unset")


def B(v):
    return TRUE if v else FALSE


def is_k(t):
    return t.op == "k"


def kv(t):
    return t.args[1]


def is_int(t):
    return t.op == "k" and t.args[0] == "int"


def is_str(t):
    return t.op == "k" and t.args[0] == "str"


def sym(name, *info, ty=None):
    """An opaque value.  'name' and 'info' identify it, 'ty' is its type if known."""
    return mk("sym", name, info, ty)


def app(name, *args, ty=None):
    """A pure function applied to terms."""
    return mk("app", name, tuple(args), ty)


def tup(items):
    return mk("tup", *items)


def ext(name):
    return mk("ext", name)


# ------------------------------------------------------------------ types

_CLS2TY = {
    "int": "int",
    "bool": "bool",
    "str": "str",
    "bytes": "bytes",
    "NoneType": "none",
    "float": "float",
    "tuple": "tuple",
    "frozenset": "set",
    "ellipsis": "ellipsis",
}


def ty(t):
    """The type of a term if it is known: a short string, or None."""
    op = t.op
    if op == "k":
        return _CLS2TY.get(t.args[0])
    if op == "poly":
        return "int"
    if op in ("sym", "app"):
        return t.args[2]
    if op == "phi":
        return t.args[2]
    if op == "prev":
        return ty(t.args[0])
    if op == "tup":
        return "tuple"
    if op == "cat":
        return "str"
    if op in ("eq", "lt0", "eq0", "is", "in", "inst", "not", "truth", "hasattr"):
        return "bool"
    if op in ("fn", "bound", "partial", "meth"):
        return "function"
    if op == "cls":
        return "class"
    if op == "mod":
        return "module"
    if op == "ref":
        return "ref"
    return None


NUMERIC = ("int", "bool", "float")

# ------------------------------------------------------------------ polynomials


def to_poly(t):
    """The polynomial of a term: a dict {monomial (tuple of terms): coefficient}."""
    op = t.op
    if op == "poly":
        return dict(t.args)
    if op == "k" and t.args[0] in ("int", "bool", "float"):
        v = t.args[1]
        if t.args[0] == "bool":
            v = int(v)
        return {(): v} if v else {}
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        ((m, c),) = p.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", *sorted(p.items(), key=_mkey))


def _mkey(item):
    return tuple(x.id for x in item[0])


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def add(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return from_poly(p_mul(to_poly(a), to_poly(b)))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def p_div(a, b):
    """Exact quotient of polynomials a / b, or None."""
    if not b:
        return None
    if not a:
        return {}
    # multivariate division by the leading monomial
    lead = max(b, key=lambda m: (len(m), tuple(x.id for x in m)))
    lc = b[lead]
    q = {}
    r = dict(a)
    for _ in range(32):
        if not r:
            return q
        m = max(r, key=lambda m: (len(m), tuple(x.id for x in m)))
        rest = list(m)
        for x in lead:
            if x in rest:
                rest.remove(x)
            else:
                return None
        c = r[m]
        if isinstance(c, int) and isinstance(lc, int):
            if c % lc:
                return None
            qc = c // lc
        else:
            qc = c / lc
        qm = tuple(rest)
        q[qm] = q.get(qm, 0) + qc
        r = p_add(r, p_mul({qm: qc}, b), -1)
    return None


def floordiv(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if is_k(a) and is_k(b) and kv(b):
        return K(kv(a) // kv(b))
    if b is ONE:
        return a
    q = p_div(pa, pb)
    if q is not None and all(isinstance(c, int) for c in q.values()):
        return from_poly(q)
    # (n*b + r) // b  ==  n + r // b
    if len(pb) == 1:
        whole, rest = {}, {}
        for m, c in pa.items():
            q = p_div({m: c}, pb)
            if q is not None:
                whole = p_add(whole, q)
            else:
                rest[m] = c
        if is_k(b) and kv(b) > 1 and () in rest:
            # keep the constant part near zero: (n + 4095) // 4096 == 1 + (n - 1) // 4096
            d, c = kv(b), rest[()]
            low = (c + d // 2) % d - d // 2
            if low != c:
                whole = p_add(whole, {(): (c - low) // d})
                rest = p_add(rest, {(): low - c})
        if whole and rest:
            if is_k(b) and set(rest) == {()}:
                return add(from_poly(whole), K(rest[()] // kv(b)))
            return add(from_poly(whole), app("//", from_poly(rest), b, ty="int"))
    return app("//", a, b, ty="int")


def mod(a, b):
    if is_k(a) and is_k(b) and kv(b):
        return K(kv(a) % kv(b))
    q = p_div(to_poly(a), to_poly(b))
    if q is not None and all(isinstance(c, int) for c in q.values()):
        return ZERO
    return app("%", a, b, ty="int")


# ------------------------------------------------------------------ strings


def cat(parts):
    """String concatenation; non-string parts are converted with str()."""
    out = []
    for p in parts:
        if p.op == "cat":
            seq = p.args
        elif p.op == "app" and p.args[0] == "str" and len(p.args[1]) == 1:
            seq = p.args[1]
        else:
            seq = (p,)
        for q in seq:
            if q.op == "k" and q.args[0] in ("int", "bool", "NoneType"):
                q = K(str(kv(q)))
            if is_str(q):
                if kv(q) == "":
                    continue
                if out and is_str(out[-1]):
                    out[-1] = K(kv(out[-1]) + kv(q))
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1:
        if ty(out[0]) == "str":
            return out[0]
        return app("str", out[0], ty="str")
    return mk("cat", *out)


# ------------------------------------------------------------------ atoms


def lt(a, b):
    """The atom a < b."""
    d = sub(a, b)
    if d.op == "k":
        return B(kv(d) < 0)
    return mk("lt0", d)


def le(a, b):
    return not_(lt(b, a))


def not_(a):
    if a.op == "not":
        return a.args[0]
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return mk("not", a)


def eq0(d):
    if d.op == "k":
        return B(kv(d) == 0)
    p = to_poly(d)
    first = min(p, key=lambda m: tuple(x.id for x in m) if m else (1 << 60,))
    if p[first] < 0:
        d = neg(d)
    return mk("eq0", d)


_NUMOP = ("int", "float")


def eq(a, b):
    if a is b:
        return TRUE
    if is_k(a) and is_k(b):
        return B(kv(a) == kv(b))
    ta, tb = ty(a), ty(b)
    if ta in NUMERIC and tb in NUMERIC:
        return eq0(sub(a, b))
    if (ta in _NUMOP and tb is None) or (tb in _NUMOP and ta is None):
        return eq0(sub(a, b))
    if ta and tb and ta != tb:
        num = ("int", "bool", "float")
        if not (ta in num and tb in num) and "ref" not in (ta, tb):
            return FALSE
    if a.op == "tup" and b.op == "tup" and len(a.args) != len(b.args):
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


# ------------------------------------------------------------------ traversal

_LEAF_OPS = ("sym", "ref", "phi", "prev")


def _sub_terms(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _sub_terms(y, out)


_NOSUB = ("sym", "ref", "phi", "prev", "k", "ext", "cls", "mod")


def children(t):
    if t.op in _NOSUB:
        return ()
    out = []
    _sub_terms(t.args, out)
    return out


def leaves(t):
    """The set of opaque symbols and references a term mentions."""
    r = t.leaves
    if r is None:
        if t.op in _LEAF_OPS:
            r = frozenset((t,))
        else:
            s = set()
            for c in children(t):
                s |= leaves(c)
            r = frozenset(s)
        t.leaves = r
    return r


def walk(t):
    yield t
    for c in children(t):
        yield from walk(c)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def _rebuild_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rebuild_arg(y, f) for y in x)
    return x


def rebuild(t, args):
    """A term like 't' with other arguments, normalised again."""
    op = t.op
    if op == "poly":
        acc = {}
        for m, c in args:
            p = {(): c}
            for x in m:
                p = p_mul(p, to_poly(x))
            acc = p_add(acc, p)
        return from_poly(acc)
    if op == "cat":
        return cat(args)
    if op == "lt0":
        d = args[0]
        return B(kv(d) < 0) if d.op == "k" else mk("lt0", d)
    if op == "eq0":
        return eq0(args[0])
    if op == "eq":
        return eq(args[0], args[1])
    if op == "not":
        return not_(args[0])
    if op == "app":
        if args[0] == "//":
            return floordiv(*args[1])
        if args[0] == "%":
            return mod(*args[1])
        if args[0] in ("min", "max"):
            return minmax(args[0], args[1])
    return mk(op, *args)


def minmax(name, items):
    """min/max of numbers."""
    flat = []
    for x in items:
        if x.op == "app" and x.args[0] == name:
            flat.extend(x.args[1])
        else:
            flat.append(x)
    consts = [x for x in flat if is_k(x)]
    rest = sorted(set(x for x in flat if not is_k(x)), key=lambda x: x.id)
    if consts:
        f = min if name == "min" else max
        c = K(f(kv(x) for x in consts))
        if not rest:
            return c
        rest.append(c)
    if len(rest) == 1:
        return rest[0]
    return mk("app", name, tuple(rest), "int")


def substitute(t, mapping, memo=None):
    """Replace leaves of 't' by the terms in 'mapping'."""
    if memo is None:
        memo = {}

    def f(x):
        r = mapping.get(x)
        if r is not None:
            return r
        if x.op in _NOSUB:
            return x
        if not any(l in mapping for l in leaves(x)):
            if not nonleaf:
                return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, _rebuild_arg(x.args, f))
            memo[x] = r
        return r

    nonleaf = any(k.op not in _LEAF_OPS for k in mapping)
    return f(t)


# ------------------------------------------------------------------ printing


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 7:
        return "…"
    op, a = t.op, t.args
    d = depth + 1
    if op == "k":
        return repr(a[1])
    if op == "sym":
        return "%s" % a[0]
    if op == "phi":
        return "φ:%s" % (a[1],)
    if op == "prev":
        return "old(%s)" % show(a[0], d)
    if op == "app":
        if a[0] in ("//", "%") and len(a[1]) == 2:
            return "(%s %s %s)" % (show(a[1][0], d), a[0], show(a[1][1], d))
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1]))
    if op == "poly":
        out = []
        for m, c in a:
            s = "*".join(show(x, d) for x in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if op == "lt0":
        return "%s < 0" % show(a[0], d)
    if op == "eq0":
        return "%s == 0" % show(a[0], d)
    if op == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if op == "ext":
        return a[0]
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "ref":
        return "<%s>" % (a[-1],)
    if op in ("fn", "cls", "mod"):
        return "<%s %s>" % (op, a[0])
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
