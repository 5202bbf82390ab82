"""The abstract interpreter: an interprocedural fixpoint analysis of Python byte code.

Every in-repository function is analysed in the context of its callers, the heap is
abstracted by allocation site, values by terms (see terms.py).  Paths are kept apart by
the facts established by branches and are merged where those facts no longer matter;
loops are solved by widening to a fixpoint (loops.py).  Nothing is executed.
"""

import builtins
import heapq
import importlib
import os
import re
import sys

from . import code as cd
from . import terms as tm
from .state import Frame, Obj, State
from .terms import B, K, NONE, NULL, T, app, ext, is_k, kv, mk, sym, tup, ty

if sys.version_info[:2] != (3, 12):  # pragma: no cover
    sys.stderr.write("this analysis decodes CPython 3.12 byte code\n")
    sys.exit(2)


class AnalysisError(Exception):
    """The analysis cannot answer (an anchor vanished, a budget ran out)."""


class Monitor:
    """A property automaton: the engine calls these hooks.  The base class ignores
    everything."""

    opaque = ()

    projects = False  # keep what follows from facts about symbols that are forgotten

    def candidates(self, st, phis=()):
        """[(atom, truth)]: facts worth trying as loop invariants (phis: the loop variables)."""
        return ()

    def call(self, st, ev):
        return None

    def after(self, st, ev, val):
        pass

    malformed = False  # nothing may be assumed about the numbers in the input

    def raises(self, st, ev):
        return ()

    def raised(self, st, ev, exc):
        pass

    def enter(self, st, fn, qual, args):
        return None

    def iter(self, st, ev, it):
        return None

    def elem(self, st, it, el):
        pass

    def store(self, st, obj, name, val):
        pass

    def load(self, st, obj, name):
        return None

    def unresolved(self, st, kind, name):
        if not expected(st, UNRESOLVED.get(kind, ("TypeError",))):
            self.eng.report("C29", st, "unresolved %s: %s" % (kind, name))

    def badformat(self, st, fmt, msg):
        if not expected(st, ("TypeError", "ValueError", "KeyError", "IndexError", "LookupError")):
            self.eng.report("C29", st, "a text cannot be composed: %s (%r)" % (msg, fmt))

    def throw(self, st, exc, explicit):
        pass

    def leave(self, st, fr, val):
        pass

    def spawn(self, st, fn, args, how):
        return None

    def merge_key(self, st):
        return None

    def settle(self, st):
        """Facts are about to be forgotten: keep what they mean for the property."""

    def relevant(self, st, atom):
        """Whether paths that differ in this fact only have to be kept apart."""
        return True


class Event:
    __slots__ = ("name", "recv", "args", "kw", "site", "func", "caller")

    def __init__(self, name, recv, args, kw, site, func, caller):
        self.name = name
        self.recv = recv
        self.args = args
        self.kw = kw
        self.site = site
        self.func = func
        self.caller = caller

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        for k, v in self.kw:
            if k == name:
                return v
        return default

    def __repr__(self):
        return "%s%s(%s)" % (
            tm.show(self.recv) if self.recv is not None else "",
            self.name,
            ", ".join([tm.show(a) for a in self.args] + ["%s=%s" % (k, tm.show(v)) for k, v in self.kw]),
        )


# Canonical names of external objects

RENAME = {
    "six.moves.queue": "queue",
    "six.moves._thread": "_thread",
    "six.moves.urllib.parse": "urllib.parse",
    "six.moves.urllib.request": "urllib.request",
    "six.moves.urllib.error": "urllib.error",
    "six.moves.urllib": "urllib",
    "six.moves.http_client": "http.client",
    "Queue": "queue",
    "IOError": "OSError",
    "EnvironmentError": "OSError",
    "io.open": "open",
    "os.error": "OSError",
    "socket.timeout": "TimeoutError",
    "socket.error": "OSError",
    "select.error": "OSError",
    "thread": "_thread",
    "posixpath": "os.path",
    "io.UnsupportedOperation": "io.UnsupportedOperation",
}

CONST_MODULES = {
    "os", "errno", "stat", "subprocess", "mmap", "logging", "struct", "fcntl", "hashlib",
    "socket", "io", "re", "signal", "string", "math", "array", "time", "termios",
}
CONST_NAMES = {"sys.maxsize", "sys.byteorder"}


def canonical(name):
    r = RENAME.get(name)
    if r:
        return r
    for p in ("six.moves.", "posixpath."):
        if name.startswith(p):
            for k, v in RENAME.items():
                if name.startswith(k + "."):
                    return canonical(v + name[len(k):])
    head, _, tail = name.partition(".")
    if head in RENAME and tail:
        return canonical(RENAME[head] + "." + tail)
    return name


_const_cache = {}


SIGSUM = {
    "SIGSUM_VALID": 1, "SIGSUM_GREEN": 2, "SIGSUM_RED": 4, "SIGSUM_KEY_REVOKED": 0x10, "SIGSUM_KEY_EXPIRED": 0x20,
    "SIGSUM_SIG_EXPIRED": 0x40, "SIGSUM_KEY_MISSING": 0x80, "SIGSUM_CRL_MISSING": 0x100, "SIGSUM_CRL_TOO_OLD": 0x200,
    "SIGSUM_BAD_POLICY": 0x400, "SIGSUM_SYS_ERROR": 0x800,
}


UNRESOLVED = {
    "attribute": ("AttributeError",),
    "method": ("AttributeError", "TypeError"),
    "global": ("NameError",),
    "local": ("UnboundLocalError", "NameError"),
    "free variable": ("NameError",),
    "import": ("ImportError", "ModuleNotFoundError"),
}


def expected(st, names):
    """Is the code inside a 'try' which names the exception that is about to be raised?"""
    for fr in reversed(st.frames):
        h = fr.code.handler[max(0, fr.pc - 1)]
        if h is None:
            continue
        ins = fr.code.ins
        i = h[0]
        caught = []
        while i < len(ins) and ins[i].op not in ("RERAISE", "POP_EXCEPT"):
            if ins[i].op in ("LOAD_GLOBAL", "LOAD_NAME"):
                caught.append(ins[i].val)
            if ins[i].op == "CHECK_EXC_MATCH":
                if any(c in names for c in caught):
                    return True
                caught = []
                # go on with the next 'except' clause
                while ins[i].jump is None:
                    i += 1
                i = ins[i].jump
                continue
            i += 1
    return False


_std = {}


def lacks(name):
    """Is 'name' an attribute which the standard library module does not have?"""
    if name in _std:
        return _std[name]
    mod, _, attr = name.rpartition(".")
    r = False
    if mod.split(".")[0] in sys.stdlib_module_names and mod not in ("__main__", "antigravity", "this"):
        try:
            m = importlib.import_module(mod)
            if not hasattr(m, attr):
                importlib.import_module(name)
        except ModuleNotFoundError as err:
            r = err.name == name
        except Exception:
            r = False
    _std[name] = r
    return r


def ext_const(name):
    """The constant a well-known standard library name stands for, or None."""
    if name in _const_cache:
        return _const_cache[name]
    r = None
    mod, _, attr = name.rpartition(".")
    if mod == "gpg.constants" and attr in SIGSUM:
        r = K(SIGSUM[attr])
    elif mod in CONST_MODULES or name in CONST_NAMES:
        try:
            v = getattr(importlib.import_module(mod), attr)
            if type(v) in (int, str, bytes, float, bool):
                r = K(v)
            elif isinstance(v, int) and type(v).__module__ in ("re", "signal", "socket"):
                r = K(int(v))
        except Exception:
            r = None
    _const_cache[name] = r
    return r


EXTRA_BASES = {
    "gpg.errors.GpgError": ("Exception",),
    "gpg.errors.GPGMEError": ("gpg.errors.GpgError",),
    "gpg.errors.VerificationError": ("gpg.errors.GpgError",),
    "gpg.errors.BadSignatures": ("gpg.errors.VerificationError",),
    "gpg.errors.MissingSignatures": ("gpg.errors.VerificationError",),
    "xml.etree.ElementTree.ParseError": ("SyntaxError",),
    "<any Exception>": ("Exception",),
    "<any BaseException>": ("BaseException",),
}

_pycls = {}


def pyclass(name):
    """The real class a standard library exception name stands for, or None."""
    if name in _pycls:
        return _pycls[name]
    c = getattr(builtins, name, None) if "." not in name else None
    if c is None and "." in name:
        mod, _, attr = name.rpartition(".")
        top = mod.split(".")[0]
        if top in sys.stdlib_module_names:
            try:
                c = getattr(importlib.import_module(mod), attr, None)
            except Exception:
                c = None
    if not isinstance(c, type):
        c = None
    _pycls[name] = c
    return c


def ext_bases(name):
    """All base class names of an external class (including itself)."""
    if name in EXTRA_BASES:
        out = [name]
        for b in EXTRA_BASES[name]:
            out += ext_bases(b)
        return out
    c = pyclass(name)
    if c is None:
        return [name]
    out = [name]
    for b in c.__mro__:
        n = b.__name__ if b.__module__ == "builtins" else b.__module__ + "." + b.__name__
        if n not in out:
            out.append(canonical(n))
    return out


class Engine:
    def __init__(self, root, mon=None, keep_locals=(), budget=4000000, verbose=False):
        self.root = root
        self.mon = mon or Monitor()
        self.base = {}
        self.base_leaves = set()
        self.keep_locals = set(keep_locals)
        self.modules = {}
        self.codes = {}
        self.sink = []
        self.steps = 0
        self.budget = budget
        self.verbose = verbose
        self.functions = set()
        self.sites = set()
        self.loop_memo = {}
        self.loops_solved = 0
        self.opaque_calls = set()
        self.loading = 0
        self.regions = []
        self.notes = []
        self.queues = {}
        self.files = {}
        self.merged = 0
        from . import models, prelude

        self.models = models
        self.prelude = {}
        self.prelude = prelude.load(self)

    # ------------------------------------------------------------ reports

    def report(self, rule, st, msg, site=None):
        """Record a violation found on the path of 'st'."""
        site = site or st.where()
        tr = []
        t = st.trace
        while t and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        stack = [
            "%s:%d in %s" % (f.code.filename, f.code.ins[max(0, min(f.pc, len(f.code.ins)) - 1)].line, f.code.name)
            for f in st.frames
        ]
        if site[0] == "?":
            for x in tr:
                m = re.match(r"(\S+\.py):(\d+): ", x)
                if m:
                    site = (m.group(1), self.function_at(m.group(1), int(m.group(2))), int(m.group(2)))
                    break
        self.sink.append((rule, site, msg, tuple(reversed(tr)), tuple(stack)))

    def function_at(self, fname, line):
        best = ("?", 0)
        for c in self.codes.values():
            if c.filename == fname and best[1] < c.first <= line:
                best = (c.name, c.first)
        return best[0]

    # ------------------------------------------------------------ modules

    def relname(self, path):
        return os.path.relpath(path, self.root)

    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def load_module(self, name, path=None, source=None, extra=None):
        """Abstractly run the module body; returns the module term."""
        m = self.modules.get(name)
        if m is not None:
            return m
        if path is None and source is None:
            path = self.find_module(name)
            if path is None:
                return None
        if "." in name and source is None:
            self.load_module(name.rsplit(".", 1)[0])
        m = mk("mod", name)
        self.modules[name] = m
        if source is None:
            with open(path, "r", encoding="utf-8") as f:
                source = f.read()
            fname = self.relname(path)
            self.files[fname] = source
        else:
            fname = path or "<%s>" % name
        try:
            co = compile(source, fname, "exec", dont_inherit=True)
        except SyntaxError as err:
            raise AnalysisError("cannot compile %s: %s" % (fname, err))
        code = self.code(co, fname)
        ns = {"__name__": K(name), "__file__": K("/" + fname), "__doc__": NONE}
        if extra:
            ns.update(extra)
        self.base[m] = Obj("mod", attrs=ns)
        st = State(self)
        fr = Frame(code, m, ("module", name), ("root",))
        fr.ns = m
        st.frames.append(fr)
        saved, self.mon = self.mon, Monitor()
        sink, self.sink = self.sink, []
        self.loading += 1
        try:
            outs = self.explore([st])[0]
        finally:
            self.loading -= 1
            self.mon = saved
            self.sink = sink
        ok = [o for o in outs if o.outcome[0] == "return"]
        if len(ok) < 1:
            why = outs[0].outcome[1] if outs else "no outcome"
            raise AnalysisError("module %s does not initialise: %s" % (name, tm.show(why)))
        st = ok[0]
        for k, o in st.heap.items():
            self.base[k] = o
        self.base[m] = st.obj(m)
        for k, o in st.heap.items():
            for t in o.terms():
                self.base_leaves |= tm.leaves(t)
            self.base_leaves |= tm.leaves(k)
        self.base_leaves |= set(st.gen)
        if "." in name:
            par, last = name.rsplit(".", 1)
            pm = self.modules.get(par)
            if pm is not None:
                self.base[pm] = self.base[pm].with_attr(last, m)
        return m

    def code(self, co, fname):
        c = cd.get(co, fname)
        self.codes[c.key] = c
        return c

    # ------------------------------------------------------------ running

    def run_source(self, source, glob, name="harness", filename=None):
        """Analyse a small driver program; returns its outcomes."""
        self._n = getattr(self, "_n", 0) + 1
        mname = "%s#%d" % (name, self._n)
        co = compile(source, filename or "<%s>" % name, "exec", dont_inherit=True)
        code = self.code(co, filename or "<%s>" % name)
        m = mk("mod", mname)
        ns = {"__name__": K(mname)}
        ns.update(glob)
        self.modules[mname] = m
        self.base[m] = Obj("mod", attrs=ns)
        st = State(self)
        fr = Frame(code, m, ("harness", mname), ("root",))
        fr.ns = m
        st.frames.append(fr)
        return st

    def prio(self, st):
        return tuple(f.code.rpo[f.pc] if f.pc < len(f.code.rpo) else 1 << 20 for f in st.frames)

    def explore(self, states, region=None):
        """Run states to completion, or until they leave the region (a loop).
        Returns (finished or left states, arrivals at the loop head)."""
        queue = []
        buckets = {}
        exits = []
        arrivals = []
        visited = {}

        def push(st):
            p = self.prio(st)
            b = buckets.get(p)
            if b is None:
                buckets[p] = [st]
                heapq.heappush(queue, p)
            else:
                b.append(st)

        def take(results):
            for s, where in results:
                if where == "exit":
                    exits.append(s)
                elif where == "arrive":
                    arrivals.append(s)
                else:
                    push(s)

        for st in states:
            if region is not None:
                take(self.run(st, region, True))
            else:
                push(st)
        while queue:
            p = heapq.heappop(queue)
            for st in self.merge(buckets.pop(p), visited):
                take(self.run(st, region, False))
        return self.merge(exits, {}), arrivals

    def merge(self, group, visited):
        """Merge states that differ only in facts that do not matter any more."""
        if len(group) > 1 or visited is not None:
            for s in group:
                s.gc()
        by = {}
        for s in group:
            by.setdefault((s.core(), self.mon.merge_key(s)), []).append(s)
        out = []
        for core, lst in by.items():
            sets = []
            for s in lst:
                sets.append((frozenset(s.facts.items()), s))
            changed = True
            while changed and len(sets) > 1:
                changed = False
                for i in range(len(sets)):
                    for j in range(len(sets)):
                        if i == j:
                            continue
                        a, b = sets[i][0], sets[j][0]
                        if a <= b:
                            del sets[j]
                            changed = True
                            break
                        d = a ^ b
                        if not any(self.mon.relevant(sets[i][1], x) for x, _ in d):
                            st, other = sets[i][1], sets[j][1]
                            keep = a & b
                            for x, v in d:
                                if x.op == "lt0" and (other if (x, v) in a else st).decide(x) is v:
                                    keep |= {(x, v)}
                            st.facts = dict(keep)
                            st._lin = None
                            sets[i] = (keep, st)
                            del sets[j]
                            changed = True
                            break
                        if len(d) == 2:
                            (x, v), (y, w) = d
                            if x is y and v != w:
                                st = sets[i][1]
                                st.facts = dict(a & b)
                                st._lin = None
                                sets[i] = (a & b, st)
                                del sets[j]
                                changed = True
                                break
                    if changed:
                        self.merged += 1
                        break
            seen = visited.setdefault(core, [])
            for f, s in sets:
                if any(o <= f for o in seen):
                    continue
                seen.append(f)
                out.append(s)
        return out

    def place(self, st, region):
        """Where a state is with respect to the region: 'exit', 'arrive' or None."""
        if st.outcome is not None:
            return "exit"
        if region is None:
            return None
        depth, ctx, head, body, code = region
        n = len(st.frames)
        if n < depth:
            return "exit"
        fr = st.frames[depth - 1]
        if fr.ctx is not ctx or fr.code is not code:
            return "exit"
        if n == depth:
            if fr.pc == head:
                return "arrive"
            if fr.pc not in body:
                return "exit"
        return None

    def run(self, st, region, start):
        """Run one state up to the next place where states meet."""
        out = []
        todo = [(st, start, True)]
        while todo:
            st, start, fresh = todo.pop()
            while True:
                if not start:
                    w = self.place(st, region)
                    if w is not None:
                        out.append((st, w))
                        break
                    fr = st.frames[-1]
                    if fr.pc in fr.code.loops and not self.unrolled(st, fr):
                        for s in self.solve_loop(st):
                            out.append((s, self.place(s, region) or "push"))
                        break
                    if not fresh and fr.code.join[fr.pc]:
                        out.append((st, "push"))
                        break
                start = fresh = False
                self.steps += 1
                if self.steps > self.budget:
                    raise AnalysisError("step budget exhausted in %s" % (st.where(),))
                depth0 = len(st.frames)
                res = self.step(st)
                if res is None or (len(res) == 1 and res[0] is st):
                    if len(st.frames) < depth0:
                        # returned from a call: a place where states meet
                        out.append((st, self.place(st, region) or "push"))
                        break
                    continue
                for s in res:
                    todo.append((s, False, False))
                break
        return out

    def unrolled(self, st, fr):
        """A loop over a short container with known elements ends by itself."""
        if fr.code.ins[fr.pc].op != "FOR_ITER" or not fr.stack:
            return False
        o = st.obj(fr.stack[-1])
        return o is not None and o.kind == "iter" and o.items is not None and "i" in o.attrs and len(o.items) <= 12

    def solve_loop(self, st):
        from . import loops

        return loops.solve(self, st)

    # ------------------------------------------------------------ forking

    def branch(self, st, atom):
        """[(bool, state)]: the ways the atom can go."""
        d = st.decide(atom)
        if d is not None:
            return [(d, st)]
        out = []
        for v in (True, False):
            s = st if v is False else st.clone()
            if s.assume(atom, v):
                f, fn, line = s.where()
                s.note("%s:%d: %s%s" % (f, line, "" if v else "not ", tm.show(atom)))
                out.append((v, s))
        return out

    def truth_atom(self, st, v):
        """The atom that says that 'v' is true, or a bool."""
        if is_k(v):
            return bool(kv(v))
        op = v.op
        if op in ("lt0", "eq0", "eq", "is", "in", "inst", "not", "truth", "hasattr"):
            return v
        if op == "tup":
            return len(v.args) > 0
        if op in ("fn", "cls", "mod", "bound", "meth", "ext", "partial", "exc"):
            return True
        if op == "ref":
            o = st.obj(v)
            if o is not None and o.kind in ("list", "dict", "set", "deque"):
                if o.items is not None:
                    return len(o.items) > 0
                return tm.not_(tm.eq0(self.length(st, v)))
            return True
        t = ty(v)
        if t in ("str", "bytes"):
            return self.nonzero(self.length(st, v))
        if t in ("int", "float"):
            return tm.not_(tm.eq0(v))
        if t in ("file", "exc", "obj", "function", "module", "proc", "class", "hash", "xml", "date", "match", "regex"):
            return True
        if t == "none":
            return False
        return mk("truth", v)

    def nonzero(self, n):
        a = tm.not_(tm.eq0(n))
        return bool(kv(a)) if is_k(a) else a

    def length(self, st, v):
        if is_k(v):
            return K(len(kv(v)))
        if v.op == "tup":
            return K(len(v.args))
        if v.op == "ref":
            o = st.obj(v)
            if o is not None and o.items is not None:
                return K(len(o.items))
            if o is not None and "n" in o.attrs and o.kind in ("list", "set", "deque"):
                return o.attrs["n"]
        if v.op == "cat":
            n = tm.ZERO
            for p in v.args:
                n = tm.add(n, self.length(st, p))
            return n
        m = st.meta.get(v)
        if m is not None and m.op == "app" and m.args[0] == "data-at":
            return m.args[1][1]
        return app("len", v, ty="int")

    def truth(self, st, v):
        """[(bool, state)] for the truth of a value."""
        if v.op == "ref":
            o = st.obj(v)
            if o is not None and o.kind == "obj":
                f = self.lookup(st, o.cls, "__bool__")
                if f is None:
                    f = self.lookup(st, o.cls, "__len__")
                if f is not None:
                    return [(True, st.clone()), (False, st)]
        a = self.truth_atom(st, v)
        if isinstance(a, bool):
            return [(a, st)]
        return self.branch(st, a)

    # ------------------------------------------------------------ classes

    def mro(self, st, cls):
        """Linearised bases (in-repository classes and external names)."""
        if cls.op == "ext":
            return [ext(n) for n in ext_bases(cls.args[0])]
        o = st.obj(cls)
        out = [cls]
        if o is None:
            return out
        for b in o.items or ():
            for x in self.mro(st, b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def subclass(self, st, a, b):
        """Is class a a subclass of b?  None if it cannot be told."""
        if b.op == "tup":
            r = False
            for x in b.args:
                s = self.subclass(st, a, x)
                if s:
                    return True
                if s is None:
                    r = None
            return r
        m = self.mro(st, a)
        if b in m:
            return True
        if b.op == "ext" and b.args[0] in ("object",):
            return True
        if a.op == "ext" and a.args[0].startswith("<any"):
            if b.op == "cls" or b.op == "ext":
                mb = self.mro(st, b)
                if ext(a.args[0][5:-1]) in mb:
                    return None
            return False
        if b.op not in ("cls", "ext"):
            return None
        return False

    def lookup(self, st, cls, name):
        for c in self.mro(st, cls):
            if c.op == "cls":
                v = st.attr(c, name)
                if v is not None:
                    return v
        return None

    def has_ext_base(self, st, cls):
        for c in self.mro(st, cls):
            if c.op == "ext" and c.args[0] not in (
                "object", "Exception", "BaseException",
            ) or c.op not in ("ext", "cls"):
                return True
        return False

    def is_exc_class(self, st, v):
        if v.op == "cls":
            return any(
                c.op == "ext" and c.args[0] in ("BaseException",) for c in self.mro(st, v)
            )
        if v.op == "ext":
            return "BaseException" in ext_bases(v.args[0])
        return False

    def exc_class(self, st, e):
        if e.op == "exc":
            return e.args[0]
        if e.op == "ref":
            o = st.obj(e)
            if o is not None and o.cls is not None:
                return o.cls
        return ext("<any Exception>")

    def make_exc(self, st, name, args=()):
        """An instance of an external exception class."""
        cls = ext(name) if isinstance(name, str) else name
        fr = st.frames[-1] if st.frames else None
        site = (fr.ctx, fr.code.key, fr.pc) if fr else ()
        if cls.op == "cls":
            r = st.fresh(mk("ref", "exc", site, kvname(cls)))
            st.heap[r] = Obj("exc", cls, {"args": tup(args)})
            return r
        return mk("exc", cls, tuple(args), site)

    # ------------------------------------------------------------ control

    def deliver(self, st, ret, v):
        """Give the result of a call to whoever asked for it."""
        k = ret[0]
        if k == "push":
            st.frames[-1].stack.append(v)
            return [st]
        if k == "const":
            st.frames[-1].stack.append(ret[1])
            return [st]
        if k == "drop":
            return [st]
        if k == "root":
            st.outcome = ("return", v)
            return [st]
        if k == "cont":
            return CONT[ret[1]](self, st, v, *ret[2:])
        raise AnalysisError("unknown continuation %r" % (k,))

    def throw(self, st, exc, explicit=False):
        """Raise an exception in the top frame."""
        self.mon.throw(st, exc, explicit)
        while st.frames:
            fr = st.frames[-1]
            i = max(0, fr.pc - 1)
            h = fr.code.handler[i]
            if h is not None:
                target, depth, lasti = h
                del fr.stack[depth:]
                if lasti:
                    fr.stack.append(K(i))
                fr.stack.append(exc)
                fr.pc = target
                return [st]
            st.frames.pop()
            if fr.ret[0] == "gen":
                g = fr.ret[1]
                o = st.obj(g)
                st.heap[g] = Obj("gen", attrs={"state": K("done")})
            elif fr.ret[0] == "cont" and fr.ret[1] in CATCH:
                r = CATCH[fr.ret[1]](self, st, exc, *fr.ret[2:])
                if r is not None:
                    return r
            if fr.ret[0] == "root":
                st.frames = []
                break
        st.outcome = ("raise", exc)
        return [st]

    def error(self, st, name, *args):
        return self.throw(st, self.make_exc(st, name, args))

    # ------------------------------------------------------------ calls

    def qual(self, f):
        """Qualified name of a function or class term."""
        return f.args[0]

    def bind(self, st, f, args, kw):
        """Bind arguments to parameters: locals dict or None (TypeError)."""
        _, codekey, defaults, kwdefaults, closure, mod = f.args
        code = self.codes[codekey]
        co = code.co
        n = co.co_argcount
        names = co.co_varnames
        loc = {}
        args = list(args)
        kw = list(kw)
        star = [a for a in args if a.op == "star"]
        if star:
            # unknown number of positional arguments
            i = args.index(star[0])
            fixed = args[:i]
            src = star[0].args[0]
            k = 0
            while len(fixed) < n and not (co.co_flags & 4):
                fixed.append(app("item", src, K(k)))
                k += 1
            extra = [star[0]] if co.co_flags & 4 else []
            args = fixed + extra
        for i, a in enumerate(args[:n]):
            loc[names[i]] = a
        rest = args[n:]
        pos = n + co.co_kwonlyargcount
        if co.co_flags & 4:
            if rest and rest[0].op == "star":
                loc[names[pos]] = rest[0].args[0]
            else:
                loc[names[pos]] = tup(rest)
            pos += 1
        elif rest:
            return None
        extra_kw = []
        for k, v in kw:
            if k == "**":
                continue
            if k in names[: n + co.co_kwonlyargcount] and not (
                k in names[: co.co_posonlyargcount]
            ):
                if k in loc:
                    return None
                loc[k] = v
            elif co.co_flags & 8:
                extra_kw.append((K(k), v))
            else:
                return None
        if co.co_flags & 8:
            loc[names[pos]] = ("kw", tuple(extra_kw))
        nd = len(defaults)
        for i in range(n):
            if names[i] not in loc:
                j = i - (n - nd)
                if j < 0:
                    if any(k == "**" for k, _ in kw):
                        loc[names[i]] = sym("kwarg:" + names[i], st.where())
                        continue
                    return None
                loc[names[i]] = defaults[j]
        kwd = dict(kwdefaults)
        for i in range(n, n + co.co_kwonlyargcount):
            if names[i] not in loc:
                if names[i] not in kwd:
                    return None
                loc[names[i]] = kwd[names[i]]
        return loc

    def site_ctx(self, st):
        if not st.frames:
            return ("top",)
        fr = st.frames[-1]
        return self.intern_ctx((fr.ctx, fr.code.key, fr.pc))

    _ctx = {}

    def intern_ctx(self, c):
        return self._ctx.setdefault(c, c)

    def call(self, st, f, args, kw=(), ret=("push",)):
        """Call a callable term.  Returns the successor states."""
        op = f.op
        if op == "fn":
            return self.call_fn(st, f, args, kw, ret)
        if op == "bound":
            return self.call(st, f.args[1], (f.args[0],) + tuple(args), kw, ret)
        if op == "partial":
            kw2 = tuple(f.args[2]) + tuple(kw)
            return self.call(st, f.args[0], tuple(f.args[1]) + tuple(args), kw2, ret)
        if op == "cls":
            return self.instantiate(st, f, args, kw, ret)
        if op == "ext":
            name = f.args[0]
            if self.is_exc_class(st, f):
                return self.deliver(st, ret, self.make_exc(st, name, tuple(args)))
            return self.call_ext(st, f, name, None, args, kw, ret)
        if op in ("meth", "attr"):
            return self.call_ext(st, f, "." + f.args[1], f.args[0], args, kw, ret)
        if op == "extinit":
            return self.deliver(st, ret, NONE)
        if op == "ref":
            o = st.obj(f)
            if o is not None and o.cls is not None:
                m = self.lookup(st, o.cls, "__call__")
                if m is not None:
                    return self.call(st, m, (f,) + tuple(args), kw, ret)
        if op == "k" and kv(f) is None:
            return self.error(st, "TypeError", K("'NoneType' object is not callable"))
        return self.call_ext(st, f, "()", f, args, kw, ret)

    def call_fn(self, st, f, args, kw, ret):
        qual, codekey = f.args[0], f.args[1]
        if qual in self.mon.opaque:
            return self.call_ext(st, f, qual, None, args, kw, ret)
        r = self.mon.enter(st, f, qual, args)
        if r is not None:
            return self.results(st, None, r, ret)
        code = self.codes[codekey]
        depth = sum(1 for fr in st.frames if fr.code is code)
        if depth >= 3 or len(st.frames) > 60:
            self.notes.append("recursion in %s summarised" % qual)
            return self.deliver(st, ret, st.fresh(sym("rec:" + qual, self.site_ctx(st))))
        loc = self.bind(st, f, args, kw)
        if loc is None:
            self.mon.unresolved(st, "arguments", qual)
            return self.error(st, "TypeError", K("%s() got wrong arguments" % qual))
        self.functions.add((code.filename, code.name, code.first))
        ctx = self.site_ctx(st)
        fr = Frame(code, f.args[5], ctx, ret, f)
        fr.args = tuple(args)
        for k, v in loc.items():
            if isinstance(v, tuple) and not isinstance(v, T):
                r = st.fresh(mk("ref", "dict", ctx, k))
                st.heap[r] = Obj("dict", items=v[1])
                v = r
            fr.loc[k] = v
        closure = f.args[4]
        for name, c in zip(code.co.co_freevars, closure):
            fr.cells[name] = c
        for name in code.co.co_cellvars:
            c = st.fresh(mk("ref", "cell", ctx, name))
            v = fr.loc.pop(name, None)
            st.heap[c] = Obj("cell", attrs={"v": v} if v is not None else {})
            fr.cells[name] = c
        if code.co.co_flags & 0x20:
            i = 0
            while code.ins[i].op != "RETURN_GENERATOR":
                i += 1
            fr.pc = i + 1
            g = st.fresh(mk("ref", "gen", ctx, code.name))
            fr.ret = ("none",)
            st.heap[g] = Obj("gen", attrs={"state": K("new")}, fr=fr)
            return self.deliver(st, ret, g)
        st.frames.append(fr)
        return [st]

    def instantiate(self, st, cls, args, kw, ret):
        name = kvname(cls)
        if name in self.mon.opaque:
            return self.call_ext(st, cls, name, None, args, kw, ret)
        o = st.obj(cls)
        special = o.attrs.get("$new")
        if special is not None:
            return MAKE[kv(special)](self, st, cls, args, kw, ret)
        new = self.lookup(st, cls, "__init__")
        kind = "exc" if self.is_exc_class(st, cls) else "obj"
        r = st.fresh(mk("ref", kind, self.site_ctx(st), name))
        attrs = {}
        if kind == "exc":
            attrs["args"] = tup(args)
        st.heap[r] = Obj(kind, cls, attrs)
        if new is None:
            if args and kind == "obj" and not self.has_ext_base(st, cls):
                self.mon.unresolved(st, "arguments", name)
                return self.error(st, "TypeError", K("%s() takes no arguments" % name))
            return self.deliver(st, ret, r)
        return self.call(st, new, (r,) + tuple(args), kw, ("cont", "init", r, ret))

    def event(self, st, f, name, recv, args, kw):
        fr = st.frames[-1] if st.frames else None
        return Event(name, recv, tuple(args), tuple(kw), st.where(), f, fr.code.name if fr else "")

    def call_ext(self, st, f, name, recv, args, kw, ret):
        """A call that leaves the analysed program."""
        ev = self.event(st, f, name, recv, args, kw)
        self.sites.add((ev.site, name))
        outs = self.mon.call(st, ev)
        if outs is None:
            exc_states = []
            for c in self.mon.raises(st, ev):
                s = st.clone()
                e = self.make_exc(s, c) if not (isinstance(c, T) and c.op == "exc") else c
                s.note("%s:%d: %s raises %s" % (ev.site[0], ev.site[2], name, tm.show(self.exc_class(s, e))))
                self.mon.raised(s, ev, e)
                exc_states += self.throw(s, e)
            model = self.models.find(self, st, ev)
            if model is not None:
                outs = model(self, st, ev, ret)
            else:
                self.opaque_calls.add(name)
                outs = self.models.default(self, st, ev)
            return self.results(st, ev, outs, ret) + exc_states
        return self.results(st, ev, outs, ret)

    def results(self, st, ev, outs, ret):
        """outs: a term, or a list of (state, 'ret'|'exc'|'done', value)."""
        if isinstance(outs, T):
            outs = [(st, "ret", outs)]
        res = []
        for s, kind, v in outs:
            if kind == "ret":
                if ev is not None:
                    self.mon.after(s, ev, v)
                res += self.deliver(s, ret, v)
            elif kind == "exc":
                if ev is not None:
                    self.mon.raised(s, ev, v)
                res += self.throw(s, v)
            else:
                res.append(s)
        return res

    # ------------------------------------------------------------ attributes

    def getattr(self, st, v, name, ret=("push",)):
        """Load an attribute: successor states."""
        r = self.mon.load(st, v, name)
        if r is not None:
            return self.results(st, None, r, ret)
        op = v.op
        if op == "ref":
            o = st.obj(v)
            if o is None:
                return self.deliver(st, ret, mk("attr", v, name))
            a = o.attrs.get(name)
            if a is not None and o.kind in ("obj", "exc", "ext"):
                return self.deliver(st, ret, a)
            if o.kind == "fnattrs":
                pass
            if o.cls is not None:
                if name == "__class__":
                    return self.deliver(st, ret, o.cls)
                if name == "__dict__":
                    d = st.fresh(mk("ref", "dict", self.site_ctx(st), "__dict__"))
                    st.heap[d] = Obj("dict", items=tuple((K(k), x) for k, x in o.attrs.items()))
                    return self.deliver(st, ret, d)
                c = self.lookup(st, o.cls, name)
                if c is not None:
                    return self.bind_attr(st, v, o.cls, c, ret)
                g = self.lookup(st, o.cls, "__getattr__")
                if g is not None:
                    return self.call(st, g, (v, K(name)), (), ret)
                if o.kind == "exc" or self.has_ext_base(st, o.cls):
                    return self.deliver(st, ret, mk("attr", v, name))
                self.mon.unresolved(st, "attribute", "%s.%s" % (kvname(o.cls), name))
                return self.error(st, "AttributeError", K(name))
            return self.deliver(st, ret, mk("meth", v, name))
        if op == "mod":
            a = st.attr(v, name)
            if a is not None:
                return self.deliver(st, ret, a)
            sub = self.load_module(v.args[0] + "." + name) if v.args[0] in self.modules and self.find_module(v.args[0] + "." + name) else None
            if sub is not None:
                return self.deliver(st, ret, sub)
            self.mon.unresolved(st, "attribute", "%s.%s" % (v.args[0], name))
            return self.error(st, "AttributeError", K(name))
        if op == "cls":
            if name == "__name__":
                return self.deliver(st, ret, K(kvname(v).split(".")[-1]))
            a = self.lookup(st, v, name)
            if a is not None:
                if a.op == "app" and a.args[0] == "staticmethod":
                    a = a.args[1][0]
                elif a.op == "app" and a.args[0] == "classmethod":
                    a = mk("bound", v, a.args[1][0])
                return self.deliver(st, ret, a)
            if self.has_ext_base(st, v) or self.is_exc_class(st, v):
                return self.deliver(st, ret, mk("attr", v, name))
            self.mon.unresolved(st, "attribute", "%s.%s" % (kvname(v), name))
            return self.error(st, "AttributeError", K(name))
        if op == "ext":
            n = canonical(v.args[0] + "." + name)
            c = ext_const(n)
            a = st.attr(v, name) or self.prelude.get(n)
            if a is not None:
                return self.deliver(st, ret, a)
            if c is None and lacks(n):
                self.mon.unresolved(st, "attribute", n)
                return self.error(st, "AttributeError", K(name))
            return self.deliver(st, ret, c if c is not None else ext(n))
        if op == "super":
            return ops.super_attr(self, st, v.args[1], v.args[0], name, ret)
        if op == "fn":
            if name == "__name__":
                return self.deliver(st, ret, K(v.args[0].split(".")[-1]))
            return self.deliver(st, ret, mk("attr", v, name))
        if op == "bound" and name in ("__self__", "__func__"):
            return self.deliver(st, ret, v.args[0] if name == "__self__" else v.args[1])
        if is_k(v) and kv(v) is None and not name.startswith("__"):
            self.mon.unresolved(st, "attribute", "None.%s" % name)
            return self.error(st, "AttributeError", K(name))
        # an opaque value
        o = st.obj(v)
        if o is not None:
            a = o.attrs.get(name)
            if a is not None:
                return self.deliver(st, ret, a)
        r = self.models.attribute(self, st, v, name)
        if r is not None:
            return self.deliver(st, ret, r)
        return self.deliver(st, ret, mk("attr", v, name))

    def bind_attr(self, st, obj, cls, c, ret):
        if c.op == "fn":
            return self.deliver(st, ret, mk("bound", obj, c))
        if c.op == "app":
            n = c.args[0]
            if n == "staticmethod":
                return self.deliver(st, ret, c.args[1][0])
            if n == "classmethod":
                return self.deliver(st, ret, mk("bound", cls, c.args[1][0]))
            if n == "property":
                return self.call(st, c.args[1][0], (obj,), (), ret)
            if n == "cached_property":
                return self.call(st, c.args[1][0], (obj,), (), ret)
        return self.deliver(st, ret, c)

    def setattr(self, st, v, name, val):
        """Store an attribute: successor states."""
        self.mon.store(st, v, name, val)
        if v.op == "ref":
            o = st.obj(v)
            if o is not None and o.cls is not None:
                c = self.lookup(st, o.cls, name)
                if c is not None and c.op == "app" and c.args[0] == "property":
                    if len(c.args[1]) > 1 and c.args[1][1] is not NONE:
                        return self.call(st, c.args[1][1], (v, val), (), ("drop",))
                    return self.error(st, "AttributeError", K(name))
                f = self.lookup(st, o.cls, "__setattr__")
                if f is not None:
                    return self.call(st, f, (v, K(name), val), (), ("drop",))
        st.setattr(v, name, val)
        return [st]

    # ------------------------------------------------------------ generators

    def resume(self, st, g, value, mode, exc=None):
        """Continue a suspended generator; 'mode' says what happens with its results."""
        o = st.obj(g)
        state = kv(o.attrs["state"])
        if state == "done":
            if exc is not None:
                return self.throw(st, exc)
            return self.gen_end(st, g, NONE, mode)
        fr = o.fr.clone()
        fr.ret = ("gen", g, mode)
        st.heap[g] = Obj("gen", attrs={"state": K("running")})
        st.frames.append(fr)
        self.functions.add((fr.code.filename, fr.code.name, fr.code.first))
        if exc is not None:
            return self.throw(st, exc)
        fr.stack.append(value)
        return [st]

    def gen_yield(self, st, v):
        fr = st.frames.pop()
        _, g, mode = fr.ret
        fr.ret = ("none",)
        st.heap[g] = Obj("gen", attrs={"state": K("suspended")}, fr=fr)
        return self.gen_value(st, g, v, mode)

    def gen_value(self, st, g, v, mode):
        k = mode[0]
        if k in ("for", "next", "send"):
            st.frames[-1].stack.append(v)
            return [st]
        if k == "deliver":
            return self.deliver(st, mode[1], v)
        raise AnalysisError("generator mode %r" % (mode,))

    def gen_end(self, st, g, v, mode):
        k = mode[0]
        if k == "for":
            fr = st.frames[-1]
            fr.stack.pop()
            fr.pc = mode[1]
            return [st]
        if k == "send":
            fr = st.frames[-1]
            fr.stack.append(v)
            fr.pc = mode[1]
            return [st]
        if k == "next":
            if mode[1] is not None:
                st.frames[-1].stack.append(mode[1])
                return [st]
            return self.error(st, "StopIteration", v)
        if k == "deliver":
            if mode[2] is not None:
                return self.deliver(st, mode[1], mode[2])
            return self.error(st, "StopIteration", v)
        raise AnalysisError("generator mode %r" % (mode,))

    # ------------------------------------------------------------ iteration

    def make_iter(self, st, v):
        """An iterator over 'v', or None if it has to be called (in-repository __iter__)."""
        site = self.site_ctx(st)
        if v.op == "ref":
            o = st.obj(v)
            if o is not None:
                if o.kind in ("gen", "iter"):
                    return v
                if o.kind in ("list", "dict", "set", "deque"):
                    r = st.fresh(mk("ref", "iter", site, "iter"))
                    if o.items is not None:
                        items = o.items
                        if o.kind == "dict":
                            items = tuple(x[0] for x in items)
                        st.heap[r] = Obj("iter", attrs={"i": K(0), "src": v}, items=tuple(items))
                    else:
                        st.heap[r] = Obj("iter", attrs={"src": v})
                    return r
                if o.cls is not None and self.lookup(st, o.cls, "__iter__") is not None:
                    return None
        if v.op == "tup":
            items = v.args
        elif is_k(v) and v.args[0] in ("tuple", "str", "frozenset", "bytes"):
            c = kv(v)
            if v.args[0] == "frozenset":
                c = sorted(c, key=repr)
            items = tuple(K(x) for x in c)
        else:
            r = st.fresh(mk("ref", "iter", site, "iter"))
            st.heap[r] = Obj("iter", attrs={"src": v})
            return r
        r = st.fresh(mk("ref", "iter", site, "iter"))
        st.heap[r] = Obj("iter", attrs={"i": K(0), "src": v}, items=tuple(items))
        return r

    def iter_next(self, st, it):
        """[(state, value or None if exhausted)] for a non-generator iterator."""
        o = st.obj(it)
        if o is None or o.kind != "iter":
            el = st.fresh(sym("elem", self.site_ctx(st)))
            s2 = st.clone()
            return [(s2, el), (st, None)]
        if o.items is not None and "i" in o.attrs:
            i = kv(o.attrs["i"])
            if i >= len(o.items):
                return [(st, None)]
            st.heap[it] = o.with_attr("i", K(i + 1))
            return [(st, o.items[i])]
        src = o.attrs["src"]
        ev = self.event(st, src, "iter", src, (), ())
        r = self.mon.iter(st, ev, it)
        if r is not None:
            return r
        out = []
        for c in self.mon.raises(st, ev):
            s = st.clone()
            e = self.make_exc(s, c)
            self.mon.raised(s, ev, e)
            out.append((s, ("exc", e)))
        s2 = st.clone()
        el = None
        so = s2.obj(src) if src.op == "ref" else None
        if so is not None and so.kind in ("list", "deque", "set") and "elem" in so.attrs:
            el = self.any_elem(s2, so.attrs["elem"])
        if el is None:
            el = s2.fresh(sym("elem", self.site_ctx(s2), ty=self.models.elem_type(self, s2, src)))
            s2.meta[el] = app("elem-of", src)
        s2.note("%s:%d: next element" % (ev.site[0], ev.site[2]))
        st.note("%s:%d: no more elements" % (ev.site[0], ev.site[2]))
        self.mon.elem(s2, it, el)
        out.append((s2, el))
        out.append((st, None))
        return out

    def any_elem(self, st, t):
        """A generic element of a summarised container."""
        return t

    # ------------------------------------------------------------ stepping

    def step(self, st):
        fr = st.frames[-1]
        x = fr.code.ins[fr.pc]
        fr.pc += 1
        f = OPS.get(x.op)
        if f is None:
            raise AnalysisError(
                "byte code %s is not supported (%s:%d)" % (x.op, fr.code.filename, x.line)
            )
        return f(self, st, fr, x)


def kvname(cls):
    return cls.args[0]


CONT = {}
CATCH = {}
MAKE = {}
OPS = {}

from . import ops  # noqa: E402,F401  (fills OPS and CONT)
