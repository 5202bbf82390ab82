"""Transfer functions of the byte code instructions."""

import builtins

from . import terms as tm
from .engine import CATCH, CONT, OPS, canonical, ext_const, kvname, lacks
from .state import Frame, Obj
from .terms import B, K, NONE, NULL, T, app, ext, is_k, kv, mk, sym, tup, ty


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f

    return deco


def cont(name):
    def deco(f):
        CONT[name] = f
        return f

    return deco


def catch(name):
    def deco(f):
        CATCH[name] = f
        return f

    return deco


# ------------------------------------------------------------------ trivial


@op("RESUME", "NOP", "CACHE", "EXTENDED_ARG", "PRECALL", "MAKE_CELL", "COPY_FREE_VARS", "SETUP_ANNOTATIONS", "INTERPRETER_EXIT")
def nop(e, st, fr, x):
    if x.op == "SETUP_ANNOTATIONS":
        ns = fr.ns
        if st.attr(ns, "__annotations__") is None:
            d = mk("ref", "dict", fr.ctx, "__annotations__")
            st.heap[d] = Obj("dict", items=())
            st.setattr(ns, "__annotations__", d)
    return None


@op("POP_TOP")
def pop_top(e, st, fr, x):
    fr.stack.pop()


@op("PUSH_NULL")
def push_null(e, st, fr, x):
    fr.stack.append(NULL)


@op("COPY")
def copy(e, st, fr, x):
    fr.stack.append(fr.stack[-x.arg])


@op("SWAP")
def swap(e, st, fr, x):
    s = fr.stack
    s[-1], s[-x.arg] = s[-x.arg], s[-1]


@op("END_FOR")
def end_for(e, st, fr, x):
    fr.stack.pop()
    fr.stack.pop()


@op("END_SEND")
def end_send(e, st, fr, x):
    v = fr.stack.pop()
    fr.stack.pop()
    fr.stack.append(v)


# ------------------------------------------------------------------ constants and names


def const(v):
    if isinstance(v, tuple):
        return tup([const(x) for x in v])
    if hasattr(v, "co_code"):
        return mk("code", v)
    return K(v)


@op("LOAD_CONST")
def load_const(e, st, fr, x):
    fr.stack.append(const(x.val))


@op("RETURN_CONST")
def return_const(e, st, fr, x):
    return ret(e, st, fr, const(x.val))


@op("RETURN_VALUE")
def return_value(e, st, fr, x):
    return ret(e, st, fr, fr.stack.pop())


def ret(e, st, fr, v):
    e.mon.leave(st, fr, v)
    st.frames.pop()
    if fr.ret[0] == "gen":
        g = fr.ret[1]
        st.heap[g] = Obj("gen", attrs={"state": K("done")})
        return e.gen_end(st, g, v, fr.ret[2])
    return e.deliver(st, fr.ret, v)


@op("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_CLOSURE")
def load_fast(e, st, fr, x):
    if x.op == "LOAD_CLOSURE" or x.val in fr.cells:
        c = fr.cells.get(x.val)
        if c is not None:
            fr.stack.append(c)
            return None
    v = fr.loc.get(x.val)
    if v is None:
        e.mon.unresolved(st, "local", x.val)
        return e.error(st, "UnboundLocalError", K(x.val))
    fr.stack.append(v)


@op("LOAD_FAST_AND_CLEAR")
def load_fast_clear(e, st, fr, x):
    fr.stack.append(fr.loc.pop(x.val, tm.UNSET))


@op("STORE_FAST")
def store_fast(e, st, fr, x):
    v = fr.stack.pop()
    if v is tm.UNSET:
        fr.loc.pop(x.val, None)
    else:
        fr.loc[x.val] = v


@op("DELETE_FAST")
def delete_fast(e, st, fr, x):
    fr.loc.pop(x.val, None)


@op("LOAD_DEREF")
def load_deref(e, st, fr, x):
    c = fr.cells[x.val]
    v = st.attr(c, "v")
    if v is None:
        e.mon.unresolved(st, "free variable", x.val)
        return e.error(st, "NameError", K(x.val))
    fr.stack.append(v)


@op("STORE_DEREF")
def store_deref(e, st, fr, x):
    v = fr.stack.pop()
    st.heap[fr.cells[x.val]] = Obj("cell", attrs={"v": v})


@op("DELETE_DEREF")
def delete_deref(e, st, fr, x):
    st.heap[fr.cells[x.val]] = Obj("cell")


BUILTINS = set(dir(builtins))


def load_builtin(e, st, name):
    p = e.prelude.get(name)
    if p is not None:
        return p
    if name in BUILTINS:
        return ext(canonical(name))
    if name == "__file__":
        return K("/")
    return None


def load_global_name(e, st, fr, name):
    v = st.attr(fr.glob, name)
    if v is None:
        v = load_builtin(e, st, name)
    return v


@op("LOAD_GLOBAL")
def load_global(e, st, fr, x):
    if x.arg & 1:
        fr.stack.append(NULL)
    v = load_global_name(e, st, fr, x.val)
    if v is None:
        e.mon.unresolved(st, "global", x.val)
        return e.error(st, "NameError", K(x.val))
    fr.stack.append(v)


@op("LOAD_NAME", "LOAD_FROM_DICT_OR_GLOBALS", "LOAD_FROM_DICT_OR_DEREF")
def load_name(e, st, fr, x):
    if x.op != "LOAD_NAME":
        fr.stack.pop()
    v = st.attr(fr.ns, x.val) if fr.ns is not None else None
    if v is None and x.op == "LOAD_FROM_DICT_OR_DEREF" and x.val in fr.cells:
        v = st.attr(fr.cells[x.val], "v")
    if v is None:
        v = load_global_name(e, st, fr, x.val)
    if v is None:
        e.mon.unresolved(st, "global", x.val)
        return e.error(st, "NameError", K(x.val))
    fr.stack.append(v)


@op("LOAD_LOCALS")
def load_locals(e, st, fr, x):
    fr.stack.append(fr.ns)


@op("STORE_NAME")
def store_name(e, st, fr, x):
    st.setattr(fr.ns, x.val, fr.stack.pop())


@op("DELETE_NAME")
def delete_name(e, st, fr, x):
    st.setattr(fr.ns, x.val, None)


@op("STORE_GLOBAL")
def store_global(e, st, fr, x):
    v = fr.stack.pop()
    e.mon.store(st, fr.glob, x.val, v)
    st.setattr(fr.glob, x.val, v)


@op("DELETE_GLOBAL")
def delete_global(e, st, fr, x):
    st.setattr(fr.glob, x.val, None)


@op("LOAD_ASSERTION_ERROR")
def load_assertion_error(e, st, fr, x):
    fr.stack.append(ext("AssertionError"))


@op("LOAD_BUILD_CLASS")
def load_build_class(e, st, fr, x):
    fr.stack.append(ext("__build_class__"))


# ------------------------------------------------------------------ attributes


@op("LOAD_ATTR")
def load_attr(e, st, fr, x):
    v = fr.stack.pop()
    if x.arg & 1:
        fr.stack.append(NULL)
    return e.getattr(st, v, x.val)


@op("LOAD_METHOD")
def load_method(e, st, fr, x):
    v = fr.stack.pop()
    fr.stack.append(NULL)
    return e.getattr(st, v, x.val)


@op("STORE_ATTR")
def store_attr(e, st, fr, x):
    o = fr.stack.pop()
    v = fr.stack.pop()
    return e.setattr(st, o, x.val, v)


@op("DELETE_ATTR")
def delete_attr(e, st, fr, x):
    o = fr.stack.pop()
    e.mon.store(st, o, x.val, None)
    st.setattr(o, x.val, None)


@op("LOAD_SUPER_ATTR")
def load_super_attr(e, st, fr, x):
    self_ = fr.stack.pop()
    cls = fr.stack.pop()
    fr.stack.pop()
    if x.arg & 1:
        fr.stack.append(NULL)
    return super_attr(e, st, self_, cls, x.val)


def super_attr(e, st, self_, cls, name, ret=("push",)):
    o = st.obj(self_) if self_.op == "ref" else None
    if o is not None and o.cls is not None:
        mro = e.mro(st, o.cls)
    else:
        mro = e.mro(st, cls)
    if cls in mro:
        mro = mro[mro.index(cls) + 1 :]
    for c in mro:
        if c.op == "cls":
            v = st.attr(c, name)
            if v is not None:
                return e.bind_attr(st, self_, c, v, ret)
        elif c.op == "ext":
            if name == "__init__":
                return e.deliver(st, ret, mk("extinit", self_, c))
            return e.deliver(st, ret, mk("meth", self_, name))
    e.mon.unresolved(st, "attribute", "super().%s" % name)
    return e.error(st, "AttributeError", K(name))


# ------------------------------------------------------------------ imports


@op("IMPORT_NAME")
def import_name(e, st, fr, x):
    fromlist = fr.stack.pop()
    level = fr.stack.pop()
    name = x.val
    lv = kv(level) if is_k(level) else 0
    if lv:
        pkg = fr.glob.args[0].split(".")
        isinit = (e.find_module(fr.glob.args[0]) or "").endswith("__init__.py")
        keep = len(pkg) - lv + (1 if isinit else 0)
        name = ".".join(pkg[:keep] + ([name] if name else []))
    m = e.load_module(name) if e.find_module(name) else None
    has_from = fromlist.op == "tup" and fromlist.args
    if m is None:
        ev = e.event(st, ext("import"), "import", None, (K(name),), ())
        out = []
        for c in e.mon.raises(st, ev):
            s = st.clone()
            ex = e.make_exc(s, c)
            e.mon.raised(s, ev, ex)
            out += e.throw(s, ex)
        n = canonical(name)
        if not has_from and "." in n:
            n = canonical(name.split(".")[0])
        fr.stack.append(ext(n))
        return [st] + out
    if not has_from and "." in name:
        m = e.modules[name.split(".")[0]]
    fr.stack.append(m)
    return None


@op("IMPORT_FROM")
def import_from(e, st, fr, x):
    m = fr.stack[-1]
    if m.op == "mod":
        v = st.attr(m, x.val)
        if v is None:
            full = m.args[0] + "." + x.val
            if e.find_module(full):
                v = e.load_module(full)
        if v is None:
            e.mon.unresolved(st, "import", m.args[0] + "." + x.val)
            return e.error(st, "ImportError", K(x.val))
        fr.stack.append(v)
        return None
    n = canonical(m.args[0] + "." + x.val)
    p = e.prelude.get(n)
    c = ext_const(n)
    if p is None and c is None and lacks(n):
        e.mon.unresolved(st, "import", n)
        return e.error(st, "ImportError", K(x.val))
    fr.stack.append(p or (c if c is not None else ext(n)))


# ------------------------------------------------------------------ functions and classes


@op("MAKE_FUNCTION")
def make_function(e, st, fr, x):
    code = kvcode(fr.stack.pop())
    closure = ()
    kwd = ()
    defaults = ()
    if x.arg & 8:
        closure = fr.stack.pop().args
    if x.arg & 4:
        fr.stack.pop()
    if x.arg & 2:
        d = fr.stack.pop()
        o = st.obj(d)
        kwd = tuple((kv(k), v) for k, v in o.items)
    if x.arg & 1:
        defaults = fr.stack.pop().args
    c = e.code(code, fr.code.filename)
    mod = fr.glob.args[0]
    qual = mod + "." + c.name
    fr.stack.append(mk("fn", qual, c.key, tuple(defaults), kwd, tuple(closure), fr.glob))


def kvcode(t):
    return t.args[0]


@op("RETURN_GENERATOR")
def return_generator(e, st, fr, x):
    return None


@op("KW_NAMES")
def kw_names(e, st, fr, x):
    fr.kw = x.val


@op("CALL")
def call(e, st, fr, x):
    n = x.arg
    s = fr.stack
    args = s[len(s) - n :]
    del s[len(s) - n :]
    b = s.pop()
    a = s.pop()
    names = fr.kw or ()
    fr.kw = ()
    kw = ()
    if names:
        k = len(names)
        kw = tuple(zip(names, args[-k:]))
        args = args[:-k]
    if a is NULL:
        f = b
    else:
        f = a
        args = [b] + args
    return do_call(e, st, f, args, kw)


def do_call(e, st, f, args, kw, ret=("push",)):
    if f.op == "extinit":
        return e.deliver(st, ret, NONE)
    return e.call(st, f, tuple(args), tuple(kw), ret)


@op("CALL_FUNCTION_EX")
def call_function_ex(e, st, fr, x):
    kw = ()
    if x.arg & 1:
        d = fr.stack.pop()
        o = st.obj(d)
        if o is not None and o.items is not None and all(is_k(k) for k, _ in o.items):
            kw = tuple((kv(k), v) for k, v in o.items)
        else:
            kw = (("**", d),)
    a = fr.stack.pop()
    f = fr.stack.pop()
    fr.stack.pop()
    args = seq_items(e, st, a)
    if args is None:
        args = (mk("star", a),)
    return do_call(e, st, f, args, kw)


def seq_items(e, st, v):
    """The items of a sequence if they are all known."""
    if v.op == "tup":
        return v.args
    if is_k(v) and v.args[0] in ("tuple", "str", "bytes", "frozenset"):
        return tuple(K(y) for y in kv(v))
    if v.op == "ref":
        o = st.obj(v)
        if o is not None and o.items is not None:
            if o.kind in ("list", "set", "deque", "obj"):
                return o.items
            if o.kind == "dict":
                return tuple(k for k, _ in o.items)
            if o.kind == "iter" and "i" in o.attrs:
                return o.items[kv(o.attrs["i"]) :]
    return None


@op("CALL_INTRINSIC_1")
def intrinsic1(e, st, fr, x):
    v = fr.stack.pop()
    if x.arg == 3:  # STOPITERATION_ERROR
        if v.op == "exc" and v.args[0] is ext("StopIteration"):
            v = e.make_exc(st, "RuntimeError")
        fr.stack.append(v)
    elif x.arg == 6:  # LIST_TO_TUPLE
        it = seq_items(e, st, v)
        fr.stack.append(tup(it) if it is not None else app("tuple", v, ty="tuple"))
    elif x.arg == 5:  # UNARY_POSITIVE
        fr.stack.append(v)
    elif x.arg == 2:  # IMPORT_STAR
        if v.op == "mod":
            for k, t in st.obj(v).attrs.items():
                if not k.startswith("_"):
                    st.setattr(fr.ns, k, t)
        fr.stack.append(NONE)
    else:
        fr.stack.append(app("intrinsic%d" % x.arg, v))


@op("CALL_INTRINSIC_2")
def intrinsic2(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    fr.stack.append(app("intrinsic2_%d" % x.arg, a, b))


@cont("init")
def cont_init(e, st, v, ref, ret):
    return e.deliver(st, ret, ref)


@cont("class")
def cont_class(e, st, v, cls, ns, bases, cell, ret):
    o = st.obj(ns)
    st.heap[cls] = Obj("cls", None, o.attrs, bases)
    st.heap.pop(ns, None)
    if isinstance(cell, T) and cell is not NONE:
        st.heap[cell] = Obj("cell", attrs={"v": cls})
    for b in bases:
        if b.op == "cls":
            h = st.attr(b, "__init_subclass__")
    return e.deliver(st, ret, cls)


def build_class(e, st, ev, ret):
    fn, name = ev.args[0], ev.args[1]
    bases = []
    for b in ev.args[2:]:
        bases.append(b)
    code = e.codes[fn.args[1]]
    mod = fn.args[5]
    qual = mod.args[0] + "." + code.name
    cls = mk("cls", qual, e.site_ctx(st))
    cls = mk("cls", qual)
    ns = mk("ref", "ns", e.site_ctx(st), qual)
    st.heap[ns] = Obj("ns", attrs={"__doc__": NONE})
    fr = Frame(code, mod, e.site_ctx(st), ("none",), fn)
    cell = NONE
    for n, c in zip(code.co.co_freevars, fn.args[4]):
        fr.cells[n] = c
    for n in code.co.co_cellvars:
        c = mk("ref", "cell", fr.ctx, n)
        st.heap[c] = Obj("cell")
        fr.cells[n] = c
        if n == "__class__":
            cell = c
    fr.ns = ns
    fr.ret = ("cont", "class", cls, ns, tuple(bases), cell, ret)
    st.frames.append(fr)
    return [(st, "done", None)]


# ------------------------------------------------------------------ containers


@op("BUILD_TUPLE")
def build_tuple(e, st, fr, x):
    n = x.arg
    items = fr.stack[len(fr.stack) - n :]
    del fr.stack[len(fr.stack) - n :]
    fr.stack.append(tup(items))


def new_obj(e, st, kind, items, label=None):
    r = st.fresh(mk("ref", kind, e.site_ctx(st), label or kind))
    st.heap[r] = Obj(kind, items=tuple(items) if items is not None else None)
    return r


@op("BUILD_LIST", "BUILD_SET")
def build_list(e, st, fr, x):
    n = x.arg
    items = fr.stack[len(fr.stack) - n :]
    del fr.stack[len(fr.stack) - n :]
    kind = "list" if x.op == "BUILD_LIST" else "set"
    r = new_obj(e, st, kind, ())
    # allocation may have renamed an older object: 'items' are refreshed through the stack
    st.heap[r] = Obj(kind, items=tuple(items))
    fr = st.frames[-1]
    fr.stack.append(r)


@op("BUILD_MAP")
def build_map(e, st, fr, x):
    n = x.arg
    items = fr.stack[len(fr.stack) - 2 * n :] if n else []
    if n:
        del fr.stack[len(fr.stack) - 2 * n :]
    r = new_obj(e, st, "dict", ())
    st.heap[r] = Obj("dict", items=tuple((items[2 * i], items[2 * i + 1]) for i in range(n)))
    st.frames[-1].stack.append(r)


@op("BUILD_CONST_KEY_MAP")
def build_const_key_map(e, st, fr, x):
    keys = fr.stack.pop().args
    n = x.arg
    vals = fr.stack[len(fr.stack) - n :]
    del fr.stack[len(fr.stack) - n :]
    r = new_obj(e, st, "dict", ())
    st.heap[r] = Obj("dict", items=tuple(zip(keys, vals)))
    st.frames[-1].stack.append(r)


@op("BUILD_STRING")
def build_string(e, st, fr, x):
    n = x.arg
    items = fr.stack[len(fr.stack) - n :]
    del fr.stack[len(fr.stack) - n :]
    fr.stack.append(tm.cat(items))


@op("FORMAT_VALUE")
def format_value(e, st, fr, x):
    flags = x.arg
    spec = None
    if flags & 4:
        spec = fr.stack.pop()
    v = fr.stack.pop()
    if flags & 3 == 2:
        v = app("repr", v, ty="str")
    elif flags & 3 == 3:
        v = app("ascii", v, ty="str")
    if spec is not None and not (is_k(spec) and kv(spec) == ""):
        if is_k(v) and is_k(spec):
            try:
                fr.stack.append(K(format(kv(v), kv(spec))))
                return None
            except Exception:
                pass
        if is_k(spec) and kv(spec) in ("d", "s"):
            fr.stack.append(tm.cat([v]))
        else:
            fr.stack.append(app("format", spec, v, ty="str"))
    else:
        fr.stack.append(tm.cat([v]))


@op("BUILD_SLICE")
def build_slice(e, st, fr, x):
    n = x.arg
    items = fr.stack[len(fr.stack) - n :]
    del fr.stack[len(fr.stack) - n :]
    if n == 2:
        items.append(NONE)
    fr.stack.append(mk("slice", *items))


def extend_items(e, st, ref, more):
    o = st.obj(ref)
    if o.items is None or more is None:
        attrs = {}
        n = e.length(st, ref)
        m = K(len(more)) if more is not None else st.fresh(sym("more", e.site_ctx(st), ty="int"))
        if more is None:
            st.assume(mk("lt0", m), False)
        if o.kind in ("list", "deque") and (o.items is not None or "n" in o.attrs):
            attrs["n"] = tm.add(n, m)
        if o.items is None and more and "elem" in o.attrs:
            attrs["elem"] = more[0] if len(more) == 1 and more[0] is o.attrs["elem"] else sym("elem-of", ref)
        st.heap[ref] = Obj(o.kind, o.cls, attrs, None)
    else:
        st.heap[ref] = o.with_items(o.items + tuple(more))


@op("LIST_APPEND", "SET_ADD")
def list_append(e, st, fr, x):
    v = fr.stack.pop()
    extend_items(e, st, fr.stack[-x.arg], (v,))


@op("MAP_ADD")
def map_add(e, st, fr, x):
    v = fr.stack.pop()
    k = fr.stack.pop()
    dict_set(e, st, fr.stack[-x.arg], k, v)


def dict_set(e, st, ref, k, v):
    o = st.obj(ref)
    if o.items is None:
        return
    items = [(a, b) for a, b in o.items if a is not k]
    if not is_k(k) and k.op not in ("tup", "fn", "cls", "ext") and len(items) == len(o.items) and items:
        st.heap[ref] = Obj("dict", o.cls, {}, None)
        return
    st.heap[ref] = o.with_items(tuple(items) + ((k, v),))


@op("LIST_EXTEND", "SET_UPDATE")
def list_extend(e, st, fr, x):
    v = fr.stack.pop()
    extend_items(e, st, fr.stack[-x.arg], seq_items(e, st, v))


@op("DICT_UPDATE", "DICT_MERGE")
def dict_update(e, st, fr, x):
    v = fr.stack.pop()
    ref = fr.stack[-x.arg]
    o = st.obj(v)
    if o is not None and o.kind == "dict" and o.items is not None:
        for k, w in o.items:
            dict_set(e, st, ref, k, w)
    else:
        t = st.obj(ref)
        st.heap[ref] = Obj("dict", t.cls, {}, None)


@op("UNPACK_SEQUENCE")
def unpack_sequence(e, st, fr, x):
    v = fr.stack.pop()
    n = x.arg
    items = seq_items(e, st, v)
    if items is None and v.op == "ref":
        o = st.obj(v)
        if o is not None and o.kind == "gen":
            return collect_gen(e, st, v, ("cont", "unpack", n))
    if items is not None:
        if len(items) != n:
            return e.error(st, "ValueError", K("wrong number of values to unpack"))
    else:
        items = [app("item", v, K(i)) for i in range(n)]
    for t in reversed(items):
        fr.stack.append(t)


@cont("unpack")
def cont_unpack(e, st, v, n):
    items = seq_items(e, st, v)
    if items is None:
        items = [app("item", v, K(i)) for i in range(n)]
    elif len(items) != n:
        return e.error(st, "ValueError", K("wrong number of values to unpack"))
    for t in reversed(items):
        st.frames[-1].stack.append(t)
    return [st]


def collect_gen(e, st, g, ret):
    """list(generator) through the prelude."""
    return e.call(st, e.prelude["$collect"], (g,), (), ret)


@op("UNPACK_EX")
def unpack_ex(e, st, fr, x):
    v = fr.stack.pop()
    before, after = x.arg & 0xFF, x.arg >> 8
    items = seq_items(e, st, v)
    if items is not None:
        if len(items) < before + after:
            return e.error(st, "ValueError", K("not enough values to unpack"))
        mid = items[before : len(items) - after]
        tail = items[len(items) - after :] if after else ()
        head = items[:before]
        r = new_obj(e, st, "list", mid)
    else:
        head = [app("item", v, K(i)) for i in range(before)]
        tail = [app("item", v, K(i - after)) for i in range(after)]
        r = new_obj(e, st, "list", None)
    fr = st.frames[-1]
    for t in reversed(tail):
        fr.stack.append(t)
    fr.stack.append(r)
    for t in reversed(head):
        fr.stack.append(t)


# ------------------------------------------------------------------ operators


@op("BINARY_OP")
def binary_op(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    o = x.repr.rstrip("=") if x.repr.endswith("=") else x.repr
    return e.models.binary(e, st, o, a, b, inplace=x.repr.endswith("="))


@op("BINARY_SUBSCR")
def binary_subscr(e, st, fr, x):
    k = fr.stack.pop()
    v = fr.stack.pop()
    return e.models.subscript(e, st, v, k)


@op("BINARY_SLICE")
def binary_slice(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    v = fr.stack.pop()
    return e.models.subscript(e, st, v, mk("slice", a, b, NONE))


@op("STORE_SUBSCR")
def store_subscr(e, st, fr, x):
    k = fr.stack.pop()
    c = fr.stack.pop()
    v = fr.stack.pop()
    return store_item(e, st, c, k, v)


@op("STORE_SLICE")
def store_slice(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    c = fr.stack.pop()
    v = fr.stack.pop()
    return store_item(e, st, c, mk("slice", a, b, NONE), v)


@op("DELETE_SUBSCR")
def delete_subscr(e, st, fr, x):
    k = fr.stack.pop()
    c = fr.stack.pop()
    if c.op == "ref":
        o = st.obj(c)
        if o is not None and o.items is not None and o.kind == "dict":
            st.heap[c] = o.with_items(tuple(i for i in o.items if i[0] is not k))
            return None
        if o is not None and o.items is not None and o.kind == "list" and tm.is_int(k):
            items = list(o.items)
            try:
                del items[kv(k)]
            except IndexError:
                return e.error(st, "IndexError")
            st.heap[c] = o.with_items(tuple(items))
            return None
        if o is not None and o.kind in ("list", "dict"):
            st.heap[c] = Obj(o.kind, o.cls, {}, None)
            return None
    return e.call_ext(st, ext("delitem"), ".__delitem__", c, (k,), (), ("drop",))


def store_item(e, st, c, k, v):
    if c.op == "ref":
        o = st.obj(c)
        if o is not None and o.kind == "dict":
            dict_set(e, st, c, k, v)
            return None
        if o is not None and o.kind == "list":
            if o.items is not None and tm.is_int(k) and -len(o.items) <= kv(k) < len(o.items):
                items = list(o.items)
                items[kv(k)] = v
                st.heap[c] = o.with_items(tuple(items))
            else:
                st.heap[c] = Obj("list", o.cls, {}, None)
            return None
        if o is not None and o.cls is not None:
            m = e.lookup(st, o.cls, "__setitem__")
            if m is not None:
                return e.call(st, m, (c, k, v), (), ("drop",))
    return e.call_ext(st, ext("setitem"), ".__setitem__", c, (k, v), (), ("drop",))


@op("UNARY_NOT")
def unary_not(e, st, fr, x):
    v = fr.stack.pop()
    out = []
    if v.op == "ref":
        for t, s in e.truth(st, v):
            s.frames[-1].stack.append(B(not t))
            out.append(s)
        return out
    a = e.truth_atom(st, v)
    fr.stack.append(B(not a) if isinstance(a, bool) else tm.not_(a))


@op("UNARY_NEGATIVE")
def unary_negative(e, st, fr, x):
    fr.stack.append(tm.neg(fr.stack.pop()))


@op("UNARY_INVERT")
def unary_invert(e, st, fr, x):
    v = fr.stack.pop()
    fr.stack.append(K(~kv(v)) if is_k(v) else app("~", v, ty="int"))


@op("COMPARE_OP")
def compare_op(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    return e.models.compare(e, st, x.val, a, b)


@op("IS_OP")
def is_op(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    r = is_atom(st, a, b)
    fr.stack.append(tm.not_(r) if x.arg else r)


def is_atom(st, a, b):
    if a is b:
        return tm.TRUE
    if is_k(a) and is_k(b):
        return B(kv(a) is kv(b) or (type(kv(a)) is type(kv(b)) and kv(a) == kv(b)))
    if is_k(a):
        a, b = b, a
    if is_k(b) and kv(b) is None:
        t = ty(a)
        if t is not None and t != "none" or a.op in ("exc", "tup", "ref", "bound", "ext"):
            return tm.FALSE
        return mk("is", a, NONE)
    if is_k(b) and isinstance(kv(b), bool):
        if ty(a) == "bool":
            return a if kv(b) else tm.not_(a)
    if a.op in ("ref", "cls", "fn", "mod", "ext") and b.op in ("ref", "cls", "fn", "mod", "ext"):
        return tm.FALSE
    if b.id < a.id and not is_k(b):
        a, b = b, a
    return mk("is", a, b)


@op("CONTAINS_OP")
def contains_op(e, st, fr, x):
    b = fr.stack.pop()
    a = fr.stack.pop()
    return e.models.contains(e, st, a, b, bool(x.arg))


# ------------------------------------------------------------------ jumps


@op("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def jump(e, st, fr, x):
    fr.pc = x.jump


@op("POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE")
def pop_jump(e, st, fr, x):
    v = fr.stack.pop()
    want = x.op == "POP_JUMP_IF_TRUE"
    out = []
    for t, s in e.truth(st, v):
        if t == want:
            s.frames[-1].pc = x.jump
        out.append(s)
    return out


@op("POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE")
def pop_jump_none(e, st, fr, x):
    v = fr.stack.pop()
    want = x.op == "POP_JUMP_IF_NONE"
    out = []
    for t, s in e.branch(st, is_atom(st, v, NONE)):
        if t == want:
            s.frames[-1].pc = x.jump
        out.append(s)
    return out


# ------------------------------------------------------------------ iteration


@op("GET_ITER")
def get_iter(e, st, fr, x):
    v = fr.stack.pop()
    it = e.make_iter(st, v)
    if it is None:
        o = st.obj(v)
        return e.call(st, e.lookup(st, o.cls, "__iter__"), (v,))
    st.frames[-1].stack.append(it)


@op("GET_YIELD_FROM_ITER")
def get_yield_from_iter(e, st, fr, x):
    return get_iter(e, st, fr, x)


@op("FOR_ITER")
def for_iter(e, st, fr, x):
    it = fr.stack[-1]
    o = st.obj(it) if it.op == "ref" else None
    # FOR_ITER jumps over END_FOR and drops the iterator when it is exhausted
    target = x.jump + 1
    if o is not None and o.kind == "gen":
        return e.resume(st, it, NONE, ("for", target))
    if o is not None and o.cls is not None:
        m = e.lookup(st, o.cls, "__next__")
        if m is not None:
            return e.call(st, m, (it,), (), ("cont", "fornext", target))
    out = []
    for s, v in e.iter_next(st, it):
        f = s.frames[-1]
        if isinstance(v, tuple):
            out += e.throw(s, v[1])
            continue
        if v is None:
            f.stack.pop()
            f.pc = target
        else:
            f.stack.append(v)
        out.append(s)
    return out


@cont("fornext")
def cont_fornext(e, st, v, target):
    st.frames[-1].stack.append(v)
    return [st]


@catch("fornext")
def catch_fornext(e, st, exc, target):
    if exc.op == "exc" and exc.args[0] is ext("StopIteration"):
        fr = st.frames[-1]
        fr.stack.pop()
        fr.pc = target
        return [st]
    return None


@op("YIELD_VALUE")
def yield_value(e, st, fr, x):
    v = fr.stack.pop()
    return e.gen_yield(st, v)


@op("SEND")
def send(e, st, fr, x):
    v = fr.stack.pop()
    it = fr.stack[-1]
    o = st.obj(it) if it.op == "ref" else None
    # when the sub-iterator ends, the result is pushed and control goes to END_SEND
    if o is not None and o.kind == "gen":
        return e.resume(st, it, v, ("send", x.jump))
    out = []
    for s, w in e.iter_next(st, it):
        f = s.frames[-1]
        if isinstance(w, tuple):
            out += e.throw(s, w[1])
            continue
        if w is None:
            f.stack.append(NONE)
            f.pc = x.jump
        else:
            f.stack.append(w)
        out.append(s)
    return out


@op("CLEANUP_THROW")
def cleanup_throw(e, st, fr, x):
    exc = fr.stack.pop()
    fr.stack.pop()
    fr.stack.pop()
    return e.throw(st, exc)


# ------------------------------------------------------------------ exceptions


@op("PUSH_EXC_INFO")
def push_exc_info(e, st, fr, x):
    exc = fr.stack.pop()
    fr.stack.append(st.exc)
    fr.stack.append(exc)
    st.exc = exc


@op("POP_EXCEPT")
def pop_except(e, st, fr, x):
    st.exc = fr.stack.pop()


@op("CHECK_EXC_MATCH")
def check_exc_match(e, st, fr, x):
    cls = fr.stack.pop()
    exc = fr.stack[-1]
    r = e.subclass(st, e.exc_class(st, exc), cls)
    if r is False and exc.op == "exc" and exc.args[0] is ext("OSError"):
        # a failed call may fail with any subclass
        for c in cls.args if cls.op == "tup" else (cls,):
            if c.op == "ext" and c is not ext("OSError") and ext("OSError") in e.mro(st, c):
                r = None
    if r is not None:
        fr.stack.append(B(r))
        return None
    a = mk("inst", exc, cls)
    out = []
    for t, s in e.branch(st, a):
        s.frames[-1].stack.append(B(t))
        out.append(s)
    return out


@op("RERAISE")
def reraise(e, st, fr, x):
    exc = fr.stack.pop()
    if x.arg:
        # restores the instruction pointer for tracebacks only
        pass
    return e.throw(st, exc)


@op("RAISE_VARARGS")
def raise_varargs(e, st, fr, x):
    if x.arg == 0:
        exc = st.exc
        if exc is NONE:
            return e.error(st, "RuntimeError", K("no active exception"))
        return e.throw(st, exc, True)
    if x.arg == 2:
        fr.stack.pop()
    v = fr.stack.pop()
    return raise_value(e, st, v)


def raise_value(e, st, v):
    if v.op in ("cls", "ext") and e.is_exc_class(st, v):
        return e.call(st, v, (), (), ("cont", "raise"))
    if v.op in ("exc", "ref", "sym", "prev", "phi", "attr", "app"):
        return e.throw(st, v, True)
    if v.op == "ext":
        return e.throw(st, e.make_exc(st, v.args[0]), True)
    e.mon.unresolved(st, "raise", tm.show(v))
    return e.error(st, "TypeError", K("exceptions must derive from BaseException"))


@cont("raise")
def cont_raise(e, st, v):
    return e.throw(st, v, True)


@op("BEFORE_WITH")
def before_with(e, st, fr, x):
    m = fr.stack.pop()
    if m.op == "ref":
        o = st.obj(m)
        if o is not None and o.cls is not None:
            ex = e.lookup(st, o.cls, "__exit__")
            en = e.lookup(st, o.cls, "__enter__")
            if ex is not None and en is not None:
                fr.stack.append(mk("bound", m, ex))
                return e.call(st, en, (m,))
            if not e.has_ext_base(st, o.cls):
                g = e.lookup(st, o.cls, "__getattr__")
                e.mon.unresolved(st, "attribute", "%s.__enter__" % kvname(o.cls))
                return e.error(st, "TypeError", K("not a context manager"))
    fr.stack.append(mk("meth", m, "__exit__"))
    return e.call_ext(st, mk("meth", m, "__enter__"), ".__enter__", m, (), (), ("push",))


@op("WITH_EXCEPT_START")
def with_except_start(e, st, fr, x):
    exc = fr.stack[-1]
    ex = fr.stack[-4]
    return e.call(
        st, ex, (e.exc_class(st, exc), exc, app("traceback", exc)), (), ("push",)
    )


@op("GET_LEN")
def get_len(e, st, fr, x):
    fr.stack.append(e.length(st, fr.stack[-1]))


@op("MATCH_SEQUENCE")
def match_sequence(e, st, fr, x):
    v = fr.stack[-1]
    o = st.obj(v) if v.op == "ref" else None
    fr.stack.append(B(v.op == "tup" or (o is not None and o.kind in ("list", "deque"))))


@op("MATCH_MAPPING")
def match_mapping(e, st, fr, x):
    v = fr.stack[-1]
    o = st.obj(v) if v.op == "ref" else None
    fr.stack.append(B(o is not None and o.kind == "dict"))


@op("MATCH_CLASS")
def match_class(e, st, fr, x):
    names = fr.stack.pop()
    cls = fr.stack.pop()
    v = fr.stack.pop()
    r = e.models.isinstance_(e, st, v, cls)
    out = []
    for t, s in e.branch(st, r):
        if not t:
            s.frames[-1].stack.append(NONE)
        else:
            vals = []
            for n in names.args:
                o = s.obj(v)
                a = o.attrs.get(kv(n)) if o is not None else None
                vals.append(a if a is not None else mk("attr", v, kv(n)))
            if x.arg == 1 and not names.args:
                vals = [v]
            s.frames[-1].stack.append(tup(vals))
        out.append(s)
    return out
