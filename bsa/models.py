"""Models of the Python built-ins and of the parts of the standard library the analysed
program uses.  A model gives the abstract result of a call; everything without a model
returns an unknown value (recorded with the call it came from)."""

import builtins
import os.path
import re

from . import terms as tm
from .ops import build_class, dict_set, extend_items, new_obj, raise_value, seq_items
from .engine import canonical, kvname, pyclass, MAKE, CONT, CATCH
from .state import Obj
from .terms import B, K, NONE, T, app, ext, is_k, kv, mk, sym, tup, ty

MODELS = {}
METHODS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f

    return deco


def method(kinds, *names):
    def deco(f):
        for k in kinds.split():
            for n in names:
                METHODS[(k, n)] = f
        return f

    return deco


# ------------------------------------------------------------------ kinds and types


def kind(st, v):
    """What sort of object a value is: container kind or type."""
    if v.op == "ref":
        o = st.obj(v)
        if o is not None:
            return o.kind
        return "ref"
    return ty(v)


RESULT = {
    "open": "file",
    "os.fdopen": "file",
    "tempfile.TemporaryFile": "file",
    "tempfile.NamedTemporaryFile": "file",
    "tempfile.SpooledTemporaryFile": "file",
    "io.FileIO": "file",
    "io.BytesIO": "file",
    "io.StringIO": "file",
    "io.BufferedReader": "file",
    "io.TextIOWrapper": "file",
    "subprocess.Popen": "proc",
    "subprocess.run": "proc",
    "subprocess.call": "int",
    "os.open": "int",
    "os.lseek": "int",
    "os.write": "int",
    "os.fstat": "stat",
    "os.stat": "stat",
    "os.lstat": "stat",
    "os.read": "bytes",
    "os.system": "int",
    "os.getpid": "int",
    "os.path.exists": "bool",
    "os.path.isfile": "bool",
    "os.path.isdir": "bool",
    "os.path.lexists": "bool",
    "os.path.islink": "bool",
    "os.path.getsize": "int",
    "os.access": "bool",
    "os.isatty": "bool",
    "os.path.realpath": "str",
    "os.path.abspath": "str",
    "os.getcwd": "str",
    "os.getenv": None,
    "shutil.which": None,
    "time.time": "float",
    "time.monotonic": "float",
    "fcntl.ioctl": None,
    "xml.etree.ElementTree.parse": "xml",
    "xml.etree.ElementTree.fromstring": "xml",
    "mmap.mmap": "mmap",
    "array.array": "array",
    "datetime.datetime.now": "date",
    "datetime.timedelta": "date",
    "urllib.parse.urlparse": "url",
    "urllib.parse.urlsplit": "url",
    "urllib.parse.urlunparse": "str",
    "urllib.request.build_opener": "obj",
    "logging.getLogger": "logger",
    "threading.Lock": "obj",
    "threading.RLock": "obj",
    "threading.Event": "obj",
    "gpg.Context": "gpg",
    "netrc.netrc": "obj",
    "traceback.format_exc": "str",
    "struct.unpack": "tuple",
    "struct.unpack_from": "tuple",
    "struct.iter_unpack": None,
    "struct.pack": "bytes",
    "struct.calcsize": "int",
    "random.random": "float",
    "id": "int",
    "input": "str",
    "bytearray": "bytes",
}

METHOD_RESULT = {
    ".fileno": "int",
    ".isatty": "bool",
    ".hexdigest": "str",
    ".digest": "bytes",
    ".getroot": "xml",
    ".findall": "xmllist",
    ".qsize": "int",
    ".is_alive": "bool",
    ".is_set": "bool",
    ".total_seconds": "float",
    ".getstring": "str",
    ".getvalue": None,
    ".seekable": "bool",
    ".readable": "bool",
    ".writable": "bool",
    ".start": "none",
    ".flush": "none",
    ".close": "none",
    ".task_done": "none",
    ".put": "none",
    ".kill": "none",
    ".terminate": "none",
    ".join": None,
}

# functions of their arguments only: equal arguments, equal results
PURE = {
    "os.major", "os.minor", "stat.S_ISREG", "stat.S_ISBLK", "stat.S_ISCHR", "stat.S_ISFIFO",
    "stat.S_ISDIR", "stat.S_ISSOCK", "stat.S_ISLNK", "stat.S_IMODE", "struct.calcsize",
    "os.path.basename", "os.path.dirname", "os.path.join", "os.path.splitext",
    "os.path.normpath", "os.path.split", "os.path.isabs", "os.path.relpath", "os.path.commonprefix",
    "os.fspath", "os.fsencode", "os.fsdecode", "shlex.quote", "struct.pack",
    "divmod", "abs", "round", "ord", "chr", "hex", "oct", "bin", "repr", "ascii", "hash", "float",
    "bytes", "format", "urllib.parse.urlparse", "urllib.parse.urlsplit", "re.escape", "re.compile",
    "re.match", "re.fullmatch", "re.search", "re.split", "re.sub", "re.findall",
    "logging.getLogger", "datetime.timedelta", "str", "math.ceil", "math.floor", "complex", "pow",
}
PURE_TY = {
    "os.major": "int", "os.minor": "int", "stat.S_IMODE": "int", "struct.calcsize": "int",
    "abs": "int", "ord": "int", "chr": "str", "hex": "str", "oct": "str", "bin": "str",
    "repr": "str", "ascii": "str", "hash": "int", "float": "float", "bytes": "bytes",
    "format": "str", "os.path.basename": "str", "os.path.dirname": "str", "os.path.join": "str",
    "os.path.normpath": "str", "os.path.isabs": "bool", "os.path.relpath": "str",
    "shlex.quote": "str", "struct.pack": "bytes", "re.escape": "str", "re.compile": "regex",
    "stat.S_ISREG": "bool", "stat.S_ISBLK": "bool", "stat.S_ISCHR": "bool",
    "stat.S_ISFIFO": "bool", "stat.S_ISDIR": "bool", "stat.S_ISSOCK": "bool",
    "stat.S_ISLNK": "bool", "urllib.parse.urlparse": "url", "urllib.parse.urlsplit": "url",
    "logging.getLogger": "logger", "datetime.timedelta": "date", "re.sub": "str",
    "math.ceil": "int", "math.floor": "int", "round": None,
}

PURE_METHOD = {
    # of strings
    "strip": None, "lstrip": None, "rstrip": None, "lower": None, "upper": None, "encode": "bytes",
    "decode": "str", "replace": None, "startswith": "bool", "endswith": "bool", "find": "int",
    "rfind": "int", "index": "int", "count": "int", "isdigit": "bool", "isspace": "bool",
    "join": None, "format": "str", "split": "strlist", "splitlines": "strlist", "rsplit": "strlist",
    "title": None, "capitalize": None, "zfill": None, "ljust": None, "rjust": None, "center": None,
    "partition": "strlist", "rpartition": "strlist", "expandtabs": None, "swapcase": None,
    "isalpha": "bool", "isalnum": "bool", "isdecimal": "bool", "isnumeric": "bool", "casefold": None,
    "removeprefix": None, "removesuffix": None, "hex": "str", "bit_length": "int", "as_integer_ratio": None,
    "isupper": "bool", "islower": "bool", "translate": None, "to_bytes": "bytes",
    "format_map": "str", "is_integer": "bool",
}

# methods of opaque values that do not change anything and depend on the value only
PURE_OPAQUE = {
    ".fileno": "int", ".getroot": "xml", ".find": None, ".findall": "xmllist", ".findtext": None,
    ".iter": "xmllist", ".iterfind": "xmllist",
    ".group": None, ".groups": None, ".total_seconds": "float", ".getstring": "str", ".strip": "str",
    ".lower": None, ".upper": None, ".lstrip": "str", ".rstrip": "str", ".encode": "bytes",
    ".decode": "str", ".startswith": "bool", ".endswith": "bool", ".replace": None,
    ".split": "strlist", ".rsplit": "strlist", ".splitlines": "strlist", ".isdigit": "bool",
    ".get": None, ".items": None, ".keys": None, ".values": None,
    ".match": None, ".fullmatch": None, ".search": None, ".start": None, ".end": None, ".span": None,
    ".partition": "strlist",
}

ATTR_TY = {
    "st_mode": "int", "st_size": "int", "st_rdev": "int", "st_blksize": "int", "st_dev": "int",
    "st_ino": "int", "errno": "int", "strerror": "str", "lineno": "int", "filename": "str",
    "msg": "str", "attrib": "dict?", "path": "str", "scheme": "str", "stdin": "file",
    "stdout": "file", "stderr": "file", "summary": "int", "buffer": "file", "st_blocks": "int",
    "tag": "str", "fpr": "str", "position": "tuple?",
}


def attribute(e, st, v, name):
    """A data attribute of an opaque value, or None (then it is 'attr')."""
    if v.op == "exc":
        if name == "args":
            return tup(v.args[1])
        if name == "code" and v.args[0] is ext("SystemExit"):
            return v.args[1][0] if v.args[1] else NONE
        if name == "with_traceback" or name == "__traceback__":
            return None
        if name == "value" and v.args[0] is ext("StopIteration"):
            return v.args[1][0] if v.args[1] else NONE
        if name == "errno" and len(v.args[1]) > 1:
            return v.args[1][0]
    if name == "__class__":
        return type_of(e, st, v)
    if name in ATTR_TY:
        t = ATTR_TY[name]
        if ty(v) in ("file", "logger") and name in ("path", "filename"):
            t = None
        return app("." + name, v, ty=t if t and not t.endswith("?") else None)
    return None


def elem_type(e, st, src):
    t = ty(src)
    if t == "xmllist" or t == "xml":
        return "xml"
    if t == "strlist":
        base = src.args[1][0] if src.op == "app" else None
        return ty(base) if base is not None and ty(base) in ("str", "bytes") else "str"
    if t == "bytes":
        return "int"
    if t == "str":
        return "str"
    return None


def type_of(e, st, v):
    if v.op == "exc":
        return v.args[0]
    if v.op == "ref":
        o = st.obj(v)
        if o is not None and o.cls is not None:
            return o.cls
        if o is not None and o.kind in ("list", "dict", "set"):
            return ext(o.kind)
    t = ty(v)
    if t in ("int", "str", "bytes", "float", "bool", "tuple"):
        return ext(t)
    if t == "none":
        return ext("NoneType")
    return app("type", v, ty="class")


# ------------------------------------------------------------------ dispatch


def find(e, st, ev):
    n = ev.name
    if n.startswith(".") and ev.recv is not None:
        k = kind(st, ev.recv)
        m = METHODS.get((k, n[1:]))
        if m is None:
            m = METHODS.get(("*", n[1:]))
        return m
    return MODELS.get(n)


def default(e, st, ev):
    n = ev.name
    args = ev.args
    if any(a.op == "star" for a in args):
        pure = False
    else:
        pure = True
    if not n.startswith(".") and n != "()":
        if n in PURE and pure:
            return app(n, *args, *[tup((K(k), v)) for k, v in ev.kw], ty=PURE_TY.get(n))
        t = RESULT.get(n)
    else:
        k = kind(st, ev.recv)
        if k in ("str", "bytes", "int", "float") and n[1:] in PURE_METHOD:
            t = PURE_METHOD[n[1:]]
            if t is None:
                t = k if k in ("str", "bytes") else None
            return app(n, ev.recv, *args, *[tup((K(x), y)) for x, y in ev.kw], ty=t)
        if n in PURE_OPAQUE and k not in ("file", "proc", "ref", "obj", "mmap", "array", "queue", "hash"):
            t = PURE_OPAQUE[n]
            return app(n, ev.recv, *args, *[tup((K(x), y)) for x, y in ev.kw], ty=t)
        if n == ".fileno":
            return app(n, ev.recv, ty="int")
        t = METHOD_RESULT.get(n)
        if t == "none":
            return NONE
    v = st.fresh(sym("result of " + n, e.site_ctx(st), ty=t))
    st.meta[v] = app("call:" + n, *(((ev.recv,) if ev.recv is not None else ()) + tuple(args) + tuple(x for _, x in ev.kw)))
    return v


def origin(st, v):
    """(name, args) of the call an unknown value came from, or None."""
    m = st.meta.get(v)
    if m is not None and m.op == "app" and m.args[0].startswith("call:"):
        return m.args[0][5:], m.args[1]
    return None


# ------------------------------------------------------------------ operators


def push(st, v):
    st.frames[-1].stack.append(v)
    return None


def numeric(t):
    return ty(t) in ("int", "bool", "float")


def strish(t):
    return ty(t) == "str"


SYMBOL = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "/": lambda a, b: a / b,
    "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "&": lambda a, b: a & b,
    "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "**": lambda a, b: a ** b,
}

DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "//": "__floordiv__",
          "%": "__mod__", "|": "__or__", "&": "__and__"}


def type_error(e, st, what):
    e.mon.unresolved(st, "operator", what)
    return e.error(st, "TypeError", K(what))


def binary(e, st, op, a, b, inplace=False):
    if a.op == "ref" and DUNDER.get(op):
        o = st.obj(a)
        if o is not None and o.cls is not None:
            f = None
            if inplace:
                f = e.lookup(st, o.cls, "__i" + DUNDER[op][2:])
            f = f or e.lookup(st, o.cls, DUNDER[op])
            if f is not None:
                return e.call(st, f, (a, b))
    if is_k(a) and is_k(b):
        x, y = kv(a), kv(b)
        if x is None or y is None:
            if op != "%" or not isinstance(x, (str, bytes)):
                return type_error(e, st, "unsupported operand types for %s" % op)
        elif op == "%" and isinstance(x, str):
            pass
        elif op in ("<<", "**") and isinstance(y, int) and abs(y) > 256 or (
            op == "*" and isinstance(x, (str, bytes)) and isinstance(y, int) and y > 4096
        ):
            return push(st, app(op, a, b, ty=ty(a)))
        else:
            try:
                r = SYMBOL[op](x, y)
                return push(st, tup([K(i) for i in r]) if isinstance(r, tuple) else K(r))
            except ZeroDivisionError:
                return e.error(st, "ZeroDivisionError")
            except TypeError as err:
                return type_error(e, st, str(err))
            except Exception:
                pass
    ka, kb = kind(st, a), kind(st, b)
    if op == "%" and (ka == "str" or (ka == "bytes")):
        return format_percent(e, st, a, b)
    if op == "+":
        if ka == "str" or kb == "str":
            other = kb if ka == "str" else ka
            if other in ("int", "float", "bytes", "none", "bool", "tuple", "list", "file"):
                return type_error(e, st, "can only concatenate str (not %s) to str" % other)
            return push(st, tm.cat([a, b]))
        if ka == "bytes" and kb in ("bytes", None):
            return push(st, app("bytes+", a, b, ty="bytes"))
        if ka == "list":
            items = seq_items(e, st, a)
            more = seq_items(e, st, b)
            if inplace:
                extend_items(e, st, a, more)
                return push(st, a)
            r = new_obj(e, st, "list", ())
            if items is not None and more is not None:
                # allocation may rename: read again
                items = seq_items(e, st, a)
                more = seq_items(e, st, b)
                st.heap[r] = Obj("list", items=tuple(items) + tuple(more))
            else:
                st.heap[r] = Obj("list")
            return push(st, r)
        if ka == "tuple" and a.op == "tup" and b.op == "tup":
            return push(st, tup(a.args + b.args))
        if ka == "none" or kb == "none":
            return type_error(e, st, "unsupported operand type for +: None")
        return push(st, tm.add(a, b))
    if op == "*":
        for x, y in ((a, b), (b, a)):
            k = kind(st, x)
            if k == "list":
                r = new_obj(e, st, "list", None)
                its = seq_items(e, st, x)
                if its is not None and len(set(its)) == 1:
                    st.heap[r] = Obj("list", attrs={"elem": its[0], "n": tm.mul(K(len(its)), y)})
                return push(st, r)
            if k in ("str", "bytes"):
                return push(st, app("repeat", x, y, ty=k))
            if x.op == "tup":
                if tm.is_int(y) and kv(y) * len(x.args) < 500:
                    return push(st, tup(x.args * max(0, kv(y))))
                return push(st, app("repeat", x, y, ty="tuple"))
        return push(st, tm.mul(a, b))
    if ka == "none" or kb == "none":
        return type_error(e, st, "unsupported operand type for %s: None" % op)
    if op in ("-", "*", "/", "//", "%", "<<", ">>") and ("str" in (ka, kb) or "bytes" in (ka, kb)):
        return type_error(e, st, "unsupported operand types for %s" % op)
    if op == "-":
        if ka == "set":
            return push(st, st.fresh(sym("set", e.site_ctx(st))))
        r = tm.sub(a, b)
        return push(st, r)
    if op in ("//", "%") and is_k(b) and kv(b) == 0:
        return e.error(st, "ZeroDivisionError")
    if op in ("/", "//", "%") and e.mon.malformed and not is_k(b) and kb == "int" and st.decide(tm.eq0(b)) is not False:
        # nothing is assumed about the numbers: the divisor may be zero
        s2 = st.clone()
        out = []
        if s2.assume(tm.eq0(b), True):
            out = e.error(s2, "ZeroDivisionError")
        if not st.assume(tm.eq0(b), False):
            return out
        rest = binary(e, st, op, a, b)
        return out + ([st] if rest is None else rest)
    if op == "//":
        return push(st, quotient(st, a, b))
    if op == "%":
        return push(st, tm.mod(a, b))
    if op == "/":
        if is_k(b) and kv(b) == 0:
            return e.error(st, "ZeroDivisionError")
        return push(st, app("/", a, b, ty="float"))
    if op == "<<" and tm.is_int(b) and 0 <= kv(b) < 256:
        return push(st, tm.mul(a, K(1 << kv(b))))
    if op == ">>" and tm.is_int(b) and 0 <= kv(b) < 256:
        return push(st, tm.floordiv(a, K(1 << kv(b))))
    if op in ("&", "|", "^"):
        if ty(a) == "bool" and ty(b) == "bool":
            out = []
            for t, s in e.truth(st, a):
                if (op == "&" and not t) or (op == "|" and t):
                    s.frames[-1].stack.append(B(t))
                else:
                    s.frames[-1].stack.append(b if op != "^" or not t else tm.not_(b))
                out.append(s)
            return out
        if op == "|" and "dict" in (ka, kb):
            return push(st, st.fresh(sym("dict", e.site_ctx(st))))
        x, y = (a, b) if a.id <= b.id else (b, a)
        return push(st, app(op, x, y, ty="int" if (numeric(a) or numeric(b)) else None))
    return push(st, app(op, a, b, ty="int" if ty(a) == "int" and op != "**" else None))


SPEC = re.compile(r"%(?:\((?P<name>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)", re.S)


def format_percent(e, st, f, arg):
    t = ty(f)
    if not is_k(f):
        if f.op == "cat" or True:
            # the format string is not fully known
            return push(st, app("%fmt", f, arg, ty=t))
    s = kv(f)
    if not isinstance(s, str):
        return push(st, app("%fmt", f, arg, ty="bytes"))
    if arg.op == "tup":
        args = list(arg.args)
    elif is_k(arg) and arg.args[0] == "tuple":
        args = [K(x) for x in kv(arg)]
    else:
        args = [arg]
    named = bool(re.search(r"%\(", s))
    parts = []
    pos = 0
    i = 0

    def bad(msg):
        e.mon.badformat(st, s, msg)
        return e.error(st, "TypeError", K(msg))

    while True:
        m = s.find("%", pos)
        if m < 0:
            parts.append(K(s[pos:]))
            break
        if m > pos:
            parts.append(K(s[pos:m]))
        x = SPEC.match(s, m)
        if not x:
            e.mon.badformat(st, s, "incomplete format")
            return e.error(st, "ValueError", K("incomplete format"))
        pos = x.end()
        c = x.group("conv")
        if c == "%":
            parts.append(K("%"))
            continue
        if c not in "diouxXeEfFgGcrsa":
            e.mon.badformat(st, s, "unsupported format character %r" % c)
            return e.error(st, "ValueError", K("unsupported format character"))
        if x.group("name") is not None:
            o = st.obj(arg) if arg.op == "ref" else None
            v = None
            if o is not None and o.items is not None:
                for k, w in o.items:
                    if k is K(x.group("name")):
                        v = w
                if v is None:
                    e.mon.badformat(st, s, "missing key %s" % x.group("name"))
                    return e.error(st, "KeyError", K(x.group("name")))
            else:
                v = app("item", arg, K(x.group("name")))
        else:
            if x.group("width") == "*":
                i += 1
            if x.group("prec") == "*":
                i += 1
            if i >= len(args):
                return bad("not enough arguments for format string")
            v = args[i]
            i += 1
        vt = kind(st, v)
        plain = not x.group("flags") and not x.group("width") and x.group("prec") is None
        if c in "diuoxXeEfFgGc":
            if vt in ("str", "bytes", "none", "list", "dict", "tuple", "file", "class", "function", "exc", "proc") and not (
                c == "c" and vt in ("str",)
            ) or v.op in ("exc", "tup"):
                return bad("%%%s format: a number is required, not %s" % (c, vt))
        if c in "diu" and plain:
            if is_k(v) and isinstance(kv(v), (int, float)):
                parts.append(K(str(int(kv(v)))))
            elif vt == "float":
                parts.append(app("int", v, ty="int"))
            else:
                parts.append(v)
        elif c == "s" and plain:
            parts.append(v)
        elif is_k(v) and not (x.group("width") == "*" or x.group("prec") == "*") and x.group("name") is None:
            try:
                parts.append(K(s[m:pos] % (kv(v),)))
            except Exception:
                parts.append(app("fmt", K(s[m:pos]), v, ty="str"))
        else:
            parts.append(app("fmt", K(s[m:pos]), v, ty="str"))
    if not named and i < len(args) and not (arg.op != "tup" and kind(st, arg) in ("dict",)):
        if arg.op == "tup" or i == 0 and args:
            return bad("not all arguments converted during string formatting")
    return push(st, tm.cat(parts))


def index_const(e, st, items, k, what):
    i = kv(k)
    if -len(items) <= i < len(items):
        return push(st, items[i])
    return e.error(st, "IndexError", K("%s index out of range" % what))


def slice_const(k):
    out = []
    for x in k.args:
        if not is_k(x) or not (kv(x) is None or isinstance(kv(x), int)):
            return None
        out.append(kv(x))
    return slice(*out)


def subscript(e, st, v, k):
    if v.op == "tup" or (is_k(v) and v.args[0] in ("str", "bytes", "tuple")):
        items = v.args if v.op == "tup" else None
        if tm.is_int(k) or (is_k(k) and k.args[0] == "bool"):
            if items is not None:
                return index_const(e, st, items, k, "tuple")
            c = kv(v)
            if -len(c) <= kv(k) < len(c):
                return push(st, K(c[kv(k)]))
            return e.error(st, "IndexError")
        if k.op == "slice":
            s = slice_const(k)
            if s is not None:
                if items is not None:
                    return push(st, tup(items[s]))
                return push(st, K(kv(v)[s]))
        if items is not None and ty(k) in ("int", "bool", None) and 0 < len(items) <= 8:
            # a table indexed by something unknown
            out = []
            for i, x in enumerate(items):
                s2 = st.clone()
                if s2.assume(tm.eq(k, K(i))):
                    s2.frames[-1].stack.append(x)
                    out.append(s2)
            return out
    if v.op == "ref":
        o = st.obj(v)
        if o is not None:
            if o.kind in ("list", "deque", "obj") and o.items is not None and (o.kind != "obj" or o.cls is None or e.lookup(st, o.cls, "__getitem__") is None):
                if tm.is_int(k):
                    return index_const(e, st, o.items, k, "list")
                if k.op == "slice":
                    s = slice_const(k)
                    if s is not None:
                        its = o.items[s]
                        if o.kind == "obj":
                            return push(st, tup(its))
                        r = new_obj(e, st, "list", ())
                        st.heap[r] = Obj("list", items=tuple(st.obj(v).items[s]))
                        return push(st, r)
            if o.kind == "dict" and o.items is not None:
                return dict_get(e, st, v, k, None, True)
            if o.kind in ("list", "deque") and o.items is None and k.op != "slice":
                el = o.attrs.get("elem")
                if el is not None and el.op != "sym":
                    return push(st, el)
                return push(st, st.fresh(sym("elem", e.site_ctx(st))))
            if o.cls is not None:
                m = e.lookup(st, o.cls, "__getitem__")
                if m is not None:
                    return e.call(st, m, (v, k))
    if v.op in ("cls", "ext") and v.op != "ext" or (v.op == "ext" and (v.args[0].startswith("typing.") or v.args[0] in ("list", "dict", "tuple", "set", "type"))):
        return push(st, v)
    if is_k(v) and kv(v) is None:
        return type_error(e, st, "'NoneType' object is not subscriptable")
    return e.call_ext(st, mk("meth", v, "__getitem__"), ".__getitem__", v, (k,), (), ("push",))


@method("*", "__getitem__")
def m_getitem(e, st, ev, ret):
    v, k = ev.recv, ev.args[0]
    t = ty(v)
    if k.op == "slice":
        if t in ("array", "mmap"):
            r = st.fresh(sym("slice", e.site_ctx(st), ty="bytes"))
            st.meta[r] = app("slice", v, *k.args)
            return r
        return app("slice", v, *k.args, ty=t if t in ("str", "bytes", "strlist", "tuple") else None)
    rt = None
    if t in ("str",):
        rt = "str"
    elif t == "bytes":
        rt = "int"
    elif t == "strlist":
        rt = elem_type(e, st, v)
    elif v.op == "ext" and v.args[0] == "os.environ":
        rt = "str"
    if t in ("array", "mmap"):
        r = st.fresh(sym("item", e.site_ctx(st), ty="int"))
        st.meta[r] = app("item", v, k)
        return r
    if t in ("tuple",) and v.op in ("sym", "app", "prev", "phi"):
        src = origin(st, v)
        if src is not None and src[0].startswith("struct."):
            rt = "int"
    return app("item", v, k, ty=rt)


def dict_get(e, st, v, k, dflt, strict):
    """Successor states for a look-up in a dict with known items."""
    o = st.obj(v)
    for a, b in o.items:
        if a is k:
            return push(st, b)
    if is_k(k) or k.op in ("cls", "fn", "ext"):
        if all(is_k(a) or a.op in ("cls", "fn", "ext") for a, _ in o.items):
            if strict:
                return e.error(st, "KeyError", k)
            return push(st, dflt)
    if len(o.items) <= 48:
        out = []
        rest = st.clone()
        dead = False
        for a, b in o.items:
            at = tm.eq(k, a)
            s2 = rest.clone()
            if s2.assume(at):
                s2.frames[-1].stack.append(b)
                out.append(s2)
            if not rest.assume(at, False):
                dead = True
                break
        if not dead:
            if strict:
                out += e.error(rest, "KeyError", k)
            else:
                rest.frames[-1].stack.append(dflt)
                out.append(rest)
        return out
    return push(st, app("item", v, k))


def quotient(st, a, b):
    """a // b, simplified with what is known about b."""
    if not is_k(b) and st.positive(b):
        lead = [c for m, c in tm.to_poly(a).items() if m != ()]
        if lead and all(c < 0 for c in lead):
            # -(n) // b == -((n + b - 1) // b)
            return tm.neg(quotient(st, tm.sub(tm.add(tm.neg(a), b), tm.ONE), b))
    q = tm.floordiv(a, b)
    x = app("//", K(-1), b, ty="int")
    if st.positive(b) and any(x in m for m in tm.to_poly(q)):
        # -1 // b == -1
        q = tm.from_poly(tm.p_add(tm.to_poly(q), {(): -tm.to_poly(q)[(x,)], (x,): -tm.to_poly(q)[(x,)]}))
    elif is_k(b) and kv(b) > 0:
        lead = [c for m, c in tm.to_poly(a).items() if m != ()]
        if lead and all(c < 0 for c in lead):
            return tm.neg(tm.floordiv(tm.add(tm.neg(a), K(kv(b) - 1)), b))
    return q


def compare(e, st, name, a, b):
    name = name.strip()
    for x, y in ((a, b), (b, a)):
        if x.op == "ref" and name in ("==", "!="):
            o = st.obj(x)
            if o is not None and o.cls is not None:
                m = e.lookup(st, o.cls, "__eq__")
                if m is not None:
                    return e.call(st, m, (x, y))
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return compare_tuples(e, st, name, a.args, b.args)
    if name in ("==", "!="):
        r = equal(e, st, a, b)
        return push(st, r if name == "==" else tm.not_(r))
    if is_k(a) and is_k(b):
        x, y = kv(a), kv(b)
        try:
            return push(st, B({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[name]))
        except TypeError as err:
            return type_error(e, st, str(err))
    ka, kb = kind(st, a), kind(st, b)
    if ka == "none" or kb == "none":
        return type_error(e, st, "'%s' not supported with None" % name)
    if {ka, kb} & {"str", "bytes"} and {ka, kb} & {"int", "float"}:
        return type_error(e, st, "'%s' not supported between %s and %s" % (name, ka, kb))
    if {ka, kb} & {"str", "bytes", "tuple", "list"}:
        if name in (">", "<="):
            a, b = b, a
        r = mk("truth", app("cmp<", a, b))
        return push(st, r if name in ("<", ">") else tm.not_(r))
    if name == "<":
        return push(st, tm.lt(a, b))
    if name == ">":
        return push(st, tm.lt(b, a))
    if name == "<=":
        return push(st, tm.not_(tm.lt(b, a)))
    return push(st, tm.not_(tm.lt(a, b)))


def compare_tuples(e, st, name, xs, ys):
    """Lexicographic comparison, element by element."""
    out = []
    todo = [(st, 0)]
    while todo:
        s, i = todo.pop()
        if i == len(xs):
            push(s, B(name in ("==", "<=", ">=")))
            out.append(s)
            continue
        x, y = xs[i], ys[i]
        for same_, s2 in e.branch(s, equal(e, s, x, y)):
            if same_:
                todo.append((s2, i + 1))
            elif name in ("==", "!="):
                push(s2, B(name == "!="))
                out.append(s2)
            elif is_k(x) and is_k(y):
                push(s2, B((kv(x) < kv(y)) == (name in ("<", "<="))))
                out.append(s2)
            else:
                for less, s3 in e.branch(s2, tm.lt(x, y)):
                    push(s3, B(less == (name in ("<", "<="))))
                    out.append(s3)
    return out


def equal(e, st, a, b):
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        rs = [equal(e, st, x, y) for x, y in zip(a.args, b.args)]
        if any(r is tm.FALSE for r in rs):
            return tm.FALSE
        rs = [r for r in rs if r is not tm.TRUE]
        if not rs:
            return tm.TRUE
        if len(rs) == 1:
            return rs[0]
    if a.op == "ref" and b.op == "ref" and a is not b:
        x, y = st.obj(a), st.obj(b)
        if x is not None and y is not None and x.kind == y.kind == "list" and x.items is not None and y.items is not None:
            return equal(e, st, tup(x.items), tup(y.items))
    la, lb = seq_len(e, st, a), seq_len(e, st, b)
    if la is not None and lb is not None and {kind(st, a), kind(st, b)} == {"list"} and la != lb:
        return tm.FALSE
    if ty(a) == "bool" and is_k(b) and isinstance(kv(b), bool):
        return a if kv(b) else tm.not_(a)
    if ty(b) == "bool" and is_k(a) and isinstance(kv(a), bool):
        return b if kv(a) else tm.not_(b)
    return tm.eq(a, b)


def seq_len(e, st, v):
    it = seq_items(e, st, v)
    return None if it is None else len(it)


def contains(e, st, a, b, invert):
    items = seq_items(e, st, b)
    sb = is_k(b) and isinstance(kv(b), (str, bytes))
    if sb:
        if is_k(a):
            try:
                return push(st, B((kv(a) in kv(b)) != invert))
            except TypeError as err:
                return type_error(e, st, str(err))
        items = None
    if b.op == "ref" and items is None:
        o = st.obj(b)
        if o is not None and o.cls is not None:
            m = e.lookup(st, o.cls, "__contains__")
            if m is not None:
                return e.call(st, m, (b, a), (), ("cont", "boolres", invert))
    if items is not None and len(items) <= 60:
        out = []
        rest = st
        for x in items:
            at = equal(e, rest, a, x)
            d = rest.decide(at) if not is_k(at) else bool(kv(at))
            if d is False:
                continue
            if d is True:
                rest.frames[-1].stack.append(B(not invert))
                out.append(rest)
                return out
            s2 = rest.clone()
            if s2.assume(at):
                s2.frames[-1].stack.append(B(not invert))
                out.append(s2)
            rest.assume(at, False)
        rest.frames[-1].stack.append(B(invert))
        out.append(rest)
        return out
    if is_k(b) and kv(b) is None:
        return type_error(e, st, "argument of type 'NoneType' is not iterable")
    if is_k(a) and kv(a) is None and b.op == "app" and b.args[0] == ".attrib":
        return push(st, B(invert))
    r = mk("in", a, b)
    return push(st, tm.not_(r) if invert else r)


PYTY = {"int": int, "str": str, "bytes": bytes, "float": float, "bool": bool, "tuple": tuple, "none": type(None)}


def isinstance_(e, st, v, cls):
    """The atom (or constant) for isinstance(v, cls)."""
    classes = list(cls.args) if cls.op == "tup" else [cls]
    if len(classes) > 1:
        rs = [isinstance_(e, st, v, c) for c in classes]
        if any(r is tm.TRUE for r in rs):
            return tm.TRUE
        rs = [r for r in rs if r is not tm.FALSE]
        if not rs:
            return tm.FALSE
        return rs[0] if len(rs) == 1 else mk("inst", v, cls)
    c = classes[0]
    if c.op == "ext" and c.args[0] == "object":
        return tm.TRUE
    o = st.obj(v) if v.op == "ref" else None
    if v.op == "exc" or (o is not None and o.cls is not None):
        r = e.subclass(st, e.exc_class(st, v) if v.op == "exc" else o.cls, c)
        if r is not None:
            return B(r)
        return mk("inst", v, c)
    if o is not None and o.kind in ("list", "dict", "set") and c.op == "ext":
        return B(c.args[0] == o.kind)
    t = ty(v)
    if t in PYTY and c.op == "ext":
        p = getattr(builtins, c.args[0], None) if c.args[0] != "NoneType" else type(None)
        if isinstance(p, type):
            return B(issubclass(PYTY[t], p))
        if c.args[0].endswith(("string_types", "text_type")):
            return B(t == "str")
        return tm.FALSE
    if t in PYTY and c.op == "cls":
        return tm.FALSE
    if t in ("file", "proc", "hash", "xml", "date") and (c.op == "cls" or (c.op == "ext" and "." not in c.args[0])):
        return tm.FALSE
    return mk("inst", v, c)


# ------------------------------------------------------------------ built-in functions


@model("__build_class__")
def m_build_class(e, st, ev, ret):
    kw = dict(ev.kw)
    return build_class(e, st, ev, ret)


@model("len")
def m_len(e, st, ev, ret):
    v = ev.args[0]
    if v.op == "ref":
        o = st.obj(v)
        if o is not None and o.cls is not None and o.items is None:
            m = e.lookup(st, o.cls, "__len__")
            if m is not None:
                return done(e.call(st, m, (v,), (), ret))
    if is_k(v) and not isinstance(kv(v), (str, bytes, tuple, frozenset)):
        return [(s, "done", None) for s in type_error(e, st, "object of type %s has no len()" % v.args[0])]
    return e.length(st, v)


def done(states):
    return [(s, "done", None) for s in states]


@model("int")
def m_int(e, st, ev, ret):
    if not ev.args:
        return K(0)
    v = ev.args[0]
    base = ev.arg(1, "base")
    if is_k(v) and (base is None or is_k(base)):
        try:
            return K(int(kv(v)) if base is None else int(kv(v), kv(base)))
        except ValueError:
            return [(st, "exc", e.make_exc(st, "ValueError", (K("invalid literal"),)))]
        except TypeError:
            e.mon.unresolved(st, "operator", "int(%s)" % tm.show(v))
            return [(st, "exc", e.make_exc(st, "TypeError", (K("int()"),)))]
    if ty(v) == "int":
        return v
    if v.op in ("lt0", "eq0", "eq", "is", "in", "inst", "not", "truth"):
        out = []
        for t, s in e.branch(st, v):
            out.append((s, "ret", K(1 if t else 0)))
        return out
    if v.op == "app" and v.args[0] == "/" and False:
        return v
    if base is not None and not (is_k(base) and kv(base) == 10):
        return app("int", v, base, ty="int")
    # int() ignores white space around the number
    while v.op == "app" and v.args[0] in (".strip", ".lstrip", ".rstrip") and len(v.args[1]) == 1:
        v = v.args[1][0]
    if v.op == "app" and v.args[0] == "str" and ty(v.args[1][0]) == "int":
        return v.args[1][0]
    return app("int", v, ty="int")


@model("str")
def m_str(e, st, ev, ret):
    if not ev.args:
        return K("")
    v = ev.args[0]
    if len(ev.args) > 1 or ev.kw:
        return app(".decode", v, ty="str")
    if is_k(v) and not isinstance(kv(v), bytes):
        return K(str(kv(v)))
    if v.op == "ref":
        o = st.obj(v)
        if o is not None and o.cls is not None:
            m = e.lookup(st, o.cls, "__str__")
            if m is not None:
                return done(e.call(st, m, (v,), (), ret))
    return tm.cat([v])


@model("bool")
def m_bool(e, st, ev, ret):
    if not ev.args:
        return tm.FALSE
    v = ev.args[0]
    if v.op == "ref":
        return [(s, "ret", B(t)) for t, s in e.truth(st, v)]
    a = e.truth_atom(st, v)
    return B(a) if isinstance(a, bool) else a


@model("float")
def m_float(e, st, ev, ret):
    v = ev.args[0] if ev.args else K(0)
    if is_k(v):
        try:
            return K(float(kv(v)))
        except Exception:
            return [(st, "exc", e.make_exc(st, "ValueError"))]
    return app("float", v, ty="float")


@model("memoryview")
def m_memoryview(e, st, ev, ret):
    # (writing through the view is not modelled: the view of bytes is read-only)
    if ev.args and ty(ev.args[0]) == "bytes":
        return ev.args[0]
    return None


@model("bytes")
def m_bytes(e, st, ev, ret):
    if not ev.args:
        return K(b"")
    v = ev.args[0]
    if is_k(v) and len(ev.args) == 1:
        try:
            if isinstance(kv(v), int) and kv(v) > 4096:
                raise ValueError
            return K(bytes(kv(v)))
        except Exception:
            pass
    if ty(v) == "bytes":
        return v
    if ty(v) == "int":
        return app("zeros", v, ty="bytes")
    return app("bytes", *ev.args, ty="bytes")


@model("min", "max")
def m_minmax(e, st, ev, ret):
    args = ev.args
    if len(args) == 1:
        args = seq_items(e, st, args[0])
        if args is None:
            return app(ev.name, *ev.args)
        if not args:
            return [(st, "exc", e.make_exc(st, "ValueError"))]
    if ev.kw:
        return st.fresh(sym(ev.name, e.site_ctx(st)))
    # drop what is known not to matter
    keep = list(args)
    for x in list(keep):
        for y in list(keep):
            if x is y or x not in keep or y not in keep:
                continue
            d = st.decide(tm.lt(y, x)) if not is_k(tm.lt(y, x)) else bool(kv(tm.lt(y, x)))
            # y < x: for min, x goes
            if d is True:
                keep.remove(x if ev.name == "min" else y)
    if len(keep) == 2 and (ev.name == "min" or not any(is_k(x) for x in keep)) and all(is_k(x) or numeric(x) for x in keep):
        # follow both cases: the bound that counts matters to the code around
        x, y = keep
        out = []
        for less, s in e.branch(st, tm.lt(y, x)):
            small, big = (y, x) if less else (x, y)
            out.append((s, "ret", small if ev.name == "min" else big))
        return out
    return tm.minmax(ev.name, keep)


@model("abs")
def m_abs(e, st, ev, ret):
    v = ev.args[0]
    if is_k(v):
        return K(abs(kv(v)))
    out = []
    for t, s in e.branch(st, tm.lt(v, tm.ZERO)):
        out.append((s, "ret", tm.neg(v) if t else v))
    return out


@model("divmod")
def m_divmod(e, st, ev, ret):
    a, b = ev.args
    if is_k(b) and kv(b) == 0:
        return [(st, "exc", e.make_exc(st, "ZeroDivisionError"))]
    return tup((quotient(st, a, b), tm.mod(a, b)))


@model("isinstance", "issubclass")
def m_isinstance(e, st, ev, ret):
    if ev.name == "issubclass":
        r = e.subclass(st, ev.args[0], ev.args[1])
        return B(r) if r is not None else mk("inst", ev.args[0], ev.args[1])
    r = isinstance_(e, st, ev.args[0], ev.args[1])
    if is_k(r):
        return r
    return [(s, "ret", B(t)) for t, s in e.branch(st, r)]


@model("hasattr")
def m_hasattr(e, st, ev, ret):
    v, n = ev.args
    if is_k(n):
        r = has_attr(e, st, v, kv(n))
        if r is not None:
            return B(r)
    return mk("hasattr", v, n)


def has_attr(e, st, v, name):
    if v.op == "ref":
        o = st.obj(v)
        if o is not None and o.cls is not None:
            if name in o.attrs or e.lookup(st, o.cls, name) is not None:
                return True
            if e.lookup(st, o.cls, "__getattr__") is not None or e.has_ext_base(st, o.cls):
                return None
            return False
    if v.op == "mod":
        return st.attr(v, name) is not None
    if v.op == "cls":
        return True if e.lookup(st, v, name) is not None else None
    t = ty(v)
    if t in PYTY:
        return hasattr(PYTY[t], name)
    if t == "file" and name in ("read", "write", "fileno", "close", "flush", "seek", "tell", "name"):
        return True
    if v.op == "ext":
        c = pyclass(v.args[0])
        if c is not None:
            return hasattr(c, name)
    return None


@model("getattr")
def m_getattr(e, st, ev, ret):
    v, n = ev.args[0], ev.args[1]
    if not is_k(n):
        r = st.fresh(sym("getattr", e.site_ctx(st)))
        return r
    name = kv(n)
    if len(ev.args) > 2:
        h = has_attr(e, st, v, name)
        if h is not True:
            # looking for an attribute is a use of it as well
            r = e.mon.load(st, v, name)
            if r is not None:
                return r
        if h is False:
            return ev.args[2]
        if h is None and v.op not in ("ref",):
            out = []
            for t, s in e.branch(st, mk("hasattr", v, n)):
                if t:
                    out += done(e.getattr(s, v, name, ret))
                else:
                    out.append((s, "ret", ev.args[2]))
            return out
        if h is None:
            s2 = st.clone()
            return [(s2, "ret", ev.args[2])] + done(e.getattr(st, v, name, ret))
    return done(e.getattr(st, v, name, ret))


@model("setattr")
def m_setattr(e, st, ev, ret):
    v, n, x = ev.args
    if is_k(n):
        # the value of setattr() is None
        st.frames[-1].stack.append(NONE)
        if ret[0] != "push":
            st.frames[-1].stack.pop()
            st.setattr(v, kv(n), x)
            return NONE
        return done(e.setattr(st, v, kv(n), x))
    return NONE


@model("delattr", "print", "callable", "globals", "locals", "vars", "gc.collect", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter")
def m_none(e, st, ev, ret):
    if ev.name == "callable":
        return B(ev.args[0].op in ("fn", "bound", "cls", "ext", "meth", "partial"))
    return NONE


@model("super")
def m_super(e, st, ev, ret):
    if len(ev.args) == 2:
        return mk("super", ev.args[0], ev.args[1])
    return st.fresh(sym("super", e.site_ctx(st)))


@model("property", "staticmethod", "classmethod", "functools.cached_property")
def m_descriptor(e, st, ev, ret):
    n = ev.name.split(".")[-1]
    args = list(ev.args)
    if n == "property":
        kw = dict(ev.kw)
        args = [ev.arg(0, "fget", NONE), ev.arg(1, "fset", NONE), ev.arg(2, "fdel", NONE)]
        return app("property", *args)
    return app(n, *args)


@method("*", "setter")
def m_setter(e, st, ev, ret):
    p = ev.recv
    if p.op == "app" and p.args[0] == "property":
        return app("property", p.args[1][0], ev.args[0], *p.args[1][2:])
    return ev.args[0]


@model("functools.wraps", "functools.lru_cache", "functools.cache", "atexit.register", "abc.abstractmethod",
       "typing.final", "typing.overload", "functools.total_ordering", "typing.cast", "typing.no_type_check",
       "typing.runtime_checkable", "functools.singledispatch", "six.python_2_unicode_compatible", "enum.unique")
def m_identity(e, st, ev, ret):
    if ev.name == "typing.cast":
        return ev.args[1]
    if ev.name in ("functools.wraps",) or not ev.args or ev.args[0].op not in ("fn", "cls", "bound"):
        return ext("$identity")
    return ev.args[0]


@model("$identity")
def m_identity2(e, st, ev, ret):
    return ev.args[0]


@model("functools.partial")
def m_partial(e, st, ev, ret):
    return mk("partial", ev.args[0], tuple(ev.args[1:]), tuple(ev.kw))


@model("type")
def m_type(e, st, ev, ret):
    return type_of(e, st, ev.args[0])


@model("iter")
def m_iter(e, st, ev, ret):
    if len(ev.args) == 2:
        return done(e.call(st, e.prelude["$iter2"], ev.args, (), ret))
    v = ev.args[0]
    it = e.make_iter(st, v)
    if it is None:
        o = st.obj(v)
        return done(e.call(st, e.lookup(st, o.cls, "__iter__"), (v,), (), ret))
    return it


@model("next")
def m_next(e, st, ev, ret):
    g = ev.args[0]
    dflt = ev.args[1] if len(ev.args) > 1 else None
    o = st.obj(g) if g.op == "ref" else None
    if o is not None and o.kind == "gen":
        return done(e.resume(st, g, NONE, ("deliver", ret, dflt)))
    if o is not None and o.cls is not None:
        m = e.lookup(st, o.cls, "__next__")
        if m is not None:
            if dflt is not None:
                return done(e.call(st, m, (g,), (), ("cont", "nextdef", dflt, ret)))
            return done(e.call(st, m, (g,), (), ret))
    out = []
    for s, v in e.iter_next(st, g):
        if isinstance(v, tuple):
            out.append((s, "exc", v[1]))
        elif v is not None:
            out.append((s, "ret", v))
        elif dflt is not None:
            out.append((s, "ret", dflt))
        else:
            out.append((s, "exc", e.make_exc(s, "StopIteration")))
    return out


def cont_nextdef(e, st, v, dflt, ret):
    return e.deliver(st, ret, v)


def catch_nextdef(e, st, exc, dflt, ret):
    if exc.op == "exc" and exc.args[0] is ext("StopIteration"):
        return e.deliver(st, ret, dflt)
    return None


CONT["nextdef"] = cont_nextdef
CATCH["nextdef"] = catch_nextdef


def cont_boolres(e, st, v, invert):
    out = []
    for t, s in e.truth(st, v):
        s.frames[-1].stack.append(B(t != invert))
        out.append(s)
    return out


CONT["boolres"] = cont_boolres


@method("gen", "send", "throw", "close", "__next__")
def m_gen(e, st, ev, ret):
    g = ev.recv
    n = ev.name
    if n == ".close":
        o = st.obj(g)
        st.heap[g] = Obj("gen", attrs={"state": K("done")})
        return NONE
    if n == ".throw":
        x = ev.args[-1] if len(ev.args) < 3 else ev.args[1]
        return done(e.resume(st, g, NONE, ("deliver", ret, None), exc=x))
    return done(e.resume(st, g, ev.args[0] if ev.args else NONE, ("deliver", ret, None)))


def collect(e, st, v, kindname, ret):
    items = seq_items(e, st, v)
    if items is not None:
        r = new_obj(e, st, kindname, ())
        items = seq_items(e, st, v)
        if kindname == "set":
            u = []
            for x in items:
                if x not in u:
                    u.append(x)
            items = u
        st.heap[r] = Obj(kindname, items=tuple(items))
        return r
    o = st.obj(v) if v.op == "ref" else None
    if o is not None and o.kind in ("gen", "iter"):
        return done(e.call(st, e.prelude["$collect"], (v,), (), ret))
    r = new_obj(e, st, kindname, None)
    return r


@model("list", "set", "frozenset", "collections.deque", "collections.OrderedDict", "dict", "sorted", "tuple", "reversed")
def m_container(e, st, ev, ret):
    n = ev.name
    if n in ("dict", "collections.OrderedDict"):
        r = new_obj(e, st, "dict", ())
        items = []
        if ev.args:
            v = ev.args[0]
            o = st.obj(v) if v.op == "ref" else None
            if o is not None and o.kind == "dict" and o.items is not None:
                items = list(o.items)
            else:
                seq = seq_items(e, st, v)
                if seq is None:
                    st.heap[r] = Obj("dict")
                    return r
                for p in seq:
                    x = seq_items(e, st, p)
                    if x is None or len(x) != 2:
                        st.heap[r] = Obj("dict")
                        return r
                    items.append(tuple(x))
        for k, v in ev.kw:
            items.append((K(k), v))
        st.heap[r] = Obj("dict", items=())
        for k, v in items:
            dict_set(e, st, r, k, v)
        return r
    if n == "tuple":
        if not ev.args:
            return tup(())
        items = seq_items(e, st, ev.args[0])
        if items is not None:
            return tup(items)
        o = st.obj(ev.args[0]) if ev.args[0].op == "ref" else None
        if o is not None and o.kind == "gen":
            return done(e.call(st, e.prelude["$collect"], ev.args, (), ("cont", "totuple", ret)))
        return app("tuple", *ev.args, ty="tuple")
    k = {"list": "list", "set": "set", "frozenset": "set", "collections.deque": "deque", "sorted": "list", "reversed": "list"}[n]
    if not ev.args:
        return new_obj(e, st, k, ())
    if n in ("sorted",):
        items = seq_items(e, st, ev.args[0])
        if items is not None and all(is_k(x) for x in items) and not ev.kw:
            try:
                s = sorted(items, key=lambda t: kv(t))
                return new_obj(e, st, "list", s)
            except TypeError:
                pass
        if items is not None and len(items) > 1:
            r = new_obj(e, st, "list", None)
            return r
    if n == "reversed":
        items = seq_items(e, st, ev.args[0])
        if items is not None:
            r = new_obj(e, st, "list", ())
            st.heap[r] = Obj("list", items=tuple(reversed(seq_items(e, st, ev.args[0]))))
            return r
    return collect(e, st, ev.args[0], k, ret)


def cont_totuple(e, st, v, ret):
    items = seq_items(e, st, v)
    return e.deliver(st, ret, tup(items) if items is not None else app("tuple", v, ty="tuple"))


CONT["totuple"] = cont_totuple

# ------------------------------------------------------------------ containers


@method("list deque", "append", "extend", "insert", "pop", "popleft", "appendleft", "clear", "remove", "reverse", "copy", "index", "count", "sort")
def m_list(e, st, ev, ret):
    r = ev.recv
    n = ev.name[1:]
    o = st.obj(r)
    items = o.items
    if n == "append":
        if items is None:
            el = o.attrs.get("elem")
            v = ev.args[0]
            if el is not v:
                st.heap[r] = o = o.with_attr("elem", sym("elem-of", r))
            if "n" in o.attrs:
                st.heap[r] = o.with_attr("n", tm.add(o.attrs["n"], tm.ONE))
        else:
            st.heap[r] = o.with_items(items + (ev.args[0],))
        return NONE
    if n == "appendleft" and items is not None:
        st.heap[r] = o.with_items((ev.args[0],) + items)
        return NONE
    if n == "extend":
        extend_items(e, st, r, seq_items(e, st, ev.args[0]))
        return NONE
    if n == "clear":
        st.heap[r] = Obj(o.kind, o.cls, {}, ())
        return NONE
    if n == "reverse":
        if items is not None:
            st.heap[r] = o.with_items(tuple(reversed(items)))
        return NONE
    if n == "copy" and items is not None:
        c = new_obj(e, st, "list", ())
        st.heap[c] = Obj("list", items=st.obj(r).items)
        return c
    if n in ("pop", "popleft"):
        i = ev.args[0] if ev.args else K(-1)
        if n == "popleft":
            i = K(0)
        if items is not None and tm.is_int(i):
            if -len(items) <= kv(i) < len(items):
                lst = list(items)
                v = lst.pop(kv(i))
                st.heap[r] = o.with_items(tuple(lst))
                return v
            return [(st, "exc", e.make_exc(st, "IndexError"))]
        v = o.attrs.get("elem")
        if v is None or v.op == "sym":
            v = st.fresh(sym("elem", e.site_ctx(st)))
        s2 = st.clone()
        m = e.length(st, r)
        out = []
        if st.assume(tm.lt(m, tm.ONE), False):
            attrs = {"n": tm.sub(m, tm.ONE)}
            if "elem" in o.attrs:
                attrs["elem"] = o.attrs["elem"]
            st.heap[r] = Obj(o.kind, o.cls, attrs, None)
            out.append((st, "ret", v))
        if tm.is_int(i) and kv(i) in (0, -1) and not s2.assume(tm.lt(m, tm.ONE)):
            return out
        return out + [(s2, "exc", e.make_exc(s2, "IndexError"))]
    if n == "insert" and items is not None and tm.is_int(ev.args[0]):
        lst = list(items)
        lst.insert(kv(ev.args[0]), ev.args[1])
        st.heap[r] = o.with_items(tuple(lst))
        return NONE
    if n == "remove" and items is not None and ev.args[0] in items:
        lst = list(items)
        lst.remove(ev.args[0])
        st.heap[r] = o.with_items(tuple(lst))
        return NONE
    if n in ("index", "count"):
        return st.fresh(sym(n, e.site_ctx(st), ty="int"))
    if n == "sort" and (items is None or len(items) < 2):
        return NONE
    m = e.length(st, r)
    if n == "copy":
        c = new_obj(e, st, "list", None)
        st.heap[c] = Obj("list", None, {"n": m}, None)
        return c
    st.heap[r] = Obj(o.kind, o.cls, {"n": tm.add(m, K({"appendleft": 1, "insert": 1, "remove": -1}.get(n, 0)))}, None)
    return NONE


@method("dict", "get", "items", "keys", "values", "setdefault", "update", "pop", "copy", "clear")
def m_dict(e, st, ev, ret):
    r = ev.recv
    n = ev.name[1:]
    o = st.obj(r)
    if n in ("items", "keys", "values"):
        if o.items is None:
            return new_obj(e, st, "list", None)
        its = {"items": [tup(x) for x in o.items], "keys": [k for k, _ in o.items], "values": [v for _, v in o.items]}[n]
        if n == "keys":
            pass
        c = new_obj(e, st, "list", ())
        o = st.obj(r)
        its = {"items": [tup(x) for x in o.items], "keys": [k for k, _ in o.items], "values": [v for _, v in o.items]}[n]
        st.heap[c] = Obj("list", items=tuple(its))
        return c
    if n in ("get", "pop"):
        d = ev.args[1] if len(ev.args) > 1 else NONE
        if o.items is None:
            return st.fresh(sym("value", e.site_ctx(st)))
        if ret[0] != "push":
            for k, v in o.items:
                if k is ev.args[0]:
                    return v
            return st.fresh(sym("value", e.site_ctx(st)))
        res = dict_get(e, st, r, ev.args[0], d, n == "pop" and len(ev.args) < 2)
        res = [st] if res is None else res
        if n == "pop":
            for s in res:
                oo = s.obj(r)
                if oo is not None and oo.items is not None:
                    s.heap[r] = oo.with_items(tuple(i for i in oo.items if i[0] is not ev.args[0]))
        return done(res)
    if n == "update":
        src = ev.args[0] if ev.args else None
        so = st.obj(src) if src is not None and src.op == "ref" else None
        if so is not None and so.items is not None and so.kind == "dict":
            for k, v in so.items:
                dict_set(e, st, r, k, v)
        elif src is not None:
            st.heap[r] = Obj("dict")
        for k, v in ev.kw:
            dict_set(e, st, r, K(k), v)
        return NONE
    if n == "copy" and o.items is not None:
        c = new_obj(e, st, "dict", ())
        st.heap[c] = Obj("dict", items=st.obj(r).items)
        return c
    if n == "clear":
        st.heap[r] = Obj("dict", items=())
        return NONE
    if n == "setdefault":
        if o.items is not None:
            for k, v in o.items:
                if k is ev.args[0]:
                    return v
            d = ev.args[1] if len(ev.args) > 1 else NONE
            dict_set(e, st, r, ev.args[0], d)
            return d
    return st.fresh(sym(n, e.site_ctx(st)))


@method("set", "add", "discard", "remove", "update", "clear", "union", "copy")
def m_set(e, st, ev, ret):
    r = ev.recv
    o = st.obj(r)
    n = ev.name[1:]
    if n == "add" and o.items is not None:
        if ev.args[0] not in o.items:
            st.heap[r] = o.with_items(o.items + (ev.args[0],))
        return NONE
    if n in ("discard", "remove") and o.items is not None:
        st.heap[r] = o.with_items(tuple(x for x in o.items if x is not ev.args[0]))
        return NONE
    st.heap[r] = Obj("set")
    return NONE if n not in ("union", "copy") else new_obj(e, st, "set", None)


# ------------------------------------------------------------------ strings


FOLD = {
    "strip", "lstrip", "rstrip", "lower", "upper", "encode", "decode", "replace", "startswith",
    "endswith", "find", "rfind", "index", "count", "isdigit", "isspace", "split", "splitlines",
    "rsplit", "title", "capitalize", "zfill", "ljust", "rjust", "center", "partition", "rpartition",
    "removeprefix", "removesuffix", "hex", "join", "casefold", "isalpha", "isalnum", "expandtabs",
    "bit_length", "isupper", "islower", "to_bytes", "swapcase", "isdecimal", "isnumeric",
}


def plainarg(e, st, a):
    """The Python value of a fully known argument."""
    if is_k(a):
        return True, kv(a)
    items = seq_items(e, st, a)
    if items is not None and all(is_k(x) for x in items):
        return True, tuple(kv(x) for x in items)
    return False, None


@method("str bytes int float", *sorted(FOLD | {"format"}))
def m_strmethod(e, st, ev, ret):
    n = ev.name[1:]
    v = ev.recv
    if is_k(v) and n in FOLD and not ev.kw:
        vals = [plainarg(e, st, a) for a in ev.args]
        if all(ok for ok, _ in vals):
            try:
                r = getattr(kv(v), n)(*[x for _, x in vals])
            except (TypeError, AttributeError) as err:
                e.mon.unresolved(st, "method", "%s: %s" % (n, err))
                return [(st, "exc", e.make_exc(st, "TypeError", (K(str(err)),)))]
            except Exception as err:
                return [(st, "exc", e.make_exc(st, type(err).__name__, (K(str(err)),)))]
            if isinstance(r, list):
                return new_obj(e, st, "list", [K(x) for x in r])
            if isinstance(r, tuple):
                return tup([K(x) for x in r])
            return K(r)
    if n == "join":
        if ev.args and ev.args[0].op == "ref":
            o = st.obj(ev.args[0])
            if o is not None and o.kind == "gen":
                return done(e.call(st, e.prelude["$collect"], ev.args, (), ("cont", "join", v, ret)))
        return join(e, st, v, ev.args[0])
    if n == "format" and is_k(v):
        return format_braces(e, st, kv(v), ev)
    if n in ("split", "rsplit", "partition", "rpartition") and not is_k(v) and ty(v) in ("str", "bytes"):
        sep = ev.arg(0, "sep")
        cnt = ev.arg(1, "maxsplit")
        if sep is not None and is_k(sep) and kv(sep) is not None and (n.endswith("partition") or (cnt is not None and cnt is K(1))):
            side = "r" if n.startswith("r") else ""
            at = mk("in", sep, v)
            t = ty(v)
            before = app(side + "before", v, sep, ty=t)
            after = app(side + "after", v, sep, ty=t)
            empty = K(b"" if t == "bytes" else "")
            out = []
            for yes, s in e.branch(st, at):
                if n.endswith("partition"):
                    if yes:
                        r = tup((before, sep, after))
                    else:
                        r = tup((v, empty, empty)) if not side else tup((empty, empty, v))
                else:
                    r = new_obj(e, s, "list", (before, after) if yes else (v,))
                out.append((s, "ret", r))
            return out
    if n in ("startswith", "endswith") and ev.args and v.op == "cat":
        # the known prefix or suffix of a concatenation
        ok, a = plainarg(e, st, ev.args[0])
        p = v.args[-1] if n == "endswith" else v.args[0]
        if ok and is_k(p):
            alts = a if isinstance(a, tuple) else (a,)
            s = kv(p)
            if any(getattr(s, n)(x) for x in alts):
                return tm.TRUE
            if all(len(x) <= len(s) for x in alts):
                return tm.FALSE
    if n in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold") and v.op == "app" and v.args[0] == "." + n and not ev.args:
        return v
    return default(e, st, ev)


def join(e, st, sep, seq):
    items = seq_items(e, st, seq)
    t = ty(sep)
    if items is None:
        return app("join", sep, seq, ty=t)
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        out.append(x)
    if t == "str":
        return tm.cat(out)
    return app("bytes+", *out, ty="bytes")


def cont_join(e, st, v, sep, ret):
    return e.deliver(st, ret, join(e, st, sep, v))


CONT["join"] = cont_join


def format_braces(e, st, s, ev):
    import string

    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            m = re.match(r"^([^.\[]*)(.*)$", field)
            name, rest = m.group(1), m.group(2)
            if name == "":
                i = auto
                auto += 1
                if i >= len(ev.args):
                    e.mon.badformat(st, s, "not enough arguments for format()")
                    return [(st, "exc", e.make_exc(st, "IndexError"))]
                v = ev.args[i]
            elif name.isdigit():
                if int(name) >= len(ev.args):
                    e.mon.badformat(st, s, "not enough arguments for format()")
                    return [(st, "exc", e.make_exc(st, "IndexError"))]
                v = ev.args[int(name)]
            else:
                kw = dict(ev.kw)
                if name not in kw:
                    if "**" in kw:
                        v = st.fresh(sym("kw", e.site_ctx(st)))
                    else:
                        e.mon.badformat(st, s, "missing format() argument %s" % name)
                        return [(st, "exc", e.make_exc(st, "KeyError"))]
                else:
                    v = kw[name]
            if rest or conv or (spec and spec not in ("s", "d")):
                v = app("format", K("%s!%s:%s" % (rest, conv, spec)), v, ty="str")
            parts.append(v)
    except ValueError as err:
        e.mon.badformat(st, s, str(err))
        return [(st, "exc", e.make_exc(st, "ValueError"))]
    return tm.cat(parts)


@model("format")
def m_format(e, st, ev, ret):
    if len(ev.args) == 1 or (is_k(ev.args[1]) and kv(ev.args[1]) in ("", "d", "s")):
        return tm.cat([ev.args[0]])
    return default(e, st, ev)


# ------------------------------------------------------------------ paths and regular expressions


@model("os.path.basename", "os.path.dirname", "os.path.join", "os.path.splitext", "os.path.normpath",
       "os.path.split", "os.path.isabs", "struct.calcsize", "re.escape", "stat.S_ISREG", "stat.S_ISBLK",
       "stat.S_ISCHR", "stat.S_ISFIFO", "ord", "chr", "hex", "shlex.quote", "os.fspath")
def m_fold(e, st, ev, ret):
    if ev.args and all(is_k(a) for a in ev.args):
        mod, _, attr = ev.name.rpartition(".")
        try:
            if mod == "os.path":
                f = getattr(os.path, attr)
            elif mod == "":
                f = getattr(builtins, attr)
            else:
                f = getattr(__import__(mod), attr)
            r = f(*[kv(a) for a in ev.args])
            return tup([K(x) for x in r]) if isinstance(r, tuple) else K(r)
        except Exception:
            pass
    if ev.name == "os.path.splitext" and ev.args[0].op == "cat" and is_k(ev.args[0].args[-1]):
        s = kv(ev.args[0].args[-1])
        root, x = os.path.splitext(s)
        if x and "/" not in x and root:
            return tup((tm.cat(list(ev.args[0].args[:-1]) + [K(root)]), K(x)))
    if ev.name in ("os.path.splitext", "os.path.split"):
        v = ev.args[0]
        return tup((app(ev.name + "0", v, ty="str"), app(ev.name + "1", v, ty="str")))
    return default(e, st, ev)


@model("re.match", "re.fullmatch", "re.search", "re.compile")
def m_re(e, st, ev, ret):
    if ev.name == "re.compile" or len(ev.args) < 2:
        return default(e, st, ev)
    return regex(e, st, ev.name[3:], ev.args[0], ev.args[1], ev.args[2:])


@method("regex", "match", "fullmatch", "search")
def m_regex(e, st, ev, ret):
    p = ev.recv
    if p.op == "app" and p.args[0] == "re.compile":
        return regex(e, st, ev.name[1:], p.args[1][0], ev.args[0], p.args[1][1:])
    return default(e, st, ev)


def regex(e, st, how, pat, s, flags):
    """A match object or None: forks."""
    if is_k(pat) and is_k(s) and not flags:
        try:
            m = getattr(re, how)(kv(pat), kv(s))
        except Exception:
            m = False
        if m is None:
            return NONE
        if m:
            return app("match", K(how), pat, s, ty="match")
    out = []
    at = mk("truth", app("matches", K(how), pat, s))
    for t, x in e.branch(st, at):
        out.append((x, "ret", app("match", K(how), pat, s, ty="match") if t else NONE))
    return out


@method("match", "group", "groups", "__getitem__", "start", "end", "span", "groupdict")
def m_match(e, st, ev, ret):
    m = ev.recv
    how, pat, s = m.args[1] if m.op == "app" else (None, None, None)
    n = ev.name[1:]
    if pat is not None and is_k(pat) and is_k(s):
        mm = getattr(re, kv(how))(kv(pat), kv(s))
        if n in ("group", "__getitem__", "start", "end") and all(is_k(a) for a in ev.args):
            try:
                f = mm.group if n in ("group", "__getitem__") else getattr(mm, n)
                r = f(*[kv(a) for a in ev.args])
                return tup([K(x) for x in r]) if isinstance(r, tuple) else K(r)
            except IndexError:
                return [(st, "exc", e.make_exc(st, "IndexError"))]
        if n == "groups":
            return tup([K(x) for x in mm.groups()])
    t = ty(s) if s is not None else "str"

    def g(a):
        if is_k(a) and isinstance(kv(a), str) and is_k(pat):
            try:
                return K(re.compile(kv(pat)).groupindex[kv(a)])
            except Exception:
                return a
        return a

    if n in ("group", "__getitem__"):
        if not ev.args:
            return app("group", m, K(0), ty=t)
        r = [app("group", m, g(a), ty=t) for a in ev.args]
        return r[0] if len(r) == 1 else tup(r)
    if n == "groups" and pat is not None and is_k(pat):
        try:
            c = re.compile(kv(pat)).groups
            return tup([app("group", m, K(i + 1), ty=t) for i in range(c)])
        except Exception:
            pass
    return app("." + n, m, *ev.args)


# ------------------------------------------------------------------ exceptions, logging, threads


@model("sys.exc_info")
def m_exc_info(e, st, ev, ret):
    x = st.exc
    if x is NONE:
        return tup((NONE, NONE, NONE))
    return tup((e.exc_class(st, x), x, app("traceback", x)))


@model("sys.exception")
def m_exception(e, st, ev, ret):
    return st.exc


@model("six.reraise")
def m_reraise(e, st, ev, ret):
    v = ev.args[1] if len(ev.args) > 1 else NONE
    if v is NONE:
        return done(raise_value(e, st, ev.args[0]))
    return done(e.throw(st, v, True))


@model("six.raise_from")
def m_raise_from(e, st, ev, ret):
    return done(e.throw(st, ev.args[0], True))


@method("*", "with_traceback")
def m_with_traceback(e, st, ev, ret):
    return ev.recv


@model("sys.exit", "exit", "quit")
def m_exit(e, st, ev, ret):
    return [(st, "exc", e.make_exc(st, "SystemExit", tuple(ev.args)))]


@model("os._exit", "os.abort")
def m_hard_exit(e, st, ev, ret):
    return [(st, "exc", e.make_exc(st, "SystemExit", tuple(ev.args)))]


@method("*", "debug", "info", "warning", "warn", "error", "critical", "exception", "log")
def m_log(e, st, ev, ret):
    v = ev.recv
    if ty(v) == "logger" or (v.op == "ref"):
        return log_call(e, st, ev)
    return default(e, st, ev)


@model("logging.debug", "logging.info", "logging.warning", "logging.error", "logging.exception", "logging.critical")
def m_log2(e, st, ev, ret):
    return log_call(e, st, ev)


def log_call(e, st, ev):
    args = ev.args
    if ev.name.endswith(".log"):
        args = args[1:]
    if len(args) > 1 and is_k(args[0]) and isinstance(kv(args[0]), str) and not any(a.op == "star" for a in args):
        # checked like '%', but logging does not raise
        n = len([x for x in SPEC.finditer(kv(args[0])) if x.group("conv") != "%"])
        named = "%(" in kv(args[0])
        if not named and n != len(args) - 1:
            e.mon.badformat(st, kv(args[0]), "wrong number of arguments for a log message")
        elif not named:
            s = [x.group("conv") for x in SPEC.finditer(kv(args[0])) if x.group("conv") != "%"]
            for c, a in zip(s, args[1:]):
                if c in "diuoxXeEfFgG" and kind(st, a) in ("str", "bytes", "none", "list", "tuple"):
                    e.mon.badformat(st, kv(args[0]), "%%%s needs a number" % c)
    return NONE


@model("_thread.start_new_thread", "threading.Thread")
def m_thread(e, st, ev, ret):
    if ev.name == "threading.Thread":
        t = ev.arg(1, "target", NONE)
        a = ev.arg(3, "args", tup(()))
        kw = ev.arg(4, "kwargs", NONE)
        r = st.fresh(mk("ref", "thread", e.site_ctx(st), "thread"))
        st.heap[r] = Obj("thread", attrs={"$target": t, "$args": a, "$kwargs": kw, "daemon": ev.arg(None, "daemon", tm.FALSE)})
        return r
    args = seq_items(e, st, ev.args[1])
    return spawn(e, st, ev.args[0], args if args is not None else (mk("star", ev.args[1]),), "thread", ret)


def spawn(e, st, fn, args, how, ret):
    r = e.mon.spawn(st, fn, tuple(args), how)
    if r is not None:
        return r
    return st.fresh(sym("thread id", e.site_ctx(st), ty="int")) if how == "thread" else NONE


@method("thread", "start")
def m_thread_start(e, st, ev, ret):
    o = st.obj(ev.recv)
    args = seq_items(e, st, o.attrs["$args"])
    fn = o.attrs["$target"]
    kw = o.attrs.get("$kwargs", NONE)
    d = st.obj(kw) if kw is not NONE else None
    if d is not None and d.items:
        if not all(is_k(k) for k, _ in d.items):
            fn = mk("partial", fn, (), (("**", kw),))
        else:
            fn = mk("partial", fn, (), tuple((kv(k), v) for k, v in d.items))
    return spawn(e, st, fn, args if args is not None else (mk("star", o.attrs["$args"]),), "Thread", ret)


@model("queue.Queue", "queue.SimpleQueue", "queue.LifoQueue", "queue.PriorityQueue", "multiprocessing.Queue")
def m_queue(e, st, ev, ret):
    r = st.fresh(mk("ref", "queue", e.site_ctx(st), "queue"))
    st.heap[r] = Obj("queue", attrs={"$maxsize": ev.arg(0, "maxsize", K(0)), "$type": K(ev.name)})
    return r


@method("queue", "qsize")
def m_qsize(e, st, ev, ret):
    return st.fresh(sym("qsize", e.site_ctx(st), ty="int"))


# ------------------------------------------------------------------ context managers


@method("*", "__enter__")
def m_enter(e, st, ev, ret):
    return ev.recv


@method("*", "__exit__")
def m_exit2(e, st, ev, ret):
    return NONE


@method("file", "__enter__")
def m_file_enter(e, st, ev, ret):
    return ev.recv


@method("proc", "__enter__")
def m_proc_enter(e, st, ev, ret):
    return ev.recv


# ------------------------------------------------------------------ hashes


@model("hashlib.new", "hashlib.md5", "hashlib.sha1", "hashlib.sha224", "hashlib.sha256", "hashlib.sha384", "hashlib.sha512")
def m_hash(e, st, ev, ret):
    if ev.name == "hashlib.new":
        algo = ev.arg(0, "name")
        data = ev.arg(1, "data") or ev.arg(1, "string")
    else:
        algo = K(ev.name.split(".")[1])
        data = ev.arg(0, "data") or ev.arg(0, "string")
    r = st.fresh(mk("ref", "hash", e.site_ctx(st), "hash"))
    d = K(b"")
    if data is not None:
        d = app("hashed", d, data, ty="bytes")
    st.heap[r] = Obj("hash", attrs={"$algo": algo, "$data": d, "name": algo})
    return r


@method("hash", "update")
def m_hash_update(e, st, ev, ret):
    o = st.obj(ev.recv)
    st.heap[ev.recv] = o.with_attr("$data", app("hashed", o.attrs["$data"], ev.args[0], ty="bytes"))
    return NONE


@method("hash", "hexdigest", "digest")
def m_hexdigest(e, st, ev, ret):
    o = st.obj(ev.recv)
    return app(ev.name[1:], o.attrs["$algo"], o.attrs["$data"], ty="str" if ev.name == ".hexdigest" else "bytes")


@method("hash", "copy")
def m_hash_copy(e, st, ev, ret):
    r = st.fresh(mk("ref", "hash", e.site_ctx(st), "hash"))
    st.heap[r] = st.obj(ev.recv)
    return r


# ------------------------------------------------------------------ processes


@method("proc", "wait")
def m_wait(e, st, ev, ret):
    v = st.fresh(sym("exit status", e.site_ctx(st), ty="int"))
    st.meta[v] = app("call:.wait", ev.recv)
    st.setattr(ev.recv, "returncode", v)
    return v


@method("proc", "communicate")
def m_communicate(e, st, ev, ret):
    v = st.fresh(sym("exit status", e.site_ctx(st), ty="int"))
    st.meta[v] = app("call:.wait", ev.recv)
    st.setattr(ev.recv, "returncode", v)
    s = e.site_ctx(st)
    a = st.fresh(sym("stdout", s))
    b = st.fresh(sym("stderr", s))
    return tup((a, b))


@model("subprocess.call", "subprocess.run")
def m_call(e, st, ev, ret):
    v = default(e, st, ev)
    return v


# ------------------------------------------------------------------ records


@model("collections.namedtuple", "typing.NamedTuple")
def m_namedtuple(e, st, ev, ret):
    names = None
    if len(ev.args) > 1:
        ok, f = plainarg(e, st, ev.args[1])
        if ok:
            names = f.replace(",", " ").split() if isinstance(f, str) else list(f)
    if names is None or not is_k(ev.args[0]):
        return default(e, st, ev)
    d = ev.arg(None, "defaults")
    defaults = seq_items(e, st, d) if d is not None else ()
    return record_class(e, st, kv(ev.args[0]), names, defaults or (), "namedtuple")


def record_class(e, st, name, names, defaults, how):
    c = mk("cls", "%s$%s" % (name, how))
    st.heap[c] = Obj("cls", None, {"$new": K("record"), "$fields": tup([K(n) for n in names]), "$defaults": tup(defaults), "$tuple": B(how == "namedtuple")}, ())
    return c


def make_record(e, st, cls, args, kw, ret):
    o = st.obj(cls)
    names = [kv(x) for x in o.attrs["$fields"].args]
    dfl = list(o.attrs["$defaults"].args)
    vals = {}
    for n, a in zip(names, args):
        vals[n] = a
    for k, v in kw:
        vals[k] = v
    nd = len(names) - len(dfl)
    for i, n in enumerate(names):
        if n not in vals:
            if i < nd:
                e.mon.unresolved(st, "arguments", kvname(cls))
                return e.error(st, "TypeError", K("missing field %s" % n))
            vals[n] = dfl[i - nd]
    if len(args) > len(names) or set(vals) - set(names):
        e.mon.unresolved(st, "arguments", kvname(cls))
        return e.error(st, "TypeError", K("too many fields"))
    r = st.fresh(mk("ref", "obj", e.site_ctx(st), kvname(cls)))
    items = tuple(vals[n] for n in names) if o.attrs["$tuple"] is tm.TRUE else None
    st.heap[r] = Obj("obj", cls, {n: vals[n] for n in names}, items)
    pi = e.lookup(st, cls, "__post_init__")
    if pi is not None:
        return e.call(st, pi, (r,), (), ("cont", "init", r, ret))
    return e.deliver(st, ret, r)


MAKE["record"] = make_record


@model("dataclasses.dataclass")
def m_dataclass(e, st, ev, ret):
    if not ev.args or ev.args[0].op != "cls":
        return ext("dataclasses.dataclass")
    c = ev.args[0]
    o = st.obj(c)
    ann = o.attrs.get("__annotations__")
    ao = st.obj(ann) if ann is not None else None
    names = [kv(k) for k, _ in ao.items] if ao is not None and ao.items else []
    defaults = [o.attrs[n] for n in names if n in o.attrs]
    if e.lookup(st, c, "__init__") is None:
        o = o.with_attr("$new", K("record")).with_attr("$fields", tup([K(n) for n in names]))
        o = o.with_attr("$defaults", tup(defaults)).with_attr("$tuple", tm.FALSE)
        st.heap[c] = o
    return c
