"""The gates in BmapCopy's constructor: what has to be known about the bmap before a copy
object exists (C09, C10, C11)."""

from . import terms as tm
from .copymon import CopyMonitor, has_const
from .engine import AnalysisError, Engine
from .models import m_int, quotient
from .terms import K, NONE, ONE, ZERO, app, eq0, is_k, kv, mk, sym, ty

RAW = app("bmap bytes", ty="bytes")
END = K(None)
DIGITS = {"md5": 32, "sha1": 40, "sha224": 56, "sha256": 64, "sha384": 96, "sha512": 128}
# format version -> kind of checksums; None: not supported
FORMATS = {"1.0": "none", "1.1": "none", "1.2": "none", "1.3": "sha1", "1.4": "chksum", "2.0": "chksum", "2.1": "chksum"}
SUPPORTED = ("1.0", "1.1", "1.2", "1.3", "1.4", "2.0")
FILETAG = {"sha1": "BmapFileSHA1", "chksum": "BmapFileChecksum"}
TAGNAMES = {"none": set(), "sha1": {"BmapFileSHA1"}, "chksum": {"BmapFileChecksum", "ChecksumType"}}
ALLTAGS = ("BmapFileSHA1", "BmapFileChecksum", "ChecksumType")
SIZES = {"BlockSize": 1, "ImageSize": 0, "MappedBlocksCount": 0}
INTERNAL = ("TypeError", "NameError", "UnboundLocalError", "AttributeError", "KeyError", "IndexError", "ZeroDivisionError")


class ParseMonitor(CopyMonitor):
    def __init__(self, size, version):
        CopyMonitor.__init__(self, True, size, False, version=version)
        self.kind = FORMATS.get(version)

    def relevant(self, st, atom):
        return True

    def start(self, st):
        CopyMonitor.start(self, st)
        st.ctl["bpos"] = "start"

    # ------------------------------------------------ the bytes of the bmap file

    def call(self, st, ev):
        n = ev.name
        a = ev.args
        if n.startswith((".find", ".iter", ".get")) and a and is_k(a[0]) and isinstance(kv(a[0]), str):
            for tag in ALLTAGS:
                if kv(a[0]).endswith(tag):
                    st.ctl["looked:" + tag] = True
        if n == "mmap.mmap":
            if a and a[0].op == "app" and a[0].args[0] == ".fileno" and a[0].args[1][0] is self.bmap:
                self.count("mapping of the bmap")
                acc = ev.arg(4, "access")
                if acc is None or not tm.is_int(acc) or kv(acc) != 3:
                    fl = ev.arg(2, "flags")
                    if (acc is None and not (fl is not None and tm.is_int(fl) and kv(fl) & 2)) or (
                        acc is not None and tm.is_int(acc) and kv(acc) == 2
                    ):
                        self.eng.report("C28", st, "the bmap file is mapped shared and writable")
                ln = ev.arg(1, "length")
                v = st.fresh(sym("mapping", self.eng.site_ctx(st), ty="mmap"))
                if tm.is_int(ln) and kv(ln) == 0:
                    st.meta[v] = app("content", RAW)
                exc = st.clone()
                x = self.eng.make_exc(exc, "OSError")
                return [(st, "ret", v), (exc, "exc", x)]
            return None
        if ev.recv is self.bmap:
            return self.bmap_call(st, ev)
        if n == "xml.etree.ElementTree.parse" and a and a[0] is self.bmap:
            st.ctl["bpos"] = "end"
        if n in (".__setitem__",) and a and a[0].op == "slice":
            # ext setitem: the receiver is the object
            c = self.content(st, ev.recv)
            if c is not None:
                st.meta[ev.recv] = app("content", self.patch(st, c, a[0].args[0], a[0].args[1], a[1]))
                return NONE
        if n == "bytearray" and len(a) == 1:
            c = self.content(st, a[0])
            if c is not None:
                v = st.fresh(sym("bytearray", self.eng.site_ctx(st), ty="mmap"))
                st.meta[v] = app("content", c)
                return v
        if n == ".update" and ev.recv.op == "ref":
            o = st.obj(ev.recv)
            if o is not None and o.kind == "hash" and a:
                st.setattr(ev.recv, "$data", app("hashed", o.attrs["$data"], self.content(st, a[0]) or a[0], ty="bytes"))
                return NONE
        if n.startswith("hashlib."):
            d = ev.arg(1, "data") if n == "hashlib.new" else ev.arg(0, "data")
            c = self.content(st, d) if d is not None else None
            if c is not None:
                ev.args = tuple(c if x is d else x for x in a)
                ev.kw = tuple((k, c if x is d else x) for k, x in ev.kw)
        if ev.recv is not None and n in (".find", ".index", ".__getitem__", ".read", ".replace", ".tobytes"):
            c = self.content(st, ev.recv)
            if c is not None:
                return self.bytes_call(st, ev, c)
        return CopyMonitor.call(self, st, ev)

    def bmap_call(self, st, ev):
        n = ev.name
        if n == ".seek":
            off = ev.arg(0)
            st.ctl["bpos"] = "start" if tm.is_int(off) and kv(off) == 0 and ev.arg(1, "whence") in (None, ZERO) else "?"
            return NONE
        if n == ".read" and not ev.args and not ev.kw:
            v = st.fresh(sym("bmap text", self.eng.site_ctx(st), ty="bytes"))
            if st.ctl["bpos"] == "start":
                st.meta[v] = app("content", RAW)
            st.ctl["bpos"] = "end"
            return v
        if n in (".write", ".truncate", ".writelines"):
            self.eng.report("C28", st, "the bmap file is modified: %s" % n)
            return NONE
        return None

    def content(self, st, v):
        """The bytes an object holds, as a term over the bytes of the bmap file."""
        if v is None:
            return None
        m = st.meta.get(v)
        if m is not None and m.op == "app" and m.args[0] == "content":
            return m.args[1][0]
        if v.op == "app":
            n, a = v.args[0], v.args[1]
            if n == "bmap bytes" or n == "parts" or n == "replaced":
                return v
            if n in ("bytes", "memoryview"):
                return self.content(st, a[0])
            if n == "bytes+":
                x = self.content(st, a[0])
                y = self.content(st, a[1])
                if x is None and y is None:
                    return None
                return app("parts", *(self.parts(x or a[0]) + self.parts(y or a[1])), ty="bytes")
            if n == "slice":
                c = self.content(st, a[0])
                if c is None:
                    return None
                lo, hi = a[1], a[2]
                if is_k(lo) and kv(lo) is None:
                    lo = ZERO
                if is_k(hi) and kv(hi) is None and lo is ZERO:
                    return c
                if c is RAW:
                    return app("parts", app("seg", lo, hi), ty="bytes")
        return None

    def parts(self, c):
        if c is RAW:
            return [app("seg", ZERO, END)]
        if c.op == "app" and c.args[0] == "parts":
            return list(c.args[1])
        return [c]

    def patch(self, st, c, lo, hi, v):
        if c is not RAW:
            return app("parts", app("patched", c, lo, hi, v), ty="bytes")
        if is_k(lo) and kv(lo) is None:
            lo = ZERO
        return app("parts", app("seg", ZERO, lo), app("over", v, lo, hi), app("seg", hi, END), ty="bytes")

    def bytes_call(self, st, ev, c):
        n = ev.name
        a = ev.args
        if n in (".find", ".index") and len(a) == 1:
            return app("position", c, a[0], ty="int")
        if n == ".__getitem__" and a[0].op == "slice":
            r = st.fresh(sym("slice", self.eng.site_ctx(st), ty="bytes"))
            c2 = self.content(st, app("slice", c, *a[0].args))
            if c2 is not None:
                st.meta[r] = app("content", c2)
            return r
        if n in (".read", ".tobytes") and not a:
            r = st.fresh(sym("bytes", self.eng.site_ctx(st), ty="bytes"))
            st.meta[r] = app("content", c)
            return r
        if n == ".replace":
            return app("replaced", c, a[0], a[1], *a[2:], ty="bytes")
        return None

    # ------------------------------------------------ what must be known

    def is_recorded(self, y):
        return has_const(y, FILETAG[self.kind]) and not any(
            x.op == "app" and x.args[0] in ("slice", "hexdigest", "digest") for x in tm.walk(y)
        )

    def strip_code(self, t):
        while t.op == "app" and t.args[0] in (".encode", "encode", "bytes", ".strip", "strip", ".decode", "str"):
            t = t.args[1][0]
        return t

    def digest_len(self, st, t, algo, rec):
        """Is 't' the number of hexadecimal digits of the digest?"""
        if t.op == "app" and t.args[0] == "len":
            x = t.args[1][0]
            if x.op == "app" and x.args[0] == "repeat" and is_k(x.args[1][0]) and len(kv(x.args[1][0])) == 1:
                return self.digest_len(st, x.args[1][1], algo, rec)
        if tm.is_int(t):
            return is_k(algo) and kv(t) == DIGITS.get(kv(algo))
        if t.op == "app" and t.args[0] == "len":
            x = t.args[1][0]
            if x.op == "app" and x.args[0] == "hexdigest":
                return x.args[1][0] is algo
            return self.strip_code(x) is self.strip_code(rec)
        if is_k(algo):
            return st.decide(eq0(tm.sub(t, K(DIGITS.get(kv(algo), -1))))) is True
        for x in tm.walk(t):
            if x.op == "app" and x.args[0] == "hexdigest" and x.args[1][0] is algo:
                return st.decide(eq0(tm.sub(t, app("len", x, ty="int")))) is True
        return False

    def zeros(self, st, v, algo, rec):
        if v.op == "app" and v.args[0] in (".encode", "encode", "bytes"):
            return self.zeros(st, v.args[1][0], algo, rec)
        if is_k(v) and isinstance(kv(v), (bytes, str)):
            s = kv(v)
            return bool(s) and set(s) <= {"0", 48} and is_k(algo) and len(s) == DIGITS.get(kv(algo))
        if v.op == "app" and v.args[0] == "repeat":
            c, n = v.args[1]
            return is_k(c) and kv(c) in (b"0", "0") and self.digest_len(st, n, algo, rec)
        if v.op == "app" and v.args[0] in (".ljust", "ljust", ".rjust", "rjust", ".zfill", "zfill"):
            a = v.args[1]
            return is_k(a[0]) and kv(a[0]) in (b"", "") and self.digest_len(st, a[1], algo, rec)
        return False

    def position(self, p, rec):
        return p.op == "app" and p.args[0] == "position" and p.args[1][0] is RAW and self.strip_code(
            p.args[1][1]) is self.strip_code(rec)

    def wrong_digest(self, st, data, algo, rec):
        """None if 'data' is the bmap with its recorded checksum zeroed, or what is wrong."""
        segs = []
        while data.op == "app" and data.args[0] == "hashed":
            data, x = data.args[1]
            c = self.content(st, x)
            segs = self.parts(c if c is not None else x) + segs
        if not (is_k(data) and kv(data) == b""):
            return "of something else"
        if len(segs) == 1 and segs[0].op == "app" and segs[0].args[0] == "replaced":
            _, old, new = segs[0].args[1][:3]
            if self.strip_code(old) is self.strip_code(rec) and self.zeros(st, new, algo, rec):
                return None
        if len(segs) != 3:
            return "of the file without zeroing the recorded checksum" if len(segs) == 1 else "of other parts of the file"
        a, b, c = segs
        if not all(x.op == "app" for x in (a, c)) or a.args[0] != "seg" or c.args[0] != "seg":
            return "of other parts of the file"
        if b.op == "app" and b.args[0] == "over":
            v, lo, hi = b.args[1]
        else:
            v, lo, hi = b, a.args[1][1], c.args[1][0]
        if a.args[1][0] is not ZERO or a.args[1][1] is not lo or c.args[1][0] is not hi or c.args[1][1] is not END:
            return "of other parts of the file"
        if not self.position(lo, rec):
            return "with another place zeroed than the one of the recorded checksum"
        if not self.zeros(st, v, algo, rec) or not self.digest_len(st, tm.sub(hi, lo), algo, rec):
            return "with the recorded checksum not completely replaced by zeroes"
        return None

    def settle(self, st):
        if self.size is not NONE and not st.ctl.get("sizeok"):
            size = st.g.get("x:ImageSize")
            if st.decide(eq0(self.size)) is True or size is not None and st.decide(eq0(tm.sub(self.size, size))) is True:
                st.ctl["sizeok"] = True
        if self.kind not in FILETAG or st.ctl.get("bmapok"):
            return
        why = "the recorded checksum is not compared with anything"
        for a, v in st.facts.items():
            if a.op != "eq":
                continue
            for x, y in (a.args, a.args[::-1]):
                if x.op == "app" and x.args[0] in ("hexdigest",) and self.is_recorded(y):
                    if v is not True:
                        continue
                    algo, data = x.args[1][:2]
                    if self.kind == "sha1" and algo is not K("sha1"):
                        why = "the digest is not SHA1"
                        continue
                    if self.kind == "chksum" and not has_const(algo, "ChecksumType"):
                        why = "the digest is not of the recorded type"
                        continue
                    w = self.wrong_digest(st, data, algo, y)
                    if w is None:
                        st.ctl["bmapok"] = True
                        return
                    why = "the digest compared is " + w
        st.ctl["why"] = why

    def constructed(self, st):
        e = self.eng
        self.count("copy object constructed")
        v = self.version
        if self.kind is None:
            e.report("C10", st, "a bmap file of format version %s is accepted" % v)
            return
        st.ctl.pop("why", None)
        self.settle(st)
        if self.kind in FILETAG and not st.ctl.get("bmapok"):
            e.report("C09", st, "a bmap file of version %s is accepted without a matching checksum: %s" % (v, st.ctl.get("why")))
        for tag in ALLTAGS:
            looked = bool(st.ctl.get("looked:" + tag))
            if looked != (tag in TAGNAMES[self.kind]):
                e.report("C10", st, "the element %s is %s in a bmap file of version %s" % (
                    tag, "looked for" if looked else "not used", v))
        bs, cnt, size = (st.g.get("x:" + t) for t in ("BlockSize", "BlocksCount", "ImageSize"))
        for t, x in (("BlockSize", bs), ("BlocksCount", cnt), ("ImageSize", size)):
            if x is None:
                e.report("C11", st, "the %s of the bmap is not used" % t)
                return
        q = quotient(st, tm.sub(tm.add(size, bs), ONE), bs)
        if st.decide(eq0(tm.sub(cnt, q))) is not True:
            e.report("C11", st, "a bmap file whose BlocksCount does not fit its ImageSize is accepted")
        if self.size is not NONE:
            if not st.ctl.get("sizeok"):
                e.report("C11", st, "an image size that contradicts the bmap file is accepted")

    def written(self, st, ev, buf):
        self.eng.report("C09", st, "the destination is written before the bmap is checked")


class MalformedMonitor(ParseMonitor):
    """A bmap file of which nothing is known: elements and attributes may be missing or empty,
    and what should be a number may be any text."""

    def __init__(self, size):
        ParseMonitor.__init__(self, size, "2.0")
        self.malformed = True
        self.kind = "any"
        self.version = None

    def piece(self, val):
        return None

    def after(self, st, ev, val):
        return None

    def settle(self, st):
        return None

    def unresolved(self, st, kind, name):
        """What is missing in the file is not a fault of the code (C29) as long as it is noticed (C10)."""

    def missing(self, st, key, val):
        """The states in which the part 'key' of the document exists, or does not."""
        known = st.ctl.get("has:" + key)
        if known is not None:
            return val if known else NONE
        s2 = st.clone()
        st.ctl["has:" + key] = True
        s2.ctl["has:" + key] = False
        s2.note("the bmap file has no %s" % key)
        self.count("parts of the document that may be missing")
        return [(st, "ret", val), (s2, "ret", NONE)]

    def load(self, st, v, name):
        if ty(v) == "xml" and name == "text":
            return self.missing(st, "text in " + tm.show(v), mk("attr", v, name))
        return ParseMonitor.load(self, st, v, name)

    def call(self, st, ev):
        n, a, r = ev.name, ev.args, ev.recv
        if n == "int" and a and ty(a[0]) != "int" and not is_k(a[0]):
            val = m_int(self.eng, st, ev, None)
            key = "number in " + tm.show(a[0])
            known = st.ctl.get("has:" + key)
            if known:
                return val
            self.count("texts that may be no number")
            for tag in SIZES:
                if has_const(val, tag):
                    st.g["x:" + tag] = val
            st.ctl["has:" + key] = True
            s2 = st.clone()
            s2.note("there is no " + key)
            return [(st, "ret", val), (s2, "exc", self.eng.make_exc(s2, "ValueError", (K("invalid literal"),)))]
        if r is not None and ty(r) == "xml" and n in (".find", ".findtext") and len(a) == 1:
            return self.missing(st, tm.show(a[0]), app(n, r, a[0], ty="xml" if n == ".find" else "str"))
        if n == ".get" and r is not None and r.op == "attr" and r.args[1] == "attrib" and len(a) == 1:
            return self.missing(st, "attribute " + tm.show(a[0]), app(n, r, a[0], ty="str"))
        return ParseMonitor.call(self, st, ev)

    def constructed(self, st):
        self.count("copy object constructed")
        for tag, low in SIZES.items():
            v = st.g.get("x:" + tag)
            if v is not None and st.decide(tm.lt(v, K(low))) is not False:
                self.eng.report("C10", st, "a bmap file whose %s is negative%s is accepted" % (tag, " or zero" if low else ""))


HARNESS = "make(image, dest, bmap, size)\n"


def run(root, size=False, version="2.0", malformed=False, verbose=False):
    mon = MalformedMonitor(size) if malformed else ParseMonitor(size, version)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.BmapCopy")
    cls = e.base[m].attrs.get("BmapCopy")
    if cls is None:
        raise AnalysisError("class BmapCopy not found")
    st = e.run_source(HARNESS, dict(make=cls, image=mon.image, dest=mon.dest, bmap=mon.bmap, size=mon.size))
    mon.start(st)
    st.assume(mk("truth", mon.bmap))
    outs = e.explore([st])[0]
    ok = 0
    for o in outs:
        if o.outcome[0] == "return":
            ok += 1
            mon.constructed(o)
        else:
            c = tm.show(e.exc_class(o, o.outcome[1]))
            if malformed:
                if not allowed(e, o):
                    e.report("C10", o, "a malformed bmap file ends with %s instead of an error message" % c)
                continue
            if mon.kind is None and c in INTERNAL:
                e.report("C10", o, "a bmap file of version %s ends with %s instead of an error message" % (version, c))
    if version in SUPPORTED and not ok:
        st.frames[:] = []
        e.report("C10", st, "no bmap file of the supported version %s is accepted" % version, site=("bmaptools/BmapCopy.py", "BmapCopy", 0))
    return e, mon, outs


def allowed(e, o):
    c = e.exc_class(o, o.outcome[1])
    if c.op == "ext" and c.args[0] == "OSError":
        return True
    return c.op == "cls" and c.args[0].startswith("bmaptools.") and c.args[0].endswith(".Error")


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    mon.count("version %s" % kw.get("version"))
    return result(e, outs, mon.counts)
