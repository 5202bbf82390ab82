"""The map of the image file: what is asked of the kernel, what is made of its answers and
when they can be relied on (C18, C19, C20)."""

import errno
import os
import struct

from . import terms as tm
from .engine import AnalysisError, Engine, Monitor
from .terms import FALSE, K, NONE, TRUE, ZERO, app, eq0, is_k, kv, mk, sym, tup, ty

SEEK_DATA, SEEK_HOLE = 3, 4
FIEMAP = 0xC020660B
SYNC = 1
HEADER = {0: (8, "start"), 8: (8, "length"), 16: (4, "flags"), 20: (4, "mapped"), 24: (4, "room")}
EXTENT = {0: (8, "logical"), 8: (8, "physical"), 16: (8, "len")}
HSIZE, ESIZE = 32, 56
SIZES = {"Q": 8, "q": 8, "L": 4, "l": 4, "I": 4, "i": 4, "H": 2, "h": 2, "B": 1, "b": 1}


def layout(fmt):
    """[(offset, size)] of the items of a struct format in standard sizes, or None."""
    if not fmt or fmt[0] not in "=<" and fmt[0] not in "@":
        pass
    out = []
    off = 0
    std = fmt[:1] in ("=", "<")
    if fmt[:1] in (">", "!"):
        return None
    body = fmt[1:] if fmt[:1] in "=<@" else fmt
    num = ""
    for c in body:
        if c.isdigit():
            num += c
            continue
        if c == "x":
            off += int(num or 1)
            num = ""
            continue
        n = int(num or 1)
        num = ""
        if c == "s":
            out.append((off, n))
            off += n
            continue
        size = SIZES.get(c) if std else struct.calcsize(c)
        if size is None:
            return None
        for _ in range(n):
            if not std and off % size:
                off += size - off % size
            out.append((off, size))
            off += size
    return out


class MapMonitor(Monitor):
    opaque = ("bmaptools.BmapHelpers.get_block_size", "bmaptools.BmapHelpers.is_compatible_file_system",
              "bmaptools.BmapHelpers.get_file_system_type")

    def __init__(self, kind, what, has, image):
        self.kind = kind
        self.what = what
        self.has = has
        self.projects = kind == "fiemap"
        self.image = image
        self.counts = {}
        self.places = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def setup(self, e):
        self.eng = e
        self.file = sym("image file", ty="file")
        self.path = sym("image path", ty="str")
        self.bs = sym("bs", ty="int")
        self.size = sym("image size", ty="int")
        self.first = sym("start", ty="int")
        self.n = sym("count", ty="int")
        self.block = sym("block", ty="int")

    def start(self, st):
        st.assume(tm.lt(self.bs, tm.ONE), False)
        st.assume(mk("lt0", self.size), False)
        st.assume(mk("lt0", self.first), False)
        st.assume(mk("lt0", self.n), False)
        blocks = self.ceil(self.size)
        st.assume(tm.lt(blocks, tm.add(self.first, self.n)), False)
        st.g["limit"] = tm.mul(self.bs, tm.add(self.first, self.n))
        st.g["blocks"] = blocks
        if self.image == "file":
            st.g["file"] = self.file
            st.assume(mk("hasattr", self.file, "fileno")) if False else None

    # ------------------------------------------------ helpers

    def is_image(self, st, v):
        """The image file object or its descriptor."""
        f = st.g.get("file")
        if f is None or v is None:
            return False
        return v is f or v.op == "app" and v.args[0] == ".fileno" and v.args[1][0] is f or st.meta.get(v) is app("fd", f)

    def oserror(self, st, code=None):
        s = st.clone()
        if code is None:
            v = s.fresh(sym("errno", self.eng.site_ctx(s), ty="int"))
            for x in (errno.ENXIO, errno.EINVAL, errno.EOPNOTSUPP, errno.ENOTTY):
                s.assume(eq0(tm.sub(v, K(x))), False)
        else:
            v = K(code)
        s.note("fails with %s" % (errno.errorcode[code] if code else "another error"))
        return s, self.eng.make_exc(s, "OSError", (v, K("message")))

    def raises(self, st, ev):
        if ev.name in ("tempfile.TemporaryFile", "os.ftruncate", ".truncate", "tempfile.NamedTemporaryFile"):
            return ("OSError",)
        return ()

    # ------------------------------------------------ the kernel

    def call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == "observe":
            r = getattr(self, "on_" + kv(ev.args[0]))(st, *ev.args[1:])
            return NONE if r is None else [(t, "ret", NONE) for t in r]
        if n == "bmaptools.BmapHelpers.get_block_size":
            s, x = self.oserror(st)
            st.g.setdefault("asked", TRUE)
            if not self.is_image(st, ev.args[0]):
                e.report("C19", st, "the block size is not the one of the image file")
            return [(st, "ret", self.bs), (s, "exc", x)]
        if n == "bmaptools.BmapHelpers.is_compatible_file_system":
            self.count("check of the file system")
            a = ev.args[0]
            bad, err = st.clone(), st.clone()
            m = e.base[e.load_module("bmaptools.BmapHelpers")].attrs["Error"]
            if a is self.path or a is app("name", self.file) or a.op in ("app", "attr") and self.file in tm.leaves(a):
                st.ctl["compatible"] = True
            bad.ctl["incompatible"] = True
            err.ctl["incompatible"] = True
            return [(st, "ret", TRUE), (bad, "ret", FALSE), (err, "exc", e.make_exc(err, m, (K("message"),)))]
        if n == "bmaptools.BmapHelpers.get_file_system_type":
            return sym("file system type", ty="str")
        if n in ("open", "io.open", "os.open") and ev.args[0] is self.path:
            s, x = self.oserror(st)
            mode = ev.arg(1, "mode", K("r"))
            if n == "os.open":
                v = st.fresh(sym("image descriptor", e.site_ctx(st), ty="int"))
                if not is_k(mode) or kv(mode) & (os.O_ACCMODE | os.O_CREAT | os.O_TRUNC) and not kv(mode) & os.O_ACCMODE == os.O_RDONLY:
                    e.report("C28", st, "the image file is opened for writing")
            else:
                v = self.file
                if not is_k(mode) or set(kv(mode)) & set("wax+"):
                    e.report("C28", st, "the image file is opened for writing")
            st.g["file"] = v
            return [(st, "ret", v), (s, "exc", x)]
        f = st.g.get("file")
        if n == ".flush" and ev.recv is f and f is not None:
            s, x = self.oserror(st)
            s.ctl["syncfail"] = True
            st.ctl["flushed"] = True
            return [(st, "ret", NONE), (s, "exc", x)]
        if n in ("os.fsync", "os.fdatasync") and self.is_image(st, ev.args[0]):
            s, x = self.oserror(st)
            s.ctl["syncfail"] = True
            self.count("image file synchronized")
            if self.image == "path" or st.ctl.get("flushed"):
                st.ctl["synced"] = True
            return [(st, "ret", NONE), (s, "exc", x)]
        if n == "os.fstat" and self.is_image(st, ev.args[0]):
            s, x = self.oserror(st)
            v = st.fresh(sym("stat", e.site_ctx(st)))
            st.meta[v] = app("stat of image")
            return [(st, "ret", v), (s, "exc", x)]
        if n in ("os.path.getsize",) and ev.args[0] is self.path:
            s, x = self.oserror(st)
            return [(st, "ret", self.size), (s, "exc", x)]
        if n in ("os.lseek", ".seek") and (n == "os.lseek" or ev.recv is f):
            return self.seek(st, ev)
        if n == "struct.calcsize" and is_k(ev.args[0]):
            return K(struct.calcsize(kv(ev.args[0])))
        if n == "struct.Struct":
            v = st.fresh(sym("struct", e.site_ctx(st)))
            st.meta[v] = app("struct", ev.args[0])
            return v
        m = st.meta.get(ev.recv) if ev.recv is not None else None
        if m is not None and m.op == "app" and m.args[0] == "struct" and n in (".pack_into", ".unpack", ".unpack_from", ".pack"):
            return self.structs(st, n[1:], (m.args[1][0],) + tuple(ev.args), ev)
        if n in ("struct.pack_into", "struct.unpack", "struct.unpack_from", "struct.pack"):
            return self.structs(st, n[7:], tuple(ev.args), ev)
        if n in ("array.array", "bytearray", "ctypes.create_string_buffer"):
            return self.buffer(st, ev)
        if n == "fcntl.ioctl":
            return self.ioctl(st, ev)
        if n in ("memoryview", "bytes") and len(ev.args) == 1 and self.is_buf(st, ev.args[0]):
            return ev.args[0]
        if n in (".tobytes",) and self.is_buf(st, ev.recv):
            return ev.recv
        if n in ("tempfile.TemporaryFile", "tempfile.NamedTemporaryFile"):
            v = st.fresh(sym("temporary file", e.site_ctx(st), ty="file"))
            st.g["tmp"] = v
            return v
        if n == "os.ftruncate" or n == ".truncate":
            if self.is_tmp(st, ev.args[0] if n == "os.ftruncate" else ev.recv):
                st.g["tmpsize"] = ev.args[-1]
            elif self.is_image(st, ev.args[0] if n == "os.ftruncate" else ev.recv):
                e.report("C28", st, "the image file is truncated")
            return None
        if n in (".write", ".writelines") and ev.recv is f and f is not None or n in ("os.write", "os.pwrite", "os.posix_fallocate") and self.is_image(st, ev.args[0]):
            e.report("C28", st, "the image file is written to")
        return None

    def is_tmp(self, st, v):
        f = st.g.get("tmp")
        return f is not None and v is not None and (v is f or v.op == "app" and v.args[0] == ".fileno" and v.args[1][0] is f)

    def load(self, st, obj, name):
        m = st.meta.get(obj)
        if m is app("stat of image") and name == "st_size":
            return [(st, "ret", self.size)]
        if m is not None and m.op == "app" and m.args[0] == "struct" and name == "size" and is_k(m.args[1][0]):
            return [(st, "ret", K(struct.calcsize(kv(m.args[1][0]))))]
        return None

    def used(self, st):
        """The kernel is asked for the map of the image."""
        e = self.eng
        self.count("request for the map")
        if not st.ctl.get("synced"):
            e.report("C18", st, "the map of the image file is read before the file is synchronized")
        if not st.ctl.get("compatible"):
            e.report("C18", st, "the map of the image file is read without checking for an incompatible file system")

    def seek(self, st, ev):
        e = self.eng
        if ev.name == "os.lseek":
            fd, off, wh = (list(ev.args) + [None] * 3)[:3]
        else:
            fd, off, wh = ev.recv, ev.arg(0), ev.arg(1, "whence", ZERO)
        if self.is_tmp(st, fd):
            return self.probe(st, off, wh)
        if not self.is_image(st, fd) or not tm.is_int(wh):
            return None
        if kv(wh) not in (SEEK_DATA, SEEK_HOLE):
            return None
        self.used(st)
        outs = []
        for code in (errno.EINVAL, None):
            s, x = self.oserror(st, code)
            s.ctl["mapfail"] = "EINVAL" if code else "other"
            outs.append((s, "exc", x))
        if self.what == "block":
            return outs + self.seek_block(st, off, kv(wh) == SEEK_DATA)
        if (kv(wh) == SEEK_DATA) is (self.what == "mapped"):
            # looking for the next range: further on than before, or the listing never ends
            k = "asked%d" % self.places.setdefault(e.site_ctx(st), len(self.places))
            prev = st.g.get(k)
            if prev is not None and st.decide(tm.lt(prev, off)) is not True:
                e.report("C19", st, "the next range may be looked for at the same place again, without end: %s after %s" % (tm.show(off), tm.show(prev)))
            st.g[k] = off
            for o in outs:
                o[0].g[k] = off
        if kv(wh) == SEEK_DATA:
            return outs + self.seek_data(st, off)
        return outs + self.seek_hole(st, off)

    def seek_block(self, st, off, data):
        """lseek() to learn about the witness block"""
        b, e = tm.mul(self.bs, self.block), tm.mul(self.bs, tm.add(self.block, tm.ONE))
        here = st.decide(eq0(tm.sub(off, b))) is True
        outs = []
        if data:
            none = st.clone()
            if here:
                none.ctl["blk"] = "hole"
            s, x = self.oserror(none, errno.ENXIO)
            outs.append((s, "exc", x))
        for s, d in self.position(st, "data" if data else "hole", not data):
            if not s.assume(tm.lt(d, off), False) or not s.assume(tm.lt(self.size, d) if not data else tm.lt(d, self.size), not data and False or data):
                continue
            if not here:
                outs.append((s, "ret", d))
            elif data:
                a, o = self.branch(s, tm.lt(d, e))
                for t in a:
                    t.ctl["blk"] = "mapped"
                for t in o:
                    t.ctl["blk"] = "hole"
                outs += [(t, "ret", d) for t in a + o]
            else:
                a, o = self.branch(s, tm.lt(off, d))
                for t in a:
                    t.ctl["blk"] = "mapped"
                outs += [(t, "ret", d) for t in a + o]
        return outs

    def on_block(self, st, r, mapped):
        """A block is said to be mapped, or not."""
        e = self.eng
        self.count("answer about a block")
        want = kv(mapped)
        got = bool(kv(r)) if is_k(r) else st.decide(r)
        if st.ctl.get("mapfail"):
            e.report("C20", st, "a block is judged although the kernel reported an error")
        elif got is None or "blk" not in st.ctl:
            e.report("C19", st, "a block is said to be %s, which does not follow from what the kernel has told" % tm.show(r))
        elif got is not ((st.ctl["blk"] == "mapped") is want):
            e.report("C19", st, "a block the kernel reports as %s is said to be %s" % (st.ctl["blk"], "mapped" if got is want else "unmapped"))

    def on_chosen(self, st, fm):
        e = self.eng
        self.count("way to map chosen")
        o = st.obj(fm)
        name = tm.show(o.cls) if o is not None and o.cls is not None else "?"
        if "FilemapFiemap" in name:
            if st.ctl.get("fiemap") != "works":
                e.report("C20", st, "FIEMAP is chosen although it does not work")
        elif "FilemapSeek" in name:
            if st.ctl.get("fiemap") == "works":
                e.report("C20", st, "SEEK_HOLE is chosen although FIEMAP works")
            elif st.ctl.get("fiemap") == "error":
                e.report("C20", st, "an error of FIEMAP is taken for a missing feature")
            if st.ctl.get("unsupported"):
                e.report("C20", st, "SEEK_HOLE is chosen although holes are not reported")
            elif not st.ctl.get("probed"):
                e.report("C20", st, "SEEK_HOLE is chosen without a probe")
        else:
            e.report("C20", st, "the map object is a %s" % name)
        if st.ctl.get("syncfail"):
            e.report("C18", st, "a failure to synchronize the image file is ignored")
        if st.ctl.get("incompatible"):
            e.report("C18", st, "an incompatible file system is accepted")

    def position(self, st, what, ends):
        """Where data or a hole starts."""
        v = st.fresh(sym(what, self.eng.site_ctx(st), ty="int"))
        st.assume(mk("lt0", v), False)
        return [(st, v)]

    def branch(self, st, atom):
        """[(state where it holds)], [(state where it does not)]"""
        a, b = [], []
        s = st.clone()
        if s.assume(atom, True):
            a.append(s)
        if st.assume(atom, False):
            b.append(st)
        return a, b

    def grow(self, st, key, v):
        """The cursor st.g[key] becomes at least v: the states (it may have to be decided)."""
        cur = st.g[key]
        a, b = self.branch(st, tm.lt(cur, v))
        for s in a:
            s.keep(tm.lt(cur, v), True)
            s.g[key] = v
        for s in b:
            s.keep(tm.lt(cur, v), False)
        return a + b

    def candidates(self, st, phis=()):
        g = st.g
        out = []
        if self.kind == "fiemap":
            return self.witness(st, phis)
        if "C" not in g:
            return out
        asked = [v for k, v in g.items() if k.startswith("asked")]
        if asked:
            frames = list(st.frames) + [o.fr for o in st.heap.values() if o.fr is not None]
            vals = {v for f in frames for v in f.loc.values() if (ty(v) == "int" or v.op == "poly") and not is_k(v)}
            for v in sorted(vals, key=lambda v: v.id):
                for a in asked:
                    t = tm.lt(a, v)
                    if t.op == "lt0":
                        out.append((t, True))
        c = g["C"]
        out.append((tm.lt(g["blocks"], tm.add(self.first, self.n)), False))
        if self.kind == "seek" and self.what == "unmapped":
            out.append((tm.lt(g["prev"], c), True))
            if "hole" in g:
                out.append((tm.lt(self.ceil(g["hole"]), c), False))
            if "dataat" not in g and "hole" in g:
                out.append((tm.lt(c, tm.add(self.first, self.n)), False))
                for f in st.frames:
                    for v in f.loc.values():
                        if v.op == "phi":
                            out.append((tm.lt(v, g["limit"]), False))
            elif "dataat" in g:
                out.append((tm.lt(g["dataat"], tm.mul(self.bs, tm.add(c, tm.ONE))), True))
                out.append((tm.lt(tm.mul(self.bs, tm.sub(c, tm.ONE)), g["dataat"]), True))
        return out

    def witness(self, st, phis):
        """How the variables of a loop may relate to the witness block, the area and each other."""
        g = st.g
        ints = [p for p in phis if ty(p) == "int"]
        end = tm.add(self.first, self.n)
        out = []
        done = set()

        def may(x, y, *vals):
            a = tm.lt(x, y)
            if a.op == "lt0":
                for v in vals:
                    if (a, v) not in done:
                        done.add((a, v))
                        out.append((a, v))

        mine = [g[k] for k in ("seen", "mapped") if k in g]
        others = {v for f in st.frames for v in f.loc.values() if ty(v) == "int" and v not in phis and v.op not in ("k", "sym")}
        for p in ints:
            for v in sorted(others, key=lambda v: v.id):
                may(p, v, False)
                may(v, p, False)
            may(p, self.block, True, False)
            may(self.block, p, True, False)
            may(p, self.first, False)
            may(p, end, True)
            may(end, p, False)
            for q in ints:
                if p is not q:
                    may(p, q, False)
            for q in mine:
                if p is not q:
                    may(p, q, False)
                    may(q, p, False)
        # where the extent read last ends
        if "E" in g and g["E"] in phis:
            vec = phis[g["E"]]
            for i, p in enumerate(ints):
                for q in ints[i + 1:]:
                    if any(tm.add(phis[p][c], phis[q][c]) is v for c, v in enumerate(vec)):
                        may(g["E"], tm.add(p, q), False)
                        may(tm.add(p, q), g["E"], False)
        return out

    def settle(self, st):
        for a, v in self.candidates(st):
            if st.decide(a) is v:
                st.keep(a, v)

    def seek_data(self, st, off):
        """lseek(SEEK_DATA)"""
        outs = []
        none = st.clone()
        none.g.pop("d", None)
        none.g.pop("h", None)
        if self.what == "mapped":
            if none.decide(tm.lt(none.g["C"], off)) is False:
                none.ctl["nomore"] = True
        else:
            # nothing but holes from there on
            if "hole" in none.g and none.decide(eq0(tm.sub(off, none.g["hole"]))):
                none.g["holeend"] = none.g["limit"]
                none.ctl["tail"] = True
            none.g.pop("dataat", None)
        s, x = self.oserror(none, errno.ENXIO)
        outs.append((s, "exc", x))
        for s, d in self.position(st, "data", False):
            if not s.assume(tm.lt(d, off), False) or not s.assume(tm.lt(d, self.size), True):
                continue
            if self.what == "mapped":
                s.g.pop("h", None)
                s.g["d"] = d
                if s.decide(tm.lt(s.g["C"], off)) is False:
                    for t in self.grow(s, "C", d):
                        outs.append((t, "ret", t.g["d"]))
                    continue
            else:
                if "hole" in s.g and s.decide(eq0(tm.sub(off, s.g["hole"]))):
                    if not s.assume(tm.lt(off, d), True):
                        continue
                    s.g["holeend"] = d
                a, b = self.branch(s, tm.lt(s.g["limit"], d))
                for t in a:
                    t.g.pop("dataat", None)
                for t in b:
                    t.g["dataat"] = d
                outs += [(t, "ret", d) for t in a + b]
                continue
            outs.append((s, "ret", d))
        return outs

    def seek_hole(self, st, off):
        outs = []
        none = st.clone()
        if none.assume(tm.lt(off, self.size), False):
            if self.what != "mapped" and none.decide(tm.lt(tm.mul(self.bs, none.g["C"]), off)) is False:
                none.ctl["nomore"] = True
            s, x = self.oserror(none, errno.ENXIO)
            outs.append((s, "exc", x))
        if not st.assume(tm.lt(off, self.size), True):
            return outs
        for s, h in self.position(st, "hole", True):
            if not s.assume(tm.lt(h, off), False) or not s.assume(tm.lt(self.size, h), False):
                continue
            at = s.g.get("d") if self.what == "mapped" else s.g.get("dataat")
            isdata = at is not None and s.decide(eq0(tm.sub(off, at))) is True
            if isdata and not s.assume(tm.lt(off, h), True):
                continue
            if self.what == "mapped":
                if isdata:
                    s.g["h"] = h
                outs.append((s, "ret", h))
                continue
            s.g["hole"] = h
            s.g.pop("holeend", None)
            s.ctl.pop("tail", None)
            # every block up to the hole contains data
            cb = s.g["C"]
            lim = tm.mul(self.bs, tm.add(cb, tm.ONE) if isdata else cb)
            ok = s.decide(tm.lt(off, lim)) if isdata else s.decide(tm.lt(lim, off)) is False
            if ok:
                up = self.ceil(h)
                for t in self.grow(s, "C", up):
                    outs.append((t, "ret", t.g["hole"]))
                continue
            outs.append((s, "ret", h))
        return outs

    def ceil(self, v):
        return tm.floordiv(tm.sub(tm.add(v, self.bs), tm.ONE), self.bs)

    def probe(self, st, off, wh):
        """SEEK_HOLE on a file that is nothing but a hole."""
        e = self.eng
        self.count("probe for stub support")
        size = st.g.get("tmpsize", ZERO)
        outs = []
        s, x = self.oserror(st, errno.EINVAL)
        s.ctl["unsupported"] = True
        outs.append((s, "exc", x))
        s, x = self.oserror(st, None)
        outs.append((s, "exc", x))
        a, b = self.branch(st, tm.lt(off, size))
        for s in b:
            t, x = self.oserror(s, errno.ENXIO)
            outs.append((t, "exc", x))
        for s in a:
            if tm.is_int(wh) and kv(wh) == SEEK_HOLE:
                stub = s.clone()
                stub.ctl["unsupported"] = True
                outs.append((stub, "ret", size))
                s.ctl["probed"] = True
                outs.append((s, "ret", off))
            elif tm.is_int(wh) and kv(wh) == SEEK_DATA:
                stub = s.clone()
                stub.ctl["unsupported"] = True
                outs.append((stub, "ret", off))
                s.ctl["probed"] = True
                t, x = self.oserror(s, errno.ENXIO)
                outs.append((t, "exc", x))
            else:
                outs.append((s, "ret", off))
        return outs

    # ------------------------------------------------ FIEMAP

    def buffer(self, st, ev):
        e = self.eng
        a = ev.args[-1] if ev.args else None
        n = None
        if a is not None:
            if a.op == "ref":
                n = e.length(st, a)
            elif tm.is_int(a):
                n = a
            elif ty(a) in ("bytes", "list"):
                n = e.length(st, a)
        v = st.fresh(sym("buffer", e.site_ctx(st), ty="array"))
        st.meta[v] = app("buffer", n if n is not None else K(-1))
        return v

    def is_buf(self, st, v):
        m = st.meta.get(v)
        return m is not None and m.op == "app" and m.args[0] == "buffer"

    def structs(self, st, how, args, ev):
        e = self.eng
        fmt = kv(args[0]) if is_k(args[0]) else None
        lay = layout(fmt) if fmt is not None else None
        if how == "pack_into":
            buf, off, vals = args[1], args[2], args[3:]
            if not self.is_buf(st, buf):
                return None
            if lay is None or not tm.is_int(off) or len(lay) != len(vals):
                return None
            for (o, size), v in zip(lay, vals):
                for ho, (hs, name) in HEADER.items():
                    if ho == o + kv(off):
                        st.g["req:" + name] = v if hs == size else K(-1)
            return NONE
        if how == "pack":
            return None
        if how == "unpack":
            src = args[1]
            off = ZERO
            m = st.meta.get(src)
            if m is not None and m.op == "app" and m.args[0] == "slice" and self.is_buf(st, m.args[1][0]):
                off = m.args[1][1]
                if off is NONE:
                    off = ZERO
                end = m.args[1][2]
                if lay is not None and (end is NONE or not eq0(tm.sub(tm.sub(end, off), K(struct.calcsize(fmt)))) is TRUE):
                    e.report("C19", st, "the size of the part of the FIEMAP answer unpacked is not that of the format")
            elif not self.is_buf(st, src):
                return None
        else:
            src = args[1]
            off = args[2] if len(args) > 2 else ev.arg(None, "offset", ZERO)
            if not self.is_buf(st, src):
                return None
        if lay is None:
            return None
        return self.fields(st, lay, off)

    def fields(self, st, lay, off):
        """What the kernel has put at an offset of the buffer."""
        e = self.eng
        out = []
        if tm.is_int(off) and kv(off) < HSIZE:
            for o, size in lay:
                h = HEADER.get(o + kv(off))
                if h is None or h[0] != size:
                    out.append(st.fresh(sym("header field", e.site_ctx(st), ty="int")))
                elif h[1] == "mapped" and "mapped" in st.g:
                    out.append(st.g["mapped"])
                else:
                    out.append(st.g.get("req:" + h[1], ZERO))
            return tup(out)
        # an extent: off = HSIZE + ESIZE * index
        p = tm.to_poly(tm.sub(off, K(HSIZE)))
        if "mapped" not in st.g or any(c % ESIZE for c in p.values()):
            e.report("C19", st, "the extents are not read from where the kernel puts them: offset %s" % tm.show(off))
            return tup([st.fresh(sym("unknown", e.site_ctx(st), ty="int")) for _ in lay])
        i = tm.from_poly({m: c // ESIZE for m, c in p.items()})
        self.count("extent read")
        if st.decide(tm.lt(i, st.g["mapped"])) is not True or st.decide(mk("lt0", i)) is not False:
            e.report("C19", st, "an extent is read which the kernel has not provided")
        seen = st.g["seen"]
        if "k" in st.g and st.decide(eq0(tm.sub(i, tm.sub(seen, tm.ONE)))) is True:
            return self.extent(st, lay)
        if st.decide(eq0(tm.sub(i, seen))) is not True:
            e.report("C19", st, "an extent is skipped or read out of order")
            return tup([st.fresh(sym("extent field", (o, e.site_ctx(st)), ty="int")) for o, _ in lay])
        b = self.block
        k = st.fresh(sym("extent block", e.site_ctx(st), ty="int"))
        n = st.fresh(sym("extent blocks", e.site_ctx(st), ty="int"))
        end = tm.add(k, n)
        # whole blocks; not in front of what was asked for and not behind it
        st.assume(mk("lt0", k), False)
        st.assume(tm.lt(n, tm.ONE), False)
        st.keep(tm.lt(k, end), True)
        if "E" in st.g:
            st.assume(tm.lt(k, st.g["E"]), False)
        for at, atom in (("req:start", lambda x: tm.lt(x, end)), ("req:end", lambda x: tm.lt(k, x))):
            x = self.blocks_of(st.g[at])
            if x is not None:
                st.assume(atom(x), True)
        st.g["k"], st.g["n"] = k, n
        st.g["seen"] = tm.add(i, tm.ONE)
        st.ctl["any"] = True
        outs = []
        was = st.ctl["side"]
        if was == "before":
            # ends in front of the block
            t = st.clone()
            if t.assume(tm.lt(b, end), False):
                t.keep(tm.lt(k, b), True)
                outs.append(t)
            # contains it
            t = st.clone()
            if self.has and t.assume(tm.lt(b, k), False) and t.assume(tm.lt(b, end), True):
                t.ctl["w"] = "mapped"
                t.ctl["covered"] = False
                t.ctl["side"] = "after"
                outs.append(t)
        if st.assume(tm.lt(b, k), True):
            if was == "before" and st.ctl["w"] == "ahead" and st.ctl["covered"]:
                st.ctl["w"] = "hole"
                st.ctl["covered"] = False
            st.ctl["side"] = "after"
            if st.ctl["w"] != "hole" or not self.has:
                outs.append(st)
        for t in outs:
            t.g["E"] = end
            for x in (k, end):
                self.relate(t, x)
        return [(t, "ret", self.extent(t, lay)) for t in outs]

    def relate(self, st, x):
        """Keep what is known about x and the area and the witness block, for when the reasons are forgotten."""
        for y in (self.first, tm.add(self.first, self.n), self.block):
            for a in (tm.lt(x, y), tm.lt(y, x)):
                r = st.decide(a)
                if r is not None and a.op == "lt0":
                    st.keep(a, r)

    def blocks_of(self, v):
        """v / block size, if it can be told"""
        q = tm.floordiv(v, self.bs)
        return q if tm.mul(q, self.bs) is v else None

    def extent(self, st, lay):
        """The fields of the extent read last."""
        e = self.eng
        vals = []
        for o, size in lay:
            h = EXTENT.get(o)
            v = None
            if h is not None and h[0] == size:
                v = {"logical": tm.mul(self.bs, st.g["k"]), "len": tm.mul(self.bs, st.g["n"])}.get(h[1])
            vals.append(v if v is not None else st.fresh(sym("extent field", (o, e.site_ctx(st)), ty="int")))
        return tup(vals)

    def ioctl(self, st, ev):
        e = self.eng
        f, op, buf = (list(ev.args) + [None] * 3)[:3]
        if not tm.is_int(op) or kv(op) != FIEMAP or not self.is_image(st, f):
            e.report("C19", st, "ioctl %s is not FIEMAP for the image" % (hex(kv(op)) if tm.is_int(op) else tm.show(op)))
            return None
        self.used(st)
        self.count("FIEMAP request")
        if not self.is_buf(st, buf):
            e.report("C19", st, "the FIEMAP answer is not kept: %s" % tm.show(buf))
            return None
        mut = ev.arg(3, None, TRUE)
        if not is_k(mut) or not kv(mut):
            e.report("C19", st, "the FIEMAP answer is not stored in the buffer")
        fl = st.g.get("req:flags", ZERO)
        if not is_k(fl) or not kv(fl) & SYNC:
            e.report("C18", st, "FIEMAP is used without FIEMAP_FLAG_SYNC")
        elif kv(fl) & ~SYNC:
            e.report("C19", st, "FIEMAP is used with flags 0x%x" % kv(fl))
        room = st.g.get("req:room", ZERO)
        n = st.meta[buf].args[1][0]
        if not tm.is_int(room) or not tm.is_int(n) or HSIZE + ESIZE * kv(room) > kv(n) or kv(room) < 1:
            e.report("C19", st, "the FIEMAP buffer of %s bytes has no room for the %s extents announced" % (tm.show(n), tm.show(room)))
        outs = []
        for code in (errno.EOPNOTSUPP, errno.ENOTTY, None):
            s, x = self.oserror(st, code)
            s.ctl["mapfail"] = s.ctl["fiemap"] = "unsupported" if code else "error"
            if self.kind == "factory" and code:
                s.ctl.pop("mapfail")
            outs.append((s, "exc", x))
        st.ctl["fiemap"] = "works"
        s0, c0 = st.g.get("req:start", ZERO), st.g.get("req:length", ZERO)
        m = st.fresh(sym("mapped extents", e.site_ctx(st), ty="int"))
        st.assume(mk("lt0", m), False)
        st.assume(tm.lt(room, m), False)
        st.g["mapped"] = m
        st.g["seen"] = ZERO
        st.g["req:end"] = tm.add(s0, c0)
        for x in "knE":
            st.g.pop(x, None)
        st.ctl["any"] = False
        st.ctl["side"] = "before"
        st.ctl["covered"] = False
        todo = [st]
        if self.what == "block" and "fm" in st.g:
            none = st.clone()
            if none.assume(eq0(m)) and none.decide(tm.lt(tm.mul(self.bs, self.block), s0)) is False and none.decide(tm.lt(st.g["req:end"], tm.mul(self.bs, tm.add(self.block, tm.ONE)))) is False:
                none.ctl["blk"] = "hole"
            outs.append((none, "ret", ZERO))
            if st.assume(eq0(m), False):
                if st.decide(eq0(tm.sub(s0, tm.mul(self.bs, self.block)))) is True and st.decide(tm.lt(tm.mul(self.bs, tm.add(self.block, tm.ONE)), st.g["req:end"])) is False:
                    st.ctl["blk"] = "mapped"
                outs.append((st, "ret", ZERO))
            return outs
        if st.ctl.get("w") == "ahead":
            # is the block within what is asked for?
            p, q = self.blocks_of(s0), self.blocks_of(st.g["req:end"])
            if p is not None and q is not None:
                todo = []
                a, o = self.branch(st, tm.lt(self.block, p))
                todo += a
                for t in o:
                    a, o2 = self.branch(t, tm.lt(self.block, q))
                    for u in a:
                        u.ctl["covered"] = True
                    todo += a + o2
        for t in todo:
            none = t.clone()
            if none.assume(eq0(m)):
                if none.ctl["covered"]:
                    none.ctl["w"] = "hole"
                    none.ctl["covered"] = False
                if none.ctl.get("w") != "hole" or not self.has:
                    outs.append((none, "ret", ZERO))
            if t.assume(eq0(m), False):
                outs.append((t, "ret", ZERO))
        return outs

    # ------------------------------------------------ the ranges

    def on_made(self, st, fm):
        e = self.eng
        self.count("map object constructed")
        o = st.obj(fm)
        get = lambda k: o.attrs.get(k)
        if get("image_size") is not self.size:
            e.report("C19", st, "the image size is %s" % tm.show(get("image_size") or NONE))
        if get("block_size") is not self.bs:
            e.report("C19", st, "the block size is %s" % tm.show(get("block_size") or NONE))
        b = get("blocks_cnt")
        if b is None or st.decide(tm.lt(tm.mul(b, self.bs), self.size)) is not False or st.decide(tm.lt(tm.mul(tm.sub(b, tm.ONE), self.bs), self.size)) is not True and st.decide(eq0(self.size)) is False:
            e.report("C19", st, "the number of blocks is %s" % tm.show(b or NONE))
        if st.ctl.get("syncfail"):
            e.report("C18", st, "a failure to synchronize the image file is ignored")
        if st.ctl.get("incompatible"):
            e.report("C18", st, "an incompatible file system is accepted")
        if st.ctl.get("unsupported") or st.ctl.get("mapfail") and st.ctl.get("kind") != "seek":
            e.report("C20", st, "a file system which cannot report holes is relied on")
        c = e.class_of(st, fm) if hasattr(e, "class_of") else o.cls
        st.g["fm"] = fm
        st.ctl.pop("mapfail", None)
        if self.what == "block":
            st.g["block"] = self.block
            t = st.clone()
            t.assume(mk("lt0", self.block), False)
            return [t] if t.assume(tm.lt(self.block, b), True) else []
        if self.kind == "fiemap":
            for k in ("mapped", "seen", "k", "n"):
                st.g.pop(k, None)
            st.g["block"] = self.block
            st.ctl.update(w="ahead", listed=False, passed=False)
            t = st.clone()
            st.assume(tm.lt(self.block, self.first), False)
            if st.assume(tm.lt(self.block, tm.add(self.first, self.n)), True):
                return
            # (there are no blocks)
            t.ctl["w"] = "none"
            return [t]
        st.g["C"] = self.first if self.what != "mapped" else tm.mul(self.bs, self.first)
        st.g["prev"] = tm.sub(self.first, tm.ONE)

    def on_range(self, st, f, l):
        e = self.eng
        self.count("range listed")
        word = "mapped" if self.what == "mapped" else "unmapped"

        def holds(atom, want, msg):
            r = st.decide(atom)
            if r is not want:
                e.report("C19", st, msg % dict(f=tm.show(f), l=tm.show(l)))
                return False
            return True

        holds(tm.lt(l, f), False, "a range that is empty may be listed (%(f)s, %(l)s)")
        if self.kind == "fiemap":
            holds(tm.lt(l, tm.add(self.first, self.n)), True, "a range reaches beyond the end of the area (%(f)s, %(l)s)")
            holds(tm.lt(f, self.first), False, "a range begins before the area (%(f)s, %(l)s)")
            return self.listed(st, f, l) if st.ctl["w"] != "none" else None
        holds(tm.lt(st.g["prev"], f), True, "ranges may overlap or are not in order (%(f)s, %(l)s)")
        holds(tm.lt(l, tm.add(self.first, self.n)), True, "a range reaches beyond the end of the area (%(f)s, %(l)s)")
        st.g["prev"] = l
        bs = self.bs
        end = tm.add(l, tm.ONE)
        if self.what == "mapped":
            if not holds(tm.lt(st.g["C"], tm.mul(f, bs)), False, "data in front of a range may be left out (%(f)s, %(l)s)"):
                return
            d, h = st.g.get("d"), st.g.get("h")
            if d is None or h is None:
                e.report("C19", st, "a range is listed which the kernel has not reported as data")
            else:
                holds(tm.lt(d, tm.mul(tm.add(f, tm.ONE), bs)), True, "blocks without data are listed as mapped (%(f)s, %(l)s)")
                holds(tm.lt(tm.mul(l, bs), h), True, "blocks without data are listed as mapped (%(f)s, %(l)s)")
            self.set(st, "C", tm.mul(end, bs))
        else:
            holds(tm.lt(st.g["C"], f), False, "unmapped blocks in front of a range may be left out (%(f)s, %(l)s)")
            h, d = st.g.get("hole"), st.g.get("holeend")
            if h is None or d is None:
                e.report("C19", st, "a range is listed which the kernel has not reported as a hole")
            else:
                holds(tm.lt(tm.mul(f, bs), h), False, "blocks with data are listed as unmapped (%(f)s, %(l)s)")
                holds(tm.lt(d, tm.mul(end, bs)), False, "blocks with data are listed as unmapped (%(f)s, %(l)s)")
            self.set(st, "C", end)

    def listed(self, st, f, l):
        """A range is listed: what about the witness block?"""
        e = self.eng
        b = self.block
        self.relate(st, f)
        self.relate(st, l)
        behind, rest = self.branch(st, tm.lt(l, b))
        outs = list(behind)
        for t in rest:
            front, inside = self.branch(t, tm.lt(b, f))
            for u in front:
                # (only worth knowing as long as the block may still be listed)
                u.ctl["passed"] = not u.ctl["listed"] and u.ctl["w"] == "ahead"
            outs += front + inside
            for u in inside:
                if u.ctl["listed"]:
                    e.report("C19", u, "a block may be listed twice (%s, %s)" % (tm.show(f), tm.show(l)))
                elif u.ctl["passed"]:
                    e.report("C19", u, "ranges may be out of order (%s, %s)" % (tm.show(f), tm.show(l)))
                u.ctl["listed"], u.ctl["passed"] = True, False
                if u.ctl["w"] != ("mapped" if self.what == "mapped" else "hole"):
                    e.report("C19", u, "%s blocks may be listed as %s (%s, %s)" % ("unmapped" if self.what == "mapped" else "mapped", self.what, tm.show(f), tm.show(l)))
        return outs

    def set(self, st, key, v):
        if st.decide(tm.lt(st.g[key], v)) is not False:
            st.g[key] = v

    def on_end(self, st):
        e = self.eng
        self.count("end of the ranges")
        if st.ctl.get("mapfail"):
            e.report("C20", st, "the list of ranges ends normally although the kernel reported an error")
            return
        if st.ctl.get("nomore"):
            return
        if self.kind == "fiemap":
            if st.ctl["w"] == "ahead":
                e.report("C19", st, "the list of ranges may end before the kernel has told about all the blocks")
            elif not st.ctl["listed"] and st.ctl["w"] == ("mapped" if self.what == "mapped" else "hole"):
                e.report("C19", st, "%s blocks may be left out" % self.what)
            return
        c = st.g["C"]
        if self.what == "mapped":
            if st.decide(tm.lt(c, st.g["limit"])) is False or st.decide(tm.lt(c, self.size)) is False:
                return
        elif st.decide(tm.lt(c, tm.add(self.first, self.n))) is False:
            return
        e.report("C19", st, "the list of ranges may end before all %s blocks are listed" % ("mapped" if self.what == "mapped" else "unmapped"))

    def done(self, st):
        e = self.eng
        if st.outcome[0] != "raise":
            return
        c = e.exc_class(st, st.outcome[1])
        name = c.args[0] if c.op == "ext" else kv(c.args[0]) if c.op == "k" else tm.show(c)
        fail = st.ctl.get("mapfail")
        self.count("failure")
        short = str(name).rsplit(".", 1)[-1]
        if fail in ("unsupported", "EINVAL") and "ErrorNotSupp" not in str(name):
            e.report("C20", st, "that the map is not supported is not reported as ErrorNotSupp, but as %s" % name)
        if fail in ("other", "error") and "ErrorNotSupp" in str(name):
            e.report("C20", st, "an error of the kernel is taken for a missing feature")
        if self.kind != "factory" and st.ctl.get("unsupported") and "ErrorNotSupp" not in str(name):
            e.report("C20", st, "that holes are not supported is not reported as ErrorNotSupp, but as %s" % name)
        if short in ("AttributeError", "TypeError", "NameError", "UnboundLocalError"):
            e.report("C20", st, "a failure surfaces as %s" % name)


RANGES = """
fm = make(image)
observe("made", fm)
for first, last in fm.%s(start, count):
    observe("range", first, last)
observe("end")
"""
BLOCK = """
fm = make(image)
observe("made", fm)
r = fm.%s(block)
observe("block", r, %s)
"""
FACTORY = """
fm = make(image)
observe("chosen", fm)
"""


def run(root, kind="seek", what="mapped", has=False, image="path", verbose=False):
    mon = MapMonitor(kind, "block" if what == "noblock" else what, has, image)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.Filemap")
    name = {"seek": "FilemapSeek", "fiemap": "FilemapFiemap", "factory": "filemap"}[kind]
    cls = e.base[m].attrs.get(name)
    if cls is None:
        raise AnalysisError("%s not found" % name)
    src = {
        "mapped": RANGES % "get_mapped_ranges",
        "unmapped": RANGES % "get_unmapped_ranges",
        "block": BLOCK % ("block_is_mapped", True),
        "noblock": BLOCK % ("block_is_unmapped", False),
        "choice": FACTORY,
    }[what]
    glob = dict(make=cls, image=mon.path if image == "path" else mon.file, observe=mk("ext", "observe"), start=mon.first, count=mon.n, block=mon.block)
    st = e.run_source(src, glob)
    mon.start(st)
    outs = e.explore([st])[0]
    for o in outs:
        mon.done(o)
    return e, mon, outs


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    return result(e, outs, mon.counts)
