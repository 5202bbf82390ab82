"""The copying automaton: what BmapCopy does with the image, the destination, the bmap and
the thread in between (C01 - C06, C26, C27, C28)."""

import os

from . import terms as tm
from .engine import AnalysisError, Engine
from .models import m_int, quotient
from .terms import FALSE, K, NONE, TRUE, ZERO, app, eq, eq0, is_k, kv, mk, not_, sym, ty
from .threads import ThreadMonitor

EMPTY = K(b"")
INTERNAL = ("TypeError", "NameError", "UnboundLocalError", "AttributeError", "KeyError", "IndexError", "ZeroDivisionError", "ValueError")
TAGS = ("BlockSize", "BlocksCount", "MappedBlocksCount", "ImageSize")


def has_const(t, c):
    return any(x.op == "k" and x.args[1] == c and type(x.args[1]) is type(c) for x in tm.walk(t))


class CopyMonitor(ThreadMonitor):
    def __init__(self, bmap, size, explicit, bdev=False, version=None, psplash=False, indicator=False, malformed=False, nothing=False):
        self.malformed = malformed
        self.pipe = sym("pipe path", ty="str") if psplash else None
        self.nothing = nothing
        self.indicator = sym("console", ty="file") if indicator else None
        self.version = version
        self.image = sym("image", ty="file")
        self.dest = sym("destination", ty="file")
        self.bmap = sym("bmap", ty="file") if bmap else NONE
        self.size = sym("image_size", ty="int") if size else NONE
        self.verify = sym("verify", ty="bool") if explicit else TRUE
        self.sync = sym("sync", ty="bool") if explicit else TRUE
        self.has_bmap = bmap
        self.bdev = bdev
        if bdev:
            self.opaque = self.opaque + ("bmaptools.BmapCopy.SysfsChange",)
        self.counts = {}

    opaque = ("bmaptools.BmapHelpers.human_size",)

    def relevant(self, st, atom):
        for x in tm.walk(atom):
            if x.op == "sym" and "SysfsChange" in str(x.args[0]) or x.op == "app" and x.args[0] == "os.path.exists":
                return False
            if x.op == "app" and x.args[0] in ("os.major", "os.minor", "stat.S_ISCHR"):
                return False
            if x.op == "k" and x.args[1] == "version":
                return False
            if x.op == "attr" and x.args[1].startswith("re."):
                return False
        return True

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def start(self, st):
        st.g.update(ipos=ZERO, dpos=ZERO, acc=EMPTY, wcount=ZERO, wbytes=ZERO)
        st.ctl.update(role="main", dirty="clean", last=None)

    # ---------------------------------------------------------- the image

    def call(self, st, ev):
        r = self.queue_call(st, ev)
        if r is not None:
            return r
        if ev.recv is self.image:
            return self.image_call(st, ev)
        if ev.recv is self.dest:
            return self.dest_call(st, ev)
        n = ev.name
        if self.malformed:
            r = self.malformed_call(st, ev)
            if r is not None:
                return r
        if self.pipe is not None:
            r = self.pipe_call(st, ev)
            if r is not None:
                return r
        if n.startswith("os."):
            return self.os_call(st, ev)
        if self.version and n in (".get", ".__getitem__") and ev.args and ev.args[0] is K("version"):
            return K(self.version)
        if n == ".update" and ev.recv.op == "ref":
            o = st.obj(ev.recv)
            if o is not None and o.kind == "hash" and ev.args:
                d = self.extend(st, o.attrs["$data"], ev.args[0])
                if d is not None:
                    st.setattr(ev.recv, "$data", d)
                    return NONE
        return None

    def raises(self, st, ev):
        n = ev.name
        if ev.recv is self.image and n in (".read", ".seek"):
            return ("<any Exception>",)
        if ev.recv is self.dest and n in (".write", ".seek", ".flush", ".truncate"):
            return ("OSError",)
        if n in ("os.fsync", "os.fdatasync", "os.ftruncate", "os.truncate"):
            return ("OSError",)
        return ()

    def raised(self, st, ev, exc):
        if ev.recv is self.image and st.ctl["role"] == "reader":
            st.ctl["failed"] = True

    # ---------------------------------------------------------- malformed Range elements

    def load(self, st, v, name):
        ThreadMonitor.load(self, st, v, name)
        if self.malformed and name == "text" and v is st.g.get("range"):
            if st.ctl.get("text") is None:
                self.count("texts that may be missing")
                s2 = st.clone()
                st.ctl["text"] = True
                s2.note("the Range element is empty")
                return [(st, "ret", mk("attr", v, name)), (s2, "ret", NONE)]
        return None

    def malformed_call(self, st, ev):
        a, el = ev.args, st.g.get("range")
        if ev.name != "int" or not a or el is None or ty(a[0]) == "int" or el not in tm.leaves(a[0]):
            return None
        val = m_int(self.eng, st, ev, None)
        if val in (st.g.get("int:lo"), st.g.get("int:hi"), st.g.get("int:one")):
            return None
        self.count("texts that may be no number")
        s2 = st.clone()
        s2.note("%s is no number" % tm.show(a[0]))
        return [(st, "ret", val), (s2, "exc", self.eng.make_exc(s2, "ValueError", (K("invalid literal"),)))]

    # ---------------------------------------------------------- the psplash pipe

    def is_pipe(self, st, v):
        m = st.meta.get(v) if v is not None and v.op in ("sym", "prev", "phi") else None
        return m is not None and m.op == "app" and m.args[0] == "psplash"

    def pipe_exc(self, st, cls):
        s = st.clone()
        s.note("the psplash pipe fails: %s" % cls)
        return (s, "exc", self.eng.make_exc(s, cls, (K("psplash"),)))

    def pipe_ret(self, st, what, ty_):
        v = st.fresh(sym(what, self.eng.site_ctx(st), ty=ty_))
        st.meta[v] = app("psplash", K(what))
        if ty_ == "int":
            st.assume(mk("lt0", v), False)
        return (st, "ret", v)

    def is_fifo(self, st):
        for a, v in st.facts.items():
            if v and a.op == "truth" and a.args[0].op == "app" and a.args[0].args[0] in ("stat.S_ISFIFO", ".is_fifo"):
                if self.pipe in tm.leaves(a):
                    return True
        return False

    def pipe_call(self, st, ev):
        n, e = ev.name, self.eng
        vals = list(ev.args) + [v for _, v in ev.kw] + ([ev.recv] if ev.recv is not None else [])
        if any(self.is_pipe(st, v) for v in vals):
            if n in ("os.fdopen", "open", "io.open", "io.FileIO"):
                return [self.pipe_ret(st, "pipe file", "file"), self.pipe_exc(st, "OSError")]
            if n == ".__enter__":
                return ev.recv
            if n in (".write", "os.write", "print"):
                bad = self.pipe_exc(st, "OSError")
                if n != "print":
                    self.pipe_text(st, ev.args[-1])
                return [(st, "ret", e.length(st, ev.args[-1]) if n != "print" else NONE), bad]
            if n in (".flush", ".close", "os.close", ".__exit__"):
                return [(st, "ret", FALSE if n == ".__exit__" else NONE), self.pipe_exc(st, "OSError")]
            return None
        if not any(self.pipe in tm.leaves(v) for v in vals):
            return None
        if n in ("os.stat", "os.lstat", ".stat", "os.access"):
            bad = self.pipe_exc(st, "OSError")
            if "told" in bad[0].ctl:
                bad[0].ctl["told"] = True
            return [(st, "ret", app("os.stat", self.pipe, ty="stat")), bad]
        if n in ("os.open", "open", "io.open", "os.mkfifo", ".open", ".write_text"):
            self.count("psplash pipe opened")
            st.ctl["told"] = True
            bad = self.pipe_exc(st, "OSError")
            if not self.is_fifo(st):
                e.report("C26", st, "progress is written to a path which is not known to be a pipe")
            fl = ev.arg(1, "flags", None)
            if n != "os.open" or fl is None or not is_k(fl):
                e.report("C26", st, "the psplash pipe is opened in a way which may block the copy")
            else:
                if not kv(fl) & os.O_NONBLOCK:
                    e.report("C26", st, "the psplash pipe is opened in a way which may block the copy")
                if kv(fl) & os.O_CREAT:
                    e.report("C26", st, "a file is created in place of the psplash pipe")
            return [self.pipe_ret(st, "pipe", "int" if n == "os.open" else "file"), bad]
        if n in ("os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", ".unlink"):
            e.report("C26", st, "the psplash pipe is modified: %s" % n)
            return NONE
        return None

    def pipe_text(self, st, t):
        """What is written must be 'PROGRESS <percent>' and a new line."""
        self.count("psplash command")
        e = self.eng
        while t.op == "app" and t.args[0] in (".encode", "bytes", "encode"):
            t = t.args[1][0]
        m = st.g.get("x:MappedBlocksCount") if self.has_bmap else self.size
        w = st.g["wcount"]
        if is_k(t):
            # a percentage the analysis knows: 100 once everything is written
            x = kv(t)
            if isinstance(x, bytes):
                x = x.decode("latin-1")
            if x == "PROGRESS 100\n" and m is not None and self.all_written(st, w, m):
                return
        ok = t.op == "cat" and len(t.args) == 3
        if ok:
            a, b, c = t.args
            ok = is_k(a) and kv(a) in ("PROGRESS ", b"PROGRESS ") and is_k(c) and kv(c) in ("\n", b"\n")
        if not ok:
            e.report("C26", st, "what is written to the psplash pipe is not a progress command: %s" % tm.show(t))
            return
        lv = tm.leaves(t)
        if not is_k(w) and not all(x in lv for x in tm.leaves(w)):
            e.report("C26", st, "the progress shown does not depend on how much is written")
        if m is not None and m is not NONE and not is_k(m) and not all(x in lv for x in tm.leaves(m)):
            e.report("C26", st, "the progress shown does not depend on how much is mapped")

    def all_written(self, st, w, m):
        if self.has_bmap:
            return st.decide(eq0(tm.sub(w, m))) is True
        bs = self.block_size(st)
        return st.decide(eq0(tm.sub(w, quotient(st, tm.sub(tm.add(m, bs), tm.ONE), bs)))) is True

    def raised_out(self, st, exc):
        """copy() ends with an exception."""
        if self.pipe is None:
            return
        if st.ctl.get("pipe failure") or exc.op == "exc" and K("psplash") in exc.args[1]:
            self.eng.report("C26", st, "a failure of the psplash pipe breaks the copy: %s" % tm.show(self.eng.exc_class(st, exc)))

    def throw(self, st, exc, explicit):
        x = st.exc
        if explicit and x is not None and x is not exc and x.op == "exc" and K("psplash") in x.args[1]:
            st.ctl["pipe failure"] = True
        if st.ctl.get("role") == "reader" and explicit:
            c = self.eng.exc_class(st, exc)
            if c.op == "cls":
                st.ctl["failed"] = True

    def where_data(self, st, v):
        """The image position the bytes 'v' come from, or None."""
        if v.op == "sym" or v.op == "prev" or v.op == "phi":
            m = st.meta.get(v)
            if m is not None and m.op == "app" and m.args[0] == "data-at":
                return m.args[1][0]
        if v.op == "app" and v.args[0] in ("memoryview", "bytes", "bytearray", ".tobytes"):
            return self.where_data(st, v.args[1][0])
        if v.op == "app" and v.args[0] == "slice":
            p = self.where_data(st, v.args[1][0])
            lo = v.args[1][1]
            if p is None:
                return None
            if is_k(lo) and kv(lo) is None:
                return p
            if st.nonneg(lo):
                return tm.add(p, lo)
        return None

    def extend(self, st, acc, buf):
        """The accumulated data after appending 'buf', as a span of the image."""
        p = self.where_data(st, buf)
        if p is None:
            return None
        n = self.eng.length(st, buf)
        if acc is EMPTY:
            return app("span", p, tm.add(p, n), ty="bytes")
        if acc.op == "app" and acc.args[0] == "span":
            s, e = acc.args[1]
            if st.decide(eq0(tm.sub(e, p))):
                return app("span", s, tm.add(p, n), ty="bytes")
            return app("scattered", acc, app("span", p, tm.add(p, n)), ty="bytes")
        return app("scattered", acc, app("span", p, tm.add(p, n)), ty="bytes")

    def image_call(self, st, ev):
        e = self.eng
        n = ev.name
        if st.ctl["role"] != "reader" and st.ctl.get("thread") and not self.joined(st) and n not in (".fileno",):
            e.report("C27", st, "the copying thread uses the image file while the reader thread may be reading: %s" % n)
        if n == ".read":
            return self.read(st, ev)
        if n == ".seek":
            self.count("image seek")
            off = ev.arg(0)
            wh = ev.arg(1, "whence", ZERO)
            exc = self.failing(st, ev)
            if tm.is_int(wh) and kv(wh) == 0:
                st.g["ipos"] = off
            elif tm.is_int(wh) and kv(wh) == 1:
                st.g["ipos"] = tm.add(st.g["ipos"], off)
            else:
                raise AnalysisError("image.seek relative to the end at %s" % (ev.site,))
            return [(st, "ret", st.g["ipos"])] + exc
        if n == ".tell":
            return st.g["ipos"]
        if n in (".fileno", ".isatty", ".seekable", ".readable"):
            return None
        if n in (".write", ".truncate", ".writelines", ".flush"):
            e.report("C28", st, "the image file is modified: %s" % n)
            return NONE
        if n in (".close",):
            return NONE
        raise AnalysisError("image%s() is not modelled (%s:%d)" % (n, ev.site[0], ev.site[2]))

    def failing(self, st, ev):
        """The states in which the call raises."""
        out = []
        for c in self.raises(st, ev):
            s = st.clone()
            x = self.eng.make_exc(s, c)
            s.note("%s:%d: %s raises %s" % (ev.site[0], ev.site[2], ev, c))
            out.append((s, "exc", x))
        return out

    def read(self, st, ev):
        e = self.eng
        self.count("image read")
        n = ev.arg(0, "size")
        pos = st.g["ipos"]
        out = self.failing(st, ev)
        eof = st.g.get("eof")
        only_empty = eof is not None and st.decide(tm.lt(pos, eof)) is False
        unbounded = n is None or n is NONE or (tm.is_int(n) and kv(n) < 0)
        if not only_empty:
            for short in (False, True):
                s = st.clone()
                if not short and unbounded:
                    continue
                buf = s.fresh(sym("data", e.site_ctx(s), ty="bytes"))
                # (naming the value may have renamed an older one)
                pos = s.g["ipos"]
                n = ev.arg(0, "size")
                if st.uses(buf):
                    n = tm.substitute(n, {buf: mk("prev", buf)}) if n is not None else n
                if short:
                    ln = app("len", buf, ty="int")
                    ok = s.assume(tm.lt(ln, K(1)), False)
                    if ok and not unbounded:
                        ok = s.assume(tm.lt(ln, n))
                else:
                    ln = n
                    ok = s.assume(tm.lt(n, K(1)), False)
                if not ok:
                    continue
                s.meta[buf] = app("data-at", pos, ln)
                s.g["ipos"] = tm.add(pos, ln)
                if short:
                    s.g["eof"] = s.g["ipos"]
                s.note("%s:%d: reads %s bytes at %s%s" % (
                    ev.site[0], ev.site[2], tm.show(ln), tm.show(pos), ", the last ones" if short else ""))
                out.append((s, "ret", buf))
            pos = st.g["ipos"]
        s = st
        if eof is None or not only_empty:
            s.g["eof"] = pos
        s.note("%s:%d: the image ends here" % (ev.site[0], ev.site[2]))
        out.append((s, "ret", EMPTY))
        return out

    # ---------------------------------------------------------- the destination

    def dest_call(self, st, ev):
        n = ev.name
        e = self.eng
        if st.ctl["role"] == "reader":
            if n not in (".fileno",):
                e.report("C27", st, "the reader thread uses the destination file: %s" % n)
        if n == ".seek":
            self.count("destination seek")
            exc = self.failing(st, ev)
            off = ev.arg(0)
            wh = ev.arg(1, "whence", ZERO)
            if tm.is_int(wh) and kv(wh) == 0:
                st.g["dpos"] = off
            elif tm.is_int(wh) and kv(wh) == 1:
                st.g["dpos"] = tm.add(st.g["dpos"], off)
            else:
                st.g["dpos"] = st.fresh(sym("end of destination", e.site_ctx(st), ty="int"))
            return [(st, "ret", st.g["dpos"])] + exc
        if n in (".write", ".writelines"):
            self.count("destination write")
            exc = self.failing(st, ev)
            for s, _, _ in exc:
                # an unknown part of it may have been written
                s.g["dpos"] = s.fresh(sym("position after a failed write", e.site_ctx(s), ty="int"))
            if n == ".writelines":
                raise AnalysisError("destination.writelines() is not modelled")
            self.written(st, ev, ev.args[0])
            return [(st, "ret", e.length(st, ev.args[0]))] + exc
        if n == ".flush":
            exc = self.failing(st, ev)
            if st.ctl["dirty"] == "buffered":
                st.ctl["dirty"] = "flushed"
                st.g.pop("tsize", None)
            return [(st, "ret", NONE)] + exc
        if n == ".truncate":
            exc = self.failing(st, ev)
            if st.ctl["dirty"] == "buffered":
                st.ctl["dirty"] = "flushed"
            st.g["tsize"] = ev.arg(0, "size", st.g["dpos"])
            if st.ctl["dirty"] == "clean":
                st.ctl["dirty"] = "flushed"
            return [(st, "ret", st.g["tsize"])] + exc
        if n == ".tell":
            return st.g["dpos"]
        if n in (".fileno", ".isatty", ".seekable", ".writable"):
            return None
        if n == ".close":
            return NONE
        raise AnalysisError("destination%s() is not modelled (%s:%d)" % (n, ev.site[0], ev.site[2]))

    def written(self, st, ev, buf):
        e = self.eng
        pos = self.where_data(st, buf)
        if pos is None:
            e.report("C03", st, "data written to the destination was not read from the image: %s" % tm.show(buf))
        elif st.decide(eq0(tm.sub(pos, st.g["dpos"]))) is not True:
            e.report(
                "C03", st,
                "data of image offset %s is written at destination offset %s" % (tm.show(pos), tm.show(st.g["dpos"])),
            )
        n = e.length(st, buf)
        if self.pipe is not None:
            st.ctl["told"] = False
            if self.is_fifo(st):
                st.ctl["fifo"] = True
        st.g["dpos"] = tm.add(st.g["dpos"], n)
        st.g["wbytes"] = tm.add(st.g["wbytes"], n)
        bs = self.block_size(st)
        blocks = quotient(st, tm.sub(tm.add(n, bs), tm.ONE), bs)
        exact = st.decide(eq0(tm.mod(n, bs)))
        if exact is not None:
            # the same number, in the form the code uses
            blocks = tm.add(quotient(st, n, bs), ZERO if exact else tm.ONE)
        st.g["wcount"] = tm.add(st.g["wcount"], blocks)
        st.g.pop("tsize", None)
        st.ctl["dirty"] = "buffered"
        if "owed" in st.g and buf is st.g["owed"]:
            del st.g["owed"]

    def block_size(self, st):
        if self.has_bmap:
            return st.g.get("x:BlockSize") or sym("unknown block size", ty="int")
        return K(4096)

    def is_dest_fd(self, st, v):
        return v is not None and v.op == "app" and v.args[0] == ".fileno" and v.args[1][0] is self.dest

    def os_call(self, st, ev):
        n = ev.name
        a = ev.args[0] if ev.args else None
        if n == "os.fstat":
            return app("os.fstat", a, ty="stat")
        if n in ("os.fsync", "os.fdatasync", "os.ftruncate") and self.is_dest_fd(st, a):
            exc = self.failing(st, ev)
            if n == "os.ftruncate":
                st.g["tsize"] = ev.arg(1)
                if st.ctl["dirty"] == "clean":
                    st.ctl["dirty"] = "flushed"
            elif st.ctl["dirty"] == "flushed":
                st.ctl["dirty"] = "clean"
            return [(st, "ret", NONE)] + exc
        if n in ("os.write", "os.pwrite", "os.writev", "os.sendfile", "os.copy_file_range") and any(
            self.is_dest_fd(st, x) for x in ev.args
        ):
            raise AnalysisError("%s on the destination is not modelled (%s:%d)" % (n, ev.site[0], ev.site[2]))
        if n == "os.lseek" and self.is_dest_fd(st, a):
            return None
        return None

    # ---------------------------------------------------------- the bmap

    def after(self, st, ev, val):
        if ev.name == "int" and val is not None and ev.args:
            for t in TAGS:
                if "x:" + t not in st.g and has_const(val, t):
                    st.g["x:" + t] = val
                    if t == "MappedBlocksCount" and self.pipe is not None:
                        # whether there is anything to report is told apart from the start
                        st.assume(eq0(val), self.nothing)
                    if t == "BlockSize":
                        # assumption: block sizes are positive
                        st.assume(tm.lt(val, K(1)), False)
                    else:
                        st.assume(mk("lt0", val), False)
            if val.op == "app" and has_const(val, "version"):
                k = {"lo": "x:major", "hi": "x:minor"}.get(self.piece(val))
                if k and k not in st.g:
                    st.g[k] = val
            el = st.g.get("range")
            if el is not None and el in tm.leaves(val) and val.op == "app":
                st.g["int:" + self.piece(val)] = val
                st.assume(mk("lt0", val), False)

    def is_ranges(self, st, src):
        return src.op == "app" and src.args[0] in (".findall", ".iter", ".iterfind") and has_const(src, "Range")

    def iter(self, st, ev, it):
        o = st.obj(it)
        src = o.attrs.get("src")
        if src is None or not self.is_ranges(st, src) or st.ctl["role"] != "reader":
            return None
        e = self.eng
        self.count("range iteration")
        self.judge(st)
        s2 = st.clone()
        el = s2.fresh(sym("Range", e.site_ctx(s2), ty="xml"))
        s2.meta[el] = app("elem-of", src)
        s2.g["range"] = el
        s2.g["acc"] = EMPTY
        s2.g.pop("eof", None)
        s2.note("%s:%d: next Range element" % (ev.site[0], ev.site[2]))
        for s in (st, s2):
            for k in ("int:lo", "int:hi", "int:one", "ok"):
                s.g.pop(k, None)
                s.ctl.pop("text", None)
                s.ctl.pop("nochk", None)
                s.ctl.pop("full", None)
                s.ctl.pop("ordered", None)
        st.g.pop("range", None)
        st.g["acc"] = EMPTY
        st.ctl["ranges"] = "done"
        st.note("%s:%d: no more Range elements" % (ev.site[0], ev.site[2]))
        return [(s2, el), (st, None)]

    def judge(self, st):
        """The reader is done with the current range: is it covered and verified?"""
        el = st.g.get("range")
        if el is None:
            return
        e = self.eng
        acc = st.g["acc"]
        if self.must_verify(st) and acc is not EMPTY:
            self.settle(st)
            if not (st.ctl.get("nochk") or st.ctl.get("format") == "none" or "ok" in st.g and self.same_span(st, st.g["ok"], acc)):
                st.ctl["unver"] = "wrong name" if st.ctl.get("wrongname") else True
        lo, hi = self.limits(st, el)
        bs = self.block_size(st)
        self.settle(st)
        if lo is not None and lo is not hi and not st.ctl.get("ordered"):
            st.ctl["inverted"] = True
        ok = False
        if acc.op == "app" and acc.args[0] == "span" and lo is not None:
            s, end = acc.args[1]
            ok = st.decide(eq0(tm.sub(s, tm.mul(lo, bs)))) is True
            full = tm.mul(tm.add(hi, tm.ONE), bs)
            if ok and not st.ctl.get("full") and st.decide(tm.lt(end, full)) is not False:
                eof = st.g.get("eof")
                # what is missing after the end of the image shows in the block count
                ok = eof is not None and st.decide(tm.lt(end, eof)) is False
        if not ok:
            if not st.ctl.get("uncov"):
                st.ctl["uncov"] = self.describe(st, acc, lo, hi)

    def describe(self, st, acc, lo, hi):
        f, fn, line = st.where()
        return "%s:%d" % (f, line)

    def limits(self, st, el):
        """The first and last block number of a Range element, from what the code knows
        about its text."""
        lo, hi, one = (st.g.get("int:" + k) for k in ("lo", "hi", "one"))
        if lo is not None and hi is not None:
            return lo, hi
        if one is not None and lo is None and hi is None:
            return one, one
        if lo is not None and hi is None:
            return lo, lo
        return None, None

    def piece(self, t):
        """Which part of the text of a Range element a number is made of."""
        for x in tm.walk(t):
            if x.op != "app":
                continue
            n = str(x.args[0])
            if n.endswith("before"):
                return "lo"
            if n.endswith("after"):
                return "hi"
            if n == "group":
                k = x.args[1][-1]
                if tm.is_int(k):
                    return {1: "lo", 2: "hi"}.get(kv(k), "one")
        return "one"

    def must_verify(self, st):
        return st.decide(self.verify if self.verify.op == "k" else mk("truth", self.verify)) is not False

    def settle(self, st):
        """Remember whether the current range has no recorded checksum, or a matching one."""
        if self.version:
            st.ctl["format"] = {"1.3": "sha1", "1.4": "chksum", "2.0": "chksum"}.get(self.version, "none")
        elif "format" not in st.ctl and "x:major" in st.g and "x:minor" in st.g:
            v = self.format(st)
            if v is not None:
                st.ctl["format"] = v
        if st.ctl.get("role") == "reader" and st.g["acc"] is not EMPTY:
            if "full" not in st.ctl and self.reaches(st):
                st.ctl["full"] = True
        el = st.g.get("range")
        if el is None:
            return
        if not st.ctl.get("ordered") and "int:lo" in st.g and "int:hi" in st.g:
            if st.decide(tm.lt(st.g["int:hi"], st.g["int:lo"])) is False:
                st.ctl["ordered"] = True
        if st.ctl.get("nochk"):
            return
        for a, v in st.facts.items():
            if el not in tm.leaves(a):
                continue
            if a.op == "eq" and v:
                for x, y in (a.args, a.args[::-1]):
                    if x.op == "app" and x.args[0] in ("hexdigest", "digest") and el in tm.leaves(y):
                        if "ok" not in st.g and x.args[1][1].op == "app" and x.args[1][1].args[0] == "span":
                            st.g["ok"] = x.args[1][1]
            if not has_attrib(a):
                continue
            name = {"sha1": "sha1", "chksum": "chksum"}.get(st.ctl.get("format"))
            if name and not has_const(a, name):
                # says nothing about the attribute this format version uses
                if has_const(a, "sha1") or has_const(a, "chksum"):
                    st.ctl["wrongname"] = True
                continue
            if (
                a.op == "in" and v is False
                or a.op == "truth" and v is False
                or a.op == "is" and v is True and a.args[1] is NONE
                or a.op == "eq0" and v and a.args[0].op == "app" and a.args[0].args[0] == "len"
            ):
                st.ctl["nochk"] = True

    def reaches(self, st):
        """Does the data read for the current range reach its last block?"""
        acc = st.g["acc"]
        if acc.op != "app" or acc.args[0] != "span":
            return False
        end = acc.args[1][1]
        if not self.has_bmap:
            return self.size is not NONE and st.decide(tm.lt(end, self.size)) is False
        el = st.g.get("range")
        if el is None:
            return False
        lo, hi = self.limits(st, el)
        if hi is None:
            return False
        return st.decide(tm.lt(end, tm.mul(tm.add(hi, tm.ONE), self.block_size(st)))) is False

    def format(self, st):
        """The kind of checksums of the bmap format version, if it is known."""
        major, minor = st.g["x:major"], st.g["x:minor"]
        one = tm.lt(major, K(2))
        if st.decide(tm.lt(major, K(1))):
            return "none"
        if st.decide(one) is None:
            return None
        if st.decide(one) is False:
            return "chksum"
        if st.decide(tm.lt(minor, K(3))):
            return "none"
        if st.decide(tm.lt(minor, K(4))) is False:
            return "chksum"
        if st.decide(tm.lt(minor, K(4))) and st.decide(tm.lt(minor, K(3))) is False:
            return "sha1"
        return None

    def same_span(self, st, a, b):
        if a is b:
            return True
        if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "span":
            return all(st.decide(eq0(tm.sub(x, y))) is True for x, y in zip(a.args[1], b.args[1]))
        return False

    # ---------------------------------------------------------- messages

    def buffers(self, st, msg):
        out = []
        if msg.op == "tup":
            for x in msg.args:
                out += self.buffers(st, x)
        elif self.where_data(st, msg) is not None:
            out.append(msg)
        return out

    def before_put(self, st, ev, msg):
        self.count("queue put")
        for b in self.buffers(st, msg):
            st.ctl.pop("full", None)
            st.g["acc"] = self.extend(st, st.g["acc"], b) or app("unknown", b)

    def tag(self, st, ev, msg):
        if self.buffers(st, msg):
            return ("data",)
        out = []
        s = st.clone()
        if self.has_bmap:
            self.judge(s)
            if s.ctl.get("ranges") != "done" and not s.ctl.get("uncov"):
                s.ctl["uncov"] = "stops before the last range"
        else:
            acc = s.g["acc"]
            ok = acc is EMPTY
            if acc.op == "app" and acc.args[0] == "span":
                ok = acc.args[1][0] is ZERO
                end = acc.args[1][1]
            elif ok:
                end = ZERO
            if ok:
                eof = s.g.get("eof")
                ok = eof is not None and s.decide(tm.lt(end, eof)) is False
                ok = ok or bool(s.ctl.get("full"))
                if not ok and self.size is not NONE:
                    ok = s.decide(tm.lt(end, self.size)) is False
            if not ok:
                s.ctl["uncov"] = "%s:%d acc=%s eof=%s" % (ev.site[0], ev.site[2], tm.show(s.g["acc"]), tm.show(s.g.get("eof")))
        for k in ("failed", "unver", "uncov", "inverted"):
            if s.ctl.get(k):
                out.append((k, s.ctl[k]))
        return ("end",) + tuple(out)

    def starved(self, st, ev, f, how, where):
        self.eng.report(
            "C04", st,
            "the reader thread can end (%s) without telling the writer: waiting for the next batch hangs" % where,
        )

    def received(self, st, ev, msg, tag, site):
        self.count("queue get")
        self.settled(st, "the next batch is fetched")
        bufs = self.buffers(st, msg)
        if bufs:
            st.g["owed"] = bufs[0]

    def settled(self, st, when):
        if "owed" in st.g:
            self.eng.report("C02", st, "data received from the reader is not written before %s" % when)
            del st.g["owed"]

    # ---------------------------------------------------------- the end

    def finished(self, st, val):
        """copy() returned normally."""
        e = self.eng
        if st.g.get("size") is not None and not st.assume(tm.lt(self.size, tm.ONE), False):
            return  # the announced size is assumed to be positive
        self.count("normal return of copy()")
        self.settled(st, "copy() returns")
        last = st.ctl.get("last")
        if last is None or last[0] != "end":
            e.report("C01", st, "copy() returns before the reader thread has finished checking the data")
            e.report("C02", st, "copy() returns before the reader thread has read the whole image")
            e.report("C04", st, "copy() returns before the reader thread has finished, so its failure goes unnoticed")
            tags = {}
        else:
            tags = dict(last[1:])
        if "failed" in tags:
            e.report("C04", st, "copy() returns normally although the reader thread failed")
        if "unver" in tags and self.must_verify(st):
            e.report("C01", st, "a range with a recorded checksum was copied without a matching checksum")
            if tags["unver"] == "wrong name":
                e.report("C10", st, "range checksums are looked for under another name than version %s uses" % self.version)
        if "inverted" in tags and "failed" not in tags:
            e.report("C11", st, "a range whose first block is greater than its last one is accepted")
        if "uncov" in tags and "failed" not in tags:
            e.report("C02", st, "blocks of a mapped range were not read (%s)" % tags["uncov"])
        if self.has_bmap:
            m = st.g.get("x:MappedBlocksCount")
            if m is None or st.decide(eq0(tm.sub(st.g["wcount"], m))) is not True:
                e.report("C02", st, "the number of copied blocks is not the mapped blocks count: %s, %s" % (
                    tm.show(st.g["wcount"]), tm.show(m) if m is not None else "unknown"))
        elif self.size is not NONE and st.decide(eq0(self.size)) is not True:
            if st.decide(tm.lt(tm.mul(st.g["wcount"], self.block_size(st)), self.size)) is not False:
                e.report("C02", st, "less than the announced size is copied: %s blocks" % tm.show(st.g["wcount"]))
        if self.pipe is not None and st.ctl.get("fifo") and st.ctl.get("told") is False:
            m = st.g.get("x:MappedBlocksCount")
            known = m is None or st.decide(eq0(m)) is not True
            if self.has_bmap and known or self.size is not NONE and st.decide(eq0(self.size)) is False:
                e.report("C26", st, "psplash is not told about the last data written")
        self.size_rule(st)
        if self.sync is TRUE or st.decide(mk("truth", self.sync)) is not False:
            if st.ctl["dirty"] != "clean" and not self.dev_null(st):
                e.report("C06", st, "copy() returns, but the data is only %s" % st.ctl["dirty"])

    def stat_pred(self, st, name):
        for a, v in st.facts.items():
            if a.op == "truth" and a.args[0].op == "app" and a.args[0].args[0] == name:
                return v
        return None

    def size_rule(self, st):
        e = self.eng
        if self.stat_pred(st, "stat.S_ISREG") is False:
            return
        if self.has_bmap:
            want = [st.g.get("x:ImageSize")]
        elif self.size is not NONE:
            want = [self.size]
            if st.decide(eq0(self.size)) is True:
                want.append(st.g["wbytes"])
        else:
            want = [st.g["wbytes"]]
        t = st.g.get("tsize")
        if t is None:
            e.report("C05", st, "a regular destination file is written after its size was set, or its size is never set")
            return
        if st.ctl["dirty"] == "buffered":
            e.report("C05", st, "buffered data may extend the destination after its size was set")
        if not any(w is not None and st.decide(eq0(tm.sub(t, w))) is True for w in want):
            e.report("C05", st, "the destination gets the size %s instead of %s" % (
                tm.show(t), " or ".join(tm.show(w) for w in want if w is not None)))

    def dev_null(self, st):
        chr_ = self.stat_pred(st, "stat.S_ISCHR")
        maj = mino = False
        for a, v in st.facts.items():
            if v and a.op == "eq0":
                for x in tm.walk(a.args[0]):
                    if x.op == "app" and x.args[0] == "os.major" and a is eq0(tm.sub(x, K(1))):
                        maj = True
                    if x.op == "app" and x.args[0] == "os.minor" and a is eq0(tm.sub(x, K(3))):
                        mino = True
        return chr_ is True and maj and mino


def has_attrib(a):
    return any(x.op in ("attr", "app") and "attrib" in str(x.args) for x in tm.walk(a)) or any(
        x.op == "app" and x.args[0] == ".get" for x in tm.walk(a)
    )


HARNESS = """
def drive(make, image, dest, bmap, size, sync, verify, explicit, pipe, console):
    c = make(image, dest, bmap, size)
    if pipe is not None:
        c.set_psplash_pipe(pipe)
    if console is not None:
        c.set_progress_indicator(console, "bmaptool: info: %d%% copied")
    if explicit:
        return c.copy(sync=sync, verify=verify)
    return c.copy()
drive(make, image, dest, bmap, size, sync, verify, explicit, pipe, console)
"""


def run(root, bmap, size, explicit, bdev=False, version=None, psplash=False, indicator=False, malformed=False, nothing=False, verbose=False):
    mon = CopyMonitor(bmap, size, explicit, bdev, version, psplash, indicator, malformed, nothing)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.BmapCopy")
    cls = e.base[m].attrs.get("BmapBdevCopy" if bdev else "BmapCopy")
    if cls is None:
        raise AnalysisError("class BmapCopy not found")
    st = e.run_source(
        HARNESS,
        dict(make=cls, image=mon.image, dest=mon.dest, bmap=mon.bmap, size=mon.size,
             sync=mon.sync, verify=mon.verify, explicit=tm.B(explicit),
             pipe=mon.pipe or NONE, console=mon.indicator or NONE),
    )
    mon.start(st)
    if psplash:
        # nothing can be found at an empty path
        st.g["pipe"] = mon.pipe
        a = e.truth_atom(st, mon.pipe)
        if not st.assume(a):
            raise AnalysisError("the path of the pipe")
        if size:
            st.g["size"] = mon.size
            st.assume(tm.lt(mon.size, tm.ONE), False)
    if bmap:
        st.assume(mk("truth", mon.bmap))
    outs = e.explore([st])[0]
    for o in outs:
        if o.outcome[0] == "return":
            mon.finished(o, o.outcome[1])
        elif o.outcome[0] == "raise":
            mon.raised_out(o, o.outcome[1])
            if malformed:
                c = tm.show(e.exc_class(o, o.outcome[1]))
                if c in INTERNAL:
                    e.report("C10", o, "a malformed Range element ends the copy with %s instead of an error message" % c)
    return e, mon, outs


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    mon.counts["attribute used by both threads"] = sum(1 for d in mon.shared.values() if len({k[0] for k in d}) > 1)
    done = set()
    for rs, ws, name, rh, wh in mon.races():
        if name not in done:
            done.add(name)
            f, fn, line = rs.where()
            e.report("C27", ws, "the copying thread %s '%s' which the reader thread %s at the same time (%s)" % (wh, name, rh, fn))
    return result(e, outs, mon.counts)
