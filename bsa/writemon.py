"""The standalone writer in contrib/: what it copies where (C32).

The text of a Range element is a representative one (numbers in a certain layout); the numbers
in it stand for any block numbers once they are converted."""

import re

from . import terms as tm
from .engine import Engine, Monitor, AnalysisError
from .terms import K, NONE, TRUE, FALSE, ZERO, is_k, kv, mk, sym, app, ty, eq0, tup

ONE = tm.ONE
LAYOUTS = {
    "single": (" 7310 ", "single"),
    "single-tight": ("7", "single"),
    "pair": (" 7310-8420 ", "pair"),
    "pair-tight": ("7-84", "pair"),
    "single-long": (" 731098765432109876543 ", "single"),
    "pair-long": (" 731098765432109876543 - 842012345678901234567 ", "pair"),
    "pair-wide": ("\n    73  -  8420\n  ", "pair"),
}


class WriteMonitor(Monitor):
    projects = True

    def __init__(self, layout, argc=3):
        self.layout = layout
        self.text, self.kind = LAYOUTS[layout]
        self.argc = argc
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def setup(self, e):
        self.eng = e
        self.raw = sym("raw file", ty="str")
        self.out = sym("output file", ty="str")
        self.root = sym("raw file without extension", ty="str")
        self.ext = sym("extension", ty="str")
        self.bmap = tm.cat((self.root, K(".bmap")))
        self.image = sym("image", ty="file")
        self.dest = sym("destination", ty="file")
        self.tree = sym("bmap document", ty="xml")
        self.top = sym("bmap element", ty="xml")
        self.bs = sym("bs", ty="int")
        self.announced = sym("ImageSize", ty="int")
        self.size = sym("image size", ty="int")
        self.argv = tup((sym("program", ty="str"), self.raw, self.out)[: self.argc])

    def start(self, st):
        g = st.g
        g["bs"], g["size"], g["isz"] = self.bs, self.size, self.announced
        st.assume(tm.lt(self.bs, ONE), False)
        st.assume(mk("lt0", self.size), False)
        g["ip"], g["op"] = ZERO, ZERO
        st.ctl.update(dirty=False)

    def candidates(self, st, phis=()):
        g = st.g
        out = ((tm.lt(self.size, g["ip"]), False),)
        if "cov" in g:
            out += ((tm.lt(g["end"], g["cov"]), False),)
        return out

    def element(self, name):
        return app("element", self.top, K(name), ty="xml")

    def fails(self, st, what, cls="OSError"):
        s = st.clone()
        s.ctl["failed"] = what
        s.note("fails: %s" % what)
        return s, "exc", self.eng.make_exc(s, cls, (K(5), K("message")))

    # ------------------------------------------------------------------ names and attributes

    def load(self, st, obj, name):
        if name == "argv" and obj.op == "ext" and obj.args[0] == "sys" or obj.op == "mod" and obj.args[0] == "sys" and name == "argv":
            return [(st, "ret", self.argv)]
        if name == "text" and ty(obj) == "xml":
            if obj is st.g.get("range"):
                return [(st, "ret", K(self.text))]
            return [(st, "ret", app("text", obj, ty="str"))]
        return None

    # ------------------------------------------------------------------ calls

    def call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == "observe":
            self.on_end(st)
            return NONE
        if n in ("os.path.isfile", "os.path.exists"):
            if is_k(ev.args[0]):
                return None
            s = st.clone()
            s.ctl["missing"] = True
            return [(st, "ret", TRUE), (s, "ret", FALSE)]
        if n == "os.path.splitext" and ev.args[0] is self.raw:
            return tup((self.root, self.ext))
        if n.endswith(("ElementTree.parse", "ElementTree.fromstring")):
            if ev.args[0] is not self.bmap:
                e.report("C32", st, "the bmap is read from %s" % tm.show(ev.args[0]))
            return [(st, "ret", self.tree), self.fails(st, "the bmap cannot be read")]
        r = ev.recv
        if n == ".getroot" and r is self.tree:
            return self.top
        if n in (".find", ".findtext") and r in (self.top, self.tree) and ev.args and is_k(ev.args[0]):
            x = self.element(kv(ev.args[0]).split("/")[-1])
            return x if n == ".find" else app("text", x, ty="str")
        if n in (".findall", ".iter", ".iterfind") and r is not None and ty(r) == "xml":
            if ev.args and is_k(ev.args[0]) and kv(ev.args[0]) in ("Range", "BlockMap/Range", "./BlockMap/Range", ".//Range"):
                return app("ranges", self.top)
            raise AnalysisError("%s(%s)" % (n, tm.show(ev.args[0]) if ev.args else ""))
        if n == "int" and ev.args:
            return self.number(st, ev, ev.args[0])
        if n in ("re.match", "re.search", "re.fullmatch") and len(ev.args) > 1 and is_k(ev.args[0]) and is_k(ev.args[1]):
            return self.matched(st, n, kv(ev.args[0]), kv(ev.args[1]))
        if r is not None and n in (".match", ".search", ".fullmatch") and r.op == "app" and r.args[0] == "re.compile" and is_k(r.args[1][0]) and is_k(ev.args[0]):
            return self.matched(st, "re" + n, kv(r.args[1][0]), kv(ev.args[0]))
        if n in (".group", ".groups", ".__getitem__") and r is not None and st.meta.get(r) is not None and st.meta[r].args[0] == "match":
            gs = st.meta[r].args[1]
            if n == ".groups":
                return tup(gs[1:])
            if not ev.args:
                return gs[0]
            if all(is_k(a) and isinstance(kv(a), int) and kv(a) < len(gs) for a in ev.args):
                return gs[kv(ev.args[0])] if len(ev.args) == 1 else tup([gs[kv(a)] for a in ev.args])
            raise AnalysisError("unknown group of a match")
        if n in ("open", "io.open"):
            return self.opened(st, ev)
        if r is self.image:
            return self.image_call(st, ev)
        if r is self.dest:
            return self.dest_call(st, ev)
        if n in ("os.fsync", "os.fdatasync"):
            if st.ctl["dirty"] == "flushed":
                st.ctl["dirty"] = False
            return [(st, "ret", NONE), self.fails(st, "synchronization")]
        return None

    def number(self, st, ev, v):
        e = self.eng
        if v.op == "app" and v.args[0] == "text":
            x = v.args[1][0]
            if x is self.element("BlockSize"):
                return self.bs
            if x is self.element("ImageSize"):
                return self.announced
            return st.fresh(sym("number", e.site_ctx(st), ty="int"))
        if tm.is_str(v) and "range" in st.g:
            t = re.findall(r"\d+", self.text)
            s = kv(v).strip()
            if s == t[0]:
                return st.g["f"]
            if len(t) > 1 and s == t[1]:
                return st.g["l"]
            if not re.match(r"^\s*[-+]?\d+\s*$", kv(v)):
                return [(st, "exc", e.make_exc(st, "ValueError", (K("invalid literal"),)))]
            e.report("C32", st, "the block number %r is taken from a range %r" % (kv(v), self.text))
        return None

    def matched(self, st, how, pat, text):
        m = {"re.match": re.match, "re.search": re.search, "re.fullmatch": re.fullmatch}[how](pat, text)
        if m is None:
            return NONE
        v = st.fresh(sym("match", self.eng.site_ctx(st), ty="match"))
        st.meta[v] = app("match", *[K(x) for x in (m.group(0),) + m.groups()])
        st.keep(mk("truth", v), True)
        return v

    def opened(self, st, ev):
        e = self.eng
        mode = ev.arg(1, "mode", K("r"))
        m = kv(mode) if is_k(mode) else "?"
        p = ev.args[0]
        if p is self.raw:
            if set(m) & set("wax+?") or "b" not in m:
                e.report("C28" if set(m) & set("wax+?") else "C32", st, "the image file is opened with mode %r" % m)
            st.g["ip"] = ZERO
            return [(st, "ret", self.image), self.fails(st, "the image cannot be opened")]
        if p is self.out:
            if "b" not in m or not set(m) & set("wx") and "+" not in m:
                e.report("C32", st, "the output file is opened with mode %r" % m)
            st.g["op"] = ZERO
            st.ctl["opened"] = True
            return [(st, "ret", self.dest), self.fails(st, "the output cannot be opened")]
        if set(m) & set("wax+?"):
            e.report("C28", st, "%s is opened for writing" % tm.show(p))
        return None

    def image_call(self, st, ev):
        n = ev.name
        e = self.eng
        if n == ".tell":
            return st.g["ip"]
        if n == ".seek":
            wh, off = ev.arg(1, "whence", ZERO), ev.arg(0)
            if is_k(wh) and kv(wh) == 1:
                off = tm.add(st.g["ip"], off)
            elif is_k(wh) and kv(wh) == 2:
                off = tm.add(self.size, off)
            f = self.fails(st, "seek in the image")
            st.g["ip"] = off
            st.ctl.pop("eof", None)
            return [(st, "ret", off), f]
        if n in (".read", ".read1"):
            return self.read(st, ev.arg(0, "size"))
        if n == ".__enter__":
            return self.image
        if n in (".close", ".__exit__"):
            return FALSE if n == ".__exit__" else NONE
        if n in (".write", ".truncate", ".writelines"):
            e.report("C28", st, "the image file is changed: %s" % n)
        return None

    def read(self, st, n):
        outs = [self.fails(st, "read of the image")]
        p = st.g["ip"]
        if n is None or is_k(n) and (kv(n) is None or kv(n) < 0):
            full, short = None, st
        else:
            full, short = st.clone(), st
            if not full.assume(tm.lt(self.size, tm.add(p, n)), False):
                full = None
            if not short.assume(tm.lt(self.size, tm.add(p, n)), True):
                short = None
        if full is not None:
            full.g["ip"] = tm.add(p, n)
            outs.append((full, "ret", self.data(full, p, n)))
        if short is not None:
            none = short.clone()
            if none.assume(tm.lt(p, self.size), False):
                none.ctl["eof"] = True
                outs.append((none, "ret", K(b"")))
            if short.assume(tm.lt(p, self.size), True):
                short.ctl["eof"] = True
                short.g["ip"] = self.size
                outs.append((short, "ret", self.data(short, p, tm.sub(self.size, p))))
        return outs

    def data(self, st, pos, n):
        v = st.fresh(sym("image data", self.eng.site_ctx(st), ty="bytes"))
        st.meta[v] = app("data-at", pos, n)
        return v

    def dest_call(self, st, ev):
        e = self.eng
        n = ev.name
        g = st.g
        if n == ".seek":
            wh, off = ev.arg(1, "whence", ZERO), ev.arg(0)
            f = self.fails(st, "seek in the output")
            if is_k(wh) and kv(wh) == 1:
                off = tm.add(g["op"], off)
            elif is_k(wh) and kv(wh) == 2:
                off = st.fresh(sym("end of the output", e.site_ctx(st), ty="int"))
            g["op"] = off
            return [(st, "ret", off), f]
        if n == ".tell":
            return g["op"]
        if n == ".write":
            f = self.fails(st, "write of the output")
            return [(st, "ret", self.write(st, ev.args[0])), f]
        if n == ".truncate":
            f = self.fails(st, "truncate")
            f[0].ctl.pop("failed")  # documented to be optional
            s = ev.arg(0, "size", g["op"])
            if s is not self.announced:
                e.report("C32", st, "the output file is given the size %s" % tm.show(s))
            elif st.ctl["dirty"]:
                st.ctl["dirty"] = True
            st.ctl["sized"] = True
            f[0].ctl["sized"] = True
            return [(st, "ret", s), f]
        if n == ".flush":
            f = self.fails(st, "flush of the output")
            if st.ctl["dirty"]:
                st.ctl["dirty"] = "flushed"
            return [(st, "ret", NONE), f]
        if n == ".__enter__":
            return self.dest
        if n in (".close", ".__exit__"):
            f = self.fails(st, "closing the output")
            return [(st, "ret", FALSE if n == ".__exit__" else NONE), f]
        return None

    def write(self, st, d):
        e = self.eng
        g = st.g
        if d is K(b""):
            return ZERO
        self.count("data written")
        m = st.meta.get(d)
        st.ctl["dirty"] = True
        if m is None or m.op != "app" or m.args[0] != "data-at":
            e.report("C32", st, "something else than image data is written: %s" % tm.show(d))
            return e.length(st, d)
        p, n = m.args[1]
        if st.decide(eq0(tm.sub(p, g["op"]))) is not True:
            e.report("C32", st, "the data of offset %s of the image is written at offset %s" % (tm.show(p), tm.show(g["op"])))
        g["op"] = tm.add(g["op"], n)
        if "cov" not in g:
            e.report("C32", st, "data is written which belongs to no mapped range")
            return n
        if st.decide(eq0(tm.sub(p, g["cov"]))) is not True:
            e.report("C32", st, "the data written continues at %s instead of %s" % (tm.show(p), tm.show(g["cov"])))
        g["cov"] = tm.add(p, n)
        if st.decide(tm.lt(g["end"], g["cov"])) is not False and st.decide(tm.lt(self.size, g["end"])) is not True:
            e.report("C32", st, "data is written from beyond the end of a mapped range")
        st.ctl.pop("whole", None)
        if st.decide(eq0(tm.sub(g["cov"], g["end"]))) is True:
            st.ctl["whole"] = True
            g["cov"] = g["end"]
        return n

    # ------------------------------------------------------------------ the ranges

    def iter(self, st, ev, it):
        o = st.obj(it)
        src = o.attrs.get("src") if o is not None else ev.recv
        if src is None or src.op != "app" or src.args[0] != "ranges":
            return None
        self.count("range read")
        self.finish_range(st)
        if st.ctl.get("exhausted"):
            return [(st, None)]
        s = st.clone()
        el = s.fresh(sym("Range", self.eng.site_ctx(st), ty="xml"))
        f = s.fresh(sym("first", ty="int"))
        s.assume(mk("lt0", f), False)
        l = f
        if self.kind == "pair":
            l = s.fresh(sym("last", ty="int"))
            s.assume(tm.lt(l, f), False)
        bf, bl = tm.mul(self.bs, f), tm.mul(self.bs, l)
        if l is not f:
            s.keep(tm.lt(bl, bf), False)
        s.keep(mk("lt0", bf), False)
        s.g["range"], s.g["f"], s.g["l"] = el, f, l
        s.g["cov"], s.g["end"] = bf, tm.add(bl, self.bs)
        st.ctl["exhausted"] = True
        return [(s, el), (st, None)]

    def finish_range(self, st):
        e = self.eng
        g = st.g
        if "cov" in g:
            if st.decide(eq0(tm.sub(g["cov"], g["end"]))) is not True and not (
                st.decide(tm.lt(g["cov"], self.size)) is False and st.ctl.get("eof")
                or st.ctl.get("eof") and st.decide(tm.lt(tm.mul(self.bs, g["f"]), self.size)) is False
            ):
                e.report("C32", st, "a mapped range is not copied to its end (%s instead of %s)" % (tm.show(g["cov"]), tm.show(g["end"])))
        for k in ("range", "f", "l", "cov", "end"):
            g.pop(k, None)
        st.ctl.pop("whole", None)
        st.ctl.pop("eof", None)

    def on_end(self, st):
        e = self.eng
        self.count("successful end")
        ctl = st.ctl
        self.finish_range(st)
        if ctl.get("failed"):
            e.report("C32", st, "the script ends successfully although something failed: %s" % ctl["failed"])
        elif self.argc != 3 or ctl.get("missing"):
            e.report("C32", st, "the script ends successfully without its arguments or files")
        else:
            if not ctl.get("exhausted"):
                e.report("C32", st, "not all the ranges are copied")
            if ctl.get("dirty"):
                e.report("C32", st, "the output file is not flushed and synchronized")
            if not ctl.get("sized"):
                e.report("C32", st, "the output file is not given the size of the image")

    def done(self, st):
        e = self.eng
        if st.outcome[0] != "raise":
            return
        self.count("failure")
        x = st.outcome[1]
        c = e.exc_class(st, x)
        name = str(c.args[0] if c.op == "ext" else kv(c.args[0]) if c.op == "k" else tm.show(c)).rsplit(".", 1)[-1]
        if name == "SystemExit":
            code = x.args[1][0] if x.op == "exc" and x.args[1] else None
            if code is None or is_k(code) and kv(code) in (None, 0, False):
                self.on_end(st)
            elif not (self.argc != 3 or st.ctl.get("missing") or st.ctl.get("failed")):
                e.report("C32", st, "the script fails although nothing is wrong")
        elif name in ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "IndexError", "KeyError", "ValueError"):
            e.report("C32", st, "the script ends with %s" % name)
        elif not st.ctl.get("failed"):
            e.report("C32", st, "the script ends with %s although nothing failed" % name)


def run(root, layout="pair", argc=3, verbose=False):
    mon = WriteMonitor(layout, argc)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    p = "contrib/bmap_write.py"
    with open("%s/%s" % (root, p)) as f:
        src = f.read()
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = e.run_source(src + "\nobserve('end')\n", {"__name__": K("__main__"), "__file__": K(p), "observe": mk("ext", "observe")}, filename=p)
    mon.start(st)
    outs = e.explore([st])[0]
    for o in outs:
        mon.done(o)
    return e, mon, outs


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    return result(e, outs, mon.counts)
