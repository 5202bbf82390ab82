"""What a created bmap says (C16), what its checksums are over (C17).

The bmap file is modelled as the text written to it: pieces of constant text and of symbolic
values, cut where tell() is called; ranges are judged one by one as they are written, so the
block map may be of any length."""

import re
import xml.etree.ElementTree as ET

from . import terms as tm
from .engine import Engine, Monitor, AnalysisError
from .state import Obj
from .terms import K, NONE, TRUE, FALSE, ZERO, is_k, kv, mk, sym, app, ty, eq0, tup

BASE = 0xE000
ONE = tm.ONE


class CreateMonitor(Monitor):
    opaque = ("bmaptools.BmapHelpers.human_size", "bmaptools.Filemap.filemap")
    projects = True

    def __init__(self, checksums, given):
        self.checksums = checksums
        self.given = given
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def setup(self, e):
        self.eng = e
        self.path = sym("image path", ty="str")
        self.out = sym("bmap path", ty="str")
        self.image = sym("image file", ty="file")
        self.bmap = sym("bmap file", ty="file")
        self.bs = sym("bs", ty="int")
        self.size = sym("image size", ty="int")
        self.blocks = sym("blocks", ty="int")
        self.map = sym("file map")
        self.ranges = sym("mapped ranges")
        self.pos0 = sym("initial image position", ty="int")
        self.cs = sym("checksum type given", ty="str")

    def start(self, st):
        st.g["bs"], st.g["size"], st.g["blocks"] = self.bs, self.size, self.blocks
        st.assume(tm.lt(self.bs, ONE), False)
        st.assume(mk("lt0", self.size), False)
        st.assume(mk("lt0", self.pos0), False)
        st.assume(tm.lt(tm.mul(self.bs, self.blocks), self.size), False)
        st.assume(tm.lt(tm.mul(self.bs, tm.sub(self.blocks, ONE)), self.size), True)
        st.assume(mk("lt0", self.blocks), False)
        st.g["ip"] = self.pos0
        st.g["M"] = ZERO
        st.g["L"] = K(-1)
        st.g["seg0"] = K("")
        st.ctl.update(nseg=1, part="head", bpos="end", pending=False)

    def fails(self, st, what, cls="OSError"):
        s = st.clone()
        s.ctl["failed"] = what
        s.note("fails: %s" % what)
        return s, self.eng.make_exc(s, cls, (K(5), K("message")))

    def candidates(self, st, phis=()):
        g = st.g
        out = ((tm.lt(tm.add(g["L"], ONE), g["M"]), False), (mk("lt0", g["M"]), False), (tm.lt(g["L"], self.blocks), True), (tm.lt(self.size, g["ip"]), False))
        if "l" in g:
            end = tm.mul(self.bs, tm.add(g["l"], ONE))
            out += ((tm.lt(end, self.size), False),)
            if "h1" in g:
                out += ((tm.lt(end, g["h1"]), False),)
        return out

    # ------------------------------------------------------------------ calls

    def call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == "observe":
            getattr(self, "on_" + kv(ev.args[0]))(st, *ev.args[1:])
            return NONE
        if n == "bmaptools.BmapHelpers.human_size":
            return app("human size", ev.args[0], ty="str")
        if n == "bmaptools.Filemap.filemap":
            self.count("file map")
            a = ev.args[0]
            if a is not self.image and a is not self.path:
                e.report("C16", st, "the block map is not that of the image: %s" % tm.show(a))
            m = e.base[e.load_module("bmaptools.Filemap")].attrs
            outs = [(st, "ret", self.map)]
            for x in ("Error", "ErrorNotSupp"):
                s = st.clone()
                s.ctl["failed"] = "the image cannot be mapped"
                outs.append((s, "exc", e.make_exc(s, m[x], (K("message"),))))
            return outs
        if n == ".get_mapped_ranges" and ev.recv is self.map:
            a, b = ev.arg(0, "start"), ev.arg(1, "count")
            if a is not ZERO or b is None or st.decide(eq0(tm.sub(b, self.blocks))) is not True:
                e.report("C16", st, "the ranges asked for are not those of the whole image")
            return self.ranges
        if n.startswith(".get_") and ev.recv is self.map:
            e.report("C16", st, "the ranges listed are those of %s()" % n[1:])
            return self.ranges
        if n in ("open", "io.open"):
            return self.opened(st, ev)
        f = ev.recv
        if f is self.image:
            return self.image_call(st, ev)
        if f is self.bmap:
            return self.bmap_call(st, ev)
        if n == ".encode" and st.meta.get(f) is app("doc"):
            v = st.fresh(sym("bmap bytes", ty="bytes"))
            st.meta[v] = app("doc")
            return v
        if n in (".update", ".hexdigest", ".digest") and f is not None and f.op == "ref":
            o = st.obj(f)
            if o is not None and o.kind == "hash":
                return self.hash_call(st, ev, o)
        if n.startswith("hashlib."):
            d = ev.arg(1, "data") if n == "hashlib.new" else ev.arg(0, "data")
            if d is not None and st.meta.get(d) is not None:
                algo = ev.arg(0, "name") if n == "hashlib.new" else K(n[8:])
                ref = st.fresh(mk("ref", "hash", e.site_ctx(st), "hash"))
                st.heap[ref] = Obj("hash", attrs={"$algo": algo, "$data": K(b"")})
                self.hashed(st, ref, d)
                return ref
            if n == "hashlib.new" and not is_k(ev.arg(0, "name")) and not st.ctl.get("known type"):
                s = st.clone()
                st.ctl["known type"] = True
                ref = st.fresh(mk("ref", "hash", e.site_ctx(st), "hash"))
                st.heap[ref] = Obj("hash", attrs={"$algo": ev.arg(0, "name"), "$data": K(b"")})
                return [(st, "ret", ref), (s, "exc", e.make_exc(s, "ValueError", (K("unsupported hash type"),)))]
        return None

    def opened(self, st, ev):
        e = self.eng
        mode = ev.arg(1, "mode", K("r"))
        m = kv(mode) if is_k(mode) else "?"
        p = ev.args[0]
        if p is self.path:
            s, x = self.fails(st, "the image cannot be opened")
            if set(m) & set("wax+?"):
                e.report("C28", st, "the image file is opened for writing")
            if "b" not in m:
                e.report("C17", st, "the image file is opened as text")
            st.g["ip"] = ZERO
            return [(st, "ret", self.image), (s, "exc", x)]
        if p is self.out:
            s, x = self.fails(st, "the bmap cannot be opened")
            if "w" not in m and "x" not in m or "+" not in m or "b" in m:
                e.report("C16", st, "the bmap file is opened with mode %r" % m)
            return [(st, "ret", self.bmap), (s, "exc", x)]
        return None

    def image_call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == ".tell":
            return st.g["ip"]
        if n == ".seek":
            wh = ev.arg(1, "whence", ZERO)
            off = ev.arg(0)
            s, x = self.fails(st, "seek in the image")
            if is_k(wh) and kv(wh) == 1:
                off = tm.add(st.g["ip"], off)
            elif is_k(wh) and kv(wh) == 2:
                off = tm.add(self.size, off)
            st.g["ip"] = off
            st.ctl.pop("eof", None)
            return [(st, "ret", off), (s, "exc", x)]
        if n in (".read", ".read1"):
            return self.read(st, ev.arg(0, "size"))
        if n in (".write", ".truncate", ".writelines"):
            e.report("C28", st, "the image file is changed: %s" % n)
        return None

    def read(self, st, n):
        s, x = self.fails(st, "read of the image")
        outs = [(s, "exc", x)]
        p = st.g["ip"]
        if n is None or is_k(n) and (kv(n) is None or kv(n) < 0):
            n = tm.sub(self.size, p)
            full, short = None, st
        else:
            full, short = st.clone(), st
            if not full.assume(tm.lt(self.size, tm.add(p, n)), False):
                full = None
            if not short.assume(tm.lt(self.size, tm.add(p, n)), True):
                short = None
        if full is not None:
            full.g["ip"] = tm.add(p, n)
            outs.append((full, "ret", self.data(full, p, n)))
        if short is not None:
            none = short.clone()
            if none.assume(tm.lt(p, self.size), False):
                none.ctl["eof"] = True
                outs.append((none, "ret", K(b"")))
            if short.assume(tm.lt(p, self.size), True):
                short.ctl["eof"] = True
                short.g["ip"] = self.size
                outs.append((short, "ret", self.data(short, p, tm.sub(self.size, p))))
        return outs

    def data(self, st, pos, n):
        v = st.fresh(sym("image data", self.eng.site_ctx(st), ty="bytes"))
        st.meta[v] = app("data-at", pos, n)
        return v

    # ------------------------------------------------------------------ hashes

    def hash_call(self, st, ev, o):
        e = self.eng
        if ev.name == ".update":
            d = ev.args[0]
            if d is K(b""):
                return NONE
            if st.meta.get(d) is None:
                e.report("C17" if self.image in tm.leaves(d) else "C16", st, "something else than the image or the bmap is hashed: %s" % tm.show(d))
                return NONE
            self.hashed(st, ev.recv, d)
            return NONE
        m = st.meta.get(ev.recv)
        if m is app("hash of doc"):
            v = st.fresh(sym("bmap digest", e.site_ctx(st), ty="str"))
            st.meta[v] = app("doc digest", o.attrs["$algo"], K(ev.name))
            return v
        if m is app("hash of data") and st.g.get("hobj") is ev.recv:
            v = st.fresh(sym("range digest", e.site_ctx(st), ty="str"))
            st.meta[v] = app("digest", o.attrs["$algo"], st.g["h0"], st.g["h1"], K(ev.name))
            return v
        return None

    def hashed(self, st, h, d):
        e = self.eng
        m = st.meta.get(d)
        if m is app("doc"):
            st.meta[h] = app("hash of doc")
            st.ctl["hashed"] = tuple(sorted(k for k in st.g if k.startswith("over"))) + (st.ctl["part"],)
            return
        if m.op != "app" or m.args[0] != "data-at":
            e.report("C17", st, "something else than image data is hashed: %s" % tm.show(d))
            return
        p, n = m.args[1]
        self.count("image data hashed")
        if st.g.get("hobj") is not h:
            if st.meta.get(h) is not None:
                e.report("C17", st, "data is added to the checksum of something else")
            st.meta[h] = app("hash of data")
            st.g["hobj"] = h
            st.g["h0"] = p
        elif st.decide(eq0(tm.sub(st.g["h1"], p))) is not True:
            e.report("C17", st, "a checksum is not calculated over consecutive data (%s after %s)" % (tm.show(p), tm.show(st.g["h1"])))
        st.g["h1"] = tm.add(p, n)
        st.ctl.pop("whole", None)
        if "l" in st.g and st.decide(eq0(tm.sub(st.g["h1"], tm.mul(self.bs, tm.add(st.g["l"], ONE))))) is True:
            st.ctl["whole"] = True

    # ------------------------------------------------------------------ the bmap file

    def bmap_call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == ".tell":
            p = st.ctl["bpos"]
            if p == "end":
                i = st.ctl["nseg"]
                if st.ctl["part"] == "head":
                    if st.g["seg%d" % (i - 1)] is not K("") or i == 1:
                        st.g["seg%d" % i] = K("")
                        st.ctl["nseg"] = i + 1
                    else:
                        i -= 1
                    v = st.fresh(sym("position", e.site_ctx(st), ty="int"))
                    st.meta[v] = app("pos", K(i))
                    return v
            return st.fresh(sym("position", e.site_ctx(st), ty="int"))
        if n == ".seek":
            return self.seek(st, ev)
        if n in (".write", ".writelines"):
            s, x = self.fails(st, "write of the bmap")
            if n == ".writelines" or ty(ev.args[0]) == "bytes":
                raise AnalysisError("%s of the bmap file with %s" % (n, tm.show(ev.args[0])))
            self.written(st, ev.args[0])
            return [(st, "ret", self.eng.length(st, ev.args[0])), (s, "exc", x)]
        if n == ".read" and not (ev.args and not is_k(ev.args[0])):
            v = st.fresh(sym("bmap text", e.site_ctx(st), ty="str"))
            if st.ctl["bpos"] == "start":
                st.meta[v] = app("doc")
            st.ctl["bpos"] = "end"
            return v
        if n in (".flush", ".close", ".__exit__"):
            s, x = self.fails(st, "flush of the bmap")
            st.ctl["dirty"] = False
            return [(st, "ret", FALSE if n == ".__exit__" else NONE), (s, "exc", x)]
        if n == ".__enter__":
            return self.bmap
        if n == ".truncate":
            e.report("C16", st, "the bmap file is truncated")
        return None

    def seek(self, st, ev):
        e = self.eng
        off, wh = ev.arg(0), ev.arg(1, "whence", ZERO)
        m = st.meta.get(off)
        if is_k(wh) and kv(wh) == 2 and off is ZERO:
            st.ctl["bpos"] = "end"
        elif is_k(wh) and kv(wh) == 0 and off is ZERO:
            st.ctl["bpos"] = "start"
        elif is_k(wh) and kv(wh) == 0 and m is not None and m.op == "app" and m.args[0] == "pos":
            st.ctl["bpos"] = kv(m.args[1][0])
        else:
            e.report("C16", st, "the position %s in the bmap file is not one where something was left out" % tm.show(off))
            st.ctl["bpos"] = "?"
        s, x = self.fails(st, "seek in the bmap")
        return [(st, "ret", off), (s, "exc", x)]

    def written(self, st, text):
        e = self.eng
        g = st.g
        self.count("bmap text written")
        st.ctl["dirty"] = True
        p = st.ctl["bpos"]
        if p == "end":
            self.append(st, text)
        elif isinstance(p, int):
            g["over%d" % p] = text
            st.ctl["bpos"] = "?"
            if st.ctl.get("hashed"):
                if "late" in st.ctl:
                    e.report("C16", st, "the bmap file is changed after its checksum was calculated")
                st.ctl["late"] = p
        else:
            e.report("C16", st, "the bmap file is written to at the wrong place")

    def append(self, st, text):
        e = self.eng
        g = st.g
        if st.ctl.get("hashed"):
            e.report("C16", st, "the bmap file is extended after its checksum was calculated")
        if st.ctl["part"] == "head":
            k = "seg%d" % (st.ctl["nseg"] - 1)
            g[k] = tm.cat((g[k], text))
            s, v = self.flat((g[k],))
            m = re.search(r"<BlockMap[^<>]*>", s)
            if m is None:
                return
            g[k] = self.terms(s[:m.end()], v)
            st.ctl["part"] = "map"
            text = self.terms(s[m.end():], v)
        if st.ctl["part"] == "map":
            s, v = self.flat((g.get("cur", K("")), text))
            while True:
                s = s.lstrip()
                m = re.match(r"<!--.*?-->", s, re.S)
                if m is None:
                    m = re.match(r"<Range(?P<attrs>[^<>]*)>(?P<body>[^<>]*)</Range\s*>", s)
                    if m is None:
                        break
                    self.element(st, m.group("attrs"), m.group("body"), v)
                s = s[m.end():]
            if not s.startswith("</BlockMap"):
                g["cur"] = self.terms(s, v)
                return
            st.ctl["part"] = "tail"
            g["cur"] = K("")
            text = self.terms(s, v)
        g["tail"] = tm.cat((g.get("tail", K("")), text))

    def flat(self, parts):
        """Text with a placeholder for each symbolic piece, and the pieces."""
        t = tm.cat(parts)
        seq = t.args if t.op == "cat" else (t,)
        out, vals = "", []
        for p in seq:
            if tm.is_str(p):
                out += kv(p)
            else:
                if p.op == "app" and p.args[0] == "str":
                    p = p.args[1][0]
                out += chr(BASE + len(vals))
                vals.append(p)
        return out, vals

    def terms(self, s, vals):
        return tm.cat([vals[ord(c) - BASE] if ord(c) >= BASE and ord(c) - BASE < len(vals) else K(c) for c in s] or [K("")])

    def element(self, st, attrs, body, vals):
        e = self.eng
        self.count("Range element written")
        val = lambda c: vals[ord(c) - BASE]
        if not st.ctl["pending"]:
            e.report("C16", st, "a Range element is written for no mapped range, or twice")
            return
        st.ctl["pending"] = False
        f, l = st.g["f"], st.g["l"]
        begin, end = tm.mul(f, self.bs), tm.mul(tm.add(l, ONE), self.bs)
        for k in ("f", "l", "hobj", "h0", "h1"):
            st.g.pop(k, None)
        st.ctl.pop("whole", None)
        m = re.match(r"^\s*([\ue000-\uefff])\s*(?:-\s*([\ue000-\uefff])\s*)?$", body)
        if m is None:
            e.report("C16", st, "a Range element says %r" % body)
        else:
            a = val(m.group(1))
            b = val(m.group(2)) if m.group(2) else a
            if ty(a) not in ("int", None) or st.decide(eq0(tm.sub(a, f))) is not True or st.decide(eq0(tm.sub(b, l))) is not True:
                e.report("C16", st, "the Range element for the mapped blocks %s to %s says %s to %s" % (tm.show(f), tm.show(l), tm.show(a), tm.show(b)))
        found = {}
        for m in re.finditer(r"\s([\w:.-]+)\s*=\s*(\"[^\"]*\"|'[^']*')", attrs):
            found[m.group(1)] = m.group(2)[1:-1]
        if set(found) != ({"chksum"} if self.checksums else set()) or re.sub(r"\s([\w:.-]+)\s*=\s*(\"[^\"]*\"|'[^']*')", "", attrs).strip():
            e.report("C17", st, "a Range element has the attributes %r" % attrs)
            return
        if not self.checksums:
            return
        d = found["chksum"]
        m = st.meta.get(val(d)) if re.match(r"^[\ue000-\uefff]$", d) else None
        if m is None or m.op != "app" or m.args[0] != "digest":
            e.report("C17", st, "the checksum of a range is %r, no digest of image data" % d)
            return
        algo, h0, h1, how = m.args[1]
        if algo is not st.g.get("algo", algo) or kv(how) != ".hexdigest":
            e.report("C17", st, "the checksum of a range is calculated with %s" % tm.show(algo))
        st.g["algo"] = algo
        if st.decide(eq0(tm.sub(h0, begin))) is not True:
            e.report("C17", st, "the checksum of a range begins at %s instead of %s" % (tm.show(h0), tm.show(begin)))
        if st.decide(eq0(tm.sub(h1, end))) is not True and not (st.decide(eq0(tm.sub(h1, self.size))) is True and st.decide(tm.lt(end, self.size)) is False):
            e.report("C17", st, "the checksum of a range ends at %s instead of %s" % (tm.show(h1), tm.show(end)))

    def iter(self, st, ev, it):
        if ev.recv is not self.ranges:
            return None
        e = self.eng
        self.count("mapped range listed")
        if st.ctl["pending"]:
            e.report("C16", st, "a mapped range is not recorded")
        if st.ctl.get("exhausted"):
            return [(st, None)]
        f = sym("first", ty="int")
        l = sym("last", ty="int")
        s = st.clone()
        f, l = s.fresh(f), s.fresh(l)
        s.assume(tm.lt(s.g["L"], f), True)
        s.assume(tm.lt(l, f), False)
        s.assume(tm.lt(l, self.blocks), True)
        s.keep(mk("lt0", f), False)
        bf, bl = tm.mul(self.bs, f), tm.mul(self.bs, l)
        s.keep(tm.lt(bl, bf), False)
        s.keep(tm.lt(bf, tm.mul(self.bs, tm.add(s.g["L"], ONE))), False)
        s.keep(mk("lt0", bf), False)
        s.keep(tm.lt(tm.mul(self.bs, self.blocks), tm.add(bl, self.bs)), False)
        # listing moves the position in the image (seeking for data and holes)
        s.g["ip"] = s.fresh(sym("position after listing", ty="int"))
        st.g["ip"] = st.fresh(sym("position after listing", ty="int"))
        s.g["f"], s.g["l"] = f, l
        s.g["M"] = tm.add(s.g["M"], tm.add(tm.sub(l, f), ONE))
        s.g["L"] = l
        s.ctl["pending"] = True
        s.ctl.pop("eof", None)
        s.ctl.pop("whole", None)
        for k in ("hobj", "h0", "h1"):
            s.g.pop(k, None)
            st.g.pop(k, None)
        bad = st.clone()
        bad.ctl["failed"] = "the map of the image cannot be read"
        m = e.base[e.load_module("bmaptools.Filemap")].attrs["Error"]
        st.ctl["pending"] = False
        st.ctl["exhausted"] = True
        for k in ("f", "l"):
            st.g.pop(k, None)
        room = tm.to_poly(tm.sub(self.size, bf))
        more = [] if s.entails(room) and s.entails(tm.p_add({(): -1}, room, -1)) else [(s, tup((f, l)))]
        return more + [(st, None), (bad, ("exc", e.make_exc(bad, m, (K("message"),))))]

    def load(self, st, obj, name):
        if obj is self.map:
            v = {"image_size": self.size, "block_size": self.bs, "blocks_cnt": self.blocks}.get(name)
            if v is not None:
                return [(st, "ret", v)]
        if name == "digest_size" and obj.op == "ref":
            o = st.obj(obj)
            if o is not None and o.kind == "hash":
                return [(st, "ret", app("digest size", o.attrs["$algo"], ty="int"))]
        return None

    # ------------------------------------------------------------------ the end

    def on_end(self, st):
        e = self.eng
        self.count("bmap created")
        g, ctl = st.g, st.ctl
        if ctl.get("failed"):
            e.report("C16", st, "the bmap is created successfully although something failed: %s" % ctl["failed"])
            return
        if st.decide(eq0(self.size)) is not False:
            e.report("C16", st, "a bmap is created for an empty image")
        if ctl.get("dirty") is not False:
            e.report("C16", st, "the bmap is not flushed")
        if not ctl.get("exhausted"):
            e.report("C16", st, "not all the mapped ranges are looked at")
        if self.given == "file" and g["ip"] is not self.pos0:
            e.report("C16", st, "the position in the image file is not restored")
        parts = []
        for i in range(ctl["nseg"]):
            seg = g["seg%d" % i]
            over = g.get("over%d" % i)
            if over is not None:
                seg = tm.cat((over, self.rest(st, i, seg, over)))
            parts.append(seg)
        parts.append(g.get("tail", K("")))
        if g.get("cur", K("")) is not K(""):
            e.report("C16", st, "the block map contains %s" % tm.show(g["cur"]))
        s, vals = self.flat(parts)
        try:
            root = ET.fromstring(s)
        except ET.ParseError as err:
            e.report("C16", st, "the bmap is no XML document: %s" % err)
            return
        if root.tag != "bmap" or not re.match(r"^(2\.\d+|1\.4)$", root.get("version", "")):
            e.report("C16", st, "the bmap is a <%s version=%r>" % (root.tag, root.get("version")))
        want = {"ImageSize": self.size, "BlockSize": self.bs, "BlocksCount": self.blocks, "MappedBlocksCount": g["M"], "ChecksumType": None, "BmapFileChecksum": None, "BlockMap": None}
        got = {}
        for x in root:
            got.setdefault(x.tag, []).append((x.text or "").strip())
        for k, w in want.items():
            if len(got.get(k, ())) != 1:
                e.report("C16", st, "the bmap has %d elements %s" % (len(got.get(k, ())), k))
                continue
            t = got[k][0]
            v = vals[ord(t) - BASE] if re.match(r"^[\ue000-\uefff]$", t) else None
            if w is not None:
                if v is None and t.isdigit():
                    v = K(int(t))
                if v is None or ty(v) not in ("int", None) or st.decide(eq0(tm.sub(v, w))) is not True:
                    e.report("C16", st, "%s is %s" % (k, tm.show(v) if v is not None else repr(t)))
            elif k == "ChecksumType":
                g["type"] = v if v is not None else K(t)
            elif k == "BmapFileChecksum":
                self.judge_own(st, v, t)
        for k in set(got) - set(want):
            e.report("C16", st, "the bmap has an element %s" % k)
        if "algo" in g and g["algo"] is not g.get("type"):
            e.report("C17", st, "the checksums are calculated with %s, ChecksumType says %s" % (tm.show(g["algo"]), tm.show(g.get("type", NONE))))

    def judge_own(self, st, v, t):
        e = self.eng
        m = st.meta.get(v) if v is not None else None
        if m is None or m.op != "app" or m.args[0] != "doc digest":
            e.report("C16", st, "BmapFileChecksum is %s" % (tm.show(v) if v is not None else repr(t)))
            return
        algo, how = m.args[1]
        if kv(how) != ".hexdigest" or algo is not st.g.get("type"):
            e.report("C16", st, "BmapFileChecksum is calculated with %s" % tm.show(algo))
        overs = [k for k in st.g if k.startswith("over")]
        if st.ctl.get("hashed") != tuple(sorted(k for k in overs if k != "over%s" % st.ctl.get("late"))) + ("tail",):
            e.report("C16", st, "BmapFileChecksum is calculated before the bmap is complete")

    def rest(self, st, i, seg, over):
        """What is left of a piece of the file after its beginning was written over."""
        e = self.eng
        seq = list(seg.args) if seg.op == "cat" else [seg]
        # the room left
        const, reps = 0, []
        fill = set()
        while seq:
            p = seq[0]
            if tm.is_str(p):
                m = re.match(r"( +|0+)", kv(p))
                if m is None:
                    break
                room = m.group(0)
                left = kv(p)[len(room):]
                # the last blank in front of a tag or the text of a comment is a separator
                if left and left[0] == "<" and room[0] == " ":
                    room, left = room[:-1], " " + left
                fill.update(room)
                const += len(room)
                if left:
                    seq[0] = K(left)
                    break
                seq.pop(0)
                continue
            if p.op == "app" and p.args[0] == "repeat" and is_k(p.args[1][0]) and kv(p.args[1][0]) in (" ", "0"):
                fill.add(kv(p.args[1][0]))
                reps.append(p.args[1][1])
                seq.pop(0)
                continue
            break
        m = st.meta.get(over)
        if m is None and over.op == "app" and over.args[0] == "str":
            m = st.meta.get(over.args[1][0])
        if m is not None and m.op == "app" and m.args[0] == "doc digest":
            # as many zeroes as the digest is long
            ok = False
            if fill == {"0"} and not const and len(reps) == 1:
                r = reps[0]
                for l in tm.leaves(r) | {r}:
                    pass
                ok = self.digest_length(r, m.args[1][0])
            if not ok:
                e.report("C16", st, "the place of BmapFileChecksum is not filled with as many zeroes as it is long")
            return tm.cat(seq or [K("")])
        if fill - {" "}:
            e.report("C16", st, "something else than blanks is written over")
        v = over.args[1][0] if over.op == "app" and over.args[0] == "str" else over
        digits = tm.is_str(v) and kv(v).isdigit()
        if ty(v) == "int" or digits:
            # a number: there has to be room for its digits
            ok = const >= (len(kv(v)) if digits else 20) or digits and len(kv(v)) <= const + len(reps)
            for r in reps:
                if r.op == "app" and r.args[0] == "len":
                    x = r.args[1][0]
                    if x.op == "app" and x.args[0] == "str":
                        x = x.args[1][0]
                    if ty(x) == "int" and not digits and st.decide(tm.lt(x, v)) is False:
                        ok = True
            if not ok:
                e.report("C16", st, "there may be no room in the bmap for the number %s" % tm.show(v))
            return tm.cat(seq or [K("")])
        # a comment: 'SIZE or PERCENT%', the size may be three characters longer than that of the image
        self.comment(st, seq, const, reps, over)
        return self.after_comment(seq)

    def digest_length(self, r, algo):
        if r.op == "app" and r.args[0] == "len":
            x = r.args[1][0]
            return x.op == "app" and x.args[0] == "hexdigest" and x.args[1][0] is algo
        return r is tm.mul(K(2), app("digest size", algo, ty="int"))

    def comment(self, st, seq, const, reps, over):
        e = self.eng
        # everything up to the end of the comment
        sizes = 1 if reps else 0
        while seq and not (tm.is_str(seq[0]) and "-->" in kv(seq[0])):
            p = seq.pop(0)
            if tm.is_str(p):
                const += len(kv(p))
            elif p.op == "app" and p.args[0] == "repeat":
                sizes += 1
        if not seq:
            e.report("C16", st, "%s is written over something else than a comment" % tm.show(over))
            return
        const += kv(seq[0]).index("-->")
        seq[0] = K(kv(seq[0])[kv(seq[0]).index("-->"):])
        need = 0
        humans = 0
        for p in over.args if over.op == "cat" else (over,):
            if tm.is_str(p):
                need += len(kv(p))
            elif p.op == "app" and p.args[0] == "human size":
                humans += 1
            elif p.op == "app" and p.args[0] in ("fmt", "format"):
                m = re.match(r"^%?(?:\.(\d+))?f$", kv(p.args[1][0]))
                d = int(m.group(1) or 6) if m else 6
                need += 3 + (d + 1 if d else 0)
            else:
                need += 20
        if humans > sizes or const < need + 3 * humans:
            e.report("C16", st, "there may be no room in the comment of the bmap for %s" % tm.show(over))

    def after_comment(self, seq):
        return tm.cat(seq or [K("")])

    def done(self, st):
        e = self.eng
        if st.outcome[0] != "raise":
            return
        self.count("failure")
        c = e.exc_class(st, st.outcome[1])
        name = c.args[0] if c.op == "ext" else kv(c.args[0]) if c.op == "k" else tm.show(c)
        if str(name).rsplit(".", 1)[-1] in ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "IndexError", "KeyError", "ZeroDivisionError"):
            e.report("C16", st, "a failure surfaces as %s" % name)
        elif not st.ctl.get("failed") and st.ctl.get("known type") and st.decide(eq0(self.size)) is False:
            e.report("C16", st, "no bmap is created although nothing failed (%s)" % name)


SRC = """
c = create.BmapCreate(image, bmap, chksum)
c.generate(%s)
observe("end")
"""


def run(root, checksums=True, given="path", verbose=False):
    mon = CreateMonitor(checksums, given)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.BmapCreate")
    glob = dict(create=m, image=mon.path if given == "path" else mon.image, bmap=mon.out if given == "path" else mon.bmap, chksum=mon.cs, observe=mk("ext", "observe"))
    st = e.run_source(SRC % checksums, glob)
    mon.start(st)
    outs = e.explore([st])[0]
    for o in outs:
        mon.done(o)
    return e, mon, outs


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    return result(e, outs, mon.counts)
