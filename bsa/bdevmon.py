"""Copying to a block device: the kernel settings changed for the copy and the capacity
check (C07, C08), and what is handed on to the base class (C01, C06)."""

from . import terms as tm
from .copymon import CopyMonitor
from .engine import AnalysisError, Engine
from .terms import K, NONE, TRUE, ZERO, app, eq0, is_k, kv, mk, sym

KEYS = {"max_ratio": "1", "scheduler": "none"}
BASE = "bmaptools.BmapCopy.BmapCopy.copy"


def selection(text):
    """The current setting a sysfs file with this text denotes."""
    text = text.strip()
    if "[" in text:
        return text.split("[", 1)[1].split("]", 1)[0]
    return text


class BdevMonitor(CopyMonitor):
    opaque = ("bmaptools.BmapHelpers.human_size", BASE)

    def __init__(self, ratio=None, scheduler=None, bmap=False, size=False, explicit=True, full=True):
        CopyMonitor.__init__(self, bmap, size, explicit, False, "2.0" if bmap else None)
        self.text = {"max_ratio": ratio, "scheduler": scheduler}
        self.full = full

    def relevant(self, st, atom):
        if not self.full:
            return True
        return any(x.op == "app" and x.args[0] == "text of" for x in tm.walk(atom))

    def start(self, st):
        CopyMonitor.start(self, st)
        for k, t in self.text.items():
            st.g["cur:" + k] = K(selection(t)) if t is not None else sym("setting of " + k, ty="str")

    def key(self, path):
        last = path
        if path.op == "cat":
            last = path.args[-1]
        if is_k(last) and isinstance(kv(last), str):
            for k in KEYS:
                if kv(last).endswith("/" + k) or kv(last) == k:
                    return k
        return None

    def handle(self, st, v):
        m = st.meta.get(v) if v is not None else None
        if m is not None and m.op == "app" and m.args[0] == "sysfs":
            return kv(m.args[1][0]), kv(m.args[1][1])
        return None

    def failing_os(self, st, ev, key, what):
        s = st.clone()
        s.ctl[("restore" if s.ctl.get("copied") else "tune") + "-failed:" + key] = True
        s.note("%s:%d: %s %s fails" % (ev.site[0], ev.site[2], what, key))
        return (s, "exc", self.eng.make_exc(s, "OSError"))

    def call(self, st, ev):
        n = ev.name
        if n == BASE:
            return self.base_copy(st, ev)
        if n == "open" and ev.args:
            key = self.key(ev.args[0])
            if key:
                mode = ev.arg(1, "mode", K("r"))
                if not is_k(mode):
                    raise AnalysisError("open() of %s with an unknown mode" % key)
                self.count("open of a kernel setting")
                v = st.fresh(sym("sysfs file", self.eng.site_ctx(st), ty="file"))
                st.meta[v] = app("sysfs", K(key), mode)
                return [(st, "ret", v), self.failing_os(st, ev, key, "opening")]
        h = self.handle(st, ev.recv)
        if h:
            return self.sysfs_call(st, ev, *h)
        if n in ("os.lseek",) and self.is_dest_fd(st, ev.args[0]):
            wh = ev.arg(2)
            v = ev.arg(1)
            if tm.is_int(wh) and kv(wh) == 2 and tm.is_int(v) and kv(v) == 0:
                v = st.fresh(sym("capacity", self.eng.site_ctx(st), ty="int"))
                st.g["capacity"] = v
                self.count("capacity of the block device")
            return [(st, "ret", v)] + self.failing(st, ev)
        if ev.recv is self.dest and n == ".seek":
            wh = ev.arg(1, "whence", ZERO)
            if tm.is_int(wh) and kv(wh) == 2 and tm.is_int(ev.arg(0)) and kv(ev.arg(0)) == 0:
                v = st.fresh(sym("capacity", self.eng.site_ctx(st), ty="int"))
                st.g["capacity"] = v
                st.g["dpos"] = v
                self.count("capacity of the block device")
                return [(st, "ret", v)] + self.failing(st, ev)
        return CopyMonitor.call(self, st, ev)

    def raises(self, st, ev):
        if ev.name == "os.lseek":
            return ("OSError",)
        return CopyMonitor.raises(self, st, ev)

    def base_copy(self, st, ev):
        e = self.eng
        self.count("call of the base class copy()")
        a = list(ev.args[1:])
        kw = dict(ev.kw)
        sync = kw.get("sync", a[0] if a else TRUE)
        verify = kw.get("verify", a[1] if len(a) > 1 else TRUE)
        if sync is not self.sync:
            e.report("C06", st, "the base class is asked for sync=%s when sync=%s was requested" % (tm.show(sync), tm.show(self.sync)))
        if verify is not self.verify:
            e.report("C01", st, "the base class is asked for verify=%s when verify=%s was requested" % (tm.show(verify), tm.show(self.verify)))
        if st.ctl.get("copied"):
            e.report("C02", st, "the image is copied twice")
        outs = []
        for c in (None, "bmaptools.BmapCopy.Error", "<any Exception>", "KeyboardInterrupt"):
            s = st.clone()
            if c is None:
                s.ctl["copied"] = "ok"
                outs.append((s, "ret", NONE))
            elif c == "bmaptools.BmapCopy.Error":
                continue
            else:
                s.ctl["copied"] = c
                s.note("%s:%d: the copy ends with %s" % (ev.site[0], ev.site[2], c))
                outs.append((s, "exc", self.eng.make_exc(s, c)))
        return outs

    def sysfs_call(self, st, ev, key, mode):
        e = self.eng
        n = ev.name
        t = self.text[key]
        if n in (".read", ".readline"):
            if "r" not in mode and "+" not in mode:
                return [(st, "exc", e.make_exc(st, "io.UnsupportedOperation"))]
            if st.ctl.get("written:" + key):
                v = st.fresh(sym("new text of " + key, e.site_ctx(st), ty="str"))
            elif t is None:
                v = app("text of", K(key), ty="str")
            else:
                v = K(t + "\n") if "b" not in mode else K((t + "\n").encode())
            return [(st, "ret", v), self.failing_os(st, ev, key, "reading")]
        if n == ".write":
            v = ev.args[0]
            while v.op == "app" and v.args[0] in (".encode", "encode", "str"):
                v = v.args[1][0]
            if is_k(v) and isinstance(kv(v), bytes):
                v = K(kv(v).decode("latin-1"))
            if is_k(v) and isinstance(kv(v), str):
                v = K(kv(v).strip())
            bad = self.failing_os(st, ev, key, "writing")
            st.g["pend:" + key] = v
            self.count("write of a kernel setting")
            return [(st, "ret", ZERO), bad]
        if n in (".close", ".__exit__", ".flush"):
            outs = []
            if "pend:" + key in st.g:
                v = st.g["pend:" + key]
                bad = self.failing_os(st, ev, key, "writing")
                bad[0].g.pop("pend:" + key, None)
                outs.append(bad)
                st.g.pop("pend:" + key)
                self.set_value(st, ev, key, v)
            outs.insert(0, (st, "ret", NONE))
            return outs
        if n in (".seek", ".truncate"):
            return ZERO
        return None

    def set_value(self, st, ev, key, v):
        st.ctl["written:" + key] = True
        st.g["cur:" + key] = v
        st.note("%s:%d: %s is set to %s" % (ev.site[0], ev.site[2], key, tm.show(v)))

    def settle(self, st):
        cap = st.g.get("capacity")
        sz = self.size if self.size is not NONE else st.g.get("x:ImageSize") if self.has_bmap else None
        if sz is not None:
            if st.decide(eq0(sz)) is True or cap is not None and st.decide(tm.lt(cap, sz)) is False:
                st.ctl["fits"] = True

    def mine(self, st, v, key):
        """Is 'v' a part of the text read from the sysfs file?"""
        def atoms(t):
            if t.op == "app" and t.args[0] == "text of":
                return {t}
            out = set()
            if t.op == "sym":
                return {t}
            for x in t.args:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tm.T):
                            out |= atoms(y)
                elif isinstance(x, tm.T):
                    out |= atoms(x)
            return out
        return atoms(v) == {app("text of", K(key), ty="str")}

    def done(self, st):
        e = self.eng
        how = st.outcome[0]
        copied = st.ctl.get("copied")
        cls = tm.show(e.exc_class(st, st.outcome[1])) if how == "raise" else None
        if how == "return" and st.ctl.get("made") is None and not copied:
            e.report("C07", st, "the copy is not done")
            return
        if not copied:
            if st.ctl.get("made") and self.text["scheduler"] is not None:
                e.report("C07", st, "the copy is not even tried when a kernel setting cannot be changed: %s" % cls)
            return
        broke = False
        for key in KEYS:
            cur = st.g["cur:" + key]
            if st.ctl.get("restore-failed:" + key):
                broke = True
                continue
            if st.ctl.get("written:" + key):
                self.count("restored setting")
                t = self.text[key]
                if t is None:
                    if not self.mine(st, cur, key):
                        e.report("C07", st, "%s is left at %s after the copy" % (key, tm.show(cur)))
                elif cur is not K(selection(t)):
                    e.report("C07", st, "%s was '%s' and is left at %s after the copy" % (key, t, tm.show(cur)))
        if copied == "ok" and how == "raise" and not broke:
            e.report("C07", st, "the copy succeeded, but ends with %s" % cls)
        if copied != "ok" and how == "return":
            e.report("C04", st, "the copy failed with %s, but ends normally" % copied)
        if broke and how == "return":
            e.report("C07", st, "a kernel setting cannot be restored, but the copy ends normally")


HARNESS = """
c = make(image, dest, bmap, size)
mark(c)
if explicit:
    c.copy(sync, verify)
else:
    c.copy()
"""
CONSTRUCT = "make(image, dest, bmap, size)\n"


def run(root, verbose=False, **kw):
    mon = BdevMonitor(**kw)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.BmapCopy")
    cls = e.base[m].attrs.get("BmapBdevCopy")
    if cls is None:
        raise AnalysisError("class BmapBdevCopy not found")
    mark = mk("ext", "mark")
    real = mon.call

    def call(st, ev):
        if ev.name == "mark":
            st.ctl["made"] = True
            mon.made(st)
            return NONE
        return real(st, ev)
    mon.call = call
    st = e.run_source(HARNESS if mon.full else CONSTRUCT, dict(
        make=cls, image=mon.image, dest=mon.dest, bmap=mon.bmap, size=mon.size, mark=mark,
        sync=mon.sync, verify=mon.verify, explicit=tm.B(mon.verify is not TRUE)))
    mon.start(st)
    if mon.has_bmap:
        st.assume(mk("truth", mon.bmap))
    outs = e.explore([st])[0]
    for o in outs:
        if mon.full:
            mon.done(o)
        elif o.outcome[0] == "return":
            mon.made(o)
    if not mon.full and not mon.exact and (mon.size is not NONE or mon.has_bmap):
        e.report("C08", outs[0], "an image of exactly the size of the block device is refused", site=("bmaptools/BmapCopy.py", "BmapBdevCopy.__init__", 0))
    return e, mon, outs


def made(self, st):
    self.count("block device copy constructed")
    self.settle(st)
    cap = st.g.get("capacity")
    sz = self.size if self.size is not NONE else st.g.get("x:ImageSize") if self.has_bmap else None
    if cap is not None and sz is not None and st.decide(tm.lt(sz, cap)) is not True:
        self.exact = True
    if (self.size is not NONE or self.has_bmap) and not st.ctl.get("fits"):
        self.eng.report("C08", st, "an image of known size is accepted although it may be larger than the block device")


BdevMonitor.made = made
BdevMonitor.exact = False


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    return result(e, outs, mon.counts)
