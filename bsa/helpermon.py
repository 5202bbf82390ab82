"""What the map of an image rests on: the file system it is on and its block size (C18)."""

import struct

from . import terms as tm
from .engine import Engine, Monitor, AnalysisError
from .terms import K, NONE, TRUE, FALSE, is_k, kv, mk, sym, app

PARAM = "/sys/module/zfs/parameters/zfs_dmu_offset_next_sync"
HEAD = b"Filesystem                Type 1K-blocks     Used Available Use% Mounted on\n"
DF = {
    "nothing": b"",
    "only the heading": HEAD,
    "a line without a type": HEAD + b"rpool\n",
    "zfs": HEAD + b"rpool/USERDATA/foo_5ucog2 zfs  456499712 86956288 369543424  20% /home/foo\n",
    "ext4": HEAD + b"/dev/sda1 ext4  456499712 86956288 369543424  20% /home/zfs\n",
    "fuse on zfs": HEAD + b"zfs fuseblk  456499712 86956288 369543424  20% /home/zfs\n",
}
PARAMS = {"1": "1\n", "0": "0\n", "2": "2\n", "nothing ": "", "garbage": "on\n"}
PIPE = K(-1)


class HelperMonitor(Monitor):
    def __init__(self, what):
        self.what = what
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def setup(self, e):
        self.eng = e
        self.path = sym("image path", ty="str")
        self.file = sym("image file", ty="file")
        self.bs = sym("block size of the file system", ty="int")
        self.blk = sym("st_blksize", ty="int")

    def start(self, st):
        st.g["bs"], st.g["blk"] = self.bs, self.blk
        st.assume(tm.lt(self.bs, tm.ONE), False)
        st.assume(tm.lt(self.blk, tm.ONE), False)

    def fails(self, st, cls="OSError"):
        s = st.clone()
        s.note("fails")
        return s, self.eng.make_exc(s, cls, (K(5), K("message")))

    def name_of(self, st, v):
        """The path of the image: 'given', 'resolved' or None."""
        if v is self.path:
            return "given"
        m = st.meta.get(v)
        if m is app("resolved"):
            return "resolved"
        return None

    def answer(self, st, how):
        outs = []
        for k, text in DF.items():
            s = st.clone()
            s.note("df prints %s" % k)
            s.ctl["df"] = k
            outs += how(s, K(text))
        return outs

    def call(self, st, ev):
        e = self.eng
        n = ev.name
        if n == "observe":
            return getattr(self, "on_" + kv(ev.args[0]))(st, *ev.args[1:]) or NONE
        if self.what == "program":
            return self.lookup(st, ev)
        if n in ("os.path.realpath", "os.path.abspath", "os.fspath", "str") and len(ev.args) == 1 and self.name_of(st, ev.args[0]):
            if n != "os.path.realpath":
                return ev.args[0]
            v = st.fresh(sym("resolved path", ty="str"))
            st.meta[v] = app("resolved")
            return v
        if n in ("subprocess.Popen", "subprocess.run", "subprocess.check_output"):
            return self.df(st, ev, n)
        m = st.meta.get(ev.recv) if ev.recv is not None else None
        if m is app("df") and n in (".communicate", ".wait", ".poll", ".__enter__", ".__exit__", ".kill"):
            if n == ".communicate":
                return self.answer(st, lambda s, v: [(s, "ret", tm.tup([v, K(b"")]))])
            return {".__enter__": ev.recv, ".__exit__": FALSE}.get(n, tm.ZERO)
        if n == "os.stat" or n == "os.path.exists" or n == "os.path.isfile":
            if ev.args[0] is K(PARAM) and n != "os.stat":
                outs = []
                for r in (True, False):
                    if st.ctl.get("param", r) is r or r and st.ctl.get("param"):
                        s = st.clone()
                        s.ctl["param"] = r
                        outs.append((s, "ret", K(r)))
                return outs
        if n in ("open", "io.open", ".open") and ev.args and ev.args[0] is K(PARAM):
            self.count("ZFS parameter read")
            outs = []
            if st.ctl.get("param") is not True:
                s, x = self.fails(st, "FileNotFoundError")
                s.ctl["param"] = False
                outs.append((s, "exc", x))
            if st.ctl.get("param") is not False:
                s, x = self.fails(st, "PermissionError")
                s.ctl["param"] = "unreadable"
                outs.append((s, "exc", x))
                v = st.fresh(sym("parameter file", ty="file"))
                st.meta[v] = app("param")
                outs.append((st, "ret", v))
            return outs
        if m is app("param") and n in (".read", ".readline", ".readlines"):
            outs = []
            for k, text in PARAMS.items():
                s = st.clone()
                s.ctl["param"] = k
                outs.append((s, "ret", K(text)))
            s, x = self.fails(st)
            s.ctl["param"] = "unreadable"
            return outs + [(s, "exc", x)]
        if n == "fcntl.ioctl":
            f, op = ev.args[0], ev.args[1]
            if not is_k(op) or kv(op) != 2:
                e.report("C18", st, "ioctl %s is not FIGETBSZ" % tm.show(op))
            self.count("FIGETBSZ")
            s, x = self.fails(st)
            s.ctl["fs"] = "unknown"
            z = st.clone()
            z.ctl["fs"] = "zero"
            outs = [(s, "exc", x)]
            for t, k in ((st, "known"), (z, "zero")):
                t.ctl["fs"] = k
                v = t.fresh(sym("FIGETBSZ answer", ty="bytes"))
                t.meta[v] = app("answer", self.bs if k == "known" else tm.ZERO)
                outs.append((t, "ret", v))
            return outs
        if n in ("struct.unpack", "struct.unpack_from") and len(ev.args) > 1:
            m = st.meta.get(ev.args[1])
            if m is not None and m.op == "app" and m.args[0] == "answer":
                fmt = kv(ev.args[0])
                if struct.calcsize(fmt) != 4 or len(struct.unpack(fmt, bytes(4))) != 1 or fmt.lstrip("<=@!>")[-1] not in "IiLl":
                    e.report("C18", st, "the block size is unpacked as %r" % fmt)
                return tm.tup([m.args[1][0]])
        if n == "struct.calcsize" and is_k(ev.args[0]):
            return K(struct.calcsize(kv(ev.args[0])))
        if n == "int.from_bytes" and ev.args:
            m = st.meta.get(ev.args[0])
            if m is not None and m.op == "app" and m.args[0] == "answer":
                return m.args[1][0]
        if n in ("os.fstat", "os.stat"):
            v = st.fresh(sym("stat of image"))
            st.meta[v] = app("stat")
            return v
        return None

    def lookup(self, st, ev):
        """The search for a program: a candidate has to be a file and executable."""
        n = ev.name
        if n in ("os.path.isfile", "os.path.exists", "os.path.isdir", "os.access", "os.stat", "os.path.islink"):
            p = ev.args[0]
            a, b = st, st.clone()
            if n in ("os.path.isfile", "os.access"):
                mode = ev.arg(1, "mode") if n == "os.access" else None
                self.count("candidate looked at")
                if n == "os.path.isfile" or mode is not None and is_k(mode) and kv(mode) & 1:
                    k = "isfile" if n == "os.path.isfile" else "executable"
                    a.g[k] = p
                    other = a.g.get("executable" if k == "isfile" else "isfile")
                    if other is p:
                        a.ctl["found"] = True
                        if not any(x is self.path or x.op == "sym" and x.args[0] == "elem-of" for x in tm.walk(p)):
                            self.eng.report("C22", st, "the file looked for is not the program asked for: %s" % tm.show(p))
            return [(a, "ret", TRUE), (b, "ret", FALSE)] if n != "os.stat" else None
        if n == "shutil.which":
            self.count("candidate looked at")
            if ev.args[0] is not self.path:
                self.eng.report("C22", st, "the file looked for is not the program asked for: %s" % tm.show(ev.args[0]))
            s = st.clone()
            v = st.fresh(sym("path of the program", ty="str"))
            st.assume(tm.eq0(self.eng.length(st, v)), False)
            st.ctl["found"] = True
            return [(st, "ret", v), (s, "ret", NONE)]
        return None

    def on_program(self, st, r):
        self.count("answer")
        got = bool(kv(r)) if is_k(r) else st.decide(r)
        found = bool(st.ctl.get("found"))
        if got is None:
            self.eng.report("C22", st, "whether a program is available is judged without looking: %s" % tm.show(r))
        elif got and not found:
            self.eng.report("C22", st, "a program is taken for available without an executable file of its name")
        elif not got and found:
            self.eng.report("C22", st, "an executable file of the program's name is not taken for it")

    def df(self, st, ev, n):
        e = self.eng
        self.count("df started")
        a = ev.arg(0, "args")
        words = self.words(st, a)
        if words is None:
            raise AnalysisError("the command is %s" % tm.show(a))
        flat = [kv(w) if is_k(w) else None for w in words]
        if flat[:1] != ["df"] or not any(x in ("-T", "--print-type") for x in flat) or self.name_of(st, words[-1]) is None:
            e.report("C18", st, "the file system of the image is asked for with %s" % [tm.show(w) for w in words])
        elif self.name_of(st, words[-1]) == "given":
            e.report("C18", st, "the file system is that of a symbolic link's own path, not of the image it leads to")
        s, x = self.fails(st)
        s.ctl["df"] = "failed"
        outs = [(s, "exc", x)]
        v = st.fresh(sym("df process"))
        st.meta[v] = app("df")
        if n == "subprocess.Popen":
            return outs + [(st, "ret", v)]
        if n == "subprocess.run":
            def how(s, text):
                s.g["dfout"] = text
                return [(s, "ret", v)]
            return outs + self.answer(st, how)
        return outs + self.answer(st, lambda s, v: [(s, "ret", v)])

    def words(self, st, v):
        if v is None:
            return None
        if v.op == "tup":
            return list(v.args)
        o = st.obj(v) if v.op == "ref" else None
        return list(o.items) if o is not None and o.kind == "list" and o.items is not None else None

    def load(self, st, obj, name):
        m = st.meta.get(obj)
        if m is app("df"):
            if name == "stdout" and "dfout" in st.g:
                return [(st, "ret", st.g["dfout"])]
            if name == "stderr":
                return [(st, "ret", K(b""))]
            if name == "returncode":
                return [(st, "ret", tm.ZERO)]
        if m is app("stat") and name == "st_blksize":
            return [(st, "ret", self.blk)]
        return None

    # ------------------------------------------------------------------

    def wanted(self, st):
        """What the answer has to be: True, False or 'failure'."""
        df, p = st.ctl.get("df"), st.ctl.get("param")
        if df in ("ext4", "fuse on zfs"):
            return True
        if df != "zfs":
            return "failure"
        if p == "1":
            return True
        if p in ("0", "2", False):
            return False
        if p in ("nothing ", "garbage", "unreadable"):
            return "failure"
        return "unknown"

    def on_result(self, st, r):
        e = self.eng
        self.count("answer")
        w = self.wanted(st)
        got = bool(kv(r)) if is_k(r) else st.decide(r)
        where = "df prints %s, the ZFS parameter is %s" % (st.ctl.get("df"), st.ctl.get("param"))
        if w == "failure":
            e.report("C18", st, "that the file system cannot be told is not reported (%s)" % where)
        elif w == "unknown" or got is None:
            e.report("C18", st, "the file system is judged without looking (%s)" % where)
        elif got is not w:
            e.report("C18", st, "the file system is taken for %s (%s)" % ("suitable" if got else "unsuitable", where))

    def on_size(self, st, r):
        e = self.eng
        self.count("answer")
        fs = st.ctl.get("fs")
        want = self.bs if fs == "known" else self.blk
        if r is not want:
            e.report("C18", st, "the block size is %s instead of %s" % (tm.show(r), tm.show(want)))

    def done(self, st):
        e = self.eng
        if st.outcome[0] != "raise":
            return
        self.count("failure")
        c = e.exc_class(st, st.outcome[1])
        name = c.args[0] if c.op == "ext" else kv(c.args[0]) if c.op == "k" else tm.show(c)
        if str(name).rsplit(".", 1)[-1] in ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "IndexError"):
            e.report("C18", st, "a failure surfaces as %s" % name)
        if self.what == "program":
            return
        if self.what == "size":
            if st.ctl.get("fs") == "known":
                e.report("C18", st, "the block size is refused")
        elif self.wanted(st) not in ("failure", "unknown") or self.wanted(st) == "unknown" and st.ctl.get("df") != "failed":
            e.report("C18", st, "a file system is refused that can be told (df prints %s, the ZFS parameter is %s)" % (st.ctl.get("df"), st.ctl.get("param")))


SRC = {
    "compatible": "r = helpers.is_compatible_file_system(path)\nobserve('result', r)\n",
    "program": "if helpers.program_is_available(path):\n    observe('program', True)\nelse:\n    observe('program', False)\n",
    "size": "r = helpers.get_block_size(file)\nobserve('size', r)\n",
}


def run(root, what="compatible", verbose=False):
    mon = HelperMonitor(what)
    e = Engine(root, mon, verbose=verbose)
    mon.setup(e)
    m = e.load_module("bmaptools.BmapHelpers")
    glob = dict(helpers=m, path=mon.path, file=mon.file, observe=mk("ext", "observe"))
    st = e.run_source(SRC[what], glob)
    mon.start(st)
    outs = e.explore([st])[0]
    for o in outs:
        mon.done(o)
    return e, mon, outs


def task(root, **kw):
    from .common import result

    e, mon, outs = run(root, **kw)
    return result(e, outs, mon.counts)
