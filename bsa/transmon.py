"""Transparent reading: which program reads which kind of file, what the local shell gets
to see, failing programs, seeking in streams and what is left behind (C21 - C25)."""

import shlex

from . import terms as tm
from .engine import AnalysisError, Engine, Monitor
from .terms import K, NONE, ZERO, app, eq0, is_k, kv, mk, sym, tup, ty

AVAIL = "bmaptools.BmapHelpers.program_is_available"
GZ = (("pigz", "gzip", "unpigz", "gunzip", "zcat"), ("z", "gzip", "gunzip", "ungzip"))
BZ = (("pbzip2", "bzip2", "lbzip2", "bunzip2", "bzcat"), ("j", "bzip2"))
XZ = (("xz", "pixz", "unxz", "xzcat"), ("J", "xz"))
LZO = (("lzop", "unlzop"), ("lzop", "lzo"))
LZ4 = (("lz4", "unlz4", "lz4cat"), ())
ZST = (("zstd", "unzstd", "zstdcat", "pzstd"), ("zstd",))
ZIP = (("funzip",), ())
SUFFIXES = {
    ".gz": (GZ, False), ".gzip": (GZ, False), ".bz2": (BZ, False), ".xz": (XZ, False), ".lzo": (LZO, False),
    ".lz4": (LZ4, False), ".zst": (ZST, False), ".zip": (ZIP, False),
    ".tar.gz": (GZ, True), ".tgz": (GZ, True), ".tar.bz2": (BZ, True), ".tbz": (BZ, True), ".tbz2": (BZ, True),
    ".tb2": (BZ, True), ".tar.xz": (XZ, True), ".txz": (XZ, True), ".tar.lzo": (LZO, True), ".tzo": (LZO, True),
    ".tar.lz4": (LZ4, True), ".tlz4": (LZ4, True), ".tar.zst": (ZST, True), ".tzst": (ZST, True),
}
PLAIN = (".img", ".raw", ".wic", ".bmap", ".hddimg", "", ".gz.img", ".tar", "gz", ".tar.gz.bmap", ".xz.part")
IMPLIED = ("unpigz", "gunzip", "zcat", "bunzip2", "bzcat", "unxz", "xzcat", "unlzop", "unlz4", "lz4cat", "unzstd", "zstdcat", "funzip")


def wrong_command(words, kind, tar):
    """Why the command does not decompress its standard input to its standard output."""
    progs, filters = kind
    prog, opts = words[0].rsplit("/", 1)[-1], words[1:]
    if not tar:
        if prog not in progs:
            return "runs %s" % prog
        short = "".join(o[1:] for o in opts if o.startswith("-") and not o.startswith("--"))
        if prog not in IMPLIED and "d" not in short and not any(o in ("--decompress", "--uncompress") for o in opts):
            return "does not decompress"
        if any(not o.startswith("-") for o in opts) or "z" in short or "t" in short or "l" in short:
            return "is not a plain decompression"
        return None
    if prog not in ("tar", "bsdtar", "gtar"):
        return "runs %s instead of tar" % prog
    use = set()
    skip = False
    for i, o in enumerate(opts):
        if skip:
            skip = False
        elif o.startswith("--"):
            use.add(o[2:])
        elif o.startswith("-") or i == 0:
            s = o.lstrip("-")
            while s:
                if s[0] in "ICf":
                    arg = s[1:] or (opts[i + 1] if i + 1 < len(opts) else "")
                    skip = not s[1:]
                    use.add(s[0] + "=" + arg)
                    break
                use.add(s[0])
                s = s[1:]
        else:
            return "extracts only some members"
    if not use & {"x", "extract", "get"}:
        return "does not extract"
    if not use & {"O", "to-stdout"}:
        return "does not extract to its standard output"
    if any(u.startswith("f=") and u != "f=-" for u in use):
        return "does not read its standard input"
    filt = {u for u in use if u in ("z", "j", "J", "Z", "gzip", "gunzip", "ungzip", "bzip2", "xz", "lzo", "lzop", "lzip", "lzma", "zstd", "a")}
    prog = {u.split("=", 1)[1].split()[0] for u in use if u.startswith(("I=", "use-compress-program=")) and u.split("=", 1)[1]}
    if filt - set(filters) or prog - set(progs) or not (filt or prog):
        return "uses the wrong decompressor"
    return None


def hidden_status(line):
    """The operator because of which the shell's exit status is not that of the first program."""
    lex = shlex.shlex(line, posix=True, punctuation_chars=True)
    lex.whitespace_split = True
    try:
        toks = list(lex)
    except ValueError:
        return None
    for i, t in enumerate(toks):
        if t in ("|", "|&", "||", ";", "&"):
            return t if i + 1 < len(toks) or t == "&" else None
    return None


class TransMonitor(Monitor):
    opaque = (AVAIL,)

    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.n = sym("n", ty="int")
        self.off = sym("offset", ty="int")
        self.counts = {}
        self.eng = None
        base = name.rsplit("/", 1)[-1]
        self.kind = None
        for s in sorted(SUFFIXES, key=len, reverse=True):
            if base.endswith(s) and len(base) > len(s):
                self.kind = SUFFIXES[s]
                break

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def relevant(self, st, atom):
        for x in tm.walk(atom):
            if x.op == "app" and str(x.args[0]) in (".reason", ".errno", ".port") or x.op == "attr":
                return False
        return self.mode != "open" or True

    def start(self, st):
        st.g.update(spos=ZERO, n=self.n, off=self.off)

    # ------------------------------------------------ programs

    def words(self, st, ev):
        """(words or None, is there anything else than constants, through the shell)"""
        a = ev.arg(0, "args")
        shell = ev.arg(None, "shell")
        sh = shell is not None and not (is_k(shell) and not kv(shell))
        if is_k(a) and isinstance(kv(a), str):
            try:
                w = shlex.split(kv(a))
            except ValueError:
                w = None
            return w, False, sh
        its = None
        if a is not None and a.op == "tup":
            its = a.args
        elif a is not None and a.op == "ref":
            o = st.obj(a)
            if o is not None and o.kind == "list":
                its = o.items
        if its is not None:
            w = [kv(x) if is_k(x) else None for x in its]
            return w, any(x is None for x in w), sh
        return None, True, sh

    def call(self, st, ev):
        n = ev.name
        e = self.eng
        if n == AVAIL:
            p = ev.args[0]
            self.count("availability test")
            k = "avail:" + (kv(p) if is_k(p) else "?")
            if k in st.ctl:
                return tm.B(st.ctl[k])
            a, b = st, st.clone()
            a.ctl[k] = True
            b.ctl[k] = False
            return [(a, "ret", K(True)), (b, "ret", K(False))]
        if n in ("subprocess.Popen", "subprocess.call", "subprocess.run", "subprocess.check_call", "subprocess.check_output"):
            return self.popen(st, ev)
        if n in ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput"):
            self.count("program started")
            if not is_k(ev.args[0]):
                e.report("C22", st, "a command made of more than constants is given to the local shell: %s" % tm.show(ev.args[0]))
            return None
        if n == "observe":
            self.observe(st, ev)
            return NONE
        if n == "open" or n == "io.open":
            bad = st.clone()
            x = e.make_exc(bad, "OSError")
            mode = ev.arg(1, "mode", K("r"))
            if not is_k(mode) or set(kv(mode)) - set("rbt"):
                e.report("C28", st, "the file to read is opened with the mode %s" % tm.show(mode))
            v = st.fresh(sym("opened file", e.site_ctx(st), ty="file"))
            st.g["file"] = v
            st.ctl["opened"] = True
            return [(st, "ret", v), (bad, "exc", x)]
        if n == ".open" and ev.recv is not None and ev.recv.op != "ref":
            bads = []
            for c in ("OSError", "urllib.error.URLError", "TimeoutError", "ValueError", "http.client.BadStatusLine", "http.client.InvalidURL"):
                b = st.clone()
                bads.append((b, "exc", e.make_exc(b, c)))
            v = st.fresh(sym("opened URL", e.site_ctx(st), ty="file"))
            st.g["url"] = v
            st.ctl["opened-url"] = True
            b = st.clone()
            st.ctl["url-seekable"] = True
            b.ctl["url-seekable"] = False
            return [(st, "ret", v), (b, "ret", v)] + bads
        if n in (".wait", ".communicate") and self.proc(st, ev.recv):
            k = self.proc(st, ev.recv)
            v = st.fresh(sym("exit status", e.site_ctx(st), ty="int"))
            st.setattr(ev.recv, "returncode", v)
            st.g["status:" + k] = v
            st.ctl["alive:" + k] = False
            return v if n == ".wait" else None
        if n == ".poll" and self.proc(st, ev.recv):
            k = self.proc(st, ev.recv)
            a, b = st, st.clone()
            v = a.fresh(sym("exit status", e.site_ctx(a), ty="int"))
            a.g["status:" + k] = v
            a.setattr(self.proc_term(a, k), "returncode", v)
            a.ctl["alive:" + k] = False
            outs = [(a, "ret", v)]
            if b.ctl.get("alive:" + k) is not False:
                outs.append((b, "ret", NONE))
            return outs
        if n in (".kill", ".terminate", ".send_signal") and self.proc(st, ev.recv):
            k = self.proc(st, ev.recv)
            if st.ctl.get("alive:" + k) and n == ".kill":
                st.ctl["alive:" + k] = "killed"
            return NONE
        if n in (".close", ".__exit__") and ev.recv is not None:
            for k in ("file", "url"):
                if k in st.g and ev.recv is st.g[k]:
                    st.ctl["closed:" + k] = True
            if st.ctl.get("role") == "feeder" and self.is_to(st, ev.recv):
                st.ctl["closed:to"] = True
            return NONE
        if st.ctl.get("role") == "feeder":
            return self.feed(st, ev)
        if n in (".read", ".read1", ".readinto") and self.is_stream(st, ev.recv):
            return self.read(st, ev)
        if n == ".seek" and self.is_stream(st, ev.recv):
            wh = ev.arg(1, "whence", ZERO)
            if not self.seekable(st, ev.recv):
                return [(st, "exc", e.make_exc(st, "io.UnsupportedOperation"))]
            if tm.is_int(wh) and kv(wh) == 0:
                st.g["spos"] = ev.arg(0)
            elif tm.is_int(wh) and kv(wh) == 1:
                st.g["spos"] = tm.add(st.g["spos"], ev.arg(0))
            else:
                st.g["spos"] = st.fresh(sym("position", e.site_ctx(st), ty="int"))
            st.ctl["realseek"] = True
            return [(st, "ret", st.g["spos"])]
        if n == ".tell" and self.is_stream(st, ev.recv):
            if not self.seekable(st, ev.recv):
                return [(st, "exc", e.make_exc(st, "io.UnsupportedOperation"))]
            return st.g["spos"]
        return None

    def raises(self, st, ev):
        if ev.name == "netrc.netrc":
            return ("FileNotFoundError",)
        return ()

    def proc(self, st, v):
        m = st.meta.get(v) if v is not None else None
        if m is not None and m.op == "app" and m.args[0] == "process":
            return kv(m.args[1][0])
        return None

    def proc_term(self, st, k):
        return st.g["proc:" + k]

    def popen(self, st, ev):
        e = self.eng
        self.count("program started")
        w, extra, sh = self.words(st, ev)
        if sh and (extra or w is None):
            e.report("C22", st, "a command made of more than constants is given to the local shell: %s" % tm.show(ev.arg(0, "args")))
        if sh and w:
            if w[0] == "exec":
                w = w[1:]
            lost = hidden_status(kv(ev.arg(0, "args"))) if is_k(ev.arg(0, "args")) else None
            if lost:
                e.report("C23", st, "the shell command hides the exit status of %s behind %s: %s" % (w[0] if w else "?", lost, kv(ev.arg(0, "args"))))
        prog = w[0] if w else None
        if prog is None:
            e.report("C22", st, "a program that depends on input is started")
            prog = "?"
        else:
            base = prog.rsplit("/", 1)[-1]
            self.need(st, base)
            if base == "sshpass":
                if not any(x == "ssh" for x in w[1:]):
                    e.report("C22", st, "sshpass runs something else than ssh")
                self.need(st, "ssh")
            if base in ("sh", "bash", "env") and extra:
                e.report("C22", st, "a command made of more than constants is given to the local shell")
        k = "%d" % ev.site[2]
        out = ev.arg(None, "stdout")
        remote = prog in ("ssh", "sshpass")
        if remote:
            st.ctl["ssh"] = st.ctl.get("ssh", 0) + 1
            self.remote(st, ev, w)
        elif out is not None:
            if self.kind is None:
                e.report("C21", st, "the file %s is decompressed with %s" % (self.name, " ".join(w or ["?"])))
            else:
                why = wrong_command([x or "?" for x in w], *self.kind)
                if why:
                    e.report("C21", st, "the command for %s %s: %s" % (self.name, why, " ".join(x or "?" for x in w)))
                if self.kind[1]:
                    if not any(st.ctl.get("avail:" + p) for p in self.kind[0][0]):
                        e.report("C22", st, "tar is started for %s without checking for its decompressor" % self.name)
            self.stdin(st, ev)
            st.ctl["decompressed"] = True
        p = st.fresh(sym("process", e.site_ctx(st), ty="proc"))
        st.meta[p] = app("process", K(k))
        st.g["proc:" + k] = p
        st.ctl["alive:" + k] = True
        if out is not None and is_k(out) and kv(out) == -1:
            st.g["source"] = p
            st.ctl["lastproc"] = k
        if ev.name != "subprocess.Popen":
            st.ctl["alive:" + k] = False
        return p

    def remote(self, st, ev, w):
        pass

    def need(self, st, base):
        if st.ctl.get("avail:" + base) is not True:
            self.eng.report("C22", st, "%s is started without checking that it is available" % base)

    def stdin(self, st, ev):
        """The decompressor gets the raw data."""
        e = self.eng
        i = ev.arg(None, "stdin")
        src = None
        if st.ctl.get("opened-url"):
            src = st.g["url"]
        elif st.ctl.get("opened"):
            src = st.g["file"]
        if i is not None and i.op == "app" and i.args[0] == ".fileno":
            i = i.args[1][0]
        if i is not None and is_k(i) and kv(i) == -1:
            st.ctl["feed"] = "needed"
        elif i is None or src is None or i is not src:
            if st.ctl.get("ssh") and i is not None and i.op == "app" and i.args[0] == ".stdout":
                return
            e.report("C21", st, "the decompressor does not read the file: its standard input is %s" % (tm.show(i) if i is not None else "inherited"))

    # ------------------------------------------------ the thread feeding the decompressor

    def spawn(self, st, fn, args, how):
        e = self.eng
        if st.ctl.get("role"):
            return None
        self.count("feeding thread")
        st.ctl["feed"] = "started"
        s = st.clone()
        s.frames = []
        s.exc = NONE
        s.outcome = None
        s.ctl["role"] = "feeder"
        marks = None
        for o in e.explore(e.call(s, fn, tuple(args), (), ("root",)))[0]:
            if not o.ctl.get("closed:to"):
                e.report("C23", o, "the feeding thread can end without closing the input of the decompressor, which then waits forever")
            mine = set(o.ctl.get("marks", ()))
            if o.outcome[0] == "return" and not o.ctl.get("feof") and not o.ctl.get("stopped") and not mine:
                e.report("C21", o, "the feeding thread ends before the end of the data")
            if o.outcome[0] == "return" and o.ctl.get("feof") and o.ctl.get("pending"):
                e.report("C21", o, "the data read last is not passed on to the decompressor")
            if o.ctl.get("stopped") or o.ctl.get("write failed") or o.ctl.get("feof") and self.complete(o, o.ctl.get("from")):
                continue
            # the transfer has failed, or may have: the reader of the decompressed data has to learn of it
            self.count("failing transfer")
            marks = mine if marks is None else marks & mine
            if not marks:
                e.report("C23", o, "when the transfer fails the decompressor gets a regular end of its input, and nobody is told")
        st.ctl["told"] = tuple(sorted(marks or (), key=repr))
        return None

    def end(self, v, name):
        """The process whose stdin or stdout this is."""
        if v.op == "attr" and v.args[1] == name:
            return v.args[0]
        if v.op == "app" and v.args[0] == "." + name:
            return v.args[1][0]
        return None

    def is_from(self, st, v):
        if st.ctl.get("opened-url"):
            return v is st.g["url"]
        p = self.end(v, "stdout")
        return p is not None and self.proc(st, p) is not None and p is not st.g.get("source")

    def is_to(self, st, v):
        p = self.end(v, "stdin")
        return p is not None and p is st.g.get("source")

    def complete(self, st, source):
        """At the end of the data from 'source': is it known that nothing is missing?"""
        if source == "url":
            r = st.g.get("remaining")
            return r is not None and (r is NONE or st.decide(eq0(r)) is True) or self.length_checked(st)
        if source is not None:
            v = st.g.get("status:" + source)
            return v is not None and st.decide(eq0(v)) is True
        return False

    def length_checked(self, st):
        """Was the number of bytes compared with the announced one?"""
        for a in st.facts:
            for x in tm.walk(a):
                if is_k(x) and isinstance(kv(x), str) and kv(x).lower() == "content-length":
                    return True
        return False

    def store(self, st, obj, name, val):
        if st.ctl.get("role") == "feeder" and obj.op == "ref" and not st.ctl.get("closed:to"):
            if val is not None and not (is_k(val) and not kv(val)):
                st.ctl["marks"] = tuple(st.ctl.get("marks", ())) + ((obj, name, val if is_k(val) else None),)

    def left(self, st):
        """The number of bytes the server has announced but not delivered."""
        if not st.ctl.get("feof") and not st.ctl.get("seof"):
            return [(st, "ret", st.fresh(sym("remaining", self.eng.site_ctx(st), ty="int")))]
        if "remaining" in st.g:
            return [(st, "ret", st.g["remaining"])]
        s2 = st.clone()
        st.g["remaining"] = st.fresh(sym("remaining", self.eng.site_ctx(st), ty="int"))
        st.assume(mk("lt0", st.g["remaining"]), False)
        s2.g["remaining"] = NONE
        return [(st, "ret", st.g["remaining"]), (s2, "ret", NONE)]

    def load(self, st, v, name):
        if name == "length" and v is st.g.get("url"):
            return self.left(st)
        if not st.ctl.get("role") and st.ctl.get("seof") and v.op == "ref":
            for obj, attr, val in st.ctl.get("told", ()):
                if obj is v and attr == name:
                    return self.told(st, v, name, val)
        # the flag that tells the thread to stop may be set at any time
        if st.ctl.get("role") == "feeder" and v.op == "ref":
            o = st.obj(v)
            if o is not None and o.kind == "obj" and name in o.attrs and o.attrs[name] is K(False):
                s = st.clone()
                s.ctl["stopped"] = True
                return [(st, "ret", K(False)), (s, "ret", K(True))]
        return None

    def told(self, st, obj, name, val):
        """Look, after the end of the data, at what the feeding thread sets when the transfer fails."""
        how = st.ctl.get("transfer")
        if how == "ok":
            return None
        bad = st.clone() if how is None else st
        v = val
        if v is None:
            v = bad.fresh(sym("failure of the transfer", self.eng.site_ctx(bad)))
            bad.assume(mk("truth", v), True)
            bad.assume(mk("is", v, NONE), False)
        bad.ctl["transfer"] = "failed"
        bad.setattr(obj, name, v)
        outs = [(bad, "ret", v)]
        if how is None:
            self.count("failure of the transfer looked for")
            st.ctl["transfer"] = "ok"
            o = st.obj(obj)
            outs.append((st, "ret", o.attrs[name] if name in o.attrs else NONE))
        return outs

    def feed(self, st, ev):
        e = self.eng
        n = ev.name
        if ev.recv is None:
            return None
        if n in (".read", ".read1") and self.is_from(st, ev.recv):
            self.count("read of the feeding thread")
            if st.ctl.get("pending"):
                e.report("C21", st, "the feeding thread does not pass on all the data it reads")
            p = self.end(ev.recv, "stdout")
            st.ctl["from"] = "url" if p is None else self.proc(st, p)
            bad = st.clone()
            x = e.make_exc(bad, "<any Exception>")
            a, b = st, st.clone()
            buf = a.fresh(sym("chunk", e.site_ctx(a), ty="bytes"))
            a.assume(tm.lt(app("len", buf, ty="int"), K(1)), False)
            a.g["fbuf"] = buf
            a.ctl["pending"] = True
            b.ctl["feof"] = True
            b.ctl["pending"] = False
            return [(a, "ret", buf), (b, "ret", K(b"")), (bad, "exc", x)]
        if n == ".write" and self.is_to(st, ev.recv):
            self.count("write of the feeding thread")
            bad = st.clone()
            x = e.make_exc(bad, "OSError")
            bad.ctl["write failed"] = True
            if ev.args[0] is K(b""):
                pass
            elif not st.ctl.get("pending") or ev.args[0] is not st.g["fbuf"]:
                e.report("C21", st, "the feeding thread passes on other data than it read: %s" % tm.show(ev.args[0]))
            st.ctl["pending"] = False
            return [(st, "ret", e.length(st, ev.args[0])), (bad, "exc", x)]
        return None

    # ------------------------------------------------ the stream

    def final(self, st):
        """The object the data must come from."""
        if "source" in st.g:
            return st.g["source"]
        if st.ctl.get("opened-url"):
            return st.g["url"]
        return st.g.get("file")

    def is_stream(self, st, v):
        f = self.final(st)
        if f is None or v is None:
            return False
        if "source" in st.g:
            return v.op == "app" and v.args[0] == ".stdout" and v.args[1][0] is f or v.op == "attr" and v.args[1] == "stdout" and v.args[0] is f
        return v is f

    def seekable(self, st, v):
        if "source" in st.g:
            return False
        return bool(st.ctl.get("url-seekable", True))

    def read(self, st, ev):
        e = self.eng
        self.count("read of the stream")
        n = ev.arg(0, "size")
        unbounded = n is None or n is NONE or tm.is_int(n) and kv(n) < 0
        if st.ctl.get("used") is None:
            st.ctl["used"] = True
        outs = []
        for how in ("full", "short", "eof"):
            s = st.clone()
            if how == "full" and unbounded or how != "eof" and s.ctl.get("seof"):
                continue
            if how == "eof":
                s.ctl["seof"] = True
                if not unbounded:
                    s.ctl["nothing left"] = True
                outs.append((s, "ret", K(b"")))
                continue
            buf = s.fresh(sym("data", e.site_ctx(s), ty="bytes"))
            m = ev.arg(0, "size")
            if m is not None and buf in tm.leaves(m):
                m = tm.substitute(m, {buf: mk("prev", buf)})
            ln = app("len", buf, ty="int")
            ok = s.assume(tm.lt(ln, K(1)), False)
            if how == "full":
                ok = ok and s.assume(eq0(tm.sub(ln, m)))
            elif not unbounded:
                ok = ok and s.assume(tm.lt(ln, m))
            if not ok:
                continue
            if how == "short" or unbounded:
                s.ctl["seof"] = True
            s.g["spos"] = tm.add(s.g["spos"], ln)
            s.g["got"] = buf
            outs.append((s, "ret", buf))
        return outs

    def observe(self, st, ev):
        what = kv(ev.args[0])
        getattr(self, "on_" + what)(st, *ev.args[1:])

    def on_made(self, st, size):
        e = self.eng
        self.count("file opened")
        st.ctl["made"] = True
        dec = bool(st.ctl.get("decompressed"))
        if self.kind and not dec:
            e.report("C21", st, "the file %s is not decompressed" % self.name)
        if st.ctl.get("feed") == "needed":
            e.report("C21", st, "nothing feeds the decompressor")
        local = st.ctl.get("opened") and not st.ctl.get("opened-url") and not st.ctl.get("ssh")
        if self.kind or not local:
            if size is not NONE:
                e.report("C21", st, "a size is announced for %s although the size of its contents is not known" % self.name)
        else:
            ok = size.op == "app" and size.args[0] == ".st_size" and "file" in st.g
            if ok:
                x = size.args[1][0]
                m = st.meta.get(x)
                ok = st.g["file"] in tm.leaves(m if m is not None else x)
            if not ok and size is not NONE:
                e.report("C21", st, "the size announced for %s is %s" % (self.name, tm.show(size)))

    def on_read(self, st, buf):
        """f.read(n) returned buf."""
        e = self.eng
        self.count("read() returned")
        if not st.ctl.get("used"):
            e.report("C21", st, "the data of %s is not read from where it should come" % self.name)
        if "got" in st.g and buf is not st.g["got"] and not is_k(buf):
            e.report("C24", st, "read() returns something else than the data read: %s" % tm.show(buf))
        k = st.ctl.get("lastproc")
        if st.ctl.get("seof") and k is not None and (st.ctl.get("decompressed") or st.ctl.get("ssh")):
            v = st.g.get("status:" + k)
            if v is None or st.decide(eq0(v)) is not True:
                e.report("C23", st, "the end of the data is reached without checking that the program providing it succeeded")
            else:
                self.count("exit status checked")
        if st.ctl.get("seof") and st.ctl.get("feed") == "started":
            if st.ctl.get("transfer") != "ok":
                e.report("C23", st, "the end of the data is reached although the transfer from which the decompressor gets them may have failed")
            else:
                self.count("success of the transfer checked")
        if st.ctl.get("nothing left") and st.ctl.get("opened-url") and not st.ctl.get("decompressed"):
            if not self.complete(st, "url"):
                e.report("C23", st, "the end of the data is reached although the server may have closed the connection too early")
            else:
                self.count("completeness of the transfer checked")

    def on_tell(self, st, pos):
        self.count("tell()")
        if self.eng and st.decide(eq0(tm.sub(pos, st.g["spos"]))) is not True:
            self.eng.report("C24", st, "tell() returns %s when %s bytes were consumed" % (tm.show(pos), tm.show(st.g["spos"])))

    def on_sought(self, st, target):
        e = self.eng
        self.count("seek() returned")
        d = tm.sub(st.g["spos"], target)
        if st.ctl.get("realseek"):
            return
        if st.decide(eq0(d)) is not True:
            if not (st.ctl.get("seof") and st.decide(tm.lt(ZERO, d)) is False):
                e.report("C24", st, "after seek() to %s the position is %s" % (tm.show(target), tm.show(st.g["spos"])))

    def on_closed(self, st):
        self.count("close() returned")
        e = self.eng
        for k, v in list(st.ctl.items()):
            if isinstance(k, str) and k.startswith("alive:") and v is not False:
                e.report("C25", st, "a program started at line %s is still running after close()%s" % (k[6:], " and not waited for" if v == "killed" else ""))
        for k in ("file", "url"):
            if ("opened" if k == "file" else "opened-url") in st.ctl and not st.ctl.get("closed:" + k):
                e.report("C25", st, "the %s is not closed by close()" % ("file" if k == "file" else "URL"))


HARNESS = {
    "read": """
f = make(name)
observe("made", f.size)
buf = f.read(n)
observe("read", buf)
""",
    "readall": """
f = make(name)
observe("made", f.size)
buf = f.read()
observe("read", buf)
""",
    "seek": """
f = make(name)
buf = f.read(n)
observe("tell", f.tell())
f.seek(offset)
observe("sought", offset)
observe("tell", f.tell())
""",
    "seekcur": """
f = make(name)
buf = f.read(n)
pos = f.tell()
f.seek(offset, 1)
observe("sought", pos + offset)
observe("tell", f.tell())
""",
    "seekread": """
f = make(name)
f.seek(offset)
buf = f.read(n)
observe("read", buf)
observe("tell", f.tell())
""",
    "close": """
f = make(name)
f.close()
observe("closed")
""",
}


def run(root, name, mode="read", verbose=False):
    mon = TransMonitor(name, mode)
    e = Engine(root, mon, verbose=verbose)
    mon.eng = e
    m = e.load_module("bmaptools.TransRead")
    cls = e.base[m].attrs.get("TransRead")
    if cls is None:
        raise AnalysisError("class TransRead not found")
    st = e.run_source(HARNESS[mode], dict(make=cls, name=K(name), n=mon.n, offset=mon.off, observe=mk("ext", "observe")))
    mon.start(st)
    st.assume(tm.lt(mon.n, K(1)), False)
    st.assume(tm.lt(mon.off, ZERO), False)
    outs = e.explore([st])[0]
    made = any(o.ctl.get("made") for o in outs)
    if mode in ("read", "readall") and not made:
        e.report("C21", outs[0] if outs else st, "no file with the name %s can be opened" % name, site=("bmaptools/TransRead.py", "TransRead", 0))
    return e, mon, outs


def task(root, names, mode="read"):
    from .common import result

    total = None
    for n in names:
        e, mon, outs = run(root, n, mode)
        r = result(e, outs, mon.counts)
        if total is None:
            total = r
        else:
            for x in r["reports"]:
                if (x[0], x[1], x[2]) not in [(y[0], y[1], y[2]) for y in total["reports"]]:
                    total["reports"].append(x)
            for k in ("counts", "outcomes"):
                for a, b in r[k].items():
                    total[k][a] = total[k].get(a, 0) + b
            for k in ("steps", "loops", "sites"):
                total[k] += r[k]
            total["functions"] = sorted(set(total["functions"]) | set(r["functions"]))
    return total
