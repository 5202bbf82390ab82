"""The command line tool: option and consent gates, the bmap signature gate, exclusive access
to block devices, the local copy of remote files and the exit status (C12 - C15, C31, C33,
and the parts of C01 and C06 the tool is responsible for)."""

import os

from . import terms as tm
from .engine import Engine, Monitor
from .terms import FALSE, K, NONE, TRUE, ZERO, app, eq0, is_k, kv, mk, sym, tup, ty

MARKER = b"-----BEGIN PGP SIGNED MESSAGE-----"
TRANS = "bmaptools.TransRead.TransRead"
WRITERS = ("bmaptools.BmapCopy.BmapCopy", "bmaptools.BmapCopy.BmapBdevCopy")
CREATOR = "bmaptools.BmapCreate.BmapCreate"
ADDERS = (".add_argument",)
SUMMARIES = (3, 2, 0)


MODIFYING = (
    "os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.link", "os.symlink",
    "shutil.move", "shutil.copyfile", "shutil.copy", "shutil.copy2", "shutil.rmtree", "os.rmdir",
)


class CliMonitor(Monitor):
    opaque = (TRANS, CREATOR, "bmaptools.BmapHelpers.human_time", "bmaptools.BmapHelpers.human_size") + WRITERS

    def __init__(self, command, given):
        self.command = command
        self.given = given
        self.counts = {}
        self.eng = None

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def relevant(self, st, atom):
        return any(l.op == "sym" and l.args[0] in ("given", "option", "is_blk", "verification result") for l in tm.leaves(atom))

    # ------------------------------------------------ files

    def new(self, st, what, content, named=True, **ctl):
        """A file object with tracked contents."""
        i = st.ctl.get("files", 0)
        st.ctl["files"] = i + 1
        v = st.fresh(sym(what, self.eng.site_ctx(st), ty="file"))
        st.g["f%d" % i] = v
        st.g["f%d.content" % i] = content
        st.ctl["f%d.pos" % i] = "0"
        st.ctl["f%d.clean" % i] = True
        for k, x in ctl.items():
            st.ctl["f%d.%s" % (i, k)] = x
        return v

    def find(self, st, v, depth=0):
        """Index of the tracked file v is, wraps or names."""
        if v is None:
            return None
        for i in range(st.ctl.get("files", 0)):
            if st.g.get("f%d" % i) is v:
                return i
        if v.op == "ref" and depth < 3:
            o = st.obj(v)
            if o is not None and o.kind == "obj":
                for x in o.attrs.values():
                    i = self.find(st, x, depth + 1)
                    if i is not None:
                        return i
        return None

    def content(self, st, i):
        return st.g["f%d.content" % i] if i is not None else None

    def root(self, c):
        """The file named on the command line (or found) the contents come from."""
        while c is not None and c.op == "app" and c.args[0] in ("copy", "plain"):
            c = c.args[1][0]
        return c

    def path(self, c):
        return c.args[1][0] if c is not None and c.op == "app" and c.args[0] in ("trans", "path") else None

    def remote(self, st, path):
        """Is what TransRead opened under this path a URL? (None: not known)"""
        k = "url:" + tm.show(path)
        return st.ctl.get(k)

    def load(self, st, v, name):
        e = self.eng
        i = None
        for k in range(st.ctl.get("files", 0)):
            if st.g.get("f%d" % k) is v:
                i = k
        if i is not None:
            kind = st.ctl.get("f%d.kind" % i)
            if kind == "trans":
                p = self.path(self.content(st, i))
                if name == "name":
                    return [(st, "ret", p)]
                if name == "is_url":
                    k = "url:%d" % i
                    if k in st.ctl:
                        return [(st, "ret", tm.B(st.ctl[k]))]
                    b = st.clone()
                    st.ctl[k] = True
                    b.ctl[k] = False
                    return [(st, "ret", TRUE), (b, "ret", FALSE)]
                if name == "size":
                    return [(st, "ret", app("size of", p))]
            elif name == "name":
                return [(st, "ret", app("name of", v, ty="str"))]
        if v is st.g.get("sig") and name == "summary":
            outs = []
            if st.ctl.get("sumval") is not None:
                return [(st, "ret", K(st.ctl["sumval"]))]
            for x in SUMMARIES:
                s = st.clone()
                s.ctl["sumval"] = x
                outs.append((s, "ret", K(x)))
            return outs
        if v is st.g.get("writer") and name == "__class__":
            return None
        return None

    # ------------------------------------------------ the argument parser

    def arg_index(self, st, v):
        m = st.meta.get(v) if v is not None else None
        if m is not None and m.op == "app" and m.args[0] == "argp":
            return kv(m.args[1][0])
        return None

    def parser(self, st, i):
        p = st.fresh(sym("argument parser", self.eng.site_ctx(st)))
        st.meta[p] = app("argp", K(i))
        return p

    def argparse(self, st, ev):
        n = ev.name
        if n == "argparse.ArgumentParser":
            i = st.ctl.get("argn", 0)
            st.ctl["argn"] = i + 1
            return self.parser(st, i)
        i = self.arg_index(st, ev.recv)
        if i is None:
            return None
        if n in (".add_subparsers", ".add_mutually_exclusive_group", ".add_argument_group"):
            return self.parser(st, i)
        if n == ".add_parser":
            j = st.ctl.get("argn", 0)
            st.ctl["argn"] = j + 1
            if is_k(ev.args[0]):
                st.ctl["argcmd:%s" % kv(ev.args[0])] = j
            return self.parser(st, j)
        if n == ".add_argument":
            self.count("option declared")
            flags = tuple(kv(a) for a in ev.args if is_k(a))
            kw = {}
            for k, x in ev.kw:
                if k in ("dest", "action", "default", "const", "nargs") and is_k(x):
                    kw[k] = x
            dest = kv(kw["dest"]) if "dest" in kw else None
            long = [f for f in flags if f.startswith("--")]
            if dest is None and flags:
                dest = (long or list(flags))[0].lstrip("-").replace("-", "_")
            act = kv(kw["action"]) if "action" in kw else "store"
            st.ctl["opt%d" % st.ctl.get("opts", 0)] = (i, (long or list(flags) or [""])[0], dest, act)
            st.g["opt%d.default" % st.ctl.get("opts", 0)] = kw.get("default", mk("unset"))
            st.ctl["opts"] = st.ctl.get("opts", 0) + 1
            return NONE
        if n == ".set_defaults":
            for k, x in ev.kw:
                st.g["set:%d:%s" % (i, k)] = x
            return NONE
        if n == ".parse_args":
            ns = st.g["ns"]
            mine = [0, st.ctl.get("argcmd:" + self.command)]
            for k in range(st.ctl.get("opts", 0)):
                i, flag, dest, act = st.ctl["opt%d" % k]
                d = st.g["opt%d.default" % k]
                if i not in mine or act in ("version", "help") or dest is None:
                    continue
                unset = d.op == "unset"
                if act in ("store_true", "store_false"):
                    g = sym("given", flag, ty="bool")
                    st.g["given:" + flag] = g
                    if act == "store_true":
                        v = g if unset or not is_k(d) or not kv(d) else TRUE
                    else:
                        v = tm.not_(g) if unset or not is_k(d) or kv(d) else FALSE
                elif not flag.startswith("-"):
                    v = sym("argument", flag, ty="str")
                    st.assume(self.eng.truth_atom(st, v))
                    st.g["argument:" + flag] = v
                elif flag in self.given:
                    v = sym("option", flag, ty="str")
                    st.assume(self.eng.truth_atom(st, v))
                    st.g["given:" + flag] = v
                else:
                    v = NONE if unset else d
                    st.g["given:" + flag] = FALSE
                st.setattr(ns, dest, v)
            for k, v in list(st.g.items()):
                if k.startswith("set:"):
                    _, i, name = k.split(":", 2)
                    if int(i) in mine:
                        st.setattr(ns, name, v)
            return ns
        return None

    def is_given(self, st, flag):
        """True, False or None (either) for an option."""
        g = st.g.get("given:" + flag)
        if g is None:
            return False
        if is_k(g):
            return kv(g)
        if ty(g) == "str":
            return True
        return st.decide(self.eng.truth_atom(st, g))

    # ------------------------------------------------ events

    def raises(self, st, ev):
        if ev.name == "import" and is_k(ev.args[0]) and kv(ev.args[0]).split(".")[0] == "gpg":
            if not st.ctl.get("gpg"):
                return ("ImportError",)
        if ev.name in ("shutil.copyfileobj", "shutil.copyfile"):
            return ("OSError", "MemoryError")
        return ()

    def call(self, st, ev):
        e = self.eng
        n = ev.name
        if n.startswith(("argparse.", ".add_", ".parse_", ".set_d")):
            r = self.argparse(st, ev)
            if r is not None:
                return r
        if n == "import" and is_k(ev.args[0]) and kv(ev.args[0]).split(".")[0] == "gpg":
            return None
        if n == "sys.exc_info":
            return tup((K("an exception"), NONE, NONE))
        if n == "traceback.format_exc":
            return K("Traceback")
        if n == "observe":
            getattr(self, "on_" + kv(ev.args[0]))(st, *ev.args[1:])
            return NONE
        if n == TRANS:
            return self.open_trans(st, ev)
        if n in WRITERS:
            return self.construct(st, ev)
        if n == CREATOR:
            self.count("bmap creation")
            bad = st.clone()
            w = st.fresh(sym("creator", e.site_ctx(st)))
            st.g["creator"] = w
            if ev.arg(0, "image") is not st.g.get("argument:image"):
                e.report("C33", st, "the bmap is not created for the image given")
            st.g["output"] = ev.arg(1, "output", NONE)
            return [(st, "ret", w), (bad, "exc", self.err(bad, "BmapCreate"))]
        if n == ".generate" and ev.recv is st.g.get("creator"):
            return self.generate(st, ev)
        if n == ".copy" and ev.recv is st.g.get("writer"):
            return self.copy(st, ev)
        if n == ".sync" and ev.recv is st.g.get("writer"):
            bad = st.clone()
            mem = st.clone()
            intr = st.clone()
            if st.ctl.get("copied"):
                st.ctl["synced"] = True
            return [(st, "ret", NONE), (bad, "exc", self.err(bad, "BmapCopy")), (mem, "exc", e.make_exc(mem, "MemoryError")),
                    (intr, "exc", e.make_exc(intr, "KeyboardInterrupt"))]
        if n in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile"):
            bad = st.clone()
            v = self.new(st, "temporary file", K("empty"), kind="tmp")
            return [(st, "ret", v), (bad, "exc", e.make_exc(bad, "OSError"))]
        if n in ("open", "io.open", "io.FileIO"):
            return self.open(st, ev)
        if n in MODIFYING:
            for x in ev.args[-1:] if n.startswith("shutil.copy") else ev.args[:2]:
                if self.is_input(st, x):
                    e.report("C28", st, "an input file is modified: %s(%s)" % (n, tm.show(x)))
        if n == "os.open" and self.is_input(st, ev.arg(0)):
            fl = ev.arg(1, "flags", ZERO)
            if not is_k(fl) or kv(fl) & (os.O_ACCMODE | os.O_TRUNC | os.O_CREAT):
                e.report("C28", st, "an input file is opened for writing: %s" % tm.show(ev.arg(0)))
        if n == "os.open":
            bad = st.clone()
            v = st.fresh(sym("descriptor", e.site_ctx(st), ty="int"))
            st.assume(mk("lt0", v), False)
            st.meta[v] = app("fd", ev.arg(0), ev.arg(1, "flags", ZERO))
            return [(st, "ret", v), (bad, "exc", e.make_exc(bad, "OSError"))]
        if n in ("os.fdopen",):
            m = st.meta.get(ev.args[0])
            bad = st.clone()
            c = app("file of", *m.args[1]) if m is not None and m.op == "app" and m.args[0] == "fd" else K("unknown file")
            v = self.new(st, "opened file", c, kind="file")
            self.buffering(st, ev, 2)
            return [(st, "ret", v), (bad, "exc", e.make_exc(bad, "OSError"))]
        if n in ("stat.S_ISBLK", ".is_block_device"):
            self.count("test for a block device")
            if "is_blk" not in st.g:
                st.g["is_blk"] = sym("is_blk", ty="bool")
            return st.g["is_blk"]
        if n == "shutil.copyfileobj":
            i, j = self.find(st, ev.args[0]), self.find(st, ev.args[1])
            if j is not None:
                st.g["f%d.content" % j] = app("copy", self.content(st, i)) if i is not None and st.ctl["f%d.pos" % i] == "0" and self.content(st, j) is K("empty") else K("part of a file")
                st.ctl["f%d.clean" % j] = False
                st.ctl["f%d.pos" % j] = "end"
            if i is not None:
                st.ctl["f%d.pos" % i] = "moved"
            return None
        m = st.meta.get(ev.recv) if ev.recv is not None else None
        if m is not None and m.op == "app" and m.args[0] == "data of" and len(m.args[1]) > 1:
            text = kv(m.args[1][1])
            if n == ".startswith" and is_k(ev.args[0]):
                return tm.B(text.startswith(kv(ev.args[0])))
            if n == ".__getitem__" and ev.args[0].op == "slice" and all(is_k(x) for x in ev.args[0].args):
                a, b = (kv(x) for x in ev.args[0].args[:2])
                if not a and b is not None and 0 < b <= 48:
                    return K(text[:b])
        i = self.find(st, ev.recv) if ev.recv is not None else None
        if i is not None:
            r = self.file_method(st, ev, i)
            if r is not None:
                return r
        if n == "gpg.Context" or n == "gpg.core.Context":
            v = st.fresh(sym("gpg context", e.site_ctx(st)))
            st.g["gpgctx"] = v
            bad = st.clone()
            return [(st, "ret", v), (bad, "exc", e.make_exc(bad, "gpg.errors.GPGMEError"))]
        if n == ".verify" and ev.recv is st.g.get("gpgctx"):
            return self.verify(st, ev)
        if n == "sys.stdout.write" or n == ".write" and ev.recv is not None and tm.show(ev.recv) == "sys.stdout":
            return self.printed(st, ev)
        if n == "len" and st.g.get("sigs") is not None and ev.args[0] is st.g["sigs"]:
            return st.g["nsigs"]
        return None

    def err(self, st, mod):
        e = self.eng
        m = e.load_module("bmaptools." + mod)
        c = e.base[m].attrs["Error"]
        return e.make_exc(st, c, (sym("message", ty="str"),))

    def open_trans(self, st, ev):
        e = self.eng
        self.count("file opened with TransRead")
        p = ev.arg(0, "filepath")
        bad = st.clone()
        x = self.err(bad, "TransRead")
        # remember signatures looked for
        if p.op == "cat" and is_k(p.args[-1]):
            for suf in (".asc", ".sig"):
                if kv(p.args[-1]).endswith(suf):
                    s = kv(p.args[-1])[: -len(suf)]
                    base = tm.cat(list(p.args[:-1]) + ([K(s)] if s else []))
                    bad.g["tried:" + suf] = base
        v = self.new(st, "file", app("trans", p), kind="trans")
        i = st.ctl["files"] - 1
        if p is st.g.get("argument:image"):
            st.g["imagefile"] = v
        elif p.op == "cat" and is_k(p.args[-1]) and kv(p.args[-1]).endswith((".asc", ".sig")):
            st.ctl["sigfound"] = i
        return [(st, "ret", v), (bad, "exc", x)]

    def is_input(self, st, p):
        """Is 'p' the path of the image, the bmap or the signature?"""
        if p is None:
            return False
        if p.op == "app" and p.args[0] == "name of":
            i = self.find(st, p.args[1][0])
            return i is not None and st.ctl.get("f%d.kind" % i) == "trans"
        img = st.g.get("argument:image")
        if img is not None and img in tm.leaves(p):
            return True
        if any(st.g.get("given:" + o) is p for o in ("--bmap", "--bmap-sig")):
            return True
        return any(
            st.ctl.get("f%d.kind" % i) == "trans" and self.path(self.content(st, i)) is p for i in range(st.ctl.get("files", 0))
        )

    def buffering(self, st, ev, i):
        """Writing to an unbuffered file may write a part of the data only."""
        b = ev.arg(i, "buffering")
        if ev.name in ("io.FileIO",) or b is not None and not (is_k(b) and kv(b) not in (0, False)) and st.decide(eq0(b)) is not False:
            st.ctl["f%d.raw" % (st.ctl["files"] - 1)] = True

    def open(self, st, ev):
        e = self.eng
        p = ev.args[0]
        mode = ev.arg(1, "mode", K("r"))
        m = kv(mode) if is_k(mode) else "?"
        if is_k(p) and isinstance(kv(p), str) and kv(p).startswith("/proc/"):
            return None
        bad = st.clone()
        x = e.make_exc(bad, "OSError")
        c = None
        md = st.meta.get(p)
        if p.op == "app" and p.args[0] == "name of":
            i = self.find(st, p.args[1][0])
            c = self.content(st, i)
            if not st.ctl["f%d.clean" % i]:
                e.report("C31", st, "a file is read by its name before the data written to it was flushed")
                c = K("part of a file")
        elif md is not None and md.op == "app" and md.args[0] == "fd":
            c = app("file of", *md.args[1])
        else:
            for i in range(st.ctl.get("files", 0)):
                if st.ctl.get("f%d.kind" % i) == "trans" and self.path(self.content(st, i)) is p and st.ctl.get("url:%d" % i) is not True and set(m) <= set("rb"):
                    c = self.content(st, i)
                    if st.ctl.get("url:%d" % i) is not False:
                        c = app("maybe remote", c)
            if c is None:
                c = app("path", p)
        v = self.new(st, "opened file", c, kind="file", mode=m)
        self.buffering(st, ev, 2)
        if self.is_input(st, p) and set(m) & set("wax+?"):
            e.report("C28", st, "an input file is opened for writing: %s" % tm.show(p))
        if set(m) & set("wax+"):
            st.ctl["f%d.write" % (st.ctl["files"] - 1)] = m
            if "w" in m:
                st.ctl["f%d.empty" % (st.ctl["files"] - 1)] = True
        return [(st, "ret", v), (bad, "exc", x)]

    def file_method(self, st, ev, i):
        e = self.eng
        n = ev.name
        c = self.content(st, i)
        if n == ".seek":
            a = ev.arg(0)
            st.ctl["f%d.pos" % i] = "0" if tm.is_int(a) and kv(a) == 0 and (len(ev.args) < 2 or ev.args[1] is ZERO) else "moved"
            st.ctl["f%d.clean" % i] = True
            return NONE
        if n == ".flush":
            st.ctl["f%d.clean" % i] = True
            return NONE
        if n in (".close", ".__exit__"):
            st.ctl["f%d.clean" % i] = True
            st.ctl["f%d.closed" % i] = True
            return NONE
        if n == ".write":
            a = ev.args[0]
            m = st.meta.get(a)
            new = K("something else")
            if c is K("empty") and m is not None and m.op == "app" and m.args[0] == "plain":
                new = m
            elif m is not None and m.op == "app" and m.args[0] == "all of" and c is K("empty"):
                new = app("copy", m.args[1][0])
            elif m is not None and m.op == "app" and m.args[0] == "data of" and (c is K("empty") or c is app("copying", m.args[1][0])):
                new = app("copying", m.args[1][0])
            st.g["f%d.content" % i] = new
            st.ctl["f%d.pos" % i] = "end"
            st.ctl["f%d.clean" % i] = False
            return e.length(st, a) if ty(a) in ("str", "bytes") else ZERO
        if n in (".read", ".readline", ".read1"):
            at0 = st.ctl["f%d.pos" % i] == "0"
            if st.ctl["f%d.pos" % i] == "end":
                e.report("C31", st, "the local copy of the bmap is read without going to its start")
            st.ctl["f%d.pos" % i] = "moved"
            size = ev.arg(0, "size")
            if n == ".read" and (size is None or size is NONE or tm.is_int(size) and kv(size) < 0):
                v = st.fresh(sym("contents", e.site_ctx(st), ty="bytes" if "b" in st.ctl.get("f%d.mode" % i, "b") else "str"))
                st.meta[v] = app("all of", c) if at0 else app("some of", c)
                if st.ctl.get("f%d.kind" % i) == "output":
                    st.meta[v] = app("bmap", TRUE if at0 else FALSE)
                return v
            if at0 and self.root(c).op == "app" and self.root(c).args[0] == "trans" and (not tm.is_int(size) or kv(size) <= 4096):
                # the test for a clear signed file
                self.count("test for a clear signature")
                a, b = st, st.clone()
                a.ctl["clearsign"] = True
                b.ctl["clearsign"] = False
                a.g["headof"] = b.g["headof"] = self.root(c)
                if n == ".readline" or not tm.is_int(size) or kv(size) <= 128:
                    out = []
                    for s, text in ((a, MARKER + b"\nHash: SHA512\n\n"), (b, b'<?xml version="1.0" ?>\n<!-- This file contains the block map for an image file')):
                        k = kv(size) if tm.is_int(size) else len(MARKER)
                        out.append((s, "ret", K(text.split(b"\n")[0] + b"\n" if n == ".readline" else (text + b"-" * 128)[:k])))
                    return out
                out = []
                for s, text in ((a, MARKER + b"\nHash: SHA512\n\n"), (b, b'<?xml version="1.0" ?>\n<!-- This file contains the block map for an image file')):
                    v = s.fresh(sym("head", e.site_ctx(s), ty="bytes"))
                    s.assume(tm.lt(app("len", v, ty="int"), K(1)), False)
                    s.meta[v] = app("data of", c, K(text))
                    s.ctl["f%d.reading" % i] = True
                    out.append((s, "ret", v))
                return out
            a, b = st, st.clone()
            va = a.fresh(sym("data", e.site_ctx(a), ty="bytes"))
            a.assume(tm.lt(app("len", va, ty="int"), K(1)), False)
            a.meta[va] = app("data of", c) if at0 or a.ctl.get("f%d.reading" % i) else app("some of", c)
            a.ctl["f%d.reading" % i] = True
            for k in range(b.ctl.get("files", 0)):
                if b.g["f%d.content" % k] is app("copying", c) or at0 and b.g["f%d.content" % k] is K("empty"):
                    b.g["f%d.content" % k] = app("copy", c)
            return [(a, "ret", va), (b, "ret", K(b""))]
        if n == ".fileno":
            return None
        return None

    def forget(self, st):
        """What led to a copy (or to giving up) no longer matters."""
        if self.command != "copy":
            return
        for k in list(st.ctl):
            if k not in ("copied", "synced", "gpg", "files"):
                del st.ctl[k]
        for k in list(st.g):
            if k not in ("ns", "writer") and not k.startswith("given:"):
                del st.g[k]
        st.ctl["files"] = 0

    def throw(self, st, exc, explicit):
        if self.eng.exc_class(st, exc).args[0] == "SystemExit":
            self.forget(st)

    # ------------------------------------------------ signatures

    def verify(self, st, ev):
        e = self.eng
        self.count("signature verification")
        signed, sig = ev.arg(0, "signed_data"), ev.arg(1, "signature", NONE)
        i = self.find(st, signed)
        c = self.content(st, i) if i is not None else K("unknown data")
        m = st.meta.get(signed)
        if i is None and m is not None and m.op == "app" and m.args[0] == "all of":
            c = m.args[1][0]
        j = self.find(st, sig)
        s = self.content(st, j) if j is not None else NONE
        m = st.meta.get(sig)
        if j is None and m is not None and m.op == "app" and m.args[0] == "all of":
            s = m.args[1][0]
        bad1, bad2 = st.clone(), st.clone()
        st.ctl["verified"] = True
        st.g["signed"] = c
        st.g["signature"] = s
        plain = st.fresh(sym("signed contents", e.site_ctx(st), ty="bytes"))
        st.meta[plain] = app("plain", c)
        res = st.fresh(sym("verification result", e.site_ctx(st)))
        st.meta[res] = app("result of", c)
        st.g["vres"] = res
        return [
            (st, "ret", tup((plain if sig is NONE else NONE, res))),
            (bad1, "exc", e.make_exc(bad1, "gpg.errors.GPGMEError")),
            (bad2, "exc", e.make_exc(bad2, "gpg.errors.BadSignatures")),
        ]

    def is_sigs(self, st, src):
        b = src.args[0] if src.op == "attr" and src.args[1] == "signatures" else src.args[1][0] if src.op == "app" and src.args[0] == ".signatures" else None
        m = st.meta.get(b) if b is not None else None
        return m is not None and m.op == "app" and m.args[0] == "result of"

    def iter(self, st, ev, it):
        o = st.obj(it)
        src = o.attrs.get("src")
        if src is None or not self.is_sigs(st, src):
            return None
        self.count("signature in the result")
        if st.g.get("sigiter") is not it:
            st.g["sigiter"] = it
            st.g.pop("sig", None)
            st.ctl.pop("sigbad", None)
        self.judge_sig(st)
        s2 = st.clone()
        el = s2.fresh(sym("signature", self.eng.site_ctx(s2)))
        s2.g["sig"] = el
        for s in (st, s2):
            s.ctl.pop("sumval", None)
        st.g.pop("sig", None)
        st.g.pop("sigiter", None)
        bad = st.ctl.pop("sigbad", None)
        if st.ctl.get("sigs") != "good":
            st.ctl["sigs"] = bad or "good"
        return [(s2, el), (st, None)]

    def judge_sig(self, st):
        if st.g.get("sig") is not None:
            v = st.ctl.get("sumval")
            if v is None or not v & 1:
                st.ctl["sigbad"] = "is not valid" if v is not None else "was not looked at"

    # ------------------------------------------------ copying

    def construct(self, st, ev):
        e = self.eng
        self.count("copy object constructed")
        bad = st.clone()
        mem = st.clone()
        w = st.fresh(sym("copy object", e.site_ctx(st)))
        st.g["writer"] = w
        self.count("destination checked")
        i = self.find(st, ev.arg(1, "dest"))
        if i is not None and st.ctl.get("f%d.raw" % i):
            e.report("C02", st, "the destination is an unbuffered file: a single write may leave a part of the data out")
        img, dest, bm, size = ev.arg(0, "image"), ev.arg(1, "dest"), ev.arg(2, "bmap", NONE), ev.arg(3, "image_size", NONE)
        st.ctl["writer"] = ev.name.rsplit(".", 1)[-1]
        i = self.find(st, img)
        st.g["w.image"] = self.content(st, i) if i is not None else K("?")
        i = self.find(st, dest)
        st.g["w.dest"] = self.content(st, i) if i is not None else K("?")
        st.ctl["w.destclosed"] = bool(i is None or st.ctl.get("f%d.closed" % i))
        if bm is NONE:
            st.ctl["w.bmap"] = False
        else:
            st.ctl["w.bmap"] = True
            i = self.find(st, bm)
            c = self.content(st, i) if i is not None else K("?")
            st.g["w.bmapcontent"] = c
            if i is not None:
                if st.ctl["f%d.pos" % i] != "0":
                    e.report("C31", st, "the bmap file is not at its start when it is used")
                if not st.ctl["f%d.clean" % i]:
                    e.report("C31", st, "the local copy of the bmap is used before it is flushed")
                if st.ctl.get("f%d.closed" % i):
                    e.report("C31", st, "the bmap file is used after it was closed")
                if st.ctl.get("f%d.kind" % i) == "trans":
                    if st.ctl.get("url:%d" % i) is not False:
                        e.report("C31", st, "a bmap which may be remote is used without making a local copy")
                elif c.op != "app" or c.args[0] not in ("copy", "plain", "trans"):
                    e.report("C31", st, "the bmap used is not a complete copy of the bmap: %s" % tm.show(c))
                else:
                    self.count("local copy of a bmap used")
        st.g["w.size"] = size
        st.ctl.pop("copied", None)
        st.ctl.pop("synced", None)
        return [(st, "ret", w), (bad, "exc", self.err(bad, "BmapCopy")), (mem, "exc", e.make_exc(mem, "MemoryError"))]

    def copy(self, st, ev):
        e = self.eng
        self.count("copy started")
        self.gates(st)
        sync, ver = ev.arg(0, "sync", TRUE), ev.arg(1, "verify", TRUE)
        v = self.truth(st, ver)
        nv = self.is_given(st, "--no-verify")
        if v is not True:
            if nv is False:
                for p in ("C01", "C13"):
                    e.report(p, st, "the data is copied without verifying checksums although --no-verify is not given")
            elif nv is None:
                g = st.g["given:--no-verify"]
                d = ver
                if not (d is tm.not_(g) or d is tm.not_(mk("truth", g)) or st.eng.truth_atom(st, d) is tm.not_(st.eng.truth_atom(st, g))):
                    for p in ("C01", "C13"):
                        e.report(p, st, "whether checksums are verified does not depend on --no-verify: %s" % tm.show(ver))
        elif nv is not False:
            e.report("C13", st, "checksums are verified although --no-verify may be given")
        outs = []
        for x in ("BmapCopy", "TransRead"):
            s = st.clone()
            outs.append((s, "exc", self.err(s, x)))
        for x in ("MemoryError", "KeyboardInterrupt", "OSError"):
            s = st.clone()
            outs.append((s, "exc", e.make_exc(s, x)))
        self.forget(st)
        for s, _, _ in outs:
            self.forget(s)
        st.ctl["copied"] = True
        st.ctl["synced"] = self.truth(st, sync) is True
        return [(st, "ret", NONE)] + outs

    def truth(self, st, v):
        if is_k(v):
            return bool(kv(v))
        a = self.eng.truth_atom(st, v)
        if is_k(a):
            return bool(kv(a))
        return st.decide(a)

    def gates(self, st):
        e = self.eng
        nobmap, nosig = self.is_given(st, "--nobmap"), self.is_given(st, "--no-sig-verify")
        bmap, sig = self.is_given(st, "--bmap"), self.is_given(st, "--bmap-sig")
        used = st.ctl.get("w.bmap")
        if bmap and nobmap is not False:
            e.report("C13", st, "copying starts although both --bmap and --nobmap may be given")
        if sig and nosig is not False:
            e.report("C13", st, "copying starts although both --bmap-sig and --no-sig-verify may be given")
        if sig and not used:
            e.report("C13", st, "copying starts although a signature is given and there is no bmap")
        if not used and nobmap is not True:
            e.report("C13", st, "copying starts without a bmap although --nobmap is not given")
        if used and nobmap is not False:
            e.report("C13", st, "a bmap is used although --nobmap may be given")
        q, d = self.is_given(st, "--quiet"), self.is_given(st, "--debug")
        if q is not False and d is not False:
            gq, gd = st.g["given:--quiet"], st.g["given:--debug"]
            e.report("C13", st, "copying starts although --quiet and --debug may both be given")
        image = st.g.get("argument:image")
        if self.path(st.g["w.image"]) is not image or image is None:
            e.report("C13", st, "what is copied is not the image given: %s" % tm.show(st.g["w.image"]))
        size = st.g["w.size"]
        if size is not NONE and not (size.op == "app" and size.args[0] == "size of" and size.args[1][0] is image):
            e.report("C13", st, "the image size announced is %s" % tm.show(size))
        # the destination
        dest = st.g.get("argument:dest")
        c = st.g["w.dest"]
        p = c.args[1][0] if c.op == "app" else None
        if p is not dest or dest is None:
            e.report("C15", st, "what is written to is not the destination given: %s" % tm.show(c))
        elif st.ctl["w.destclosed"]:
            e.report("C15", st, "the destination is closed when copying starts")
        blk = st.g.get("is_blk")
        b = self.truth(st, blk) if blk is not None else None
        if b is not False:
            if b is None:
                e.report("C15", st, "copying starts without knowing whether the destination is a block device")
            else:
                self.count("copy to a block device")
                fl = c.args[1][1] if c.op == "app" and c.args[0] == "file of" else None
                if fl is None or not is_k(fl) or not kv(fl) & os.O_EXCL:
                    e.report("C15", st, "a block device is written to without opening it exclusively")
                elif kv(fl) & os.O_CREAT:
                    e.report("C15", st, "the block device is opened with O_CREAT, which makes the exclusive open fail or create a file")
                elif kv(fl) & os.O_ACCMODE == os.O_RDONLY:
                    e.report("C15", st, "the block device is opened for reading only")
                if st.ctl["writer"] != "BmapBdevCopy":
                    e.report("C15", st, "a block device is written to with the class for regular files")
        elif st.ctl["writer"] == "BmapBdevCopy":
            e.report("C15", st, "a regular file is written to with the class for block devices")
        if not used:
            return
        # the bmap
        bc = st.g["w.bmapcontent"]
        root = self.root(bc)
        bp = self.path(root)
        if bp is None:
            e.report("C12", st, "the bmap used is not the one that was opened: %s" % tm.show(bc))
            return
        if bmap and bp is not st.g["given:--bmap"]:
            e.report("C13", st, "the bmap used is not the one given with --bmap: %s" % tm.show(bp))
        if image is not None and st.decide(tm.eq(bp, image)) is not False and bp is not tm.cat([image, K(".bmap")]):
            if bmap:
                e.report("C13", st, "copying starts although the image and the bmap may be the same file")
        if not bmap and not (bp.op == "cat" and is_k(bp.args[-1]) and kv(bp.args[-1]).endswith(".bmap")):
            e.report("C13", st, "the bmap used was not found by its name: %s" % tm.show(bp))
        if st.ctl.get("clearsign") is None or st.g.get("headof") is not root:
            e.report("C12", st, "the bmap is not checked for a clear signature")
            return
        if st.ctl["clearsign"]:
            self.count("clear signed bmap used")
            if not self.has(bc, "plain"):
                e.report("C12", st, "a clear signed bmap is used without taking the signed contents")
            elif self.root(st.g["signed"]) is not root:
                e.report("C12", st, "the signature verified is not the one of the bmap used")
        elif nosig is not True:
            if sig:
                self.signed(st, root, st.g["given:--bmap-sig"])
            elif st.ctl.get("sigfound") is not None:
                self.signed(st, root, self.path(self.content(st, st.ctl["sigfound"])))
            else:
                for suf in (".asc", ".sig"):
                    if st.g.get("tried:" + suf) is not bp:
                        e.report("C12", st, "the bmap is used without looking for its signature (%s)" % suf)
        if nosig is not True and st.ctl.get("verified"):
            if st.ctl.get("sigs") not in (None, "good"):
                e.report("C12", st, "the bmap is used although a signature %s" % st.ctl["sigs"])
            elif st.ctl.get("sigs") is None:
                r = st.g["vres"]
                empty = False
                for a, v in st.facts.items():
                    if r in tm.leaves(a) and ".signatures" in tm.show(a) and (a.op == "eq0" and v and a.args[0].op == "app" and a.args[0].args[0] == "len" or a.op == "truth" and not v):
                        empty = True
                if not empty:
                    e.report("C12", st, "the bmap is used without looking at all signatures")

    def has(self, c, what):
        while c is not None and c.op == "app" and c.args[0] in ("copy", "plain"):
            if c.args[0] == what:
                return True
            c = c.args[1][0]
        return False

    def signed(self, st, root, sigpath):
        e = self.eng
        self.count("detached signature required")
        if not st.ctl.get("verified"):
            e.report("C12", st, "the bmap is used without verifying its detached signature")
            return
        if self.root(st.g["signed"]) is not root:
            e.report("C12", st, "the detached signature is not verified against the bmap used: %s" % tm.show(st.g["signed"]))
        if self.path(self.root(st.g["signature"])) is not sigpath:
            e.report("C12", st, "the signature verified is not the one of the bmap: %s" % tm.show(st.g["signature"]))

    # ------------------------------------------------ creating

    def generate(self, st, ev):
        e = self.eng
        self.count("bmap generated")
        inc = ev.arg(0, "include_checksums", TRUE)
        v = self.truth(st, inc)
        nc = self.is_given(st, "--no-checksum")
        if v is not True and not (nc is True):
            g = st.g.get("given:--no-checksum")
            if nc is False or g is None or not (inc is tm.not_(g) or self.eng.truth_atom(st, inc) is tm.not_(self.eng.truth_atom(st, g))):
                e.report("C33", st, "the bmap is created without checksums although --no-checksum is not given")
        bad, mem = st.clone(), st.clone()
        st.ctl["generated"] = True
        out = st.g.get("output")
        if out is not None and out.op != "k":
            i = self.find(st, out)
            if i is not None:
                st.ctl["f%d.kind" % i] = "output"
                st.ctl["f%d.pos" % i] = "moved"
                st.ctl["f%d.clean" % i] = False
                st.ctl["outfile"] = i
        return [(st, "ret", NONE), (bad, "exc", self.err(bad, "BmapCreate")), (mem, "exc", e.make_exc(mem, "MemoryError"))]

    def printed(self, st, ev):
        m = st.meta.get(ev.args[0])
        bad = st.clone()
        if m is not None and m.op == "app" and m.args[0] == "bmap":
            st.ctl["printed"] = "all" if m.args[1][0] is TRUE else "part"
        return [(st, "ret", ZERO), (bad, "exc", self.eng.make_exc(bad, "OSError"))]

    # ------------------------------------------------ the end

    def on_namespace(self, st, ns):
        st.g["ns"] = ns

    def on_returned(self, st, val):
        e = self.eng
        self.count("return of main()")
        ok = val is NONE or tm.is_int(val) and kv(val) == 0 or val is FALSE
        if not ok:
            if not is_k(val) and st.decide(eq0(val)) is not False:
                e.report("C14", st, "the exit status is %s" % tm.show(val))
            return
        self.success(st)

    def success(self, st):
        e = self.eng
        self.count("successful end")
        if self.command == "copy":
            if not st.ctl.get("copied"):
                e.report("C14", st, "the tool exits with success although the copy failed or did not take place")
            elif not st.ctl.get("synced"):
                for p in ("C06", "C14"):
                    e.report(p, st, "the tool exits with success although the destination was not, or could not be, synchronized")
        else:
            if not st.ctl.get("generated"):
                e.report("C14", st, "the tool exits with success although creating the bmap failed or did not take place")
                return
            if self.is_given(st, "--output"):
                out = st.g.get("output")
                i = self.find(st, out) if out is not None else None
                c = self.content(st, i)
                if i is None or c.op != "app" or c.args[1][0] is not st.g["given:--output"] or not st.ctl.get("f%d.empty" % i):
                    e.report("C33", st, "the bmap is not written to a new file with the name given with --output")
            elif st.ctl.get("printed") != "all":
                e.report("C33", st, "the bmap is not printed completely")

    def ended(self, st):
        """The program ended with an exception."""
        e = self.eng
        x = st.outcome[1]
        c = e.exc_class(st, x)
        name = c.args[0]
        if name in ("SystemExit", "sys.exit"):
            a = None
            if x.op == "exc":
                a = x.args[1]
            else:
                o = st.obj(x)
                t = o.attrs.get("args") if o is not None else None
                a = t.args if t is not None and t.op == "tup" else None
            if not a or a[0] is NONE or tm.is_int(a[0]) and kv(a[0]) == 0 or a[0] is FALSE:
                self.success(st)
            elif not is_k(a[0]) and ty(a[0]) != "str" and st.decide(eq0(a[0])) is not False:
                e.report("C14", st, "the exit status of a failure is %s" % tm.show(a[0]))
            else:
                self.count("failure with an exit status")


PRE = """
class Namespace(object):
    pass

ns = Namespace()
observe("namespace", ns)
"""
HARNESS = PRE + """
r = main()
observe("returned", r)
"""


def run(root, command="copy", given=(), entry="main", verbose=False):
    mon = CliMonitor(command, tuple(given))
    e = Engine(root, mon, verbose=verbose)
    mon.eng = e
    for n in ("TransRead", "BmapCopy", "BmapCreate"):
        e.load_module("bmaptools." + n)
    m = e.load_module("bmaptools.CLI")
    glob = dict(main=e.base[m].attrs.get("main", NONE), observe=mk("ext", "observe"))
    src = HARNESS
    if entry != "main":
        glob["__name__"] = K("__main__")
        with open(os.path.join(root, "bmaptools", "__main__.py")) as f:
            src = PRE + f.read()
    st = e.run_source(src, glob)
    outs = e.explore([st])[0]
    for o in outs:
        if o.outcome[0] == "raise":
            mon.ended(o)
        elif entry != "main":
            mon.count("return of main()")
            mon.success(o)
    return e, mon, outs


def task(root, command="copy", given=(), entry="main"):
    from .common import result

    e, mon, outs = run(root, command, given, entry)
    return result(e, outs, mon.counts)
