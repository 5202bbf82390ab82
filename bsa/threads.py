"""A reader thread that feeds the analysed code through a queue.

The thread body is analysed from the state in which the thread was started; the messages
it puts on a queue are collected together with what is known about them.  A 'get' returns
any of these messages that can come next: a message can only be received after all the
kinds of messages that were put before it (the queue is first in, first out)."""

from . import terms as tm
from .engine import Monitor
from .state import Obj
from .terms import K, NONE, is_k, kv, sym, tup, ty


def shape(t, depth=0, first=True):
    """What tells kinds of messages apart: constants, None, and for numbers only a leading
    one (a message type)."""
    if is_k(t):
        v = kv(t)
        if isinstance(v, (str, type(None), bool)) or first and isinstance(v, int):
            return v
        return "*"
    if t.op == "tup" and depth < 2:
        return tuple(shape(x, depth + 1, i == 0) for i, x in enumerate(t.args))
    return "*"


class ThreadMonitor(Monitor):
    """Adds the producer/consumer composition to a monitor."""

    export = ()  # names of control variables that travel with a message

    def setup(self, eng):
        self.eng = eng
        self.threads = {}
        self.loaded = None
        self.spawn_memo = []
        self.reused = 0
        self.shared = {}

    def load(self, st, v, name):
        if self.loaded is not None:
            self.loaded.add((v, name))
        self.accessed(st, v, name, "reads")
        return None

    def store(self, st, v, name, val):
        self.accessed(st, v, name, "writes")

    # attributes used by both threads

    def accessed(self, st, v, name, how):
        if v.op not in ("ref", "mod"):
            return
        if st.ctl.get("role") == "reader":
            k = ("reader", "late" if st.ctl.get("ended") else "early", how)
        elif st.ctl.get("thread"):
            k = ("writer", "late" if self.joined(st) else "early", how)
        else:
            return
        d = self.shared.setdefault((v, name), {})
        if k not in d:
            d[k] = st.clone()

    def joined(self, st):
        """Has the thread announced its end to the receiver?"""
        last = st.ctl.get("last")
        return bool(last) and last[0] == "end"

    def races(self):
        """(state of the reader's access, state of the other one, attribute, what happens)"""
        for (v, name), d in sorted(self.shared.items(), key=lambda x: (x[0][0].id, x[0][1])):
            for (r, rt, rh), rs in d.items():
                for (w, wt, wh), ws in d.items():
                    if r == "reader" and w == "writer" and "writes" in (rh, wh) and (rt, wt) != ("early", "late"):
                        yield rs, ws, name, rh, wh

    def projection(self, s, fn, args, loaded):
        """The part of a state that a thread reading only the attributes 'loaded' sees."""
        s = s.clone()
        s.g["$args"] = tup((fn,) + tuple(args))
        for r, o in list(s.heap.items()):
            if r.op == "mod" and str(r.args[0]).startswith("harness"):
                del s.heap[r]
            elif o.kind == "obj" and r.op == "ref":
                s.heap[r] = Obj(o.kind, o.cls, {k: v for k, v in o.attrs.items() if (r, k) in loaded}, o.items, o.fr)
        s.gc()
        want = set()
        for o in s.heap.values():
            for t in o.terms():
                want |= tm.leaves(t)
        for t in s.g.values():
            want |= tm.leaves(t)
        facts = dict(s.facts)
        kept = set()
        grow = True
        while grow:
            grow = False
            for a in list(facts):
                ls = tm.leaves(a)
                if ls & want:
                    kept.add((a, facts.pop(a)))
                    want |= ls
                    grow = True
            for a, b in s.meta.items():
                if a in want and not tm.leaves(b) <= want:
                    want |= tm.leaves(b)
                    grow = True
        s.meta = {a: b for a, b in s.meta.items() if a in want}
        s.gen = frozenset(x for x in s.gen if x in want)
        return (s.core(), frozenset(kept))

    # the thread is started

    def spawn(self, st, fn, args, how):
        e = self.eng
        if st.ctl.get("role") == "reader":
            return None
        s = st.clone()
        s.frames = []
        s.exc = NONE
        s.outcome = None
        s.ctl["role"] = "reader"
        s.ctl["put"] = frozenset()
        for loaded, key, result in self.spawn_memo:
            if self.projection(s, fn, args, loaded) == key:
                msgs, finals = result
                self.reused += 1
                return self.spawned(st, msgs, finals)
        self.loaded = set()
        start = s.clone()
        saved = e.sink
        e.sink = []
        try:
            outs = e.explore(e.call(s, fn, tuple(args), (), ("root",)))[0]
            sink = e.sink
        finally:
            e.sink = saved
        msgs = []
        for x in sink:
            if x[0] == "emit":
                if x[1] not in msgs:
                    msgs.append(x[1])
            else:
                saved.append(x)
        finals = []
        for o in outs:
            f = (o.ctl["put"], o.outcome[0], self.final_site(o))
            if f not in finals:
                finals.append(f)
            self.thread_end(o)
        loaded, self.loaded = frozenset(self.loaded), None
        self.spawn_memo.append((loaded, self.projection(start, fn, args, loaded), (msgs, finals)))
        return self.spawned(st, msgs, finals)

    def spawned(self, st, msgs, finals):
        known = frozenset(st.gen) | self.eng.base_leaves
        for t in st.all_terms():
            known = known | tm.leaves(t)
        entry = (tuple(msgs), tuple(finals), known)
        key = len(self.threads)
        for k, v in self.threads.items():
            if v[0] == entry[0] and v[1] == entry[1]:
                key = k
        self.threads[key] = entry
        st.ctl["thread"] = st.ctl.get("thread", ()) + (key,)
        st.ctl["got"] = frozenset()
        return [(st, "ret", K(0))]

    def final_site(self, o):
        t = o.trace
        return t[1] if t else ""

    def thread_end(self, st):
        pass

    # queue operations

    def queue_call(self, st, ev):
        if ev.recv is None or ev.recv.op != "ref":
            return None
        o = st.obj(ev.recv)
        if o is None or o.kind != "queue":
            return None
        n = ev.name
        if n in (".put", ".put_nowait") and self.impatient(ev, n, 1):
            full = st.clone()
            if st.ctl.get("role") == "reader":
                self.emit(st, ev, ev.args[0])
            return [(st, "ret", NONE), (full, "exc", self.eng.make_exc(full, "queue.Full"))]
        if n in (".put", ".put_nowait"):
            if st.ctl.get("role") == "reader":
                self.emit(st, ev, ev.args[0])
            else:
                self.own_put(st, ev)
            return NONE
        if n in (".get", ".get_nowait"):
            if st.ctl.get("role") == "reader":
                return None
            empty = st.clone() if self.impatient(ev, n, 0) else None
            r = self.receive(st, ev)
            if empty is not None and r is not None:
                r = list(r) + [(empty, "exc", self.eng.make_exc(empty, "queue.Empty"))]
            return r
        return None

    def impatient(self, ev, n, k):
        """May the call give up instead of waiting?"""
        if n.endswith("_nowait"):
            return True
        block = ev.arg(k, "block")
        timeout = ev.arg(k + 1, "timeout")
        return block is not None and not (is_k(block) and kv(block)) or timeout is not None and timeout is not NONE

    def own_put(self, st, ev):
        pass

    def tag(self, st, ev, msg):
        return ()

    def emit(self, st, ev, msg):
        e = self.eng
        self.before_put(st, ev, msg)
        sh = shape(msg)
        prior = st.ctl["put"]
        # what is known about the message
        want = set(tm.leaves(msg))
        metas = {}
        work = list(want)
        while work:
            l = work.pop()
            m = st.meta.get(l)
            if m is not None and l not in metas:
                metas[l] = m
                for x in tm.leaves(m):
                    if x not in want:
                        want.add(x)
                        work.append(x)
        for t in self.exported_terms(st):
            want |= tm.leaves(t)
        facts = []
        for a, v in st.facts.items():
            ls = tm.leaves(a)
            if ls & want and all(l in want or l not in st.gen for l in ls):
                facts.append((a, v))
            elif ls & want and all(l in want or l.op in ("ref",) or not self.local(l) for l in ls):
                facts.append((a, v))
        payload = (
            sh,
            msg,
            tuple(sorted(facts, key=lambda x: x[0].id)),
            tuple(sorted(metas.items(), key=lambda x: x[0].id)),
            prior,
            self.tag(st, ev, msg),
            ev.site,
        )
        e.sink.append(("emit", payload))
        st.ctl["put"] = prior | {sh}
        if payload[5] and payload[5][0] == "end":
            st.ctl["ended"] = True

    def local(self, l):
        return True

    def exported_terms(self, st):
        return ()

    def before_put(self, st, ev, msg):
        pass

    def receive(self, st, ev):
        e = self.eng
        thr = st.ctl.get("thread")
        if not thr:
            return None
        out = []
        got = st.ctl["got"]
        for key in thr:
            msgs, finals, known = self.threads[key]
            for f, how, where in finals:
                if f <= got and got <= f:
                    self.starved(st, ev, f, how, where)
            for sh, msg, facts, metas, prior, tag, site in msgs:
                if not prior - {sh} <= got:
                    continue
                s = st.clone()
                mapping = {}
                leaves = set(tm.leaves(msg))
                for a, b in metas:
                    leaves |= tm.leaves(a) | tm.leaves(b)
                for a, _ in facts:
                    leaves |= tm.leaves(a)
                ctx = e.site_ctx(s)
                for l in sorted(leaves, key=lambda x: x.id):
                    if l in known or l.op == "ref":
                        continue
                    nm = l.args[0] if l.op == "sym" else "value"
                    mapping[l] = s.fresh(sym("received " + str(nm) if not str(nm).startswith("received") else nm, ctx, l.id, ty=ty(l)))
                sub = lambda t: tm.substitute(t, mapping) if mapping else t
                ok = True
                for a, b in metas:
                    s.meta[sub(a)] = sub(b)
                for a, v in facts:
                    f = sub(a)
                    if is_k(f):
                        if bool(kv(f)) != v:
                            ok = False
                        continue
                    if not s.assume(f, v):
                        ok = False
                if not ok:
                    continue
                s.ctl["got"] = got | {sh}
                s.ctl["last"] = tag
                m = s.tidy(sub(msg))
                s.note("%s:%d: receives %s put at %s:%d" % (ev.site[0], ev.site[2], tm.show(m), site[0], site[2]))
                self.received(s, ev, m, tag, site)
                out.append((s, "ret", m))
        return out

    def starved(self, st, ev, f, how, where):
        pass

    def received(self, st, ev, msg, tag, site):
        pass
