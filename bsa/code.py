"""Decoded CPython 3.12 byte code: instructions, exception regions, liveness and loops.

The byte code is produced by compile() from the source text; it is never executed.
"""

import dis

_cache = {}

JUMP_FALL = {
    "POP_JUMP_IF_FALSE",
    "POP_JUMP_IF_TRUE",
    "POP_JUMP_IF_NONE",
    "POP_JUMP_IF_NOT_NONE",
    "FOR_ITER",
    "SEND",
}
JUMP_ONLY = {"JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"}
NO_FALL = JUMP_ONLY | {"RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE"}


class Ins:
    __slots__ = ("op", "arg", "val", "repr", "line", "off", "jump", "idx")

    def __repr__(self):
        return "%d %s %s" % (self.off, self.op, self.repr)


class Code:
    """One code object."""

    def __init__(self, co, filename):
        self.co = co
        self.filename = filename
        self.name = co.co_qualname
        self.first = co.co_firstlineno
        self.key = (filename, co.co_qualname, co.co_firstlineno)
        raw = list(dis.get_instructions(co))
        off2idx = {}
        for i, r in enumerate(raw):
            off2idx[r.offset] = i
        self.ins = []
        line = co.co_firstlineno
        lines = {}
        for s, e, ln in co.co_lines():
            for o in range(s, e, 2):
                lines[o] = ln
        for i, r in enumerate(raw):
            n = Ins()
            n.op = r.opname
            n.arg = r.arg
            n.val = r.argval
            n.repr = r.argrepr
            n.off = r.offset
            n.idx = i
            ln = lines.get(r.offset)
            if ln:
                line = ln
            n.line = ln or line
            n.jump = None
            if r.opname in JUMP_ONLY or r.opname in JUMP_FALL:
                n.jump = off2idx[r.argval]
            self.ins.append(n)
        self.table = []
        for e in dis._parse_exception_table(co):
            s = off2idx.get(e.start)
            if s is None:
                continue
            # 'end' is exclusive and may lie inside inline caches
            end = len(raw)
            for i, r in enumerate(raw):
                if r.offset >= e.end:
                    end = i
                    break
            self.table.append((s, end, off2idx[e.target], e.depth, e.lasti))
        n = len(self.ins)
        self.handler = [None] * n
        for s, e, t, d, l in self.table:
            for i in range(s, min(e, n)):
                self.handler[i] = (t, d, l)
        self._flow()

    def _flow(self):
        n = len(self.ins)
        succ = [[] for _ in range(n)]
        esucc = [[] for _ in range(n)]
        for i, x in enumerate(self.ins):
            if x.op not in NO_FALL and i + 1 < n:
                succ[i].append(i + 1)
            if x.jump is not None:
                succ[i].append(x.jump)
            h = self.handler[i]
            if h:
                esucc[i].append(h[0])
        self.succ = succ
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in succ[i] + esucc[i]:
                pred[j].append(i)
        # join points: more than one ordinary predecessor
        self.join = [False] * n
        for i in range(n):
            if len(pred[i]) > 1:
                self.join[i] = True
        # dominators (as bit sets), to tell real loops from out-of-line handlers that
        # jump back to the code after the 'try' statement
        full = (1 << n) - 1
        dom = [full] * n
        dom[0] = 1
        changed = True
        while changed:
            changed = False
            for i in range(1, n):
                d = full
                for j in pred[i]:
                    d &= dom[j]
                if not pred[i]:
                    d = 0
                d |= 1 << i
                if d != dom[i]:
                    dom[i] = d
                    changed = True
        # loops
        self.loops = {}
        for i, x in enumerate(self.ins):
            if x.op in ("JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
                if x.op == "JUMP_BACKWARD_NO_INTERRUPT":
                    continue
                head = x.jump
                if not dom[i] >> head & 1:
                    continue
                body = self.loops.setdefault(head, {head})
                work = [i]
                while work:
                    k = work.pop()
                    if k in body:
                        continue
                    body.add(k)
                    work.extend(pred[k])
        # reverse post order (back edges ignored), handlers before what follows the 'try'
        self.rpo = [n] * n
        seen = set()
        order = []
        stack = [(0, iter(esucc[0][::-1] + succ[0][::-1]))]
        seen.add(0)
        while stack:
            i, it = stack[-1]
            for j in it:
                if j not in seen:
                    seen.add(j)
                    stack.append((j, iter(succ[j][::-1] + esucc[j])))
                    break
            else:
                order.append(i)
                stack.pop()
        for k, i in enumerate(reversed(order)):
            self.rpo[i] = k
        # liveness of locals
        live = [frozenset()] * (n + 1)
        use = [None] * n
        kill = [None] * n
        self.cellnames = set(self.co.co_cellvars) | set(self.co.co_freevars)
        for i, x in enumerate(self.ins):
            if x.op in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR"):
                use[i] = x.val
            elif x.op == "STORE_FAST":
                kill[i] = x.val
        changed = True
        live = [frozenset()] * n
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = frozenset()
                for j in succ[i] + esucc[i]:
                    out |= live[j]
                if kill[i]:
                    out = out - {kill[i]}
                if use[i]:
                    out = out | {use[i]}
                if out != live[i]:
                    live[i] = out
                    changed = True
        self.live = live


def get(co, filename):
    c = _cache.get(id(co))
    if c is None:
        c = Code(co, filename)
        _cache[id(co)] = c
        c._keep = co
    return c
