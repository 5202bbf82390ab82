"""Mechanical rewritings that keep the behaviour, applied to whole files at once."""
import ast
import copy
import os
import re

FILES = ["bmaptools/BmapCopy.py", "bmaptools/BmapCreate.py", "bmaptools/BmapHelpers.py", "bmaptools/CLI.py",
         "bmaptools/Filemap.py", "bmaptools/TransRead.py", "contrib/bmap_write.py"]


class Base(ast.NodeTransformer):
    def __init__(self, tree):
        self.n = 0
        self.tree = tree
        self.infunc = 0

    def fresh(self, p="tmp"):
        self.n += 1
        return "_%s%d" % (p, self.n)

    def visit_FunctionDef(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        return node


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def assign(x, v):
    return ast.Assign([name(x, True)], v)


def calls(n):
    return any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n))


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Plain(Base):
    pass


class Rename(Base):
    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(node) if x is not node):
            return node
        a = node.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        mine = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        mine |= {x.name for x in ast.walk(node) if isinstance(x, ast.ExceptHandler) and x.name}
        mine -= params
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in mine:
                x.id = "my_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in mine:
                x.name = "my_" + x.name
        return node


class NegIf(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        t = ast.UnaryOp(ast.Not(), node.test)
        return ast.If(t, node.orelse or [ast.Pass()], node.body)


class TempCond(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        t = self.fresh("cond")
        return [assign(t, node.test), ast.If(name(t), node.body, node.orelse)]


class BoolCond(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        node.test = ast.Call(name("bool"), [node.test], [])
        return node


class WhileTrue(Base):
    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse or isinstance(node.test, ast.Constant):
            return node
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])] + node.body, [])


class AugAssign(Base):
    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) or isinstance(node.op, ast.BitOr):
            return node
        v = copy.deepcopy(node.target)
        v.ctx = ast.Load()
        return ast.Assign([node.target], ast.BinOp(v, node.op, node.value))


class TempArgs(Base):
    def stmt(self, node):
        c = node.value
        if not self.infunc or not isinstance(c, ast.Call) or any(isinstance(a, ast.Starred) for a in c.args):
            return node
        out = []
        for i, a in enumerate(c.args):
            if not isinstance(a, (ast.Constant, ast.GeneratorExp)):
                t = self.fresh("arg")
                out.append(assign(t, a))
                c.args[i] = name(t)
        return out + [node]

    visit_Assign = visit_Expr = visit_Return = stmt


class RetVar(Base):
    def visit_Return(self, node):
        if node.value is None:
            return node
        t = self.fresh("ret")
        return [assign(t, node.value), ast.Return(name(t))]


class ForWhile(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or not self.infunc:
            return node
        t = self.fresh("it")
        nxt = ast.Try([ast.Assign([node.target], ast.Call(name("next"), [name(t)], []))],
                      [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
        return [assign(t, ast.Call(name("iter"), [node.iter], [])), ast.While(ast.Constant(True), [nxt] + node.body, [])]


class Format(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return node
        s = node.left.value
        specs = re.findall(r"%(.)", s)
        if any(x not in "sd" for x in specs) or "{" in s:
            return node
        vals = node.right.elts if isinstance(node.right, ast.Tuple) else [node.right]
        if len(vals) != len(specs):
            return node
        return ast.Call(ast.Attribute(ast.Constant(re.sub("%[sd]", "{}", s)), "format", ast.Load()), vals, [])


class FString(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return node
        parts = re.split("(%.)", node.left.value)
        specs = [p for p in parts if re.fullmatch("%.", p)]
        vals = node.right.elts if isinstance(node.right, ast.Tuple) else [node.right]
        if any(x not in ("%s", "%d") for x in specs) or len(vals) != len(specs) or any(isinstance(c, ast.Constant) for v in vals for c in ast.walk(v)):
            return node
        vals = list(vals)
        return ast.JoinedStr([ast.FormattedValue(vals.pop(0), -1) if re.fullmatch("%.", p) else ast.Constant(p) for p in parts if p])


class DeMorgan(Base):
    def test(self, node):
        self.generic_visit(node)
        t = node.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            node.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return node

    visit_If = visit_While = test


class NestAnd(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        t = node.test
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and not node.orelse:
            body = node.body
            for v in reversed(t.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return node


class Extract(Base):
    """Every function hands over to a helper with the old body."""

    def wrap(self, body, meth):
        out = []
        for f in body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                    and not (f.name.startswith("__") and not f.name.endswith("__")):
                g = copy.deepcopy(f)
                g.name = "_do_" + f.name.strip("_")
                g.args.defaults = []
                names = [name(a.arg) for a in f.args.args]
                if meth:
                    c = ast.Call(ast.Attribute(names[0], g.name, ast.Load()), names[1:], [])
                else:
                    c = ast.Call(name(g.name), names, [])
                f.body = [ast.Return(c)] if f.name != "__init__" else [ast.Expr(c)]
                if any("super" == getattr(x, "id", None) for x in ast.walk(g)) or any(isinstance(x, ast.Global) for x in ast.walk(g)):
                    f = g
                    f.name = "__init__" if g.name == "_do_init" else f.name
                    out.append(ast.fix_missing_locations(f))
                    continue
                out += [g, f]
            else:
                out.append(f)
        return out

    def visit_Module(self, node):
        for c in node.body:
            if isinstance(c, ast.ClassDef):
                c.body = self.wrap(c.body, True)
        node.body = self.wrap(node.body, False)
        return node


class ExtractLoop(Base):
    """The body of each 'for' loop which only reads and calls becomes a nested function."""

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infunc or node.orelse:
            return node
        for x in node.body:
            for y in ast.walk(x):
                if isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.FunctionDef)) or isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) \
                        or isinstance(y, ast.ExceptHandler) and y.name:
                    return node
        if not isinstance(node.target, ast.Name):
            return node
        f = self.fresh("step")
        arg = ast.arguments([], [ast.arg(node.target.id)], None, [], [], None, [])
        d = ast.FunctionDef(f, arg, node.body, [], None, None, [])
        d.type_params = []
        return [d, ast.For(node.target, node.iter, [ast.Expr(ast.Call(name(f), [name(node.target.id)], []))], [], None)]


class WithTry(Base):
    def visit_With(self, node):
        self.generic_visit(node)
        i = node.items[0]
        if len(node.items) > 1 or not isinstance(i.optional_vars, ast.Name) or not isinstance(i.context_expr, ast.Call) or getattr(i.context_expr.func, "id", "") != "open":
            return node
        v = i.optional_vars.id
        return [assign(v, i.context_expr),
                ast.Try(node.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(v), "close", ast.Load()), [], []))])]


class Noop(Base):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body.insert(1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0, assign("_unused", ast.Constant(0)))
        return node


class ElseAfter(Base):
    """What follows an 'if' that leaves goes to its 'else'."""

    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and body[i + 1:]:
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.fix(node.body)
        return node

    def loop(self, node):
        self.generic_visit(node)
        node.body = self.fix(node.body)
        return node

    visit_For = visit_While = loop


class NoElse(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if ends(node.body) and node.orelse:
            o = node.orelse
            node.orelse = []
            return [node] + o
        return node


class SwapCmp(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M and not calls(node):
            return ast.Compare(node.comparators[0], [self.M[type(node.ops[0])]()], [node.left])
        return node


class NotCmp(Base):
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [self.M[type(node.ops[0])]()], node.comparators))
        return node


class Ternary(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if len(node.body) == len(node.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (node.body[0], node.orelse[0])):
            a, b = node.body[0], node.orelse[0]
            if ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(node.test, a.value, b.value))
        return node

    def visit_Assign(self, node):
        if isinstance(node.value, ast.IfExp) and self.infunc:
            v = node.value
            return ast.If(v.test, [ast.Assign(node.targets, v.body)], [ast.Assign(copy.deepcopy(node.targets), v.orelse)])
        return node


class Consts(Base):
    """Literals of functions become names of the module."""

    def visit_Module(self, node):
        self.new = {}
        self.generic_visit(node)
        i = 0
        while i < len(node.body) and (isinstance(node.body[i], (ast.Import, ast.ImportFrom)) or isinstance(node.body[i], ast.Expr)):
            i += 1
        node.body[i:i] = [assign(n, ast.Constant(v[1])) for v, n in self.new.items()]
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_arguments(self, node):
        return node

    def visit_Expr(self, node):
        return node if isinstance(node.value, ast.Constant) else self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod):
            node.right = self.visit(node.right)
            return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        if not self.infunc or not isinstance(node.value, (int, str)) or isinstance(node.value, bool):
            return node
        k = (type(node.value), node.value)
        if k not in self.new:
            self.new[k] = "_CONST%d" % len(self.new)
        return name(self.new[k])


class Logs(Base):
    def visit_Module(self, node):
        self.ok = any(isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "_log" for x in node.body)
        return self.generic_visit(node)

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if self.ok:
            c = ast.Call(ast.Attribute(name("_log"), "debug", ast.Load()), [ast.Constant("in " + node.name)], [])
            node.body.insert(1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0, ast.Expr(c))
        return node


class Annotate(Base):
    def visit_arg(self, node):
        node.annotation = ast.Constant("object")
        return node

    def visit_Assign(self, node):
        if self.infunc and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            return ast.AnnAssign(node.targets[0], ast.Constant("object"), node.value, 1)
        return node

    def visit_FunctionDef(self, node):
        if any(isinstance(x, ast.Global) for x in ast.walk(node)):
            return node
        return Base.visit_FunctionDef(self, node)


class OsErrors(Base):
    def visit_Name(self, node):
        if node.id == "IOError":
            node.id = "OSError"
        return node


class Recv(Base):
    """The object whose method is called gets a name of its own."""

    def stmt(self, node):
        c = node.value
        if self.infunc and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) and getattr(c.func.value.value, "id", "") == "self":
            t = self.fresh("obj")
            out = [assign(t, c.func.value), node]
            c.func.value = name(t)
            return out
        return node

    visit_Assign = visit_Expr = visit_Return = stmt


class Walrus(Base):
    """x = v; if x: ...  becomes  if (x := v): ..."""

    def fix(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                v = p.targets[0].id
                t = s.test
                neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id == v
                if neg or isinstance(t, ast.Name) and t.id == v:
                    out.pop()
                    w = ast.NamedExpr(name(v, True), p.value)
                    s.test = ast.UnaryOp(ast.Not(), w) if neg else w
            out.append(s)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, self.fix(b))
        return node


class TryElse(Base):
    """The last statements of a 'try' whose handlers all leave stay; what follows goes to 'else'."""

    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Try) and s.handlers and not s.orelse and not s.finalbody and all(ends(h.body) for h in s.handlers) and body[i + 1:]:
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.fix(node.body)
        return node


class Reorder(Base):
    """Neighbouring assignments of constants change places."""

    def fix(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (a, b)) \
                    and ast.dump(a.targets[0]) != ast.dump(b.targets[0]):
                body[i], body[i + 1] = b, a
                i += 1
            i += 1
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, self.fix(b))
        return node


class NestedFunc(Base):
    """The body of every plain function moves into a closure that is called at once."""

    def visit_FunctionDef(self, node):
        a = node.args
        params = {x.arg for x in a.args}
        stores = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if params & stores or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) or getattr(x, "id", "") == "super" for x in ast.walk(node)):
            return node
        f = self.fresh("run")
        d = ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), node.body, [], None, None, [])
        d.type_params = []
        node.body = [d, ast.Return(ast.Call(name(f), [], []))]
        return node


KINDS = dict(plain=Plain, rename=Rename, negif=NegIf, tempcond=TempCond, boolcond=BoolCond, whiletrue=WhileTrue, aug=AugAssign, tempargs=TempArgs,
             retvar=RetVar, forwhile=ForWhile, format=Format, fstring=FString, demorgan=DeMorgan, nestand=NestAnd, extract=Extract,
             extractloop=ExtractLoop, withtry=WithTry, noop=Noop, elseafter=ElseAfter, noelse=NoElse, swapcmp=SwapCmp, notcmp=NotCmp,
             ternary=Ternary, consts=Consts, logs=Logs, annotate=Annotate, oserrors=OsErrors, recv=Recv, walrus=Walrus, tryelse=TryElse,
             reorder=Reorder, closure=NestedFunc)


def rewrite(src, kind):
    tree = ast.parse(src)
    tree = KINDS[kind](tree).visit(tree)
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree) + "\n"
    compile(out, "x", "exec")
    return out


def variants(root):
    for f in FILES:
        src = open(os.path.join(root, f)).read()
        plain = ast.unparse(ast.parse(src)) + "\n"
        for k in KINDS:
            new = rewrite(src, k)
            if new == plain and k != "plain":
                continue
            yield "mech-%s-%s" % (k, os.path.basename(f)[:-3]), ((f, src, new),)


if __name__ == "__main__":
    import sys
    src = open(sys.argv[2]).read()
    sys.stdout.write(rewrite(src, sys.argv[1]))
