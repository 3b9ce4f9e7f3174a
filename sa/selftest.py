"""The analysis judges what the code does: rewritings that keep the behaviour must leave the verdict as it is.

Each transformation is applied to a scratch copy of the package; the rule is then decided for the copy.
"""

import ast
import copy
import os
import shutil
import tempfile
import time


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def own_nodes(f):
    """Nodes of a function, without those of nested functions, classes and lambdas."""
    todo = list(ast.iter_child_nodes(f))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, what="tmp"):
        self.n += 1
        return "_%s_%d" % (what, self.n)


class SwapIf(T):
    """if a: X else: Y -> if not a: Y else: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class AugAssign(T):
    """x += y -> x = x + y, for names and attributes of names"""

    def visit_AugAssign(self, n):
        simple = isinstance(n.target, ast.Name) or isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name)
        if not simple or not isinstance(n.value, (ast.Constant, ast.Name)) or not isinstance(n.op, (ast.Add, ast.Sub)):
            return n
        load = copy.deepcopy(n.target)
        load.ctx = ast.Load()
        return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))


class ReturnTemp(T):
    """return e -> r = e; return r"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        v = self.fresh("ret")
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]


class CondTemp(T):
    """if e: -> c = e; if c:"""

    def visit_If(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            return n
        if n.orelse and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            pass
        v = self.fresh("cond")
        return [ast.Assign([ast.Name(v, ast.Store())], n.test), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, FUNCS + (ast.ClassDef,)) else x for x in n.body]
        return n


class WhileTrue(T):
    """while c: B -> while True: if not c: break; B"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class Comprehension(T):
    """x = [e for ...] and return [e for ...] -> loop with append"""

    def conv(self, comp, var):
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "append", ast.Load()), [comp.elt], []))
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = (ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, [body], [])
        return [ast.Assign([ast.Name(var, ast.Store())], ast.List([], ast.Load())), body]

    def safe(self, comp):
        t = {x.id for g in comp.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return isinstance(comp, ast.ListComp) and not (t & self.params)

    params = frozenset()

    def visit_FunctionDef(self, n):
        old, self.params = self.params, frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not self.in_comp(n, x)) | {a.arg for a in n.args.args}
        self.generic_visit(n)
        self.params = old
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def in_comp(self, f, name):
        for x in ast.walk(f):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    if any(y is name for y in ast.walk(g.target)):
                        return True
        return False

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and self.safe(n.value) and self.params:
            v = self.fresh("list")
            return self.conv(n.value, v) + [ast.Assign(n.targets, ast.Name(v, ast.Load()))]
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp) and self.safe(n.value):
            v = self.fresh("list")
            return self.conv(n.value, v) + [ast.Return(ast.Name(v, ast.Load()))]
        return n


class Delegate(T):
    """Every method and function calls a helper that holds its body."""

    def conv(self, f, cls):
        bad = f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.args.posonlyargs
        if bad or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in own_nodes(f)) or f.name.startswith("__") or not f.body:
            return [f]
        if any(isinstance(x, ast.Name) and x.id in ("super", "__class__", "inspect", "locals") for x in ast.walk(f)):
            return [f]
        decs = {ast.unparse(d) for d in f.decorator_list}
        if decs - {"staticmethod", "classmethod", "property"}:
            return [f]
        me = f.args.args[0].arg if f.args.args else None
        names = [a.arg for a in f.args.args]
        h = copy.deepcopy(f)
        h.name = "_impl_of_" + f.name.lstrip("_")
        h.args.defaults = []
        for a in h.args.args:
            a.annotation = None
        h.returns = None
        if cls is None:
            h.decorator_list = []
            call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        elif "staticmethod" in decs:
            call = ast.Call(ast.Attribute(ast.Name(cls, ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        elif me is None:
            return [f]
        else:
            h.decorator_list = [d for d in h.decorator_list if ast.unparse(d) == "classmethod"]
            call = ast.Call(ast.Attribute(ast.Name(me, ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names[1:]], [])
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        f.body = doc + [ast.Return(ast.Await(call) if isinstance(f, ast.AsyncFunctionDef) else call)]
        return [h, f]

    def visit_ClassDef(self, n):
        b = []
        for s in n.body:
            b += self.conv(s, n.name) if isinstance(s, FUNCS) else [s]
        n.body = b
        return n

    def visit_Module(self, n):
        b = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            b += self.conv(s, None) if isinstance(s, FUNCS) else [s]
        n.body = b
        return n


class Rename(T):
    """Local variables get other names."""

    def visit_FunctionDef(self, f):
        if any(isinstance(x, FUNCS + (ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for x in ast.walk(f) if x is not f):
            return f
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        loc |= {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "local_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "local_" + x.name
        return f

    visit_AsyncFunctionDef = visit_FunctionDef


class NoFString(T):
    """f-strings of plain parts become calls of format"""

    def visit_JoinedStr(self, n):
        parts, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += v.value.replace("{", "{{").replace("}", "}}")
            elif v.conversion == -1 and v.format_spec is None:
                parts += "{}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(parts), "format", ast.Load()), args, [])


class BoolNest(T):
    """if a and b: X -> if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(T):
    """a and b -> not (not a or not b), in conditions"""

    def flip(self, t):
        if isinstance(t, ast.BoolOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(t)):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.flip(n.test)
        return n

    visit_While = visit_IfExp = visit_If


class IndexLoop(T):
    """for x in e: B -> s = list(e); i = 0; while i < len(s): x = s[i]; i = i + 1; B   (not for sources that B may change)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "enumerate", "zip", "dir"):
            pass
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "values", "keys"):
            pass
        else:
            return n
        s, i = self.fresh("seq"), self.fresh("i")
        L = lambda x: ast.Name(x, ast.Load())
        return [
            ast.Assign([ast.Name(s, ast.Store())], ast.Call(L("list"), [it], [])),
            ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
            ast.While(
                ast.Compare(L(i), [ast.Lt()], [ast.Call(L("len"), [L(s)], [])]),
                [ast.Assign([n.target], ast.Subscript(L(s), L(i), ast.Load())), ast.Assign([ast.Name(i, ast.Store())], ast.BinOp(L(i), ast.Add(), ast.Constant(1)))] + n.body,
                [],
            ),
        ]


class IfTrue(T):
    """Bodies of functions inside 'if True'"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        rest = f.body[len(doc):]
        if rest:
            f.body = doc + [ast.If(ast.Constant(True), rest, [])]
        return f

    visit_AsyncFunctionDef = visit_FunctionDef


class Idle(T):
    """A statement without an effect at the start of each function and loop"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        v = self.fresh("unused")
        f.body = doc + [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0))] + f.body[len(doc):]
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = [ast.Pass()] + n.body
        return n

    visit_While = visit_If = visit_For


class ArgTemp(T):
    """f(g(x)) as a statement -> a = g(x); f(a), for the first argument"""

    def visit_Expr(self, n):
        c = n.value.value if isinstance(n.value, ast.Await) else n.value
        if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], (ast.Call, ast.Attribute, ast.BinOp)) and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(c.func)):
            v = self.fresh("arg")
            r = [ast.Assign([ast.Name(v, ast.Store())], c.args[0]), n]
            c.args[0] = ast.Name(v, ast.Load())
            return r
        return n


class ElseReturn(T):
    """if c: ...return/raise/continue; rest -> if c: ...; else: rest"""

    def block(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[k + 1:]:
                s.orelse = self.block(b[k + 1:])
                return b[: k + 1]
        return b

    def generic(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = visit_For = visit_While = visit_If = generic


class Lambdas(T):
    """x = lambda ...: e -> def"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Lambda) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.FunctionDef(n.targets[0].id, n.value.args, [ast.Return(n.value.body)], [])
        return n


class Membership(T):
    """x in (a, b) -> x == a or x == b, for constants"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and isinstance(n.left, (ast.Name, ast.Attribute)):
            es = n.comparators[0].elts
            if es and all(isinstance(e, ast.Constant) for e in es):
                r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in es]) if len(es) > 1 else ast.Compare(n.left, [ast.Eq()], es)
                return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        return n


class Walrus(T):
    """if x := e: -> x = e; if x: (not in elif)"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.NamedExpr):
            return [ast.Assign([ast.Name(n.test.target.id, ast.Store())], n.test.value), ast.If(ast.Name(n.test.target.id, ast.Load()), n.body, n.orelse)]
        return n


class Methods(T):
    """Methods of a class sorted the other way round (not those with decorators that need an order)"""

    def visit_ClassDef(self, n):
        if any(f.decorator_list for f in n.body if isinstance(f, FUNCS)) or len({f.name for f in n.body if isinstance(f, FUNCS)}) != len([f for f in n.body if isinstance(f, FUNCS)]):
            return n
        fs = [f for f in n.body if isinstance(f, FUNCS)]
        names = {f.name for f in fs}
        if any(names_in(s) & names for s in n.body if not isinstance(s, FUNCS)):
            return n
        n.body = [s for s in n.body if not isinstance(s, FUNCS)] + fs[::-1]
        return n


class SelfTemp(T):
    """self.x(...) statements through a local: m = self.x; m(...)"""

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self":
            v = self.fresh("method")
            r = [ast.Assign([ast.Name(v, ast.Store())], c.func), n]
            c.func = ast.Name(v, ast.Load())
            return r
        return n


class Keywords(T):
    """List displays through list(), slices l[:] through list(l)"""

    taken = ()

    def visit_FunctionDef(self, f):
        old = self.taken
        self.taken = set(old) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        self.generic_visit(f)
        self.taken = old
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice) and n.slice.lower is n.slice.upper is n.slice.step is None:
            return ast.Call(ast.Name("list", ast.Load()), [n.value], [])
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.Call(ast.Name("list", ast.Load()), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            if "dict" in self.taken:
                return n
            return ast.Call(ast.Name("dict", ast.Load()), [], [])
        return n

    def visit_Assign(self, n):
        if any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            return n
        self.generic_visit(n)
        return n


class TryElse(T):
    """Unparsed and parsed again: other line numbers, no comments"""


ALL = [TryElse, SwapIf, AugAssign, ReturnTemp, CondTemp, WhileTrue, Comprehension, Delegate, Rename, NoFString, BoolNest, DeMorgan,
       IndexLoop, IfTrue, Idle, ArgTemp, ElseReturn, Lambdas, Membership, Walrus, Methods, SelfTemp, Keywords]


def transformed(root, t, to):
    """A copy of the package with the transformation applied to every module; the number of files changed."""
    n = 0
    for top in ("toffee", "scripts"):
        for dp, dns, fns in os.walk(os.path.join(root, top)):
            dns[:] = [d for d in dns if d != "__pycache__"]
            for fn in fns:
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                q = os.path.join(to, os.path.relpath(p, root))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                tree = ast.parse(src)
                old = ast.unparse(tree)
                tree = t().visit(ast.parse(src))
                new = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(new)
                n += new != old
                with open(q, "w", encoding="utf-8") as f:
                    f.write(new)
    return n


def run(pid, root, analyse, took, budget=420):
    """Evidence of the thorough tier: what the rule says of copies that behave the same.

    If the time is short only every n-th scenario is analysed.
    """
    every = max(1, int(took * len(ALL) * 1.2 / budget + 0.99))
    t0 = time.time()
    quiet, told, left = [], [], []
    for t in ALL:
        if time.time() - t0 > budget:
            left.append(t.__name__)
            continue
        d = tempfile.mkdtemp(prefix="verif-same-")
        try:
            transformed(root, t, d)
            R = analyse(pid, d, False, every)
            bad = [o[0] for o in R.obligations if o[1] == "bad"]
            und = [o[0] for o in R.obligations if o[1] == "undecided"]
            (told if bad else quiet).append(
                {"rewriting": t.__name__, "obligations": len(R.obligations), "undecided": len(und), "alarms": bad[:5]}
            )
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return {"rewritings_that_keep_the_behaviour": {"scenarios": "every %d." % every if every > 1 else "all", "quiet": quiet, "alarmed": told, "no_time_for": left}}


if __name__ == "__main__":
    import sys

    for t in ALL:
        if len(sys.argv) < 4 or t.__name__ in sys.argv[3:]:
            d = os.path.join(sys.argv[2], t.__name__)
            print(t.__name__, transformed(sys.argv[1], t, d), "files")
