"""Path-sensitive abstract interpreter over the syntax tree of the package.

Nothing of the package is imported or run.  Calls inside the package are
followed, everything else is an opaque call that is recorded as an effect.
Loops are summarised (loop-carried slots are widened until nothing changes),
never unrolled over data.
"""

import ast
import os
import time

from . import lazy
from . import misuse
from . import models
from . import std
from .state import *
from .terms import *


class FuncInfo(object):
    __slots__ = (
        "node",
        "name",
        "qual",
        "module",
        "args",
        "body",
        "is_async",
        "is_gen",
        "is_ctx",
        "is_memo",
        "locals",
        "nonlocals",
        "globals",
        "cls",
        "islambda",
        "path",
    )


class BaseHeap(dict):
    """Objects that exist after loading the package, shared by all states."""

    def __init__(self):
        dict.__init__(self)

    def mro(self, c):
        """Resolution order of a class value (refs of package classes, ext terms)."""
        if c.op != "ref":
            return [c]
        return self.cls_obj(c).data["mro"]

    def cls_obj(self, c):
        return self.lookup(c.a[0])

    def lookup(self, i):
        o = self.get(i)
        if o is None and self.extra_state is not None:
            o = self.extra_state.heap.get(i)
        return o

    extra_state = None
    monitor = None

    def subclass(self, c, d):
        """c subclass of d: True, False, or None if unknown."""
        if c is d:
            return True
        if c.op == "ref" and d.op in ("ref", "ext"):
            o = self.lookup(c.a[0])
            if o is None or o.kind != "class":
                return None
            if d in o.data["mro"]:
                return True
            # external bases may have further unknown bases
            exts = [x for x in o.data["mro"] if x.op == "ext" and x.a[0] != "object"]
            if d.op == "ext" and exts:
                return True if any(models.ext_subclass(x.a[0], d.a[0]) for x in exts) else None
            return False
        if c.op == "ext" and d.op == "ext":
            r = models.ext_subclass(c.a[0], d.a[0])
            return r
        if c.op == "ext" and d.op == "ref":
            return False
        return None

    def disjoint(self, c, d):
        """No object is an instance of both (single inheritance assumed)."""
        return self.subclass(c, d) is False and self.subclass(d, c) is False


RECURSION = 80  # activations of one function after which a client program is taken to recurse for ever


class OutOfTime(TooComplex):
    pass


BEGIN = time.monotonic()
ONE_RUN = float(os.environ.get("VERIF_RUN_S", "180"))  # seconds for one client program or entry point
ALL_RUNS = float(os.environ.get("VERIF_CHECK_S", "660"))  # seconds for the check


class Options(object):
    def __init__(self, **kw):
        self.opaque = set()  # qualified names whose calls are not followed
        self.may_raise = None  # predicate(term) for calls that may raise
        self.track_logs = ()  # log levels recorded as effects
        self.max_paths = 3000
        self.max_depth = 40
        self.rec = 1  # activations of one function at a time that are followed
        self.item_types = {}  # attribute name -> class of the items
        self.attr_types = {}  # attribute name -> class of the value
        self.elem_types = {}
        self.no_follow_private = False
        self.on_await = None
        self.nonnull = ()
        self.undef_attr = False
        self.key_errors = False
        self.spawn_bodies = True
        self.parse_errors = False
        self.finite = False
        self.idle = None  # function of the entry point that runs when nothing else can
        self.closed = False  # dir() of an object of known classes is known
        self.tasks = None  # None: bodies of tasks are kept apart; "eager", "lazy": run at creation or when awaited
        self.dict_like = lambda b: True
        for k, v in kw.items():
            setattr(self, k, v)


LOG_NAMES = (
    "debug",
    "info",
    "warning",
    "warn",
    "error",
    "critical",
    "exception",
    "log",
)

CMPOPS = {
    ast.Eq: "==",
    ast.NotEq: "!=",
    ast.Lt: "<",
    ast.LtE: "<=",
    ast.Gt: ">",
    ast.GtE: ">=",
    ast.Is: "is",
    ast.IsNot: "is not",
    ast.In: "in",
    ast.NotIn: "not in",
}
BINOPS = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.Div: "/",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.Pow: "**",
    ast.LShift: "<<",
    ast.RShift: ">>",
    ast.BitOr: "|",
    ast.BitAnd: "&",
    ast.BitXor: "^",
    ast.MatMult: "@",
}

MUTABLE = ("list", "dict", "set")


class Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = None

    def m(self, n):
        if self.cls and n and n.startswith("__") and not n.endswith("__"):
            c = self.cls.lstrip("_")
            if c:
                return "_%s%s" % (c, n)
        return n

    def visit_ClassDef(self, node):
        node.name_ = node.name
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        for k in node.keywords:
            k.value = self.visit(k.value)
        old, self.cls = self.cls, node.name
        node.body = [self.visit(b) for b in node.body]
        self.cls = old
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.plain_name = node.name
        self.generic_visit(node)
        node.name = self.m(node.name)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self.m(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg:
            node.arg = self.m(node.arg)
        return node

    def visit_Global(self, node):
        node.names = [self.m(n) for n in node.names]
        return node

    visit_Nonlocal = visit_Global

    def visit_ImportFrom(self, node):
        return node


class ScopeVisitor(ast.NodeVisitor):
    def __init__(self):
        self.locals = set()
        self.nonlocals = set()
        self.globals = set()
        self.is_gen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_FunctionDef(self, n):
        self.locals.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.locals.add(n.name)
        for d in n.bases + n.decorator_list:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_Yield(self, n):
        self.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def _comp(self, n):
        # the iterables and conditions may contain := that binds here
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name):
                self.locals.add(x.target.id)
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.locals.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.locals.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)


def arg_names(a):
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


# control results
RET, BRK, CONT, EXC, DIV = "ret", "brk", "cont", "exc", "div"


class Interp(object):
    def __init__(self):
        self.base = BaseHeap()
        self.next_id = 1
        self.opts = Options()
        self.modules = {}
        self.funcinfo = {}
        self.stack = []
        self.volatile = set()
        self.sched = False
        self.vague = []
        self.waiting = None
        self.harness_frame = {}
        self.stats = {
            "functions": set(),
            "calls_followed": 0,
            "loops": 0,
            "paths": 0,
            "partitions_max": 0,
            "opaque_calls": 0,
            "recursion_cuts": 0,
            "widenings": 0,
        }
        self.div = []
        self.notes = []
        self.loc = ("?", 0)

    # ------------------------------------------------------------ helpers

    def new_ref(self, st, o):
        i = self.next_id
        self.next_id += 1
        st.heap[i] = o
        return ref(i)

    def new_list(self, st, segs=(), kind="list"):
        return self.new_ref(st, Obj(kind, None, tuple(segs)))

    def new_dict(self, st, entries=()):
        return self.new_ref(st, Obj("dict", None, tuple(entries)))

    def where(self, node=None, fr=None):
        return self.loc

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def too_complex(self, msg):
        raise TooComplex("%s at %s:%s" % (msg, self.loc[0], self.loc[1]))

    def in_time(self):
        if time.monotonic() > self.until:
            raise OutOfTime("not decided in time at %s:%s" % (self.loc[0], self.loc[1]))

    def limit(self, outs):
        n = len(outs)
        if n > self.stats["partitions_max"]:
            self.stats["partitions_max"] = n
        if n > self.opts.max_paths:
            raise TooComplex("%d partitions at %s:%s" % (n, self.loc[0], self.loc[1]))
        return outs

    def raise_(self, st, cls, *args):
        """Put the state into raising mode."""
        st.exc = mk("exc", cls, tuple(args))
        return st

    def raise_ext(self, st, name, *args):
        return self.raise_(st, ext(name), *args)

    # ------------------------------------------------------------- scopes

    def frame(self, st, fi, parent, module, cells=None):
        o = Obj("frame", {}, (fi, parent, module))
        return self.new_ref(st, o)

    def lookup_name(self, st, fr, name):
        """[(st, val)]"""
        f = fr
        first = True
        while f is not None:
            o = st.obj(f)
            fi, parent, module = o.data
            is_cls = fi is not None and fi == "class"
            if first or not is_cls:
                if name in o.attrs:
                    v = o.attrs[name]
                    if v is not NOVAL:
                        return v
                if fi is not None and not is_cls and fi != "comp":
                    if name in fi.globals:
                        break
                    if name in fi.locals and name not in fi.nonlocals:
                        return None
            first = False
            f = parent
        mo = st.obj(st.obj(fr).data[2])
        if name in mo.attrs:
            return mo.attrs[name]
        if name in models.BUILTINS:
            return ext(name)
        return None

    def store_name(self, st, fr, name, val):
        f = fr
        while True:
            o = st.obj(f)
            fi, parent, module = o.data
            if fi == "comp":
                if name in o.extra:
                    break
                f = parent
                continue
            if fi is None or fi == "class":
                break
            if name in fi.globals:
                m = st.own(module)
                m.attrs[name] = val
                return
            if name in fi.nonlocals:
                g = parent
                while g is not None:
                    og = st.obj(g)
                    gfi = og.data[0]
                    if gfi not in (None, "class", "comp") and name in gfi.locals and name not in gfi.nonlocals:
                        break
                    g = og.data[1]
                if g is None:
                    g = f
                f = g
            break
        o = st.obj(f)
        if o.data[0] is None:  # module level
            st.own(o.data[2]).attrs[name] = val
            return
        st.own(f).attrs[name] = val

    # -------------------------------------------------------- statements

    def block(self, stmts, st, fr):
        """[(st, ctl, val)]"""
        states = [st]
        results = []
        for i, s in enumerate(stmts):
            nxt = []
            for x in states:
                for o in self.stmt(s, x, fr):
                    if o[1] is None:
                        nxt.append(o)
                    else:
                        results.append(o)
            nxt = merge_outcomes(nxt)
            self.limit(nxt)
            states = [o[0] for o in nxt]
            if not states:
                break
        results = [(s, None, None) for s in states] + results
        return self.limit(merge_outcomes(results))

    until = float("inf")
    ticks = 0

    def stmt(self, s, st, fr):
        self.ticks += 1
        if not self.ticks & 63:
            self.in_time()
        self.loc = (getattr(s, "file", self.loc[0]), getattr(s, "lineno", self.loc[1]))
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s:%s" % ((type(s).__name__,) + self.loc))
        return m(s, st, fr)

    def done(self, outs):
        """Statement outcomes of expression outcomes."""
        r = []
        for st, v in outs:
            if st.exc is not None:
                r.append((st, EXC, None))
            else:
                r.append((st, None, None))
        return r

    def st_Expr(self, s, st, fr):
        return self.done(self.ev(s.value, st, fr))

    def st_Pass(self, s, st, fr):
        return [(st, None, None)]

    def st_Return(self, s, st, fr):
        if s.value is None:
            return [(st, RET, NONE)]
        r = []
        for st2, v in self.ev(s.value, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
            else:
                r.append((st2, RET, v))
        return r

    def st_Break(self, s, st, fr):
        return [(st, BRK, None)]

    def st_Continue(self, s, st, fr):
        return [(st, CONT, None)]

    def st_Global(self, s, st, fr):
        return [(st, None, None)]

    st_Nonlocal = st_Global

    def st_Assert(self, s, st, fr):
        r = []
        for st2, v in self.cond(s.test, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
            elif v:
                r.append((st2, None, None))
            else:
                if s.msg is not None:
                    for st3, m in self.ev(s.msg, st2, fr):
                        if st3.exc is None:
                            self.raise_ext(st3, "AssertionError", m)
                        r.append((st3, EXC, None))
                else:
                    self.raise_ext(st2, "AssertionError")
                    r.append((st2, EXC, None))
        return r

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            st.exc = st.cur_exc or mk("exc", ext("RuntimeError"), ())
            return [(st, EXC, None)]
        r = []
        for st2, v in self.ev(s.exc, st, fr):
            if st2.exc is None:
                st2.exc = self.as_exc(st2, v)
            r.append((st2, EXC, None))
        return r

    def as_exc(self, st, v):
        if v.op == "exc":
            return v
        if v.op == "ext":
            return mk("exc", v, ())
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "class":
                return mk("exc", v, ())
            if o.kind == "inst":
                return mk("exc", o.data, (v,))
        if v.op == "call" and v.a[0].op == "ext":
            return mk("exc", v.a[0], v.a[1])
        return mk("exc", mk("typeof", v), (v,))

    def st_If(self, s, st, fr):
        r = []
        for st2, v in self.cond(s.test, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
            else:
                r.extend(self.block(s.body if v else s.orelse, st2, fr))
        return merge_outcomes(r)

    def st_Assign(self, s, st, fr):
        r = []
        for st2, v in self.ev(s.value, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            cur = [st2]
            for t in s.targets:
                nxt = []
                for x in cur:
                    if x.exc is not None:
                        nxt.append(x)
                    else:
                        nxt.extend(self.assign(t, v, x, fr))
                cur = nxt
            r.extend((x, EXC if x.exc is not None else None, None) for x in cur)
        return r

    def st_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None, None)]
        r = []
        for st2, v in self.ev(s.value, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            for x in self.assign(s.target, v, st2, fr):
                r.append((x, EXC if x.exc is not None else None, None))
        return r

    def st_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        r = []
        if isinstance(t, ast.Name):
            loads = [(st2, v, None, None) for st2, v in self.ev(ast.Name(t.id, ast.Load()), st, fr)]
        elif isinstance(t, ast.Attribute):
            loads = []
            for st2, b in self.ev(t.value, st, fr):
                if st2.exc is not None:
                    r.append((st2, EXC, None))
                    continue
                for st3, v in self.getattr(st2, b, t.attr):
                    loads.append((st3, v, b, t.attr))
        elif isinstance(t, ast.Subscript):
            loads = []
            for st2, (b, k) in self.ev_pair(t.value, t.slice, st, fr):
                if st2.exc is not None:
                    r.append((st2, EXC, None))
                    continue
                for st3, v in self.getitem(st2, b, k):
                    loads.append((st3, v, b, k))
        else:
            raise Unsupported("augmented assignment")
        for st2, old, b, k in loads:
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            for st3, v in self.ev(s.value, st2, fr):
                if st3.exc is not None:
                    r.append((st3, EXC, None))
                    continue
                if op == "+" and st3.kind(old) == "list" and lazy.is_lazy(st3, v):
                    outs = [(x, old) for x, _ in self.call(st3, mk("bm", old, "extend"), [v], [])]
                elif op == "+" and st3.kind(old) == "list":
                    segs = self.segs_of(st3, v)
                    o = st3.own(old)
                    o.data = o.data + tuple(segs)
                    for sg in segs:
                        st3.emit("append", (old, sg), self.loc)
                    outs = [(st3, old)]
                elif std.method(self, st3, old, "__i%s__" % std.ARITH.get(op, "?")) is not None:
                    outs = self.call(st3, std.method(self, st3, old, "__i%s__" % std.ARITH[op]), [v], [])
                elif op in ("|", "&", "-", "^") and st3.kind(old) == st3.kind(v) == "set" and std.set_op(self, st3, op, old, v) is not None:
                    outs = [(x, old) for x, _ in self.call(st3, mk("bm", old, {"|": "update", "&": "intersection_update", "-": "difference_update", "^": "symmetric_difference_update"}[op]), [v], [])]
                elif op == "|" and st3.kind(old) == "dict":
                    outs = models.dict_update(self, st3, old, v)
                    outs = [(x, old) for x in outs]
                else:
                    outs = self.binop(st3, op, old, v)
                for st4, nv in outs:
                    if st4.exc is not None:
                        r.append((st4, EXC, None))
                        continue
                    if isinstance(t, ast.Name):
                        self.store_name(st4, fr, t.id, nv)
                        r.append((st4, None, None))
                    elif isinstance(t, ast.Attribute):
                        for x in self.setattr(st4, b, k, nv):
                            r.append((x, EXC if x.exc is not None else None, None))
                    else:
                        for x in self.setitem(st4, b, k, nv):
                            r.append((x, EXC if x.exc is not None else None, None))
        return r

    def assign(self, t, v, st, fr):
        """[st]"""
        if isinstance(t, ast.Name):
            self.store_name(st, fr, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            r = []
            for st2, b in self.ev(t.value, st, fr):
                if st2.exc is not None:
                    r.append(st2)
                else:
                    r.extend(self.setattr(st2, b, t.attr, v))
            return r
        if isinstance(t, ast.Subscript):
            r = []
            for st2, (b, k) in self.ev_pair(t.value, t.slice, st, fr):
                if st2.exc is not None:
                    r.append(st2)
                else:
                    r.extend(self.setitem(st2, b, k, v))
            return r
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if misuse.lacks(self, st, v, "__iter__", "__getitem__"):
                self.raise_ext(st, "TypeError", v)
                return [st]
            if self.opts.closed and (st.kind(v) in ("lazy", "gen") or v.op in ("keys", "values", "items", "iter", "range") or st.kind(v) in ("dict", "inst")):
                r = []
                for s, segs in self.iterate(st, v):
                    if s.exc is not None:
                        r.append(s)
                    elif segs and all(x.op == "one" for x in segs):
                        r.extend(self.assign(t, self.new_list(s, segs), s, fr))
                    elif not segs:
                        r.extend(self.assign(t, tup(), s, fr))
                    else:
                        r = None
                        break
                if r is not None:
                    return r
            if self.opts.closed:
                k = self.length_known(st, v)
                if k is not None and (k < n - 1 if star else k != n):
                    self.raise_ext(st, "ValueError", v)
                    return [st]
            vals = self.unpack(st, v, n, star[0] if star else None)
            cur = [st]
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                nxt = []
                for c in cur:
                    nxt.extend(self.assign(e, x, c, fr))
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise Unsupported("assignment target")

    def length_known(self, st, v):
        if v.op == "tuple":
            return len(v.a)
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            return len(cval(v))
        if v.op == "ref" and st.kind(v) == "list" and all(x.op == "one" for x in st.obj(v).data):
            return len(st.obj(v).data)
        return None

    def unpack(self, st, v, n, star=None):
        items = None
        if v.op == "tuple":
            items = list(v.a)
        elif v.op == "ref" and st.kind(v) == "list":
            d = st.obj(v).data
            if all(x.op == "one" for x in d):
                items = [x.a[0] for x in d]
            elif len(d) == 1 and d[0].op == "all":
                v = d[0].a[0]
        elif v.op == "const" and isinstance(cval(v), str):
            items = [const(c) for c in cval(v)]
        if items is not None:
            if star is None:
                if len(items) == n:
                    return items
            else:
                k = len(items) - (n - 1)
                if k >= 0:
                    mid = self.new_list(st, [one(x) for x in items[star : star + k]])
                    return items[:star] + [mid] + items[star + k :]
            return [mk("item", v, const(i)) for i in range(n)]
        if star is not None:
            return [
                mkitem(v, const(i)) if i < star else (
                    mk("slice", v, const(star), const(star + 1 - n) if star + 1 - n else NONE, NONE) if i == star else mkitem(v, const(i - n))
                )
                for i in range(n)
            ]
        return [self.item_read(st, v, const(i)) for i in range(n)]

    def st_Delete(self, s, st, fr):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if x.exc is not None:
                    nxt.append(x)
                    continue
                if isinstance(t, ast.Name):
                    self.store_name(x, fr, t.id, NOVAL)
                    nxt.append(x)
                elif isinstance(t, ast.Attribute):
                    for st2, b in self.ev(t.value, x, fr):
                        if st2.exc is None:
                            self.delattr(st2, b, t.attr)
                        nxt.append(st2)
                elif isinstance(t, ast.Subscript):
                    for st2, (b, k) in self.ev_pair(t.value, t.slice, x, fr):
                        if st2.exc is None:
                            nxt.extend(self.delitem(st2, b, k))
                        else:
                            nxt.append(st2)
                else:
                    raise Unsupported("del target")
            cur = nxt
        return [(x, EXC if x.exc is not None else None, None) for x in cur]

    def st_FunctionDef(self, s, st, fr):
        r = []
        for st2, f in self.make_func(s, st, fr):
            outs = [(st2, f)]
            if st2.exc is None:
                outs = self.decorate(s.decorator_list, st2, f, fr)
            for st3, v in outs:
                if st3.exc is not None:
                    r.append((st3, EXC, None))
                else:
                    self.store_name(st3, fr, s.name, v)
                    r.append((st3, None, None))
        return r

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, decs, st, f, fr):
        outs = self.ev_list(decs, st, fr)
        r = []
        for st2, ds in outs:
            if st2.exc is not None:
                r.append((st2, None))
                continue
            cur = [(st2, f)]
            for d in reversed(ds):
                nxt = []
                for x, v in cur:
                    if x.exc is not None:
                        nxt.append((x, v))
                    else:
                        nxt.extend(self.call(x, d, [v], []))
                cur = nxt
            r.extend(cur)
        return r

    def func_info(self, s, module, qual, cls):
        fi = FuncInfo()
        fi.node = s
        fi.islambda = isinstance(s, ast.Lambda)
        fi.name = "<lambda>" if fi.islambda else getattr(s, "plain_name", s.name)
        fi.qual = qual
        fi.module = module
        fi.args = s.args
        fi.is_async = isinstance(s, ast.AsyncFunctionDef)
        v = ScopeVisitor()
        if fi.islambda:
            fi.body = [ast.copy_location(ast.Return(s.body), s)]
            ast.fix_missing_locations(fi.body[0])
            v.visit(s.body)
        else:
            fi.body = s.body
            for b in s.body:
                v.visit(b)
        v.locals.update(arg_names(s.args))
        fi.is_gen = v.is_gen
        fi.is_ctx = fi.is_memo = False
        fi.nonlocals = v.nonlocals
        fi.globals = v.globals
        fi.locals = v.locals - v.nonlocals - v.globals
        fi.cls = cls
        fi.path = getattr(s, "file", "?")
        return fi

    def make_func(self, s, st, fr):
        defaults = s.args.defaults
        kwd = s.args.kw_defaults
        r = []
        for st2, vals in self.ev_list(list(defaults) + [k for k in kwd if k is not None], st, fr):
            if st2.exc is not None:
                r.append((st2, None))
                continue
            dv = vals[: len(defaults)]
            kv = list(vals[len(defaults) :])
            kws = [kv.pop(0) if k is not None else None for k in kwd]
            o = st2.obj(fr)
            key = (id(s),)
            fi = self.funcinfo.get(key)
            if fi is None:
                owner = o.attrs.get("__class_cell__") if o.data[0] == "class" else None
                pq = o.attrs.get("__qual__", "") if o.data[0] == "class" else (
                    (o.data[0].qual + ".<locals>.") if o.data[0] not in (None, "comp") else ""
                )
                q = "%s%s" % (pq, getattr(s, "plain_name", None) or getattr(s, "name", "<lambda>"))
                fi = self.func_info(s, o.data[2], q, None)
                self.funcinfo[key] = fi
            closure = fr if o.data[0] is not None else None
            cls = o.attrs.get("__class_cell__") if o.data[0] == "class" else None
            if cls is None:
                f2 = fr
                while f2 is not None and st2.obj(f2).data[0] in ("comp",):
                    f2 = st2.obj(f2).data[1]
                if f2 is not None:
                    cls = st2.obj(f2).extra if st2.obj(f2).data[0] not in (None, "class", "comp") else None
            data = (fi, closure, tuple(dv), tuple(kws), cls)
            r.append((st2, self.new_ref(st2, Obj("func", {"__name__": const(fi.name), "__qualname__": const(fi.qual)}, data))))
        return r

    def st_ClassDef(self, s, st, fr):
        r = []
        for st2, bases in self.ev_list(s.bases, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            for st3, c in self.make_class(s, bases, st2, fr):
                if st3.exc is not None:
                    r.append((st3, EXC, None))
                    continue
                for st4, v in self.decorate(s.decorator_list, st3, c, fr):
                    if st4.exc is not None:
                        r.append((st4, EXC, None))
                    else:
                        self.store_name(st4, fr, s.name, v)
                        r.append((st4, None, None))
        return r

    def make_class(self, s, bases, st, fr):
        fo = st.obj(fr)
        bases = [b for b in bases if not (b.op == "ext" and b.a[0] == "object")]
        record = False
        if "_std" in self.modules and any(b is ext("typing.NamedTuple") for b in bases):
            bases = [st.obj(self.modules["_std"]).attrs["Record"]]
            record = True
        mro = self.linearize(st, bases)
        qual = s.name
        if fo.data[0] == "class":
            qual = fo.attrs["__qual__"] + s.name
        elif fo.data[0] not in (None, "comp"):
            qual = fo.data[0].qual + ".<locals>." + s.name
        co = Obj("class", {}, None)
        c = self.new_ref(st, co)
        co.data = {
            "name": s.name,
            "qual": qual,
            "bases": tuple(bases),
            "mro": [c] + mro + [ext("object")],
            "module": fo.data[2],
            "node": s,
        }
        if self.loading:
            self.base[c.a[0]] = co
        else:
            self.base[c.a[0]] = co
        cf = self.new_ref(
            st,
            Obj("frame", {"__class_cell__": c, "__qual__": qual + "."}, ("class", fr if fo.data[0] is not None else None, fo.data[2])),
        )
        outs = []
        for st2, ctl, v in self.block(s.body, st, cf):
            if ctl == EXC:
                outs.append((st2, None))
                continue
            ns = dict(st2.obj(cf).attrs)
            ns.pop("__class_cell__")
            ns.pop("__qual__")
            ns = {k: v for k, v in ns.items() if v is not NOVAL}
            o = st2.own(c)
            o.attrs = ns
            if any(b.op == "ext" and b.a[0] in ("enum.Enum", "enum.IntEnum") for b in o.data["mro"]):
                for k, v in list(ns.items()):
                    if v.op == "const":
                        ns[k] = mk("enum", qual, k)
                        self.enum_values[ns[k]] = v
                        if all(b.op == "ref" or b.a[0] in ("enum.Enum", "object") for b in o.data["mro"]) and "__eq__" not in ns:
                            self.plain_enums.add(ns[k])
            elif True:
                for k, v in ns.items():
                    # Signals and the like are told which attribute they are, no model needed
                    pass
            if record:
                models.dataclass(self, st2, c)
                o = st2.own(c)
                o.attrs["_fields"] = tup(*[const(f[0]) for f in o.data["fields"]])
            # __init_subclass__ of the bases
            hook = None
            for b in o.data["mro"][1:]:
                if b.op == "ref" and "__init_subclass__" in st2.obj(b).attrs:
                    hook = (b, st2.obj(b).attrs["__init_subclass__"])
                    break
            if hook is not None:
                f = hook[1]
                if f.op == "static" or f.op == "classm":
                    f = f.a[0]
                for st3, _ in self.call(st2, mk("bound", f, c), [], []):
                    outs.append((st3, c))
            else:
                outs.append((st2, c))
        return outs

    loading = True

    def linearize(self, st, bases):
        seqs = []
        for b in bases:
            if b.op == "ref":
                seqs.append([x for x in st.obj(b).data["mro"] if not (x.op == "ext" and x.a[0] == "object")])
            else:
                seqs.append([b])
        seqs.append([b for b in bases])
        out = []
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return out
            for q in seqs:
                h = q[0]
                if not any(h in z[1:] for z in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for q in seqs:
                if h in q:
                    q.remove(h)

    def st_Import(self, s, st, fr):
        for a in s.names:
            root = a.name.split(".")[0]
            v = self.import_module(a.name, st)
            if a.asname:
                self.store_name(st, fr, a.asname, v)
            else:
                if v.op == "ref" and "." in a.name:
                    v = self.import_module(root, st)
                elif v.op == "ext":
                    v = ext(root)
                self.store_name(st, fr, root, v)
        return [(st, None, None)]

    def st_ImportFrom(self, s, st, fr):
        mod = st.obj(st.obj(fr).data[2])
        name = self.resolve_import(mod, s)
        m = self.import_module(name, st)
        for a in s.names:
            if a.name == "*":
                if m.op != "ref":
                    continue
                o = st.obj(m)
                al = o.attrs.get("__all__")
                if al is not None and al.op == "ref" and all(x.op == "one" for x in st.obj(al).data):
                    names = [cval(x.a[0]) for x in st.obj(al).data]
                else:
                    names = [k for k in o.attrs if not k.startswith("_")]
                for n in names:
                    if n in o.attrs:
                        self.store_name(st, fr, n, o.attrs[n])
                    else:
                        self.missing_exports.append((o.data, n))
                continue
            if m.op == "ref":
                o = st.obj(m)
                v = o.attrs.get(a.name)
                if v is None:
                    sub = self.import_module(name + "." + a.name, st)
                    v = sub if sub.op == "ref" else ext(name + "." + a.name)
                    if sub.op != "ref":
                        self.missing_exports.append((name, a.name))
            else:
                v = ext(m.a[0] + "." + a.name)
            self.store_name(st, fr, a.asname or a.name, v)
        return [(st, None, None)]

    def st_For(self, s, st, fr):
        r = []
        for st2, it in self.ev(s.iter, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            late = self.opts.closed and st2.kind(it) in ("lazy", "gen")
            for st3, segs in self.iterate(st2, it) if not late else [(st2, None)]:
                if st3.exc is not None:
                    r.append((st3, EXC, None))
                    continue

                def body(x, v, s=s, fr=fr):
                    outs = []
                    for y in self.assign(s.target, v, x, fr):
                        if y.exc is not None:
                            outs.append((y, EXC, None))
                        else:
                            outs.extend(self.block(s.body, y, fr))
                    return outs

                if late and st3.kind(it) == "lazy":
                    got = [(o[0], None, None) if o[1] is None else o for o in lazy.consume(self, st3, it, body)]
                else:
                    got = lazy.loop_gen(self, st3, it, body) if late else None
                for o in got if got is not None else self.loop_over(st3, it, segs if not late else list(st3.obj(it).data), body, (getattr(s, "file", "?"), s.lineno)):
                    if o[1] is None and s.orelse:
                        r.extend(self.block(s.orelse, o[0], fr))
                    elif o[1] == BRK:
                        r.append((o[0], None, None))
                    else:
                        r.append(o)
        return merge_outcomes(r)

    def st_AsyncFor(self, s, st, fr):
        if not self.opts.closed:
            raise Unsupported("async for at %s:%s" % self.loc)
        return self.st_For(s, st, fr)

    def st_While(self, s, st, fr):
        from . import loops

        r = []
        for o in loops.while_loop(self, s, st, fr):
            if o[1] is None and s.orelse:
                r.extend(self.block(s.orelse, o[0], fr))
            elif o[1] == BRK:
                r.append((o[0], None, None))
            else:
                r.append(o)
        return merge_outcomes(r)

    def loop_over(self, st, it, segs, body, loc):
        from . import loops

        ref = loops.live(self, st, it)
        if ref is not None:
            return loops.loop_live(self, st, segs, ref, body, loc)
        return loops.loop_segs(self, st, segs, body, loc)

    def loop_segs(self, st, segs, body, loc=None):
        from . import loops

        return loops.loop_segs(self, st, segs, body, loc or self.loc)

    def st_Try(self, s, st, fr):
        self.try_depth += 1 if s.handlers else 0
        outs = self.block(s.body, st, fr)
        self.try_depth -= 1 if s.handlers else 0
        r = []
        for o in outs:
            if o[1] == EXC and s.handlers:
                r.extend(self.handle(s, o[0], fr))
            elif o[1] is None and s.orelse:
                r.extend(self.block(s.orelse, o[0], fr))
            else:
                r.append(o)
        if s.finalbody:
            q = []
            for o in r:
                if o[1] == DIV:
                    q.append(o)
                    continue
                exc = o[0].exc
                o[0].exc = None
                for f in self.block(s.finalbody, o[0], fr):
                    if f[1] is None:
                        f[0].exc = exc
                        q.append((f[0], o[1], o[2]))
                    else:
                        q.append(f)
            r = q
        return r

    st_TryStar = st_Try
    try_depth = 0

    def handle(self, s, st, fr):
        r = []
        cur = st
        exc = st.exc
        for h in s.handlers:
            if h.type is None:
                m = True
            else:
                cur.exc = None
                outs = self.ev(h.type, cur, fr)
                cur, tv = outs[0]
                types = list(tv.a) if tv.op == "tuple" else [tv]
                ms = [self.exc_match(exc, t) for t in types]
                m = True if True in ms else (None if None in ms else False)
            if m is False:
                continue
            if m is None:
                other = cur.copy()
            cur.exc = None
            saved, cur.cur_exc = cur.cur_exc, exc
            if h.name:
                self.store_name(cur, fr, h.name, exc)
            for o in self.block(h.body, cur, fr):
                o[0].cur_exc = saved
                r.append(o)
            if m:
                return r
            cur = other
        cur.exc = exc
        r.append((cur, EXC, None))
        return r

    def exc_match(self, exc, t):
        c = exc.a[0]
        if t.op == "ext" and t.a[0] == "BaseException":
            return True
        if c.op == "unknown_exc":
            if t.op == "ext" and t.a[0] == "Exception":
                return True
            return None
        if c.op == "typeof":
            return None
        r = self.base.subclass(c, t)
        if t.op == "ext" and t.a[0] == "Exception" and r is None:
            return True
        return r

    def st_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        is_async = isinstance(s, ast.AsyncWith)
        item = s.items[i]
        r = []

        def within(x, v):
            if item.optional_vars is None:
                return self.with_items(s, i + 1, x, fr)
            outs = []
            for y in self.assign(item.optional_vars, v, x, fr):
                outs.extend(self.with_items(s, i + 1, y, fr) if y.exc is None else [(y, EXC, None)])
            return outs

        for st2, m in self.ev(item.context_expr, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            if st2.kind(m) == "ctxm":
                r.extend(lazy.within(self, st2, st2.obj(m).data, within))
                continue
            sup = m.op == "call" and m.a[0].op == "ext" and m.a[0].a[0].endswith("suppress")
            for x, v in self.with_enter(st2, m, is_async):
                if x.exc is not None:
                    r.append((x, EXC, None))
                    continue
                self.try_depth += 1 if sup else 0
                outs = within(x, v)
                self.try_depth -= 1 if sup else 0
                for o in outs:
                    if sup:
                        if o[1] == EXC:
                            mt = [self.exc_match(o[0].exc, t) for t in m.a[1]]
                            if True in mt or None in mt:
                                y = o[0].copy()
                                y.exc = None
                                r.append((y, None, None))
                            if True not in mt:
                                r.append(o)
                        else:
                            r.append(o)
                        continue
                    if o[1] == DIV:
                        r.append(o)
                        continue
                    exc, o[0].exc = o[0].exc, None
                    for st3, w in self.with_exit(o[0], m, is_async, exc if exc is not None else NONE):
                        if st3.exc is not None:
                            r.append((st3, EXC, None))
                        elif exc is not None and m.op == "ref":
                            # what __exit__ returns says whether that was all
                            for st4, quiet in self.truth(st3, w):
                                if quiet:
                                    r.append((st4, None, None))
                                else:
                                    st4.exc = exc
                                    r.append((st4, o[1], o[2]))
                        else:
                            st3.exc = exc
                            r.append((st3, o[1], o[2]))
        return r

    st_AsyncWith = st_With

    def with_enter(self, st, m, is_async):
        n = "__aenter__" if is_async else "__enter__"
        if m.op == "ref" and st.kind(m) == "inst":
            outs = []
            for st2, f in self.getattr(st, m, n):
                if st2.exc is not None:
                    outs.append((st2, f))
                    continue
                for st3, v in self.call(st2, f, [], []):
                    if is_async and st3.exc is None:
                        outs.extend(self.await_(st3, v))
                    else:
                        outs.append((st3, v))
            return outs
        st.emit("enter", (m,), self.loc)
        return [(st, mk("entered", m))]

    def with_exit(self, st, m, is_async, exc):
        n = "__aexit__" if is_async else "__exit__"
        if m.op == "ref" and st.kind(m) == "inst":
            outs = []
            for st2, f in self.getattr(st, m, n):
                if st2.exc is not None:
                    outs.append((st2, f))
                    continue
                for st3, v in self.call(st2, f, [exc, exc, NONE], []):
                    if is_async and st3.exc is None:
                        outs.extend(self.await_(st3, v))
                    else:
                        outs.append((st3, v))
            return outs
        st.emit("exit", (m, exc), self.loc)
        return [(st, NONE)]

    def st_Match(self, s, st, fr):
        r = []
        for st2, v in self.ev(s.subject, st, fr):
            if st2.exc is not None:
                r.append((st2, EXC, None))
                continue
            cur = [st2]
            for case in s.cases:
                nxt = []
                for x in cur:
                    for y, m in self.match_pat(case.pattern, v, x, fr):
                        if not m:
                            nxt.append(y)
                            continue
                        if case.guard is not None:
                            for z, g in self.cond(case.guard, y, fr):
                                if z.exc is not None:
                                    r.append((z, EXC, None))
                                elif g:
                                    r.extend(self.block(case.body, z, fr))
                                else:
                                    nxt.append(z)
                        else:
                            r.extend(self.block(case.body, y, fr))
                cur = nxt
            r.extend((x, None, None) for x in cur)
        return r

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            outs = []
            for st2, k in self.ev(p.value, st, fr):
                outs.extend(self.fork(st2, self.eq_cond(st2, v, k)))
            return outs
        if isinstance(p, ast.MatchSingleton):
            return self.fork(st, self.is_cond(st, v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(st, fr, p.name, v)
                return [(st, True)]
            outs = []
            for st2, m in self.match_pat(p.pattern, v, st, fr):
                if m and p.name:
                    self.store_name(st2, fr, p.name, v)
                outs.append((st2, m))
            return outs
        if isinstance(p, ast.MatchOr):
            cur, outs = [st], []
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for y, m in self.match_pat(q, v, x, fr):
                        if m:
                            outs.append((y, True))
                        else:
                            nxt.append(y)
                cur = nxt
            return outs + [(x, False) for x in cur]
        if isinstance(p, ast.MatchSequence) and v.op in ("const", "range", "bound") and not isinstance(v.a[0], (list, tuple)):
            return [(st, False)]
        if isinstance(p, ast.MatchSequence) and v.op == "ref" and st.obj(v).kind in ("dict", "set", "func", "class", "module"):
            return [(st, False)]
        seq = None
        if v.op == "tuple":
            seq = list(v.a)
        elif v.op == "ref" and st.obj(v).kind == "list" and all(x.op == "one" for x in st.obj(v).data):
            seq = [x.a[0] for x in st.obj(v).data]
        if isinstance(p, ast.MatchSequence) and seq is not None:
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if len(p.patterns) - len(stars) > len(seq) or not stars and len(p.patterns) != len(seq):
                return [(st, False)]
            pairs = list(zip(p.patterns, seq))
            if stars:
                i = stars[0]
                k = len(p.patterns) - i - 1
                mid = seq[i : len(seq) - k]
                pairs = list(zip(p.patterns[:i], seq)) + list(zip(p.patterns[i + 1 :], seq[len(seq) - k :]))
                if p.patterns[i].name:
                    self.store_name(st, fr, p.patterns[i].name, self.new_list(st, [one(x) for x in mid]))
            cur, outs = [st], []
            for q, e in pairs:
                nxt = []
                for x in cur:
                    for y, m in self.match_pat(q, e, x, fr):
                        if m:
                            nxt.append(y)
                        else:
                            outs.append((y, False))
                cur = nxt
            return outs + [(x, True) for x in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            outs = []
            for st2, c in self.ev(p.cls, st, fr):
                outs.extend(self.fork(st2, self.isinst_cond(st2, v, c)))
            return outs
        if isinstance(p, ast.MatchClass):
            outs = []
            for st2, c in self.ev(p.cls, st, fr):
                for s, m in self.fork(st2, self.isinst_cond(st2, v, c)):
                    if not m:
                        outs.append((s, False))
                        continue
                    subs = list(zip(p.kwd_attrs, p.kwd_patterns))
                    cur = [s]
                    if p.patterns and c.op == "ext" and c.a[0] in ("int", "str", "bool", "float", "list", "dict", "tuple", "set", "bytes") and len(p.patterns) == 1:
                        nxt = []
                        for x in cur:
                            for y, m2 in self.match_pat(p.patterns[0], v, x, fr):
                                (nxt.append(y) if m2 else outs.append((y, False)))
                        cur = nxt
                    elif p.patterns:
                        names = self.class_attr(s, c, "__match_args__") if c.op == "ref" else None
                        fields = self.fields_of(s, c) if names is None and c.op == "ref" else None
                        if names is not None and names.op == "tuple":
                            names = [cval(x) for x in names.a]
                        elif fields is not None:
                            names = [f[0] for f in fields]
                        else:
                            raise Unsupported("match pattern")
                        subs = list(zip(names, p.patterns)) + subs
                    for name, q in subs:
                        nxt = []
                        for x in cur:
                            for y, w in self.getattr(x, v, name):
                                if y.exc is not None:
                                    y.exc = None
                                    outs.append((y, False))
                                    continue
                                for z, m2 in self.match_pat(q, w, y, fr):
                                    (nxt.append(z) if m2 else outs.append((z, False)))
                        cur = nxt
                    outs.extend((x, True) for x in cur)
            return outs
        if isinstance(p, ast.MatchMapping) and v.op == "ref" and st.obj(v).kind == "dict" and not p.rest:
            cur, outs = [st], []
            for k, q in zip(p.keys, p.patterns):
                nxt = []
                for x in cur:
                    for y, kt in self.ev(k, x, fr):
                        for z, w in models.dict_get(self, y, v, kt, models.NOVAL_T):
                            if w is models.NOVAL_T:
                                outs.append((z, False))
                                continue
                            for u, m2 in self.match_pat(q, w, z, fr):
                                (nxt.append(u) if m2 else outs.append((u, False)))
                cur = nxt
            return outs + [(x, True) for x in cur]
        raise Unsupported("match pattern")

    # -------------------------------------------------------- expressions

    def ev(self, e, st, fr):
        """[(st, val)]; val is None in raising states."""
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s:%s" % ((type(e).__name__,) + self.loc))
        if hasattr(e, "lineno"):
            self.loc = (self.loc[0], e.lineno)
        return m(e, st, fr)

    def ev_list(self, es, st, fr):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in outs:
                if x.exc is not None:
                    nxt.append((x, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x, fr):
                        if y.exc is not None:
                            nxt.append((y, vs))
                            continue
                        for z, segs in self.iterate(y, v):
                            if z.exc is not None:
                                nxt.append((z, vs))
                                continue
                            nxt.append((z, vs + [sg.a[0] if sg.op == "one" else mk("star", sg) for sg in segs]))
                else:
                    for y, v in self.ev(e, x, fr):
                        nxt.append((y, vs + [v]))
            outs = self.limit(nxt)
        return outs

    def ev_pair(self, a, b, st, fr):
        return [(s, tuple(v) if s.exc is None else (None, None)) for s, v in self.ev_list([a, b], st, fr)]

    def ev_Constant(self, e, st, fr):
        return [(st, const(e.value))]

    def ev_Name(self, e, st, fr):
        v = self.lookup_name(st, fr, e.id)
        if v is None or v is NOVAL:
            self.raise_ext(st, "NameError", const(e.id))
            return [(st, None)]
        return [(st, v)]

    def ev_Attribute(self, e, st, fr):
        r = []
        for st2, b in self.ev(e.value, st, fr):
            if st2.exc is not None:
                r.append((st2, None))
            else:
                r.extend(self.getattr(st2, b, e.attr))
        return r

    def ev_Subscript(self, e, st, fr):
        r = []
        for st2, (b, k) in self.ev_pair(e.value, e.slice, st, fr):
            if st2.exc is not None:
                r.append((st2, None))
            else:
                r.extend(self.getitem(st2, b, k))
        return r

    def ev_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [
            (s, mk("sliceobj", *v) if s.exc is None else None)
            for s, v in self.ev_list(parts, st, fr)
        ]

    def ev_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Tuple(self, e, st, fr):
        r = []
        for s, v in self.ev_list(e.elts, st, fr):
            if s.exc is not None:
                r.append((s, None))
            elif any(x.op == "star" for x in v):
                r.append((s, self.new_list(s, [x.a[0] if x.op == "star" else one(x) for x in v])))
            else:
                r.append((s, tup(*v)))
        return r

    def ev_List(self, e, st, fr):
        r = []
        for s, v in self.ev_list(e.elts, st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.append((s, self.new_list(s, [x.a[0] if x.op == "star" else one(x) for x in v])))
        return r

    def ev_Set(self, e, st, fr):
        r = []
        for s, v in self.ev_list(e.elts, st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.append((s, self.new_list(s, [x.a[0] if x.op == "star" else one(x) for x in v], "set")))
        return r

    def ev_Dict(self, e, st, fr):
        ks = []
        for k, v in zip(e.keys, e.values):
            ks.append(k if k is not None else ast.Constant(None))
            ks.append(v)
        r = []
        for s, vs in self.ev_list(ks, st, fr):
            if s.exc is not None:
                r.append((s, None))
                continue
            d = self.new_dict(s)
            cur = [s]
            for i, k in enumerate(e.keys):
                nxt = []
                for x in cur:
                    if k is None:
                        nxt.extend(models.dict_update(self, x, d, vs[2 * i + 1], quiet=True))
                    else:
                        models.dict_set(self, x, d, vs[2 * i], vs[2 * i + 1])
                        nxt.append(x)
                cur = nxt
            r.extend((x, d) for x in cur)
        return r

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                parts.append((p.value, p.conversion, p.format_spec))
            else:
                parts.append((p, -1, None))
        r = []
        for s, vs in self.ev_list([p[0] for p in parts], st, fr):
            if s.exc is not None:
                r.append((s, None))
                continue
            out = []
            for (n, conv, spec), v in zip(parts, vs):
                plain = v.op == "const" and type(cval(v)) in (int, str, float, bool, type(None))
                if conv == 114:
                    v = const(repr(cval(v))) if plain else mk("repr", v)
                if spec is not None and spec.values:
                    sp = "".join(str(getattr(x, "value", "?")) for x in spec.values)
                    w = None
                    if plain and all(isinstance(x, ast.Constant) for x in spec.values):
                        try:
                            w = const(format(cval(v), sp))
                        except (TypeError, ValueError):
                            pass
                    v = w or mk("fmtspec", v, sp)
                out.append(v)
            r.append((s, mkfmt(out)))
        return r

    def ev_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def ev_IfExp(self, e, st, fr):
        r = []
        for s, v in self.cond(e.test, st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.extend(self.ev(e.body if v else e.orelse, s, fr))
        return r

    def ev_NamedExpr(self, e, st, fr):
        r = []
        for s, v in self.ev(e.value, st, fr):
            if s.exc is None:
                self.store_name(s, fr, e.target.id, v)
            r.append((s, v))
        return r

    def ev_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        outs = [(st, None, True)]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s, v, live in outs:
                if not live or s.exc is not None:
                    nxt.append((s, v, False))
                    continue
                for s2, v2 in self.ev(x, s, fr):
                    if s2.exc is not None:
                        nxt.append((s2, None, False))
                        continue
                    if last:
                        nxt.append((s2, v2, True))
                        continue
                    for s3, b in self.truth(s2, v2):
                        if s3.exc is not None:
                            nxt.append((s3, None, False))
                            continue
                        # a decided comparison is its truth value
                        rv = const(b) if v2.op in ("cmp", "not", "quant") else v2
                        nxt.append((s3, rv, b == is_and))
            outs = self.limit(nxt)
        return merge_outcomes([(s, v) for s, v, _ in outs])

    def ev_UnaryOp(self, e, st, fr):
        r = []
        for s, v in self.ev(e.operand, st, fr):
            if s.exc is not None:
                r.append((s, None))
                continue
            if isinstance(e.op, ast.Not):
                if v.op in ("const",):
                    r.append((s, const(not cval(v))))
                else:
                    c = self.truth_cond(s, v)
                    if c is True or c is False:
                        r.append((s, const(not c)))
                    elif c is None:
                        for s2, b in self.truth(s, v):
                            r.append((s2, const(not b) if s2.exc is None else None))
                    else:
                        k = s.known(c)
                        r.append((s, const(not k) if k is not None else mk("not", v)))
            elif isinstance(e.op, ast.USub):
                if v.op == "const" and is_num(cval(v)):
                    r.append((s, const(-cval(v))))
                else:
                    r.append((s, mk("un", "-", v)))
            elif isinstance(e.op, ast.UAdd):
                r.append((s, v))
            elif v.op == "const" and isinstance(cval(v), int):
                r.append((s, const(~cval(v))))
            else:
                r.append((s, mk("un", "~", v)))
        return r

    def ev_BinOp(self, e, st, fr):
        op = BINOPS[type(e.op)]
        r = []
        for s, v in self.ev_list([e.left, e.right], st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.extend(self.binop(s, op, v[0], v[1]))
        return r

    def binop(self, st, op, x, y):
        if st.kind(x) != "inst" and st.kind(y) != "inst":
            bad = misuse.operands(self, st, op, x, y)
            if bad:
                self.raise_ext(st, bad)
                return [(st, None)]
        kx = st.kind(x)
        ky = st.kind(y)
        if op == "+" and ("list" in (kx, ky) or x.op == y.op == "tuple"):
            if x.op == "tuple" and y.op == "tuple":
                return [(st, tup(*(x.a + y.a)))]
            return [(st, self.new_list(st, tuple(self.segs_of(st, x)) + tuple(self.segs_of(st, y))))]
        if op == "*" and "list" in (kx, ky):
            if kx != "list":
                x, y = y, x
            d = st.obj(x).data
            if y.op == "const" and isinstance(cval(y), int) and 0 <= cval(y) <= 16:
                return [(st, self.new_list(st, d * cval(y)))]
            return [(st, self.new_list(st, (mk("rep", d, y),)))]
        if op == "%" and x.op == "const" and isinstance(cval(x), str):
            r = models.percent_format(self, st, x, y)
            if r is not None:
                return [(st, r)]
        if op == "|" and kx == "dict":
            d = self.new_dict(st, st.obj(x).data)
            return [(s, d) for s in models.dict_update(self, st, d, y, quiet=True)]
        if op in ("-", "&", "|", "^") and kx == ky == "set":
            v = std.set_op(self, st, op, x, y)
            if v is not None:
                return [(st, v)]
        if op in ("-", "&", "|", "^") and ("set" in (kx, ky)):
            return [(st, mk("bin", op, self.snap(st, x), self.snap(st, y)))]
        # operators of package classes
        for v, w, n in ((x, y, "__%s__"), (y, x, "__r%s__")):
            m = std.method(self, st, v, n % std.ARITH.get(op, "?"))
            if m is not None:
                return self.call(st, m, [w], [])
        return [(st, mkbin(op, self.num(st, x), self.num(st, y)))]

    def num(self, st, x):
        """A value known to be one constant under the facts."""
        return x

    def ev_Compare(self, e, st, fr):
        outs = []
        for s, vs in self.ev_list([e.left] + e.comparators, st, fr):
            if s.exc is not None:
                outs.append((s, None))
                continue
            pend = [(s, TRUE)]
            n = len(e.ops)
            for i, o in enumerate(e.ops):
                nxt = []
                for x, v in pend:
                    if x.exc is not None:
                        nxt.append((x, v, True))
                        continue
                    for y, w in self.compare(x, CMPOPS[type(o)], vs[i], vs[i + 1]):
                        if i == n - 1 or y.exc is not None:
                            nxt.append((y, w, True))
                        else:
                            for z, b in self.truth(y, w):
                                if b:
                                    nxt.append((z, TRUE, False))
                                else:
                                    nxt.append((z, FALSE, True))
                outs.extend((x, v) for x, v, d in nxt if d)
                pend = [(x, v) for x, v, d in nxt if not d]
        return outs

    def compare(self, st, op, x, y):
        """[(st, val)]; val a constant or a comparison term."""
        if op in ("is", "is not"):
            c = self.is_cond(st, x, y)
            if op == "is not":
                c = neg(c)
        elif op in ("in", "not in"):
            return self.contains(st, x, y, op == "not in")
        elif op in ("==", "!="):
            m = std.method(self, st, x, "__ne__") if op == "!=" else None
            if m is not None:
                return self.call(st, m, [y], [])
            m = std.method(self, st, x, "__eq__") or (std.method(self, st, y, "__eq__") if st.kind(x) != "inst" else None)
            if m is not None:
                outs = self.call(st, m, [y if m.a[1] is x else x], [])
                if op == "==":
                    return outs
                return [(s2, const(not b) if s2.exc is None else None) for s, v in outs for s2, b in (self.truth(s, v) if s.exc is None else [(s, None)])]
            c = self.eq_cond(st, x, y)
            if op == "!=":
                c = neg(c)
        else:
            m = std.method(self, st, x, std.DUNDER[op])
            if m is not None:
                return self.call(st, m, [y], [])
            m = std.method(self, st, y, std.REFLECTED[op])
            if m is not None:
                return self.call(st, m, [x], [])
            if "set" == st.kind(x) == st.kind(y):
                c = std.set_op(self, st, op, x, y)
                if c is not None:
                    return [(st, c)]
            if x.op == y.op == "tuple" or st.kind(x) == st.kind(y) == "list":
                c = std.less(self, st, *((x, y) if op in ("<", ">=") else (y, x)))
                if c is not None:
                    return [(st, const(c == (op in ("<", ">"))))]
            bad = misuse.operands(self, st, op, x, y)
            if bad:
                self.raise_ext(st, bad)
                return [(st, None)]
            c = lin_cond(op, x, y)
            if c is None and x.op == y.op == "const":
                try:
                    c = bool(misuse.OPS[op](cval(x), cval(y)))
                except TypeError:
                    pass
            if c is None:
                c = (mk("lt", x, y), True)
                if op == ">":
                    c = (mk("lt", y, x), True)
                elif op == "<=":
                    c = (mk("lt", y, x), False)
                elif op == ">=":
                    c = (mk("lt", x, y), False)
        if c is True or c is False:
            return [(st, const(c))]
        k = st.known(c)
        if k is not None:
            return [(st, const(k))]
        return [(st, mk("cmp", op, x, y, c))]

    def is_cond(self, st, x, y):
        if x is y:
            return True
        if x.op == "const" and y.op != "const":
            x, y = y, x
        if x.op == "const" and y.op == "const":
            return False
        definite = ("ref", "tuple", "fmt", "bound", "enum", "exc", "cmp", "bin", "repat", "rematch")
        if y.op == "const" and x.op in definite:
            if x.op == "bin" and y is not NONE:
                pass
            elif x.op == "cmp" and y is not NONE:
                c = self.truth_cond(st, x)
                return c if y is TRUE else neg(c) if y is FALSE else False
            else:
                return False
        if x.op == "ref" and y.op == "ref":
            return False
        if x.op == "enum" and y.op == "enum":
            return False
        if x.op == "ref" or y.op == "ref":
            t = x if x.op == "ref" else y
            o = y if x.op == "ref" else x
            # a fresh object is not any symbolic value that existed before
            if st.kind(t) in ("list", "dict", "set", "func", "inst", "coro", "task", "gen") and o.op not in ("lv", "lo", "elem", "item", "call", "attr", "awaited", "dattr"):
                return False
        if y.op == "ext" and x.op == "ext":
            return False
        if {x.op, y.op} == {"ext", "ref"} and st.kind(x if x.op == "ref" else y) == "class":
            return False
        if y.op != "const" and okey(x) > okey(y):
            x, y = y, x
        return (mk("is", x, y), True)

    def eq_cond(self, st, x, y):
        if x is y:
            return True
        if y is NONE or x is NONE:
            return self.is_cond(st, x, y)
        if x.op == "const" and y.op == "const":
            return cval(x) == cval(y)
        if x.op == "enum" and y.op == "enum":
            return False
        if x.op == y.op == "bound":
            cs = [self.is_cond(st, a, b) for a, b in zip(x.a, y.a)]
            return False if any(c is False for c in cs) else True if all(c is True for c in cs) else mk("cmp", "==", x, y)
        if x in self.plain_enums and y.op in ("const", "tuple", "fmt", "bound", "enum") or y in self.plain_enums and x.op in ("const", "tuple", "fmt", "bound"):
            return False
        if x.op == "tuple" and y.op == "tuple":
            if len(x.a) != len(y.a):
                return False
            cs = [self.eq_cond(st, a, b) for a, b in zip(x.a, y.a)]
            if all(c is True for c in cs):
                return True
            if any(c is False for c in cs):
                return False
            und = [c for c in cs if c is not True]
            if len(und) == 1:
                return und[0]
        if x.op == "const":
            x, y = y, x
        kx, ky = st.kind(x), st.kind(y)
        if y.op == "const" and (x.op == "tuple" or kx in ("list", "dict", "set")):
            return False
        if x.op == "tuple" and ky in ("list", "dict", "set") or y.op == "tuple" and kx in ("list", "dict", "set"):
            return False
        if kx == ky == "dict":
            dx, dy = st.obj(x).data, st.obj(y).data
            if all(g.op == "kv" and g.a[0].op == "const" for g in dx + dy):
                dx, dy = ({cval(g.a[0]): g.a[1] for g in d} for d in (dx, dy))
                if dx.keys() != dy.keys():
                    return False
                return self.eq_cond(st, mk("tuple", *[dx[k] for k in dx]), mk("tuple", *[dy[k] for k in dx]))
        if kx == ky == "set":
            c = std.set_op(self, st, "==", x, y)
            if c is not None:
                return cval(c)
        if kx == ky == "list":
            dx, dy = st.obj(x).data, st.obj(y).data
            if all(g.op == "one" for g in dx + dy):
                return self.eq_cond(st, mk("tuple", *[g.a[0] for g in dx]), mk("tuple", *[g.a[0] for g in dy]))
        if kx in ("list", "dict", "set"):
            e = self.empty_literal(st, x)
            if e and ky is None:
                return neg(self.len_truth(st, y))
            if ky in ("list", "dict", "set"):
                e2 = self.empty_literal(st, y)
                if e and e2:
                    return kx == ky
                if e:
                    return neg(self.len_truth(st, y))
                if e2:
                    return neg(self.len_truth(st, x))
                if kx != ky:
                    return False
        elif ky in ("list", "dict", "set"):
            if self.empty_literal(st, y):
                if x.op == "const":
                    return False
                return neg(self.len_truth(st, x))
        if y.op == "const" and y.a[0] == "bool":
            return (mk("eq", x, y), True)
        if x.op == "fmt" and y.op == "fmt" and models.fmt_differ(x, y):
            return False
        if x.op == "fmt" and y.op == "const" and isinstance(cval(y), str):
            r = models.fmt_eq_const(x, cval(y))
            if r is not None:
                return r
        if y.op == "const" and y.a[0] in ("str", "bytes", "float"):
            if x.op in ("tuple", "ref"):
                return False
            return (mk("eq", x, y), True)
        c = lin_cond("==", x, y)
        if c is not None and "enum" not in (x.op, y.op) and "ext" not in (x.op, y.op):
            return c
        if kx == "inst" and ky == "inst":
            fs = self.fields_of(st, st.obj(x).data)
            if fs is not None and st.obj(x).data is st.obj(y).data and self.class_attr(st, st.obj(x).data, "__eq__") is None:
                return self.eq_cond(st, *[mk("tuple", *[st.obj(o).attrs.get(f[0], NONE) for f in fs]) for o in (x, y)])
            return x is y
        if x.op in ("ref",) and y.op == "ref" and (kx == "class" or ky == "class"):
            return False
        x, y = self.snap(st, x), self.snap(st, y)
        if y.op != "enum" and okey(x) > okey(y) or x.op == "enum":
            x, y = y, x
        return (mk("eq", x, y), True)

    def empty_literal(self, st, x):
        return st.kind(x) in MUTABLE and st.obj(x).data == ()

    def len_truth(self, st, x):
        """Condition 'x is not empty' for a container."""
        if x.op == "const":
            return bool(cval(x))
        if x.op == "tuple":
            return len(x.a) > 0
        if x.op == "ref":
            o = st.obj(x)
            if o.kind in MUTABLE or o.kind == "gen":
                return self.segs_truth(st, o.data)
            return True
        return (mk("truth", x), True)

    def segs_truth(self, st, segs):
        conds = []
        for s in segs:
            if s.op in ("one", "kv"):
                return True
            if s.op in ("all", "merge"):
                c = (mk("truth", s.a[0]), True)
            elif s.op == "each":
                src, e, i, alts = s.a
                conjs = [list(cs) for cs, inner in alts if inner]
                c = self.exists_cond(src, e, conjs)
            elif s.op == "rep":
                c = (mk("truth", mk("seq", segs)), True)
            else:
                c = (mk("truth", mk("seq", segs)), True)
            if c is True:
                return True
            if c is not False:
                conds.append(c)
        if not conds:
            return False
        if len(conds) == 1:
            return conds[0]
        return (mk("truth", mk("seq", tuple(segs))), True)

    def exists_cond(self, src, e, conjs):
        """Condition: some element of src satisfies one of the conjunctions over e."""
        conjs = [c for c in conjs]
        if not conjs:
            return False
        i = mk("idx", src, e.a[1]) if e.op == "elem" else None
        d = 0
        for c in conjs:
            for a, _ in c:
                for s in walk(a):
                    if s.op == "bv":
                        d = max(d, s.a[0] + 1)
        m = {e: mk("bv", d)}
        if i is not None:
            m[i] = mk("bvi", d)
        bf = bf_make([[(subst(a, m), v) for a, v in c] for c in conjs])
        if bf is BF_FALSE:
            return False
        if bf is BF_TRUE:
            if src.op == "range":
                return lin_cond("<", src.a[0], src.a[1])
            return (mk("truth", src), True)
        return (mk("exists", src, bf), True)

    def contains(self, st, x, y, negate):
        if misuse.lacks(self, st, y, "__contains__", "__iter__", "__getitem__"):
            self.raise_ext(st, "TypeError", y)
            return [(st, None)]
        """x in y"""
        def done(s, b):
            return (s, const(b != negate))

        outs = []
        m = std.method(self, st, y, "__contains__")
        if m is not None:
            for s, v in self.call(st, m, [x], []):
                outs.extend([(s, None)] if s.exc is not None else [done(s2, b) if s2.exc is None else (s2, None) for s2, b in self.truth(s, v)])
            return outs
        if self.opts.closed and std.method(self, st, y, "__iter__") is not None:
            for s, segs in self.iterate(st, y):
                outs.extend([(s, None)] if s.exc is not None else self.contains(s, x, self.new_list(s, segs), negate))
            return outs
        if lazy.is_lazy(st, y):
            for s, _ in lazy.force(self, st, y):
                outs.extend([(s, None)] if s.exc is not None else self.contains(s, x, y, negate))
            return outs
        if y.op == "const" and x.op == "const":
            try:
                return [done(st, cval(x) in cval(y))]
            except TypeError:
                pass
        if y.op == "tuple":
            segs = [one(v) for v in y.a]
        elif y.op == "ref" and st.obj(y).kind in MUTABLE:
            segs = list(st.obj(y).data)
        elif y.op == "ref" and st.obj(y).kind == "gen":
            segs = list(st.obj(y).data)
        elif y.op == "range":
            lo, hi = y.a[0], y.a[1]
            if x.op == "const" and all(z.op == "const" and isinstance(cval(z), int) for z in y.a):
                return [done(st, cval(x) in range(*map(cval, y.a)))]
            if len(y.a) == 2 or y.a[2] is const(1):
                for s, v in self.compare(st, ">=", x, lo):
                    for s2, b in self.truth(s, v):
                        if not b:
                            outs.append(done(s2, False))
                            continue
                        for s3, v3 in self.compare(s2, "<", x, hi):
                            for s4, b4 in self.truth(s3, v3):
                                outs.append(done(s4, b4))
                return outs
            segs = None
        elif y.op in ("keys", "values", "items"):
            segs = None
            if y.op == "keys":
                return self.contains(st, x, y.a[0], negate)
            d = y.a[0]
            es = st.obj(d).data if d.op == "ref" and st.obj(d).kind == "dict" else d.a[0] if d.op == "dictof" else None
            if es is not None and all(e.op == "kv" for e in es):
                segs = [one(e.a[1]) if y.op == "values" else one(tup(*e.a)) for e in es]
            elif y.op == "values":
                c = self.member_exists(st, x, y.a[0], True)
                return [(s, const(b != negate)) for s, b in self.fork(st, c)]
        elif y.op in ("seq",):
            segs = list(y.a[0])
        else:
            segs = None
        if segs is None:
            d = models.inst_dict(self, st, y)
            if d is not None:
                return self.contains(st, x, d, negate)
            f = None
            if y in st.types:
                f = self.class_attr(st, st.types[y], "__contains__")
            if f is not None and f.op == "ref":
                return self.call(st, mk("bound", f, y), [x], [])
            ov = st.over.get((y, "[]", x))
            if ov is not None:
                return [done(st, ov is not NOVAL)]
            c = (mk("in", self.snap(st, x), self.versioned(st, y)), True)
            k = st.known(c)
            if k is not None:
                return [done(st, k)]
            if negate:
                c = neg(c)
            return [(st, mk("cmp", "in", x, y, c))]
        cur = [st]
        for sg in segs:
            nxt = []
            for s in cur:
                if sg.op in ("one", "kv"):
                    for s2, v in self.compare(s, "==", x, sg.a[0]):
                        for s3, b in self.truth(s2, v):
                            if b:
                                outs.append(done(s3, True))
                            else:
                                nxt.append(s3)
                    continue
                if sg.op in ("all", "merge"):
                    c = (mk("in", self.snap(st, x), sg.a[0]), True)
                elif sg.op == "each":
                    src, e, i, alts = sg.a
                    c = self.each_exists(s, sg, lambda s2, v: self.compare(s2, "==", x, v))
                else:
                    c = (mk("in", self.snap(st, x), mk("seq", (sg,))), True)
                for s2, b in self.fork(s, c):
                    if b:
                        outs.append(done(s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        outs.extend(done(s, False) for s in cur)
        return outs

    def each_exists(self, st, sg, test):
        """Condition: some value produced by the 'each' segment passes test(st, v)."""
        src, e, i, alts = sg.a
        conjs = []
        for cs, inner in alts:
            s0 = st.copy()
            s0.path = None
            s0.facts = dict(s0.facts)
            # nothing is known about this element
            s0.facts = {a: v for a, v in s0.facts.items() if not mentions(a, e)}
            ok = True
            for a, v in cs:
                if not s0.assume((a, True), v):
                    ok = False
                    break
            if not ok:
                continue
            base = None
            for v in inner:
                if v.op in ("one", "kv"):
                    outs = test(s0.copy(), v.a[0])
                    for s2, r in outs:
                        for s3, b in self.truth(s2, r):
                            if b and s3.exc is None:
                                conjs.append(self.conj_of(s3, base))
                else:
                    if v.op == "each":
                        c = self.each_exists(s0, v, test)
                    else:
                        c = (mk("existsin", v, const("?")), True)
                    if c is True:
                        conjs.append(self.conj_of(s0, base))
                    elif c is not False:
                        s1 = s0.copy()
                        if s1.assume(c):
                            conjs.append(self.conj_of(s1, base))
        return self.exists_cond(src, e, conjs)

    def conj_of(self, st, until):
        return st.decisions(until)

    def member_exists(self, st, x, d, values):
        e = mk("elem", d, 97)
        v = mkitem(d, e) if values else e
        c = self.eq_cond(st, v, x)
        if c is True or c is False:
            return c
        return self.exists_cond(d, e, [[(c[0], c[1])]])

    def isinst_cond(self, st, x, c):
        """isinstance(x, c)"""
        if c.op == "tuple":
            return None
        if self.opts.closed and c.op == "ext" and x.op != "bound":
            t = misuse.pytype(self, st, x)
            k = misuse.py_class(c.a[0])
            if t is not None and k is not None and not (t is dict and c.a[0] == "collections.OrderedDict"):
                return issubclass(t, k)
        if x.op == "ref":
            o = st.obj(x)
            k = {"list": "list", "dict": "dict", "set": "set"}.get(o.kind)
            if k:
                return c.op == "ext" and c.a[0] in (k, "object", "collections.abc.Iterable", "collections.OrderedDict" if k == "dict" else k)
            if o.kind == "inst":
                r = self.base.subclass(o.data, c)
                if r is not None:
                    return r
            elif o.kind == "class":
                return c.op == "ext" and c.a[0] in ("type", "object")
            elif o.kind == "func":
                return c.op == "ext" and c.a[0] in ("typing.Callable", "collections.abc.Callable", "types.FunctionType")
            elif o.kind == "coro":
                return c.op == "ext" and "Coroutine" in c.a[0]
        elif x.op == "const":
            if c.op == "ref":
                return False
            if c.op == "ext":
                n = {"str": str, "int": int, "bool": bool, "float": float, "list": list, "dict": dict, "tuple": tuple}.get(c.a[0])
                if n:
                    return isinstance(cval(x), n)
                return False if c.a[0] not in ("object",) else True
        elif x.op == "tuple":
            return c.op == "ext" and c.a[0] in ("tuple", "object")
        elif x.op in ("fmt",):
            return c.op == "ext" and c.a[0] in ("str", "object")
        elif x.op == "enum":
            return c.op == "ref" and st.obj(c).data["qual"] == x.a[0]
        elif x.op == "bound":
            return False if c.op == "ref" else c.a[0].endswith("Callable")
        return (mk("isinst", x, c), True)

    # ------------------------------------------------------- truth values

    def cond(self, e, st, fr):
        """[(st, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, (not b) if s.exc is None else None) for s, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            live, out = [st], []
            for x in e.values:
                nxt = []
                for s in live:
                    for s2, b in self.cond(x, s, fr):
                        if s2.exc is not None:
                            out.append((s2, None))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                live = nxt
            return merge_outcomes(out + [(s, is_and) for s in live])
        r = []
        for s, v in self.ev(e, st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.extend(self.truth(s, v))
        return merge_outcomes(r)

    def truth_cond(self, st, v):
        """Condition for bool(v): True/False/(atom,pos), or None if it needs a call."""
        o = v.op
        if o == "const":
            return bool(cval(v))
        if o == "cmp":
            return v.a[3]
        if o == "quant":
            return v.a[0]
        if o == "not":
            c = self.truth_cond(st, v.a[0])
            return None if c is None else neg(c)
        if o == "tuple":
            return len(v.a) > 0
        if o == "ref":
            k = st.obj(v).kind
            if k == "gen" and self.opts.closed:
                return True
            if k in MUTABLE or k == "gen":
                return self.len_truth(st, v)
            if k == "inst":
                cls = st.obj(v).data
                if self.class_attr(st, cls, "__bool__") is not None or self.class_attr(st, cls, "__len__") is not None:
                    return None
            return True
        if o in ("bound", "ext", "enum", "exc", "repat", "rematch"):
            return True
        if o == "fmt":
            if any(p.op == "const" and cval(p) for p in v.a):
                return True
        if o == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "bool" and len(v.a[1]) == 1:
            return self.truth_cond(st, v.a[1][0])
        if o == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "len":
            return self.len_truth(st, v.a[1][0])
        if v in st.types:
            c = st.types[v]
            if self.class_attr(st, c, "__bool__") is None and self.class_attr(st, c, "__len__") is None:
                if not any(x.op == "ext" and x.a[0] not in ("object", "asyncio.Queue", "asyncio.Event") for x in self.base.mro(c)):
                    return True
        return (mk("truth", v), True)

    def truth(self, st, v):
        """[(st, bool)]"""
        c = self.truth_cond(st, v)
        if c is None:
            cls = st.obj(v).data if v.op == "ref" else st.types.get(v)
            if v.op == "not":
                return [(s, not b) for s, b in self.truth(st, v.a[0])]
            f = self.class_attr(st, cls, "__bool__")
            if f is None:
                f = self.class_attr(st, cls, "__len__")
            r = []
            for s, x in self.call(st, mk("bound", f, v), [], []):
                if s.exc is not None:
                    r.append((s, None))
                else:
                    r.extend(self.truth(s, x))
            return r
        return self.fork(st, c)

    def fork(self, st, c):
        k = st.known(c)
        if k is not None:
            return [(st, k)]
        a, b = st.copy(), st
        r = []
        if a.assume(c, True):
            r.append((a, True))
        if b.assume(c, False):
            r.append((b, False))
        return r

    # ------------------------------------------------- comprehension etc.

    def comp_loop(self, gens, st, fr, leaf, first=None):
        """Run leaf(st, frame) for every combination; [(st, ctl, val)]."""
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        o = st.obj(fr)
        cf = self.new_ref(st, Obj("frame", {}, ("comp", fr, o.data[2]), names))

        def level(i, s):
            if i == len(gens):
                return leaf(s, cf)
            g = gens[i]
            r = []
            for s2, it in self.ev(g.iter, s, cf if i else fr) if i or first is None else [(s, first)]:
                if s2.exc is not None:
                    r.append((s2, EXC, None))
                    continue
                late = lazy.is_lazy(s2, it)
                for s3, segs in self.iterate(s2, it) if not late else [(s2, None)]:
                    if s3.exc is not None:
                        r.append((s3, EXC, None))
                        continue

                    def body(x, v):
                        outs = []
                        for y in self.assign(g.target, v, x, cf):
                            live = [y]
                            for c in g.ifs:
                                nxt = []
                                for z in live:
                                    for z2, b in self.cond(c, z, cf):
                                        if z2.exc is not None:
                                            outs.append((z2, EXC, None))
                                        elif b:
                                            nxt.append(z2)
                                        else:
                                            outs.append((z2, None, None))
                                live = nxt
                            for z in live:
                                outs.extend(level(i + 1, z))
                        return outs

                    r.extend(self.loop_segs(s3, segs, body) if not late else lazy.consume(self, s3, it, body))
            return r

        return level(0, st)

    def ev_ListComp(self, e, st, fr, kind="list"):
        out = self.new_list(st, (), kind)

        def leaf(s, cf):
            r = []
            for s2, v in self.ev(e.elt, s, cf):
                if s2.exc is None:
                    ob = s2.own(out)
                    ob.data = ob.data + (one(v),)
                r.append((s2, EXC if s2.exc is not None else None, None))
            return r

        return [
            (s, out if ctl is None else None)
            for s, ctl, _ in self.comp_loop(e.generators, st, fr, leaf)
        ]

    def lazy_comp(self, e, st, fr):
        """Only the first source is evaluated now."""
        r = []
        for s, it in self.ev(e.generators[0].iter, st, fr):
            if s.exc is None and misuse.lacks(self, s, it, "__iter__", "__getitem__"):
                self.raise_ext(s, "TypeError", it)
            if s.exc is not None:
                r.append((s, None))
                continue

            def thunk(x, sink, it=it):
                def leaf(y, cf):
                    outs = []
                    for y2, v in self.ev(e.elt, y, cf):
                        outs.extend([(y2, EXC, None)] if y2.exc is not None else sink(y2, v))
                    return outs

                return self.comp_loop(e.generators, x, fr, leaf, it)

            r.append((s, lazy.new(self, s, thunk)))
        return r

    def ev_SetComp(self, e, st, fr):
        return self.ev_ListComp(e, st, fr, "set")

    def ev_GeneratorExp(self, e, st, fr):
        if self.opts.closed:
            return self.lazy_comp(e, st, fr)
        return self.ev_ListComp(e, st, fr, "gen")

    def ev_DictComp(self, e, st, fr):
        out = self.new_dict(st)

        def leaf(s, cf):
            r = []
            for s2, (k, v) in self.ev_pair(e.key, e.value, s, cf):
                if s2.exc is None:
                    models.dict_set(self, s2, out, k, v)
                r.append((s2, EXC if s2.exc is not None else None, None))
            return r

        return [
            (s, out if ctl is None else None)
            for s, ctl, _ in self.comp_loop(e.generators, st, fr, leaf)
        ]

    sinks = {}

    def ev_Yield(self, e, st, fr):
        f = fr
        while st.obj(f).data[0] == "comp":
            f = st.obj(f).data[1]
        sink = self.sinks.get(f)
        out = st.obj(f).attrs["__yields__"] if sink is None else None
        outs = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        r = []
        if sink is not None:
            for s, v in outs:
                r.extend(lazy.yielded(self, s, f, sink(s, v)) if s.exc is None else [(s, None)])
            return r
        for s, v in outs:
            if s.exc is None:
                o = s.own(out)
                o.data = o.data + (one(v),)
            r.append((s, NONE))
        return r

    def ev_YieldFrom(self, e, st, fr):
        f = fr
        while st.obj(f).data[0] == "comp":
            f = st.obj(f).data[1]
        sink = self.sinks.get(f)
        out = st.obj(f).attrs["__yields__"] if sink is None else None
        r = []
        for s, v in self.ev(e.value, st, fr):
            if s.exc is not None:
                r.append((s, None))
                continue
            if sink is not None:
                if lazy.is_lazy(s, v):
                    for s2, ctl, val in lazy.consume(self, s, v, sink):
                        r.extend([(s2, None)] if ctl == EXC else lazy.yielded(self, s2, f, [(s2, ctl, val)]))
                    continue
                for s2, segs in self.iterate(s, v):
                    if s2.exc is not None:
                        r.append((s2, None))
                        continue
                    for s3, ctl, val in self.loop_segs(s2, segs, sink):
                        r.extend(lazy.yielded(self, s3, f, [(s3, ctl, val)]))
                continue
            for s2, segs in self.iterate(s, v):
                if s2.exc is None:
                    o = s2.own(out)
                    o.data = o.data + tuple(segs)
                r.append((s2, NONE))
        return r

    def ev_Await(self, e, st, fr):
        r = []
        for s, v in self.ev(e.value, st, fr):
            if s.exc is not None:
                r.append((s, None))
            else:
                r.extend(self.await_(s, v))
        return r

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.ev_super(e, st, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return [(st, mk("scope", e.func.id))]
        r = []
        kws = e.keywords
        for s, f in self.ev(e.func, st, fr):
            if s.exc is not None:
                r.append((s, None))
                continue
            for s2, args in self.ev_list(e.args, s, fr):
                if s2.exc is not None:
                    r.append((s2, None))
                    continue
                for s3, kvs in self.ev_list([k.value for k in kws], s2, fr):
                    if s3.exc is not None:
                        r.append((s3, None))
                        continue
                    if any(k.arg is None and misuse.lacks(self, s3, v, "keys") for k, v in zip(kws, kvs)):
                        self.raise_ext(s3, "TypeError")
                        r.append((s3, None))
                        continue
                    kw = []
                    for k, v in zip(kws, kvs):
                        if k.arg is None:
                            kw.extend(self.expand_kwargs(s3, v))
                        else:
                            kw.append((k.arg, v))
                    self.loc = (self.loc[0], e.lineno)
                    loc = self.loc
                    r.extend(self.call(s3, f, args, kw))
                    self.loc = loc
        return self.limit(r)

    def expand_kwargs(self, st, v):
        if v.op == "ref" and st.obj(v).kind == "dict":
            out = []
            for en in st.obj(v).data:
                if en.op == "kv" and en.a[0].op == "const":
                    out.append((cval(en.a[0]), en.a[1]))
                elif en.op == "merge":
                    out.append((None, en.a[0]))
                else:
                    return [(None, mk("seq", st.obj(v).data))]
            return out
        return [(None, v)]

    def ev_super(self, e, st, fr):
        f = fr
        while st.obj(f).data[0] == "comp":
            f = st.obj(f).data[1]
        if e.args:
            r = []
            for s, vs in self.ev_list(e.args, st, fr):
                r.append((s, mk("super", vs[0], vs[1]) if s.exc is None else None))
            return r
        o = st.obj(f)
        cls = o.extra
        g = f
        while cls is None and g is not None:
            g = st.obj(g).data[1]
            if g is not None:
                cls = st.obj(g).extra
        fi = o.data[0]
        names = arg_names(fi.args)
        selfv = o.attrs.get(names[0]) if names else None
        if cls is None or selfv is None:
            raise Unsupported("super() outside a method")
        return [(st, mk("super", cls, selfv))]

    # ----------------------------------------------------------- objects

    def class_attr(self, st, cls, name):
        for c in self.base.mro(cls):
            if c.op == "ref":
                a = st.obj(c).attrs
                if name in a:
                    return a[name]
        return None

    def class_of(self, st, v):
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "inst":
                return o.data
            return None
        return st.types.get(v)

    def bind_attr(self, st, v, obj, cls):
        """Value of a class attribute v read through obj (an instance) of cls."""
        if v.op == "ref" and st.obj(v).kind == "func":
            return [(st, mk("bound", v, obj))]
        if v.op in ("prop", "cprop"):
            return self.call(st, v.a[0], [obj], [])
        g = std.method(self, st, v, "__get__")
        if g is not None:
            return self.call(st, g, [obj, cls], [])
        if v.op == "static":
            return [(st, v.a[0])]
        if v.op == "classm":
            return [(st, mk("bound", v.a[0], cls))]
        return [(st, v)]

    def getattr(self, st, b, name):
        """[(st, val)]"""
        o = b.op
        if o == "ref":
            ob = st.obj(b)
            k = ob.kind
            if k == "inst":
                return self.inst_getattr(st, b, ob, name)
            if k == "class":
                if name == "__name__":
                    return [(st, const(ob.data["name"]))]
                if name == "__qualname__":
                    return [(st, const(ob.data["qual"]))]
                if name == "__mro__":
                    return [(st, tup(*ob.data["mro"]))]
                if name == "__module__":
                    m = ob.data["module"]
                    return [(st, st.obj(m).attrs["__name__"])]
                if name == "__doc__":
                    return [(st, const(ast.get_docstring(ob.data["node"], clean=False)) if isinstance(ob.data["node"], ast.ClassDef) else NONE)]
                if name == "__bases__":
                    return [(st, tup(*ob.data["bases"]))]
                if name == "__dict__" and self.opts.closed:
                    kv = [mk("kv", const(k), x) for k, x in ob.attrs.items() if isinstance(k, str) and x is not NOVAL]
                    return [(st, self.new_dict(st, kv))]
                v = self.class_attr(st, b, name)
                if v is None:
                    if name in ("__init__", "__init_subclass__", "__new__", "__setattr__", "__getattribute__", "__delattr__"):
                        for c in ob.data["mro"]:
                            if c.op == "ext":
                                return [(st, ext(c.a[0] + "." + name))]
                    for c in ob.data["mro"]:
                        if c.op == "ext" and c.a[0] != "object":
                            return [(st, ext(c.a[0] + "." + name))]
                    if hasattr(type, name):
                        # Python answers, but not here
                        raise Unsupported("attribute %s of a class" % name)
                    self.raise_ext(st, "AttributeError", b, const(name))
                    self.missing_attr(st, b, name)
                    return [(st, None)]
                if v.op == "static":
                    return [(st, v.a[0])]
                if v.op == "classm":
                    return [(st, mk("bound", v.a[0], b))]
                return [(st, v)]
            if k == "module":
                if name in ob.attrs:
                    return [(st, ob.attrs[name])]
                if name == "__name__":
                    return [(st, const(ob.data))]
                if ob.data == "asyncio":
                    # the parts of the library that are not described
                    return [(st, ext("asyncio." + name))]
                sub = self.import_module(ob.data + "." + name, st)
                if sub.op == "ref":
                    return [(st, sub)]
                self.raise_ext(st, "AttributeError", b, const(name))
                return [(st, None)]
            if k == "func":
                a = ob.attrs
                if name in a:
                    return [(st, a[name])]
                if "__wrapped__" in a:
                    w = a["__wrapped__"]
                    if w.op == "ref" and name in st.obj(w).attrs:
                        return [(st, st.obj(w).attrs[name])]
                    if w.op != "ref":
                        return self.getattr(st, w, name)
                if name in ("__get__", "__call__"):
                    return [(st, mk("bm", b, name))]
                if name == "__doc__" or name == "__module__":
                    return [(st, mk("attr", b, name))]
                self.raise_ext(st, "AttributeError", b, const(name))
                return [(st, None)]
            if k in MUTABLE or k == "gen":
                if misuse.attribute(self, st, b, name):
                    return self._ae(st, b, name)
                return [(st, mk("bm", b, name))]
            if k == "coro":
                if name in ("__name__", "__qualname__"):
                    return self.getattr(st, ob.data[0], name)
                if name == "cr_frame":
                    return [(st, mk("crframe", b))]
                return [(st, mk("attr", b, name))]
            if k == "task":
                if name in ob.attrs:
                    return [(st, ob.attrs[name])]
                if self.sched and name in models.TASK_METHODS:
                    return [(st, mk("bm", b, name))]
                return [(st, mk("attr", b, name))]
            if name in ob.attrs:
                return [(st, ob.attrs[name])]
            return [(st, mk("attr", b, name))]
        if o == "crframe" and name == "f_locals":
            fr = st.obj(st.obj(b.a[0]).data[1])
            return [(st, self.new_dict(st, [mk("kv", const(k), v) for k, v in fr.attrs.items() if isinstance(k, str) and not k.startswith("__yields")]))]
        if o == "bound":
            f, s = b.a
            if name == "__self__":
                return [(st, s)]
            if name == "__func__":
                return [(st, f)]
            if f.op == "ref" or f.op in ("var", "attr", "dattr"):
                return self.getattr(st, f, name)
            return [(st, mk("attr", b, name))]
        if o == "super":
            return self.super_getattr(st, b, name)
        if o == "prop":
            if name in ("setter", "getter"):
                return [(st, mk("propset", b, name))]
            if name in ("fget", "fset"):
                return [(st, b.a[name == "fset"])]
        if o == "ext":
            if name in ("__name__", "__qualname__") and (b.a[0] in models.BUILTIN_TYPES or b.a[0] in models.EXC_BASES):
                return [(st, const(b.a[0]))]
            return [(st, ext(b.a[0] + "." + name))]
        if name == "__class__" and o in ("const", "tuple", "fmt"):
            return [(st, ext(type(cval(b)).__name__ if o == "const" else {"fmt": "str"}.get(o, o)))]
        if o in ("const", "fmt", "tuple", "range") and misuse.attribute(self, st, b, name):
            return self._ae(st, b, name)
        if o == "const" or o == "fmt" or o == "tuple":
            return [(st, mk("bm", b, name))]
        if o == "exc":
            if name == "__class__":
                return [(st, b.a[0])]
            if name == "args":
                return [(st, tup(*b.a[1]))]
            return [(st, mk("attr", b, name))]
        if o == "enum":
            if name == "name":
                return [(st, const(b.a[1]))]
            if name == "value":
                return [(st, self.enum_values.get(b, mk("attr", b, name)))]
            return [(st, mk("attr", b, name))]
        if o in ("range", "keys", "values", "items", "seq"):
            return [(st, mk("bm", b, name))]
        return self.term_getattr(st, b, name)

    def missing_attr(self, st, b, name):
        pass

    def attr_term(self, st, b, name):
        n = st.cnt.get(("#attr", name), 0)
        if name in self.volatile:
            return mk("attr", b, name, (st.ep, n) if n else st.ep)
        return mk("attr", b, name, (0, n)) if n else mk("attr", b, name)

    def term_getattr(self, st, b, name):
        v = st.over.get((b, name))
        if v is not None:
            if v is NOVAL:
                self.raise_ext(st, "AttributeError", b, const(name))
                return [(st, None)]
            return [(st, v)]
        cls = st.types.get(b)
        if cls is not None:
            if name == "__class__":
                return [(st, mk("typeof", b))]
            ga = self.class_attr(st, cls, "__getattribute__")
            if ga is not None and ga.op == "ref":
                return self.call(st, mk("bound", ga, b), [const(name)], [])
            ca = self.class_attr(st, cls, name)
            if ca is not None:
                if ca.op in ("prop", "static", "classm") or (ca.op == "ref" and st.obj(ca).kind == "func"):
                    return self.bind_attr(st, ca, b, cls)
            elif not name.startswith("__"):
                exts = [c for c in self.base.mro(cls) if c.op == "ext" and c.a[0] != "object"]
                if exts and name not in self.assigned_attrs:
                    return [(st, mk("bound", ext(exts[0].a[0] + "." + name), b))]
        t = self.attr_term(st, b, name)
        self.typed_attr(st, t, b, name)
        return [(st, t)]

    def typed_attr(self, st, t, b, name):
        h = self.opts.attr_types.get(name)
        if h is not None and t not in st.types:
            st.types[t] = h

    def inst_getattr(self, st, b, ob, name):
        cls = ob.data
        if name == "__class__":
            return [(st, cls)]
        if name == "__dict__":
            return [(st, mk("attr", b, "__dict__"))]
        ga = self.class_attr(st, cls, "__getattribute__")
        if ga is not None and ga.op == "ref":
            return self.call(st, mk("bound", ga, b), [const(name)], [])
        v = self.class_attr(st, cls, name)
        if v is not None and (v.op == "prop" or std.method(self, st, v, "__set__") is not None):
            return self.bind_attr(st, v, b, cls)
        if name in ob.attrs:
            w = ob.attrs[name]
            if w is NOVAL:
                self.raise_ext(st, "AttributeError", b, const(name))
                return [(st, None)]
            return [(st, w)]
        if v is not None and v.op == "cprop" and self.opts.closed:
            r = []
            for s, w in self.bind_attr(st, v, b, cls):
                if s.exc is None:
                    s.own(b).attrs[name] = w
                r.append((s, w))
            return r
        if v is not None:
            return self.bind_attr(st, v, b, cls)
        dyn = [(k[1], x) for k, x in st.over.items() if k[0] is b and isinstance(k[1], T)]
        g2 = self.class_attr(st, cls, "__getattr__")
        if g2 is not None and g2.op == "ref":
            return self.call(st, mk("bound", g2, b), [const(name)], [])
        exts = [c for c in self.base.mro(cls) if c.op == "ext" and c.a[0] != "object"]
        if exts:
            if name in self.assigned_attrs:
                return [(st, self.attr_term(st, b, name))]
            return [(st, mk("bound", ext(exts[0].a[0] + "." + name), b))]
        if dyn or ob.extra == "open" or (name in self.assigned_attrs and not self.opts.closed):
            t = self.attr_term(st, b, name)
            self.typed_attr(st, t, b, name)
            return [(st, t)]
        if name in ("__init__", "__setattr__", "__getattribute__", "__delattr__", "__str__", "__repr__", "__hash__", "__eq__"):
            return [(st, ext("object." + name))]
        if name in ("__module__", "__doc__") and cls.op == "ref":
            return self.getattr(st, cls, name)
        if name in dir(object) or name == "__weakref__":
            # Python answers, but not here
            raise Unsupported("attribute %s of an object" % name)
        return self._ae(st, b, name)

    def _ae(self, st, b, name):
        self.raise_ext(st, "AttributeError", b, const(name))
        return [(st, None)]

    def super_getattr(self, st, b, name):
        cls, selfv = b.a
        own = self.class_of(st, selfv)
        is_cls = False
        if own is None:
            if selfv.op == "ref" and st.obj(selfv).kind == "class":
                own, is_cls = selfv, True
            else:
                own = cls
        mro = self.base.mro(own)
        if cls in mro:
            rest = mro[mro.index(cls) + 1 :]
        else:
            rest = self.base.mro(cls)[1:]
        for c in rest:
            if c.op == "ref":
                a = st.obj(c).attrs
                if name in a:
                    v = a[name]
                    if v.op == "classm" or is_cls:
                        f = v.a[0] if v.op in ("classm", "static") else v
                        return [(st, mk("bound", f, own if is_cls or v.op == "classm" else selfv))]
                    return self.bind_attr(st, v, selfv, own)
            else:
                return [(st, mk("bound", ext(c.a[0] + "." + name), selfv))]
        return [(st, mk("bound", ext("object." + name), selfv))]

    def setattr(self, st, b, name, v):
        """[st]"""
        if b.op == "ref":
            ob = st.obj(b)
            if self.opts.closed and ob.kind in ("list", "dict", "set"):
                self.raise_ext(st, "AttributeError", b, const(name))
                return [st]
            if ob.kind == "inst":
                sa = self.class_attr(st, ob.data, "__setattr__")
                if sa is not None and sa.op == "ref":
                    return [s for s, _ in self.call(st, mk("bound", sa, b), [const(name), v], [])]
                p = self.class_attr(st, ob.data, name)
                if p is not None and p.op == "prop" and p.a[1] is not None and p.a[1] is not NONE:
                    return [s for s, _ in self.call(st, p.a[1], [b, v], [])]
                if self.opts.closed and p is not None:
                    if p.op == "prop":
                        self.raise_ext(st, "AttributeError", b, const(name))
                        return [st]
                    if p.op == "ref" and st.obj(p).kind == "inst":
                        ds = self.class_attr(st, st.obj(p).data, "__set__")
                        if ds is not None and ds.op == "ref":
                            return [s for s, _ in self.call(st, mk("bound", ds, p), [b, v], [])]
                st.own(b).attrs[name] = v
                st.emit("set", (b, const(name), v), self.loc)
                return [st]
            st.own(b).attrs[name] = v
            if ob.kind != "module" or True:
                st.emit("set", (b, const(name), v), self.loc)
            return [st]
        if self.opts.closed and b.op in ("const", "tuple", "fmt", "range"):
            self.raise_ext(st, "AttributeError", b, const(name))
            return [st]
        if b.op == "bound" and b.a[0].op in ("ref", "var"):
            # attributes cannot be set on bound methods
            self.raise_ext(st, "AttributeError", b, const(name))
            return [st]
        cls = st.types.get(b)
        if cls is not None:
            sa = self.class_attr(st, cls, "__setattr__")
            if sa is not None and sa.op == "ref":
                return [s for s, _ in self.call(st, mk("bound", sa, b), [const(name), v], [])]
            p = self.class_attr(st, cls, name)
            if p is not None and p.op == "prop" and p.a[1] is not NONE:
                return [s for s, _ in self.call(st, p.a[1], [b, v], [])]
        st.over[(b, name)] = v
        st.emit("set", (b, const(name), v), self.loc)
        return [st]

    def dyn_getattr(self, st, b, nt):
        """getattr(b, name-term)"""
        if nt.op == "const" and isinstance(cval(nt), str):
            return self.getattr(st, b, cval(nt))
        v = st.over.get((b, nt))
        if v is not None:
            if v is NOVAL:
                return self._ae(st, b, nt)
            return [(st, v)]
        if b.op == "ref" and st.obj(b).kind == "module" and nt.op != "const":
            pass
        t = mk("dattr", b, nt)
        return [(st, t)]

    def dyn_setattr(self, st, b, nt, v):
        if nt.op == "const" and isinstance(cval(nt), str):
            return self.setattr(st, b, cval(nt), v)
        st.over[(b, nt)] = v
        st.emit("set", (b, nt, v), self.loc)
        return [st]

    def delattr(self, st, b, name):
        nt = const(name) if isinstance(name, str) else name
        if nt.op == "const":
            key = cval(nt)
            if self.opts.closed and b.op == "ref" and st.obj(b).kind == "inst":
                ob = st.obj(b)
                da = self.class_attr(st, ob.data, "__delattr__")
                if da is not None and da.op == "ref":
                    outs = self.call(st, mk("bound", da, b), [nt], [])
                    if len(outs) != 1 or outs[0][0] is not st:
                        raise Unsupported("__delattr__ with several outcomes")
                    return
                if ob.attrs.get(key, NOVAL) is NOVAL:
                    self.raise_ext(st, "AttributeError", b, nt)
                    return
                del st.own(b).attrs[key]
            elif b.op == "ref" and st.obj(b).kind != "module":
                st.own(b).attrs[key] = NOVAL
            else:
                st.over[(b, key)] = NOVAL
        else:
            st.over[(b, nt)] = NOVAL
        st.emit("delattr", (b, nt), self.loc)

    def harness_class(self, st, c):
        """A class of an entry-point snippet: nobody else assigns attributes of its instances."""
        for k in st.obj(c).data["mro"]:
            if k.op == "ref":
                m = st.obj(k).data["module"]
                if not (m is not None and m.op == "ref" and st.obj(m).data in ("harness", "asyncio")):
                    return False
            elif k.a[0] != "object":
                return False
        return True

    def hasattr_cond(self, st, b, nt):
        """True/False/(atom,pos)"""
        if nt.op == "const":
            n = cval(nt)
            if b.op == "ref":
                ob = st.obj(b)
                if ob.kind == "inst":
                    ga = self.class_attr(st, ob.data, "__getattribute__")
                    if ga is not None:
                        return None
                    if n in ob.attrs:
                        return ob.attrs[n] is not NOVAL
                    if self.class_attr(st, ob.data, n) is not None:
                        return True
                    if n in self.assigned_attrs and not self.opts.closed and not self.harness_class(st, ob.data):
                        return (mk("has", b, n), True)
                    return False
                if ob.kind == "func":
                    if n in ob.attrs:
                        return True
                    w = ob.attrs.get("__wrapped__")
                    if w is not None:
                        if w.op == "ref":
                            return n in st.obj(w).attrs
                        return self.hasattr_cond(st, w, nt)
                    return n in ("__name__", "__qualname__", "__call__", "__doc__", "__get__")
                if ob.kind == "class":
                    return self.class_attr(st, b, n) is not None
                if ob.kind == "module":
                    return n in ob.attrs
                if n in ob.attrs:
                    return ob.attrs[n] is not NOVAL
                pt = {"list": list, "dict": dict, "set": set}.get(ob.kind)
                if pt is not None:
                    return hasattr(pt, n)
                return (mk("has", b, n), True)
            if b.op == "bound":
                if n in ("__self__", "__func__"):
                    return True
                return self.hasattr_cond(st, b.a[0], nt)
            if b.op == "const":
                return hasattr(cval(b), n)
            if b.op in ("tuple", "range", "fmt"):
                return hasattr({"fmt": str, "range": range}.get(b.op, tuple), n)
            v = st.over.get((b, n))
            if v is not None:
                return v is not NOVAL
            cls = st.types.get(b)
            if cls is not None:
                ga = self.class_attr(st, cls, "__getattribute__")
                if ga is not None:
                    return None
                if self.class_attr(st, cls, n) is not None:
                    return True
            if n in self.volatile_has:
                return (mk("has", b, n, st.ep), True)
            return (mk("has", b, n), True)
        v = st.over.get((b, nt))
        if v is not None:
            return v is not NOVAL
        return (mk("hasd", b, nt), True)

    # ------------------------------------------------------------- items

    def item_read(self, st, b, k):
        v = st.over.get((b, "[]", k))
        if v is not None and v is not NOVAL:
            return v
        t = mkitem(b, k)
        if t.op == "item":
            if b.op == "attr" and b.a[1] in self.opts.item_types and t not in st.types:
                st.types[t] = self.opts.item_types[b.a[1]]
        return t

    def getitem(self, st, b, k):
        if k.op == "sliceobj":
            if misuse.lacks(self, st, b, "__getitem__") or self.opts.closed and b.op == "ref" and st.obj(b).kind == "dict":
                self.raise_ext(st, "TypeError", k)
                return [(st, None)]
            return [(st, self.slice(st, b, k))]
        if b.op == "attr" and b.a[1] == "__dict__":
            d = models.inst_dict(self, st, b)
            if d is not None:
                return self.getitem(st, d, k)
        bad = misuse.item(self, st, b, k)
        if bad:
            self.raise_ext(st, bad, k)
            return [(st, None)]
        if b.op == "tuple":
            if k.op == "const" and isinstance(cval(k), int) and -len(b.a) <= cval(k) < len(b.a):
                return [(st, b.a[cval(k)])]
            return [(st, mk("item", b, k))]
        if b.op == "const":
            if k.op == "const":
                try:
                    return [(st, const(cval(b)[cval(k)]))]
                except Exception:
                    pass
            return [(st, mk("item", b, k))]
        if b.op == "ref":
            ob = st.obj(b)
            if ob.kind == "inst":
                f = self.class_attr(st, ob.data, "__getitem__")
                if f is not None and f.op == "ref":
                    return self.call(st, mk("bound", f, b), [k], [])
                return [(st, mk("item", b, k))]
            if ob.kind == "class":
                if any(x.op == "ext" and x.a[0].startswith("enum.") for x in ob.data["mro"]):
                    return [(st, mk("item", b, k))]
                return [(st, b)]
            if ob.kind in ("list", "gen"):
                return models.list_get(self, st, b, k)
            if ob.kind == "dict" and "__factory" in ob.attrs:
                r = []
                for s, v in models.dict_get(self, st, b, k, models.NOVAL_T):
                    if v is not models.NOVAL_T:
                        r.append((s, v))
                        continue
                    for s2, w in self.call(s, ob.attrs["__factory"], [], []):
                        if s2.exc is None and ob.attrs.get("__keep") is not None:
                            models.dict_set(self, s2, b, k, w)
                        r.append((s2, w))
                return r
            if ob.kind == "dict":
                return models.dict_get(self, st, b, k, None)
            return [(st, mk("item", b, k))]
        if b.op == "ext":
            return [(st, b)]
        cls = st.types.get(b)
        if cls is not None:
            f = self.class_attr(st, cls, "__getitem__")
            if f is not None and f.op == "ref":
                return self.call(st, mk("bound", f, b), [k], [])
        v = st.over.get((b, "[]", k))
        if v is not None:
            if v is NOVAL:
                self.raise_ext(st, "KeyError", k)
                return [(st, None)]
            return [(st, v)]
        if self.opts.key_errors and st.known_atom(mk("in", k, b)) is False:
            self.raise_ext(st, "KeyError", k)
            return [(st, None)]
        return [(st, self.item_read(st, b, k))]

    def slice(self, st, b, k):
        lo, hi, step = k.a
        segs = None
        if b.op == "ref" and st.obj(b).kind in ("list", "gen"):
            segs = st.obj(b).data
        elif b.op == "tuple":
            segs = tuple(one(x) for x in b.a)
        if segs is not None:
            if lo is NONE and hi is NONE and step is NONE:
                if b.op == "tuple":
                    return b
                return self.new_list(st, segs)
            if all(x.op == "one" for x in segs) and all(x.op == "const" for x in (lo, hi, step)):
                part = segs[slice(cval(lo), cval(hi), cval(step))]
                return tup(*[x.a[0] for x in part]) if b.op == "tuple" else self.new_list(st, part)
            return mk("slice", mk("seq", tuple(segs)), lo, hi, step)
        if b.op == "const":
            if all(x.op == "const" for x in (lo, hi, step)):
                try:
                    return const(cval(b)[cval(lo) : cval(hi) : cval(step)])
                except Exception:
                    pass
        if lo is NONE and hi is NONE and step is NONE and b.op not in ("fmt", "const"):
            return self.new_list(st, (mk("all", b),))
        if lo is const(0):
            lo = NONE
        return mk("slice", b, lo, hi, step)

    def setitem(self, st, b, k, v):
        """[st]"""
        if misuse.lacks(self, st, b, "__setitem__"):
            self.raise_ext(st, "TypeError", k)
            return [st]
        if models.dict_inst(self, st, b) and k.op == "const":
            st.own(b.a[0]).attrs[cval(k)] = v
            st.emit("set", (b.a[0], k, v), self.loc)
            return [st]
        if b.op == "ref":
            ob = st.obj(b)
            if ob.kind == "dict":
                models.dict_set(self, st, b, k, v)
                st.emit("setitem", (b, k, v), self.loc)
                return [st]
            if ob.kind == "list":
                models.list_set(self, st, b, k, v)
                st.emit("setitem", (b, k, v), self.loc)
                return [st]
            if ob.kind == "inst":
                f = self.class_attr(st, ob.data, "__setitem__")
                if f is not None and f.op == "ref":
                    return [s for s, _ in self.call(st, mk("bound", f, b), [k, v], [])]
        if k.op != "sliceobj":
            st.over[(b, "[]", k)] = v
            if k.op != "const":
                # may be any other key
                for key in list(st.over):
                    if key[0] is b and key[1:2] == ("[]",) and key[2] is not k and key[2].op != "const":
                        del st.over[key]
        st.emit("setitem", (b, k, v), self.loc)
        self.bump_content(st, b)
        return [st]

    def delitem(self, st, b, k):
        m = std.method(self, st, b, "__delitem__")
        if m is not None:
            return [s for s, _ in self.call(st, m, [k], [])]
        if misuse.lacks(self, st, b, "__delitem__"):
            self.raise_ext(st, "TypeError", k)
            return [st]
        if models.dict_inst(self, st, b) and k.op == "const":
            if st.obj(b.a[0]).attrs.get(cval(k), NOVAL) is NOVAL:
                self.raise_ext(st, "KeyError", k)
            else:
                del st.own(b.a[0]).attrs[cval(k)]
                st.emit("delattr", (b.a[0], k), self.loc)
            return [st]
        if b.op == "ref" and st.obj(b).kind == "dict":
            if self.opts.closed and all(
                en.op == "kv" and (en.a[1] is models.NOVAL_T and en.a[0] is k or self.eq_cond(st, en.a[0], k) is False) for en in st.obj(b).data
            ):
                self.raise_ext(st, "KeyError", k)
                return [st]
            models.dict_del(self, st, b, k)
        elif b.op == "ref" and st.obj(b).kind == "list":
            o = st.own(b)
            if k.op == "const" and all(x.op == "one" for x in o.data):
                l = list(o.data)
                try:
                    del l[cval(k)]
                except Exception as e:
                    if self.opts.closed:
                        self.raise_ext(st, type(e).__name__, k)
                        return [st]
                o.data = tuple(l)
            elif k.op == "sliceobj" and k.a[0] is NONE and k.a[1] is NONE:
                o.data = ()
            else:
                o.data = (mk("all", mk("del", mk("seq", o.data), k)),)
        else:
            st.over[(b, "[]", k)] = NOVAL
            self.bump_content(st, b)
        st.emit("delitem", (b, k), self.loc)
        return [st]

    def bump_content(self, st, b):
        key = ("#content", b)
        st.cnt[key] = st.cnt.get(key, 0) + 1

    def versioned(self, st, b):
        n = st.cnt.get(("#content", b), 0)
        return mk("ver", b, n) if n else b

    def snap(self, st, v):
        """A term for the present content of a value (mutable objects copied)."""
        if v.op == "ref":
            o = st.obj(v)
            if o.kind in ("list", "gen", "set"):
                d = o.data
                if len(d) == 1 and d[0].op == "all":
                    return d[0].a[0]
                return mk("seq" if o.kind != "set" else "setof", tuple(self.snap_seg(st, s) for s in d))
            if o.kind == "dict":
                return mk("dictof", tuple(self.snap_seg(st, s) for s in o.data))
        if v.op == "tuple":
            return tup(*[self.snap(st, x) for x in v.a])
        return v

    def snap_seg(self, st, s):
        if s.op == "one":
            return one(self.snap(st, s.a[0]))
        if s.op == "kv":
            return mk("kv", s.a[0], self.snap(st, s.a[1]))
        return s

    def segs_of(self, st, v):
        """Segments of a value used as a sequence, without forking."""
        if v.op == "tuple":
            return [one(x) for x in v.a]
        if v.op == "ref":
            o = st.obj(v)
            if o.kind in ("list", "set", "gen"):
                return list(o.data)
            if o.kind == "dict":
                return [self.key_seg(s) for s in o.data]
        if v.op == "seq":
            return list(v.a[0])
        return [mk("all", v)]

    def key_seg(self, s, what="keys"):
        if s.op == "kv":
            return one({"keys": s.a[0], "values": s.a[1], "items": tup(s.a[0], s.a[1])}[what])
        if s.op == "merge":
            return self.dict_iter_seg(s.a[0], what)
        if s.op == "each":
            src, e, i, alts = s.a
            return mk(
                "each",
                src,
                e,
                i,
                tuple((cs, tuple(self.key_seg(x, what) for x in inner)) for cs, inner in alts),
            )
        return s

    def dict_iter_seg(self, d, what):
        if what == "keys":
            return mk("all", d)
        e = mk("elem", d, 0)
        i = mk("idx", d, 0)
        v = mkitem(d, e)
        x = v if what == "values" else tup(e, v)
        return mk("each", d, e, i, (((), (one(x),)),))

    def iterate(self, st, v):
        """[(st, segments)] of iterating over v."""
        o = v.op
        if misuse.lacks(self, st, v, "__iter__", "__getitem__"):
            self.raise_ext(st, "TypeError", v)
            return [(st, [])]
        if o == "attr" and v.a[1] == "__dict__":
            d = models.inst_dict(self, st, v)
            if d is not None:
                return self.iterate(st, d)
        if o == "tuple":
            return [(st, [one(x) for x in v.a])]
        if o == "const":
            c = cval(v)
            if isinstance(c, str):
                return [(st, [one(const(x)) for x in c])]
            return [(st, [mk("all", v)])]
        if o == "range":
            lo, hi = v.a[0], v.a[1]
            step = v.a[2] if len(v.a) > 2 else const(1)
            if lo.op == "const" and hi.op == "const" and step.op == "const":
                rg = range(cval(lo), cval(hi), cval(step))
                if len(rg) <= (128 if self.opts.closed else 16):
                    return [(st, [one(const(i)) for i in rg])]
            if step is const(1):
                n = mkbin("-", hi, lo) if not (lo is const(0)) else hi
                if is_len(n) and lo is const(0):
                    src = n.a[1][0]
                    return [(st, [mk("each", src, mk("elem", src, 0), mk("idx", src, 0), (((), (one(mk("idx", src, 0)),)),))])]
                src = mk("range", const(0), n)
                i = mk("idx", src, 0)
                return [(st, [mk("each", src, mk("elem", src, 0), i, (((), (one(mkbin("+", lo, i)),)),))])]
            return [(st, [mk("all", v)])]
        if o in ("keys", "values", "items"):
            d = v.a[0]
            if d.op == "ref":
                return [(st, [self.key_seg(s, o) for s in st.obj(d).data])]
            return [(st, [self.dict_iter_seg(self.versioned_iter(st, d), o)])]
        if o == "ref":
            ob = st.obj(v)
            if ob.kind == "lazy":
                r = []
                for s, _ in lazy.force(self, st, v):
                    r.append((s, [] if s.exc is not None else list(s.obj(v).data)))
                    s.own(v).data = ()
                return r
            if ob.kind == "gen" and self.opts.closed:
                if "__cut" in ob.attrs:
                    self.too_complex("a generator that goes on after it was left")
                st.own(v).data = ()
                return [(st, list(ob.data))]
            if ob.kind in ("list", "set", "gen"):
                return [(st, list(ob.data))]
            if ob.kind == "dict":
                return [(st, [self.key_seg(s) for s in ob.data])]
            if ob.kind == "inst":
                f = self.class_attr(st, ob.data, "__iter__")
                if f is not None and f.op == "ref":
                    r = []
                    for s, x in self.call(st, mk("bound", f, v), [], []):
                        r.extend(self.iterate(s, x) if s.exc is None else [(s, None)])
                    return r
                g = self.class_attr(st, ob.data, "__getitem__")
                if g is not None and g.op == "ref":
                    return self.iter_getitem(st, v, g)
            if ob.kind == "class":
                ms = [x for x in ob.attrs.values() if x.op == "enum"]
                if ms:
                    return [(st, [one(x) for x in ms])]
            return [(st, [mk("all", v)])]
        if o == "seq":
            return [(st, list(v.a[0]))]
        cls = st.types.get(v)
        if cls is not None:
            f = self.class_attr(st, cls, "__iter__")
            if f is not None and f.op == "ref":
                r = []
                for s, x in self.call(st, mk("bound", f, v), [], []):
                    r.extend(self.iterate(s, x) if s.exc is None else [(s, None)])
                return r
            g = self.class_attr(st, cls, "__getitem__")
            if g is not None and g.op == "ref":
                return self.iter_getitem(st, v, g)
        return [(st, [mk("all", self.versioned_iter(st, v))])]

    def iter_getitem(self, st, v, g):
        """Old-style iteration: __getitem__(i) from 0 until IndexError."""
        if self.opts.closed:
            x, vals = st.copy(), []
            while len(vals) <= 128:
                outs = self.call(x, mk("bound", g, v), [const(len(vals))], [])
                if len(outs) != 1:
                    break
                x, w = outs[0]
                if x.exc is not None:
                    if self.exc_match(x.exc, ext("IndexError")) is True:
                        return [(st, [one(w) for w in vals])]
                    break
                vals.append(w)
        k = mk("probe", v)
        outs = self.call(st.copy(), mk("bound", g, v), [k], [])
        if len(outs) == 1 and outs[0][0].exc is None:
            r = outs[0][1]
            if r.op == "item" and r.a[1] is k:
                return [(st, [mk("all", r.a[0])])]
        return [(st, [mk("all", v)])]

    def versioned_iter(self, st, v):
        n = st.cnt.get(("#content", v), 0)
        return mk("ver", v, n) if n else v

    # ------------------------------------------------------------- calls

    def call(self, st, f, args, kw):
        """[(st, val)]"""
        o = f.op
        if o == "ref":
            ob = st.obj(f)
            if ob.kind == "func":
                return self.call_func(st, f, ob, args, kw)
            if ob.kind == "class":
                return self.instantiate(st, f, ob, args, kw)
            if ob.kind == "inst":
                c = self.class_attr(st, ob.data, "__call__")
                if c is not None:
                    return self.call(st, mk("bound", c, f), args, kw)
                if misuse.lacks(self, st, f, "__call__"):
                    self.raise_ext(st, "TypeError", f)
                    return [(st, None)]
            return self.opaque(st, f, args, kw)
        if o == "bound":
            g, s = f.a
            if g.op == "ref" and st.obj(g).kind == "func":
                return self.call_func(st, g, st.obj(g), [s] + list(args), kw)
            if g.op == "ext":
                return models.call_bound_ext(self, st, f, g.a[0], s, args, kw)
            return self.opaque(st, f, args, kw)
        if o == "ext":
            return models.call_ext(self, st, f, args, kw)
        if o == "bm":
            return models.call_builtin_method(self, st, f.a[0], f.a[1], args, kw)
        if o == "pyfunc":
            return self.pyfuncs[f.a[0]](self, st, args, kw)
        if o in ("static", "classm"):
            return self.call(st, f.a[0], args, kw)
        cls = st.types.get(f)
        if cls is not None:
            c = self.class_attr(st, cls, "__call__")
            if c is not None and c.op == "ref":
                return self.call(st, mk("bound", c, f), args, kw)
        if o == "typeof":
            c = st.types.get(f.a[0])
            if c is not None and c.op == "ref":
                return self.call(st, c, args, kw)
        if o == "wraps":
            # functools.wraps(func)(wrapper)
            w = args[0]
            if w.op == "ref" and st.obj(w).kind == "func":
                ob = st.own(w)
                src = f.a[0]
                ob.attrs["__wrapped__"] = src
                if src.op == "ref" and st.obj(src).kind == "func":
                    for k, v in st.obj(src).attrs.items():
                        if k != "__wrapped__":
                            ob.attrs[k] = v
                else:
                    ob.attrs["__name__"] = mk("attr", src, "__name__")
                    ob.attrs["__qualname__"] = mk("attr", src, "__qualname__")
                    for k, v in list(st.over.items()):
                        if k[0] is src and isinstance(k[1], str) and k[1] != "[]":
                            ob.attrs[k[1]] = v
            return [(st, w)]
        if o == "propset" and len(args) == 1 and not kw:
            b = f.a[0]
            return [(st, mk("prop", args[0], b.a[1]) if f.a[1] == "getter" else mk("prop", b.a[0], args[0]))]
        if o == "partial":
            g, a0, k0 = f.a
            k1 = dict(k0)
            k1.update(dict(kw))
            return self.call(st, g, list(a0) + list(args), list(k1.items()))
        if o == "attr":
            r = models.call_attr(self, st, f, args, kw)
            if r is not None:
                return r
        return self.opaque(st, f, args, kw)

    def is_log(self, st, f):
        """Name of the log level if f is a logging function."""
        if f.op == "ext" and f.a[0].startswith("logging.") and f.a[0].split(".")[-1] in LOG_NAMES:
            return f.a[0].split(".")[-1]
        if f.op == "attr" and f.a[1] in LOG_NAMES:
            b = f.a[0]
            if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] in ("logging.getLogger", "logging.Logger"):
                return f.a[1]
        return None

    def opaque(self, st, f, args, kw, pure=None, result=None):
        """A call that is not followed."""
        lv = self.is_log(st, f)
        a = tuple(self.snap(st, x) for x in args)
        k = tuple((n, self.snap(st, v)) for n, v in kw)
        if lv is not None:
            if lv in self.opts.track_logs:
                st.emit("log", (lv, a, k), self.loc)
            return [(st, NONE)]
        if self.opts.closed and (f.op in ("const", "tuple", "seq", "dictof") or f.op == "ref" and st.obj(f).kind in ("list", "dict", "set", "tuple", "task", "coro")):
            self.raise_ext(st, "TypeError", f)
            return [(st, None)]
        if f.op in ("attr", "bm") and not kw:
            # the number of ones of a number
            w = f.a[0]
            if f.a[1] == "count" and a == (const("1"),) and w.op == "binary":
                return [(st, mk("ones", w.a[0]))]
            if f.a[1] == "bit_count" and not a and w.op == "bin":
                return [(st, mk("ones", w))]
        self.stats["opaque_calls"] += 1
        if self.opts.closed and models.unknown_library(f):
            self.vague.append("%s at %s:%s" % (show(f), self.loc[0], self.loc[1]))
            st.cnt["#vague"] = len(self.vague)
        if pure is None:
            pure = models.is_pure(f, args)
        if pure == "pure":
            r = mk("call", f, a, k, self.recv_version(st, f, a))
            return [(st, self.canon_call(st, r))]
        if pure == "state":
            return [(st, mk("call", f, a, k, ("e", st.ep) + self.recv_version(st, f, a)))]
        key = (f, a, k)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        t = mk("call", f, a, k, n + 1)
        st.emit("call", (f, a, k, t), self.loc)
        base = f.a[0] if f.op in ("attr", "bm") else None
        if f.op == "attr" and f.a[1] in models.MUTATORS:
            self.bump_content(st, f.a[0])
        elif f.op == "bound":
            pass
        if not models.quiet_call(f):
            st.ep = st.ep + 1
        r = [(st, t)]
        if self.may_raise(st, t):
            s2 = st.copy()
            s2.exc = mk("exc", mk("unknown_exc", t), ())
            r.append((s2, None))
        return r

    def recv_version(self, st, f, a):
        v = []
        if f.op == "attr":
            n = st.cnt.get(("#content", f.a[0]), 0)
            if n:
                v.append(n)
        for x in a:
            n = st.cnt.get(("#content", x), 0)
            if n:
                v.append(n)
        return tuple(v)

    def canon_call(self, st, t):
        return t

    def may_raise(self, st, t):
        p = self.opts.may_raise
        if p is not None:
            return p(t)
        return self.try_depth > 0

    def fields_of(self, st, c):
        """Fields of a dataclass or a NamedTuple: [(name, default, factory)]"""
        for x in self.base.mro(c):
            if x.op == "ref" and "fields" in st.obj(x).data:
                return st.obj(x).data["fields"]
        return None

    def init_fields(self, st, c, i, fields, args, kw):
        vals = dict(zip([f[0] for f in fields if f[3]], args))
        if len(args) > len([f for f in fields if f[3]]) or any(k in vals or k not in [f[0] for f in fields if f[3]] for k, _ in kw):
            self.raise_ext(st, "TypeError", c)
            return [(st, None)]
        vals.update(dict(kw))
        cur = [st]
        for n, default, factory, init in fields:
            nxt = []
            for s in cur:
                if s.exc is not None:
                    nxt.append(s)
                elif n in vals:
                    s.own(i).attrs[n] = vals[n]
                    nxt.append(s)
                elif default is not None:
                    s.own(i).attrs[n] = default
                    nxt.append(s)
                elif factory is not None:
                    for s2, v in self.call(s, factory, [], []):
                        if s2.exc is None:
                            s2.own(i).attrs[n] = v
                        nxt.append(s2)
                elif init:
                    self.raise_ext(s, "TypeError", c)
                    nxt.append(s)
                else:
                    nxt.append(s)
            cur = nxt
        post = self.class_attr(st, c, "__post_init__")
        if post is not None and post.op == "ref":
            cur = [s2 for s in cur for s2 in ([s] if s.exc is not None else [x for x, _ in self.call(s, mk("bound", post, i), [], [])])]
        return [(s, i if s.exc is None else None) for s in cur]

    def instantiate(self, st, c, ob, args, kw):
        mro = ob.data["mro"]
        exts = [x.a[0] for x in mro if x.op == "ext"]
        if any(x.startswith("enum.") for x in exts) and len(args) == 1 and not kw:
            for k, v in ob.attrs.items():
                if v.op == "enum" and v in self.enum_values and self.enum_values[v] is args[0] or v is args[0]:
                    return [(st, v)]
            if args[0].op == "const" and all(self.enum_values.get(v, NONE).op == "const" for v in ob.attrs.values() if v.op == "enum") and self.class_attr(st, c, "_missing_") is None:
                self.raise_ext(st, "ValueError", args[0])
                return [(st, None)]
        if any(x.startswith("enum.") for x in exts):
            return [(st, mk("call", c, tuple(args), tuple(kw), 0))]
        new = self.class_attr(st, c, "__new__") if self.opts.closed else None
        if new is not None and new.op == "ref":
            init = self.class_attr(st, c, "__init__")
            r = []
            for s, i in self.call(st, new, [c] + list(args), kw):
                if s.exc is not None or init is None or init.op != "ref" or not (i.op == "ref" and s.obj(i).kind == "inst" and c in self.base.mro(s.obj(i).data)):
                    r.append((s, i))
                    continue
                for s2, _ in self.call(s, mk("bound", init, i), args, kw):
                    r.append((s2, i if s2.exc is None else None))
            return r
        i = self.new_ref(st, Obj("inst", {}, c))
        st.emit("new", (i, c), self.loc)
        init = self.class_attr(st, c, "__init__")
        if init is not None:
            r = []
            for s, _ in self.call(st, mk("bound", init, i) if init.op == "ref" else init, args if init.op == "ref" else [i] + list(args), kw):
                r.append((s, i if s.exc is None else None))
            return r
        fields = self.fields_of(st, c)
        if fields is not None:
            return self.init_fields(st, c, i, fields, args, kw)
        e0 = [x for x in exts if x != "object"]
        if e0:
            if models.is_exception_name(e0[0]):
                return [(st, mk("exc", c, tuple(args)))]
            r = []
            for s, _ in models.call_bound_ext(self, st, mk("bound", ext(e0[0] + ".__init__"), i), e0[0] + ".__init__", i, args, kw):
                r.append((s, i if s.exc is None else None))
            return r
        if args or kw:
            self.raise_ext(st, "TypeError", c)
            return [(st, None)]
        return [(st, i)]

    def bind_args(self, st, fi, defaults, kwdefaults, args, kw):
        """{name: value} or None on a mismatch."""
        a = fi.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        out = {}
        args = list(args)
        extra = []
        i = 0
        # a starred sequence of unknown length fills the rest
        while args:
            v = args[0]
            if v.op == "star":
                if i < len(pos):
                    # unknown split: positional parameters read from the sequence
                    sg = v.a[0]
                    if a.vararg is None or i < len(pos):
                        srcv = sg.a[0] if sg.op == "all" else mk("seq", (sg,))
                        j = 0
                        while i < len(pos):
                            nm = pos[i]
                            di = i - (len(pos) - len(defaults))
                            if any(k == nm for k, _ in kw):
                                break
                            t = mk("item", srcv, const(j))
                            out[nm] = mk("argor", t, defaults[di]) if di >= 0 else t
                            i += 1
                            j += 1
                        if a.vararg is not None:
                            extra.append(mk("all", mk("slice", srcv, const(j), NONE, NONE)) if j else sg)
                    args.pop(0)
                    continue
                extra.append(v.a[0])
                args.pop(0)
                continue
            if i < len(pos):
                out[pos[i]] = v
                i += 1
            else:
                extra.append(one(v))
            args.pop(0)
        if extra and a.vararg is None:
            return None
        if a.vararg is not None:
            if all(x.op == "one" for x in extra):
                out[a.vararg.arg] = tup(*[x.a[0] for x in extra])
            elif len(extra) == 1 and extra[0].op == "all":
                out[a.vararg.arg] = extra[0].a[0]
            else:
                out[a.vararg.arg] = self.new_list(st, extra)
        kwx = []
        unknown = [v for k, v in kw if k is None]
        for k, v in kw:
            if k is None:
                continue
            if k in out and k in pos:
                return None
            if k in pos[len(a.posonlyargs) :] or k in kwonly:
                out[k] = v
            else:
                kwx.append((k, v))
        if kwx and a.kwarg is None:
            return None
        if a.kwarg is not None:
            if not kwx and len(unknown) == 1 and not any(
                n not in out for n in pos + kwonly
            ):
                out[a.kwarg.arg] = unknown[0]
            else:
                out[a.kwarg.arg] = self.new_dict(
                    st, [mk("kv", const(k), v) for k, v in kwx] + [mk("merge", u) for u in unknown]
                )
        nd = len(defaults)
        for j, nm in enumerate(pos):
            if nm not in out:
                di = j - (len(pos) - nd)
                if unknown:
                    t = mk("item", unknown[0], const(nm))
                    out[nm] = mk("argor", t, defaults[di]) if di >= 0 else t
                elif di >= 0:
                    out[nm] = defaults[di]
                else:
                    return None
        for j, nm in enumerate(kwonly):
            if nm not in out:
                if kwdefaults[j] is None:
                    if unknown:
                        out[nm] = mk("item", unknown[0], const(nm))
                        continue
                    return None
                out[nm] = kwdefaults[j] if not unknown else mk("argor", mk("item", unknown[0], const(nm)), kwdefaults[j])
        return out

    def call_func(self, st, f, ob, args, kw):
        fi, closure, defaults, kwdefaults, cls = ob.data
        if fi.qual in self.opts.opaque or fi.name in self.opts.opaque:
            return self.opaque(st, self.fn_name(st, fi, f, args), args if cls is None else args, kw, pure="impure")
        if fi.is_ctx and not self.opts.closed:
            return self.opaque(st, mk("call", ext("contextlib.contextmanager"), (f,), (), ()), args, kw)
        if fi.is_memo and self.opts.closed:
            return models.memo(self, st, f, ob, args, kw)
        b = self.bind_args(st, fi, defaults, kwdefaults, args, kw)
        if b is None:
            self.raise_ext(st, "TypeError", f)
            return [(st, None)]
        fr = self.new_ref(st, Obj("frame", b, (fi, closure, fi.module), cls))
        if fi.is_async and not (fi.is_gen and self.opts.closed):
            co = self.new_ref(st, Obj("coro", {}, (f, fr, fi, tuple(args), tuple(kw))))
            return [(st, co)]
        return self.run_body(st, f, fi, fr, args, kw)

    def fn_name(self, st, fi, f, args):
        return mk("fn", fi.qual)

    def run_body(self, st, f, fi, fr, args, kw):
        # recursion: the same function is being analysed already
        if self.opts.closed and sum(x is fi for x in self.stack) >= RECURSION:
            # the data of a client program is small: this goes on for ever
            self.raise_ext(st, "RecursionError")
            return [(st, None)]
        if not self.opts.closed and self.recursive(fi):
            self.stats["recursion_cuts"] += 1
            a = tuple(self.snap(st, x) for x in args)
            k = tuple((n, self.snap(st, v)) for n, v in kw)
            if fi.is_gen:
                t = mk("call", mk("fn", fi.qual), a, k, 0)
                st.emit("call", (mk("fn", fi.qual), a, k, t), self.loc)
                return [(st, t)]
            key = ("rec", fi.qual, a, k)
            n = st.cnt.get(key, 0)
            st.cnt[key] = n + 1
            t = mk("call", mk("fn", fi.qual), a, k, n)
            st.emit("call", (mk("fn", fi.qual), a, k, t), self.loc)
            st.ep += 1
            return [(st, t)]
        if not self.opts.closed and len(self.stack) > self.opts.max_depth:
            raise TooComplex("call depth")
        self.stats["functions"].add((fi.path, fi.qual))
        self.stats["calls_followed"] += 1
        self.stack.append(fi)
        saved_loc = self.loc
        self.loc = (fi.path, self.loc[1])
        try:
            if fi.is_gen and self.opts.closed:
                g = lazy.new(self, st, lazy.body(self, fi, fr))
                return [(st, g if not fi.is_ctx else self.new_ref(st, Obj("ctxm", {}, g)))]
            if fi.is_gen:
                out = self.new_list(st, (), "gen")
                st.own(fr).attrs["__yields__"] = out
                r = []
                for s, ctl, v in self.block(fi.body, st, fr):
                    r.append((s, out if s.exc is None else None))
                return r
            r = []
            for s, ctl, v in self.block(fi.body, st, fr):
                if ctl == RET:
                    r.append((s, v))
                elif ctl == EXC:
                    r.append((s, None))
                elif ctl == DIV:
                    self.div.append(s)
                else:
                    r.append((s, NONE))
            return merge_outcomes(self.limit(r))
        finally:
            self.stack.pop()
            self.loc = saved_loc

    def havoc(self, st):
        """Other tasks may have run."""
        st.ep += 1
        for k in list(st.over):
            if k[0].op != "ref" and len(k) == 2 and k[1] in self.volatile:
                del st.over[k]

    def recursive(self, fi):
        return sum(x is fi for x in self.stack) >= self.opts.rec

    def await_(self, st, v):
        """[(st, val)]"""
        if misuse.lacks(self, st, v, "__await__"):
            self.raise_ext(st, "TypeError", v)
            return [(st, None)]
        if v.op == "ref":
            ob = st.obj(v)
            if ob.kind == "coro":
                f, fr, fi, args, kw = ob.data
                return self.run_body(st, f, fi, fr, args, kw)
            if ob.kind == "inst":
                f = self.class_attr(st, ob.data, "__await__")
                if f is not None and f.op == "ref":
                    r = []
                    for s, x in self.call(st, mk("bound", f, v), [], []):
                        if s.exc is None and lazy.is_lazy(s, x):
                            for s2, ctl, val in lazy.consume(self, s, x, lambda s2, _: [(s2, None, None)]):
                                r.append((s2, NONE if val is None else val) if ctl is None else (s2, None))
                        else:
                            r.append((s, x))
                    return r
            if ob.kind == "task":
                if "__coro__" in ob.attrs and self.sched:
                    # everything that is ready runs first
                    return [y for s in models.sched_run(self, st) for y in self.await_(s, v)]
                if "__coro__" in ob.attrs:
                    res = []
                    for s, _ in models.run_task(self, st, v, ob.attrs["__coro__"], ob.data):
                        res.extend(self.await_(s, v))
                    return res
                for k in ("__result__", "__exc__"):
                    if k in ob.attrs:
                        st.emit("await", (ob.data, ob.attrs[k]), self.loc)
                        self.havoc(st)
                        if k == "__exc__":
                            st.exc = ob.attrs[k]
                            return [(st, None)]
                        return [(st, ob.attrs[k])]
        if v.op == "schedready":
            return models.sched_ready(self, st, v.a[0])
        if v.op == "schedsuspend":
            return models.sched_suspend(self, st, v.a[0])
        if self.sched and v.op == "ref" and st.obj(v).kind == "task" and v not in (self.waiting or ()):
            # started, not finished: it waits itself, or has not been reached yet
            saved = self.waiting
            self.waiting = (saved or ()) + (v,)
            try:
                res = []
                for s, _ in models.sched_suspend(self, st, const("task")):
                    res.extend(self.await_(s, v) if s.exc is None else [(s, None)])
                return res
            finally:
                self.waiting = saved
        if v.op == "call" and v.a[0].op == "fn":
            # a recursive coroutine call, already recorded
            return [(st, mk("awaited", v))]
        key = ("await", v)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        d = v
        if v.op == "ref" and st.obj(v).kind == "task":
            d = st.obj(v).data
        t = mk("awaited", d, n) if n else mk("awaited", d)
        st.emit("await", (d, t), self.loc)
        self.havoc(st)
        if self.sched:
            return [(s, t) for s in models.sched_run(self, st)]
        r = [(st, t)]
        if self.may_raise(st, t):
            s2 = st.copy()
            s2.exc = mk("exc", mk("unknown_exc", t), ())
            r.append((s2, None))
        return r
