"""Loading the package as abstract objects, and running analyses on it."""

import ast
import os
import sys
import time

from . import interp
from . import models
from .interp import *
from .interp import Interp as _Interp

sys.setrecursionlimit(20000)


class Broken(Exception):
    """The analysis cannot be carried out on this tree."""


class Outcome(object):
    """One class of executions that end the same way."""

    __slots__ = ("st", "ret", "exc", "div", "A")

    def __init__(self, A, st, ret, div=False):
        self.A, self.st, self.ret, self.exc, self.div = A, st, ret, st.exc, div

    @property
    def effects(self):
        return self.st.effects()

    @property
    def conds(self):
        return self.st.decisions()

    @property
    def raised(self):
        """Name of the exception class, None if it ended normally."""
        if self.exc is None:
            return None
        return exc_name(self.st, self.exc)

    def __repr__(self):
        return "<Outcome %s%s | %s | %s>" % (
            "raise " + str(self.raised) if self.exc is not None else "ret %s" % (show(self.ret) if self.ret is not None else None),
            " DIV" if self.div else "",
            " & ".join(("" if v else "not ") + show(a) for a, v in self.conds),
            self.effects,
        )


def exc_name(st, exc):
    c = exc.a[0]
    if c.op == "ext":
        return c.a[0]
    if c.op == "ref":
        return st.obj(c).data["name"]
    if c.op == "unknown_exc":
        return "?"
    return "?"


class Loader(_Interp):
    def __init__(self, root, sched=False, stubs=()):
        _Interp.__init__(self)
        self.sched = sched
        self.stubs = stubs
        self.root = root
        self.assigned_attrs = set()
        self.volatile_has = set()
        self.enum_values = {}
        self.plain_enums = set()
        self.missing_exports = []
        self.pyfuncs = {}
        self.active_loops = []
        self.trees = {}
        self.files = {}
        self.load_errors = []
        self.globals_written = {}
        self.scan()
        st = State(self.base)
        self.base.extra_state = st
        self.loading = True
        for name in sorted(self.files):
            self.import_module(name, st)
        self.load_state = st
        self.finish(st)

    # --------------------------------------------------------------- files

    def scan(self):
        for top, mod in (("toffee", "toffee"), ("scripts", "scripts")):
            d = os.path.join(self.root, top)
            for dp, dns, fns in os.walk(d):
                dns[:] = sorted(x for x in dns if x != "__pycache__")
                for fn in sorted(fns):
                    if not fn.endswith(".py"):
                        continue
                    p = os.path.join(dp, fn)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    self.files[name] = p
        if self.sched:
            stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
            self.files["asyncio"] = os.path.join(stubs, "asyncio.py")
            self.files["queue"] = os.path.join(stubs, "queue.py")
            for n in self.stubs:
                self.files[n] = os.path.join(stubs, n + ".py")
            self.files["_std"] = os.path.join(stubs, "_std.py")
            self.files["_signature"] = os.path.join(stubs, "_signature.py")
        if "toffee" not in self.files:
            raise Broken("no package toffee under %s" % self.root)
        for name, p in self.files.items():
            with open(p, encoding="utf-8") as f:
                src = f.read()
            try:
                self.trees[name] = self.prepare(src, os.path.relpath(p, self.root))
            except SyntaxError as e:
                raise Broken("%s: %s" % (p, e))
        for name, t in self.trees.items():
            self.scan_attrs(name, t)

    def prepare(self, src, fname):
        t = ast.parse(src)
        t = Mangler().visit(t)
        for n in ast.walk(t):
            n.file = fname
        return t

    def scan_attrs(self, name, tree):
        def visit(node, fn):
            for c in ast.iter_child_nodes(node):
                f2 = fn
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f2 = c.name
                if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    self.assigned_attrs.add(c.attr)
                    if fn != "__init__":
                        self.volatile.add(c.attr)
                        self.volatile_has.add(c.attr)
                if (
                    isinstance(c, ast.Call)
                    and isinstance(c.func, ast.Name)
                    and c.func.id in ("setattr", "delattr")
                    and len(c.args) > 1
                    and isinstance(c.args[1], ast.Constant)
                ):
                    self.assigned_attrs.add(c.args[1].value)
                    self.volatile.add(c.args[1].value)
                    self.volatile_has.add(c.args[1].value)
                if isinstance(c, ast.Global):
                    self.globals_written.setdefault(name, set()).update(c.names)
                if isinstance(c, ast.ClassDef):
                    for b in c.body:
                        for t in getattr(b, "targets", []) or ([b.target] if isinstance(b, ast.AnnAssign) else []):
                            if isinstance(t, ast.Name):
                                self.assigned_attrs.add(t.id)
                visit(c, f2)

        visit(tree, None)
        self.volatile.add("value")

    # ------------------------------------------------------------- imports

    def resolve_import(self, mod, s):
        if not s.level:
            return s.module or ""
        parts = mod.data.split(".")
        pkg = parts if mod.extra == "pkg" else parts[:-1]
        if s.level > 1:
            pkg = pkg[: len(pkg) - (s.level - 1)]
        return ".".join(pkg + ([s.module] if s.module else []))

    def import_module(self, name, st):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.files:
            return ext(name)
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0], st)
            if name in self.modules:
                return self.modules[name]
        pkg = self.files[name].endswith("__init__.py")
        m = self.new_ref(st, Obj("module", {"__name__": const(name), "__file__": ext("__file__")}, name, "pkg" if pkg else None))
        self.modules[name] = m
        fr = self.new_ref(st, Obj("frame", {}, (None, None, m)))
        saved = self.loc
        for s in self.trees[name].body:
            if isinstance(s, ast.If) and self.is_main_guard(s.test):
                continue
            try:
                outs = self.stmt(s, st, fr)
            except Unsupported as e:
                self.load_errors.append("%s:%s: %s" % (s.file, s.lineno, e))
                continue
            good = [o for o in outs if o[1] is None]
            if not good:
                self.load_errors.append("%s:%s: raises at import" % (s.file, s.lineno))
                good = outs
            if good and good[0][0] is not st:
                x = good[0][0]
                st.heap, st.over, st.facts, st.iv, st.cnt, st.types = x.heap, x.over, x.facts, x.iv, x.cnt, x.types
            st.exc = None
            st.path = None
            st.eff = None
            st.facts = {}
            st.iv = {}
        self.loc = saved
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.modules:
                st.own(self.modules[parent]).attrs.setdefault(leaf, m)
        return m

    def is_main_guard(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def finish(self, st):
        """Freeze the loaded objects; module globals become symbolic inputs."""
        self.initial_globals = {}
        mods = {m: n for n, m in self.modules.items()}
        shared = {}
        for m, n in mods.items():
            o = st.own(m)
            for k, v in list(o.attrs.items()):
                if v.op == "ref" and st.obj(v).kind in MUTABLE and not k.startswith("__all__"):
                    lit = all(x.op in ("one", "kv") and all(y.op == "const" for y in x.a) for x in st.obj(v).data)
                    if st.obj(v).data == () or not lit:
                        g = shared.get(v)
                        if g is None:
                            g = shared[v] = sym("global:%s.%s" % (n, k))
                        self.initial_globals[(n, k)] = v
                        o.attrs[k] = g
                elif k in self.globals_written.get(n, ()) and v.op != "var":
                    self.initial_globals[(n, k)] = v
                    o.attrs[k] = sym("global:%s.%s" % (n, k))
        self.base.update(st.heap)
        self.base.extra_state = None
        self.base_over = dict(st.over)
        self.base_types = dict(st.types)
        self.loading = False

    # ------------------------------------------------------------- lookup

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise Broken("module %s is gone" % name)
        return m

    def name(self, dotted):
        """Value of 'toffee.bundle.Bundle.bind', 'toffee.Env', ..."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            n = ".".join(parts[:i])
            if n in self.modules:
                v = self.modules[n]
                for p in parts[i:]:
                    o = self.base.get(v.a[0]) if v.op == "ref" else None
                    if o is None:
                        raise Broken("%s is gone" % dotted)
                    if o.kind == "class":
                        for c in o.data["mro"]:
                            if c.op == "ref" and p in self.base[c.a[0]].attrs:
                                w = self.base[c.a[0]].attrs[p]
                                break
                        else:
                            raise Broken("%s is gone" % dotted)
                    elif p in o.attrs:
                        w = o.attrs[p]
                    else:
                        raise Broken("%s is gone" % dotted)
                    v = w
                return v
        raise Broken("%s is gone" % dotted)

    def func_node(self, v):
        while v.op in ("static", "classm", "prop", "bound"):
            v = v.a[0]
        return self.base[v.a[0]].data[0]

    # ---------------------------------------------------------------- runs

    def start(self):
        st = State(self.base)
        st.over = dict(self.base_over)
        st.types = dict(self.base_types)
        return st

    def run(self, code, types=None, assume=(), opts=None, env=None, setup=None, module="toffee", monitor=None,
            fresh=False):
        """Analyse 'main' of the snippet; its parameters are arbitrary values.

        types: {parameter: class term or dotted name}
        """
        self.opts = opts or Options()
        now = time.monotonic()
        self.until = min(now + interp.ONE_RUN, interp.BEGIN + interp.ALL_RUNS)
        self.div = []
        self.stack = []
        self.try_depth = 0
        self.active_loops = []
        tree = self.prepare(code, "<harness>")
        st = self.start()
        m = self.new_ref(st, Obj("module", {"__name__": const("harness")}, "harness"))
        pk = st.obj(self.module(module))
        o = st.own(m)
        o.attrs.update(pk.attrs)
        for k, v in (env or {}).items():
            v = self.name(v) if isinstance(v, str) else v
            if fresh and v.op == "var" and v.a[0].startswith("global:"):
                v = self.initial_globals.get(tuple(v.a[0][7:].rsplit(".", 1)), v)
            o.attrs[k] = v
        fr = self.new_ref(st, Obj("frame", {}, (None, None, m)))
        for s in tree.body:
            outs = self.stmt(s, st, fr)
            if len(outs) != 1 or outs[0][1] is not None:
                x = Broken("harness: statement in line %s has %d outcomes" % (getattr(s, "lineno", "?"), len(outs)))
                x.outs = outs
                raise x
            st = outs[0][0]
        st.eff = None
        st.path = None
        f = st.obj(m).attrs["main"]
        self.harness_frame = dict(st.obj(m).attrs)
        if fresh:
            for (n, k), v in self.initial_globals.items():
                st.own(self.modules[n]).attrs[k] = v
        fi = st.obj(f).data[0]
        args = []
        for a in arg_names(fi.args):
            v = sym(a)
            args.append(v)
            t = (types or {}).get(a)
            if t is not None:
                st.types[v] = self.name(t) if isinstance(t, str) else t
        for c in assume:
            atom, val = c
            if not st.assume((atom, True), val):
                raise Broken("harness assumption is contradictory")
        st.path = None
        if setup:
            setup(self, st)
        outs = []
        self.entry = st
        self.base.monitor = monitor
        if monitor is not None:
            st.mon = monitor.start
        for s, v in self.call(st, f, args, []):
            if s.exc is not None:
                outs.append(Outcome(self, s, None))
            elif v.op == "ref" and s.obj(v).kind == "coro" and fi.is_async:
                for s2, v2 in self.await_(s, v):
                    if self.sched and s2.exc is None:
                        outs.extend(Outcome(self, s3, v2) for s3 in models.sched_run(self, s2))
                    else:
                        outs.append(Outcome(self, s2, v2))
            else:
                outs.append(Outcome(self, s, v))
        for s in self.div:
            outs.append(Outcome(self, s, None, True))
        self.stats["paths"] += len(outs)
        return outs
