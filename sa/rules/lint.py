"""References that nothing defines: names, imports, attributes of modules and of the own object, calls that do not fit."""

import ast
import builtins
import importlib
import symtable
import sys

from ..rule import *

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__class__", "__module__", "__qualname__"}


def stdlib(name):
    if name.split(".")[0] not in sys.stdlib_module_names:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


class Mod(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.is_pkg = path.endswith("__init__.py")
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.rel = None
        self.names = {}  # name -> ("class", node) | ("func", node) | ("module", name) | ("var", None) | ("from", module, name)
        self.dynamic = False
        self.stars = []
        self.scan(self.tree.body)

    def target(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.names[n.id] = ("var", None)

    def resolve(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.names[s.name] = ("class", s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = ("func", s) if s.name not in self.names else ("var", None)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ("module", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = self.resolve(s)
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.names[a.asname or a.name] = ("from", m, a.name)
            else:
                for f in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, f, None), list):
                        self.scan(getattr(s, f))
                for h in getattr(s, "handlers", []):
                    self.scan(h.body)
                for n in ast.iter_child_nodes(s):
                    if isinstance(n, ast.expr):
                        self.target(n)
                    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                        self.target(n.optional_vars)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.names.setdefault(x, ("var", None))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "globals", "vars", "locals"):
                self.dynamic = True


class Pkg(object):
    def __init__(self, A):
        self.mods = {n: Mod(n, p) for n, p in A.files.items() if "stubs" not in p}
        import os

        for m in self.mods.values():
            m.rel = os.path.relpath(m.path, A.root)
        self.subs = {}
        for n in self.mods:
            if "." in n:
                self.subs.setdefault(n.rsplit(".", 1)[0], set()).add(n.rsplit(".", 1)[1])
        self.classes = {}
        for m in self.mods.values():
            for n, v in m.names.items():
                if v[0] == "class":
                    self.classes[(m.name, n)] = Cls(self, m, v[1])
        # attributes stored through some object that is not the own one
        self.elsewhere = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                    self.elsewhere.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.elsewhere.add(n.args[1].value)

    def exported(self, mod, seen=()):
        """Names that a star import of the module brings; None: unknown."""
        if mod in seen:
            return set()
        m = self.mods.get(mod)
        if m is None:
            x = stdlib(mod)
            return set(getattr(x, "__all__", [n for n in dir(x) if n[0] != "_"])) if x else None
        every = self.every(mod, seen)
        return every

    def every(self, mod, seen=()):
        """All names of a module; None: unknown."""
        m = self.mods[mod]
        r = set(m.names) | BUILTIN | self.subs.get(mod, set())
        for s in m.stars:
            x = self.exported(s, seen + (mod,))
            if x is None:
                return None
            r |= x
        return None if m.dynamic or "__getattr__" in m.names else r

    def find(self, mod, name, seen=()):
        """What a name of a module is: ("class", Cls), ("func", node, Mod), ("module", name), ("ext", object) or None."""
        if (mod, name) in seen or mod not in self.mods:
            return None
        seen = seen + ((mod, name),)
        m = self.mods[mod]
        v = m.names.get(name)
        if v is None:
            for s in m.stars:
                r = self.find(s, name, seen)
                if r:
                    return r
            if name in self.subs.get(mod, ()):
                return ("module", mod + "." + name)
            return None
        if v[0] == "class":
            return ("class", self.classes[(mod, name)])
        if v[0] == "func":
            return ("func", v[1], m)
        if v[0] == "module":
            return ("module", v[1])
        if v[0] == "from":
            if v[1] in self.mods:
                r = self.find(v[1], v[2], seen)
                if r is None and v[1] + "." + v[2] in self.mods:
                    return ("module", v[1] + "." + v[2])
                return r
            x = stdlib(v[1])
            if x is not None and hasattr(x, v[2]):
                return ("ext", getattr(x, v[2]))
        return None


def first_arg(f):
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


def decorators(f):
    r = []
    for d in f.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        r.append(ast.unparse(d))
    return r


def mangled(cls, n):
    if n.startswith("__") and not n.endswith("__"):
        return "_%s%s" % (cls.lstrip("_"), n)
    return n


class Cls(object):
    def __init__(self, pkg, mod, node):
        self.pkg, self.mod, self.node, self.name = pkg, mod, node, node.name
        self.attrs = {}  # name -> node of a method or None
        self.stored = set()
        self.dynamic = False
        self.guarded = set()
        self.methods = []
        self.body(node.body)
        for f in self.methods:
            me = first_arg(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(mangled(self.name, n.attr))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "hasattr", "getattr", "delattr") and len(n.args) > 1:
                    k = n.args[1]
                    if isinstance(k, ast.Constant):
                        (self.stored if n.func.id == "setattr" else self.guarded).add(k.value)
                    elif n.func.id == "setattr":
                        self.dynamic = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    self.dynamic = True
                if isinstance(n, ast.ExceptHandler) and (n.type is None or "AttributeError" in ast.unparse(n.type) or "Exception" in ast.unparse(n.type)):
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute):
                            self.guarded.add(mangled(self.name, x.attr))

    def body(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                k = mangled(self.name, s.name)
                self.attrs[k] = s if k not in self.attrs else None
                self.methods.append(s)
            elif isinstance(s, ast.ClassDef):
                self.attrs[mangled(self.name, s.name)] = None
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.attrs[mangled(self.name, n.id)] = None
                    if isinstance(n, ast.alias):
                        self.attrs[n.asname or n.name] = None
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.attrs[mangled(self.name, n.name)] = None

    def bases(self):
        """[Cls | type]; None: unknown."""
        r = []
        for b in self.node.bases:
            x = None
            if isinstance(b, ast.Name):
                x = self.pkg.find(self.mod.name, b.id)
                if x is None and hasattr(builtins, b.id):
                    x = ("ext", getattr(builtins, b.id))
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.pkg.find(self.mod.name, b.value.id)
                if m and m[0] == "module":
                    s = stdlib(m[1])
                    if s is not None and hasattr(s, b.attr):
                        x = ("ext", getattr(s, b.attr))
                    elif m[1] in self.pkg.mods:
                        x = self.pkg.find(m[1], b.attr)
            if x is None or x[0] not in ("class", "ext"):
                return None
            r.append(x[1])
        return r

    def line(self, seen=()):
        """The class and its ancestors; None: unknown."""
        if self in seen:
            return []
        bs = self.bases()
        if bs is None:
            return None
        r = [self]
        for b in bs:
            if isinstance(b, Cls):
                l = b.line(seen + (self,))
                if l is None:
                    return None
                r += l
            else:
                r.append(b)
        return r

    def family(self):
        """Classes derived from it."""
        r = []
        for c in self.pkg.classes.values():
            l = c.line()
            if c is not self and (l is None or self in l):
                r.append(c)
        return r

    def meta(self):
        for k in self.node.keywords:
            if k.arg == "metaclass":
                x = self.pkg.find(self.mod.name, k.value.id) if isinstance(k.value, ast.Name) else None
                return x[1] if x and x[0] == "class" else False
        return None


def known_attrs(c):
    """All attributes an object of the class may have; None: unknown."""
    l = c.line()
    if l is None:
        return None
    r = set(dir(object)) | {"__dict__", "__name__", "__qualname__"}
    for x in l + c.family():
        if isinstance(x, Cls):
            if "__getattr__" in x.attrs or "__getattribute__" in x.attrs:
                return None
            r |= set(x.attrs) | x.stored | x.guarded
            k = x.meta()
            if k is False:
                return None
            if k is not None:
                r |= set(k.attrs) | k.stored
        else:
            r |= set(dir(x))
            if isinstance(x, type) and not issubclass(x, (type, BaseException)) and x is not object:
                # what its initialiser stores
                try:
                    import inspect
                    import textwrap

                    for b in x.__mro__[:-1]:
                        for n in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(b)))):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                r.add(n.attr)
                except (OSError, TypeError, SyntaxError):
                    return None
    return r | c.pkg.elsewhere


def fits(call, f, skip):
    """None if the call fits the function's parameters, otherwise what is wrong; skip: parameters bound already."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if len(pos) < skip and not a.vararg:
        return "the function takes no object"
    only = len(a.posonlyargs)
    bound, rest = pos[:skip], pos[skip:]
    n = len(call.args)
    if n > len(rest) and not a.vararg:
        return "%d positional arguments for %d parameters" % (n, len(rest))
    given = set(rest[:n])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given or k.arg in bound and not a.kwarg:
            return "the parameter %s is given twice" % k.arg
        if k.arg in rest and rest.index(k.arg) + skip >= only or k.arg in kwonly:
            given.add(k.arg)
        elif not a.kwarg:
            return "no parameter %s" % k.arg
    need = pos[: len(pos) - len(a.defaults)][skip:]
    for x in need:
        if x not in given:
            return "no value for the parameter %s" % x
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return "no value for the parameter %s" % x.arg
    return None


SAME = {"staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod"}


def candidates(c, name, sup=False):
    """Functions that self.name(...) may call; None: unknown."""
    l = c.line()
    if l is None:
        return None
    r = []
    for x in l[1:] if sup else l:
        if isinstance(x, Cls):
            if name in x.attrs:
                r.append(x.attrs[name])
                break
            if name in x.stored:
                return None
        elif hasattr(x, name):
            return None
    else:
        return None
    if not sup:
        for x in c.family():
            if name in x.attrs:
                r.append(x.attrs[name])
            if name in x.stored:
                return None
    if name in c.stored or name in c.pkg.elsewhere or None in r:
        return None
    return r


@rule("A01")
def defined(A, R):
    pkg = Pkg(A)
    for m in pkg.mods.values():
        every = pkg.every(m.name)
        where = (m.rel,)
        # names of functions that are looked up in the module
        if every is not None:
            lines = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    lines.setdefault(n.id, n.lineno)

            def walk(t):
                for s in t.get_symbols():
                    if s.is_referenced() and s.is_global() and s.get_name() not in every and not (t.get_type() == "module" and s.is_assigned()):
                        R.bad("names of %s" % m.rel, "%s refers to %s, which nothing defines" % (t.get_name(), s.get_name()), where + (lines.get(s.get_name(), 1),))
                for c in t.get_children():
                    walk(c)

            walk(symtable.symtable(m.src, m.rel, "exec"))
            R.ok("names of %s" % m.rel)
        # imports, attributes of modules
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                t = m.resolve(n)
                if t in pkg.mods:
                    have = pkg.every(t)
                    for a in n.names:
                        if a.name != "*" and have is not None:
                            R.check("imports of %s" % m.rel, a.name in have or a.name in pkg.subs.get(t, ()), "%s has no %s" % (t, a.name), where + (n.lineno,))
                elif n.level or t.split(".")[0] == "toffee":
                    R.bad("imports of %s" % m.rel, "there is no module %s" % t, where + (n.lineno,))
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                v = m.names.get(n.value.id)
                if v and v[0] in ("module", "from") and not shadowed(m, n):
                    x = pkg.find(m.name, n.value.id)
                    if x and x[0] == "module" and x[1] in pkg.mods:
                        have = pkg.every(x[1])
                        R.check("attributes of modules in %s" % m.rel, have is None or n.attr in have, "%s has no %s" % (x[1], n.attr), where + (n.lineno,))
                    elif x and x[0] == "module":
                        s = stdlib(x[1])
                        if s is not None:
                            R.check("attributes of modules in %s" % m.rel, hasattr(s, n.attr) or x[1] + "." + n.attr in sys.modules, "%s has no %s" % (x[1], n.attr), where + (n.lineno,))
    for c in sorted(pkg.classes.values(), key=lambda c: (c.mod.name, c.name)):
        have = known_attrs(c)
        dynamic = any(isinstance(x, Cls) and x.dynamic for x in (c.line() or [c]) + c.family())
        name = "%s:%s" % (c.mod.rel, c.name)
        for f in c.methods:
            decs = decorators(f)
            me = first_arg(f)
            if me is None or "staticmethod" in decs:
                continue
            inner = {a.arg for g in ast.walk(f) if g is not f and isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for a in g.args.args}
            if me in inner:
                continue
            calls = {id(n.func): n for n in ast.walk(f) if isinstance(n, ast.Call)}
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and have is not None:
                    k = mangled(c.name, n.attr)
                    if dynamic and not k.startswith("_" + c.name.lstrip("_") + "__"):
                        continue
                    if "classmethod" in decs or me != "self":
                        continue
                    R.check("attributes of %s" % name, k in have, "%s reads self.%s, which nothing assigns" % (f.name, n.attr), (c.mod.rel, n.lineno))
        for f in c.methods:
            decs = decorators(f)
            me = None if "staticmethod" in decs else first_arg(f)
            for n in ast.walk(f):
                if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                    continue
                k = mangled(c.name, n.func.attr)
                v = n.func.value
                sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and not v.args
                if not sup and not (isinstance(v, ast.Name) and v.id == me and me in ("self", "cls")):
                    continue
                cs = candidates(c, k, sup)
                if not cs:
                    continue
                bad = []
                for g in cs:
                    ds = set(decorators(g))
                    if not ds <= SAME:
                        bad = [None]
                        break
                    skip = 0 if "staticmethod" in ds else 1
                    if me == "cls" and not ds & {"staticmethod", "classmethod"}:
                        skip = 0
                    bad.append(fits(n, g, skip))
                if None in bad:
                    R.ok("calls in %s" % name)
                else:
                    R.bad("calls in %s" % name, "the call %s does not fit: %s" % (ast.unparse(n)[:80], bad[0]), (c.mod.rel, n.lineno))
    # private attributes of other objects
    byname = {}
    for c in pkg.classes.values():
        byname.setdefault(c.name.lstrip("_"), []).append(c)

    def private(n, inside, m):
        for x in ast.iter_child_nodes(n):
            private(x, x.name if isinstance(x, ast.ClassDef) else inside, m)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            k = mangled(inside, n.attr) if inside else n.attr
            if k.startswith("_") and "__" in k[1:] and not k.endswith("__"):
                cs = byname.get(k[1:].split("__")[0].lstrip("_"), [])
                if cs:
                    ok = any(k in c.attrs or k in c.stored or k in c.guarded for c in cs) or k in pkg.elsewhere
                    R.check("private attributes used in %s" % m.rel, ok, "%s is not an attribute of %s" % (n.attr, cs[0].name), (m.rel, n.lineno))

    for m in pkg.mods.values():
        private(m.tree, None, m)
    # calls of functions and classes by name
    for m in pkg.mods.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name) or n.func.id not in set(m.names) | {x for s in m.stars for x in (pkg.exported(s) or ())}:
                continue
            if shadowed(m, n.func):
                continue
            x = pkg.find(m.name, n.func.id)
            if not x or x[0] not in ("class", "func"):
                continue
            if x[0] == "func":
                if decorators(x[1]):
                    continue
                bad = fits(n, x[1], 0)
            else:
                l = x[1].line()
                if l is None or any(isinstance(k, Cls) and (k.meta() is not None or "__new__" in k.attrs) for k in l) or x[1].node.decorator_list:
                    continue
                g = next((k.attrs["__init__"] if isinstance(k, Cls) else "ext" for k in l if not isinstance(k, Cls) or "__init__" in k.attrs), None)
                if not isinstance(g, ast.FunctionDef):
                    continue
                bad = fits(n, g, 1)
            R.check("calls by name in %s" % m.rel, bad is None, "the call %s does not fit: %s" % (ast.unparse(n)[:80], bad), (m.rel, n.lineno))


def shadowed(m, n):
    """The name is local to some function around."""
    name = n.value.id if isinstance(n, ast.Attribute) else n.id
    if not hasattr(m, "locals_"):
        m.locals_ = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = f.args
                names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                names |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                names |= {x.name for x in ast.walk(f) if x is not f and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
                names |= {(x.asname or x.name).split(".")[0] for x in ast.walk(f) if isinstance(x, ast.alias)}
                for x in ast.walk(f):
                    m.locals_.setdefault(id(x), set()).update(names)
            if isinstance(f, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                names = {x.id for g in f.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for x in ast.walk(f):
                    m.locals_.setdefault(id(x), set()).update(names)
    return name in m.locals_.get(id(n), ())
