"""The standard library in client programs, where all that matters is known."""

from . import lazy, misuse
from .state import *
from .terms import *

STUBS = {"functools.reduce": "reduce", "copy.deepcopy": "deepcopy", "max": "maximum", "min": "minimum", "types.SimpleNamespace": "namespace",
         "collections.ChainMap": "ChainMap", "contextlib.ExitStack": "ExitStack", "inspect.getmembers": "getmembers", "bisect.insort": "insort_right", "bisect.bisect": "bisect_right"}
for _m, _ns in (
    ("itertools", "islice product accumulate takewhile dropwhile filterfalse starmap compress pairwise zip_longest groupby combinations permutations tee"),
    ("heapq", "heappush heappop heapify heappushpop nsmallest nlargest"),
    ("bisect", "bisect_left bisect_right insort_left insort_right"),
    ("operator", "itemgetter attrgetter methodcaller"),
):
    for _n in _ns.split():
        STUBS[_m + "." + _n] = _n
OPERATORS = {
    "add": "+", "sub": "-", "mul": "*", "floordiv": "//", "truediv": "/", "mod": "%", "and_": "&", "or_": "|", "xor": "^", "lshift": "<<", "rshift": ">>",
    "pow": "**", "concat": "+", "iadd": "+", "ior": "|", "iand": "&", "ixor": "^",
}
EMPTY = {"int": 0, "float": 0.0, "str": "", "bool": False}
COMPARISONS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "is_": "is", "is_not": "is not"}


def plain(I, st, v, depth=3):
    """Numbers and strings, and tuples of them."""
    if v.op == "const":
        return True
    return v.op == "tuple" and depth > 0 and all(plain(I, st, x, depth - 1) for x in v.a)


def members(st, v):
    """Known members of a container, or None."""
    if v.op == "tuple":
        return list(v.a)
    if v.op == "const" and isinstance(cval(v), str):
        return [const(c) for c in cval(v)]
    if v.op == "ref" and st.obj(v).kind in ("list", "set", "gen") and all(x.op == "one" for x in st.obj(v).data):
        return [x.a[0] for x in st.obj(v).data]
    if v.op == "ref" and st.obj(v).kind == "dict" and all(x.op == "kv" for x in st.obj(v).data):
        return [x.a[0] for x in st.obj(v).data]
    if v.op in ("keys", "values", "items") and v.a[0].op == "ref" and st.obj(v.a[0]).kind == "dict" and all(x.op == "kv" for x in st.obj(v.a[0]).data):
        return [{"keys": x.a[0], "values": x.a[1], "items": tup(x.a[0], x.a[1])}[v.op] for x in st.obj(v.a[0]).data]
    return None


def call(I, st, f, n, args, kw):
    """Outcomes of a call, or None."""
    std = getattr(I, "modules", {}).get("_std")
    if std is None or any(a.op == "star" for a in args) or any(k is None for k, _ in kw):
        return None
    if n in ("max", "min"):
        kwd = dict(kw)
        ms = members(st, args[0]) if len(args) == 1 else args
        if ms is None or not ("key" in kwd and kwd["key"] is not NONE or not ms or all(plain(I, st, x) for x in ms)):
            return None
    elif n in ("functools.reduce",) and not (len(args) > 1 and members(st, args[1]) is not None):
        return None
    elif n == "copy.deepcopy" and not (len(args) == 1 and copyable(st, args[0])):
        return None
    elif n.startswith(("itertools.", "heapq.", "bisect.")) and n in STUBS:
        if any(members(st, a) is None for a in args if a.op not in ("const",) and not (a.op == "ref" and st.obj(a).kind in ("func", "lazy")) and a.op not in ("bound", "ext", "fn") and n.startswith("itertools.")):
            return None
    if n == "itertools.repeat" and len(args) == 2:
        return I.call(st, st.obj(std).attrs["repeat"], args, kw)
    if n == "collections.Counter" and len(args) <= 1:
        r = []
        for s, d in I.call(st, st.obj(std).attrs["count"], args or [tup()], kw):
            if s.exc is None:
                s.own(d).attrs["__factory"] = ext("int")
            r.append((s, d))
        return r
    if n in STUBS:
        return I.call(st, st.obj(std).attrs[STUBS[n]], args, kw)
    if n.startswith("operator.") and not kw:
        o = n[9:].strip("_") if n[9:].startswith("__") else n[9:]
        if len(args) == 2:
            if o in OPERATORS:
                return I.binop(st, OPERATORS[o], *args)
            if o in COMPARISONS:
                return I.compare(st, COMPARISONS[o], *args)
            if o == "contains":
                return I.contains(st, args[1], args[0], False)
            if o == "getitem":
                return I.getitem(st, *args)
        if len(args) == 3 and o == "setitem":
            return [(s, NONE) for s in I.setitem(st, *args)]
        if len(args) == 1 and o in ("not_", "truth"):
            return [(s, const(b == (o == "truth")) if s.exc is None else None) for s, b in I.truth(st, args[0])]
    if n == "collections.namedtuple" and len(args) == 2 and args[0].op == "const" and not kw:
        import ast

        names = cval(args[1]).replace(",", " ").split() if args[1].op == "const" and isinstance(cval(args[1]), str) else None
        if names is None:
            ms = members(st, args[1])
            if ms is None or any(x.op != "const" for x in ms):
                return None
            names = [cval(x) for x in ms]
        node = ast.parse("class %s(NamedTuple):\n" % cval(args[0]) + "".join("    %s: object\n" % x for x in names) + "    pass").body[0]
        fr = I.new_ref(st, Obj("frame", {}, (None, None, std)))
        return I.make_class(node, [ext("typing.NamedTuple")], st, fr)
    if n == "object" and not args:
        return I.call(st, st.obj(std).attrs["Plain"], [], [])
    if n in EMPTY and not args and not kw:
        return [(st, const(EMPTY[n]))]
    if n == "sum" and args:
        ms = members(st, args[0])
        start = args[1] if len(args) > 1 else dict(kw).get("start")
        if ms is not None and (start is not None and start.op == "ref" or any(x.op == "ref" for x in ms)):
            return I.call(st, st.obj(std).attrs["total"], [args[0], start or const(0)], [])
    if n == "callable" and len(args) == 1 and args[0].op == "ref" and st.obj(args[0]).kind == "inst" and I.class_attr(st, st.obj(args[0]).data, "__call__") is None and misuse.own_instance(I, st, args[0]) is not None:
        return [(st, FALSE)]
    if n == "inspect.isfunction" and len(args) == 1 and (args[0].op in ("const", "tuple", "bound", "ext") or args[0].op == "ref" and st.obj(args[0]).kind != "module"):
        return [(st, const(args[0].op == "ref" and st.obj(args[0]).kind == "func"))]
    if n == "inspect.ismethod" and len(args) == 1 and (args[0].op in ("const", "tuple", "bound", "ext") or args[0].op == "ref"):
        return [(st, const(args[0].op == "bound" and args[0].a[0].op == "ref"))]
    if n == "inspect.isclass" and len(args) == 1 and (args[0].op in ("const", "tuple", "bound") or args[0].op == "ref"):
        return [(st, const(args[0].op == "ref" and st.obj(args[0]).kind == "class"))]
    if n == "divmod" and len(args) == 2 and all(a.op == "const" for a in args):
        try:
            return [(st, tup(*[const(x) for x in divmod(cval(args[0]), cval(args[1]))]))]
        except Exception as e:
            I.raise_ext(st, type(e).__name__)
            return [(st, None)]
    if n == "int" and len(args) == 2 and all(a.op == "const" for a in args):
        try:
            return [(st, const(int(cval(args[0]), cval(args[1]))))]
        except Exception as e:
            I.raise_ext(st, type(e).__name__, args[0])
            return [(st, None)]
    if n == "repr" and len(args) == 1 and args[0].op == "const":
        return [(st, const(repr(cval(args[0]))))]
    if n in ("str", "repr") and len(args) == 1:
        if args[0].op == "exc" and n == "str" and len(args[0].a[1]) == 1 and (args[0].a[0].op == "ext" and args[0].a[0].a[0] != "KeyError" or args[0].a[0].op == "ref" and I.class_attr(st, args[0].a[0], "__str__") is None):
            return I.call(st, f, [args[0].a[1][0]], [])
        if args[0].op == "ref" and st.obj(args[0]).kind == "inst":
            m = I.class_attr(st, st.obj(args[0]).data, "__%s__" % n) or I.class_attr(st, st.obj(args[0]).data, "__repr__")
            if m is not None and m.op == "ref":
                return I.call(st, mk("bound", m, args[0]), [], [])
    return None


def copyable(st, v, depth=4):
    if v.op in ("const", "tuple") and v.op == "const":
        return True
    ms = members(st, v) if v.op == "tuple" or v.op == "ref" and st.obj(v).kind in ("list", "set", "dict") else None
    if v.op == "ref" and st.obj(v).kind == "dict" and ms is not None:
        ms = ms + [x.a[1] for x in st.obj(v).data]
    return depth > 0 and ms is not None and all(copyable(st, x, depth - 1) for x in ms)


def distinct(I, st, vs):
    """Without those that are equal to an earlier one."""
    out = []
    for v in vs:
        if not any(x is v or I.eq_cond(st, x, v) is True for x in out):
            out.append(v)
    return out


def set_op(I, st, op, x, y):
    """Result of a set operation if every comparison is decided; None otherwise."""
    xs, ys = members(st, x), members(st, y)
    if xs is None or ys is None:
        return None
    xs, ys = distinct(I, st, xs), distinct(I, st, ys)
    eq = {}
    for a in xs:
        for b in ys:
            c = True if a is b else I.eq_cond(st, a, b)
            if c is not True and c is not False:
                return None
            eq[a, b] = c
    inx = lambda b: any(eq[a, b] for a in xs)
    iny = lambda a: any(eq[a, b] for b in ys)
    if op == "|":
        r = xs + [b for b in ys if not inx(b)]
    elif op == "&":
        r = [a for a in xs if iny(a)]
    elif op == "-":
        r = [a for a in xs if not iny(a)]
    elif op == "^":
        r = [a for a in xs if not iny(a)] + [b for b in ys if not inx(b)]
    elif op == "<=":
        return const(all(iny(a) for a in xs))
    elif op == ">=":
        return const(all(inx(b) for b in ys))
    elif op == "<":
        return const(all(iny(a) for a in xs) and len(xs) < len(ys))
    elif op == ">":
        return const(all(inx(b) for b in ys) and len(ys) < len(xs))
    elif op == "disjoint":
        return const(not any(iny(a) for a in xs))
    elif op == "==":
        return const(all(iny(a) for a in xs) and len(xs) == len(ys))
    return marked(I, st, I.new_list(st, [one(v) for v in r], "set"))


def marked(I, st, s):
    """A set all of whose members are known to differ."""
    st.own(s).attrs["__distinct"] = TRUE
    return s


SET_METHODS = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^", "issubset": "<=", "issuperset": ">=", "isdisjoint": "disjoint"}
SET_UPDATES = {"intersection_update": "&", "difference_update": "-", "symmetric_difference_update": "^"}


def set_method(I, st, b, m, args):
    """Outcomes, or None."""
    if m in SET_METHODS or m in SET_UPDATES:
        cur = [st]
        for s in cur:
            if any(lazy.is_lazy(s, a) for a in args):
                return [z for s2 in lazy.force_all(I, s, args) for z in ([(s2, None)] if s2.exc is not None else set_method(I, s2, b, m, args) or [(s2, None)])]
        v = b
        if not args:
            v = I.new_list(st, st.obj(b).data, "set")
        for a in args:
            v = set_op(I, st, SET_METHODS.get(m) or SET_UPDATES[m], v, a)
            if v is None:
                return None
        if m in SET_UPDATES:
            st.own(b).data = st.obj(v).data
            st.emit("update", (b, I.snap(st, v)), I.loc)
            return [(st, NONE)]
        return [(st, v)]
    if m == "pop" and not args and len(st.obj(b).data) == 1 and st.obj(b).data[0].op == "one":
        v = st.obj(b).data[0].a[0]
        st.own(b).data = ()
        st.emit("remove", (b, v), I.loc)
        return [(st, v)]
    if m == "remove" and len(args) == 1:
        left, hit = [], False
        for g in st.obj(b).data:
            c = I.eq_cond(st, g.a[0], args[0]) if g.op == "one" else None
            if c is True:
                hit = True
            elif c is False:
                left.append(g)
            else:
                return None
        if not hit:
            I.raise_ext(st, "KeyError", args[0])
            return [(st, None)]
        st.own(b).data = tuple(left)
        st.emit("remove", (b, args[0]), I.loc)
        return [(st, NONE)]
    return None


def less(I, st, x, y):
    """x < y of two tuples or lists: True, False or None."""
    xs, ys = members(st, x), members(st, y)
    if xs is None or ys is None:
        return None
    for a, b in zip(xs, ys):
        c = True if a is b else I.eq_cond(st, a, b)
        if c is True:
            continue
        if c is not False:
            return None
        if a.op == b.op == "const":
            try:
                return cval(a) < cval(b)
            except TypeError:
                return None
        if a.op == b.op == "tuple":
            return less(I, st, a, b)
        return None
    return len(xs) < len(ys)


REFLECTED = {"<": "__gt__", ">": "__lt__", "<=": "__ge__", ">=": "__le__"}
DUNDER = {"<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}
ARITH = {"+": "add", "-": "sub", "*": "mul", "//": "floordiv", "/": "truediv", "%": "mod", "|": "or", "&": "and", "^": "xor", "<<": "lshift", ">>": "rshift", "**": "pow", "@": "matmul"}


def method(I, st, v, n):
    if v.op == "ref" and st.obj(v).kind == "inst":
        f = I.class_attr(st, st.obj(v).data, n)
        if f is not None and f.op == "ref":
            return mk("bound", f, v)
    return None


DATACLASS_INIT = "def __init__(self%s):\n%s    pass\n"


def dataclass_body(I, node):
    """Methods of a dataclass, from the fields of its class statement: [(name, default or None, factory or None)]."""
    import ast

    fields = []
    for b in node.body:
        if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and "ClassVar" not in ast.dump(b.annotation):
            v = b.value
            if isinstance(v, ast.Call) and (getattr(v.func, "id", None) == "field" or getattr(v.func, "attr", None) == "field"):
                k = {x.arg: x.value for x in v.keywords}
                fields.append((b.target.id, k.get("default"), k.get("default_factory"), k.get("init")))
            else:
                fields.append((b.target.id, v, None, None))
    return fields
