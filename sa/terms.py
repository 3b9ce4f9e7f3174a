"""Hash-consed provenance terms.

A term says where a value comes from (an input, an attribute of it, an element
of a collection, the result of a call, ...).  Terms are compared by identity.
"""


class Unsupported(Exception):
    pass


class TooComplex(Exception):
    pass


class T(object):
    __slots__ = ("op", "a", "n", "__weakref__")

    def __repr__(self):
        return show(self)


_intern = {}
_count = [0]


def mk(op, *a):
    key = (op,) + a
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _count[0] += 1
        t.n = _count[0]
        _intern[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELLIPSIS = const(Ellipsis)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def tup(*items):
    return mk("tuple", *items)


def ref(i):
    return mk("ref", i)


def ext(path):
    return mk("ext", path)


def sym(name):
    return mk("var", name)


def one(v):
    return mk("one", v)


def walk(t, seen=None):
    """All subterms of t (terms nested in tuples included)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


def mentions(t, x):
    for s in walk(t):
        if s is x:
            return True
    return False


def mentions_any(t, xs):
    for s in walk(t):
        if s in xs:
            return True
    return False


def subst(t, m, memo=None):
    """Replace terms by the mapping m, everywhere inside t (tuples included)."""
    if not m:
        return t
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("const", "ref", "ext", "var"):
        r = t
    else:
        na = subst(t.a, m, memo)
        r = rebuild(t.op, na) if na != t.a else t
    memo[t] = r
    return r


_norm = {}


def norm(t):
    """Forget how often the world may have changed before a value was read."""
    if isinstance(t, tuple):
        return tuple(norm(x) for x in t)
    if not isinstance(t, T):
        return t
    r = _norm.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("const", "ref", "ext", "var"):
        r = t
    elif t.op == "attr":
        r = mk("attr", norm(t.a[0]), t.a[1])
    elif t.op == "ver":
        r = norm(t.a[0])
    elif t.op == "while":
        r = mk("while")
    elif t.op == "has" and len(t.a) > 2:
        r = mk("has", norm(t.a[0]), norm(t.a[1]))
    elif t.op == "call" and len(t.a) > 3 and isinstance(t.a[3], tuple):
        r = mk("call", norm(t.a[0]), norm(t.a[1]), norm(t.a[2]), 0)
    else:
        na = norm(t.a)
        r = rebuild(t.op, na) if na != t.a else t
    _norm[t] = r
    return r


_okey = {}


def okey(t):
    """Sort key that does not depend on when a value was read."""
    k = _okey.get(t)
    if k is None:
        k = _okey[t] = (show(norm(t)), t.n)
    return k


def bf_perm(atoms, terms):
    """The same boolean function with sorted, distinct atoms."""
    new = sorted(set(atoms), key=okey)
    if tuple(new) == atoms:
        return mk("bf", atoms, terms)
    pos = {a: i for i, a in enumerate(new)}
    out = set()
    for m in terms:
        v = [None] * len(new)
        ok = True
        for a, b in zip(atoms, m):
            if v[pos[a]] not in (None, b):
                ok = False
            v[pos[a]] = b
        if ok:
            out.add(tuple(v))
    return mk("bf", tuple(new), tuple(sorted(out)))


def rebuild(op, a):
    if op == "bf":
        return bf_perm(*a)
    if op in ("eq", "is") and len(a) == 2:
        x, y = a
        if y.op != "const" and y.op != "enum" and (okey(x) > okey(y) or x.op in ("const", "enum")):
            x, y = y, x
        return mk(op, x, y)
    if op == "bin":
        return mkbin(*a)
    if op == "item":
        return mkitem(*a)
    if op == "fmt":
        return mkfmt(a)
    return mk(op, *a)


# ---------------------------------------------------------------- arithmetic

NUMERIC_OPS = ("+", "-", "*")


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def linear(t):
    """t as (dict term->coeff, const) over the integers, or None."""
    if t.op == "const":
        v = t.a[1]
        if isinstance(v, bool):
            return {}, int(v)
        if isinstance(v, int):
            return {}, v
        return None
    if t.op == "bin":
        o, x, y = t.a
        if o in ("+", "-"):
            lx, ly = linear(x), linear(y)
            if lx is None or ly is None:
                return None
            s = 1 if o == "+" else -1
            d = dict(lx[0])
            for k, c in ly[0].items():
                d[k] = d.get(k, 0) + s * c
                if d[k] == 0:
                    del d[k]
            return d, lx[1] + s * ly[1]
        if o == "*":
            lx, ly = linear(x), linear(y)
            if lx is None or ly is None:
                return None
            if not lx[0]:
                lx, ly = ly, lx
            if not ly[0]:
                return (
                    {k: c * ly[1] for k, c in lx[0].items() if c * ly[1]},
                    lx[1] * ly[1],
                )
    if t.op == "un" and t.a[0] == "-":
        l = linear(t.a[1])
        if l is None:
            return None
        return {k: -c for k, c in l[0].items()}, -l[1]
    if t.op in ("tuple", "fmt", "seq", "ref"):
        return None
    return {t: 1}, 0


def from_linear(d, c):
    items = sorted(d.items(), key=lambda kc: okey(kc[0]))
    r = None
    for k, co in items:
        x = k if co == 1 else (mk("un", "-", k) if co == -1 else mk("bin", "*", k, const(co)))
        if r is None:
            r = x
        elif co == -1:
            r = mk("bin", "-", r, k)
        else:
            r = mk("bin", "+", r, x)
    if r is None:
        return const(c)
    if c:
        r = mk("bin", "+", r, const(c))
    return r


COMMUT = ("&", "|", "^")


def looks_numeric(t):
    if t.op == "const":
        return is_num(t.a[1]) or isinstance(t.a[1], bool)
    if t.op == "bin":
        return t.a[0] in ("-", "*", "/", "//", "**", "<<", ">>", "&", "|", "^") or (
            t.a[0] == "+" and (looks_numeric(t.a[1]) or looks_numeric(t.a[2]))
        )
    if t.op == "idx":
        return True
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("len", "int"):
        return True
    return False


def looks_str(t):
    if t.op == "const":
        return isinstance(t.a[1], str)
    return t.op == "fmt"


def mkbin(o, x, y):
    if x.op == "const" and y.op == "const":
        try:
            a, b = x.a[1], y.a[1]
            r = {
                "+": lambda: a + b,
                "-": lambda: a - b,
                "*": lambda: a * b,
                "/": lambda: a / b,
                "//": lambda: a // b,
                "%": lambda: a % b,
                "**": lambda: a**b,
                "<<": lambda: a << b if b < 4096 else None,
                ">>": lambda: a >> b,
                "&": lambda: a & b,
                "|": lambda: a | b,
                "^": lambda: a ^ b,
            }[o]()
            hash(r)
            if r is not None:
                return const(r)
        except Exception:
            pass
    if o == "+" and (looks_str(x) or looks_str(y)):
        return mkfmt((x, y))
    if o in ("+", "-") and (looks_numeric(x) or looks_numeric(y)):
        lx, ly = linear(x), linear(y)
        if lx is not None and ly is not None:
            l = linear(mk("bin", o, x, y))
            return from_linear(*l)
    if o == "*" and (x.op == "const" or y.op == "const"):
        if x.op == "const":
            x, y = y, x
        if y.op == "const" and y.a[1] == 1 and is_num(y.a[1]):
            return x
    if o in COMMUT and okey(x) > okey(y):
        x, y = y, x
    return mk("bin", o, x, y)


def mkfmt(parts):
    """A string made of parts, constants merged."""
    out = []
    for p in parts:
        if p.op == "fmt":
            seq = p.a
        else:
            seq = (p,)
        for q in seq:
            if q.op == "const" and (q.a[1] is None or isinstance(q.a[1], (str, int))):
                q = const(str(q.a[1]))
                if q.a[1] == "":
                    continue
                if out and out[-1].op == "const" and isinstance(out[-1].a[1], str):
                    out[-1] = const(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    if len(out) == 1 and out[0].op == "fmt":
        return out[0]
    return mk("fmt", *out)


def mkitem(base, key, *rest):
    if key.op == "idx" and key.a[0] is base:
        return mk("elem", base, key.a[1])
    if base.op == "tuple" and key.op == "const" and isinstance(key.a[1], int):
        if -len(base.a) <= key.a[1] < len(base.a):
            return base.a[key.a[1]]
    return mk("item", base, key, *rest)


# ------------------------------------------------------------------- display


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, depth + 1)
    if o == "const":
        return repr(a[1])
    if o == "var":
        return a[0]
    if o == "ext":
        return a[0]
    if o == "ref":
        return "@%s" % a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1]) + ("'%s" % (a[2],) if len(a) > 2 else "")
    if o == "dattr":
        return "getattr(%s, %s)" % (s(a[0]), s(a[1]))
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "elem":
        return "each(%s)" % s(a[0]) + ("#%s" % a[1] if a[1] else "")
    if o == "idx":
        return "index(%s)" % s(a[0])
    if o == "call":
        return "%s(%s)" % (
            s(a[0]),
            ", ".join(
                [s(x) for x in a[1]]
                + ["%s=%s" % (k if isinstance(k, str) else "**", s(v)) for k, v in a[2]]
            ),
        )
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "fmt":
        return "f'%s'" % "".join(
            x.a[1] if x.op == "const" else "{%s}" % s(x) for x in a
        )
    if o == "tuple":
        return "(%s)" % ", ".join(s(x) for x in a)
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "bound":
        return "%s.<%s>" % (s(a[1]), s(a[0]))
    if o == "truth":
        return "bool(%s)" % s(a[0])
    if o == "lin":
        return " + ".join(
            (s(k) if c == 1 else "%s*%s" % (c, s(k))) for k, c in a[0]
        )
    if o == "le":
        return "%s <= %s" % (s(a[0]), a[1])
    if o == "eqc":
        return "%s == %s" % (s(a[0]), a[1])
    if o == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if o == "in":
        return "%s in %s" % (s(a[0]), s(a[1]))
    if o == "is":
        return "%s is %s" % (s(a[0]), s(a[1]))
    if o == "isinst":
        return "isinstance(%s, %s)" % (s(a[0]), s(a[1]))
    if o == "has":
        return "hasattr(%s, %s)" % (s(a[0]), s(a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
