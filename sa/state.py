"""Abstract states: heap, stores on symbolic objects, path facts, effects."""

from .terms import *


class Obj(object):
    __slots__ = ("kind", "attrs", "data", "extra")

    def __init__(self, kind, attrs=None, data=None, extra=None):
        self.kind = kind
        self.attrs = {} if attrs is None else attrs
        self.data = data
        self.extra = extra

    def clone(self):
        return Obj(self.kind, dict(self.attrs), self.data, self.extra)


NOVAL = object()
INF = float("inf")


class PNode(object):
    """One decision of a path, linked to the previous one."""

    __slots__ = ("prev", "atom", "val", "facts", "iv", "depth")

    def __init__(self, prev, atom, val, facts, iv):
        self.prev, self.atom, self.val, self.facts, self.iv = prev, atom, val, facts, iv
        self.depth = prev.depth + 1 if prev else 1


class Eff(object):
    """An effect; kind and payload by position."""

    __slots__ = ("kind", "a", "loc", "path", "st")

    def __init__(self, kind, a, loc, path=None):
        self.kind = kind
        self.a = a
        self.loc = loc
        self.path = path

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, show(self.a), self.loc)


class Alt(object):
    """One way through a loop body."""

    __slots__ = ("conds", "effects", "kind", "updates", "st")

    def __init__(self, conds, effects, kind, updates=None, st=None):
        self.conds, self.effects, self.kind = conds, effects, kind
        self.updates = updates or {}
        self.st = st

    def __repr__(self):
        return "Alt(%s: %s => %s)" % (
            self.kind,
            " & ".join(("" if v else "not ") + show(a) for a, v in self.conds),
            self.effects,
        )


class State(object):
    __slots__ = (
        "base",
        "heap",
        "over",
        "facts",
        "iv",
        "path",
        "eff",
        "ep",
        "cnt",
        "exc",
        "types",
        "cur_exc",
        "mon",
        "pend",
    )

    def __init__(self, base):
        self.mon = None
        self.pend = ()
        self.base = base
        self.heap = {}
        self.over = {}
        self.facts = {}
        self.iv = {}
        self.path = None
        self.eff = None
        self.ep = 0
        self.cnt = {}
        self.exc = None
        self.types = {}
        self.cur_exc = None

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.facts = self.facts
        s.iv = self.iv
        s.path = self.path
        s.eff = self.eff
        s.ep = self.ep
        s.cnt = dict(self.cnt)
        s.exc = self.exc
        s.types = dict(self.types)
        s.cur_exc = self.cur_exc
        s.mon = self.mon
        s.pend = self.pend
        return s

    # ------------------------------------------------------------- heap

    def obj(self, r):
        i = r.a[0]
        o = self.heap.get(i)
        if o is None:
            o = self.base.get(i)
        return o

    def own(self, r):
        """A private copy of the object, to be modified in this state only."""
        o = self.obj(r).clone()
        self.heap[r.a[0]] = o
        return o

    def kind(self, v):
        if v.op == "ref":
            return self.obj(v).kind
        return None

    # ---------------------------------------------------------- effects

    def emit(self, kind, a, loc):
        self.eff = (self.eff, Eff(kind, a, loc, self.path))
        if self.mon is not None and kind not in ("foreach", "loop", "new"):
            self.mon = self.base.monitor.eff(self.mon, kind, a, loc, self)

    def effects(self, until=None):
        out = []
        e = self.eff
        while e is not None and e is not until:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    # ------------------------------------------------------------ facts

    def decisions(self, until=None):
        out = []
        p = self.path
        while p is not None and p is not until:
            out.append((p.atom, p.val))
            p = p.prev
        out.reverse()
        return out

    def known(self, c):
        """Truth of condition c = ('T'|'F') | (atom, positive) under the facts."""
        if c is True or c is False:
            return c
        atom, pos = c
        r = self.known_atom(atom)
        if r is None:
            return None
        return r if pos else not r

    def known_atom(self, atom):
        v = self.facts.get(atom)
        if v is not None:
            return v
        o = atom.op
        if o in ("le", "eqc"):
            lo, hi, ne = self.iv.get(atom.a[0], (-INF, INF, frozenset()))
            c = atom.a[1]
            if o == "le":
                if hi <= c:
                    return True
                if lo > c:
                    return False
            else:
                if lo == hi == c:
                    return True
                if c < lo or c > hi or c in ne:
                    return False
            return self._lin_deduce(atom)
        if o == "truth":
            x = atom.a[0]
            if self.facts.get(mk("is", x, NONE)):
                return False
            if x in self.types:
                return True
            v = self._int_const(x)
            if v is not None:
                return v != 0
        elif o == "is":
            x, y = atom.a
            if y is NONE:
                if self.facts.get(mk("truth", x)):
                    return False
                if x in self.types:
                    return False
                if self.facts.get(mk("is", x, TRUE)) or self.facts.get(mk("is", x, FALSE)):
                    return False
                for f, fv in self.facts.items():
                    if fv and f.op == "eq" and f.a[0] is x and f.a[1].op == "const":
                        return False
                    if fv and f.op == "isinst" and f.a[0] is x:
                        return False
                    if fv and f.op == "has" and f.a[0] is x and not hasattr(None, str(f.a[1])):
                        return False
                if self._int_const(x) is not None:
                    return False
        elif o == "eq":
            x, y = atom.a
            if y.op == "const":
                for f, fv in self.facts.items():
                    if fv and f.op == "eq" and f.a[0] is x and f.a[1] is not y and f.a[1].op == "const":
                        return False
                if self.facts.get(mk("is", x, NONE)):
                    return False
                if self.facts.get(mk("truth", x)) is False and y.a[1]:
                    return False
                if self.facts.get(mk("truth", x)) is True and not y.a[1]:
                    return False
        elif o == "isinst":
            x, c = atom.a
            if self.facts.get(mk("is", x, NONE)):
                return False
            return self.isinst_known(x, c)
        elif o == "exists":
            return self._exists_known(atom)
        elif o == "has":
            x = atom.a[0]
            if self.facts.get(mk("is", x, NONE)) and not hasattr(None, str(atom.a[1])):
                return False
        return None

    def _int_const(self, x):
        for vp, (lo, hi, ne) in self.iv.items():
            if lo == hi and len(vp.a[0]) == 1 and vp.a[0][0] == (x, 1):
                return lo
        return None

    def _lin_deduce(self, atom):
        """Bound an unseen linear form by the sum of two known ones."""
        vp, c = atom.a
        d = dict(vp.a[0])
        if len(d) < 1:
            return None
        lo, hi = self.bounds(d)
        if atom.op == "le":
            if hi <= c:
                return True
            if lo > c:
                return False
        else:
            if lo == hi == c:
                return True
            if c < lo or c > hi:
                return False
        return None

    def bounds(self, d):
        """Bounds of a linear form from single-term bounds and pairs."""
        lo, hi = self._term_bounds(d)
        for vp, (l1, h1, _) in self.iv.items():
            d1 = dict(vp.a[0])
            for s in (1, -1):
                rest = dict(d)
                for k, co in d1.items():
                    rest[k] = rest.get(k, 0) - s * co
                    if rest[k] == 0:
                        del rest[k]
                if len(rest) >= len(d) and rest:
                    continue
                if rest:
                    l2, h2 = self._term_bounds(rest, True)
                else:
                    l2 = h2 = 0
                ll, hh = (l1, h1) if s == 1 else (-h1, -l1)
                lo = max(lo, ll + l2)
                hi = min(hi, hh + h2)
        return lo, hi

    def _term_bounds(self, d, form=False):
        if form and len(d) > 1:
            key = mk("lin", canon_lin(d)[0])
            sign = canon_lin(d)[1]
            lo, hi, _ = self.iv.get(key, (-INF, INF, None))
            if sign < 0:
                lo, hi = -hi, -lo
            return lo, hi
        lo = hi = 0
        for k, co in d.items():
            l, h, _ = self.iv.get(mk("lin", ((k, 1),)), (-INF, INF, None))
            if nonneg(k):
                l = max(l, 0)
            if co < 0:
                l, h = h * co, l * co
            else:
                l, h = l * co, h * co
            lo += l
            hi += h
        return lo, hi

    def isinst_known(self, x, c):
        sub = self.base.subclass
        t = self.types.get(x)
        if t is not None:
            r = sub(t, c)
            if r:
                return True
            if r is False:
                return False
        for f, v in self.facts.items():
            if f.op == "isinst" and f.a[0] is x:
                if v and sub(f.a[1], c):
                    return True
                if not v and sub(c, f.a[1]):
                    return False
                if v and self.base.disjoint(f.a[1], c):
                    return False
        return None

    def _exists_known(self, atom):
        src, dnf = atom.a
        for f, v in self.facts.items():
            if f.op == "exists" and f.a[0] is src:
                if v and bf_implies(f.a[1], dnf):
                    return True
                if not v and bf_implies(dnf, f.a[1]):
                    return False
        if self.facts.get(mk("truth", src)) is False:
            return False
        return None

    def assume(self, c, val=True):
        """Add the fact; False if it contradicts what is known."""
        if c is True or c is False:
            return c == val
        atom, pos = c
        v = val if pos else not val
        k = self.known_atom(atom)
        if k is not None:
            return k == v
        self.path = PNode(self.path, atom, v, self.facts, self.iv)
        if self.mon is not None:
            self.mon = self.base.monitor.dec(self.mon, (atom, True), v, self)
        o = atom.op
        if o in ("le", "eqc"):
            vp, cc = atom.a
            lo, hi, ne = self.iv.get(vp, (-INF, INF, frozenset()))
            if o == "le":
                if v:
                    hi = min(hi, cc)
                else:
                    lo = max(lo, cc + 1)
            elif v:
                lo = hi = cc
            else:
                ne = ne | {cc}
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            self.iv = dict(self.iv)
            self.iv[vp] = (lo, hi, ne)
        else:
            self.facts = dict(self.facts)
            self.facts[atom] = v
            if o == "exists" and v and mk("truth", atom.a[0]) not in self.facts:
                self.facts[mk("truth", atom.a[0])] = True
            if o == "isinst" and v and atom.a[1].op == "ref":
                t = self.types.get(atom.a[0])
                if t is None or self.base.subclass(atom.a[1], t):
                    self.types[atom.a[0]] = atom.a[1]
        return True


def nonneg(t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("len",):
        return True
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "qsize":
        return True
    return t.op in ("idx", "count")


def canon_lin(d):
    items = sorted(d.items(), key=lambda kc: okey(kc[0]))
    s = 1
    if items and items[0][1] < 0:
        s = -1
        items = [(k, -c) for k, c in items]
    return tuple(items), s


def is_len(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "len" and len(t.a[1]) == 1


def lin_cond(op, x, y):
    """Condition for x op y over integers: True/False/(atom, positive) or None."""
    lx, ly = linear(x), linear(y)
    if lx is None or ly is None:
        return None
    d = dict(lx[0])
    for k, c in ly[0].items():
        d[k] = d.get(k, 0) - c
        if d[k] == 0:
            del d[k]
    c = lx[1] - ly[1]  # d + c op 0
    if not d:
        return {
            "==": c == 0,
            "!=": c != 0,
            "<": c < 0,
            "<=": c <= 0,
            ">": c > 0,
            ">=": c >= 0,
        }[op]
    key, s = canon_lin(d)
    vp = mk("lin", key)
    # form f (canonical) with d = s*f ; d op -c
    r = -c
    if op in ("==", "!="):
        v = r * s
        if isinstance(v, int) and len(key) == 1 and key[0][1] == 1 and v == 0 and is_len(key[0][0]):
            return (mk("truth", key[0][0].a[1][0]), op == "!=")
        return (mk("eqc", vp, v), op == "==")
    if op == "<":
        b, neg = r - 1, False
        op2 = "<="
    elif op == "<=":
        b, op2 = r, "<="
    elif op == ">":
        b, op2 = r + 1, ">="
    else:
        b, op2 = r, ">="
    if s < 0:
        b = -b
        op2 = ">=" if op2 == "<=" else "<="
    # f op2 b
    if op2 == "<=":
        res = (vp, b, True)
    else:
        res = (vp, b - 1, False)  # f >= b  <=> not f <= b-1
    vp, b, pos = res
    if len(key) == 1 and key[0][1] == 1 and is_len(key[0][0]):
        if b == 0:
            return (mk("truth", key[0][0].a[1][0]), not pos)
        if b < 0:
            return not pos
    return (mk("le", vp, b), pos)


def neg(c):
    if c is True or c is False:
        return not c
    return (c[0], not c[1])


# ----------------------------------------------- boolean functions of atoms
#
# ("bf", atoms, minterms): atoms sorted, minterms a frozenset of bool tuples.


def bf_make(conjs):
    """Canonical boolean function of a list of conjunctions [(atom, bool), ...]."""
    atoms = sorted({a for c in conjs for a, _ in c}, key=okey)
    if len(atoms) > 9:
        return mk("bfx", tuple(sorted((tuple(sorted(((a, v) for a, v in c), key=lambda z: okey(z[0]))) for c in conjs), key=lambda c: tuple((okey(a), v) for a, v in c))))
    terms = set()
    idx = {a: i for i, a in enumerate(atoms)}
    n = len(atoms)
    for m in range(1 << n):
        val = tuple(bool(m >> i & 1) for i in range(n))
        for c in conjs:
            if all(val[idx[a]] == v for a, v in c):
                terms.add(val)
                break
    # drop irrelevant atoms
    i = 0
    while i < len(atoms):
        red = set()
        ok = True
        for t in terms:
            f = t[:i] + (not t[i],) + t[i + 1 :]
            if f not in terms:
                ok = False
                break
        if ok:
            terms = {t[:i] + t[i + 1 :] for t in terms}
            atoms.pop(i)
        else:
            i += 1
    return mk("bf", tuple(atoms), tuple(sorted(terms)))


BF_TRUE = bf_make([[]])
BF_FALSE = bf_make([])


def bf_implies(x, y):
    if x is y:
        return True
    if x is BF_FALSE or y is BF_TRUE:
        return True
    if x.op != "bf" or y.op != "bf":
        return False
    atoms = sorted(set(x.a[0]) | set(y.a[0]), key=okey)
    if len(atoms) > 10:
        return False
    for m in range(1 << len(atoms)):
        val = {a: bool(m >> i & 1) for i, a in enumerate(atoms)}
        if tuple(val[a] for a in x.a[0]) in x.a[1] and tuple(val[a] for a in y.a[0]) not in y.a[1]:
            return False
    return True


def merge_outcomes(outs):
    """Join outcomes that differ only in the last decision, both ways of it taken."""
    if len(outs) < 2:
        return outs
    changed = True
    while changed:
        changed = False
        seen = {}
        res = []
        cheap = {}
        for o in outs:
            p = o[0].path
            if p is not None:
                k = (id(p.prev), p.atom)
                cheap[k] = cheap.get(k, 0) | (2 if p.val else 1)
        if not any(v == 3 for v in cheap.values()):
            return outs
        for o in outs:
            st = o[0]
            p = st.path
            if p is None or cheap[(id(p.prev), p.atom)] != 3:
                res.append(o)
                continue
            key = (
                o[1:],
                id(p.prev),
                p.atom,
                id(st.eff) if st.eff else None,
                st.ep,
                st.exc,
                tuple(sorted((k, id(v)) for k, v in st.heap.items())),
                frozenset(st.over.items()),
                st.cur_exc,
                st.mon,
                st.pend,
            )
            q = seen.get(key)
            if q is not None and q[1][0].path.val != p.val:
                s = q[1][0]
                n = s.copy()
                n.path, n.facts, n.iv = p.prev, p.facts, p.iv
                n.types = {k: v for k, v in s.types.items() if st.types.get(k) is v}
                cnt = dict(s.cnt)
                for k, v in st.cnt.items():
                    cnt[k] = max(v, cnt.get(k, 0))
                n.cnt = cnt
                res[q[0]] = (n,) + tuple(o[1:])
                del seen[key]
                changed = True
            else:
                seen[key] = (len(res), o)
                res.append(o)
        outs = res
    return outs
