"""Reading analysis results: normal forms, flattened effects, comparison with a specification."""

from .state import *
from .terms import *

IMPRECISE = ("lo", "lv", "bfx", "argor", "existsin")


def imprecise(t):
    for s in walk(t):
        if s.op in IMPRECISE:
            return s
    return None


class Freezer(object):
    """Values with the content of the objects they refer to, independent of identities."""

    def __init__(self, st):
        self.st = st
        self.num = {}
        self.count = {}
        self.memo = {}
        self.busy = set()

    def inst(self, r, cls):
        n = self.num.get(r)
        if n is None:
            q = self.st.obj(cls).data["qual"] if cls.op == "ref" else show(cls)
            k = self.count.get(q, 0)
            self.count[q] = k + 1
            n = self.num[r] = mk("inst", q, k)
        return n

    def t(self, v):
        if isinstance(v, tuple):
            return tuple(self.t(x) for x in v)
        if not isinstance(v, T):
            return v
        r = self.memo.get(v)
        if r is not None:
            return r
        r = self._t(v)
        self.memo[v] = r
        return r

    def _t(self, v):
        if v.op == "ref":
            if v in self.busy:
                return mk("cycle")
            o = self.st.heap.get(v.a[0]) or self.st.base.get(v.a[0])
            if o is None:
                return mk("local")
            self.busy.add(v)
            try:
                if o.kind in ("list", "gen", "set"):
                    segs = [self.t(s) for s in o.data]
                    if len(segs) == 1 and segs[0].op == "all":
                        return segs[0].a[0]
                    if o.kind == "set":
                        return mk("setof", tuple(sorted(set(segs), key=okey)))
                    return mk("seq", tuple(segs))
                if o.kind == "dict":
                    segs = [self.t(s) for s in o.data]
                    if len(segs) == 1 and segs[0].op == "merge":
                        return segs[0].a[0]
                    return mk("dictof", tuple(segs))
                if o.kind == "inst":
                    return self.inst(v, o.data)
                if o.kind == "class":
                    return mk("class", o.data["qual"])
                if o.kind == "func":
                    return mk("fn", o.data[0].qual)
                if o.kind == "module":
                    return mk("module", o.data)
                if o.kind == "coro":
                    f, fr, fi, a, k = o.data
                    return mk("coro", fi.qual, self.t(tuple(a)), self.t(tuple(k)))
                if o.kind == "task":
                    return self.t(o.data)
                return mk("obj", o.kind)
            finally:
                self.busy.discard(v)
        if not v.a or v.op in ("const", "ext", "var"):
            return v
        n = norm(v)
        na = self.t(n.a)
        if na != n.a:
            n = rebuild(n.op, na)
        return n


class FE(object):
    """An effect with the collections it is repeated for and the conditions inside."""

    __slots__ = ("bind", "guard", "kind", "a", "loc", "raw", "ended")

    def __init__(self, bind, guard, kind, a, loc, raw):
        self.bind, self.guard, self.kind, self.a, self.loc, self.raw = bind, guard, kind, a, loc, raw

    @property
    def key(self):
        return (self.bind, self.kind, self.a)

    def __repr__(self):
        return "%s%s %s%s" % (
            "".join("∀%s " % show(b) for b in self.bind),
            self.kind,
            show(self.a),
            " if " + " & ".join(("" if v else "not ") + show(a) for a, v in self.guard) if self.guard else "",
        )


def flatten(effs, fz, bind=(), guard=(), spawn=True):
    for e in effs:
        if e.kind in ("foreach", "loop"):
            src = fz.t(e.a[0])
            for alt in e.a[-1]:
                g = guard + tuple((fz.t(a), v) for a, v in alt.conds)
                for x in flatten(alt.effects, fz, bind + (src,), g, spawn):
                    yield x
        elif e.kind == "spawn":
            yield FE(bind, guard, "spawn", (fz.t(e.a[0]),), e.loc, e)
            if spawn:
                for alt in e.a[2]:
                    g = guard + tuple((fz.t(a), v) for a, v in alt.conds)
                    for x in flatten(alt.effects, fz, bind + (mk("intask", fz.t(e.a[0])),), g, spawn):
                        yield x
        else:
            yield FE(bind, guard, e.kind, tuple(fz.t(x) if isinstance(x, (T, tuple)) else x for x in e.a), e.loc, e)


class Obs(object):
    """What one outcome shows to the outside."""

    def __init__(self, o, keep=None, spawn=True):
        self.o = o
        fz = Freezer(o.st)
        self.fz = fz
        self.effects = [x for x in flatten(o.effects, fz, spawn=spawn) if keep is None or keep(x)]
        self.raised = o.raised
        self.exc = fz.t(o.exc) if o.exc is not None else None
        self.ret = fz.t(o.ret) if o.ret is not None else None
        self.div = o.div
        self.conds = [(norm(a), v) for a, v in o.conds]
        self.conds = [(fz.t(a), v) for a, v in self.conds]

    def describe(self):
        return "%s [%s]" % (
            ("raises %s" % self.raised) if self.raised else ("never returns" if self.div else "returns %s" % show(self.ret)),
            "; ".join(map(repr, self.effects)),
        )

    def when(self):
        return " & ".join(("" if v else "not ") + show(a) for a, v in self.conds) or "always"

    def loc(self):
        """The last statement of the package itself on the path."""
        last = None
        for e in reversed(self.effects):
            f = e.loc[0] if e.loc else ""
            if not f or f.startswith("..") or "stubs" in f:
                continue
            if f.startswith("toffee/asynchronous"):
                last = last or e.loc
                continue
            return e.loc
        return last or (self.effects[-1].loc if self.effects else None)


def joint(base, *obs):
    """A state in which the decisions of all the outcomes hold, None if impossible."""
    st = State(base)
    for o in obs:
        for k, v in o.o.st.types.items():
            st.types.setdefault(norm(k), v)
    for o in obs:
        for a, v in o.conds:
            if not st.assume((a, True), v):
                return None
    return st


def bf_in(st, conjs):
    """Boolean function of the conjunctions, with what st knows filled in."""
    out = []
    for c in conjs:
        n = []
        ok = True
        for a, v in c:
            k = st.known_atom(a)
            if k is None:
                n.append((a, v))
            elif k != v:
                ok = False
                break
        if ok:
            out.append(n)
    return bf_make(out)


def effect_map(st, effs):
    """{(binders, kind, payload): condition}"""
    g = {}
    order = []
    for e in effs:
        k = e.key
        if k not in g:
            g[k] = []
            order.append(k)
        g[k].append(list(e.guard))
    m = {}
    for k in order:
        b = bf_in(st, g[k])
        if b is not BF_FALSE:
            m[k] = b
    return m


class Mismatch(object):
    def __init__(self, what, impl, spec, loc=None, undecided=False):
        self.what, self.impl, self.spec, self.undecided = what, impl, spec, undecided
        self.loc = loc or impl.loc()

    def __repr__(self):
        return "%s%s\n    when %s\n    code: %s\n    rule: %s" % (
            "(undecided) " if self.undecided else "",
            self.what,
            self.impl.when()[:600],
            self.impl.describe()[:900],
            self.spec.describe()[:900] if self.spec else "-",
        )


def compare(A, impl, spec, keep=None, order="set", ret=True, exc=True, spawn=True, excs=None):
    """Mismatches between the outcomes of the code and of the rule's reference."""
    pi = [o if isinstance(o, Obs) else Obs(o, keep, spawn) for o in impl]
    ps = [o if isinstance(o, Obs) else Obs(o, keep, spawn) for o in spec]
    bad = []
    n = 0
    for p in pi:
        for q in ps:
            st = joint(A.base, p, q)
            if st is None:
                continue
            n += 1
            m = diff_obs(st, p, q, order, ret, exc, excs)
            if m:
                und = any(imprecise(x) for x in walk_obs(p))
                loc = m[1] if isinstance(m, tuple) else None
                bad.append(Mismatch(m[0] if isinstance(m, tuple) else m, p, q, loc, und))
                break
    return bad, n, pi, ps


def walk_obs(p):
    for a, v in p.conds:
        yield a
    for e in p.effects:
        for x in e.a:
            if isinstance(x, (T, tuple)):
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, T):
                        yield y
        for b in e.bind:
            yield b
        for a, v in e.guard:
            yield a
    if p.ret is not None:
        yield p.ret


def same_value(st, x, y):
    if x is y:
        return True
    if x is None or y is None:
        return False
    if st.known_atom(mk("eq", *sorted((x, y), key=okey))) is True:
        return True
    # a value known to be a constant
    for a, b in ((x, y), (y, x)):
        if b.op == "const":
            if b is NONE and st.known_atom(mk("is", a, NONE)) is True:
                return True
            if isinstance(cval(b), bool) and st.known_atom(mk("truth", a)) is cval(b) and a.op in ("cmp", "not", "quant"):
                return True
            c = lin_cond("==", a, b) if a.op not in ("tuple", "seq", "dictof") else None
            if c is not None and st.known(c) is True:
                return True
            if st.known_atom(mk("eq", a, b)) is True:
                return True
    for a, b in ((x, y), (y, x)):
        if a.op in ("cmp", "not", "quant"):
            c = cond_of(a)
            if c is not None:
                k = st.known(c)
                if k is not None and b.op == "const" and cval(b) is k:
                    return True
                if b.op in ("cmp", "not", "quant") and cond_of(b) == c:
                    return True
    if x.op == y.op == "tuple" and len(x.a) == len(y.a):
        return all(same_value(st, a, b) for a, b in zip(x.a, y.a))
    if x.op == y.op == "one":
        return same_value(st, x.a[0], y.a[0])
    if x.op == y.op == "kv":
        return all(same_value(st, a, b) for a, b in zip(x.a, y.a))
    if x.op == y.op and x.op in ("seq", "dictof") and len(x.a[0]) == len(y.a[0]):
        if x.op == "dictof" and all(s.op == "kv" for s in x.a[0] + y.a[0]):
            rest = list(y.a[0])
            for s in x.a[0]:
                for r in rest:
                    if same_value(st, s, r):
                        rest.remove(r)
                        break
                else:
                    return False
            return True
        return all(same_value(st, a, b) for a, b in zip(x.a[0], y.a[0]))
    if x.op == y.op == "each" and x.a[0] is y.a[0] and x.a[1] is y.a[1]:
        # same alternatives in any order
        def table(s):
            d = {}
            for cs, inner in s.a[3]:
                d.setdefault(inner, []).append(list(cs))
            return {k: bf_in(st, v) for k, v in d.items()}
        tx, ty = table(x), table(y)
        tx.pop((), None)
        ty.pop((), None)
        if tx == ty:
            return True
    return False


def cond_of(v):
    if v.op == "cmp":
        return v.a[3]
    if v.op == "quant":
        return v.a[0]
    if v.op == "not":
        c = cond_of(v.a[0])
        if c is None:
            c = (mk("truth", v.a[0]), True)
        return neg(c)
    return None


def diff_obs(st, p, q, order, ret, exc, excs):
    if p.div != q.div:
        return "one does not return"
    if exc and (p.raised or None) != (q.raised or None):
        if excs is None or not excs(p.raised, q.raised):
            return "ends with %s instead of %s" % (p.raised or "a normal return", q.raised or "a normal return")
    if ret and p.raised is None and q.raised is None and not p.div:
        if not (same_value(st, p.ret, q.ret)):
            return "returns %s instead of %s" % (show(p.ret), show(q.ret))
    mp, mq = effect_map(st, p.effects), effect_map(st, q.effects)
    used = set()
    match = {}
    for k, b in mp.items():
        if k in mq:
            match[k] = k
            used.add(k)
    for k, b in mp.items():
        if k in match:
            continue
        for k2 in mq:
            if k2 in used:
                continue
            if k[0] == k2[0] and k[1] == k2[1] and len(k[2]) == len(k2[2]) and all(
                eq_payload(st, x, y) for x, y in zip(k[2], k2[2])
            ):
                match[k] = k2
                used.add(k2)
                break
    for k, b in mp.items():
        e = next(e for e in p.effects if e.key == k)
        if k not in match:
            return ("unexpected: %r" % e, e.loc)
        b2 = mq[match[k]]
        if b is not b2 and not (bf_implies(b, b2) and bf_implies(b2, b)):
            return ("under another condition: %r (expected %s)" % (e, show(b2)), e.loc)
    for k in mq:
        if k not in used:
            e = next(e for e in q.effects if e.key == k)
            return "missing: %r" % e
    if order == "seq":
        sp = []
        for e in p.effects:
            if e.key in match and match[e.key] not in sp:
                sp.append(match[e.key])
        sq = []
        for e in q.effects:
            if e.key in mq and e.key not in sq:
                sq.append(e.key)
        if sp != sq:
            for x, y in zip(sp, sq):
                if x != y:
                    e = next(e for e in p.effects if match.get(e.key) == x)
                    return ("out of order: %r" % e, e.loc)
    return None


def eq_payload(st, x, y):
    if x == y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        return same_value(st, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(eq_payload(st, a, b) for a, b in zip(x, y))
    return False
