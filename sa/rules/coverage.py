"""Functional coverage: conditions, counts, registration, reports."""

import itertools

from .world import *

# ------------------------------------------------------------------ F01

CONDS = [
    ("CovEq", "Eq", "v", "x == v"), ("CovGt", "Gt", "v", "x > v"), ("CovLt", "Lt", "v", "x < v"), ("CovGe", "Ge", "v", "x >= v"),
    ("CovLe", "Le", "v", "x <= v"), ("CovNe", "Ne", "v", "x != v"), ("CovIn", "In", "[v, w]", "x in [v, w]"), ("CovNotIn", "NotIn", "[v, w]", "x not in [v, w]"),
    ("CovIn", "In", "(v, w, 3)", "x in (v, w, 3)"), ("CovNotIn", "NotIn", "(v, w, 3)", "x not in (v, w, 3)"),
    ("CovIsInRange", "IsInRange", "v, w", "v <= x <= w"),
    ("CovIn", "In", "c", "x in c"), ("CovNotIn", "NotIn", "c", "x not in c"),
]


@rule("F01")
def conditions(A, R):
    for cls, alias, a, want in CONDS:
        for name in (cls, alias):
            for what, target in (("a pin", "p"),):
                code = """
class P:
    pass
async def test(x, v, w, c):
    p = P()
    p.value = x
    cond = %s(%s)
    if %s:
        hook("want", True)
    else:
        hook("want", False)
    if cond(%s):
        hook("got", True)
    else:
        hook("got", False)
    if cond(%s):
        hook("again", True)
    else:
        hook("again", False)
""" % (name, a, want, target, target)

                def judge(r):
                    if any(k.op == "hasattr" and v for k, v in r.conds):
                        return None
                    w, g, h = (r.find(k)[0].args[0] for k in ("want", "got", "again"))
                    if w is not g or h is not g:
                        return "%s(%s) says %s and %s where %s is %s" % (name, a, show(g), show(h), want, show(w))

                scenario(R, "%s(%s) of %s" % (name, a, what), code, "x, v, w, c", judge)
    # the answers are one or the other, and constants fall on their side
    for cls, a, yes, no in (
        ("CovEq", "3", (3,), (2, 4, 0)), ("CovNe", "3", (2, 4, 0), (3,)), ("CovGt", "3", (4, 100), (3, 2, -1)), ("CovLt", "3", (2, -1), (3, 4)),
        ("CovGe", "3", (3, 4), (2, -1)), ("CovLe", "3", (3, 2, -1), (4, 9)), ("CovIn", "[1, 3]", (1, 3), (0, 2, 4)), ("CovNotIn", "[1, 3]", (0, 2, 4), (1, 3)),
        ("CovIsInRange", "2, 4", (2, 3, 4), (1, 5, -3)), ("CovEq", "0", (0,), (1,)), ("CovIn", "[0]", (0,), (1,)), ("CovIsInRange", "0, 0", (0,), (1, -1)), ("CovIsInRange", "4, 2", (), (2, 3, 4)),
        # values of every kind that is compared
        ("CovIsInRange", "1, 2", (1.0, 1.5, 2.0, True), (0.5, 2.5, False)), ("CovIsInRange", "1.5, 2.5", (1.5, 2), (1, 3)), ("CovIsInRange", "-2, -1", (-2, -1, -1.5), (-3, 0, -0.5)),
        ("CovIsInRange", "'b', 'd'", ("b", "c", "cc", "d"), ("a", "da", "")), ("CovIsInRange", "-1, 2 ** 70", (0, 2 ** 70), (-2, 2 ** 70 + 1)),
        ("CovGt", "0.5", (1, 0.6), (0.5, 0, -1)), ("CovGe", "-1", (-1, 0, -0.5), (-2, -1.5)), ("CovLt", "0", (-1, -0.5), (0, 0.5)), ("CovLe", "1.5", (1, 1.5, -7), (2, 1.6)),
        ("CovGt", "'b'", ("c", "ba"), ("b", "a", "")), ("CovLe", "(1, 2)", ((1, 2), (1,), (0, 9)), ((1, 3), (2,))),
        ("CovEq", "'a'", ("a",), ("b", "", "ab")), ("CovEq", "None", (None,), (0, "", False)), ("CovNe", "None", (0, "", False), (None,)), ("CovEq", "(1, 2)", ((1, 2),), ((2, 1), (1,), 1)),
        ("CovEq", "1.5", (1.5,), (1, 2)), ("CovNe", "0", (1, -1, "", None), (0, 0.0)), ("CovEq", "-1", (-1, -1.0), (1, 255)), ("CovEq", "2 ** 70", (2 ** 70,), (0, 2 ** 70 - 1)),
        ("CovIn", "range(2, 9, 3)", (2, 5, 8), (3, 9, 11)), ("CovIn", "'abc'", ("a", "bc", ""), ("ac", "d")), ("CovIn", "{1: 0, 3: 1}", (1, 3), (0, 2)), ("CovIn", "{'a', 2}", ("a", 2), ("b", 1)),
        ("CovIn", "[]", (), (0, None)), ("CovIn", "(None, '')", (None, ""), (0, False)), ("CovIn", "[1.5, -2]", (1.5, -2), (1, 2)), ("CovIn", "[(1, 2)]", ((1, 2),), (1, 2)),
        ("CovNotIn", "range(2, 9, 3)", (3, 9, 11), (2, 5, 8)), ("CovNotIn", "'abc'", ("ac", "d"), ("a", "bc")), ("CovNotIn", "{}", (0, None), ()), ("CovNotIn", "{1: 0}", (0,), (1,)), ("CovNotIn", "(None,)", (0, ""), (None,)),
    ):
        for v in yes + no:
            scenario(R, "%s(%s) of %r" % (cls, a, v), "class P:\n    pass\nasync def test():\n    p = P()\n    p.value = %r\n    hook('got', bool(%s(%s)(p)), bool(%s(%s)(%r)))\n" % (v, cls, a, cls, a, v), "",
                     lambda r, v=v, yes=yes, no=no: None if args(r.find("got")[0]) == [str(any(v is y for y in yes))] * 2 else "it says %s" % args(r.find("got")[0]))


# ------------------------------------------------------------------ groups

GROUP = """
class P:
    pass
"""


def data(t):
    """The Python value a term stands for, as far as it is known."""
    if isinstance(t, T):
        if t.op == "const":
            return cval(t)
        if t.op == "seq" and all(g.op == "one" for g in t.a[0]):
            return [data(g.a[0]) for g in t.a[0]]
        if t.op == "tuple":
            return [data(x) for x in t.a]
        if t.op == "dictof" and all(g.op == "kv" for g in t.a[0]):
            return {data(g.a[0]): data(g.a[1]) for g in t.a[0]}
    return t


def dump(g="g"):
    return "hook('state', %s.as_dict(), %s.sample_stoped(), %s.is_all_covered(), [%s.is_point_covered(k) for k in %s.cover_points()], [k for k in %s.cover_points()])" % ((g,) * 6)


class Group(object):
    """What the counts have to be."""

    def __init__(self, once=True):
        self.default = once
        self.points = {}
        self.stopped = self.complete = False
        self.samples = self.calls = 0

    def add(self, name, bins, once=None):
        self.points[name] = [self.default if once is None else once, {b: 0 for b in bins}, bins]
        self.complete = False

    def covered(self, p):
        return all(self.points[p][1].values())

    def hit(self, values):
        """values: name of a bit -> bool."""
        if self.stopped or self.complete:
            return
        for once, counts, bins in self.points.values():
            for b, cs in bins.items():
                counts[b] += all(values(c) for c in cs)
        self.complete = all(self.covered(p) and self.points[p][0] for p in self.points)


def sees(r, e, g, stop=True, totals=True, marks=False):
    """What is wrong with the state the group shows, None if nothing."""
    d, stopped, allc, covs, names = [data(x) for x in e.args]
    if not isinstance(d, dict) or not isinstance(d.get("points"), list):
        return Und("the report is not known: %s" % show(e.args[0])[:200])
    pts = {}
    for p in d["points"]:
        if not isinstance(p, dict) or not isinstance(p.get("bins"), list) or any(not isinstance(b, dict) for b in p["bins"]):
            return Und("the report is not known: %s" % show(e.args[0])[:200])
        pts[p.get("name")] = p
    if list(pts) != list(g.points) or len(d["points"]) != len(g.points) or names != list(g.points):
        return "the points are %s, %s; expected %s" % (list(pts), names, list(g.points))
    for n, (once, counts, _) in g.points.items():
        got = {b.get("name"): b.get("hints") for b in pts[n]["bins"]}
        if any(not isinstance(x, int) for x in got.values()):
            return Und("counts %s" % got)
        if got != counts or len(pts[n]["bins"]) != len(counts):
            return "the counts of %s are %s; expected %s" % (n, got, counts)
        if marks and {k: v for k, v in pts[n].get("functions", {}).items() if v} != {b: ["f " + n] for b in list(counts)[:1]}:
            return "functions recorded for %s: %s" % (n, pts[n].get("functions"))
        if pts[n].get("hinted") is not g.covered(n) or pts[n].get("once") is not once:
            return "point %s: covered %s, once %s; expected %s, %s" % (n, pts[n].get("hinted"), pts[n].get("once"), g.covered(n), once)
    if covs != [g.covered(n) for n in g.points]:
        return "points covered: %s; expected %s" % (covs, [g.covered(n) for n in g.points])
    if g.points and allc is not all(g.covered(n) for n in g.points):
        return "all covered: %s" % allc
    if stop and stopped is not (g.stopped or g.complete):
        return "sampling stopped: %s; expected %s" % (stopped, g.stopped or g.complete)
    if totals:
        bins = [c for p in g.points.values() for c in p[1].values()]
        want = {"bin_num_total": len(bins), "bin_num_hints": sum(1 for c in bins if c), "point_num_total": len(g.points),
                "point_num_hints": sum(1 for n in g.points if g.covered(n))}
        if "__sample_count__" in d:
            want["__sample_count__"] = g.samples
        if "__sample_calln__" in d:
            want["__sample_calln__"] = g.calls
        if "has_once" in d:
            want["has_once"] = any(p[0] for p in g.points.values())
        if "__stop_sample__" in d:
            want["__stop_sample__"] = g.stopped
        for k, v in want.items():
            if d.get(k) is not v and d.get(k) != v:
                return "%s is %s; expected %s" % (k, d.get(k), v)
    return None


def valuation(r):
    def f(name):
        if name in ("yes", "no"):
            return name == "yes"
        v = r.known(mk("truth", sym(name)))
        if v is None:
            raise Unseen(name)
        return v

    return f


class Unseen(Exception):
    pass


def all_of(f, names):
    """Conjunction, if decided."""
    und = None
    for n in names:
        try:
            if not f(n):
                return False
        except Unseen as x:
            und = x
    if und is not None:
        raise und
    return True


class Sampled(Group):
    def hit2(self, f, s):
        if self.stopped or self.complete:
            return
        self.samples += 1
        for once, counts, bins in self.points.values():
            for b, cs in bins.items():
                counts[b] += all_of(f, [s[c] for c in cs])
        self.complete = all(self.covered(p) and self.points[p][0] for p in self.points)


def cond(i):
    return "lambda t: t.value[%d]" % i


def point(name, bins, once=""):
    """Source that adds a point; bins: name -> index or list of indices of conditions."""
    bs = ", ".join("%r: %s" % (b, cond(c) if isinstance(c, int) else ("(%s,)" if isinstance(c, tuple) else "[%s]") % ", ".join(cond(i) for i in c)) for b, c in bins.items())
    return "    g.add_watch_point(t, {%s}, name=%r%s)\n" % (bs, name, once)


def history(R, what, ops, once_default=True, names=8, marks=False):
    """ops: what is done, one after the other; the state is looked at after each."""
    code = GROUP + "async def test(%s):\n    t = P()\n    t.value = (False,) * 8\n    g = CovGroup('g'%s)\n" % (
        ", ".join("x%d" % i for i in range(names)), "" if once_default else ", disable_sample_when_point_hinted=False")
    for op in ops:
        k = op[0]
        if k == "add":
            code += point(op[1], op[2], "" if len(op) < 4 or op[3] is None else ", once=%s" % op[3])
            if marks:
                code += "    g.mark_function(%r, %r, %r)\n" % (op[1], "f " + op[1], list(op[2])[0])
        elif k == "sample":
            code += "    t.value = (%s,)\n    g.sample()\n" % ", ".join({"yes": "True", "no": "False"}.get(v, v) for v in op[1])
        else:
            code += "    g.%s(%s)\n" % (k, ", ".join(repr(x) for x in op[1:]))
        code += "    " + dump() + "\n"

    def judge(r):
        f = valuation(r)
        g = Sampled(once_default)
        states = r.find("state")
        if len(states) != len(ops):
            return "%d of %d states" % (len(states), len(ops))
        for e, op in zip(states, ops):
            k = op[0]
            if k == "add":
                g.add(op[1], {b: [c] if isinstance(c, int) else list(c) for b, c in op[2].items()}, op[3] if len(op) > 3 else None)
            elif k == "sample":
                g.calls += 1
                try:
                    g.hit2(f, op[1])
                except Unseen as x:
                    return "%s: bins are counted whether or not %s holds" % (tell(op), x)
            elif k == "stop_sample":
                g.stopped = True
            elif k == "resume_sample":
                g.stopped = g.complete = False
            elif k == "reset_point":
                p = g.points[op[1]]
                p[1] = {b: 0 for b in p[1]}
                g.complete = False
            elif k == "del_point":
                del g.points[op[1]]
            elif k == "clear":
                g = Sampled(once_default)
            bad = sees(r, e, g, stop=k != "del_point" and bool(g.points), marks=marks)
            if bad:
                return type(bad)("after %s of %s: %s" % (tell(op), "; ".join(map(tell, ops)), bad))
        return None

    scenario(R, what, code, ", ".join("x%d" % i for i in range(names)), judge)


def tell(op):
    return " ".join(str(x) for x in op)


@rule("F02")
def counts(A, R):
    X = ["x%d" % i for i in range(8)]
    shapes = [
        ("one bin", {"a": 0}), ("two bins", {"a": 0, "b": 1}), ("three bins", {"a": 0, "b": 1, "c": 2}), ("a list of conditions", {"a": [0, 1]}),
        ("a list of three conditions", {"a": [0, 1, 2]}), ("a tuple of conditions", {"a": (0, 1)}), ("a list and single bins", {"a": 0, "b": [1, 2], "c": 3}),
        ("a list before a single bin", {"a": [0, 1], "b": 2}), ("lists only", {"a": [0, 1], "b": [2, 3]}), ("a list of one condition", {"a": [0]}),
        ("bins that are no strings", {0: 0, 1: 1}), ("bins with empty names", {"": 0, None: [1, 2]}), ("bins named by numbers", {2.5: 0, False: 1, -1: 2}), ("bins like numbers", {"0": 0, 0: 1}),
    ]
    for once in (True, False):
        for what, bins in shapes:
            n = 1 + max(max(c) if not isinstance(c, int) else c for c in bins.values())
            history(R, "%s, sampled once%s" % (what, "" if once else ", kept counting"), [("add", "p", bins), ("sample", X[:n])], once)
        for what, bins in shapes[:4]:
            n = 1 + max(max(c) if not isinstance(c, int) else c for c in bins.values())
            if n <= 2:
                history(R, "%s, sampled twice%s" % (what, "" if once else ", kept counting"), [("add", "p", bins), ("sample", X[:n]), ("sample", X[4:4 + n])], once)
        history(R, "two points%s" % ("" if once else ", kept counting"), [("add", "p", {"a": 0, "b": 1}), ("add", "q", {"a": 2}), ("sample", X[:3]), ("sample", ["yes", "no", X[4]])], once)
        history(R, "three points%s" % ("" if once else ", kept counting"), [("add", "p", {"a": 0}), ("add", "q", {"a": 1}), ("add", "r", {"a": 2}), ("sample", X[:3]), ("sample", X[3:6])], once)
        for seq in itertools.product(("yes", "no"), repeat=3):
            history(R, "samples %s%s" % (" ".join(seq), "" if once else ", kept counting"),
                    [("add", "p", {"a": 0, "b": 1})] + [("sample", [s, "no"]) for s in seq] + [("sample", ["no", X[0]]), ("sample", [X[1], "no"])], once)
        for op in (("reset_point", "p"), ("reset_point", "q"), ("del_point", "p"), ("clear",)):
            history(R, "%s%s" % (tell(op), "" if once else ", kept counting"),
                    [("add", "p", {"a": 0, "b": 1}), ("add", "q", {"a": 2}), ("sample", X[:3]), op, ("sample", X[3:6])] if op[0] != "clear" else
                    [("add", "p", {"a": 0, "b": 1}), ("sample", X[:2]), op, ("add", "p", {"a": 0}), ("sample", X[3:4])], once, marks=True)
    # counts that are there already
    code = GROUP + """
async def test(n, x):
    if n >= 0:
        t = P()
        g = CovGroup('g', disable_sample_when_point_hinted=%s)
        g.add_watch_point(t, {'a': lambda t: t.value, 'b': lambda t: True}, name='p')
        if 'hints' in g.cover_point('p'):
            g.cover_point('p')['hints']['a'] = n
            t.value = x
            g.sample()
            hook('count', g.as_dict()['points'][0]['bins'][0]['hints'], g.is_point_covered('p'))
"""
    n, x = sym("n"), sym("x")
    for once in (True, False):
        what = "any count%s" % ("" if once else ", kept counting")
        rs = client(R, what, code % once, "n, x")
        for r in rs or ():
            ev = r.find("count")
            if not fine(R, what, r) or not ev:
                continue
            c, cov = ev[0].args
            hit = r.known(mk("truth", x))
            if hit is None:
                R.bad(what, "the sample does not depend on the condition: %s" % r.tell(), r.loc())
                continue
            R.check(what, c is mkbin("+", n, const(int(hit))), "the count n becomes %s where the condition is %s" % (show(c), hit), r.loc())
            if hit:
                R.check(what + ": a bin that is hit is covered", cov is TRUE, "covered: %s" % show(cov), r.loc())
    for bins, ok in (("CovEq(3)", True), ("[CovEq(3)]", False)):
        code = GROUP + """
async def test(x):
    t = P()
    t.value = x
    g = CovGroup('g')
    g.add_watch_point(t, %s, name='p')
    g.sample()
    hook('n', g.as_dict()['points'][0]['bins'][0]['hints'])
    hook('x', 1 if x == 3 else 0)
""" % bins
        if ok:
            scenario(R, "a single condition as bins", code, "x", lambda r: None if r.find("n")[0].args == r.find("x")[0].args else "it counts %s" % args(r.find("n")[0]))


@rule("F03")
def stopping(A, R):
    ops = [("sample", ["yes"]), ("sample", ["no"]), ("stop_sample",), ("resume_sample",), ("reset_point", "p"), ("add", "q", {"a": 0})]
    for once in (True, False):
        for n in (1, 2, 3, 4):
            for seq in itertools.product(range(len(ops)), repeat=n):
                if seq.count(5) > 1 or (n == 4 and not R.deep and (seq[0] == 1 or 4 not in seq[1:] and 5 not in seq[1:] and 3 not in seq[1:] or seq[3] in (4, 5))):
                    continue
                seq = [ops[i] for i in seq]
                history(R, "all histories of %d operations%s" % (n, "" if once else ", kept counting"), [("add", "p", {"a": 0})] + seq + [("sample", ["x0"])] * (1 if n < 4 else 0) + ([("sample", ["yes"])] if n == 4 else []), once)
    for o1, o2 in itertools.product((True, False), repeat=2):
        for default in (True, False):
            history(R, "points with once=%s and once=%s" % (o1, o2),
                    [("add", "p", {"a": 0}, o1), ("add", "q", {"a": 1, "b": 2}, o2), ("sample", ["yes", "x0", "x1"]), ("sample", ["x2", "yes", "yes"]), ("sample", ["yes", "yes", "yes"]), ("sample", ["yes", "x3", "no"])], default)
    for once in (True, False, None):
        code = GROUP + """
async def test():
    t = P()
    g = CovGroup('g')
    g.add_watch_point(t, {'a': lambda t: True}, name='p')
    g.sample()
    hook('before', g.sample_stoped())
    g.add_watch_point(t, {}, name='q', once=%s)
    hook('added', g.sample_stoped(), g.is_all_covered(), g.is_point_covered('q'))
    g.sample()
    hook('after', g.as_dict()['points'][0]['bins'][0]['hints'])
""" % once
        scenario(R, "a point without bins is added to a complete group, once=%s" % once, code, "", lambda r: None if args(r.find("before")[0]) == ["True"] and r.find("added")[0].args[0] is FALSE and
                 r.find("added")[0].args[1] is r.find("added")[0].args[2] and args(r.find("after")[0]) == ["2"] else "complete: %s; then stopped, all covered, point covered: %s; count %s" % (
                     args(r.find("before")[0]), args(r.find("added")[0]), args(r.find("after")[0])))
    history(R, "a stopped group", [("add", "p", {"a": 0, "b": [1, 2]}), ("stop_sample",), ("sample", ["x0", "x1", "x2"]), ("resume_sample",), ("sample", ["x3", "x4", "x5"])])
    history(R, "stopped in the middle", [("add", "p", {"a": 0, "b": 1}), ("sample", ["x0", "x1"]), ("stop_sample",), ("sample", ["yes", "yes"]), ("resume_sample",), ("sample", ["x2", "x3"])])
    history(R, "a covered point is reset", [("add", "p", {"a": 0}), ("add", "q", {"a": 0}), ("sample", ["yes"]), ("sample", ["yes"]), ("reset_point", "p"), ("sample", ["x0"]), ("sample", ["x1"])])
    history(R, "a point is added to a complete group", [("add", "p", {"a": 0}), ("sample", ["yes"]), ("sample", ["yes"]), ("add", "q", {"a": 1}), ("sample", ["x0", "x1"]), ("sample", ["x2", "x3"])])


@rule("F04")
def reports(A, R):
    X = ["x%d" % i for i in range(8)]
    for once in (True, False):
        history(R, "report of two points%s" % ("" if once else ", kept counting"), [("add", "p", {"a": 0, "b": 1}), ("add", "q", {"c": 2}), ("sample", X[:3]), ("sample", X[3:6])], once, marks=True)
        for o in itertools.product((True, False, None), repeat=2):
            history(R, "report of points with once=%s and once=%s" % o, [("add", "p", {"a": 0}, o[0]), ("add", "q", {"a": 1}, o[1]), ("sample", X[:2]), ("del_point", "p"), ("sample", X[:2])], once)
        history(R, "report while stopped", [("add", "p", {"a": 0}), ("stop_sample",), ("sample", X[:1]), ("resume_sample",), ("sample", X[:1]), ("clear",), ("add", "p", {"a": 0}), ("sample", X[:1])], once)
        history(R, "report of a group without points", [("clear",)], once, marks=True)
        history(R, "report of three points", [("add", "p", {"a": 0}), ("add", "q", {"a": 1, "b": 2}), ("add", "r", {"a": [0, 1]}), ("sample", X[:3]), ("reset_point", "q")], once, marks=True)
        history(R, "report of bins that are no strings", [("add", "p", {0: 0, "": 1, None: [0, 1]}), ("add", "q", {False: 2, "0": 0}), ("sample", X[:3]), ("sample", X[3:6])], once)
        history(R, "report after a point is deleted", [("add", "p", {"a": 0}), ("add", "q", {"a": 1, "b": 2}), ("sample", X[:3]), ("del_point", "p")], once, marks=True)
    code = GROUP + """
async def test(x0, x1, x2, fn):
    t = P()
    g = CovGroup('group name')
    g.add_watch_point(t, {'a': lambda t: t.value[0], 'b': lambda t: t.value[1]}, name='p')
    g.add_watch_point(t, {'c': lambda t: t.value[2]}, name='q', once=False, dynamic_bin=True)
    g.mark_function('p', ['f1', 'f2'], 'a')
    g.mark_function('q', 'f3')
    t.value = (x0, x1, x2)
    g.sample()
    hook('d1', g.as_dict())
    str(g)
    hook('d2', g.as_dict())
    d = g.as_dict()
    d['points'][0]['bins'][0]['hints'] = 100
    d['points'][0]['functions']['a'].append('f9')
    d['points'].clear()
    hook('d3', g.as_dict())
"""

    def judge(r):
        f = valuation(r)
        ds = [data(r.find(k)[0].args[0]) for k in ("d1", "d2", "d3")]
        if any(not isinstance(d, dict) or not isinstance(d.get("points"), list) or len(d["points"]) != 2 for d in ds):
            return "the report is %s" % show(r.find("d1")[0].args[0])[:300]
        d = ds[0]
        p, q = d["points"]
        if d.get("name") != "group name":
            return "the group is called %s" % d.get("name")
        try:
            hits = [int(f("x%d" % i)) for i in range(3)]
        except Unseen as x:
            return "the counts do not depend on %s" % x
        if [b["hints"] for b in p["bins"] + q["bins"]] != hits or [b["name"] for b in p["bins"] + q["bins"]] != ["a", "b", "c"]:
            return "bins are reported as %s" % (p["bins"] + q["bins"])
        fs = [{k: sorted(v) if isinstance(v, list) else v for k, v in x["functions"].items()} if isinstance(x["functions"], dict) else x["functions"] for x in (p, q)]
        if fs != [{"a": ["f1", "f2"]}, {"c": ["f3"]}]:
            return "functions are reported as %s" % fs
        if (p["once"], q["once"], p["dynamic_bin"], q["dynamic_bin"]) != (True, False, False, True):
            return "options are reported as %s" % ([p["once"], q["once"], p["dynamic_bin"], q["dynamic_bin"]],)
        if (p["hinted"], q["hinted"]) != (hits[0] and hits[1] and True or False, bool(hits[2])) or d.get("hinted") is not all(hits):
            return "covered flags are reported as %s, %s, %s where the hits are %s" % (p["hinted"], q["hinted"], d.get("hinted"), hits)
        if [d.get(k) for k in ("bin_num_total", "bin_num_hints", "point_num_total", "point_num_hints")] != [3, sum(hits), 2, int(hits[0] and hits[1]) + hits[2]]:
            return "totals are reported as %s" % [d.get(k) for k in ("bin_num_total", "bin_num_hints", "point_num_total", "point_num_hints")]
        if ds[1] != d or ds[2] != d:
            return "a second report differs: %s" % [k for k in d if d[k] != ds[1].get(k) or d[k] != ds[2].get(k)]

    scenario(R, "all fields of a report", code, "x0, x1, x2, fn", judge)


@rule("F05")
def registration(A, R):
    base = GROUP + """
async def test(tgt, u):
    g = CovGroup('g'%s)
    c = lambda t: t
    g.add_watch_point(1, {'a': c, 'b': [c, c]}, name='old')
    g.sample()
    hook('before', g.as_dict(), g.sample_stoped(), g.is_all_covered())
    try:
        r = g.%s
    except ValueError:
        hook('refused')
    else:
        hook('accepted', r is g)
    hook('after', g.as_dict(), g.sample_stoped(), g.is_all_covered())
"""
    refuse = [
        "add_watch_point(tgt, 5, name='n')", "add_watch_point(tgt, 'abc', name='n')", "add_watch_point(tgt, None, name='n')", "add_watch_point(tgt, [c], name='n')",
        "add_watch_point(tgt, {'a': 5}, name='n')", "add_watch_point(tgt, {'a': c, 'b': 5}, name='n')", "add_watch_point(tgt, {'a': 5, 'b': c}, name='n')",
        "add_watch_point(tgt, {'a': [c, 5]}, name='n')", "add_watch_point(tgt, {'a': [5, c]}, name='n')", "add_watch_point(tgt, {'a': c, 'b': [c, c, None]}, name='n')",
        "add_watch_point(tgt, {'a': (c, 5), 'b': c}, name='n')", "add_watch_point(tgt, {'a': c}, name='old')", "add_watch_point(tgt, c, name='old')",
        "add_watch_point(tgt, {'a': None}, name='n')", "add_watch_point(tgt, {'a': 'x'}, name='n')",
        "add_cover_point(tgt, {'a': 5}, name='n')", "add_cover_point(tgt, {'a': c}, name='old')",
        "del_point('n')", "reset_point('n')", "cover_point('n')", "is_point_covered('n')", "del_point('Old')", "reset_point('')", "mark_function('n', 'f')", "mark_function('n', 'f', 'a')",
    ]
    for call in refuse:
        for once in ("", ", disable_sample_when_point_hinted=False"):
            def judge(r):
                if r.raised:
                    return "it raises %s" % r.raised
                if not r.find("refused"):
                    return "it is accepted"
                if r.find("before")[0].args != r.find("after")[0].args:
                    return "it is refused, but the group changes: %s" % args(r.find("after")[0])

            scenario(R, "%s is refused" % call, base % (once, call), "tgt, u", judge, may_fail=True)
    accept = []
    for bins, names in (("c", ["anonymous"]), ("CovEq(3)", ["anonymous"]), ("{'a': c}", ["a"]), ("{'a': c, 'b': CovEq(1)}", ["a", "b"]), ("{'a': [c, c], 'b': c}", ["a", "b"]), ("{'a': (c,)}", ["a"]), ("{'x y': c, 'z': [c]}", ["x y", "z"])):
        for opt, once, dyn in (("", None, False), (", once=True", True, False), (", once=False", False, False), (", dynamic_bin=True", None, True), (", once=False, dynamic_bin=True", False, True)):
            for meth in ("add_watch_point", "add_cover_point"):
                for default in (True, False):
                    accept.append(("%s(tgt, %s, name='n'%s)" % (meth, bins, opt), names, default if once is None else once, dyn, default))
    for call, names, once, dyn, default in accept:
        code = base % ("" if default else ", disable_sample_when_point_hinted=False", call) + "    hook('target', g.cover_point('n')['taget'] if 'taget' in g.cover_point('n') else tgt)\n"

        def judge(r):
            if r.raised or not r.find("accepted"):
                return "it is refused"
            if args(r.find("accepted")[0]) != ["True"]:
                return "it does not return the group"
            b, a = (data(r.find(k)[0].args[0]) for k in ("before", "after"))
            if not isinstance(a, dict) or not isinstance(a.get("points"), list) or len(a["points"]) != 2:
                return "the points are %s" % show(r.find("after")[0].args[0])[:300]
            if a["points"][0] != b["points"][0]:
                return "the other point changes: %s" % a["points"][0]
            p = a["points"][1]
            if p.get("name") != "n" or [(x["name"], x["hints"]) for x in p["bins"]] != [(n, 0) for n in names]:
                return "the point is %s" % p
            if (p["once"], p["dynamic_bin"], p["hinted"], p["functions"]) != (once, dyn, False, {}):
                return "the point is %s" % p
            if args(r.find("after")[0])[1:] != ["False", "False"]:
                return "the group counts as complete: %s" % args(r.find("after")[0])[1:]
            if args(r.find("target")[0]) != ["tgt"]:
                return "the target is %s" % args(r.find("target")[0])

        scenario(R, "%s%s is registered" % (call, "" if default else ", kept counting by default"), code, "tgt, u", judge, may_fail=True)
    code = GROUP + """
async def test(tgt, u):
    g = CovGroup('g')
    c = lambda t: t
    g.add_watch_point(tgt, {'a': c})
    g.add_watch_point(tgt, {'b': c})
    hook('n', len(g.as_dict()['points']))
"""
    for twice in ("tgt, {'a': c}", "tgt, {'a': c, 'b': [c, c]}", "tgt, c"):
        dup = """
async def test(tgt, u):
    g = CovGroup('g')
    c = lambda t: t
    d = lambda t: False
    g.add_watch_point(%s)
    hook('before', g.as_dict())
    try:
        g.add_watch_point(%s)
    except ValueError:
        hook('refused')
    hook('after', g.as_dict())
""" % (twice, twice.replace("c", "d"))
        scenario(R, "a second point without a name that gets the same name, %s" % twice, GROUP + dup, "tgt, u", lambda r: None if r.find("refused") and r.find("before")[0].args == r.find("after")[0].args else
                 None if not r.find("refused") and len(data(r.find("after")[0].args[0])["points"]) == 2 else "it takes the place of the first one")
    scenario(R, "points without a name get names of their own", code, "tgt, u", lambda r: None if r.raised is None and args(r.find("n")[0]) == ["2"] else "they are refused")
    code = GROUP + """
async def test(tgt, u):
    g = CovGroup('g')
    h = CovGroup('h')
    c = lambda t: t
    g.add_watch_point(tgt, {'a': c}, name='p')
    h.add_watch_point(1, {'a': c, 'b': c}, name='p')
    h.sample()
    hook('n', g.as_dict()['points'], h.as_dict()['points'])
"""

    def two(r):
        g, h = data(r.find("n")[0].args[0]), data(r.find("n")[0].args[1])
        if len(g) != 1 or [b["hints"] for b in g[0]["bins"]] != [0] or len(h) != 1 or [b["hints"] for b in h[0]["bins"]] != [1, 1]:
            return "groups share points or counts"

    scenario(R, "groups have points of their own", code, "tgt, u", two)


BINS = ("low", "high", "lowest", "mid_1", "mid_2")


@rule("F06")
def marking(A, R):
    import fnmatch
    import re

    def matching(b):
        b = b.strip()
        if b in BINS:
            return {b}
        if "*" in b or "?" in b:
            return {x for x in BINS if fnmatch.fnmatch(x, b)}
        return {x for x in BINS if re.match(b, x)}

    head = GROUP + """
async def test(tgt):
    g = CovGroup('g')
    c = lambda t: False
    g.add_watch_point(tgt, {%s}, name='p')
    g.add_watch_point(tgt, {'low': c, 'other': c}, name='q')
""" % ", ".join("%r: c" % b for b in BINS)
    tail = """
    hook('fs', [x['functions'] for x in g.as_dict()['points']], [[b['hints'] for b in x['bins']] for x in g.as_dict()['points']])
"""

    def fs(r):
        p = data(r.find("fs")[0].args[0])
        if not isinstance(p, list) or any(not isinstance(x, dict) for x in p):
            return None
        return [{k: sorted(map(str, v)) for k, v in x.items() if v} for x in p]

    pats = ["'*'", "'low'", "'lo*'", "'*_1'", "'mid_?'", "'mid_.'", "'low|high'", "' low '", "'low$'", "['low', 'high']", "('mid_1',)", "['low', 'low']", "['lo*', 'lowest']", "['high', 'mid_[12]']", None]
    for pat in pats:
        for funcs, got in (("'f'", ["f"]), ("['f', 'g']", ["f", "g"]), ("('f',)", ["f"])):
            v = eval(pat) if pat else "*"
            want = set().union(*[matching(b) for b in ([v] if isinstance(v, str) else v)])

            def judge(r):
                m = fs(r)
                if m is None:
                    return Und("marks are not known")
                if m != [{b: got for b in want}, {}]:
                    return "recorded: %s; expected %s for %s" % (m, got, sorted(want))

            scenario(R, "mark_function('p', %s, %s)" % (funcs, pat), head + "    g.mark_function('p', %s%s)\n" % (funcs, ", " + pat if pat else "") + tail, "tgt", judge)
    for pat in ("'nothing'", "'no*'", "['low', 'nothing']", "['nothing', 'low']", "'LOW'", "'ow'", "[]", "'zz?'", "5"):
        def judge(r):
            if r.find("accepted"):
                return "it is accepted"
            if fs(r) != [{"low": ["old"]}, {}]:
                return "it is refused, but recorded are %s" % fs(r)

        code = head + "    g.mark_function('p', 'old', 'low')\n    try:\n        g.mark_function('p', 'f', %s)\n    except Exception:\n        pass\n    else:\n        hook('accepted')\n" % pat + tail
        scenario(R, "mark_function('p', 'f', %s) is refused" % pat, code, "tgt", judge, may_fail=True)
    scenario(R, "marks add up", head + "    g.mark_function('p', 'f', 'low')\n    g.mark_function('p', 'g', 'lo*')\n    g.mark_function('q', 'h', 'other')\n    g.mark_function('p', 'f', 'low')\n" + tail, "tgt",
             lambda r: None if fs(r) == [{"low": ["f", "g"], "lowest": ["g"]}, {"other": ["h"]}] else "recorded: %s" % fs(r))
    for op in ("sample()", "reset_point('p')", "stop_sample()", "resume_sample()", "del_point('q')", "add_watch_point(tgt, c, name='r')", "as_dict()"):
        scenario(R, "marks stay after %s" % op, head + "    g.mark_function('p', 'f', 'low')\n    g.%s\n    g.mark_function('p', 'g', 'lo*')\n    g.%s\n" % (op, op if op[0] in "sra" and "add" not in op else "sample()") + tail, "tgt",
                 lambda r: None if (fs(r) or [None])[0] == {"low": ["f", "g"], "lowest": ["g"]} else "recorded: %s" % fs(r))
    steps = [(f, b) for f in ("'f'", "['g']", "['f', 'h']", "('i', 'j', 'k')") for b in ("'low'", "'lo*'", "['low', 'high']", "'*'")]
    for n, (f1, b1) in enumerate(steps):
        for m, (f2, b2) in enumerate(steps):
            marks = [(f1, b1), (f2, b2)] if (n + m) % 3 else [(f1, b1), (f2, b2), (f1, b2)]
            want = {}
            for f, b in marks:
                f, b = eval(f), eval(b)
                for x in set().union(*[matching(y) for y in ([b] if isinstance(b, str) else b)]):
                    want.setdefault(x, set()).update([f] if isinstance(f, str) else f)
            want = {x: sorted(v) for x, v in want.items()}

            def judge(r):
                m = fs(r)
                if m is None:
                    return Und("marks are not known")
                if m != [want, {}]:
                    return "recorded: %s; expected %s" % (m, want)

            scenario(R, "marks add up: %s" % ", ".join("%s for %s" % x for x in marks), head + "".join("    g.mark_function('p', %s, %s)\n" % x for x in marks) + tail, "tgt", judge)
    for raise_, what in (("", "refused"), (", raise_error=True", "refused"), (", raise_error=False", "ignored")):
        code = head + "    try:\n        g.mark_function('zz', 'f'%s)\n    except ValueError:\n        hook('refused')\n    else:\n        hook('accepted')\n" % raise_ + tail

        def judge(r):
            if r.raised or [e.tag for e in r.events if e.tag in ("accepted", "refused")] != ["refused" if what == "refused" else "accepted"]:
                return "it is not %s" % what
            if fs(r) != [{}, {}]:
                return "recorded: %s" % fs(r)

        scenario(R, "an unknown point is %s%s" % (what, raise_), code, "tgt", judge, may_fail=True)
    code = head + "    def f(): pass\n    def h(): pass\n    g.mark_function('p', f, 'low')\n    g.mark_function('p', [h, 'g'], 'high')\n" + tail

    def funcs(r):
        p = data(r.find("fs")[0].args[0])
        if not isinstance(p, list) or len(p) != 2 or set(p[0]) != {"low", "high"} or len(p[0]["low"]) != 1 or len(p[0]["high"]) != 2 or "g" not in p[0]["high"]:
            return "recorded: %s" % show(r.find("fs")[0].args[0])[:300]

    scenario(R, "functions are recorded by their names", code, "tgt", funcs)
