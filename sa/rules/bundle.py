"""Bundles: binding, bulk operations, requests, instances."""

import itertools
import re

from .coverage import data
from .world import *

# ------------------------------------------------------------ structures and what they mean


class S(object):
    """A bundle class of the client program.

    signals: names in the class attribute 'signals'; sigs: attributes; lists: {attr: (format, n, rule of names or None)};
    subs: {attr: (S, binding rule)}; blists: {attr: (S, format, n, rule of names or None)}
    """

    def __init__(self, name, signals=(), sigs=(), lists=None, subs=None, blists=None):
        self.name, self.signals, self.sigs = name, list(signals), list(sigs)
        self.lists, self.subs, self.blists = lists or {}, subs or {}, blists or {}

    def classes(self, seen=None):
        """Program text of the class and the ones it needs."""
        seen = set() if seen is None else seen
        if self.name in seen:
            return ""
        seen.add(self.name)
        need = "".join(c.classes(seen) for c, _ in self.subs.values())
        need += "".join(x[0].classes(seen) for x in self.blists.values())
        b = []
        if self.signals:
            b.append("    signals = %r" % self.signals)
        if len(self.sigs) == 1:
            b.append("    %s = Signal()" % self.sigs[0])
        elif self.sigs:
            b.append("    %s = Signals(%d)" % (", ".join(self.sigs), len(self.sigs)))
        for a, (fmt, n, rule) in self.lists.items():
            b.append("    %s = SignalList(%r, %d%s)" % (a, fmt, n, ", " + rule if rule else ""))
        for a, (c, rule) in self.subs.items():
            b.append("    %s = %s" % (a, made(c.name, rule)))
        for a, (c, fmt, n, rule) in self.blists.items():
            b.append("    %s = BundleList(%s, %r, %d%s)" % (a, c.name, fmt, n, ", " + rule if rule else ""))
        return need + "class %s(Bundle):\n%s\n\n" % (self.name, "\n".join(b) or "    pass")

    def leaves(self, at=""):
        """Paths of all signals below."""
        r = [at + s for s in self.signals + self.sigs]
        for a, (fmt, n, rule) in self.lists.items():
            r += ["%s%s[%d]" % (at, a, i) for i in range(n)]
        for a, (c, rule) in self.subs.items():
            r += c.leaves("%s%s." % (at, a))
        for a, (c, fmt, n, rule) in self.blists.items():
            for i in range(n):
                r += c.leaves("%s%s[%d]." % (at, a, i))
        return r

    def own(self):
        """{name: path} of the names of this level."""
        r = {s: s for s in self.signals + self.sigs}
        for a, (fmt, n, rule) in self.lists.items():
            r.update({fmt.replace("#", numbered(rule, i)): "%s[%d]" % (a, i) for i in range(n)})
        return r

    def below(self):
        """[(path, S, rule)] of the bundles of this level."""
        r = [(a, c, rule) for a, (c, rule) in self.subs.items()]
        for a, (c, fmt, n, rule) in self.blists.items():
            r += [("%s[%d]" % (a, i), c, ("prefix", fmt.replace("#", numbered(rule, i)))) for i in range(n)]
        return r

    def names(self, rule):
        """A pin name for each path, for prefix and dictionary rules: {path: pin}."""
        r = {}
        inner = {p: nm for nm, p in self.own().items()}
        for p, c, ru in self.below():
            inner.update({"%s.%s" % (p, q): nm for q, nm in c.names(ru).items()})
        for p, nm in inner.items():
            if rule is None:
                r[p] = nm
            elif rule[0] == "prefix":
                r[p] = rule[1] + nm
            elif rule[0] == "dict" and nm in rule[1]:
                r[p] = rule[1][nm]
        return r

    def connect(self, rule, pins):
        """{path: pin} for the pins named; the names are (pin, name at this level)."""
        r = {}
        for pin, nm in pins:
            for p in self.places(rule, nm):
                r.setdefault(p, []).append(pin)
        return r

    def places(self, rule, nm):
        """Paths that a pin of this name fits."""
        if rule is not None:
            how, v = rule
            if how == "prefix":
                if not nm.startswith(v):
                    return []
                nm = nm[len(v):]
            elif how == "regex":
                m = re.search(v, nm)
                if m is None:
                    return []
                nm = "".join(g or "" for g in m.groups())
            else:
                ks = [k for k, w in v.items() if w == nm]
                if not ks:
                    return []
                nm = ks[0]
        own = self.own()
        if nm in own:
            return [own[nm]]
        return ["%s.%s" % (p, q) for p, c, ru in self.below() for q in c.places(ru, nm)]


def numbered(rule, i):
    return str(i) if rule is None else eval(rule)(i)


def made(cls, rule):
    if rule is None:
        return "%s()" % cls
    return "%s.from_%s(%r)" % (cls, rule[0], rule[1])


DUTS = '''
class XD:
    pass

class Pin:
    def __init__(self, name, dut, out, width, v):
        self.pname = name
        self.dut = dut
        self.out = out
        self.width = width
        self.v = v
        self.mode = None
        self.xdata = XD()
        self.event = dut.event
    def __getattr__(self, n):
        return getattr(self.xdata, n)
    @property
    def value(self):
        return self.v
    @value.setter
    def value(self, x):
        hook('write', self.dut.dname, self.pname, x)
        self.v = x
    def IsOutIO(self):
        return self.out
    def W(self):
        return self.width
    def AsImmWrite(self):
        hook('mode', self.dut.dname, self.pname, 'imme')
        self.mode = 'imme'
    def AsRiseWrite(self):
        hook('mode', self.dut.dname, self.pname, 'rise')
        self.mode = 'rise'
    def AsFallWrite(self):
        hook('mode', self.dut.dname, self.pname, 'fall')
        self.mode = 'fall'

class DUT:
    def __init__(self, dname, pins, outs=(), widths={}):
        self.dname = dname
        self.event = Event()
        self.cycle = 0
        self.ris = []
        self.title = 'dut'
        for n in pins:
            setattr(self, n, Pin(n, self, n in outs, widths.get(n, 8), 'init.' + n))
    def StepRis(self, f):
        self.ris.append(f)
    def Step(self, n=1):
        for _ in range(n):
            self.cycle += 1
            hook('cycle', self.dname, self.cycle)
            if self.cycle > 60:
                raise TimeoutError
            for f in self.ris:
                f(self.cycle)

def state(dut, pins):
    hook('state', dut.dname, [getattr(dut, n).value for n in pins])

def shown(tag, path, f):
    r = 'error'
    try:
        r = f()
        r.value
    except AttributeError:
        r = 'error'
    if r == 'error':
        hook(tag, path, 'error')
    elif r is None:
        hook(tag, path, 'missing')
    elif r.pname is None:
        hook(tag, path, 'nothing', r.value)
    else:
        hook(tag, path, r.dut.dname, r.pname)

'''


def look(var, paths, tag="leaf", ind="    "):
    return "".join("%sshown(%r, %r, lambda: %s.%s)\n" % (ind, tag, p, var, p) for p in paths)


def leaves(r, tag="leaf"):
    """{path: what is connected there}"""
    d = {}
    for e in r.find(tag):
        a = [cval(x) if x.op == "const" else show(x) for x in e.args]
        d[a[0]] = a[1] if len(a) == 2 else "nothing" if a[1] == "nothing" and a[2] is None else "%s.%s" % (a[1], a[2])
    return d


def writes(r, tag="write", since=None, until=None):
    """[(pin, value)] in order, between the marks."""
    l, on = [], since is None
    for e in r.events:
        if e.tag == since:
            on = True
        elif e.tag == until:
            on = False
        elif e.tag == tag and on:
            l.append(("%s.%s" % (cval(e.args[0]), cval(e.args[1])), show(e.args[2])))
    return l


def upto(r, mark):
    """[(pin, value)] of the writes before the mark."""
    l = []
    for e in r.events:
        if e.tag == mark:
            break
        if e.tag == "write":
            l.append(("%s.%s" % (cval(e.args[0]), cval(e.args[1])), show(e.args[2])))
    return l


def final(ws):
    return dict(ws)


def differ(what, got, want):
    if got == want:
        return None
    if isinstance(want, dict):
        ks = [k for k in sorted(set(got) | set(want), key=str) if got.get(k) != want.get(k)]
        return "%s: %s" % (what, ", ".join("%s is %s, expected %s" % (k, got.get(k), want.get(k)) for k in ks[:4]))
    return "%s: %s, expected %s" % (what, str(got)[:400], str(want)[:400])


OPTS = dict(rec=8, max_depth=80)


def bundle(R, what, code, judge, params="", logs=("warning", "error", "critical"), **kw):
    return scenario(R, what, DUTS + code, params, judge, logs=logs, opts=OPTS, **kw)


def mapping(con):
    """What the leaves show if the pins are connected like this."""
    return {p: "d." + v[0] for p, v in con.items()}


# ------------------------------------------------------------ example structures

FLAT = S("Flat", sigs=["a", "b", "c"])
NAMED = S("Named", signals=["a", "b"])
LISTS = S("Lists", sigs=["a"], lists={"v": ("v_#", 2, None), "w": ("#w", 3, "lambda i: str(i + 1)")})
IN = S("In", sigs=["x", "y"], lists={"q": ("q#", 2, None)})
ONE = S("One", sigs=["s"], subs={"m": (IN, ("prefix", "m_")), "n": (IN, None)})
BLS = S("Bls", sigs=["s"], blists={"l": (IN, "l#_", 2, None), "k": (FLAT, "k_#_", 2, "lambda i: 'abc'[i]")})
ALL = S("All", signals=["u"], sigs=["a", "b"], lists={"v": ("v_#", 2, None)}, subs={"m": (IN, ("prefix", "m_"))}, blists={"l": (IN, "l_#_", 2, None)})
DEEP = S("Deep", sigs=["t"], lists={"z": ("z#", 1, None)}, subs={"sub": (ALL, ("prefix", "p_")), "two": (ONE, ("prefix", "o_"))}, blists={"bs": (ALL, "r#_", 2, None)})
ONLYLIST = S("OnlyList", lists={"v": ("v_#", 2, None)})
ONLYSUB = S("OnlySub", subs={"m": (FLAT, ("prefix", "m_"))})
ONLYBL = S("OnlyBl", blists={"l": (FLAT, "l#_", 2, None)})
DEEPBL = S("DeepBl", blists={"l": (ONLYBL, "o#_", 2, None)})
# rules that fit the beginning of each other's names, and many members
OVER = S("Over", sigs=["x_"], subs={"m": (IN, ("prefix", "x_")), "n": (FLAT, ("prefix", "x_y_")), "o": (NAMED, ("regex", "^(?:x_z|q)_(.*)"))},
         blists={"l": (NAMED, "l#", 2, "lambda i: 'x' * i")})
MANY = S("Many", lists={"v": ("v#", 12, None)}, blists={"l": (NAMED, "l#", 12, None)})
EVERY = [FLAT, NAMED, LISTS, ONE, BLS, ALL, DEEP, ONLYLIST, ONLYSUB, ONLYBL, DEEPBL]


def strange(s, ru, pins):
    """Names like those of the pins, which fit no signal."""
    r = []
    v = ru[1] if ru is not None and ru[0] == "prefix" else "io_"
    for p in pins:
        r += [p.swapcase(), p + "_", p + "0", "_" + p, v + p, p[: len(v)] + "_" + p[len(v):], p.replace("_", ""), p.replace("_", "__")]
        if "_" in p:
            r.append("%s_%s%s" % (p.rpartition("_")[0], v, p.rpartition("_")[2]))
            cs = p.split("_")
            r += ["_".join(c.swapcase() if i == k else c for i, c in enumerate(cs)) for k in range(len(cs))]
        r.append(p[: len(v)] + v + p[len(v):])
        r.append(p[: len(v)].swapcase() + p[len(v):])
    r = [x for x in dict.fromkeys(r) if x and x not in pins and not s.places(ru, x)]
    return r if len(r) <= 40 else some(r, 0, len(r) // 40 + 1)



STRANGERS = ["other", "io", "xio_a", "IO_a", "io_zz", "_a"]


def bound(s, rule, pins, extra="", how=None):
    return "    d = DUT('d', %r%s)\n    t = %s\n    t.bind(d)\n" % (pins, extra, how or made(s.name, rule))

# ------------------------------------------------------------ B01

FLATD = {"a": "in_a", "b": "bb", "c": "c"}
RULES_ = [
    (FLAT, None, ["a", "b", "c"]),
    (FLAT, ("prefix", ""), ["a", "b", "c"]),
    (FLAT, ("prefix", "io_"), ["io_a", "io_b", "io_c"]),
    (FLAT, ("prefix", "a"), ["aa", "ab", "ac"]),
    (FLAT, ("dict", FLATD), ["in_a", "bb", "c"]),
    (FLAT, ("dict", {"a": "b", "b": "c", "c": "a"}), ["a", "b", "c"]),
    (FLAT, ("regex", r"io_(.*)_.*"), ["io_a_in", "io_b_in", "io_c_out"]),
    (FLAT, ("regex", r"^(?:in|out)_(.*)$"), ["in_a", "out_b", "in_c"]),
    (FLAT, ("regex", r"io(_x)?_([abc])$"), ["io_a", "io_b", "io_c"]),
    (NAMED, ("prefix", "p"), ["pa", "pb"]),
    (NAMED, ("regex", r"(.)$"), ["xx_a", "yy_b"]),
    (NAMED, ("dict", {"b": "q"}), ["q", "a"]),
    (LISTS, ("prefix", "io_"), ["io_a", "io_v_0", "io_v_1", "io_1w", "io_2w", "io_3w", "io_0w", "io_v_2"]),
    (LISTS, None, ["a", "v_0", "v_1", "1w", "2w", "3w"]),
    (LISTS, ("regex", r"x(v_|)(.*?)y"), ["xv_0y", "xv_1y", "x1wy", "xay"]),
    (LISTS, ("dict", {"v_1": "first", "v_0": "second", "2w": "mid", "a": "z"}), ["first", "second", "mid", "z", "v_0"]),
    (ONE, ("prefix", "io_"), ["io_s", "io_m_x", "io_m_y", "io_m_q0", "io_m_q1", "io_x", "io_y", "io_q0", "io_q1", "x", "m_x"]),
    (ONE, None, ["s", "m_x", "m_y", "m_q0", "m_q1", "x", "y", "q0", "q1"]),
    (ONE, ("dict", {"s": "S", "m_x": "X", "y": "Y", "q1": "Q", "m_q0": "MQ"}), ["S", "X", "Y", "Q", "MQ", "m_x", "q0"]),
    (ONE, ("regex", r"io_(\w+?)_i$"), ["io_s_i", "io_m_x_i", "io_y_i", "io_m_q1_i", "io_q0_i"]),
    (BLS, ("prefix", "io_"), ["io_s"] + ["io_l%d_%s" % (i, n) for i in (0, 1) for n in ("x", "y", "q0", "q1")] + ["io_k_%s_%s" % (i, n) for i in "ab" for n in "abc"] + ["io_l2_x", "io_k_c_a"]),
    (BLS, ("dict", {"l0_x": "A", "l1_x": "B", "k_b_c": "C", "l1_q0": "D", "s": "E"}), ["A", "B", "C", "D", "E", "l0_y"]),
    (BLS, ("regex", r"(l|k_)?.*?(\d_|a_|b_|)([a-z]\d?)$"), ["l..0_x", "l..1_q1", "k_::b_c", "zzz"]),
    (ALL, None, None),
    (ALL, ("prefix", "io_"), None),
    (DEEP, ("prefix", "io_"), None),
    (DEEP, None, None),
    (ONLYLIST, ("prefix", "v"), ["vv_0", "vv_1", "v_0"]),
    (ONLYSUB, ("prefix", ""), ["m_a", "m_b", "m_c", "a", "b", "c"]),
    (ONLYBL, ("prefix", "x"), ["xl0_a", "xl0_b", "xl0_c", "xl1_a", "xl1_b", "xl1_c"]),
    (DEEPBL, ("prefix", "x"), None),
    (OVER, None, ["x_", "x_x", "x_q1", "x_y_a", "x_y_c", "x_z_a", "q_b", "la", "lxb", "lxxa"]),
    (OVER, ("prefix", "x_"), ["x_x_", "x_x_y", "x_x_y_b", "x_x_z_b", "x_q_a", "x_la", "x_lxa", "x_a"]),
    (OVER, ("regex", r"^(.*)_\d+$"), ["x__1", "x_x_2", "x_y_a_3", "x_z_a_33", "lxa_4"]),
    (OVER, ("regex", r"^(x)-(_)-(x)$"), ["x-_-x"]),
    (FLAT, ("regex", r"^(?:a|b|i_c)$"), ["a", "b", "i_c"]),
    (FLAT, ("regex", r"^(?:i_)?(a)?(b)?(?:c)?$"), ["a", "i_b", "c", "ab", "i_"]),
    (OVER, ("dict", {"x_x": "A", "x_y_b": "B", "x_z_a": "C", "lxb": "D", "x_": "E", "q_b": "F"}), ["A", "B", "C", "D", "E", "F", "x_y_a"]),
    (MANY, ("prefix", "x"), None),
]
PAIRS = [
    ("prefix", "prefix"), ("prefix", "dict"), ("prefix", "regex"), ("dict", "prefix"), ("dict", "dict"), ("dict", "regex"),
    ("regex", "prefix"), ("regex", "dict"), ("regex", "regex"), (None, "dict"), (None, "regex"), ("dict", None), ("regex", None),
]


def pair(up, down, lists):
    """A bundle with a sub-bundle, each with its own rule, and pins for it."""
    names = ["x", "y", "q0", "q1"]
    inner = {None: None, "prefix": ("prefix", "in_"), "dict": ("dict", {n: "<" + n for n in names}), "regex": ("regex", r"^r(\w\d?)r$")}[down]
    f = {None: lambda n: n, "prefix": lambda n: "in_" + n, "dict": lambda n: "<" + n, "regex": lambda n: "r%sr" % n}[down]
    g = {None: lambda n: n, "prefix": lambda n: "out_" + n, "dict": lambda n: n.upper() + "!", "regex": lambda n: "i-%s-o" % n}[up]
    outer = {None: None, "prefix": ("prefix", "out_"), "dict": ("dict", {f(n): g(f(n)) for n in names}), "regex": ("regex", r"i-(.*)-o")}[up]
    if up == "dict":
        outer[1]["s"] = g("s")
    s = S("Pair", sigs=["s"], subs={"m": (IN, inner)})
    real = [g(f(n)) for n in names] + [g("s")]
    return s, outer, real + [n for n in ("x", "in_x", "out_x", "<x", "rxr", "i-x-o") if not s.places(outer, n)]


def unique(con, what):
    assert all(len(v) == 1 for v in con.values()), (what, con)
    pins = [v[0] for v in con.values()]
    assert len(set(pins)) == len(pins), (what, con)
    return con


def show_rule(rule):
    return "no rule" if rule is None else "%s %s" % (rule[0], rule[1])


@rule("B01")
def methods(A, R):
    cases = []
    for s, ru, pins in RULES_:
        if pins is None:
            pins = list(s.names(ru).values())
        cases.append((s, ru, pins))
    for up, down in PAIRS:
        cases.append(pair(up, down, False))
    for s, ru, pins in cases:
        pins = list(dict.fromkeys(pins))
        pins = pins + [x for x in STRANGERS if x not in pins and not s.places(ru, x)]
        pins = pins + [x for x in strange(s, ru, pins) if x.isprintable()]
        con = unique(s.connect(ru, [(p, p) for p in pins]), (s.name, ru))
        want = {p: "missing" for p in s.leaves()}
        want.update(mapping(con))
        ways = [("from", None)]
        if ru is not None:
            ways.append(("set", "%s().set_%s(%r)" % (s.name, ru[0], ru[1])))
        for way, how in ways:
            code = s.classes() + "async def test():\n" + bound(s, ru, pins, how=how) + look("t", s.leaves())

            def judge(r):
                got = {p: "missing" if v == "nothing" else v for p, v in leaves(r).items()}
                return differ("the signals of the bundle are connected to pins", got, want)

            bundle(R, "%s bound by %s (%s), pins %s" % (s.name, show_rule(ru), way, ",".join(pins)[:120]), code, judge, logs=())
    # a prefix together with a dut: the pins with this prefix are the signals
    code = """
class Plain(Bundle):
    pass
class XData:
    def __init__(self, n):
        self.n = n
async def test():
    src = DUT('s', [])
    src.io_a = XData(1)
    src.io_b = XData(2)
    src.io_io_x = XData(4)
    src.xio_e = XData(5)
    src.ix_c = XData(3)
    src.io_d = 5
    d = DUT('d', ['io_a', 'io_b', 'ix_c', 'a', 'io_d', 'io_io_x', 'x', 'io_x', 'xio_e'])
    t = Plain.from_prefix('io_', src)
    u = Plain.from_prefix('io_')
    t.bind(d)
    u.bind(d)
    hook('names', [n for n, _ in t.all_signals()], [n for n, _ in u.all_signals()])
""" + look("t", ["a", "b", "io_x"])
    bundle(R, "from_prefix with a dut", code, lambda r: differ("names of the signals", [sorted(x) for x in [data(a) for a in r.find("names")[0].args]], [["a", "b", "io_x"], []])
           or differ("pins", leaves(r), {"a": "d.io_a", "b": "d.io_b", "io_x": "d.io_io_x"}))
    # classes and instances made from names and ports
    code = """
class Port:
    def __init__(self, pins):
        self.pins = pins
    def GetKeys(self):
        return list(self.pins)
    def __getitem__(self, k):
        return self.pins[k]
async def test():
    d = DUT('d', ['io_a', 'io_b', 'a'])
    t = Bundle.new_class_from_list(['a', 'b']).from_prefix('io_')
    t.bind(d)
    port = Port({'a': d.io_b, 'b': d.a})
    u = Bundle.new_class_from_xport(port).from_prefix('io_')
    u.bind(d)
    w = Bundle.from_xport(port)
    hook('names', [n for n, _ in t.all_signals()], [n for n, _ in u.all_signals()], [n for n, _ in w.all_signals()])
""" + look("t", ["a", "b"], "t") + look("u", ["a", "b"], "u") + look("w", ["a", "b"], "w")

    def judge(r):
        return (
            differ("names of the signals", [sorted(data(a)) for a in r.find("names")[0].args], [["a", "b"]] * 3)
            or differ("new_class_from_list", leaves(r, "t"), {"a": "d.io_a", "b": "d.io_b"})
            or differ("new_class_from_xport", leaves(r, "u"), {"a": "d.io_a", "b": "d.io_b"})
            or differ("from_xport", leaves(r, "w"), {"a": "d.io_b", "b": "d.a"})
        )

    bundle(R, "bundles made from names and ports", code, judge)
    # the classes' rules are those of each instance
    code = FLAT.classes() + """
class Two(Bundle):
    p = Flat.from_prefix('p_')
    q = Flat.from_dict({'a': 'x', 'b': 'y', 'c': 'z'})
    r = Flat.from_regex('^(.)!$')
async def test():
    d = DUT('d', ['p_a', 'p_b', 'p_c', 'x', 'y', 'z', 'a!', 'b!', 'c!'])
    t = Two()
    t.q.set_prefix('p_')
    u = Two()
    t.bind(d)
    u.bind(d)
""" + look("t", ["p.a", "r.b"], "t") + look("u", ["p.a", "q.b", "r.c"], "u")
    bundle(R, "rules of class level", code, lambda r: differ("pins", leaves(r, "u"), {"p.a": "d.p_a", "q.b": "d.y", "r.c": "d.c!"}) or differ("pins", leaves(r, "t"), {"p.a": "d.p_a", "r.b": "d.b!"}))

# ------------------------------------------------------------ B02, B03, B11: operations on all members

PRE = ("prefix", "io_")


def some(l, k, n):
    """Every n-th from the k-th."""
    return [x for i, x in enumerate(l) if i % n == k % n]


def variants(s):
    """[(what, names of pins there, outputs)]"""
    nm = s.names(PRE)
    ps = s.leaves()
    yield "all pins are inputs", [nm[p] for p in ps], []
    yield "some pins are outputs", [nm[p] for p in ps], [nm[p] for p in some(ps, 0, 2)]
    yield "other pins are outputs", [nm[p] for p in ps], [nm[p] for p in some(ps, 1, 2)]
    yield "some pins are missing", [nm[p] for p in some(ps, 0, 2)], []
    yield "other pins are missing", [nm[p] for p in some(ps, 1, 2)], []
    yield "some are missing, some are outputs", [nm[p] for i, p in enumerate(ps) if i % 3 != 0], [nm[p] for p in some(ps, 1, 3)]
    yield "other are missing, some are outputs", [nm[p] for i, p in enumerate(ps) if i % 3 != 2], [nm[p] for p in some(ps, 0, 3)]


MODES = {"set_write_mode_as_imme()": "imme", "set_write_mode_as_rise()": "rise", "set_write_mode_as_fall()": "fall",
         "set_write_mode(WriteMode.Imme)": "imme", "set_write_mode(WriteMode.Rise)": "rise", "set_write_mode(WriteMode.Fall)": "fall"}


@rule("B02")
def reach(A, R):
    for s in EVERY + [MANY]:
        nm = s.names(PRE)
        ps = s.leaves()
        pins = list(nm.values())
        full, flat = nested(s, lambda p: p), onelevel(s, lambda p: p)
        code = s.classes() + "async def test(v):\n" + bound(s, PRE, pins) + look("t", ps) + """
    hook('names', [n for n, _ in t.all_signals()], [p.pname for _, p in t.all_signals()])
    hook('under', [n for n, _ in t.all_signals('top')])
    hook('set')
    hook('same', t.set_all(v) is t)
    hook('random')
    t.randomize_all((1, 2), [], lambda a, b: v)
    hook('modes')
    hook('same', t.set_write_mode_as_rise() is t)
    hook('rules', list(t.all_signals_rule()))
    hook('imme')
    t.set_write_mode_as_imme()
    hook('fall')
    t.set_write_mode_as_fall()
    hook('nested')
    t.assign(%r)
    hook('onelevel')
    t.assign(%r, False)
    hook('read', t.as_dict(), t.as_dict(False))
    hook('dut', %s)
    hook('end')
""" % (full, flat, ", ".join("%s not in Bundle.detect_unconnected_signals(d)" % repr(n) for n in pins[:: max(1, len(pins) // 4)]))

        def judge(r):
            names, objs = [data(x) for x in r.find("names")[0].args]
            want = sorted("d." + p for p in pins)
            return (
                differ("pins", leaves(r), {p: "d." + nm[p] for p in ps})
                or differ("names of all signals", sorted(names), sorted(ps))
                or differ("all signals", dict(zip(names, objs)), nm)
                or differ("names of all signals below 'top'", sorted(data(r.find("under")[0].args[0])), sorted("top." + p for p in ps))
                or differ("pins written by set_all", sorted(p for p, v in writes(r, since="set", until="random")), want)
                or differ("values written by set_all", sorted({v for p, v in writes(r, since="set", until="random")}), ["v"])
                or differ("pins written by randomize_all", sorted(p for p, v in writes(r, since="random", until="modes")), want)
                or differ("pins with a new write mode", sorted(p for p, v in writes(r, "mode", since="modes", until="rules")), want)
                or differ("signals with a rule", sorted(data(r.find("rules")[0].args[0])), sorted(ps))
                or differ("answers", [args(e) for e in r.find("same")], [["True"], ["True"]])
                or differ("pins with a new write mode", sorted(p for p, v in writes(r, "mode", since="imme", until="fall")), want)
                or differ("pins with a new write mode", sorted(p for p, v in writes(r, "mode", since="fall", until="nested")), want)
                or differ("writes of assign", sorted(writes(r, since="nested", until="onelevel")), sorted(("d." + nm[p], repr(p)) for p in ps))
                or differ("writes of assign, one level", sorted(writes(r, since="onelevel", until="end")), sorted(("d." + nm[p], repr(p)) for p in ps))
                or differ("as_dict()", data(r.find("read")[0].args[0]), full)
                or differ("as_dict(False)", data(r.find("read")[0].args[1]), flat)
                or differ("pins with a user", args(r.find("dut")[0]), ["True"] * len(r.find("dut")[0].args))
            )

        bundle(R, "operations on all of %s" % s.name, code, judge, "v")
        top = s.signals + s.sigs + list(s.lists) + list(s.subs) + list(s.blists)
        for what, have in (("all", pins), ("some", some(pins, 0, 2)), ("no", [])):
            code = s.classes() + "async def test():\n    t = %s\n" % made(s.name, PRE)
            code += "".join("    hook('at', %r, t[%r] is t.%s)\n" % (n, n, n) for n in s.sigs + list(s.lists) + list(s.subs) + list(s.blists))
            code += bound(s, PRE, have)
            code += "    hook('no', t['nowhere'], t['nowhere.a'])\n"
            code += "".join("    hook('at', %r, t[%r] is t.%s)\n" % (n, n, n) for n in top)
            for q, c, _ in s.below():
                code += "".join("    hook('at', %r, t.%s[%r] is t.%s.%s)\n" % ("%s.%s" % (q, n), q, n, q, n) for n in c.signals + c.sigs + list(c.lists))
            bundle(R, "members of %s by name, %s pins" % (s.name, what), code, lambda r: differ("members that do not exist", args(r.find("no")[0]), ["None", "None"])
                   or differ("other members", [cval(e.args[0]) for e in r.find("at") if show(e.args[1]) != "True"], []), logs=())


@rule("B03")
def bulk(A, R):
    for s in (FLAT, LISTS, BLS, ALL, DEEP):
        ps = s.leaves()
        nm = s.names(PRE)
        back = {v: k for k, v in nm.items()}
        for what, pins, outs in variants(s):
            widths = {p: (0, 1, 3, 64)[i % 4] for i, p in enumerate(pins)}
            allowed = sorted("d." + p for p in pins if p not in outs)
            excl = [back[p] for p in some(pins, 0, 2)] + ["no.such"]
            for access in (True, False):
                code = s.classes() + "async def test(v):\n" + "    d = DUT('d', %r, %r, %r)\n" % (pins, outs, widths) + """
    t = %s
    t.bind(d, %s)
    hook('set')
    t.set_all(v)
    hook('random')
    t.randomize_all(random_func=lambda a, b: hook('draw', a, b))
    hook('range')
    t.randomize_all((-3, 17), random_func=lambda a, b: hook('draw', a, b))
    hook('excl')
    t.randomize_all(None, %r, lambda a, b: hook('draw', a, b))
    hook('end')
""" % (made(s.name, PRE), access, excl)

                def drawn(r, since, until):
                    """{pin: range}, in pairs of a draw and the write of its result"""
                    on, d, last = False, [], None
                    for e in r.events:
                        if e.tag == since:
                            on = True
                        elif e.tag == until:
                            on = False
                        elif on and e.tag == "draw":
                            last = e
                        elif on and e.tag == "write":
                            v = e.args[2]
                            if last is None or v.op != "call" or v.a[1] != last.e.a[1]:
                                return "writes %s, which was not drawn for it" % show(v)
                            d.append((cval(e.args[1]), tuple(cval(x) for x in last.args)))
                            last = None
                    return sorted(d)

                def judge(r):
                    full = sorted((p, (0, 2 ** (widths[p] or 1) - 1)) for p in pins if p not in outs)
                    return (
                        differ("pins written by set_all", sorted(p for p, v in writes(r, since="set", until="random")), allowed)
                        or differ("values written by set_all", {v for p, v in writes(r, since="set", until="random")} or {"v"}, {"v"})
                        or differ("ranges by the width of the pin", drawn(r, "random", "range"), full)
                        or differ("range given", drawn(r, "range", "excl"), sorted((p, (-3, 17)) for p in pins if p not in outs))
                        or differ("signals excluded", drawn(r, "excl", "end"), [x for x in full if back[x[0]] not in excl])
                    )

                bundle(R, "bulk writes of %s, %s, access %s" % (s.name, what, access), code, judge, "v", logs=())
    # the generator that is used by default
    code = FLAT.classes() + """
async def test():
    d = DUT('d', ['a', 'b', 'c'], ['c'], {'a': 4})
    t = Flat().bind(d)
    t.randomize_all()
    hook('second')
    t.randomize_all((5, 9))
"""

    def judge(r):
        got = [(cval(e.args[1]), show(e.args[2]).split("#")[0]) for e in r.find("write")]
        want = [("a", "random.randint(0, 15)"), ("b", "random.randint(0, 255)"), ("a", "random.randint(5, 9)"), ("b", "random.randint(5, 9)")]
        if not all("random.randint" in v for _, v in got):
            return Und("the values come from elsewhere: %s" % got)
        return differ("values", sorted(got), sorted(want))

    bundle(R, "random values by default", code, judge, logs=())


@rule("B11")
def modes(A, R):
    for s in (FLAT, LISTS, BLS, ALL, DEEP):
        for what, pins, outs in variants(s):
            want = sorted("d." + p for p in pins if p not in outs)
            code = s.classes() + "async def test():\n    d = DUT('d', %r, %r)\n    t = %s\n    t.bind(d)\n" % (pins, outs, made(s.name, PRE))
            for i, m in enumerate(MODES):
                code += "    hook('m%d')\n    t.%s\n" % (i, m)
            code += "    hook('m%d')\n" % len(MODES)
            code += "    u = %s\n    u.set_write_mode_as_fall()\n    u.bind(DUT('e', %r, %r))\n    hook('u')\n    u.bind(DUT('f', %r, %r))\n" % (made(s.name, PRE), pins, outs, pins, outs)
            code += "    t.set_write_mode(WriteMode.Rise)\n    hook('end')\n"

            def judge(r):
                for i, (m, name) in enumerate(MODES.items()):
                    got = writes(r, "mode", "m%d" % i, "m%d" % (i + 1))
                    bad = differ("%s of pins" % m, sorted(set(got)), sorted((p, "'%s'" % name) for p in want))
                    if bad:
                        return bad
                got = writes(r, "mode", "m%d" % len(MODES), "u")
                bad = differ("write mode chosen before binding", sorted(set(got)), sorted(("e" + p[1:], "'fall'") for p in want))
                if bad:
                    return bad
                got = writes(r, "mode", "u", "end")
                return differ("write mode when bound again", sorted({x for x in got if x[0][0] != "d"}), sorted(("f" + p[1:], "'fall'") for p in want))

            bundle(R, "write modes of %s, %s" % (s.name, what), code, judge, logs=())
    code = FLAT.classes() + """
async def test():
    d = DUT('d', ['a', 'b'])
    t = Flat().bind(d)
    hook('before')
    r = 'accepted'
    try:
        t.set_write_mode('Rise')
    except ValueError:
        r = 'refused'
    hook('after', r)
"""
    bundle(R, "no write mode", code, lambda r: differ("answer", args(r.find("after")[0]), ["'refused'"]) or differ("changes", writes(r, "mode", "before"), []), logs=())
    # the modes that pins had before
    for m in ("imme", "rise", "fall"):
        for old in ("imme", "rise", "fall"):
            code = ALL.classes() + "async def test():\n" + bound(ALL, PRE, list(ALL.names(PRE).values())) + """
    t.set_write_mode_as_%s()
    u = %s
    u.set_write_mode_as_%s()
    hook('bind')
    u.bind(d)
    hook('modes', [getattr(d, n).mode for n in %r])
    t.bind(d)
    hook('modes', [getattr(d, n).mode for n in %r])
""" % (old, made(ALL.name, PRE), m, list(ALL.names(PRE).values()), list(ALL.names(PRE).values()))
            bundle(R, "mode %s of pins that have the mode %s" % (m, old), code, lambda r: differ("modes", [sorted(set(data(e.args[0]))) for e in r.find("modes")], [[m], [old]]), logs=())
    # a part of a bundle has a mode of its own
    code = ALL.classes() + "async def test():\n" + bound(ALL, PRE, list(ALL.names(PRE).values())) + """
    hook('m')
    t.m.set_write_mode_as_imme()
    t.l[1].set_write_mode_as_fall()
    hook('all')
    t.set_write_mode_as_rise()
    t.m.set_write_mode_as_imme()
    t.l[1].set_write_mode_as_fall()
    hook('again')
    t.set_write_mode_as_rise()
    hook('end')
"""
    nm = ALL.names(PRE)
    want = sorted([("d." + nm[p], "'imme'") for p in nm if p.startswith("m.")] + [("d." + nm[p], "'fall'") for p in nm if p.startswith("l[1].")])
    bundle(R, "write mode of a part", code, lambda r: differ("write modes", sorted(set(writes(r, "mode", "m", "all"))), want)
           or differ("write modes when set again", sorted(set(writes(r, "mode", "again"))), sorted(("d." + n, "'rise'") for n in nm.values())), logs=())

# ------------------------------------------------------------ B04, B10: dictionaries


def nested(s, f, at=""):
    """The dictionary of several levels, with f(path) as the values."""
    d = {n: f(at + n) for n in s.signals + s.sigs}
    for a, (fmt, n, rule) in s.lists.items():
        d[a] = [f("%s%s[%d]" % (at, a, i)) for i in range(n)]
    for a, (c, rule) in s.subs.items():
        d[a] = nested(c, f, "%s%s." % (at, a))
    for a, (c, fmt, n, rule) in s.blists.items():
        d[a] = [nested(c, f, "%s%s[%d]." % (at, a, i)) for i in range(n)]
    return d


def onelevel(s, f, at="", key=""):
    """The dictionary of one level."""
    d = {key + n: f(at + n) for n in s.signals + s.sigs}
    for a, (fmt, n, rule) in s.lists.items():
        d[key + a] = [f("%s%s[%d]" % (at, a, i)) for i in range(n)]
    for a, c, at2 in [(a, c, a) for a, (c, rule) in s.subs.items()] + [
        ("%s[%d]" % (a, i), c, "%s[%d]" % (a, i)) for a, (c, fmt, n, rule) in s.blists.items() for i in range(n)
    ]:
        d.update(onelevel(c, f, "%s%s." % (at, at2), "%s%s." % (key, a)))
    return d


class V(object):
    """A variable in program text."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


def assigned(s, item, names, multilevel, at=""):
    """What assigning item should do: ({path: value}, [unknown names]), by the documentation."""
    d, unknown = {}, []
    if "*" in item:
        for p in s.leaves():
            d[at + p] = repr(item["*"])
    subs = {p: c for p, c, _ in s.below()}
    for k, v in item.items():
        if k == "*":
            continue
        if k in s.signals + s.sigs:
            d[at + k] = repr(v)
        elif k in s.lists:
            for i, x in enumerate(v):
                d["%s%s[%d]" % (at, k, i)] = repr(x)
        elif multilevel and k in s.subs:
            e, u = assigned(s.subs[k][0], v, names, True, "%s%s." % (at, k))
            d.update(e)
            unknown += u
        elif multilevel and k in s.blists:
            for i, x in enumerate(v):
                e, u = assigned(s.blists[k][0], x, names, True, "%s%s[%d]." % (at, k, i))
                d.update(e)
                unknown += u
        elif not multilevel and "." in k and k.split(".", 1)[0] in subs:
            a, b = k.split(".", 1)
            e, u = assigned(subs[a], {b: v}, names, False, "%s%s." % (at, a))
            d.update(e)
            unknown += u
        else:
            unknown.append(at + k)
    return d, unknown


def thin(d, k, n):
    """Leave out members of a nested dictionary; lists of dictionaries keep their length."""
    r, i = {}, k
    for key, v in d.items():
        i += 1
        if isinstance(v, dict):
            if i % n:
                r[key] = thin(v, i, n)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            if i % n:
                r[key] = [thin(x, i + j, n) for j, x in enumerate(v)]
        elif i % n:
            r[key] = v
    return r


def starred(d, names, k=0):
    """Put '*' into some of the levels."""
    r = dict(d)
    for i, (key, v) in enumerate(d.items()):
        if isinstance(v, dict):
            r[key] = starred(v, names, k + 1)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            r[key] = [starred(x, names, k + 1 + j) for j, x in enumerate(v)]
    if k % 2 == 0:
        l = list(r.items())
        l.insert(len(l) // 2, ("*", names("*")))
        r = dict(l)
    return r


@rule("B04")
def assign(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        var = {}

        def f(p):
            return var.setdefault(p, V("x%d" % len(var)))

        full, flat = nested(s, f), onelevel(s, f)
        items = [("everything", full, True), ("everything", flat, False)]
        for k, n in ((0, 2), (1, 2), (0, 3)):
            items.append(("part %d/%d" % (k, n), thin(full, k, n), True))
            items.append(("part %d/%d" % (k, n), dict(some(list(flat.items()), k, n)), False))
        for k, n in ((0, 2), (1, 3)):
            items.append(("part %d/%d with '*'" % (k, n), starred(thin(full, k, n), f), True))
            items.append(("part %d/%d with '*'" % (k, n), starred(dict(some(list(flat.items()), k, n)), f), False))
        items.append(("only '*'", {"*": f("*")}, True))
        items.append(("only '*'", {"*": f("*")}, False))
        items.append(("nothing", {}, True))
        unk = dict(some(list(full.items()), 0, 2))
        unk["nowhere"] = f("nowhere")
        unk["a.b"] = f("nowhere")
        items.append(("names that do not exist", unk, True))
        unk = dict(some(list(flat.items()), 1, 2))
        unk.update({"nowhere": f("nowhere"), "no.where": f("nowhere"), "no[0].x": f("nowhere")})
        for p, c, _ in s.below():
            unk[p + ".nowhere"] = f("nowhere")
        items.append(("names that do not exist", unk, False))
        for access in (True,):
            for wh, pins, outs in (("all pins", [nm[p] for p in ps], []), ("pins missing", [nm[p] for p in some(ps, 1, 2)], [])):
                params = ", ".join(sorted((repr(v) for v in var.values()), key=lambda v: int(v[1:])))
                code = s.classes() + "async def test(%s):\n    d = DUT('d', %r, %r)\n    t = %s\n    t.bind(d)\n" % (params, pins, outs, made(s.name, PRE))
                for i, (w, item, ml) in enumerate(items):
                    code += "    i%d = %r\n    hook('before', i%d)\n    hook('i%d')\n    t.assign(i%d%s)\n    hook('after', i%d)\n" % (i, item, i, i, i, "" if ml else ", multilevel=False", i)
                code += "    hook('i%d')\n" % len(items)

                def judge(r):
                    for i, (w, item, ml) in enumerate(items):
                        w = "%s in %s" % (w, "levels" if ml else "one level")
                        want, unknown = assigned(s, item, None, ml)
                        want = {"d." + nm[p]: v for p, v in want.items() if nm[p] in pins}
                        ws = writes(r, "write", "i%d" % i, "i%d" % (i + 1))
                        bad = differ("%s: values" % w, final(ws), want)
                        if bad:
                            return bad
                        if "*" not in str(item):
                            bad = differ("%s: number of writes" % w, len(ws), len(want))
                            if bad:
                                return bad
                        logs, on = [], False
                        for e in r.events:
                            on = e.tag == "i%d" % i or on and e.tag != "i%d" % (i + 1)
                            if on and e.tag == "log":
                                logs.append(show(e.args[1]))
                        if len(logs) != len(unknown) or not all(any(u in l for l in logs) for u in ([] if s.below() else unknown)):
                            return "%s: messages %s for the unknown names %s" % (w, logs[:5], unknown)
                        if r.find("before")[i].args[0] is not r.find("after")[i].args[0]:
                            return "%s: the dictionary given is changed" % w
                    return None

                bundle(R, "assign of %s, %s" % (s.name, wh), code, judge, params)
    code = FLAT.classes() + """
class Message:
    def __init__(self, v):
        self.v = v
    def __bundle_assign__(self, bundle):
        hook('mine', bundle is t)
        bundle.a.value = self.v

async def test(v):
    global t
    t = Flat().bind(DUT('d', ['a', 'b']))
    t.assign(Message(v))
"""
    bundle(R, "assign of a message", code, lambda r: differ("effects", [call_of(e) for e in r.events if e.tag in ("mine", "write")], ["mine(True)", "write('d', 'a', v)"]), "v")
    code = FLAT.classes() + "async def test(v):\n    t = Flat().bind(DUT('d', ['a', 'b', 'c']))\n    t.assign(5)\n"

    def judge(r):
        if writes(r):
            return "it writes %s" % writes(r)
        if not r.raised and not [e for e in r.events if e.tag == "log"]:
            return "it is accepted silently"
        return None

    bundle(R, "assign of something else", code, judge, "v", may_fail=True)
    # elements assigned on their own
    code = ALL.classes() + "async def test(v, w):\n" + bound(ALL, PRE, list(ALL.names(PRE).values())) + """
    t.v.assign([v, w])
    t.l.assign([{'x': v}, {'q': [v, w]}])
    t.m.assign({'y': w})
    hook('equal')
    t.v.assign([5, 5])
    t.assign({'v': (7, 7), 'm': {'q': [0, 0]}, 'l': [{'q': [0, 0]}, {'x': 0, 'y': 0}]})
    hook('one level')
    t.assign({'v': [w, w], 'm.q': [0, 0], 'l': [{'x': v, 'y': v}, {'q': [v, v]}], 'm.x': None, 'a': False}, False)
    t.l.assign([{}, {'x': w}], False)
    hook('end')
"""
    nm = ALL.names(PRE)
    equal = [("v[0]", "5"), ("v[1]", "5"), ("v[0]", "7"), ("v[1]", "7"), ("m.q[0]", "0"), ("m.q[1]", "0"), ("l[0].q[0]", "0"), ("l[0].q[1]", "0"), ("l[1].x", "0"), ("l[1].y", "0")]
    level = [("v[0]", "w"), ("v[1]", "w"), ("m.q[0]", "0"), ("m.q[1]", "0"), ("l[0].x", "v"), ("l[0].y", "v"), ("l[1].q[0]", "v"), ("l[1].q[1]", "v"), ("m.x", "None"), ("a", "False"), ("l[1].x", "w")]
    want = {"v[0]": "v", "v[1]": "w", "l[0].x": "v", "l[1].q[0]": "v", "l[1].q[1]": "w", "m.y": "w"}
    bundle(R, "assign of parts", code, lambda r: differ("writes", final(upto(r, "equal")), {"d." + nm[p]: v for p, v in want.items()})
           or differ("writes of equal values", sorted(writes(r, "write", "equal", "one level")), sorted(("d." + nm[p], v) for p, v in equal))
           or differ("writes of one level", sorted(writes(r, "write", "one level", "end")), sorted(("d." + nm[p], v) for p, v in level)), "v, w")
    # dictionaries of one level inside of others
    code = DEEP.classes() + "async def test(v, w):\n" + bound(DEEP, PRE, list(DEEP.names(PRE).values())) + """
    t.assign({'bs': [{'m.x': v, 'l[1].q': [v, w]}, {'u': w, 'l': [{'x': v}, {'y': w}]}], 'sub.m.y': v, 'two.n.q': [w, w]}, False)
    hook('levels')
    t.assign({'bs': [{'m': {'x': w}, 'l': [{}, {'q': [v, v]}]}, {}], 'sub': {'l': [{'x': v}, {}]}})
"""
    nd = DEEP.names(PRE)
    one = {"bs[0].m.x": "v", "bs[0].l[1].q[0]": "v", "bs[0].l[1].q[1]": "w", "bs[1].u": "w", "bs[1].l[0].x": "v", "bs[1].l[1].y": "w", "sub.m.y": "v", "two.n.q[0]": "w", "two.n.q[1]": "w"}
    lev = {"bs[0].m.x": "w", "bs[0].l[1].q[0]": "v", "bs[0].l[1].q[1]": "v", "sub.l[0].x": "v"}
    bundle(R, "one level inside of lists", code, lambda r: differ("writes", upto(r, "levels"), [("d." + nd[p], v) for p, v in one.items()]) or differ("writes of levels", writes(r, "write", "levels"), [("d." + nd[p], v) for p, v in lev.items()]), "v, w")


@rule("B10")
def as_data(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        for what, pins, outs in variants(s):
            code = s.classes() + "async def test():\n    d = DUT('d', %r, %r)\n    t = %s\n    t.bind(d)\n" % (pins, outs, made(s.name, PRE))
            code += """
    x = t.as_dict()
    y = t.as_dict(multilevel=False)
    hook('levels', x)
    hook('one', y)
    for n in %r:
        getattr(d, n).v = 'new'
    hook('kept', x, y)
    hook('write1')
    t.assign(x)
    hook('write2')
    t.assign(y, multilevel=False)
    hook('end')
""" % pins

            def judge(r):
                f = lambda p: "init." + nm[p] if nm[p] in pins else None
                want = {"d." + nm[p]: "'init.%s'" % nm[p] for p in ps if nm[p] in pins}
                return (
                    differ("data in levels", data(r.find("levels")[0].args[0]), nested(s, f))
                    or differ("data in one level", data(r.find("one")[0].args[0]), onelevel(s, f))
                    or differ("data after the pins changed", [data(a) for a in r.find("kept")[0].args], [nested(s, f), onelevel(s, f)])
                    or differ("writing back levels", final(writes(r, "write", "write1", "write2")), want)
                    or differ("writing back one level", final(writes(r, "write", "write2", "end")), want)
                    or ("messages: %s" % logs_of(r, "error")[:3] if logs_of(r, "error") else None)
                )

            bundle(R, "data of %s, %s" % (s.name, what), code, judge, logs=("error", "critical"))

# ------------------------------------------------------------ B05: missing pins


def logs_of(r, level, since=None, until=None):
    l, on = [], since is None
    for e in r.events:
        if e.tag == since:
            on = True
        elif e.tag == until:
            on = False
        elif on and e.tag == "log" and e.args[0] == level:
            l.append(show(e.args[1]))
    return l


@rule("B05")
def unconnected(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        cases = [("every pin is missing", [])] + [(w, pins) for w, pins, outs in variants(s) if "missing" in w or w == "all pins are inputs"]
        if len(ps) <= 12:
            cases += [("%s is missing" % p, [nm[q] for q in ps if q != p]) for p in ps]
        for what, pins in cases:
            for access in ("", ", True", ", unconnected_signal_access=True", ", False"):
                if access.startswith(", u") and what != "every pin is missing":
                    continue
                ok = access != ", False"
                code = s.classes() + "async def test(v):\n    d = DUT('d', %r)\n    t = %s\n    t.bind(d%s)\n    hook('bound')\n" % (pins, made(s.name, PRE), access)
                code += look("t", ps)
                code += "    hook('writes')\n"
                for p in ps:
                    if nm[p] in pins:
                        code += "    t.%s.value = v\n" % p
                        continue
                    code += "    r = 'ignored'\n    try:\n        t.%s.value = v\n    except AttributeError:\n        r = 'error'\n    hook('w', %r, r)\n" % (p, p)
                if ok:
                    code += look("t", ps, "again")

                def judge(r):
                    want = {p: "d." + nm[p] if nm[p] in pins else "nothing" if ok else "error" for p in ps}
                    bad = differ("signals", leaves(r), want)
                    if bad:
                        return bad
                    bad = differ("answers to a write", {cval(e.args[0]): cval(e.args[1]) for e in r.find("w")}, {p: "ignored" if ok else "error" for p in ps if nm[p] not in pins})
                    if bad:
                        return bad
                    bad = differ("writes", final(writes(r)), {"d." + p: "v" for p in pins})
                    if bad:
                        return bad
                    if ok:
                        bad = differ("signals after the write", leaves(r, "again"), want)
                        if bad:
                            return bad
                    logs = logs_of(r, "warning", None, "bound")
                    lost = [p for p in ps if nm[p] not in pins]
                    for p in lost:
                        if len([l for l in logs if '"%s"' % p in l]) != 1:
                            return "%d messages name the missing signal %s: %s" % (len([l for l in logs if '"%s"' % p in l]), p, logs[:6])
                    if len(logs) != len(lost):
                        return "%d messages for %d missing signals: %s" % (len(logs), len(lost), logs[:6])
                    return None

                bundle(R, "%s, %s%s" % (s.name, what, access), code, judge, "v", logs=("warning",))
    # messages name the bundle if it has a name
    code = ALL.classes() + "async def test():\n    t = %s.set_name('top')\n    t.bind(DUT('d', []))\n" % made("All", PRE)
    bundle(R, "names of a named bundle", code, lambda r: differ("missing signals named", sorted(p for p in ALL.leaves() if any('"top.%s"' % p in l for l in logs_of(r, "warning"))), sorted(ALL.leaves())), logs=("warning",))


# ------------------------------------------------------------ B06: binding again


@rule("B06")
def again(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        every = [nm[p] for p in ps]
        sets = {"all": (every, []), "half": (some(every, 0, 2), []), "rest": (some(every, 1, 2), []), "none": ([], []), "outputs": (every, some(every, 0, 2))}
        for first in sets:
            for second in sets:
                for acc1, acc2 in ((True, True), (True, False), (False, True)) if s in (LISTS, ALL) else ((True, True),):
                    if first == second == "none":
                        continue
                    code = s.classes() + "async def test(v, w):\n    d = DUT('d', %r, %r)\n    e = DUT('e', %r, %r)\n" % (sets[first] + sets[second])
                    code += "    t = %s\n    u = %s\n    t.bind(d, %s)\n    t.set_all(w)\n    hook('bind')\n    t.bind(e, %s)\n    hook('fresh')\n    u.bind(e, %s)\n    hook('set')\n" % (made(s.name, PRE), made(s.name, PRE), acc1, acc2, acc2)
                    code += look("t", ps, "t") + look("u", ps, "u")
                    code += "    hook('write1')\n    t.set_all(v)\n    hook('write2')\n    u.set_all(v)\n    hook('end')\n"
                    code += "    for n in %r:\n        hook('users', n, hasattr(getattr(d, n), 'number_of_bundles_connected_to') and getattr(d, n).number_of_bundles_connected_to != 0)\n" % sets[first][0]
                    code += "    for n in %r:\n        hook('new', n, getattr(e, n).number_of_bundles_connected_to)\n" % sets[second][0]

                    def judge(r):
                        got = leaves(r, "t")
                        return (
                            differ("signals, compared to those of a bundle bound once", got, leaves(r, "u"))
                            or differ("signals", {p: v for p, v in got.items() if v.startswith(("d.", "e."))}, {p: "e." + nm[p] for p in ps if nm[p] in sets[second][0]})
                            or differ("writes of both", writes(r, "write", "write1", "write2"), writes(r, "write", "write2", "end"))
                            or differ("pins of the first DUT that count as connected", sorted(cval(e.args[0]) for e in r.find("users") if show(e.args[1]) != "False"), [])
                            or differ("bundles connected to the pins of the second DUT", {cval(e.args[1]) for e in r.find("new")} or {2}, {2})
                        )

                    bundle(R, "%s bound to %s, then to %s pins, access %s/%s" % (s.name, first, second, acc1, acc2), code, judge, "v, w", logs=())
        # to the same one
        code = s.classes() + "async def test(v):\n    d = DUT('d', %r)\n    t = %s\n    t.bind(d)\n    t.bind(d)\n    t.bind(d)\n" % (every, made(s.name, PRE)) + look("t", ps)
        code += "    for n in %r:\n        hook('new', n, getattr(d, n).number_of_bundles_connected_to)\n" % every
        code += "    hook('go')\n    t.process_requests([{'*': v}, {'*': 5}])\n    hook('end')\n"

        def judge(r):
            ws = writes(r, "write", "go", "end")
            return (
                differ("signals", leaves(r), {p: "d." + nm[p] for p in ps})
                or differ("bundles connected to the pins", {cval(e.args[1]) for e in r.find("new")}, {1})
                or differ("writes of two requests", sorted(ws), sorted(("d." + p, x) for p in every for x in ("v", "5")))
                or differ("cycles of two requests", len(r.find("cycle")), 2)
            )

        bundle(R, "%s bound to one DUT three times" % s.name, code, judge, "v", logs=())
    # a new rule takes effect
    code = FLAT.classes() + """
async def test():
    d = DUT('d', ['a', 'b', 'x_a', 'x_c', 'q'])
    t = Flat()
    t.bind(d)
    t.set_prefix('x_')
    t.bind(d)
""" + look("t", ["a", "b", "c"], "t") + """
    t.set_dict({'b': 'q'})
    t.bind(d)
""" + look("t", ["a", "b", "c"], "u")
    bundle(R, "binding with a new rule", code, lambda r: differ("pins", leaves(r, "t"), {"a": "d.x_a", "b": "nothing", "c": "d.x_c"}) or differ("pins", leaves(r, "u"), {"a": "nothing", "b": "d.q", "c": "nothing"}), logs=())


# ------------------------------------------------------------ B09: the clock of a bundle


@rule("B09")
def clock(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        cases = [("all pins", ps)] + [("only %s" % p, [p]) for p in ps]
        for what, have in cases:
            for n in ("", "1", "3", "0"):
                if n in ("1", "0") and what != "all pins":
                    continue
                code = s.classes() + """
async def test():
    d = DUT('d', %r)
    d.event.set()
    e = DUT('e', %r)
    for x in %r:
        getattr(e, x).event = CLK.ev
    t = %s
    t.bind(d)
    t.bind(e)
    hook('start')
    await t.step(%s)
    hook('end')
""" % ([nm[p] for p in ps], [nm[p] for p in have], [nm[p] for p in have], made(s.name, PRE), n)

                def judge(r):
                    on, k = False, 0
                    for e in r.events:
                        if e.tag == "start":
                            on = True
                        elif e.tag == "end":
                            on = False
                        elif on and e.tag == "step":
                            k += 1
                    if k != int(n or 1):
                        return "it waits for %d cycles instead of %s" % (k, n or 1)
                    return None

                bundle(R, "step(%s) of %s, %s" % (n, s.name, what), code, judge, logs=())
    # a part of a bundle
    code = ALL.classes() + """
async def test():
    e = DUT('e', %r)
    for x in %r:
        getattr(e, x).event = CLK.ev
    t = %s
    t.bind(e)
    hook('start')
    for b in (t, t.m, t.l[0], t.l[1]):
        await b.step(2)
        hook('stepped')
    hook('end')
""" % (list(ALL.names(PRE).values()), list(ALL.names(PRE).values()), made("All", PRE))

    def judge(r):
        tags = r.tags("start", "step", "stepped", "end")
        return differ("cycles", tags[: tags.index("end")], ["start"] + ["step", "step", "stepped"] * 4)

    bundle(R, "step of the parts of a bundle", code, judge, logs=())


# ------------------------------------------------------------ B07: requests


@rule("B07")
def requests(A, R):
    for n in range(1, 10 if R.deep else 6):
        for shape in ("dict", "callable", "mixed", "None"):
            if shape == "None" and n > 3:
                continue
            vs = ["v%d" % i for i in range(n)]
            code = FLAT.classes() + "async def test(%s):\n    d = DUT('d', ['a', 'b', 'c'], ['c'])\n    t = Flat().bind(d)\n    other = Flat().bind(d)\n" % ", ".join(vs)
            items, want, answers = [], [], []
            seen = {"a": "'init.a'", "b": "'init.b'", "c": "'init.c'"}
            for i, v in enumerate(vs):
                want.append("cycle('d', %d)" % (i + 1))
                if shape == "None" and i % 2:
                    items.append("None")
                    continue
                pin = "ab"[i % 2]
                if shape == "callable" or shape == "mixed" and i % 3 == 1:
                    items.append("lambda c, b: {%r: %s} if hook('asked', c, b is t) is not None or True else None" % (pin, v))
                    want.append("asked(%d, True)" % (i + 1))
                    ret = False
                else:
                    ret = i % 4 != 2
                    items.append("{%r: %s%s}" % (pin, v, ", '__return_bundles__': %s" % ("t" if i % 3 else "[t, t]") if ret else ""))
                want.append("write('d', '%s', %s)" % (pin, v))
                seen[pin] = v
                if ret:
                    answers.append((i + 1, dict(seen), 1 if i % 3 else 2))
            code += "    reqs = [%s]\n    before = list(reqs)\n" % ", ".join(items)
            code += "    hook('before', reqs)\n    r = t.process_requests(reqs)\n    hook('after', reqs)\n    hook('answer', r)\n    r = t.process_requests(reqs)\n    hook('second')\n"

            def judge(r):
                k = len(want)
                ev = [e for e in r.events if e.tag in ("cycle", "write", "asked")]
                bad = differ("cycles and writes", [call_of(e) for e in ev[:k]], want)
                if bad:
                    return bad
                again_ = [call_of(e) for e in ev[k:]]
                bad = differ("cycles and writes of the same requests given again", [re.sub(r"^(cycle\('d', |asked\()\d+", r"\1", x) for x in again_], [re.sub(r"^(cycle\('d', |asked\()\d+", r"\1", x) for x in want])
                if bad:
                    return bad
                if shape != "callable" and shape != "mixed" and r.find("before")[0].args[0] is not r.find("after")[0].args[0]:
                    return "the requests of the caller are changed"
                a = r.find("answer")[0].args[0]
                got = answer(a)
                w = [(c, [{k: v for k, v in d.items()}] * m) for c, d, m in answers]
                return differ("answers", got, w)

            bundle(R, "%d requests (%s)" % (n, shape), code, judge, ", ".join(vs), logs=())
    # conditions
    for wait in itertools.product((0, 1, 2, 3, 5) if R.deep else (0, 1, 2), repeat=2):
        for how in ("dict", "callable"):
            code = FLAT.classes() + """
async def test(v, w, x, y):
    d = DUT('d', ['a', 'b', 'c'])
    t = Flat().bind(d)
    left = {'p': %d, 'q': %d}
    def ready(cycle, b, what):
        hook('ready', what, cycle, b is t)
        left[what] -= 1
        return left[what] < 0
    first = {'a': v, '__condition_func__': ready, '__condition_args__': 'p', '__return_bundles__': t}
    third = {'a': x, '__condition_func__': ready, '__condition_args__': 'q', '__return_bundles__': t}
    reqs = [first%s, {'b': w, '__return_bundles__': t}, third]
    r = t.process_requests(reqs)
    hook('answer', r)
    left = {'p': 0, 'q': 0}
    t.process_requests({'c': y})
""" % (wait[0], wait[1], "" if how == "dict" else " if False else (lambda c, b: first)")
            if how == "callable":
                code = code.replace("[first if False else (lambda c, b: first)", "[lambda c, b: first")
            c, want = 0, []
            for i, (pin, v, what) in enumerate((("a", "v", "p"), ("b", "w", None), ("a", "x", "q"), ("c", "y", None))):
                k = wait["pq".index(what)] if what else 0
                for j in range(k + 1):
                    c += 1
                    want.append("cycle('d', %d)" % c)
                    if what:
                        want.append("ready('%s', %d, True)" % (what, c))
                want.append("write('d', '%s', %s)" % (pin, v))
                if i == 0:
                    c1 = c
            c2 = c1 + 1
            c3 = c2 + wait[1] + 1

            def judge(r):
                bad = differ("cycles and writes", [call_of(e) for e in r.events if e.tag in ("cycle", "ready", "write")], want)
                if bad:
                    return bad
                got = [(c, v) for c, v in answer(r.find("answer")[0].args[0])]
                s1 = {"a": "v", "b": "'init.b'", "c": "'init.c'"}
                s2 = dict(s1, b="w")
                s3 = dict(s2, a="x")
                w = [(c1, [s1]), (c2, [s2]), (c3, [s3])]
                return differ("answers", got, w if how == "dict" else w[1:])

            bundle(R, "conditions that hold after %d and %d cycles (%s)" % (wait + (how,)), code, judge, "v, w, x, y", logs=())
    # functions
    code = FLAT.classes() + """
async def test(v, w):
    d = DUT('d', ['a', 'b', 'c'])
    t = Flat().bind(d)
    def f(cycle, b):
        hook('f', cycle, b is t, d.a.value)
        return 'F'
    def g(cycle, b):
        hook('g', cycle, b is t)
        return 'G'
    r = t.process_requests([{'a': v, '__funcs__': f, '__return_bundles__': t}, {'a': w, '__funcs__': [g, f], '__return_bundles__': t}, {'b': v, '__funcs__': [g]}])
    hook('answer', [x['__funcs_return__'] for x in r], [x['cycle'] for x in r])
"""
    want = ["cycle('d', 1)", "write('d', 'a', v)", "f(1, True, v)", "cycle('d', 2)", "write('d', 'a', w)", "g(2, True)", "f(2, True, w)", "cycle('d', 3)", "write('d', 'b', v)", "g(3, True)"]
    bundle(R, "functions of requests", code, lambda r: differ("cycles, writes and calls", [call_of(e) for e in r.events if e.tag in ("cycle", "write", "f", "g")], want)
           or differ("answers", [data(a) for a in r.find("answer")[0].args], [["F", ["G", "F"]], [1, 2]]), "v, w", logs=())
    # a bundle that moves to another DUT
    code = FLAT.classes() + """
async def test(v, w, x):
    d = DUT('d', ['a', 'b', 'c'])
    e = DUT('e', ['a', 'b', 'c'])
    t = Flat().bind(d)
    hook('answer', t.process_requests([{'a': v, '__return_bundles__': t}]))
    t.bind(e)
    hook('answer', t.process_requests([{'a': w, '__return_bundles__': t}, {'b': x}]))
    t.bind(e)
    hook('answer', t.process_requests([{'c': v, '__return_bundles__': t}]))
    t.bind(d)
    hook('answer', t.process_requests([{'c': w, '__return_bundles__': t}]))
"""
    bundle(R, "requests of a bundle that moves", code, lambda r: differ("writes", writes(r), [("d.a", "v"), ("e.a", "w"), ("e.b", "x"), ("e.c", "v"), ("d.c", "w")])
           or differ("cycles", [call_of(e) for e in r.find("cycle")], ["cycle('d', 1)", "cycle('e', 1)", "cycle('e', 2)", "cycle('e', 3)", "cycle('d', 2)"])
           or differ("answers", [answer(e.args[0]) for e in r.find("answer")], [
               [(1, [{"a": "v", "b": "'init.b'", "c": "'init.c'"}])], [(1, [{"a": "w", "b": "'init.b'", "c": "'init.c'"}])],
               [(3, [{"a": "w", "b": "x", "c": "v"}])], [(2, [{"a": "v", "b": "'init.b'", "c": "w"}])]]), "v, w, x", logs=())
    # requests that write nothing, functions that answer with the same dictionary
    code = FLAT.classes() + """
async def test(v, w):
    d = DUT('d', ['a', 'b', 'c'])
    t = Flat().bind(d)
    left = [1, 0, 2, 0]
    def ready(cycle, b, arg):
        hook('ready', cycle, arg)
        left[0] -= 1
        if left[0] < 0:
            left.pop(0)
            return True
        return False
    def f(cycle, b):
        hook('f', cycle)
        return 'F'
    common = {'a': v, '__funcs__': f, '__condition_func__': ready, '__condition_args__': w}
    r = t.process_requests([{}, {'__return_bundles__': t}, lambda c, b: {}, lambda c, b: common, lambda c, b: {'__funcs__': f}, {'__funcs__': [f, f], '__return_bundles__': [t]}, lambda c, b: common])
    hook('answer', r)
    hook('funcs', [x['__funcs_return__'] for x in r])
    hook('common', sorted(common))
"""
    cw = lambda n: "cycle('d', %d)" % n
    want3 = [cw(1), cw(2), cw(3), cw(4), "ready(4, w)", cw(5), "ready(5, w)", "write('d', 'a', v)", "f(5)", cw(6), "f(6)", cw(7), "f(7)", "f(7)", cw(8), "ready(8, w)", "write('d', 'a', v)", "f(8)"]

    def judge(r):
        ini = {"a": "'init.a'", "b": "'init.b'", "c": "'init.c'"}
        return (
            differ("cycles, writes and calls", [call_of(e) for e in r.events if e.tag in ("cycle", "write", "ready", "f")], want3)
            or differ("answers", answer(r.find("answer")[0].args[0]), [(2, [ini]), (7, [dict(ini, a="v")])])
            or differ("results of the functions", data(r.find("funcs")[0].args[0]), [None, ["F", "F"]])
            or differ("the dictionary that a function answers with", data(r.find("common")[0].args[0]), ["__condition_args__", "__condition_func__", "__funcs__", "a"])
        )

    bundle(R, "requests that write nothing and common dictionaries", code, judge, "v, w")
    # the same dictionaries processed again, with bundles to return in lists of any length
    code = FLAT.classes() + """
async def test(v, w):
    d = DUT('d', ['a', 'b', 'c'])
    t = Flat().bind(d)
    u = Flat().bind(d)
    reqs = [{'a': v, '__return_bundles__': [t]}, {'b': w, '__return_bundles__': (u)}, {'c': v, '__return_bundles__': [u, t, u]}]
    for i in range(3):
        hook('answer', t.process_requests(reqs))
    hook('answer', t.process_requests(reqs[1]))
    hook('keys', [sorted(x) for x in reqs])
"""

    def judge(r):
        ini = {"a": "'init.a'", "b": "'init.b'", "c": "'init.c'"}
        s1, s2 = dict(ini, a="v"), dict(ini, a="v", b="w")
        s3 = dict(s2, c="v")
        w = [[(1, [s1]), (2, [s2]), (3, [s3] * 3)]] + [[(k, [s3]), (k + 1, [s3]), (k + 2, [s3] * 3)] for k in (4, 7)] + [[(10, [s3])]]
        return differ("answers", [answer(e.args[0]) for e in r.find("answer")], w) or differ("keys", data(r.find("keys")[0].args[0]), [["__return_bundles__", k] for k in "abc"])

    bundle(R, "the same requests again and again", code, judge, "v, w")
    # a request which is given several times
    code = FLAT.classes() + """
async def test(v, w):
    d = DUT('d', ['a', 'b', 'c'])
    t = Flat().bind(d)
    x = {'a': v, '__return_bundles__': t}
    y = {'a': w, '__return_bundles__': t}
    r = t.process_requests([x, y, x])
    hook('answer', r)
    r = t.process_requests([y])
    hook('answer', r)
    r = t.process_requests([y, x])
    hook('answer', r)
"""

    def judge(r):
        def d(v):
            return [{"a": v, "b": "'init.b'", "c": "'init.c'"}]

        return differ("answers", [answer(e.args[0]) for e in r.find("answer")], [[(1, d("v")), (2, d("w")), (3, d("v"))], [(4, d("w"))], [(5, d("w")), (6, d("v"))]]) or differ(
            "writes", [v for p, v in writes(r)], ["v", "w", "v", "w", "w", "v"])

    bundle(R, "requests given several times", code, judge, "v, w", logs=())
    # nested bundles, and several bundles on one DUT
    code = ALL.classes() + "async def test(v, w):\n" + bound(ALL, PRE, list(ALL.names(PRE).values())) + """
    u = %s.bind(d)
    r = t.process_requests([{'m': {'x': v}, 'v': [v, w], '__return_bundles__': t.m}, {'l': [{'x': w}, {}], '__return_bundles__': [t.l[0], t.m]}])
    hook('one')
    u.process_requests({'a': v})
    hook('two')
    t.process_requests([])
    hook('answer', r)
""" % made("All", PRE)

    def judge(r):
        mx = {"x": "v", "y": "'init.io_m_y'", "q": ["'init.io_m_q0'", "'init.io_m_q1'"]}
        l0 = {"x": "w", "y": "'init.io_l_0_y'", "q": ["'init.io_l_0_q0'", "'init.io_l_0_q1'"]}
        return (
            differ("writes", writes(r), [("d.io_m_x", "v"), ("d.io_v_0", "v"), ("d.io_v_1", "w"), ("d.io_l_0_x", "w"), ("d.io_a", "v")])
            or differ("answers", answer(r.find("answer")[0].args[0]), [(1, [mx]), (2, [l0, mx])])
            or differ("cycles", len(r.find("cycle")), 3)
        )

    bundle(R, "requests for parts of a bundle", code, judge, "v, w", logs=())


def answer(t):
    """[(cycle, [observed values])] of a result of process_requests, values as shown."""
    def val(x):
        if x.op == "dictof":
            return {cval(e.a[0]): val(e.a[1]) for e in x.a[0]}
        if x.op == "seq":
            return [val(e.a[0]) for e in x.a[0]]
        if x.op == "tuple":
            return [val(e) for e in x.a]
        return show(x)

    r = []
    for e in val(t):
        v = e["data"]
        r.append((int(e["cycle"]), v if isinstance(v, list) else [v]))
    return r


# ------------------------------------------------------------ B08: instances


@rule("B08")
def instances(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        every = [nm[p] for p in ps]
        for order in ("made together", "made later", "bound at once"):
            code = s.classes() + "async def test(v, w):\n    d = DUT('d', %r)\n    e = DUT('e', %r)\n    f = DUT('f', %r)\n" % (every, every, every)
            new = made(s.name, PRE)
            code += "    t = %s\n" % new
            if order == "made later":
                code += "    t.bind(d)\n    u = %s\n    x = %s\n" % (new, new)
            elif order == "made together":
                code += "    u = %s\n    x = %s\n    t.bind(d)\n" % (new, new)
            else:
                code += "    x = %s\n    t.bind(d)\n    u = %s\n" % (new, new)
            code += look("u", ps, "fresh") + look("x", ps, "fresh")
            code += "    hook('modes')\n    t.set_write_mode_as_rise()\n    u.bind(e)\n    hook('writes')\n    u.set_all(v)\n    hook('end')\n"
            code += look("t", ps, "t") + look("u", ps, "u")
            code += "    t.set_prefix('none_')\n    t.set_name('other')\n    t.bind(d, False)\n    x.bind(f)\n" + look("x", ps, "x") + look("u", ps, "u2")
            code += "    hook('write2')\n    x.process_requests({'*': w})\n    hook('end2')\n    hook('names', u.name == x.name)\n"

            def judge(r):
                return (
                    differ("signals of the others after the first is bound", leaves(r, "fresh"), {p: "error" for p in ps})
                    or differ("signals of the first", leaves(r, "t"), {p: "d." + nm[p] for p in ps})
                    or differ("signals of the second", leaves(r, "u"), {p: "e." + nm[p] for p in ps})
                    or differ("write modes", {p.split(".")[0] for p, m in writes(r, "mode", "modes", "writes")} - {"d"}, set())
                    or differ("writes to the second", sorted(writes(r, "write", "writes", "end")), sorted(("e." + p, "v") for p in every))
                    or differ("signals of the third", leaves(r, "x"), {p: "f." + nm[p] for p in ps})
                    or differ("signals of the second after the first and the third have been bound", leaves(r, "u2"), {p: "e." + nm[p] for p in ps})
                    or differ("requests to the third", sorted(writes(r, "write", "write2", "end2")), sorted(("f." + p, "w") for p in every))
                    or differ("cycles", sorted({cval(e.args[0]) for e in r.find("cycle")}), ["f"])
                    or differ("the second and the third have the same name", args(r.find("names")[0]), ["True"])
                )

            bundle(R, "three of %s, %s" % (s.name, order), code, judge, "v, w", logs=())
        # the rule of a part
        for part, c, ru in s.below():
            code = s.classes() + "async def test(v):\n    d = DUT('d', %r)\n    t = %s\n    u = %s\n" % (every, made(s.name, PRE), made(s.name, PRE))
            code += "    t.%s.set_prefix('none_')\n    t.%s.set_write_mode_as_fall()\n    x = %s\n    t.bind(d)\n    hook('modes')\n    u.bind(d)\n    x.bind(d)\n" % (part, part, made(s.name, PRE))
            code += look("u", ps, "u") + look("x", ps, "x") + look("t", ps, "t")

            def judge(r):
                got = {p: v for p, v in leaves(r, "t").items()}
                return (
                    differ("signals of the second", leaves(r, "u"), {p: "d." + nm[p] for p in ps})
                    or differ("signals of the third", leaves(r, "x"), {p: "d." + nm[p] for p in ps})
                    or differ("signals of the first", got, {p: "nothing" if p.startswith(part + ".") else "d." + nm[p] for p in ps})
                    or differ("write modes of the second and third", writes(r, "mode", "modes", "t"), [])
                )

            bundle(R, "a rule for %s of one %s" % (part, s.name), code, judge, "v", logs=())
    # classes derived from others
    code = FLAT.classes() + """
class More(Flat):
    extra = Signal()
    sub = Flat.from_prefix('s_')
class Other(Flat):
    b = Flat.from_prefix('b_')
async def test():
    d = DUT('d', ['a', 'b', 'c', 'extra', 's_a', 'b_a'])
    x = More().bind(d)
    t = Flat().bind(d)
    y = Other().bind(d)
    hook('names', [n for n, _ in t.all_signals()], [n for n, _ in x.all_signals()], [n for n, _ in y.all_signals()])
""" + look("t", ["a", "b", "c"], "t") + look("x", ["a", "b", "c", "extra", "sub.a", "sub.b"], "x") + look("y", ["a", "c", "b.a", "b.b"], "y")

    def judge(r):
        return (
            differ("names", [sorted(data(a)) for a in r.find("names")[0].args], [["a", "b", "c"], ["a", "b", "c", "extra", "sub.a", "sub.b", "sub.c"], ["a", "b.a", "b.b", "b.c", "c"]])
            or differ("signals of the base", leaves(r, "t"), {x: "d." + x for x in "abc"})
            or differ("signals of the derived", leaves(r, "x"), {"a": "d.a", "b": "d.b", "c": "d.c", "extra": "d.extra", "sub.a": "d.s_a", "sub.b": "nothing"})
            or differ("signals of the other", leaves(r, "y"), {"a": "d.a", "c": "d.c", "b.a": "d.b_a", "b.b": "nothing"})
        )

    bundle(R, "derived classes", code, judge, logs=())


    # members of the base class, and members that an instance makes itself
    for where in ("class", "instance"):
        if where == "class":
            text = "class More(All):\n    extra = Signal()\nclass Most(More):\n    pass\n"
        else:
            text = """
class Most(Bundle):
    u = Signal()
    extra = Signal()
    def __init__(self):
        super().__init__()
        self.v = SignalList('v_#', 2)
        self.m = In.from_prefix('m_')
        self.l = BundleList(In, 'l_#_', 2)
    a, b = Signals(2)
"""
        nm = dict(ALL.names(PRE), extra="io_extra")
        ps, every = list(nm), list(nm.values())
        code = ALL.classes() + text + """
async def test(v, w):
    d = DUT('d', %r)
    e = DUT('e', %r)
    t = Most.from_prefix('io_')
    u = Most.from_prefix('io_')
    t.bind(d)
    u.bind(e)
    hook('names', [n for n, _ in t.all_signals()])
    hook('set')
    t.set_all(v)
    hook('assign')
    u.assign({'l': [{'x': v}, {'q': [v, w]}], 'v': [w, w], 'm': {'y': w}, 'extra': w})
    hook('moved')
    u.bind(d)
    t.bind(e)
    hook('users', Bundle.detect_unconnected_signals(d), Bundle.detect_multiple_connections(e))
""" % (every, every) + look("t", ps, "t") + look("u", ps, "u")

        def judge(r):
            return (
                differ("names", sorted(data(r.find("names")[0].args[0])), sorted(ps))
                or differ("pins written", sorted(writes(r, "write", "set", "assign")), sorted(("d." + p, "v") for p in every))
                or differ("writes of the second", final(writes(r, "write", "assign", "moved")), {"e." + nm[p]: x for p, x in (
                    ("l[0].x", "v"), ("l[1].q[0]", "v"), ("l[1].q[1]", "w"), ("v[0]", "w"), ("v[1]", "w"), ("m.y", "w"), ("extra", "w"))})
                or differ("users of the pins", [data(a) for a in r.find("users")[0].args], [[], []])
                or differ("signals of the first", leaves(r, "t"), {p: "e." + nm[p] for p in ps})
                or differ("signals of the second", leaves(r, "u"), {p: "d." + nm[p] for p in ps})
            )

        bundle(R, "members of the %s" % ("base class" if where == "class" else "instance"), code, judge, "v, w", logs=())


# ------------------------------------------------------------ B12: looking for connections


def dotted(s, path):
    """The name by which a signal is looked for: list elements go by the name of their signal."""
    for nm, p in s.own().items():
        if p == path:
            return nm
    for p, c, ru in s.below():
        if path.startswith(p + "."):
            return "%s.%s" % (p, dotted(c, path[len(p) + 1:]))
    raise KeyError(path)


@rule("B12")
def looking(A, R):
    cases = [(s, ru, pins if pins is not None else list(s.names(ru).values())) for s, ru, pins in RULES_]
    cases += [pair(up, down, False) for up, down in PAIRS]
    for s, ru, pins in cases:
        pins = list(dict.fromkeys(pins))
        names = list(dict.fromkeys(pins + STRANGERS + s.leaves()[:2] + some(strange(s, ru, pins), 0, 4)))
        ps = s.leaves()
        fits = {n: {dotted(s, p) for p in s.places(ru, n)} for n in names}
        some_ = names[::5] if len(names) > 40 else names[::2] if len(names) > 16 else names
        asked = [(n, x) for i, n in enumerate(some_) for x in sorted(fits[n]) + some(sorted(dotted(s, p) for p in ps), i, max(1, len(ps) // 2))[:3] + ["zz"]]
        for when in ("before", "after"):
            code = s.classes() + "async def test():\n    d = DUT('d', %r)\n    t = %s\n" % (pins, made(s.name, ru))
            if when == "after":
                code += "    t.bind(d)\n" + look("t", ps, "first")
            code += "    hook('quiet')\n"
            code += "    hook('fits', [n for n in %r if t.detect_connectivity(n)])\n" % names
            code += "    hook('asked', [n + ' to ' + x for n, x in %r if t.detect_specific_connectivity(n, x)])\n" % asked
            code += "    hook('rules', t.all_signals_rule())\n    hook('loud')\n"
            if when == "before":
                code += look("t", ps, "first")
                code += "    hook('users', [n for n in %r if hasattr(getattr(d, n), 'number_of_bundles_connected_to')])\n    t.bind(d)\n" % pins
            else:
                code += look("t", ps, "then")
                code += "    hook('users', [n for n in %r if getattr(d, n).number_of_bundles_connected_to != 1])\n    hook('clock')\n    t.bind(d)\n" % [c[0] for c in s.connect(ru, [(p, p) for p in pins]).values()]
            code += look("t", ps, "bound")

            def judge(r):
                con = {p: "nothing" for p in ps}
                con.update(mapping(unique(s.connect(ru, [(p, p) for p in pins]), s.name)))
                on, what = False, []
                for e in r.events:
                    on = e.tag == "quiet" or on and e.tag != "loud"
                    if on and e.tag in ("write", "mode", "cycle"):
                        what.append(call_of(e))
                simple = ru is None or ru[0] == "prefix"
                rules = data(r.find("rules")[0].args[0])
                return (
                    differ("effects on the DUT", what, [])
                    or differ("names that can be connected", sorted(data(r.find("fits")[0].args[0])), sorted(n for n in names if fits[n]))
                    or differ("names that can be connected to a signal", sorted(set(data(r.find("asked")[0].args[0]))), sorted({"%s to %s" % (n, x) for n, x in asked if x in fits[n]}))
                    or differ("signals with a rule", sorted(rules), sorted(ps))
                    or (differ("rules", rules, s.names(ru)) if simple and len(s.names(ru)) == len(ps) and plain(s) else None)
                    or differ("signals", leaves(r, "first"), {p: "error" for p in ps} if when == "before" else con)
                    or (differ("signals afterwards", leaves(r, "then"), con) if when == "after" else None)
                    or differ("pins with another number of users", data(r.find("users")[0].args[0]), [])
                    or differ("signals when bound", leaves(r, "bound"), con)
                )

            bundle(R, "looking %s binding, %s with %s, pins %s" % (when, s.name, show_rule(ru), ",".join(pins)[:100]), code, judge, logs=())
    # nested: a sub-bundle looked at on its own
    code = ALL.classes() + "async def test():\n    t = %s\n" % made("All", PRE) + """
    hook('fits', [n for n in ('m_x', 'x', 'q1', 'm_q0', 'u') if t.m.detect_connectivity(n)], [n for n in ('l_1_x', 'l_0_x', 'x') if t.l[1].detect_connectivity(n)])
    t.set_name('top')
    hook('rules', sorted(t.all_signals_rule()))
    t.set_prefix('p')
    hook('again', [n for n in ('io_a', 'pa', 'pv_0', 'pm_x', 'pl_0_x') if t.detect_connectivity(n)])
"""
    bundle(R, "looking at parts and after a change of the rule", code, lambda r: differ("parts", [data(a) for a in r.find("fits")[0].args], [["m_x", "m_q0"], ["l_1_x"]])
           or differ("names", data(r.find("rules")[0].args[0]), sorted("top." + p for p in ALL.leaves())) or differ("new rule", data(r.find("again")[0].args[0]), ["pa", "pv_0", "pm_x", "pl_0_x"]), logs=())


def plain(s):
    """No dictionary or pattern below."""
    return all((ru is None or ru[0] == "prefix") and plain(c) for p, c, ru in s.below())


# ------------------------------------------------------------ B13: who uses the pins


@rule("B13")
def users(A, R):
    for s in EVERY:
        ps = s.leaves()
        nm = s.names(PRE)
        every = [nm[p] for p in ps]
        more = ["other", "io", "zz_x"]
        for what, pins, outs in variants(s):
            code = s.classes() + "class Some(Bundle):\n    signals = %r\n" % some(pins, 0, 2) + "async def test(v):\n    d = DUT('d', %r, %r)\n    e = DUT('e', %r)\n" % (pins + more, outs, some(every, 0, 3))
            code += "    def seen(what):\n        hook(what, Bundle.detect_unconnected_signals(d), Bundle.detect_multiple_connections(d), Bundle.detect_unconnected_signals(e), Bundle.detect_multiple_connections(e))\n"
            code += "    seen('none')\n    t = %s\n    seen('made')\n    t.bind(d)\n    seen('one')\n    o = Some()\n    o.bind(d)\n    seen('two')\n    u = %s\n    u.bind(d, False)\n    seen('three')\n" % (made(s.name, PRE), made(s.name, PRE))
            code += "    t.bind(e)\n    seen('moved')\n    t.set_all(v)\n    t.as_dict()\n    seen('used')\n    u.bind(e)\n    o.bind(e)\n    seen('all moved')\n    t.bind(d)\n    seen('back')\n"

            def judge(r):
                D, E = sorted(pins + more), sorted(some(every, 0, 3))
                T, U, O = [p for p in pins], [p for p in pins], some(pins, 0, 2)
                for tag, t, o, u in (
                    ("none", "", "", ""), ("made", "", "", ""), ("one", "d", "", ""), ("two", "d", "d", ""), ("three", "d", "d", "d"),
                    ("moved", "e", "d", "d"), ("used", "e", "d", "d"), ("all moved", "e", "e", "e"), ("back", "d", "e", "e"),
                ):
                    want = []
                    for k, l in (("d", D), ("e", E)):
                        n = {p: (t == k and p in every) + (u == k and p in every) + (o == k and p in O) for p in l}
                        want += [sorted(p for p in l if n[p] == 0), sorted(p for p in l if n[p] > 1)]
                    got = [sorted(data(a)) for a in r.find(tag)[0].args]
                    bad = differ("pins of d not connected, d connected twice, e not connected, e connected twice, '%s'" % tag, got, want)
                    if bad:
                        return bad
                return None

            bundle(R, "pins used by %s, %s" % (s.name, what), code, judge, "v", logs=())
