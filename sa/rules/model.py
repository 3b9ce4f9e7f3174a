"""Attaching models: which hooks and ports see which methods."""

import itertools

from .world import *
from .executor import interval
from .hooks import of_all_kinds, scenario, events, call_of, args, fine

ENV = """
SEEN = {}
class Stop(Exception):
    pass
class A(Agent):
    def __init__(self, b, name):
        self.who = name
        super().__init__(b)
    @driver_method()
    async def put(self, x):
        pass
    @driver_method()
    async def get(self, x):
        pass
    @driver_method()
    async def putx(self, x):
        pass
    @driver_method()
    async def put__x(self, x):
        pass
    @monitor_method()
    async def mon(self):
        left = SEEN[self.who]
        if not left:
            raise Stop()
        return left.pop(0)
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle(), "a")
        self.ab = A(ClockedBundle(), "ab")
        self.b = A(ClockedBundle(), "b")
"""
AGENTS = ("a", "ab", "b")
METHODS = [g + "." + m for g in AGENTS for m in ("put", "get", "putx", "put__x")]
MONITORS = [g + ".mon" for g in AGENTS]

# attribute name, settings, methods selected
DRIVER = [
    ("f", "'a.put'", ["a.put"]),
    ("f", "%s_path='ab.get'", ["ab.get"]),
    ("put", "agent_name='b'", ["b.put"]),
    ("putx", "agent_name='ab'", ["ab.putx"]),
    ("put", "agent_name='a', %s_name='get'", ["a.get"]),
    ("a__put", "", ["a.put"]),
    ("ab__putx", "", ["ab.putx"]),
    ("_f", "'a.put__x'", ["a.put__x"]),
    ("put__x", "agent_name='a'", ["a.put__x"]),
]
MONITOR = [
    ("f", "'a.mon'", ["a.mon"]),
    ("f", "%s_path='ab.mon'", ["ab.mon"]),
    ("mon", "agent_name='b'", ["b.mon"]),
    ("put", "agent_name='a', %s_name='mon'", ["a.mon"]),
    ("ab__mon", "", ["ab.mon"]),
    ("_f", "'ab.mon'", ["ab.mon"]),
]


def of(*names):
    return [m for m in METHODS + MONITORS if m.split(".")[0] in names]


AGENT = [
    ("a", "", of("a")),
    ("ab", "", of("ab")),
    ("f", "'b'", of("b")),
    ("b", "'a'", of("a")),
    ("f", "agent_name='ab'", of("ab")),
    ("f", "agents=['a']", of("a")),
    ("f", "agents=['a', 'b']", of("a", "b")),
    ("ab", "agents=['a', 'b']", of("a", "b")),
    ("f", "methods=['a.put']", ["a.put"]),
    ("a", "methods=['ab.putx', 'b.mon']", ["ab.putx", "b.mon"]),
    ("f", "agents=['ab'], methods=['a.get']", of("ab") + ["a.get"]),
    ("f", "'ab', methods=['a.get', 'b.mon']", of("ab") + ["a.get", "b.mon"]),
    ("_f", "'ab'", of("ab")),
    ("_f", "methods=['b.put__x']", ["b.put__x"]),
]


def member(kind, name, deco):
    """Class body of a model with one consumer."""
    if kind.endswith("hook"):
        deco = deco.replace("%s", kind.split("_")[0])
        sig, say = {
            "driver_hook": ("x", "x"),
            "monitor_hook": ("x", "x"),
            "agent_hook": ("name, v", "v if name.endswith('.mon') else (name, v['x'])"),
        }[kind]
        return "    @%s(%s)\n    def %s(self, %s): hook('model', %s)\n" % (kind, deco, name, sig, say)
    deco = deco.replace("%s", kind[:-4].lower())
    deco = deco.replace("''", "")
    return "    def __init__(self):\n        super().__init__()\n        self.%s = %s(%s)\n" % (name, kind, deco + (", " if deco else "") + "maxsize=-1")


RUN = """
async def test():
    for n in %r:
        SEEN[n] = [(n + ".mon",)]
    e = E()
    m = M()
    e.attach(m)
    await cycle()
    for n in %r:
        for k in ("put", "get", "putx", "put__x"):
            await getattr(getattr(e, n), k)((n + "." + k,))
    await cycle()
    await cycle()
%s"""


def program(kind, name, deco):
    drain = ""
    if kind.endswith("Port"):
        get = "await m.%s()" % name
        if kind == "AgentPort":
            drain = "    while m.%s.qsize():\n        p, v = %s\n        hook('model', v if p.endswith('.mon') else (p, v['x']))\n" % (name, get)
        else:
            drain = "    while m.%s.qsize():\n        hook('model', %s)\n" % (name, get)
    return ENV + "class M(Model):\n" + member(kind, name, deco) + RUN % (AGENTS, AGENTS, drain)


KINDS = [
    ("driver_hook", DRIVER), ("DriverPort", DRIVER), ("monitor_hook", MONITOR), ("MonitorPort", MONITOR),
    ("agent_hook", AGENT), ("AgentPort", AGENT),
]


def reached(kind, want):
    def show_one(m):
        if kind.startswith(("agent", "Agent")) and not m.endswith(".mon"):
            return "model(('%s', ('%s')))" % (m, m)
        return "model(('%s'))" % m

    exp = sorted(show_one(m) for m in want)

    def judge(r):
        got = sorted(call_of(e) for e in r.events if e.tag == "model")
        if got == exp:
            return None
        if any("star" in g or "awaited" in g or "call" in g for g in got):
            return "the consumer gets %s instead of %s" % (got, exp)
        return "the consumer gets %s instead of %s" % (got, exp)

    return judge


@rule("M01")
def matching(A, R):
    of_all_kinds(R, True)
    of_all_kinds(R, False)
    for kind, forms in KINDS:
        for name, deco, want in forms:
            scenario(R, "%s(%s) on attribute %s" % (kind, deco.replace("%s", kind.split("_")[0].replace("Port", "").lower()), name),
                     program(kind, name, deco), "", reached(kind, want), fails=3)
        if kind.startswith(("driver", "Driver")):
            for name in ("a__put__x", "a__put__", "a___put"):
                code = program(kind, name, "").replace("    e.attach(m)\n", "    try:\n        e.attach(m)\n    except ValueError:\n        return\n")
                scenario(R, "%s on attribute %s" % (kind, name), code, "", reached(kind, []), may_fail=True)
    # names of many shapes
    for g, d, mo in (("Bus2", "putX", "Mon"), ("a_b", "p", "m_1"), ("X", "PUT", "out"), ("i0", "Put_0_", "MON9")):
        names = {"g": g, "d": d, "m": mo}
        code = """
SEEN = [('monitored',)]
class Stop(Exception):
    pass
class A(Agent):
    @driver_method()
    async def %(d)s(self, x):
        pass
    @driver_method()
    async def zz(self, x):
        pass
    @monitor_method()
    async def %(m)s(self):
        if not SEEN:
            raise Stop()
        return SEEN.pop(0)
class B(Agent):
    @driver_method()
    async def %(d)s(self, x):
        pass
class E(Env):
    def __init__(self):
        super().__init__()
        self.%(g)s = A(ClockedBundle())
        self.%(g)sx = B(ClockedBundle())
class Hooks(Model):
    @driver_hook()
    def %(g)s__%(d)s(self, x):
        hook('model', 'driver', x)
    @monitor_hook()
    def %(g)s__%(m)s(self, x):
        hook('model', 'monitor', x)
    @agent_hook()
    def %(g)s(self, n, x):
        hook('model', 'agent', n)
class Ports(Model):
    def __init__(self):
        super().__init__()
        self.%(g)s__%(d)s = DriverPort()
        self.%(g)s__%(m)s = MonitorPort()
        self.%(g)s = AgentPort()
class Methods(Model):
    def __init__(self):
        super().__init__()
        self.%(d)s = DriverPort(agent_name='%(g)s')
        self.%(m)s = MonitorPort(agent_name='%(g)s')
        self.f = AgentPort(methods=['%(g)s.%(d)s'], agents=['%(g)sx'])
async def test():
    e = E()
    models = [Hooks(), Ports(), Methods()]
    for m in models:
        e.attach(m)
    await e.%(g)s.%(d)s(('first',))
    await e.%(g)s.zz(('other',))
    await e.%(g)sx.%(d)s(('x',))
    await cycle()
    await cycle()
    hook('ports', [p.qsize() for p in (models[1].%(g)s__%(d)s, models[1].%(g)s__%(m)s, models[1].%(g)s, models[2].%(d)s, models[2].%(m)s, models[2].f)])
    hook('paths', e.%(g)s.drivers['%(d)s'].path, e.%(g)sx.drivers['%(d)s'].path, e.%(g)s.monitors['%(m)s'].path)
""" % names

        def judge(r):
            got = sorted(call_of(e) for e in r.events if e.tag == "model")
            want = sorted(["model('agent', '%s.%s')" % (g, x) for x in (d, "zz", mo)] + ["model('driver', ('first'))", "model('monitor', ('monitored'))"])
            if got != want:
                return "the hooks get %s instead of %s" % (got, want)
            n = args(r.find("ports")[0])
            if n != ["seq(%s)" % ", ".join("one(%d)" % i for i in (1, 1, 3, 1, 1, 2))] and n != ["seq((%s))" % ", ".join("one(%d)" % i for i in (1, 1, 3, 1, 1, 2))]:
                return "the ports get %s values" % n

        scenario(R, "agent %s with methods %s and %s" % (g, d, mo), code, "", judge, fails=1)
    # a second attachment of another instance of the model, another environment
    for kind, forms in KINDS:
        name, deco, want = forms[1]
        code = program(kind, name, deco).replace("    e = E()\n    m = M()\n    e.attach(m)\n", "    e0 = E()\n    m0 = M()\n    e0.attach(m0)\n    for n in %r:\n        SEEN[n] = [(n + \".mon\",)]\n    e = E()\n    m = M()\n    e.attach(m)\n" % (AGENTS,))
        scenario(R, "%s of two instances of a model" % kind, code, "", reached(kind, want), may_fail=True) if not kind.lower().startswith(("monitor", "agent")) else None


WRONG = {
    "driver": [("f", "'zz.put'"), ("f", "'a.zz'"), ("f", "'put'"), ("zz", "agent_name='a'"), ("put", "agent_name='zz'"), ("f", "agent_name='a', %s_name='zz'"), ("a__zz", ""), ("put", ""), ("f", "'a.mon'"), ("f", "'A.put'"), ("a__put__x", "")],
    "monitor": [("f", "'zz.mon'"), ("f", "'a.zz'"), ("f", "'mon'"), ("zz", "agent_name='a'"), ("mon", "agent_name='zz'"), ("f", "agent_name='a', %s_name='zz'"), ("a__zz", ""), ("mon", ""), ("f", "'a.put'")],
    "agent": [("zz", ""), ("f", "'zz'"), ("f", "agents=['zz']"), ("f", "agents=['a', 'zz']"), ("f", "agents=['a', 'attached_models']"), ("f", "agents=['a', 'attach']"), ("f", "'attached_models', methods=['a.put']"), ("f", "agents=['zz', 'a']"), ("f", "methods=['a.zz']"), ("f", "methods=['zz.put']"),
              ("f", "methods=['a.put', 'a.zz']"), ("f", "methods=['a.zz', 'a.put']"), ("f", "methods=['a.put', 'a.get', 'zz.put']"), ("f", "agents=['a'], methods=['a.zz', 'ab.put']"), ("f", "'zz', methods=['a.put']"),
              ("f", "methods=['a.put', 'put']")],
}
ATTACH = """
async def test():
    for n in %r:
        SEEN[n] = []
    e = E()
    m = M()
    %%s
    try:
        e.attach(m)
    except ValueError:
        hook("refused", m.is_attached(), m in e.attached_models)
    else:
        hook("accepted", m.is_attached(), m in e.attached_models)
""" % (AGENTS,)


def verdict(want):
    def judge(r):
        got = [e for e in r.events if e.tag in ("refused", "accepted")]
        if r.raised:
            return "attach raises %s" % r.raised
        if [e.tag for e in got] != [want]:
            return "the model is %s" % [e.tag for e in got]
        if args(got[0]) != ["True" if want == "accepted" else "False"] * 2:
            return "the %s model counts as attached: %s" % (want, args(got[0]))
        return None

    return judge


@rule("M02")
def refused(A, R):
    def wrap(m, other=""):
        if "__init__" not in m and "__init__" in other:
            return "class M(Model):\n" + other + m
        return "class M(Model):\n" + m + other

    good = "    @driver_hook('b.get')\n    def good1(self, x): pass\n    @agent_hook('b')\n    def good2(self, n, v): pass\n"
    for kind, _ in KINDS:
        base = kind.split("_")[0].replace("Port", "").lower()
        for name, deco in WRONG[base]:
            what = "%s(%s) on attribute %s" % (kind, deco.replace("%s", base), name)
            for beside in (False, True):
                m = wrap(member(kind, name, deco), good if beside else "")
                scenario(R, "%s%s is refused" % (what, ", beside matching hooks," if beside else ""), ENV + m + ATTACH % "pass", "", verdict("refused"), may_fail=True)
        for name, deco, _ in dict(KINDS)[kind]:
            what = "%s(%s) on attribute %s" % (kind, deco.replace("%s", base), name)
            scenario(R, what + " is accepted", ENV + wrap(member(kind, name, deco), good) + ATTACH % "pass", "", verdict("accepted"), may_fail=True)
    # what matched at an earlier attachment does not count
    small = """
class E2(Env):
    def __init__(self):
        super().__init__()
        self.ab = A(ClockedBundle(), "ab")
"""
    for kind, name, deco in (
        ("driver_hook", "f", "'a.put'"), ("DriverPort", "f", "'a.put'"), ("monitor_hook", "f", "'a.mon'"), ("MonitorPort", "f", "'a.mon'"),
        ("agent_hook", "f", "agents=['ab', 'a']"), ("AgentPort", "f", "agents=['ab', 'a']"), ("agent_hook", "f", "methods=['ab.put', 'a.put']"),
        ("AgentPort", "f", "methods=['ab.put', 'a.put']"), ("agent_hook", "a", ""), ("AgentPort", "a", ""), ("agent_hook", "f", "'a'"), ("AgentPort", "f", "'a'"),
    ):
        for how, first in (("the same model", "E().attach(m)\n    e = E2()"), ("another instance", "E().attach(M())\n    e = E2()"),
                           ("the detached model", "E().attach(m).unattach(m)\n    e = E2()")):
            if how == "another instance" and kind.endswith("Port"):
                continue
            scenario(R, "%s(%s): an earlier match of %s does not count" % (kind, deco or name, how),
                     ENV + small + wrap(member(kind, name, deco)) + ATTACH % first, "", verdict("refused"), may_fail=True)
        scenario(R, "%s(%s): a model refused by one environment fits another" % (kind, deco or name),
                 ENV + small + wrap(member(kind, name, deco)) + ATTACH % "try:\n        E2().attach(m)\n    except ValueError:\n        pass", "", verdict("accepted"), may_fail=True)


HIST = """
SEEN = {}
class Stop(Exception):
    pass
class A(Agent):
    @driver_method()
    async def put(self, x):
        hook("dut", x)
    @monitor_method()
    async def mon(self):
        if self not in SEEN:
            raise Stop()
        return SEEN.pop(self)
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
class M(Model):
    def __init__(self, name):
        super().__init__()
        self.name = name
        %s
    %s
"""
HOOKS_ = ("pass", "@driver_hook('a.put')\n    def f(self, x): hook('model', self.name, x)\n    @agent_hook('a')\n    def g(self, n, v): hook('model', self.name, v if n == 'a.mon' else v['x'])\n    @monitor_hook('a.mon')\n    def h(self, v): hook('model', self.name, v)\n")
PORTS_ = ("self.p = DriverPort('a.put', maxsize=-1)\n        self.q = AgentPort('a', maxsize=-1)\n        self.r = MonitorPort('a.mon', maxsize=-1)", "")


@rule("M03")
def histories(A, R):
    for what in ("off", "on", "moved", "back"):
        of_all_kinds(R, True, what)
        of_all_kinds(R, False, what)
    ops = [(o, m, e) for o in ("attach", "unattach") for m in (1, 2) for e in (1, 2)]
    seqs = [s for n in ((1, 2, 3, 4) if R.deep else (1, 2, 3)) for s in itertools.product(ops, repeat=n) if s[0][0] == "attach" and s[0][1:] == (1, 1)]
    seqs += [tuple(s) for s in (
        (("attach", 1, 1), ("attach", 2, 1), ("unattach", 1, 1), ("attach", 1, 2)),
        (("attach", 1, 1), ("attach", 1, 2), ("attach", 1, 1), ("unattach", 1, 2)),
        (("attach", 1, 1), ("unattach", 1, 1), ("attach", 1, 1), ("unattach", 1, 1)),
        (("attach", 1, 1), ("attach", 2, 1), ("attach", 1, 1), ("unattach", 2, 1)),
        (("unattach", 1, 1),),
    )]
    for what, (init, body) in (("hooks", HOOKS_), ("ports", PORTS_)):
        for seq in seqs:
            at = {1: None, 2: None}
            errs = 0
            lines = ""
            order = {1: [], 2: []}
            for o, m, e in seq:
                lines += "    e%d.%s(m%d)\n" % (e, o, m)
                if o == "attach":
                    if at[m] is not None:
                        order[at[m]].remove(m)
                    at[m] = e
                    order[e].append(m)
                elif at[m] == e:
                    order[e].remove(m)
                    at[m] = None
                else:
                    errs += 1
            code = HIST % (init, body) + "async def test():\n    e1 = E()\n    e2 = E()\n    m1 = M('m1')\n    m2 = M('m2')\n" + lines
            code += "    hook('attached', m1.attached_env is e1, m1.attached_env is e2, m2.attached_env is e1, m2.attached_env is e2)\n"
            code += "    hook('models', e1.attached_models == [%s], e2.attached_models == [%s])\n" % tuple(", ".join("m%d" % m for m in order[e]) for e in (1, 2))
            code += "    SEEN[e1.a] = 'of e1'\n    SEEN[e2.a] = 'of e2'\n    await e1.a.put('to e1')\n    await e2.a.put('to e2')\n    await cycle()\n    await cycle()\n"
            if what == "ports":
                code += "    for m in (m1, m2):\n        while m.p.qsize():\n            hook('model', m.name, await m.p())\n        while m.q.qsize():\n            k, v = await m.q()\n            hook('model', m.name, v if k == 'a.mon' else v['x'])\n        while m.r.qsize():\n            hook('model', m.name, await m.r())\n"

            def judge(r):
                got = sorted(call_of(e) for e in r.events if e.tag == "model")
                exp = sorted("model('m%d', '%s e%d')" % (m, w, e) for m, e in at.items() if e for w in ("to", "to", "of", "of"))
                if got != exp:
                    return "the models see %s instead of %s" % (got, exp)
                st = [args(e) for e in r.events if e.tag in ("attached", "models")]
                if st != [[str(at[m] == e) for m in (1, 2) for e in (1, 2)], ["True", "True"]]:
                    return "attached: %s" % st
                if len(r.find("log")) != errs:
                    return "%d errors are logged, %d expected" % (len(r.find("log")), errs)
                return None

            scenario(R, "%s: %s" % (what, ", ".join("%s model %d, environment %d" % x for x in seq)), code, "", judge, fails=2, logs=("error",))


# class, bases, members: driver, Driver (calls the overridden one), monitor, Monitor, plain coroutine, function
FAMILIES = [
    ("own methods", [("A", "Agent", "put:d get:d mon:m see:m work:p help:f")]),
    ("no methods", [("A", "Agent", "work:p help:f")]),
    ("inherited methods", [("B", "Agent", "put:d mon:m work:p"), ("A", "B", "")]),
    ("own and inherited methods", [("B", "Agent", "put:d mon:m work:p"), ("A", "B", "get:d see:m help:f")]),
    ("overridden methods", [("B", "Agent", "put:d get:d mon:m see:m"), ("A", "B", "put:d mon:m")]),
    ("methods overridden by plain ones", [("B", "Agent", "put:d get:d mon:m see:m"), ("A", "B", "put:p mon:f")]),
    ("plain methods overridden", [("B", "Agent", "put:p mon:f"), ("A", "B", "put:d mon:m")]),
    ("a driver overridden by a monitor", [("B", "Agent", "put:d mon:m"), ("A", "B", "put:m mon:d")]),
    ("methods of a mixin", [("X", "", "get:d see:m work:p"), ("A", "X, Agent", "put:d mon:m")]),
    ("a mixin that overrides", [("B", "Agent", "put:d mon:m"), ("X", "", "put:d mon:m"), ("A", "X, B", "")]),
    ("a diamond", [("B", "Agent", "put:d get:d mon:m"), ("C", "B", "put:d"), ("D", "B", "put:d mon:m get:p"), ("A", "C, D", "see:m")]),
    ("similar names", [("A", "Agent", "put:d put_:d Put:d _put:d put2:p mon:m mon_:m")]),
    ("calls of the overridden methods", [("B", "Agent", "put:d get:d mon:m"), ("A", "B", "put:D mon:M")]),
    ("calls of methods overridden twice", [("B", "Agent", "put:d mon:m"), ("C", "B", "put:D mon:M"), ("A", "C", "put:D mon:M")]),
    ("calls through a class between", [("B", "Agent", "put:d mon:m"), ("C", "B", "get:d"), ("A", "C", "put:D mon:M")]),
    ("calls of a mixin", [("X", "", "put:d mon:m"), ("A", "X, Agent", "put:D mon:M")]),
]


def family(classes):
    """Source of the classes, {method: [(class, kind)] as looked up} of the last one."""
    src = ""
    real = {"Agent": type("Agent", (), {})}
    for name, bases, members in classes:
        src += "class %s%s:\n    pass\n" % (name, "(%s)" % bases if bases else "")
        own = dict(m.split(":") for m in members.split())
        real[name] = type(name, tuple(real[b.strip()] for b in bases.split(",") if b.strip()), dict(own))
        for m, k in own.items():
            if k in "dD":
                src += "    @driver_method()\n"
            elif k in "mM":
                src += "    @monitor_method()\n"
            sig = "self, x" if k in "dDp" else "self"
            src += "    %sdef %s(%s):\n" % ("" if k == "f" else "async ", m, sig)
            if k in "mM":
                src += "        if not SEEN[%r]:\n            raise Stop()\n        v = SEEN[%r].pop(0)\n" % (m, m) if k == "m" else "        v = await super().%s()\n" % m
                src += "        return (%r, v)\n" % (name + "." + m)
            else:
                src += "        hook('run', %r)\n" % (name + "." + m)
                src += "        return (%r, await super().%s(x))\n" % (name + "." + m, m) if k == "D" else "        return (%r, x)\n" % (name + "." + m) if k != "f" else ""
    last = real[classes[-1][0]]
    chain = {}
    for c in last.__mro__:
        for m, k in vars(c).items():
            if isinstance(k, str) and len(k) == 1:
                chain.setdefault(m, []).append((c.__name__, k))
    return src, chain


def nested(chain, m, x):
    """Names of the methods which a call runs."""
    out = []
    for c, k in chain[m]:
        out.append(c + "." + m)
        if k not in "DM":
            break
    return out


@rule("M04")
def offered(A, R):
    of_all_kinds(R, True)
    of_all_kinds(R, False)
    for what, classes in FAMILIES:
        src, chain = family(classes)
        drv = sorted(m for m, c in chain.items() if c[0][1] in "dD")
        mon = sorted(m for m, c in chain.items() if c[0][1] in "mM")
        names = sorted(chain) + ["zz", "bundle", "drivers", "monitor_size"]
        code = "SEEN = {}\nclass Stop(Exception):\n    pass\n" + src + """
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
class M(Model):
    @agent_hook('a')
    def f(self, name, v):
        hook('model', name, v['x'] if name in %r else v)
async def test(x):
    for n in %r:
        SEEN[n] = [n + "1", n + "2"]
    e = E()
    a = e.a
    for n in %r:
        a.start_monitor(n)
    hook("listed", *sorted([m.__name__ for m in a.all_driver_method()]))
    hook("listed", *sorted([m.__name__ for m in a.all_monitor_method()]))
    for n in %r:
        hook("got", n, a.get_driver_method(n) is not None, a.get_monitor_method(n) is not None)
    if %r:
        e.attach(M())
    for n in %r:
        hook("call", n)
        hook("result", await getattr(a, n)(x))
        hook("call", n)
        hook("result", await a.get_driver_method(n)(x))
    await cycle()
    for n in %r:
        hook("size", n, a.monitor_size(n))
        hook("seen", await getattr(a, n)())
        hook("seen", await a.get_monitor_method(n)())
    await cycle()
    await cycle()
""" % (["a." + m for m in drv], mon, mon, names, bool(drv or mon), drv, mon)

        def wrapped(m, inner, chain=chain):
            for c in reversed(nested(chain, m, inner)):
                inner = "('%s', %s)" % (c, inner)
            return inner

        def judge(r):
            got = [args(e) for e in r.events if e.tag == "listed"]
            exp = [["'%s'" % m for m in l] for l in (drv, mon)]
            if got != exp:
                return "the methods listed are %s instead of %s" % (got, exp)
            got = [args(e) for e in r.events if e.tag == "got"]
            exp = [["'%s'" % n, str(n in drv), str(n in mon)] for n in names]
            if got != exp:
                return "a driver or a monitor is found for %s" % [g for g, w in zip(got, exp) if g != w]
            evs = [e for e in r.events if e.tag in ("call", "run", "result")]
            got = [(e.tag, args(e)) for e in evs]
            exp = []
            for m in drv:
                exp += 2 * ([("call", ["'%s'" % m])] + [("run", ["'%s'" % c]) for c in nested(chain, m, 0)] + [("result", [wrapped(m, "x")])])
            if got != exp:
                return "the driver calls run %s instead of %s" % (got, exp)
            got = [(e.tag, args(e)) for e in r.events if e.tag in ("size", "seen")]
            exp = []
            for m in mon:
                exp += [("size", ["'%s'" % m, "2"])] + [("seen", [wrapped(m, "'%s%d'" % (m, i))]) for i in (1, 2)]
            if got != exp:
                return "the monitors return %s instead of %s" % (got, exp)
            got = [args(e) for e in r.events if e.tag == "model"]
            exp = [["'a.%s'" % m, "x"] for m in drv for _ in "ab"] + [["'a.%s'" % m, wrapped(m, "'%s%d'" % (m, i))] for m in mon for i in (1, 2)]
            if sorted(got) != sorted(exp):
                return "the model sees %s instead of %s" % (got, exp)

        scenario(R, "agents with " + what, code, "x", judge, fails=len(mon))
    for what, code, want in (
        ("one class", "class E(E0):\n    pass\n", ["a", "ab"]),
        ("a subclass that adds one", "class E(E0):\n    def __init__(self):\n        super().__init__()\n        self.c = A(ClockedBundle())\n", ["a", "ab", "c"]),
        ("a subclass that takes one away", "class E(E0):\n    def __init__(self):\n        super().__init__()\n        self.a = None\n", ["ab"]),
        ("a subclass that does nothing", "class E(E0):\n    pass\n", ["a", "ab"]),
        ("a subclass of a subclass", "class E1(E0):\n    pass\nclass E2(E1):\n    def __init__(self):\n        super().__init__()\n        self.Z = A(ClockedBundle())\nclass E(E2):\n    def __init__(self):\n        self._d = A(ClockedBundle())\n        super().__init__()\n", ["Z", "_d", "a", "ab"]),
        ("an agent of the class", "class E(E0):\n    q = A(ClockedBundle())\n", ["a", "ab", "q"]),
        ("an agent given by a property", "class E(E0):\n    def __init__(self):\n        self.rest = [A(ClockedBundle())]\n        super().__init__()\n    @property\n    def q(self):\n        return self.rest[0]\n", ["a", "ab", "q"]),
        ("agents of several classes", "class B(A):\n    @driver_method()\n    async def get(self, x):\n        return ('get', x)\nclass E(E0):\n    def __init__(self):\n        super().__init__()\n        self.b = B(ClockedBundle())\n", ["a", "ab", "b"]),
    ):
        prog = """
class A(Agent):
    @driver_method()
    async def put(self, x):
        return x
class E0(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
        self.ab = A(ClockedBundle())
        self.number = 3
        self.nothing = None
        self.bundle = ClockedBundle()
        self.kind = A
        self.several = [A(ClockedBundle())]
""" + code + "class M(Model):\n" + "".join("    @agent_hook(%r)\n    def f%d(self, name, v):\n        hook('model', name, v['x'])\n" % (n, i) for i, n in enumerate(want)) + """
async def test(x):
    e = E()
    e.attach(M())
    hook("listed", *sorted(e.all_agent_names()))
    for n in %r:
        await getattr(e, n).put((n, x))
    await cycle()
    await cycle()
""" % want

        def judge2(r, want=want):
            got = [args(e) for e in r.events if e.tag == "listed"]
            if got != [["'%s'" % n for n in want]]:
                return "the agents are %s instead of %s" % (got, want)
            got = sorted(args(e) for e in r.events if e.tag == "model")
            exp = [["'%s.put'" % n, "('%s', x)" % n] for n in want]
            if got != exp:
                return "the model sees %s instead of %s" % (got, exp)

        scenario(R, "environments: " + what, prog, "x", judge2)


@rule("M05")
def capacity(A, R):
    n = sym("n")
    for kind, deco in (("DriverPort", "'a.put'"), ("AgentPort", "'a'"), ("MonitorPort", "'a.mon'")):
        for puts in range(0, 10 if R.deep else 6):
            code = "async def test(n, %s):\n    p = %s(%s, maxsize=n)\n    hook('made')\n%s    hook('size', p.qsize())\n    while p.qsize():\n        hook('got', await p())\n" % (
                ", ".join("v%d" % i for i in range(puts)) or "z", kind, deco, "".join("    await p.put(v%d)\n" % i for i in range(puts)))

            def judge(r):
                lo, hi = interval(r.o.st, n)[:2]
                eq = [v for a, v in r.conds if a.op in ("eqc",) and n in set(walk(a)) and v]
                unb = lo == hi == -1 or any(a.op == "eqc" and n in set(walk(a)) and abs(a.a[1]) == 1 and v and lo < 0 for a, v in r.conds) and not (lo > 0)
                if r.raised:
                    if r.raised != "AssertionError" or r.find("made"):
                        return "it fails with %s" % r.raised
                    return None if hi <= 0 else "a size in %s..%s is refused" % (lo, hi)
                got = [call_of(e) for e in r.events if e.tag == "got"]
                if lo <= 0 and not unb and not (lo == -1 and hi == -1):
                    return "a size in %s..%s is accepted" % (lo, hi)
                if got != ["got(v%d)" % i for i in range(len(got))]:
                    return "values come out as %s" % got
                if len(got) + len(r.find("log")) != puts:
                    return "of %d values %d are queued and %d dropped with an error" % (puts, len(got), len(r.find("log")))
                if args(r.find("size")[0]) != [str(len(got))]:
                    return "qsize() is %s with %d values" % (args(r.find("size")[0]), len(got))
                if unb:
                    return None if len(got) == puts else "an unbounded port drops values"
                if len(got) < puts and not (lo == hi == len(got)):
                    return "a port of size %s..%s holds %d of %d values" % (lo, hi, len(got), puts)
                if len(got) == puts and lo < puts:
                    return "a port of size %s..%s holds %d values" % (lo, hi, puts)
                return None

            scenario(R, "%s with %d values put" % (kind, puts), code, "n, " + (", ".join("v%d" % i for i in range(puts)) or "z"), judge, logs=("error",), may_fail=True)
        code = "async def test(x, y, z):\n    p = %s(%s, maxsize=1)\n    await p.put(x)\n    await p.put(y)\n    hook('got', await p())\n    await p.put(z)\n    hook('got', await p())\n    hook('size', p.qsize())\n" % (kind, deco)
        scenario(
            R, "%s: a place that was read is free again" % kind, code, "x, y, z",
            lambda r: None if [call_of(e) for e in r.events if e.tag != "step" and e.tag != "log"] == ["got(x)", "got(z)", "size(0)"] and len(r.find("log")) == 1 else "wrong values",
            logs=("error",),
        )


@rule("M06")
def decorators(A, R):
    p = sym("p")
    for deco, pos in (("driver_hook", "'a.put', "), ("agent_hook", "'a', "), ("monitor_hook", "'a.mon', "), ("driver_hook", ""), ("agent_hook", ""), ("monitor_hook", "")):
        rs = client(R, "priority of " + deco, "async def test(p):\n    @%s(%spriority=p)\n    def a__put(self, *args): pass\n    hook('made', a__put.__priority__)\n" % (deco, pos), "p")
        for r in rs or ():
            lo, hi = interval(r.o.st, p)[:2]
            inr = [v for a, v in r.conds if a.op == "in" and p in set(walk(a))]
            if r.raised:
                R.check("%s(%s): priorities outside 0..99 are refused, and no others" % (deco, pos.strip(", ")), r.raised == "AssertionError" and (lo > 99 or hi < 0 or inr == [False]),
                        "priority %s..%s: %s" % (lo, hi, r.tell()), r.loc())
            else:
                R.check("%s(%s): priorities outside 0..99 are refused, and no others" % (deco, pos.strip(", ")), lo >= 0 and hi <= 99 or inr == [True],
                        "priorities %s..%s are accepted" % (lo, hi), r.loc())
                R.check("%s(%s): the priority is kept" % (deco, pos.strip(", ")), args(r.find("made")[0]) == ["p"], "the priority becomes %s" % args(r.find("made")[0]), r.loc())
        for c, ok in ((0, True), (99, True), (50, True), (100, False), (-1, False), (1000, False)):
            code = "async def test():\n    @%s(%spriority=%d)\n    def a__put(self, *args): pass\n    hook('made')\n" % (deco, pos, c)
            scenario(R, "%s(%s): priority %d is %s" % (deco, pos.strip(", "), c, "accepted" if ok else "refused"), code, "",
                     lambda r: None if (r.raised is None if ok else r.raised == "AssertionError" and not r.find("made")) else "it is not", may_fail=True)
    for deco in ("driver_hook", "agent_hook"):
        for o, ok in (("model_first", True), ("dut_first", True), ("parallel", False), ("", False), (None, False), ("Model_first", False)):
            code = "async def test():\n    @%s(sche_order=%r)\n    def a__put(self, *args): pass\n    hook('made')\n" % (deco, o)
            scenario(R, "%s: order %r is %s" % (deco, o, "accepted" if ok else "refused"), code, "",
                     lambda r: None if (r.raised is None if ok else r.raised == "AssertionError" and not r.find("made")) else "it is not", may_fail=True)
    cases = []
    for deco, k in (("driver_hook", "driver"), ("monitor_hook", "monitor"), ("DriverPort", "driver"), ("MonitorPort", "monitor")):
        for pth, ag, nm in itertools.product((0, 1), repeat=3):
            a = ", ".join(x for x, on in (("'a.put'", pth), ("agent_name='a'", ag), ("%s_name='put'" % k, nm)) if on)
            cases.append((deco, a, not (pth and (ag or nm)) and not (nm and not ag)))
    cases += [("agent_hook", "'a', agents=['ab']", False), ("agent_hook", "agent_name='a', agents=['ab']", False), ("agent_hook", "agents=['a', 'ab']", True),
              ("agent_hook", "'a', methods=['ab.put']", True), ("agent_hook", "agents=['a'], methods=['ab.put']", True)]
    for deco, a, ok in cases:
        if deco.endswith("Port"):
            code = "async def test():\n    p = %s(%s)\n    hook('made')\n" % (deco, a)
        else:
            code = "async def test():\n    @%s(%s)\n    def a__put(self, *args): pass\n    hook('made')\n" % (deco, a)
        scenario(R, "%s(%s) is %s" % (deco, a, "accepted" if ok else "refused"), code, "",
                 lambda r: None if (r.raised is None if ok else r.raised == "AssertionError" and not r.find("made")) else "it is not", may_fail=True)
