"""Model hooks and ports, comparison, monitors."""

from .world import *
from .executor import entries, is_list

BASE = """
class A(Agent):
    @driver_method()
    async def put(self, x, y=2):
        return await hook("dut put", x, y)
    @driver_method()
    async def get(self, x):
        return await hook("dut get", x)
    @driver_method()
    async def nop(self):
        return await hook("dut nop")
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
        self.b = A(ClockedBundle())
"""


def order(*want, **kw):
    starts = kw.get("starts", ())

    def judge(r):
        got = events(r, *starts)
        return None if got == list(want) else "expected %s, got %s" % (list(want), got)

    return judge


def unordered(*want, **kw):
    starts = kw.get("starts", ())

    def judge(r):
        got = events(r, *starts)
        return None if sorted(got) == sorted(want) else "expected %s in any order, got %s" % (list(want), got)

    return judge


def model(*members):
    return "class M(Model):\n" + "".join("    " + l + "\n" for m in members for l in m.strip().split("\n"))


def dhook(name, sig, deco, args_=None, body=""):
    a = ", ".join(x.split("=")[0].strip() for x in sig.split(",") if x.strip()) if args_ is None else args_
    return "@driver_hook(%s)\ndef %s(self%s):\n    %sreturn hook('model %s'%s)" % (
        deco, name, ", " + sig if sig else "", body, name, ", " + a if a else "")


TEST = "async def test(x, y, z):\n    e = E()\n    e.attach(M())\n    %s\n    await cycle()\n    await cycle()\n    await cycle()\n"
G3 = "await gather(e.a.put(x), e.a.get(y), e.b.get(z))"


def three(p1, p2, p3):
    return BASE + model(
        dhook("m1", "x, y", "'a.put', priority=%s" % p1),
        dhook("m2", "x", "'a.get', priority=%s" % p2),
        dhook("m3", "x", "'b.get', priority=%s" % p3),
    ).replace("return hook", "hook").replace("m1(self, x, y)", "m1(self, x, y=2)")


@rule("H01")
def priorities(A, R):
    M = ["model m1(x, 2)", "model m2(y)", "model m3(z)"]
    for ps in ((1, 2, 3), (3, 2, 1), (50, 99, 0), (10, 9, 11), (0, 99, 98), (5, 5, 5), (7, 5, 5), (5, 7, 5), (99, 99, 1)):
        idx = sorted(range(3), key=lambda i: ps[i])
        scenario(R, "priorities %s, %s and %s" % ps, three(*ps) + TEST % G3, "x, y, z", order(*[M[i] for i in idx], starts=("model",)))
    # default priorities, agent hooks among driver hooks
    scenario(
        R, "agent and driver hooks share the priorities",
        BASE + "class M(Model):\n    @driver_hook('a.put', priority=20)\n    def m1(self, x, y=2): hook('model m1', x)\n"
        "    @agent_hook('a', priority=10)\n    def m2(self, name, args): hook('model m2', name)\n"
        "    @agent_hook('b')\n    def m3(self, name, args): hook('model m3', name)\n"
        "    @driver_hook('b.put', priority=98)\n    def m4(self, x, y=2): hook('model m4', x)\n"
        + TEST % "await gather(e.b.put(z), e.a.put(x))", "x, y, z",
        order("model m2('a.put')", "model m1(x)", "model m4(z)", "model m3('b.put')", starts=("model",)),
    )
    # a cycle later: nothing is left
    scenario(
        R, "hooks run in their cycle only", three(3, 2, 1) + TEST % (G3 + "\n    hook('model next')\n    await e.a.put(z)"), "x, y, z",
        order(M[2], M[1], M[0], "model next()", "model m1(z, 2)", starts=("model",)),
    )
    # monitor hooks in the same list
    for p1, p2, p3 in ((7, 5, 3), (3, 5, 7), (5, 7, 3), (0, 99, 50), (4, 4, 4)):
        ms = [(p1, "model m1(('v', x))"), (p2, "model m2('a.mon', ('v', x))"), (p3, "model m3(('v', x))")]
        scenario(
            R, "monitor and agent hooks of priorities %s, %s and %s" % (p1, p2, p3),
            MON + model("@monitor_hook('a.mon', priority=%d)\ndef m1(self, v): hook('model m1', v)" % p1)
            + model("@agent_hook('a', priority=%d)\ndef m2(self, name, v): hook('model m2', name, v)" % p2).replace("class M", "class M2")
            + model("@monitor_hook('a.mon', priority=%d)\ndef m3(self, v): hook('model m3', v)" % p3).replace("class M", "class M3")
            + "async def test(x):\n    SEEN['a'] = [('v', x)]\n    e = E()\n    e.attach(M())\n    e.attach(M2())\n    e.attach(M3())\n    await cycle()\n    await cycle()\n    await cycle()\n",
            "x", order(*[m for _, m in sorted(ms, key=lambda m: m[0])], starts=("model",)), fails=2,
        )
    # driver calls and monitored values of one cycle, equal priorities: the monitor's step makes calls too
    calls = MON.replace("        return left", "        hook('call', 'mon')\n        return left") + model(
        "@monitor_hook('a.mon', priority=4)\ndef m1(self, v): hook('model', 'mon')",
        "@driver_hook('b.put', priority=4)\ndef m2(self, x): hook('model', x)",
    ) + """
async def put(e, x):
    for i in range(2):
        hook("call", x + i)
        await e.b.put(x + i)
class F(Env):
    def __init__(self):
        super().__init__()
        self.a = A(self.step, "a")
        self.b = A(ClockedBundle(), "b")
    async def step(self):
        n = len(SEEN['a'])
        if n % 3:
            create_task(put(self, n * 10))
        if n % 3 == 2:
            create_task(put(self, n * 10 + 5))
        await cycle()
async def test(x):
    SEEN['a'] = [('v', x)] * 7
    e = F()
    e.attach(M())
    await cycle()
    await cycle()
"""

    def as_called(r):
        due = []
        for e in r.events:
            if e.tag == "call":
                due.append(show(e.args[0]))
            elif e.tag == "model":
                if not due or show(e.args[0]) != due.pop(0):
                    return "hooks of equal priority do not run in the order of the calls: %s" % [call_of(e) for e in r.events]
        return "hooks of %s do not run" % due if due else None

    scenario(R, "driver calls and monitored values of one cycle", calls, "x", as_called, fails=2)
    # a failing hook
    fail = BASE + model(
        "@driver_hook('a.put', priority=1)\ndef m1(self, x, y=2):\n    hook('model m1', x)\n    raise ValueError('wrong')",
        "@driver_hook('a.get', priority=2)\ndef m2(self, x): hook('model m2', x)",
        "@driver_hook('b.get', priority=3)\ndef m3(self, x): hook('model m3', x)",
    ) + """
async def one(e, x, y):
    await gather(e.a.put(x), e.a.get(y))
async def test(x, y, z):
    e = E()
    e.attach(M())
    create_task(one(e, x, y))
    await cycle()
    hook("model next")
    create_task(e.b.get(z))
    await cycle()
    await cycle()
"""

    def judge(r):
        got = events(r, "model")
        if got.count("model m1(x)") != 1:
            return "the failing hook runs %d times" % got.count("model m1(x)")
        if "model next()" in got and "model m2(y)" in got[got.index("model next()"):]:
            return "a hook that was due with the failing one runs in a later cycle"
        if "model m3(z)" not in got:
            return "hooks of later cycles do not run any more"
        return None

    scenario(R, "a failing hook leaves nothing behind", fail, "x, y, z", judge, may_fail=True, prelude=DIES)


DIES = PRELUDE.replace("    await execute_all_coros()\n", """
    try:
        await execute_all_coros()
    except ValueError:
        hook("dies")
""")
assert "dies" in DIES

MON = """
SEEN = {}
class Stop(Exception):
    pass
class A(Agent):
    def __init__(self, b, name):
        self.who = name
        super().__init__(b)
    @driver_method()
    async def put(self, x):
        hook("dut put", x)
    @monitor_method()
    async def mon(self):
        left = SEEN.get(self.who, [])
        if not left:
            raise Stop()
        return left.pop(0)
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle(), "a")
        self.b = A(ClockedBundle(), "b")
"""


def ports(kind, name, deco):
    return "class M(Model):\n    def __init__(self):\n        super().__init__()\n        self.%s = %s(%s)\n" % (name, kind, deco)


DRAIN = "    async def main(self):\n        while True:\n            hook('model %s', await self.%s())\n"

# a call, what the driver of the DUT gets, what the model sees by name
CALLS = [
    ("put(x)", "put(x, 2)", ["x"], "{'x': x, 'y': 2}"),
    ("put(x, y)", "put(x, y)", ["x", "y"], "{'x': x, 'y': y}"),
    ("put(x, y=y)", "put(x, y)", ["x", "y"], "{'x': x, 'y': y}"),
    ("put(y=y, x=x)", "put(x, y)", ["x", "y"], "{'x': x, 'y': y}"),
    ("get(x)", "get(x)", ["x"], "{'x': x}"),
    ("get(x=x)", "get(x)", ["x"], "{'x': x}"),
    ("nop()", "nop()", [], "{}"),
]


def same_args(t, want):
    d = entries(t)
    return d is not None and "{%s}" % ", ".join("%r: %s" % (k, show(v)) for k, v in d.items()) == want


# agents of all kinds in one environment: only drivers, only monitors, several of both, none
KINDS_OF_AGENTS = {"a": ("", "m"), "b": ("p", ""), "c": ("pq", "mn"), "d": ("", "mn"), "e": ("pq", ""), "f": ("", ""), "g": ("q", "n")}


def all_kinds(names):
    code = "LEFT = {}\nclass Stop(Exception):\n    pass\n"
    init = ""
    for a in names:
        drv, mon = KINDS_OF_AGENTS[a]
        code += "class A_%s(Agent):\n    pass\n" % a
        for d in drv:
            code += "    @driver_method()\n    async def %s(self, x):\n        hook('dut', '%s.%s', x)\n" % (d, a, d)
        for m in mon:
            code += "    @monitor_method()\n    async def %s(self):\n        if not LEFT['%s.%s']:\n            raise Stop()\n        return LEFT['%s.%s'].pop(0)\n" % (m, a, m, a, m)
        init += "        self.%s = A_%s(ClockedBundle())\n" % (a, a)
    code += "class E(Env):\n    def __init__(self):\n        super().__init__()\n" + (init or "        pass\n")
    return code


def of_all_kinds(R, drivers, detach=False):
    for names in ("abcdefg", "gfedcba", "ac", "da", "fa", "fb", "be", "ad", "gg", "eg"):
        names = "".join(dict.fromkeys(names))
        drv = ["%s.%s" % (a, d) for a in sorted(names) for d in KINDS_OF_AGENTS[a][0]]
        mon = ["%s.%s" % (a, m) for a in sorted(names) for m in KINDS_OF_AGENTS[a][1]]
        use = drv if drivers else mon
        if not use:
            continue
        served = sorted({u.split(".")[0] for u in drv + mon})
        for how in ("agents", "methods", "one by one", "port", "port of methods"):
            code = all_kinds(names)
            if detach in ("moved", "back"):
                code += code.replace("LEFT", "NONE").replace("A_", "O_").replace("class E", "class O")
            code += "class M(Model):\n"
            if how.startswith("port"):
                code += "    def __init__(self):\n        super().__init__()\n        self.t = AgentPort(%s, maxsize=-1)\n" % ("agents=%r" % served if how == "port" else "methods=%r" % use)
            elif how == "one by one":
                for i, u in enumerate(use):
                    code += "    @%s_hook(%r)\n    def t%d(self, v): hook('model', %r, v)\n" % ("driver" if drivers else "monitor", u, i, u)
            else:
                code += "    @agent_hook(%s)\n    def t(self, path, v): hook('model', path, %s)\n" % ("agents=%r" % served if how == "agents" else "methods=%r" % use, "v['x']" if drivers else "v")
            code += "async def test(%s):\n    LEFT.update(%s)\n    e = E()\n    m = M()\n    e.attach(m)\n%s" % (
                ", ".join("v%d" % i for i in range(len(use))),
                "{%s}" % ", ".join("%r: [%s]" % (u, "(%d, v%d)" % (use.index(u), use.index(u)) if u in use and not drivers else "") for u in mon),
                {"": "", "off": "    e.unattach(m)\n", "on": "    e.unattach(m)\n    e.attach(m)\n", "moved": "    NONE.update({k: [] for k in LEFT})\n    O().attach(m)\n", "back": "    NONE.update({k: [] for k in LEFT})\n    O().attach(m)\n    e.attach(m)\n"}[detach or ""])
            if drivers:
                code += "".join("    await e.%s(v%d)\n" % (u, i) for i, u in enumerate(use))
            code += "    await cycle()\n" * (2 if drivers else 6)
            if how.startswith("port"):
                code += "    while m.t.qsize():\n        p, v = await m.t()\n        hook('model', p, %s)\n" % ("v['x']" if drivers else "v")
            want = sorted(["%r" % u, ("v%d" if drivers else "(%d, v%%d)" % i) % i] for i, u in enumerate(use)) if detach not in ("off", "moved") else []

            def judge(r, want=want):
                got = sorted(args(e) for e in r.find("model"))
                return None if got == want else "the model gets %s instead of %s" % (got, want)

            scenario(R, "agents with and without %s: %s%s" % ("drivers" if drivers else "monitors", how, {"": "", "off": ", detached", "on": ", detached and attached again", "moved": ", taken away", "back": ", taken away and back"}[detach or ""]), code, ", ".join("v%d" % i for i in range(len(use))), judge, fails=len(mon) * (2 if detach in ("moved", "back") else 1))


@rule("H02")
def drivers(A, R):
    of_all_kinds(R, True)
    test = "async def test(x, y):\n    e = E()\n    e.attach(M())\n    r = await e.a.%s\n    hook('result', r)\n    await cycle()\n    await cycle()\n"

    def dut_once(r, dut):
        got = [call_of(e) for e in r.events if e.tag.startswith("dut")]
        if got != ["dut " + dut]:
            return "the driver of the DUT runs as %s instead of %s" % (got, "dut " + dut)
        res = [e for e in r.events if e.tag == "result"]
        want = "awaited(hook('dut %s'%s))" % (dut.split("(")[0], "".join(", " + a for a in dut.split("(")[1][:-1].split(", ") if a))
        if len(res) != 1 or args(res[0]) != [want]:
            return "the call returns %s, not the result of the DUT" % [args(x) for x in res]
        return None

    def seen(r, n, test_args, before=None):
        evs = [e for e in r.events if e.tag.startswith("model")]
        if len(evs) != n:
            return "the model sees the call %d times" % len(evs)
        for e in evs:
            bad = test_args(e)
            if bad:
                return bad
        dut = [i for i, e in enumerate(r.events) if e.tag.startswith("dut")]
        if before is not None:
            for i, e in enumerate(r.events):
                if e.tag.startswith("model") and (i < dut[0]) != before:
                    return "the model runs %s the DUT" % ("before" if i < dut[0] else "after")
        return None

    for call, dut, given, named in CALLS:
        m = call.split("(")[0]
        sig = {"put": ", x, y=7", "get": ", x", "nop": ""}[m]
        names = {"put": ", x, y", "get": ", x", "nop": ""}[m]
        shown = {"put(x)": ["x", "7"], }.get(call, given)
        # driver hooks
        for order_, before in ((None, True), ("model_first", True), ("dut_first", False)):
            o = "" if order_ is None else ", sche_order=%r" % order_
            scenario(
                R, "driver hook, %s, of %s" % (order_ or "default order", call),
                BASE + "class M(Model):\n    @driver_hook('a.%s'%s)\n    def f(self%s): hook('model f'%s)\n" % (m, o, sig, names) + test % call,
                "x, y",
                lambda r: dut_once(r, dut) or seen(r, 1, lambda e: None if args(e) == shown else "the hook gets %s instead of %s" % (args(e), shown), before),
            )
            scenario(
                R, "agent hook, %s, of %s" % (order_ or "default order", call),
                BASE + "class M(Model):\n    @agent_hook('a'%s)\n    def f(self, name, args): hook('model f', name, args)\n" % o + test % call,
                "x, y",
                lambda r: dut_once(r, dut) or seen(
                    r, 1, lambda e: None if len(e.args) == 2 and show(e.args[0]) == "'a.%s'" % m and same_args(e.args[1], named)
                    else "the agent hook gets %s instead of %s" % (args(e), ["'a.%s'" % m, named]), before),
            )
        fetch = "    n = e.a\n    hook('size', MODEL[0].p.qsize())\n    while MODEL[0].p.qsize():\n        hook('model f', await MODEL[0].p())\n"
        prog = test.replace("e.attach(M())", "MODEL.append(M())\n    e.attach(MODEL[0])") % call + fetch

        def port_item(e, want):
            t = e.args[0]
            if want == "agent":
                xs = t.a if t.op == "tuple" else ()
                ok = len(xs) == 2 and show(xs[0]) == "'a.%s'" % m and same_args(xs[1], named)
                w = ["'a.%s'" % m, named]
            elif len(dut.split("(")[1][:-1].split(", ")) == 1 and dut.split("(")[1] != ")":
                ok, w = show(t) == given[0], given[0]
            else:
                ok, w = same_args(t, named), named
            return None if ok else "the port gets %s instead of %s" % (show(t), w)

        for kind, deco in (("AgentPort", "'a'"), ("DriverPort", "'a.%s'" % m)):
            want = "agent" if kind == "AgentPort" else "driver"
            scenario(
                R, "%s of %s" % (kind, call),
                BASE + "MODEL = []\n" + ports(kind, "p", deco) + prog, "x, y",
                lambda r: dut_once(r, dut) or seen(r, 1, lambda e: port_item(e, want)),
            )
    # several hooks and models, other agents and methods untouched
    for o1 in ("model_first", "dut_first"):
        for o2 in ("model_first", "dut_first"):
            want = lambda: None
            def judge(r, o1=o1, o2=o2):
                got = events(r)
                exp = ["dut put(x, y)", "model f(x, y)", "model g('a.put')", "model f2(x, y)"]
                if sorted(got) != sorted(exp):
                    return "expected %s, got %s" % (exp, got)
                i = got.index(exp[0])
                for n, o in ((1, o1), (2, o2), (3, o2)):
                    if (got.index(exp[n]) < i) != (o == "model_first"):
                        return "%s runs on the wrong side of the DUT" % exp[n]
            scenario(
                R, "three hooks of two models, %s and %s" % (o1, o2),
                BASE + "class M(Model):\n    @driver_hook('a.put', sche_order=%r)\n    def f(self, x, y): hook('model f', x, y)\n"
                "    @agent_hook('a', sche_order=%r)\n    def g(self, n, args): hook('model g', n)\n"
                "    @driver_hook('b.put')\n    def h(self, x, y): hook('model h', x, y)\n"
                "class N(Model):\n    @driver_hook('a.put', sche_order=%r)\n    def f2(self, x, y): hook('model f2', x, y)\n"
                "    @driver_hook('a.get')\n    def h(self, x): hook('model h2', x)\n" % (o1, o2, o2)
                + (test % "put(x, y)").replace("e.attach(M())", "e.attach(M()).attach(N())"),
                "x, y", judge,
            )
    scenario(
        R, "no model", BASE + (test % "put(x, y)").replace("    e.attach(M())\n", ""), "x, y",
        lambda r: dut_once(r, "put(x, y)") or order("dut put(x, y)")(r),
    )
    # several hooks of one model, several ports of one model
    for o in ("model_first", "dut_first"):
        def judge(r, o=o):
            got = events(r)
            exp = ["dut put(x, y)", "model f(x, y)", "model g1('a.put')", "model g2('a.put')", "model g3('a.put')"]
            if sorted(got) != exp:
                return "expected %s, got %s" % (exp, got)
            if got[-1 if o == "model_first" else 0] != exp[0]:
                return "a hook runs on the wrong side of the DUT"
        scenario(
            R, "four hooks of one model, " + o,
            BASE + "class M(Model):\n    @driver_hook('a.put', sche_order=%r)\n    def f(self, x, y): hook('model f', x, y)\n" % o
            + "".join("    @agent_hook('a', sche_order=%r)\n    def g%d(self, n, args): hook('model g%d', n)\n" % (o, i, i) for i in (1, 2, 3))
            + test % "put(x, y)", "x, y", judge,
        )
    for kinds in ((("AgentPort", "'a'"), ("AgentPort", "methods=['a.put']"), ("DriverPort", "'a.put'")), (("AgentPort", "agents=['a']"), ("AgentPort", "'a'")),
                  (("DriverPort", "'a.put'"), ("AgentPort", "'a'"))):
        def judge(r, n=len(kinds)):
            got = [e.tag for e in r.events if e.tag.startswith("model")]
            return None if got == ["model %d" % i for i in range(n)] * 2 else "of two calls the ports hold %s" % got
        scenario(
            R, "ports %s of one model" % (kinds,),
            BASE + "class M(Model):\n    def __init__(self):\n        super().__init__()\n"
            + "".join("        self.p%d = %s(%s)\n" % (i, k, d) for i, (k, d) in enumerate(kinds))
            + "async def test(x, y):\n    e = E()\n    m = M()\n    e.attach(m)\n    await e.a.put(x)\n    await e.a.put(y)\n    for _ in range(2):\n"
            + "".join("        hook('model %d', await m.p%d())\n" % (i, i) for i in range(len(kinds))),
            "x, y", judge,
        )
    # ports and hooks of different models side by side
    scenario(
        R, "a model with a port and one with a hook",
        BASE + "MODEL = []\n" + ports("DriverPort", "p", "'a.put'") + "class N(Model):\n    @driver_hook('a.put')\n    def f(self, x, y): hook('model f', x, y)\n"
        + (test % "put(x, y)").replace("e.attach(M())", "MODEL.append(M())\n    e.attach(MODEL[0]).attach(N())")
        + "    hook('model p', await MODEL[0].p())\n",
        "x, y",
        lambda r: dut_once(r, "put(x, y)") or (None if sorted(e.tag for e in r.events if e.tag.startswith("model")) == ["model f", "model p"] else "hook and port see %s" % events(r, "model")),
    )
    # whatever the parameters of the driver method are called and of which kind they are
    for sig, call, named in (
        ("this, x", "put(x)", {"x": "x"}),
        ("agent, x, y=3", "put(x)", {"x": "x", "y": "3"}),
        ("_, x, *, y", "put(x, y=y)", {"x": "x", "y": "y"}),
        ("this, self, x", "put(x, y)", {"self": "x", "x": "y"}),
        ("self, /, x, *, y=4", "put(x)", {"x": "x", "y": "4"}),
        ("self, x, *rest", "put(x, y, 5)", {"x": "x", "rest": "(y, 5)"}),
        ("self, x, name, args", "put(x, 1, args=2)", {"x": "x", "name": "1", "args": "2"}),
    ):
        base = """
class A(Agent):
    @driver_method()
    async def put(%s):
        return await hook("dut put")
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
""" % sig
        named = "{%s}" % ", ".join("%r: %s" % x for x in named.items())

        def shown(e, named=named):
            return None if same_args(e.args[-1], named) else "the model gets %s instead of %s" % (show(e.args[-1]), named)
        scenario(
            R, "agent hook of a driver method with the parameters %s" % sig,
            base + "class M(Model):\n    @agent_hook('a')\n    def f(self, name, v): hook('model f', v)\n" + test % call, "x, y",
            lambda r: seen(r, 1, shown),
        )
        for kind, deco in (("AgentPort", "'a'"), ("DriverPort", "'a.put'")):
            if kind == "DriverPort" and ", " not in named:
                continue
            scenario(
                R, "%s of a driver method with the parameters %s" % (kind, sig),
                base + "MODEL = []\n" + ports(kind, "p", deco) + test.replace("e.attach(M())", "MODEL.append(M())\n    e.attach(MODEL[0])") % call
                + ("    hook('model f', (await MODEL[0].p())[1])\n" if kind == "AgentPort" else "    hook('model f', await MODEL[0].p())\n"), "x, y",
                lambda r: seen(r, 1, shown),
            )
    # an asynchronous hook is refused
    scenario(
        R, "an asynchronous hook is refused",
        BASE + "class M(Model):\n    @driver_hook('a.put')\n    async def f(self, x, y): hook('model f')\n" + test % "put(x, y)", "x, y",
        lambda r: None if r.raised else "it is accepted", may_fail=True,
    )


COMPARE = """
OUT = {}
class A(Agent):
    @driver_method()
    async def put(self, x):
        r = await hook("dut", x)
        OUT["dut"] = r
        return r
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
def out(name):
    v = hook("model " + name)
    OUT[name] = v
    return v
%s
async def test(x):
    e = E()
    %s
    r = await e.a.put(x)
    await cycle()
    await cycle()
    for n in %r:
        if n not in OUT:
            hook("missing", n)
        elif OUT[n] is None:
            hook("none", n)
        elif OUT["dut"] == OUT[n]:
            hook("same", n)
        else:
            hook("differs", n)
"""


@rule("H03")
def compared(A, R):
    combos = [
        ("a driver hook before the DUT", [("d", "model_first")], 0),
        ("a driver hook after the DUT", [("d", "dut_first")], 0),
        ("an agent hook before the DUT", [("a", "model_first")], 0),
        ("an agent hook after the DUT", [("a", "dut_first")], 0),
        ("driver and agent hook", [("d", "model_first"), ("a", "dut_first")], 0),
        ("agent and driver hook", [("a", "model_first"), ("d", "dut_first")], 0),
        ("two agent hooks", [("a", "model_first"), ("a", "model_first")], 0),
        ("hooks of two models", [("d", "model_first"), ("d", "model_first")], 1),
        ("hooks of two models, one after the DUT", [("d", "model_first"), ("d", "dut_first")], 1),
        ("hooks of two models, all kinds", [("d", "model_first"), ("a", "dut_first"), ("d", "dut_first")], 2),
    ]
    for what, hooks, split in combos:
        ms, attach = "", ""
        names = ["h%d" % i for i in range(len(hooks))]
        parts = [list(zip(names, hooks))] if not split else [list(zip(names, hooks))[:split], list(zip(names, hooks))[split:]]
        for j, part in enumerate(parts):
            ms += "class M%d(Model):\n" % j
            for n, (k, o) in part:
                ms += (
                    "    @driver_hook('a.put', sche_order=%r)\n    def %s(self, x): return out(%r)\n" if k == "d"
                    else "    @agent_hook('a', sche_order=%r)\n    def %s(self, name, args): return out(%r)\n"
                ) % (o, n, n)
            attach += "e.attach(M%d())%s" % (j, "" if j == len(parts) - 1 else "\n    ")

        def judge(r):
            t = {}
            for e in r.events:
                if e.tag in ("missing", "none", "same", "differs"):
                    t[cval(e.args[0])] = e.tag
            if sorted(t) != names or "missing" in t.values():
                return "hooks seen: %s" % t
            bad = [n for n in names if t[n] == "differs"]
            logs = len(r.find("log"))
            failed = [f for f in r.fails if f[1] == "AssertionError"]
            if len(failed) != len(r.fails):
                return "a task fails with %s" % [f[1] for f in r.fails]
            if bad and not failed:
                return "the result of %s differs from that of the DUT and nothing fails" % ", ".join(bad)
            if bad and not logs:
                return "a difference is not logged"
            if not bad and failed:
                return "the check fails although no result differs"
            if not bad and logs:
                return "an error is logged although no result differs"
            return None

        scenario(R, what, COMPARE % (ms, attach, names), "x", judge, logs=("error",), may_fail=True)
    for call in ("compare_once(a, b, f)", "compare_once(a, b, compare=f, match_detail=True)"):
        outs = R.run("comparing once", "from toffee._compare import compare_once\ndef main(a, b, verdict):\n    def f(x, y):\n        return verdict(x, y)\n    return %s\n" % call,
                     opts=Options(track_logs=("error",)))
        for o in outs or ():
            ob = Obs(o)
            calls = [e for e in ob.effects if e.kind == "call" and e.a[0] is sym("verdict")]
            logs = [e for e in ob.effects if e.kind == "log"]
            if not R.check("a given comparison is used, once", len(calls) == 1 and list(calls[0].a[1]) == [sym("a"), sym("b")],
                           "the comparison is called %d times: %s" % (len(calls), ob.describe()), ob.loc()):
                continue
            if ob.raised:
                R.check("a difference raises AssertionError and is logged", ob.raised == "AssertionError" and len(logs) == 1, ob.describe(), ob.loc())
            else:
                R.check("equal items are not logged as an error", not logs, ob.describe(), ob.loc())
            same = next((v for a, v in ob.conds if calls[0].a[3] in set(walk(a))), None)
            R.check("the verdict is that of the comparison", same is None or (ob.raised is None) == same, ob.describe(), ob.loc())


STEPS = MON.replace("class E(Env)", """class Bundle_(object):
    def __init__(self, name):
        self.name = name
    async def step(self, n=1):
        hook("mstep", self.name)
        await CLK.wait()
class E(Env)""").replace('A(ClockedBundle(), "a")', 'A(Bundle_("a"), "a")').replace('A(ClockedBundle(), "b")', 'A(Bundle_("b"), "b")').replace(
    "        left = SEEN", '        hook("mcall", self.who)\n        left = SEEN')

MTEST = "async def test(x, y, z):\n    SEEN['a'] = %s\n    SEEN['b'] = []\n    e = E()\n    MS = [%s]\n    for m in MS:\n        e.attach(m)\n    await cycle()\n    await cycle()\n    await cycle()\n%s"


@rule("H04")
def monitored(A, R):
    of_all_kinds(R, False)

    def consumers(kinds):
        """Classes of models with these consumers, and how to drain their ports."""
        code, drain, n = "", "", 0
        for i, ks in enumerate(kinds):
            init = hooks = ""
            for k in ks:
                n += 1
                if k == "mh":
                    hooks += "    @monitor_hook('a.mon')\n    def c%d(self, v): hook('model c%d', v)\n" % (n, n)
                elif k == "ah":
                    hooks += "    @agent_hook('a')\n    def c%d(self, name, v): hook('model c%d', name, v)\n" % (n, n)
                else:
                    init += "        self.c%d = %s\n" % (n, "MonitorPort('a.mon')" if k == "mp" else "AgentPort('a')")
                    drain += "    while MS[%d].c%d.qsize():\n        %s\n" % (
                        i, n, "hook('model c%d', await MS[%d].c%d())" % (n, i, n) if k == "mp" else "hook('model c%d', *(await MS[%d].c%d()))" % (n, i, n))
            code += "class M%d(Model):\n    def __init__(self):\n        super().__init__()\n%s%s" % (i, init, hooks)
        return code, drain

    for kinds in (
        [["mh"]], [["mp"]], [["ah"]], [["ap"]], [["mh", "mp", "ah", "ap"]], [["ah", "ah", "ap", "ap"]], [["mh"], ["mh"]], [["mp"], ["ah"], ["mh"]],
        [["ap"], ["mp", "ah"]], [],
    ):
        code, drain = consumers(kinds)
        flat = [k for ks in kinds for k in ks]
        for vals, expect in (("[('v', x)]", ["('v', x)"]), ("[('v', x), None, ('w', y)]", ["('v', x)", "('w', y)"]), ("[None]", []), ("[0, '', False, []]", ["0", "''", "False", "seq(())"])):
            what = "consumers %s of %s" % (kinds, vals)

            def judge(r):
                for n, k in enumerate(flat, 1):
                    got = [", ".join(args(e)) for e in r.events if e.tag == "model c%d" % n]
                    want = [("'a.mon', " if k in ("ah", "ap") else "") + v for v in expect]
                    if got != want:
                        return "a %s gets %s instead of %s" % ({"mh": "monitor hook", "mp": "monitor port", "ah": "agent hook", "ap": "agent port"}[k], got, want)
                seq = [e.tag for e in r.events if e.tag in ("mstep", "mcall") and args(e)[0] == "'a'"]
                n = vals.count(",") + 1 if vals != "[('v', x)]" else 1
                if seq[:2] != ["mstep", "mcall"] or any(x == y for x, y in zip(seq, seq[1:])):
                    return "the monitor method is not called once per step: %s" % seq
                if r.find("log"):
                    return "an error is logged"
                return None

            scenario(R, what, STEPS + code + MTEST % (vals, ", ".join("M%d()" % i for i in range(len(kinds))), drain), "x, y, z", judge, fails=2, logs=("error",))
    # values that may be None: delivered exactly if they are not
    def judge(r):
        none = [e.tag for e in r.events if e.tag in ("isnone", "some")]
        n = len([e for e in r.events if e.tag == "model c1"])
        return None if n == (0 if none == ["isnone"] else 1) else "a value that is %s is delivered %d times" % (none, n)

    code, drain = consumers([["mh"]])
    scenario(R, "any value", STEPS + code + MTEST % ("[x]", "M0()", drain + "    hook('isnone' if x is None else 'some')\n"), "x, y, z", judge, fails=2)


@rule("H05")
def queued(A, R):
    """Values v0, v1, ... of the monitor; 'r' lets the consumer read once in between."""
    base = """
SEEN = []
class Stop(Exception):
    pass
class A(Agent):
    @monitor_method()
    async def mon(self):
        if not SEEN:
            raise Stop()
        v = SEEN.pop(0)
        if v == "r":
            hook("size", self.monitor_size("mon"))
            hook("read", await self.mon())
            return None
        return v
    @monitor_method()
    async def other(self):
        raise Stop()
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
"""
    seqs = ["v", "vv", "vvv", "vvvvvv", "vnv", "vrv", "vvrvv", "vvvrrv", "vvvvvvvrvv", "n", ""]
    for env in (True, False, "step"):
        for size in (None, 1, 2, 4, 5) if env != "step" else (None, 2):
            for seq in seqs:
                vals, n = [], 0
                q, exp, errs = [], [], 0
                cap = 4 if size is None else size
                ok = True
                for c in seq:
                    if c == "v":
                        v = "('v', %d)" % n
                        n += 1
                        vals.append(v)
                        if len(q) >= cap:
                            errs += 1
                        else:
                            q.append(v)
                    elif c == "n":
                        vals.append("None")
                    else:
                        vals.append("'r'")
                        exp.append("size(%d)" % len(q))
                        if not q:
                            ok = False
                            break
                        exp.append("read(%s)" % q.pop(0))
                if not ok:
                    continue
                exp += ["size(%d)" % len(q)] + ["read(%s)" % v for v in q] + ["size(0)"]
                code = base + "async def test(x):\n    SEEN.extend([%s])\n    %s\n    hook('before', a.monitor_size('mon'))\n    a.start_monitor('mon'%s)\n" % (
                    ", ".join(vals), {True: "a = E().a", False: "a = A(ClockedBundle())", "step": "a = A(ClockedBundle().step)"}[env], "" if size is None else ", %s%d" % ("maxsize=" if size % 2 else "", size))
                code += "    await cycle()\n    hook('size', a.monitor_size('mon'))\n    while a.monitor_size('mon') > 0:\n        hook('read', await a.mon())\n    hook('size', a.monitor_size('mon'))\n    hook('other', a.monitor_size('other'))\n"

                def judge(r):
                    got = [call_of(e) for e in r.events if e.tag in ("size", "read")]
                    if got != exp:
                        return "expected %s, got %s" % (exp, got)
                    if len(r.find("log")) != errs:
                        return "%d values are dropped with %d error messages" % (errs, len(r.find("log")))
                    if args(r.find("before")[0]) != ["0"] or args(r.find("other")[0]) != ["0"]:
                        return "values wait before the monitor has been started"
                    return None

                scenario(R, "queue of %s, %s, values %s" % (size or "default size", {True: "in an environment", False: "of an agent alone", "step": "of an agent with a step function"}[env], seq or "none"),
                         code, "x", judge, fails=2, logs=("error",))
    # nothing is queued before the start, and starting again starts anew
    scenario(
        R, "values before the start are not queued",
        base + "async def test(x):\n    SEEN.extend([('v', 1)])\n    a = A(ClockedBundle())\n    await cycle()\n    a.start_monitor('mon')\n    hook('size', a.monitor_size('mon'))\n",
        "x", lambda r: None if args(r.find("size")[0]) == ["0"] else "%s values are there" % args(r.find("size")[0]), fails=2,
    )
