"""The executor."""

import itertools

from .world import *
from .clock import body_of

JOB = '''
async def job(name):
    hook("start", name)
    r = await hook("run", name)
    hook("end", name)
    return r

async def bare(name):
    return await hook("run", name)

'''


def run_of(x):
    """Result of job(x), as it is shown."""
    return "awaited(hook('run', %r))" % x


def entries(t):
    """{key: value} of a dict term with constant keys, None if it is something else."""
    if t is None or t.op != "dictof":
        return None
    d = {}
    for s in t.a[0]:
        k = s.a[0] if s.op == "kv" else s
        if k.op == "const":
            k = cval(k)
        elif k.op == "tuple" and all(x.op == "const" for x in k.a):
            k = tuple(cval(x) for x in k.a)
        else:
            return None
        d[k] = s.a[1]
    return d


def is_list(t, xs):
    return t.op in ("seq", "tuple") and len(t.a[0] if t.op == "seq" else t.a) == len(xs) and all(
        show(s.a[0] if s.op == "one" else s) == x for s, x in zip(t.a[0] if t.op == "seq" else t.a, xs)
    )


def one_job(e):
    return cval(e.args[0]) if e.args and e.args[0].op == "const" else None


def positions(r):
    return {(e.tag, one_job(e)): i for i, e in enumerate(r.events) if e.tag in ("start", "run", "end")}


SHAPES = [
    ("one group of one", [("a", "g")]),
    ("one group of three", [("a", "g"), ("b", "g"), ("c", "g")]),
    ("two groups, mixed", [("a", "g"), ("b", "h"), ("c", "g")]),
    ("three groups, mixed", [("a", "h"), ("b", "g"), ("c", "h"), ("d", "k"), ("e", "g")]),
    ("default groups", [("a", None), ("b", "g"), ("c", None)]),
    ("groups of all kinds of names", [("a", 0), ("b", ""), ("c", 1), ("d", 0), ("e", ("x", 1)), ("f", ""), ("g", "job")]),
    ("empty", []),
]


def expected(shape):
    gs = {}
    for n, g in shape:
        gs.setdefault("job" if g is None else g, []).append(n)
    return gs


def program(shape, exit_, after):
    body = "".join(
        "        ex(job(%r)%s)\n" % (n, ", sche_group=%r" % (g,) if g is not None else "") for n, g in shape
    ) or "        pass\n"
    return (
        JOB
        + "async def test():\n    async with Executor(%s) as ex:\n%s    hook('left')\n%s" % (exit_, body, after)
    )


def check_results(R, what, gs, t, loc):
    d = entries(t)
    good = d is not None and list(d) == list(gs)
    if good:
        for g, names in gs.items():
            if len(names) == 1:
                good = good and show(d[g]) == run_of(names[0])
            else:
                good = good and is_list(d[g], [run_of(n) for n in names])
    elif d is not None and set(d) == set(gs):
        good = False
    if not good and imprecise(t):
        R.undecided(what, "results are %s" % show(t), loc)
    else:
        R.check(what, good, "groups %s: the results are %s" % (gs, show(t)), loc)


def check_order(R, what, gs, r, exclusive=True):
    """Every job runs once; in a group one after the other; groups side by side."""
    p = positions(r)
    tags = [(e.tag, one_job(e)) for e in r.events if e.tag in ("start", "run", "end")]
    bad = None
    for g, names in gs.items():
        for n in names:
            if tags.count(("start", n)) != 1 or tags.count(("end", n)) != 1:
                bad = "%s is executed %d times" % (n, tags.count(("start", n)))
        for x, y in zip(names, names[1:]):
            if not bad and p[("start", y)] < p[("end", x)]:
                bad = "%s starts before %s of the same group has ended" % (y, x)
    if not bad and exclusive:
        firsts = [names[0] for names in gs.values()]
        for x in firsts:
            for y in firsts:
                if p[("start", x)] > p[("end", y)]:
                    bad = "group of %s starts only after %s has ended" % (x, y)
    R.check(what, bad is None, bad or "", r.loc())


@rule("E01")
def groups(A, R):
    for name, shape in SHAPES:
        gs = expected(shape)
        for ex in ("", "exit='all'"):
            rs = client(R, "executor %s: %s" % (ex or "(default)", name), program(shape, ex, "    return ex.get_results()\n"))
            for r in rs or ():
                if r.div:
                    R.undecided("the program ends", r.tell(), r.loc())
                    continue
                if r.raised or r.stuck:
                    R.bad("executor %s ends: %s" % (ex, name), r.tell(), r.loc())
                    continue
                check_order(R, "groups run side by side, a group in order: " + name, gs, r)
                check_results(R, "results: " + name, gs, r.ret, r.loc())
                left = r.tags().index("left")
                R.check(
                    "all jobs have ended when the block is left: " + name,
                    all(i < left for i in positions(r).values()),
                    "the block of Executor(%s) is left before all jobs have ended: %s" % (ex, r.tell()),
                    r.loc(),
                )
    # a second executor is independent of the first
    rs = client(
        R, "two executors",
        JOB + """
async def test():
    async with Executor() as e1:
        e1(job("a"), sche_group="g")
    async with Executor() as e2:
        e2(job("b"), sche_group="g")
    return e1.get_results(), e2.get_results()
""")
    for r in rs or ():
        if r.raised:
            R.bad("two executors", r.tell(), r.loc())
            continue
        ok = r.ret.op == "tuple"
        for t, n in zip(r.ret.a if ok else (), "ab"):
            check_results(R, "executors are independent", {"g": [n]}, t, r.loc())
    # a call that is refused leaves nothing behind
    for how in ("all", "any", "none"):
        for what, call in (("a priority", "ex(c, priority=5)"), ("an order", "ex(c, sche_order='dut_first')"), ("a priority, group given", "ex(c, priority=5, sche_group='h')"),
                           ("a priority, group of another", "ex(c, priority=5, sche_group='g')")):
            for first in (True, False):
                code = JOB + """
async def late(name):
    await cycle(2)
    hook('end', name)
    return name
async def test():
    async with Executor(exit=%r) as ex:
%s        c = job('a')
        try:
            %s
        except AssertionError:
            hook('refused')
%s    hook('left')
    await ex.wait_all()
    return ex.get_results()
""" % (how, "        ex(late('b'), sche_group='g')\n" if first else "", call, "        ex(late('b'), sche_group='g')\n" if not first else "")

                def judge(r):
                    if not r.find("refused"):
                        return "the call is not refused"
                    if r.find("start"):
                        return "the refused coroutine runs"
                    t = r.tags()
                    n = t[: t.index("left")].count("step")
                    if n != (0 if how == "none" else 2):
                        return "the block is left after %d cycles" % n
                    d = entries(r.ret)
                    if d is None and imprecise(r.ret):
                        return Und("results are %s" % show(r.ret))
                    return None if d is not None and list(d) == ["g"] and show(d["g"]) == "'b'" else "the results are %s" % show(r.ret)

                scenario(R, "a refused call leaves nothing behind", code, "", judge)
    # coroutines whose parameters have the names the package uses itself
    for name, value in itertools.product(("agent", "self", "driver", "func", "args", "coro"), ("5", "None", "'a'", "Plain()", "e.a", "e")):
        code = DRV + """
class Plain:
    pass
async def job(%s, n):
    hook('job', n)
    return n
async def test():
    e = E()
    async with Executor() as ex:
        ex(job(%s, 1))
        ex(job(%s, 2))
        ex(job(None, 3), sche_group='g')
    return ex.get_results()
""" % (name, value, value)

        def judge(r):
            if sorted(args(x)[0] for x in r.find("job")) != ["1", "2", "3"]:
                return "the jobs run are %s" % [args(x)[0] for x in r.find("job")]
            d = entries(r.ret)
            if d is None and imprecise(r.ret):
                return Und("results are %s" % show(r.ret))
            ok = d is not None and list(d) == ["job", "g"] and is_list(d["job"], ["1", "2"]) and show(d["g"]) == "3"
            return None if ok else "the results are %s" % show(r.ret)

        scenario(R, "a coroutine with a parameter named %s" % name, code, "", judge)
    # default group of a driver call
    rs = client(R, "default group of a driver call", DRV + """
async def test(x):
    e = E()
    async with Executor() as ex:
        ex(e.a.put(x))
        ex(e.b.put(x))
        ex(e.b.get())
    return ex.get_results()
""", "x")
    for r in rs or ():
        d = entries(r.ret)
        R.check(
            "driver calls are grouped by agent and method",
            d is not None and sorted(d) == ["a.put", "b.get", "b.put"] and not r.raised,
            "driver calls without a group name: the results are %s" % r.tell(),
            r.loc(),
        )


DRV = """
class A(Agent):
    @driver_method()
    async def put(self, x):
        return await hook("dut put", x)
    @driver_method()
    async def get(self):
        return await hook("dut get")
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
        self.b = A(ClockedBundle())
"""


@rule("E02")
def exits(A, R):
    for name, shape in SHAPES:
        gs = expected(shape)
        rs = client(
            R, "exit='none': %s" % name,
            program(shape, "exit='none'", "    r0 = ex.get_results()\n    await ex.wait_all()\n    return r0, ex.get_results()\n"),
        )
        for r in rs or ():
            if r.div:
                R.undecided("the program ends", r.tell(), r.loc())
                continue
            if r.raised or r.stuck:
                R.bad("exit='none' ends: " + name, r.tell(), r.loc())
                continue
            left = r.tags().index("left")
            R.check(
                "with 'none' the block is left at once: " + name,
                all(i > left for i in positions(r).values()),
                "Executor(exit='none') runs jobs before the block is left: %s" % r.tell(),
                r.loc(),
            )
            check_order(R, "with 'none' every job runs, a group in order: " + name, gs, r)
            if r.ret.op == "tuple" and len(r.ret.a) == 2:
                check_results(R, "with 'none' the results are there after wait_all: " + name, gs, r.ret.a[1], r.loc())
        rs = client(
            R, "exit='any': %s" % name,
            program(shape, "exit='any'", "    await ex.wait_all()\n    return ex.get_results()\n"),
        ) if shape else None
        for r in rs or ():
            if r.div:
                R.undecided("the program ends", r.tell(), r.loc())
                continue
            if r.raised or r.stuck:
                R.bad("exit='any' ends: " + name, r.tell(), r.loc())
                continue
            check_order(R, "with 'any' every job runs, a group in order: " + name, gs, r)
            check_results(R, "with 'any' the results are there after wait_all: " + name, gs, r.ret, r.loc())
        rs = client(
            R, "exit='all', wait_all: %s" % name,
            program(shape, "exit='all'", "    await ex.wait_all()\n    return ex.get_results()\n"),
        )
        for r in rs or ():
            if r.div:
                R.undecided("the program ends", r.tell(), r.loc())
                continue
            if r.raised or r.stuck:
                R.bad("wait_all after exit='all' ends: " + name, r.tell(), r.loc())
                continue
            check_results(R, "wait_all keeps the results of 'all': " + name, gs, r.ret, r.loc())
    # a group that fails: nobody gets results as if it had not
    for how in ("all", "none", "any"):
        for order, later in itertools.product(("abc", "bac", "acb"), (0, 1)):
            code = """
class Bad(Exception):
    pass
async def job(n):
    return n
async def bad():
    raise Bad()
async def test():
    try:
        async with Executor(exit=%r) as ex:
%s        for i in range(%d):
            await create_task(job(i))
        await ex.wait_all()
    except Bad:
        hook('bad')
    else:
        hook('no', ex.get_results())
""" % (how, "".join("            ex(%s, sche_group=%r)\n" % ("bad()" if n == "b" else "job(%r)" % n, n) for n in order), later * 3)
            scenario(R, "exit=%r, then wait_all%s: a group that fails, groups %s" % (how, " later" * later, order), code, "",
                     lambda r: "the results are taken although a group failed" if r.find("no") else "the failure of the group is not what is raised" if r.raised not in (None, "?", "Bad") or r.stuck or not r.raised and not r.div and not r.find("bad") else None, may_fail=True)
    # leaving with 'any': the block waits for an event that every group sets when its last job has ended
    outs = R.run(
        "leaving with 'any'",
        """
async def job(x):
    return await x
async def main(a, b, c):
    async with Executor(exit="any") as ex:
        ex(job(a), sche_group="g")
        ex(job(b), sche_group="h")
        ex(job(c), sche_group="g")
""",
    )
    for o in outs or ():
        ob = Obs(o)
        if o.exc is not None:
            R.bad("leaving with 'any'", ob.describe(), ob.loc())
            continue
        parent = [e for e in ob.effects if not any(b.op == "intask" for b in e.bind)]
        aw = [e for e in parent if e.kind == "await"]
        if any(x.op == "ext" and x.a[0] == "asyncio.wait" for e in aw for x in walk(e.a[0])):
            good = any(
                x.op == "call" and dict(x.a[2]).get("return_when") is ext("asyncio.FIRST_COMPLETED")
                for e in aw for x in walk(e.a[0]) if x.op == "call"
            )
            R.check("with 'any' the block is left when the first group is done", good and len(aw) == 1, "Executor(exit='any') does not wait for the first group", ob.loc())
            continue
        evs = {x for e in aw for x in walk(e.a[0]) if x.op == "inst" and "Event" in show(x)}
        R.check(
            "with 'any' the block waits for one event",
            len(aw) == 1 and len(evs) == 1,
            "Executor(exit='any') waits for %s" % ", ".join(show(e.a[0]) for e in aw),
            ob.loc(),
        )
        if len(evs) != 1:
            continue
        ev = evs.pop()

        def touches(e, m):
            return e.kind == "call" and m in show(e.a[0]).replace(">", "").split(".") and ev in set(walk(e.a[0]))

        clears = [i for i, e in enumerate(parent) if touches(e, "clear")]
        spawns = [i for i, e in enumerate(parent) if e.kind == "spawn"]
        R.check(
            "with 'any' no completion is forgotten",
            not clears or not spawns or max(clears) < min(spawns),
            "Executor(exit='any') clears the event after groups have been started",
            ob.loc(),
        )
        for sp in [e for e in o.effects if e.kind == "spawn"]:
            names = [x for x in ("a", "b", "c") if sym(x) in set(walk(Freezer(o.st).t(sp.a[0])))]
            alts = [al for al in sp.a[2] if al.kind == "end"]
            for al in alts:
                fz = Freezer(al.st or o.st)
                seq = list(flatten(al.effects, fz))
                last = max([i for i, e in enumerate(seq) if e.kind == "await"], default=-1)
                sets = [i for i, e in enumerate(seq) if touches(e, "set")]
                already = any(
                    v and "is_set" in show(a) and ev in set(walk(fz.t(norm(a)))) for a, v in al.conds
                )
                R.check(
                    "with 'any' a group tells that it is done",
                    bool(sets) or already,
                    "a group of Executor(exit='any') ends without telling",
                    seq[-1].loc if seq else None,
                )
                R.check(
                    "with 'any' a group tells only after its last job",
                    not sets or min(sets) > last,
                    "a group of Executor(exit='any') tells that it is done before its last job has ended",
                    seq[sets[0]].loc if sets else None,
                )
    # anything else is refused
    for bad in ("'first'", "None", "''", "'ALL'"):
        rs = client(R, "exit=%s" % bad, program([("a", "g")], "exit=%s" % bad, ""))
        for r in rs or ():
            R.check(
                "an unknown exit condition is refused",
                r.raised == "ValueError" and not positions(r),
                "Executor(exit=%s): %s" % (bad, r.tell()),
                r.loc(),
            )


HOOKED = """
class A(Agent):
    @driver_method()
    async def put(self, x):
        hook("dut put", x)
    @driver_method()
    async def get(self, x):
        hook("dut get", x)
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
class M(Model):
    @driver_hook(agent_name="a", priority=40%s)
    def put(self, x):
        hook("model put", x)
    @driver_hook(agent_name="a", priority=60%s)
    def get(self, x):
        hook("model get", x)
async def plain(x):
    hook("plain", x)
async def go(body):
    e = E()
    e.attach(M())
    await body(e)
"""

AGENT_HOOKED = HOOKED.replace("""    @driver_hook(agent_name="a", priority=40%s)
    def put(self, x):
        hook("model put", x)
    @driver_hook(agent_name="a", priority=60%s)
    def get(self, x):
        hook("model get", x)
""", """    @agent_hook(methods=["a.put"], priority=40%s)
    def f(self, name, v):
        hook("model put" if name == "a.put" else "model wrong", v["x"])
    @agent_hook(methods=["a.get"], priority=60%s)
    def g(self, name, v):
        hook("model get" if name == "a.get" else "model wrong", v["x"])
""")
KINDS = (("", HOOKED), (" (agent hooks)", AGENT_HOOKED))


def model_order(R, what, so, calls, want, note, after=()):
    for kind, hooked in KINDS:
        model_order_(R, what + kind, hooked, so, calls, want, note, after)


def model_order_(R, what, hooked, so, calls, want, note, after):
    code = hooked % (so, so) + "async def test(x, y):\n    e = E()\n    e.attach(M())\n    async with Executor() as ex:\n" + "".join(
        "        ex(%s)\n" % c for c in calls
    ) + "    await cycle()\n"
    rs = client(R, what, code, "x, y")
    for r in rs or ():
        got = []
        for e in r.events:
            if e.tag.startswith(("model", "dut")) and (not want or any(e.tag.startswith(w.split()[0]) for w in want)):
                got.append("%s %s" % (e.tag, show(e.args[0])))
        R.check(what, r.raised is None and not r.fails and not r.stuck and (
            got == want if want else all(x in got and y in got and got.index(x) < got.index(y) for x, y in after)), "%s: %s; expected %s; got %s" % (note, "; ".join(calls), want or after, got if not r.raised else r.tell()), r.loc())


@rule("E03")
def priorities(A, R):
    mo = lambda what, calls, want: model_order(R, what, "", calls, want, "order of the hooks")
    mo("hooks of a cycle run by their own priority", ["e.a.get(x)", "e.a.put(y)"], ["model put y", "model get x"])
    mo("the priority of a call counts before that of the hook", ["e.a.put(y), priority=70", "e.a.get(x)"], ["model get x", "model put y"])
    mo("priority 0 counts", ["e.a.put(y)", "e.a.get(x), priority=0"], ["model get x", "model put y"])
    mo("priorities of two calls", ["e.a.put(y), priority=99", "e.a.get(x), priority=98"], ["model get x", "model put y"])
    mo(
        "a priority is for one call of the driver only",
        ["e.a.put(x), priority=80, sche_group='g'", "e.a.put(y), sche_group='h'", "e.a.get(x), sche_group='k'"],
        ["model put y", "model get x", "model put x"],
    )
    mo(
        "two calls of a driver with different priorities",
        ["e.a.put(x), priority=20, sche_group='g'", "e.a.put(y), priority=10, sche_group='h'"],
        ["model put y", "model put x"],
    )
    for order, want in (
        ("'model_first'", ["model put x", "dut put x"]),
        ("'dut_first'", ["dut put x", "model put x"]),
        ("'parallel'", ["model put x", "dut put x"]),
        ("None", ["dut put x", "model put x"]),
    ):
        model_order(R, "sche_order=%s of a call counts before that of the hook" % order, ", sche_order='dut_first'",
                    ["e.a.put(x), sche_order=%s" % order], want, "order")
    model_order(R, "sche_order='dut_first' of a call counts before that of the hook", "", ["e.a.put(x), sche_order='dut_first'"],
                ["dut put x", "model put x"], "order")
    model_order(
        R, "a sche_order is for one call of the driver only", "",
        ["e.a.put(x), sche_order='dut_first', sche_group='g'", "e.a.put(y), sche_group='g'"],
        None, "order", after=[("dut put x", "model put x"), ("model put y", "dut put y")],
    )
    # both together
    for so, given, ends in (("", "dut_first", ("dut", "model")), (", sche_order='dut_first'", "model_first", ("model", "dut")), (", sche_order='dut_first'", "parallel", ("model", "dut"))):
        both = ["e.a.put(x), priority=70, sche_order=%r" % given, "e.a.get(y), priority=10, sche_order=%r" % given]
        for calls in (both, both[::-1]):
            model_order(R, "priority and sche_order=%r in one call" % given, so, calls, None, "order",
                        after=[("model get y", "model put x")] + [tuple("%s %s" % (k, c) for k in ends) for c in ("put x", "get y")])
    # ... and not for later calls made without an executor
    for kind, hooked in KINDS:
        for first in ("e.a.put(z), priority=80", "e.a.put(z), priority=80, sche_order='dut_first'", "e.a.put(z), sche_order='dut_first'"):
            code = hooked % ("", "") + """
async def test(x, y, z):
    e = E()
    e.attach(M())
    async with Executor() as ex:
        ex(%s)
    await cycle()
    create_task(e.a.get(x))
    create_task(e.a.put(y))
    await cycle()
    await cycle()
""" % first

            def judge(r):
                got = [g for g in ("%s %s" % (e.tag, show(e.args[0])) for e in r.events if e.tag.startswith(("model", "dut"))) if not g.endswith("z")]
                want = ["model put y", "model get x"]
                if [g for g in got if g.startswith("model")] != want or sorted(got) != ["dut get x", "dut put y"] + sorted(want) or got.index("model put y") > got.index("dut put y"):
                    return "the later calls run as %s" % got

            scenario(R, "the settings of %s are not for a later call" % first + kind, code, "x, y, z", judge)
    # what is accepted
    code = HOOKED % ("", "") + """
async def test(x, p):
    e = E()
    e.attach(M())
    async with Executor() as ex:
        ex(%s)
    await cycle()
"""
    p = sym("p")
    rs = client(R, "priority of a driver call", code % "e.a.put(x), priority=p", "x, p")
    for r in rs or ():
        rng = interval(r.o.st, p)
        if r.raised:
            R.check("a priority outside 0..99 is refused, and no other", r.raised == "AssertionError" and (rng[1] < 0 or rng[0] > 99),
                    "priority %s: %s" % (rng, r.tell()), r.loc())
        else:
            isnone = r.known(mk("is", p, NONE))
            R.check("a priority outside 0..99 is refused, and no other", isnone or (rng[0] >= 0 and rng[1] <= 99),
                    "a priority in %s is accepted" % (rng,), r.loc())
    for what, call, ok in (
        ("a priority of something that is no driver", "plain(x), priority=5", False),
        ("a priority of something that is no driver, group given", "plain(x), priority=5, sche_group='g'", False),
        ("a sche_order of something that is no driver", "plain(x), sche_order='dut_first'", False),
        ("no priority", "plain(x)", True),
        ("only a group", "plain(x), sche_group='g'", True),
        ("a priority and a sche_order of a driver", "e.a.put(x), priority=5, sche_order='dut_first', sche_group='g'", True),
    ):
        rs = client(R, what, code % call, "x, p")
        for r in rs or ():
            R.check(
                "%s is %s" % (what, "accepted" if ok else "refused"),
                (r.raised is None) if ok else (r.raised == "AssertionError" and not r.find("plain")),
                "ex(%s): %s" % (call, r.tell()),
                r.loc(),
            )


def interval(st, t):
    lo, hi, ne = st.iv.get(mk("lin", ((t, 1),)), (-INF, INF, frozenset()))
    return lo, hi
