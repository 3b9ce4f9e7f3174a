"""Waiting for pins and clock cycles: the triggers as automata over a finite domain of pin values."""

from ..rule import *
from .world import scenario

BOOL = '''
        else:
            self.value = 1
            self.hook("value", self.name, 1)
'''
WIDE = '''
        elif self.hook("one", self.name, why):
            self.value = 1
            self.hook("value", self.name, 1)
        else:
            self.value = 2
            self.hook("value", self.name, 2)
'''
PINS = '''
class Ev:
    async def wait(self):
        self.hook("wait")
        await self.hook("tick")
        for p in self.pins:
            p.pick("cycle")

class Pin:
    def pick(self, why):
        if self.hook("zero", self.name, why):
            self.value = 0
            self.hook("value", self.name, 0)%s
class Dut:
    async def wait(self):
        await self.ev.wait()

def pins(hook, *names):
    ev = Ev()
    ev.hook = hook
    ev.pins = []
    for n in names:
        p = Pin()
        p.hook = hook
        p.name = n
        p.event = ev
        p.pick("start")
        ev.pins.append(p)
    return ev.pins

'''


class Waiter(Monitor):
    """history -> must the trigger go on waiting?

    start/step/done describe the automaton of the trigger: state after the first values, after a
    cycle with new values, and whether the trigger has to return in a state.
    """

    def __init__(self, names, begin, step, done, what):
        Monitor.__init__(self)
        self.names, self.begin, self.step, self.done, self.what = names, begin, step, done, what
        self.start = ("init", (None,) * len(names), None)
        self.returns = 0
        self.waits = 0
        self.loc = None

    # m = (phase, values, automaton state)
    def eff(self, m, kind, a, loc, st):
        if kind != "call" or a[0] is not sym("hook"):
            if kind == "await" and m[0] == "run" and not any(
                x.op == "var" and x.a[0] == "hook" for x in walk(norm(a[0]))
            ):
                self.error("%s suspends without waiting for a clock event: %s" % (self.what, show(a[0])), loc)
            return m
        args = [cval(x) if x.op == "const" else x for x in a[1]]
        ph, vals, q = m
        if args[0] == "value":
            vals = list(vals)
            vals[self.names.index(args[1])] = args[2]
            vals = tuple(vals)
            if ph == "init":
                return (ph, vals, q)
            if ph == "tick" and args[1] == self.names[-1]:
                return ("run", vals, self.step(q, vals))
            return (ph, vals, q)
        if args[0] == "go":
            return ("run", vals, self.begin(vals))
        if args[0] == "wait":
            self.waits += 1
            if ph != "run":
                self.error("%s waits twice in a cycle" % self.what, loc)
            elif self.done(q, vals):
                self.error("%s goes on waiting in a cycle it has to return in (%s)" % (self.what, self.tell(vals, q)), loc)
            self.loc = loc
            return ("tick", vals, q)
        if args[0] == "back":
            self.returns += 1
            if ph == "run" and not self.done(q, vals):
                self.error("%s returns in a cycle it has to wait in (%s)" % (self.what, self.tell(vals, q)), self.loc or loc)
            return ("end", vals, q)
        return m

    def tell(self, vals, q):
        return ", ".join("%s=%s" % x for x in zip(self.names, vals)) + "; history %s" % (q,)


def trigger(A, R, what, call, names, begin, step, done, locals_="", may_hang=False):
    code = PINS % (WIDE if len(names) == 1 else BOOL) + "async def main(hook):\n    ps = pins(hook, %s)\n%s    hook('go')\n    await %s\n    hook('back')\n" % (
        ", ".join(map(repr, names)),
        locals_,
        call,
    )
    mon = Waiter(names, begin, step, done, what)
    outs = R.run(what, code, opts=Options(finite=True), monitor=mon)
    if outs is None:
        return
    errs = [o for o in outs if o.exc is not None]
    if errs:
        R.bad("%s ends without an exception" % what, "%s raises %s" % (what, errs[0].raised), Obs(errs[0]).loc())
    for m, l in mon.errors[:1]:
        R.bad("%s returns in the first cycle it has to" % what, m, l)
    if not mon.errors:
        R.check(
            "%s returns in the first cycle it has to" % what,
            mon.returns > 0,
            "%s never returns" % what,
            mon.loc,
        )


def delayed(d, cond):
    """Not before d cycles, then in the first cycle cond(values) holds."""
    return (
        lambda v: 0,
        lambda q, v: min(q + 1, d),
        lambda q, v: q >= d and cond(v),
    )


COUNT = '''
class Ev:
    async def wait(self):
        hook("cycle")

class Item:
    pass

class Steps(Bundle):
    def __init__(self):
        pass
    async def step(self, ncycles=1):
        for _ in range(ncycles):
            await self.ev.wait()

async def test():
    ev = Ev()
    item = %s
    item.%s = ev%s
    await ClockCycles(item%s)
    hook("back")
'''


def count(R, item, n):
    make, name = {"pin": ("Item()", "event"), "dut": ("Item()", "wait"), "bundle": ("Steps()", "ev"), "bundle with a pin named event": ("Steps()", "ev")}[item]
    code = "from toffee.triggers import ClockCycles\nfrom toffee.bundle import Bundle\n" + COUNT % (
        make, name, {"dut": ".wait"}.get(item, "") + ("\n    item.event = Item()\n    item.event.event = ev" if "event" in item else ""), "" if n is None else ", %d" % n)

    def judge(r):
        tags = [e.tag for e in r.events]
        k = tags.count("cycle")
        if "back" not in tags or "cycle" in tags[tags.index("back") :] or k != (1 if n is None else n):
            return "%d cycles pass" % k

    scenario(R, "ClockCycles(%s, %s)" % (item, "number not given" if n is None else "%d cycles" % n), code, "", judge)


@rule("T01")
def clock_cycles(A, R):
    for n in (0, 1, 2, 3):
        d = delayed(n, lambda v: True)
        trigger(A, R, "ClockCycles(pin, %d)" % n, "ClockCycles(ps[0], %d)" % n, ["a"], *d)
        loc = "    d = Dut()\n    d.ev = ps[0].event\n"
        trigger(
            A, R, "ClockCycles(dut, %d)" % n, "ClockCycles(d, %d)" % n, ["a"], *d,
            locals_=loc,
        )
    d = delayed(1, lambda v: True)
    trigger(A, R, "ClockCycles(pin)", "ClockCycles(ps[0])", ["a"], *d)
    for item in ("pin", "dut", "bundle", "bundle with a pin named event"):
        for n in (None, 0, 1, 2, 3, 4, 5, 8, 16, 33):
            count(R, item, n)
    # any number of cycles, any kind of item (other ways to count are judged above)
    R.compare(
        "ClockCycles(pin, any number)",
        "async def main(pin, n):\n    if hasattr(pin, 'event') and not isinstance(pin, Bundle):\n        await ClockCycles(pin, n)\n",
        "async def main(pin, n):\n    if hasattr(pin, 'event') and not isinstance(pin, Bundle):\n        for _ in range(n):\n            await pin.event.wait()\n",
        keep=lambda e: e.kind == "await",
        ret=False,
        soft=True,
    )
    R.compare(
        "ClockCycles(dut, any number)",
        "async def main(dut, n):\n    if not hasattr(dut, 'event') and not isinstance(dut, Bundle):\n        await ClockCycles(dut, n)\n",
        "async def main(dut, n):\n    if not hasattr(dut, 'event') and not isinstance(dut, Bundle):\n        for _ in range(n):\n            await dut.wait()\n",
        keep=lambda e: e.kind == "await",
        ret=False,
        soft=True,
    )
    R.compare(
        "ClockCycles(bundle, any number)",
        "async def main(bundle, n):\n    await ClockCycles(bundle, n)\n",
        "async def main(bundle, n):\n    await bundle.step(n)\n",
        types={"bundle": "toffee.bundle.Bundle"},
        keep=lambda e: e.kind == "await",
        ret=False,
        soft=True,
    )


@rule("T03")
def conditions(A, R):
    for d in (None, 0, 1, 2):
        dd = 1 if d is None else d
        arg = "" if d is None else ", delay=%d" % d
        trigger(A, R, "Value(pin, 1%s)" % arg, "Value(ps[0], 1%s)" % arg, ["a"], *delayed(dd, lambda v: v[0] == 1))
        trigger(A, R, "AllValid(a, b%s)" % arg, "AllValid(ps[0], ps[1]%s)" % arg, ["a", "b"],
                *delayed(dd, lambda v: v[0] != 0 and v[1] != 0))
        trigger(A, R, "AllValid(a%s)" % arg, "AllValid(ps[0]%s)" % arg, ["a"], *delayed(dd, lambda v: v[0] != 0))
        trigger(A, R, "Condition(pin, func%s)" % arg, "Condition(ps[0], lambda p: p.value == 2%s)" % arg, ["a"],
                *delayed(dd, lambda v: v[0] == 2))
    trigger(A, R, "AllValid(a, b, c)", "AllValid(*ps, delay=0)", ["a", "b", "c"], *delayed(0, lambda v: all(v)))
    trigger(A, R, "Condition(pin, number)", "Condition(ps[0], lambda p: p.value)", ["a"], *delayed(1, lambda v: v[0] != 0))
    trigger(A, R, "Value(pin, 0)", "Value(ps[0], 0)", ["a"], *delayed(1, lambda v: v[0] == 0))
    outs = R.run("Condition", "async def main(item, func):\n    await Condition(item, func)\n")
    for o in outs or ():
        for e in Obs(o).effects:
            if e.kind == "call" and e.a[0] is sym("func"):
                R.check("the condition gets the item", e.a[1] == (sym("item"),) and not e.a[2],
                        "the condition is called with %s" % show(e.a[1]), e.loc)


@rule("T02")
def edges(A, R):
    trigger(A, R, "Change", "Change(ps[0])", ["a"], lambda v: (v[0], 0), lambda q, v: q, lambda q, v: v[0] != q[0])
    prev = (lambda v: (None, v[0]), lambda q, v: (q[1], v[0]))
    trigger(A, R, "RisingEdge", "RisingEdge(ps[0])", ["a"], *prev, lambda q, v: q[0] == 0 and q[1] != 0)
    trigger(A, R, "FallingEdge", "FallingEdge(ps[0])", ["a"], *prev,
            lambda q, v: q[0] not in (0, None) and q[1] == 0)
