"""Client programs of the package, analysed together with it.

The program is a test as a user writes it; data (arguments, results of the DUT and of the hooks) are
arbitrary values. 'hook' stands for the outside: hook(tag, ...) is a visible event with an unknown
result. Tasks start in the order of their creation; a cycle of the clock passes when nothing can run.
"""

from ..rule import *

PRELUDE = '''
import asyncio

class ClockedBundle:
    async def step(self, ncycles=1):
        for _ in range(ncycles):
            await CLK.wait()

class Clock:
    def __init__(self):
        self.ev = None
    async def wait(self):
        await self.ev.wait()

CLK = Clock()

async def idle(what):
    await execute_all_coros()
    if CLK.ev is not None:
        hook("step")
        CLK.ev.set()
        CLK.ev.clear()

async def cycle(n=1):
    for _ in range(n):
        await CLK.wait()

async def main(%s):
    CLK.ev = Event()
    asyncio.get_event_loop().global_clock_event = CLK.ev
    return await main_coro(test(%s))

'''


class Run(object):
    """One class of executions of the client program."""

    def __init__(self, o):
        self.o = o
        ob = self.ob = Obs(o)
        self.ret = ob.ret
        self.raised = ob.raised
        self.conds = ob.conds
        self.div = o.div
        self.events = []
        self.fails = []
        self.stuck = []
        self.results = {}
        for e in ob.effects:
            if e.kind == "call" and e.a[0] is HOOK:
                tag = cval(e.a[1][0]) if e.a[1] and e.a[1][0].op == "const" else show(e.a[1])
                self.events.append(Ev(tag, tuple(e.a[1][1:]), e.a[2], e))
            elif e.kind == "taskfail":
                self.fails.append((show(e.a[0]), exc_name(o.st, e.raw.a[1]), e))
            elif e.kind == "stuck":
                self.stuck.append(e)
            elif e.kind == "log":
                self.events.append(Ev("log", e.a, (), e))

    def tags(self, *only):
        return [e.tag for e in self.events if not only or e.tag in only]

    def find(self, tag):
        return [e for e in self.events if e.tag == tag]

    def known(self, atom):
        for a, v in self.conds:
            if a is atom:
                return v
        return None

    def loc(self):
        return self.ob.loc()

    def tell(self):
        return "%s; %s%s" % (
            ("raises %s" % self.raised) if self.raised else "no end" if self.ret is None else "returns %s" % show(self.ret),
            ", ".join(repr(e) for e in self.events if e.tag != "step")[:700],
            ("; failed tasks: %s" % ", ".join(f[1] for f in self.fails)) if self.fails else "",
        )


class Ev(object):
    def __init__(self, tag, args, kw, e):
        self.tag, self.args, self.kw, self.e = tag, args, kw, e
        self.loc = e.loc

    def __repr__(self):
        return "%s(%s)" % (self.tag, ", ".join(show(a) for a in self.args))


HOOK = sym("hook")


def world(R):
    if R.world_ is None:
        R.world_ = Loader(R.A.root, sched=True)
    return R.world_


def client(R, name, code, params="", types=None, logs=(), prelude=PRELUDE, opts=None):
    """Analyse a test program; [Run], or None if undecided."""
    W = world(R)
    del W.vague[:]
    names = ", ".join(p.strip() for p in params.split(",") if p.strip())
    src = (prelude % (names, names)) + code
    env = {"hook": HOOK, "any_bits": ext("checker.any_bits"), "bits": ext("checker.bits")}
    for n, d in (
        ("execute_all_coros", "toffee.asynchronous.execute_all_coros"),
        ("main_coro", "toffee.asynchronous.main_coro"),
    ):
        try:
            env[n] = W.name(d)
        except Broken:
            R.undecided(name, "%s is gone" % d)
            return None
    env.update(getattr(R, "env", {}))
    o = dict(closed=True, idle="idle", track_logs=logs)
    o.update(opts or {})
    try:
        outs = W.run(src, types, fresh=True, env=env, opts=Options(**o))
    except (Unsupported, TooComplex) as e:
        R.undecided(name, "%s: %s" % (type(e).__name__, e))
        return None
    except Broken as e:
        if getattr(e, "outs", None) is None:
            raise
        # a definition of the program
        ends = [c for _, c in e.outs]
        if len(ends) == 1 and ends[0] is not None and ends[0][0] == "raise":
            R.bad(name, "the definitions of the program fail: %s" % exc_name(e.outs[0][0], ends[0][1]))
        else:
            R.undecided(name, str(e))
        return None
    if R.share is None or R.share.wanted():
        R.paths += len(outs)
        R.entry_points.append("client program: " + name)
    R.worlds.append(W)
    runs = []
    for x in outs:
        v = x.st.cnt.get("#vague", 0)
        if v:
            # what follows such a call is not known well enough to tell anything
            R.undecided(name, "calls %s" % W.vague[v - 1])
        else:
            runs.append(Run(x))
    return runs if runs or not outs else None


def args(e):
    return [show(a) for a in e.args]


def call_of(e):
    return "%s(%s)" % (e.tag, ", ".join(args(e)))


def events(r, *starts):
    return [call_of(e) for e in r.events if e.tag.startswith(starts or ("dut", "model"))]


def fine(R, what, r, fails=0):
    """The program ends and no task fails."""
    if r.div and not r.raised and not r.stuck and len(r.fails) == fails:
        R.undecided(what, "no end was found: %s" % r.tell(), r.loc())
        return False
    if r.raised or r.stuck or len(r.fails) != fails:
        R.bad(what, "%s%s" % (r.tell(), "; waits for ever: %s" % r.stuck[0] if r.stuck else ""), r.loc())
        return False
    return True


class Und(str):
    """The analysis cannot tell."""


def scenario(R, what, code, params, judge, logs=(), fails=0, may_fail=False, prelude=PRELUDE, opts=None):
    """judge(r) -> None or what is wrong, on every path."""
    if R.share is None:
        return scenario_(R, what, code, params, judge, logs, fails, may_fail, prelude, opts)
    if R.share.claim():
        try:
            scenario_(R, what, code, params, judge, logs, fails, may_fail, prelude, opts)
        except Broken:
            raise
        except Exception as e:
            # the code has a shape the analysis cannot deal with
            R.undecided(what, "the analysis fails: %s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            R.share.done()


def scenario_(R, what, code, params, judge, logs, fails, may_fail, prelude, opts):
    rs = client(R, what, code, params, logs=logs, prelude=prelude, opts=opts)
    n = 0
    for r in rs or ():
        if not may_fail and not fine(R, what, r, fails):
            continue
        n += 1
        try:
            bad = judge(r)
        except (AttributeError, IndexError, KeyError, TypeError, ValueError) as x:
            bad = Und("the run has an unexpected shape (%s: %s)" % (type(x).__name__, x))
        if isinstance(bad, Und):
            R.undecided(what, "%s: %s" % (bad, r.tell()), r.loc())
            continue
        R.check(what, bad is None, "%s: %s" % (bad, r.tell()), r.loc())
    if rs is not None and not rs:
        R.undecided(what, "no execution")
