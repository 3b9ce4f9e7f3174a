"""The clock loop, starting and ending a test, gather."""

import itertools

from .world import *


def task_mark(A, R):
    """Name of the event-loop attribute that tells that a task has just run, with its value.

    It is what a finished Event.wait() leaves on the event loop.
    """
    outs = A.run("async def main():\n    e = Event()\n    await e.wait()\n")
    for o in outs:
        last = -1
        effs = o.effects
        for i, e in enumerate(effs):
            if e.kind == "await":
                last = i
        for e in effs[last + 1 :]:
            if e.kind == "set" and is_loop(e.a[0]) and e.a[1].op == "const" and e.a[2].op == "const":
                return cval(e.a[1]), e.a[2]
    return None, None


def is_loop(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in (
        "asyncio.get_event_loop",
        "asyncio.get_running_loop",
        "asyncio.events.get_event_loop",
    )


def loop_attr(t):
    """Attribute of the event loop read by the term, or None."""
    if t.op == "attr" and is_loop(t.a[0]):
        return t.a[1]
    if t.op == "dattr" and is_loop(t.a[0]) and t.a[1].op == "const":
        return cval(t.a[1])
    return None


CLOCK = "async def main(dut):\n    start_clock(dut)\n"


def clock_coro(A, R):
    """(state, coroutine) of the task start_clock creates."""
    outs = R.run("start_clock", CLOCK, opts=Options(spawn_bodies=False))
    if outs is None:
        return None
    for o in outs:
        sp = [e for e in o.effects if e.kind == "spawn"]
        if o.exc is None and sp:
            return o.st, sp[-1].a[1], o
    return None


def runnable_bf(A, name):
    """What it means that a task other than the clock's can run now."""
    name = cval(name) if name is not None and name.op == "const" else "__clock_loop"
    ref = A.run(
        """
import asyncio
def main():
    for t in asyncio.all_tasks():
        if t.get_name() != %r and (t._fut_waiter is None or t._fut_waiter._state == "FINISHED"):
            return True
    return False
"""
        % name
    )
    for o in ref:
        for a, v in o.conds:
            if a.op == "exists":
                return norm(a)
    raise Broken("reference of a runnable task")


def clock_name(outcome):
    """Name given to the clock task, or None."""
    for e in outcome.effects:
        if e.kind == "call" and e.a[0].op == "attr" and e.a[0].a[1] == "set_name" and e.a[1]:
            return e.a[1][0]
        if e.kind == "set" and e.a[1].op == "const" and cval(e.a[1]) == "name":
            return e.a[2]
        if e.kind == "spawn":
            for k, v in getattr(e, "kw", ()):
                if k == "name":
                    return v
    return None


class Clock(Monitor):
    """Dirty -> Waiting (nothing can run) -> Settled (callbacks had nothing to do) -> Step, set, clear."""

    start = ("gate", "D", False, False, "idle")

    def __init__(self, A, dut, mark, runnable, name):
        Monitor.__init__(self)
        self.A, self.dut, self.mark, self.name = A, dut, mark, name
        self.runnable = runnable
        self.steps = 0
        self.settled_runs = 0
        self.quiet_checks = set()
        self.gate_seen = False
        self.reruns = 0
        self.loc = None

    # m = (gate, phase, tasks waiting, mark clear, tick)

    def callbacks(self, t):
        """Which registered callback list the callee comes from."""
        for s in walk(t):
            if s.op in ("elem",) and s.a[0].op == "var" and s.a[0].a[0].startswith("global:"):
                return s.a[0]
        return None

    def eff(self, m, kind, a, loc, st):
        gate, ph, q, f, tick = m
        self.loc = loc
        if kind == "await":
            src = self.callbacks(a[0])
            if tick in ("stepped", "set"):
                self.error("the clock loop is suspended between the step of the DUT and the end of the clock event", loc)
            if src is None:
                return (gate, "E" if ph == "E" else "D", False, False, "idle")
            if ph == "D":
                self.error("callbacks of a cycle run while a task can still run", loc)
            self.cb_run(src)
            return (gate, ph, q, f, "idle")
        if kind == "set" and is_loop(norm(a[0])) and a[1].op == "const" and cval(a[1]) == self.mark[0]:
            if a[2] is not self.mark[1] and ph == "D":
                # forgetting the mark: only what is seen after the next suspension counts
                return (gate, ph, q, False, tick)
            return m
        if kind == "call":
            c = a[0]
            if c.op == "attr" and c.a[0] is self.dut and c.a[1] == "Step":
                self.steps += 1
                if gate == "gate":
                    self.error("the DUT is stepped before the test has started", loc)
                if ph not in ("S", "E"):
                    self.error(
                        "the DUT is stepped while a task can still run or a callback still has work (%s)"
                        % {"D": "not waited for", "Q": "callbacks not asked"}.get(ph, ph),
                        loc,
                    )
                if tick in ("stepped", "set"):
                    self.error("the DUT is stepped twice in one cycle", loc)
                if not (len(a[1]) == 1 and a[1][0] is const(1)):
                    self.error("the DUT is stepped by %s instead of 1" % show(a[1]), loc)
                return (gate, "D", False, False, "stepped")
            if c.op == "attr" and norm(c.a[0]) is mk("attr", self.dut, "event"):
                if c.a[1] == "set":
                    if tick == "idle":
                        self.error("the clock event is set without a step of the DUT", loc)
                    if tick == "stepped":
                        return (gate, ph, q, f, "set")
                if c.a[1] == "clear":
                    if tick == "stepped":
                        self.error("the clock event is cleared before it is set", loc)
                    if tick == "set":
                        return (gate, ph, q, f, "cleared")
        return m

    def cb_run(self, src):
        self.cbs = getattr(self, "cbs", [])
        if src not in self.cbs:
            self.cbs.append(src)

    def dec(self, m, c, val, st):
        gate, ph, q, f, tick = m
        a, pos = c
        v = val if pos else not val
        a = norm(a)
        if a.op == "has" and is_loop(a.a[0]) and cstr(a.a[1]) == "test_done":
            if v:
                self.gate_seen = True
                return ("open", ph, q, f, tick)
            return m
        if a.op == "exists" and not v and is_all_tasks(a.a[0]):
            self.quiet_checks.add(a)
            q = True
        elif a.op == "truth" and loop_attr(a.a[0]) == self.mark[0] and v != bool(cval(self.mark[1])):
            f = True
        elif a.op == "truth" and loop_attr(a.a[0]) == "test_done" and v and ph == "S":
            return (gate, "E", q, f, tick)
        elif ph == "Q":
            src = self.rerun(a)
            if src is not None:
                if v:
                    self.reruns += 1
                    return (gate, "D", False, False, tick)
                return (gate, "S", q, f, tick)
        if q and f and ph == "D":
            ph = "Q"
        return (gate, ph, q, f, tick)

    def rerun(self, a):
        """The decision is about the results of the callbacks."""
        for s in walk(a):
            if s.op == "awaited":
                for g in walk(a):
                    if g.op == "var" and g.a[0].startswith("global:"):
                        return g
        return None


def cstr(x):
    return x if isinstance(x, str) else cval(x) if isinstance(x, T) and x.op == "const" else None


def is_all_tasks(t):
    t = norm(t)
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "asyncio.all_tasks"


def clock_monitor(A, R):
    cc = clock_coro(A, R)
    if cc is None:
        R.bad("start_clock creates the clock task", "start_clock() does not create a task that runs the clock", None)
        return None
    st, co, o = cc
    mark = task_mark(A, R)
    mon = Clock(A, sym("dut"), mark if mark[0] else ("new_task_run", TRUE), runnable_bf(A, clock_name(o)), clock_name(o))
    A.opts = Options(spawn_bodies=False)
    A.div = []
    A.base.monitor = mon
    st.mon = mon.start
    try:
        mon.ends = A.await_(st, co)
        mon.divs = list(A.div)
    except (Unsupported, TooComplex) as e:
        R.undecided("clock loop", "%s: %s" % (type(e).__name__, e))
        return None
    finally:
        A.base.monitor = None
    R.paths += len(mon.ends) + len(mon.divs)
    R.entry_points.append("task of start_clock")
    return mon


def err(R, mon, name, *words):
    e = [(m, l) for m, l in mon.errors if any(w in m for w in words)]
    if e:
        R.bad(name, e[0][0], e[0][1])
    else:
        R.ok(name)


@rule("C01")
def quiescence(A, R):
    mark = task_mark(A, R)
    R.check(
        "a finished wait marks the event loop",
        mark[0] is not None,
        "a task that leaves Event.wait() does not tell the clock that it has run",
        ("toffee/asynchronous.py", 0),
    )
    mon = clock_monitor(A, R)
    if mon is None:
        return
    err(R, mon, "no step while a task can run", "still run")
    R.check("the clock steps", mon.steps > 0, "the clock loop never steps the DUT", mon.loc)
    # the check itself
    exp = mon.runnable
    for a in mon.quiet_checks:
        want = exp
        R.check(
            "a task counts as waiting only if it cannot run",
            bf_implies(want.a[1], a.a[1]),
            "the clock loop takes a task for waiting that can run: it tests %s, a task can run if %s"
            % (show(a.a[1]), show(want.a[1])),
            mon.loc,
        )
        R.check(
            "a task that only waits does not hold the clock",
            bf_implies(a.a[1], want.a[1]),
            "the clock loop waits for a task that cannot run: it tests %s, a task can run if %s"
            % (show(a.a[1]), show(want.a[1])),
            mon.loc,
        )
    R.check("callbacks that did something are asked again", mon.reruns > 0 or not getattr(mon, "cbs", None), "the result of the callbacks is not looked at", mon.loc)
    err(R, mon, "one step, then one clock event, without a suspension", "suspended", "twice", "instead of 1", "clock event")
    R.check("the clock runs for ever", bool(mon.divs) and not any(s.exc is None for s, v in mon.ends), "the clock loop can end", mon.loc)
    err(R, mon, "no step before the test has started", "before the test has started")
    R.check("the clock waits for the test to start", mon.gate_seen, "the clock loop does not wait for the test to start", mon.loc)


@rule("C02")
def primitives(A, R):
    name, val = task_mark(A, R)
    R.check(
        "Event.wait tells the clock that a task has run",
        name is not None,
        "a task that leaves Event.wait() does not tell the clock that it has run",
        ("toffee/asynchronous.py", 0),
    )
    for what, code in (
        ("Event.wait", "async def main():\n    e = Event()\n    return await e.wait()\n"),
        ("Event.wait of an event that is set", "async def main():\n    e = Event()\n    e.set()\n    return await e.wait()\n"),
        ("Queue.get", "async def main():\n    q = Queue()\n    return await q.get()\n"),
        ("Queue.put", "async def main(x):\n    q = Queue()\n    await q.put(x)\n"),
        ("sleep", "async def main(d):\n    await sleep(d)\n"),
    ):
        outs = R.run(what, code)
        for o in outs or ():
            if o.exc is not None or o.div:
                continue
            effs = o.effects
            aw = [i for i, e in enumerate(effs) if e.kind == "await"]
            good = bool(aw) and any(
                e.kind == "set" and is_loop(e.a[0]) and cstr(e.a[1]) == name and e.a[2] is val
                for e in effs[aw[-1] + 1 :]
            )
            R.check(
                "%s tells the clock that a task has run" % what,
                good,
                "after the wait of %s the clock is not told that a task has run" % what,
                effs[-1].loc if effs else None,
            )
            if what == "sleep":
                w = [e for e in effs if e.kind == "await"]
                good = len(w) == 1 and w[0].a[0].op == "call" and w[0].a[0].a[0] is ext("asyncio.sleep") and w[0].a[0].a[1][:1] == (sym("d"),)
                R.check("sleep waits for the given time", good, "sleep(d) waits for %s" % ", ".join(show(e.a[0]) for e in w), effs[-1].loc)
    # as the primitives of asyncio
    code = """
async def waiter(e, n):
    await e.wait()
    hook('back', n)
async def test():
    e = Event()
    hook('is', e.is_set())
    create_task(waiter(e, 1))
    create_task(waiter(e, 2))
    create_task(setter(e))
    await e.wait()
    hook('is', e.is_set())
    await e.wait()
    e.clear()
    hook('is', e.is_set())
async def setter(e):
    hook('set')
    e.set()
"""

    def judge(r):
        ev = [call_of(e) for e in r.events if e.tag != "step"]
        if [x for x in ev if x.startswith("is")] != ["is(False)", "is(True)", "is(False)"]:
            return "the event is not set or cleared as asked"
        if sorted(ev[2:4] + ev[1:2]) != ["back(1)", "back(2)", "set()"] or ev[1] != "set()":
            return "the waits return in the wrong order"

    scenario(R, "an event wakes those who wait for it, once it is set", code, "", judge)
    code = """
async def producer(q, x, y, z):
    for v in (x, y, z):
        hook('put', v)
        await q.put(v)
async def test(x, y, z, w):
    q = Queue()
    await q.put(w)
    hook('size', q.qsize(), q.empty())
    create_task(producer(q, x, y, z))
    hook('got', await q.get())
    hook('size', q.qsize(), q.empty())
    for _ in range(3):
        hook('got', await q.get())
    hook('size', q.qsize(), q.empty())
"""

    def judge(r):
        got = [args(e)[0] for e in r.find("got")]
        if got != ["w", "x", "y", "z"]:
            return "w, x, y, z were put into a queue, it hands out %s" % ", ".join(got)
        if [args(e) for e in r.find("size")] != [["1", "False"], ["0", "True"], ["0", "True"]]:
            return "the queue does not know how much is in it"

    scenario(R, "a queue hands out what was put into it, in that order", code, "x, y, z, w", judge)


def body_of(t):
    """The coroutine a task or an await stands for."""
    while t.op in ("awaited", "task") or (t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].endswith("create_task")):
        t = t.a[1][0] if t.op == "call" else t.a[0]
    return t


LEFT = '''
class Pending:
    _state = "PENDING"

class Left:
    def __init__(self, name, waiting=True, fails=False):
        self.name = name
        self.fails = fails
        self._fut_waiter = Pending() if waiting else None
        self.cancelled_ = 0
    def get_name(self):
        return self.name
    def cancel(self, msg=None):
        self.cancelled_ += 1
        hook("cancel", self.name)
        return True
    def cancelling(self):
        return self.cancelled_
    def cancelled(self):
        return self.cancelled_ > 0
    def done(self):
        return self.cancelled_ > 0
    def __await__(self):
        if False:
            yield
        if not self.cancelled_:
            hook("waits", self.name)
        if self.fails:
            raise RuntimeError("it fails while it is cancelled")
        raise asyncio.CancelledError()

'''


@rule("C03")
def test_end(A, R):
    outs = R.run("main_coro", "async def main(test, env_handle):\n    return await main_coro(test, env_handle)\n")
    test, handle = sym("test"), sym("env_handle")
    shapes = set()
    for o in outs or ():
        if o.div or o.exc is not None:
            continue
        ob = Obs(o)
        loc = ob.loc()
        calls = [e for e in ob.effects if e.kind == "call" and e.a[0] is test]
        envs = [e for e in ob.effects if e.kind == "call" and e.a[0] is handle]
        known = dict((a, v) for a, v in ob.conds)
        with_env = known.get(mk("truth", handle))
        if with_env is None:
            isn = known.get(mk("is", handle, NONE))
            with_env = None if isn is None else not isn
        if not R.check("the test is started once", len(calls) <= 1, "the test is started %d times" % len(calls), loc):
            continue
        what = body_of(ob.ret)
        if not calls:
            R.check(
                "the result of the test is returned",
                ob.ret.op == "awaited" and what is test,
                "main_coro returns %s, not the result of the test" % show(ob.ret),
                loc,
            )
            shapes.add("coroutine")
        else:
            R.check(
                "the result of the test is returned",
                ob.ret.op == "awaited" and what is calls[0].a[3],
                "main_coro returns %s, not the result of the test" % show(ob.ret),
                loc,
            )
            shapes.add("function")
        if envs:
            shapes.add("env")
            r = envs[0].a[3]
            tup = next((v for a, v in ob.conds if a.op == "isinst" and a.a[0] is r and show(a.a[1]) in ("tuple", "(tuple)")), None)
            args = calls[0].a[1] if calls else ()
            good = bool(calls) and len(envs) == 1 and len(args) == 1 and (
                (args[0] is r and tup is False) or (args[0] is not r and r in set(walk(args[0])) and tup is True)
            )
            R.check(
                "the test gets what env_handle returns",
                good,
                "the test is called with %s, env_handle() returned %s" % (show(args), show(r)),
                loc,
            )
        else:
            R.check("env_handle is used", with_env is not True or not calls and False, "env_handle is not called", loc) if with_env else None
            if calls:
                R.check("the test gets no argument", not calls[0].a[1], "the test is called with %s" % show(calls[0].a[1]), loc)
        # order
        phase = 0
        clock = next((v for a, v in ob.conds if a.op == "has" and is_loop(a.a[0]) and "clock" in (cstr(a.a[1]) or "")), None)
        if clock and any(
            v == (a.op == "is") and a.op in ("is", "truth") and "clock" in (loop_attr(a.a[0]) or "") and (a.op == "truth" or a.a[1] is NONE)
            for a, v in ob.conds
        ):
            clock = False  # there is an entry for a clock, and it is empty
        bad = None
        waits = 0
        for e in ob.effects:
            if e.kind == "set" and is_loop(e.a[0]) and cstr(e.a[1]) == "test_done":
                if e.a[2] is FALSE:
                    if phase != 0:
                        bad = "the test is marked as running again after it was started"
                elif e.a[2] is TRUE:
                    if phase < 2:
                        bad = "the test is marked as done before it has ended"
                    phase = 3
            elif e.kind == "await":
                w = body_of(e.a[0])
                if w is test or (calls and w is calls[0].a[3]):
                    phase = 2
                elif phase >= 3:
                    waits += 1
                    phase = 4
                elif phase == 2:
                    bad = "waits after the end of the test before it is marked as done"
            elif e.kind == "call" and e.a[0] is test and phase == 0:
                if not any(
                    x.kind == "set" and is_loop(x.a[0]) and cstr(x.a[1]) == "test_done" and x.a[2] is FALSE
                    for x in ob.effects[: ob.effects.index(e)]
                ):
                    bad = "the test is started before the loop knows about it"
                phase = 1
        R.check("order of start, end and done mark", bad is None, bad or "", loc)
        R.check("the end of the test is announced", phase >= 3, "the end of the test is not announced to the clock", loc)
        if clock is not None:
            R.check(
                "after the test the clock finishes the cycle",
                (waits == 1) == clock,
                "after the end of the test main_coro waits %d times for the clock event (clock started: %s)" % (waits, clock),
                loc,
            )
        else:
            R.bad("after the test the clock finishes the cycle", "main_coro does not depend on whether a clock runs", loc)
        if waits == 1:
            w = [e for e in ob.effects if e.kind == "await"][-1]
            R.check(
                "what the test waits for at its end is the clock",
                any(loop_attr(x) is not None and "clock" in loop_attr(x) for x in walk(norm(w.a[0]))),
                "after the end of the test main_coro waits for %s" % show(w.a[0]),
                w.loc,
            )
        # a task that fails
        h = [e for e in ob.effects if e.kind == "call" and e.a[0].op == "attr" and e.a[0].a[1] == "set_exception_handler" and is_loop(norm(e.a[0].a[0]))]
        first = min([ob.effects.index(e) for e in ob.effects if e.kind == "await"], default=len(ob.effects))
        R.check(
            "failing tasks are reported to the package's handler",
            len(h) == 1 and len(h[0].a[1]) == 1 and h[0].a[1][0] is not NONE and ob.effects.index(h[0]) < first,
            "main_coro installs no exception handler before it starts the test" if not h else "main_coro installs %s" % show(h[-1].a[1]),
            h[-1].loc if h else loc,
        )
    if outs is not None:
        R.check("a test can be a function or a coroutine", {"coroutine", "function", "env"} <= shapes, "handled: %s" % sorted(shapes), outs[0].effects[-1].loc if outs[0].effects else None)
    code = "async def test(loop, context):\n    hook('handler')\n    asyncio.get_event_loop()._handler(loop, context)\n"

    def judge(r):
        calls = [(e.a[0].a[1], e.a[1]) for e in r.ob.effects if e.kind == "call" and e.a[0].op == "attr" and e.a[0].a[0] is sym("loop")]
        if ("stop", ()) not in calls:
            return "the exception handler of the tests does not stop the event loop"
        if not any(n == "default_exception_handler" and x == (sym("context"),) for n, x in calls):
            return "the exception handler of the tests does not report the failure"

    scenario(R, "a failing task is reported and stops the event loop", code, "loop, context", judge)
    # cancellation of what is left
    if "execute_all_coros" in A.base[A.module("toffee.asynchronous").a[0]].attrs:
        def cancels(e):
            return e.kind == "call" and e.a[0].op == "attr" and e.a[0].a[1] == "cancel"

        what = "outstanding tasks are cancelled when the test is done"
        outs = R.compare(
            what,
            "async def main():\n    await execute_all_coros()\n",
            """
import asyncio
async def main():
    if asyncio.get_event_loop().test_done:
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task() and t.get_name() != "main_coro":
                t.cancel()
""",
            env={"execute_all_coros": "toffee.asynchronous.execute_all_coros"},
            keep=cancels,
            ret=False,
            soft=True,  # another way of selecting the tasks is judged by the test programs below
        )
        for o in outs or ():
            if o.div or o.exc is not None:
                continue
            ob = Obs(o)
            done = [v for a, v in ob.conds if a.op == "truth" and loop_attr(a.a[0]) == "test_done"]
            did = any(cancels(e) for e in ob.effects)
            if not done:
                R.undecided("whether the test is done is asked in every cycle", "not decided on a path", ob.loc())
                continue
            if did == done[-1]:
                R.ok("when the test is done the tasks are cancelled, and not before")
            else:
                R.undecided(
                    "when the test is done the tasks are cancelled, and not before",
                    "the test is %sdone and the tasks are %scancelled" % ("" if done[-1] else "not ", "" if did else "not "),
                    ob.loc(),
                )
    else:
        R.undecided("outstanding tasks are cancelled when the test is done", "execute_all_coros is gone")
    prelude = PRELUDE.replace("class ClockedBundle", LEFT + "class ClockedBundle", 1)
    for cycles, fails in ((0, False), (1, False), (2, False), (1, True)):
        for names in (
            ("Task-1",),
            ("main_coro", "Task-1", "__clock_loop", "main", "my_main_coro"),
            ("main_coro2", "Main_coro", "coro", "__clock_loop", "__clock_loop_2", "main_coro", ""),
            (),
        ):
            code = """
async def test():
    clock = Left("__clock_loop", False)
    asyncio._TASKS += [%s]
    asyncio._TASKS.insert(%d, clock)
    asyncio._TASK = clock
    for _ in range(%d):
        await cycle()
    hook("end")
""" % (", ".join("Left(%r, fails=%s)" % (n, fails) for n in names), len(names) // 2, cycles)
            want = sorted(n for n in names if n != "main_coro")

            def judge(r):
                tags = [e.tag for e in r.events]
                at = tags.index("end")
                if "cancel" in tags[:at]:
                    return "a task is cancelled although the test goes on"
                got = sorted(cval(e.args[0]) for e in r.events if e.tag == "cancel")
                if got != want:
                    return "with the tasks %s left, %s are cancelled" % (", ".join(map(repr, names)) or "(none)", ", ".join(map(repr, got)) or "none")
                if "waits" in tags:
                    return "a task that was not cancelled is waited for"
                if tags[at:].count("step") < 1:
                    return "the clock does not go on after the tasks have been cancelled, the test would never end"

            scenario(R, "tasks %s at the end of a test of %d cycles%s" % (", ".join(map(repr, names)) or "none", cycles, ", which fail then" if fails else ""), code, "", judge, prelude=prelude)


@rule("C04")
def gathering(A, R):
    # in every order in which the coroutines can end
    for n in (0, 1, 2, 3, 4, 5) + ((6, 7) if R.deep else ()):
        names = ["v%d" % k for k in range(n)]
        for wait in itertools.product((False, True), repeat=max(n - 1, 0)):
            code = """
async def job(own, other, v):
    hook('start', v)
    if other is not None:
        await other.wait()
    hook('end', v)
    own.set()
    return v
async def test(%s):
    es = [Event() for _ in range(%d)]
    return await gather(%s)
""" % (
                ", ".join(names),
                n,
                ", ".join("job(es[%d], %s, v%d)" % (k, "es[%d]" % (k + 1) if k < n - 1 and wait[k] else "None", k) for k in range(n)),
            )

            def judge(r):
                if sorted(args(e)[0] for e in r.find("start")) != names or sorted(args(e)[0] for e in r.find("end")) != names:
                    return "not every coroutine runs once"
                got = results(r.ret)
                if got is None:
                    return Und("the result is not a list")
                if got != names:
                    return "the results are %s when the coroutines end in the order %s" % (
                        ", ".join(got),
                        ", ".join(args(e)[0] for e in r.find("end")),
                    )

            scenario(R, "gather of %d, the first %s" % (n, "".join("waits for the next, " if w else "ends, " for w in wait)), code, ", ".join(names), judge)


    # any number of them
    R.compare(
        "gather of any number",
        "async def main(coros):\n    return await gather(*coros)\n",
        "async def main(coros):\n    tasks = [create_task(c) for c in coros]\n    return [await t for t in tasks]\n",
        keep=lambda e: e.kind in ("spawn", "await"),
        ret=False,
    ) if native(A) else None


def native(A):
    """gather hands its coroutines themselves to create_task."""
    try:
        outs = A.run("async def main(a, b):\n    return await gather(a, b)\n")
    except (Unsupported, TooComplex):
        return False
    return all([e.a[0] for e in o.effects if e.kind == "spawn"] == [sym("a"), sym("b")] for o in outs)


def results(t):
    if t.op == "tuple":
        return [show(x) for x in t.a]
    if t.op == "seq" and all(s.op == "one" for s in t.a[0]):
        return [show(s.a[0]) for s in t.a[0]]
    return None


COMPONENT = """
from toffee.asynchronous import Component
import asyncio
class C(%(base)s):
    def __init__(self, n):
        super().__init__()
        self.n = n
    async def main(self):
        hook('main', self.n)
        %(body)s
async def idle(what):
    k = K[0]
    K[0] = k + 1
    if k == %(start)d:
        hook('start')
        asyncio.get_event_loop().global_clock_event = EV
    elif k > %(start)d:
        hook('step')
        EV.set()
        EV.clear()
async def test():
    %(make0)s
    for i in range(%(before)d):
        await asyncio.sleep(0)
    %(make)s
    for i in range(%(after)d):
        await asyncio.sleep(0)
"""


@rule("C05")
def components(A, R):
    prelude = """
class Box:
    pass
K = [0]
EV = None
async def main(%s):
    global EV
    EV = Event()
    await test(%s)
"""
    for base in ("Component", "Model"):
        for start in (0, 1, 3):
            for before in (0, 1, 2, 4, 6):
                for body in ("pass", "await EV.wait()"):
                    for many in (False, True):
                        if many and (body != "pass" or start == 3):
                            continue
                        d = dict(base=base, start=start, before=before, after=start + 6, body=body)
                        d["make0"] = "C(0)" if many else "pass"
                        d["make"] = "C(1)"
                        when = "before" if before <= start else "after"

                        def judge(r):
                            ev = [call_of(e) for e in r.events]
                            for k in (0, 1) if many else (1,):
                                n = ev.count("main(%d)" % k)
                                if n != 1:
                                    return "the main function of a component created %s the clock starts runs %d times" % (when, n)
                                if "step()" not in ev[: ev.index("main(%d)" % k)]:
                                    return "the main function of a component runs before the first clock cycle"
                                if not many and before <= start:
                                    i = ev.index("step()")
                                    if [e for e in ev[i + 1 : ev.index("main(%d)" % k)] if e == "step()"]:
                                        return "the main function of a component misses the first clock cycle"

                        scenario(
                            R,
                            "%s%s created %s the start of the clock" % ("two of " if many else "", base, when),
                            COMPONENT % d, "", judge, prelude=prelude,
                        )
