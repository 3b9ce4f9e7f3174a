"""Delayers."""

import itertools

from .world import *
from .executor import interval

SRC = """
class S:
    pass
class A(Agent):
    @driver_method()
    async def put(self, x):
        pass
class E(Env):
    def __init__(self):
        super().__init__()
        self.a = A(ClockedBundle())
class M(Model):
    @driver_hook('a.put')
    def f(self, x): pass
    @agent_hook('a')
    def g(self, n, x): pass
async def other():
    await cycle()
"""


@rule("D01")
def delayer(A, R):
    K = 10 if R.deep else 6
    vs = ["v%d" % i for i in range(K)]
    params = ", ".join(vs) + ", w0, w1"
    busy = {
        "nothing else": ("", ""),
        "a model with hooks": ("    e = E()\n    e.attach(M())\n", "    create_task(e.a.put(1))\n"),
        "two models": ("    e = E()\n    e.attach(M())\n    e.attach(M())\n", "    create_task(e.a.put(1))\n    create_task(e.a.put(2))\n"),
        "other tasks": ("", "    create_task(other())\n    create_task(other())\n"),
    }
    for what, (setup, each) in busy.items():
        for n in range(0, 9 if R.deep else 5):
            code = SRC + "async def test(%s):\n    s = S()\n    s.value = w0\n%s    d = Delayer(s, %d)\n    hook('val', d.value)\n" % (params, setup, n)
            for v in vs:
                code += "    s.value = %s\n%s    await cycle()\n    hook('val', d.value)\n    hook('val', d.value)\n" % (v, each)

            def judge(r):
                got = [show(e.args[0]) for e in r.find("val")]
                want = ["None"]
                for k in range(K):
                    want += [vs[k - n] if k >= n else "None"] * 2
                if got != want:
                    return "in successive cycles it shows %s; expected %s" % (got, want)

            scenario(R, "delay %d beside %s" % (n, what), code, params, judge)
    # several delayers, of one source and of two, made at different times
    code = SRC + """
async def test(%s):
    s = S()
    z = S()
    s.value = v0
    z.value = w0
    a = Delayer(s, 0)
    b = Delayer(s, 2)
    c = Delayer(z, 1)
    await cycle()
    s.value = v1
    z.value = w1
    d = Delayer(s, 1)
    hook('val', a.value, b.value, c.value, d.value)
    await cycle()
    s.value = v2
    hook('val', a.value, b.value, c.value, d.value)
    await cycle()
    s.value = v3
    hook('val', a.value, b.value, c.value, d.value)
    await cycle()
    hook('val', a.value, b.value, c.value, d.value)
""" % params
    want = [["v0", "None", "None", "None"], ["v1", "None", "w0", "None"], ["v2", "v0", "w1", "v1"], ["v3", "v1", "w1", "v2"]]
    scenario(R, "several delayers", code, params, lambda r: None if [args(e) for e in r.find("val")] == want else "they show %s; expected %s" % ([args(e) for e in r.find("val")], want))
    # delayers of delayers
    for n, m, k in itertools.product(range(3), range(3), range(2)):
        code = SRC + "async def test(%s):\n    s = S()\n    s.value = w0\n    z = Delayer(s, 1)\n    a = Delayer(s, %d)\n    b = Delayer(a, %d)\n    c = Delayer(b, %d)\n" % (params, n, m, k)
        for v in vs:
            code += "    s.value = %s\n    await cycle()\n    hook('val', a.value, b.value, c.value)\n" % v

        def judge(r):
            got = [args(e) for e in r.find("val")]
            want = [[vs[i - d] if i >= d else "None" for d in (n, n + m, n + m + k)] for i in range(K)]
            return None if got == want else "they show %s; expected %s" % (got, want)

        scenario(R, "delay %d of delay %d of delay %d" % (k, m, n), code, params, judge)
    # any delay
    n = sym("n")
    for k in range(0, 8 if R.deep else 5):
        code = SRC + "async def test(n, %s):\n    s = S()\n    s.value = w0\n    d = Delayer(s, n)\n" % params
        for v in vs[:k]:
            code += "    s.value = %s\n    await cycle()\n" % v
        code += "    hook('val', d.value)\n"

        def judge(r):
            lo, hi = interval(r.o.st, n)
            if r.raised:
                return None if hi < 0 else "a delay in %s..%s raises %s" % (lo, hi, r.raised)
            if lo < 0:
                return "a delay in %s..%s is accepted" % (lo, hi)
            got = show(r.find("val")[0].args[0])
            if got == "None":
                # nothing N cycles old yet
                ne = r.o.st.iv.get(mk("lin", ((n, 1),)), (0, 0, frozenset()))[2]
                if any(lo <= d <= hi and d not in ne for d in range(0, k)):
                    return "nothing is shown after %d cycles for a delay in %s..%s" % (k, lo, hi)
                return None
            if got not in vs[:k] or not (lo == hi == k - 1 - vs.index(got)):
                return "%s is shown after %d cycles for a delay in %s..%s" % (got, k, lo, hi)

        scenario(R, "any delay, %d cycles" % k, code, "n, " + params, judge, may_fail=True)
