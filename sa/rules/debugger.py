"""The debugger's commands."""

from .coverage import data
from .world import *

PRE = """
class Sig:
    def __init__(self, n, v):
        self.n = n
        self.v = v
        self.filter = True
        self.mode = 'plain'
        self.forced = None
    def SetIgnoreSameDataWrite(self, on):
        self.filter = on
    def AsVPIWriteForce(self):
        self.mode = 'force'
    def AsVPIWriteRelease(self):
        self.mode = 'release'
    def AsVPIWriteNoDelay(self):
        self.mode = 'nodelay'
    def AsImmWrite(self):
        self.mode = 'imme'
    def AsRiseWrite(self):
        self.mode = 'rise'
    def AsFallWrite(self):
        self.mode = 'fall'
    def W(self):
        return 8
    @property
    def value(self):
        return self.v
    @value.setter
    def value(self, x):
        if self.filter and x == self.v:
            return
        hook('write', self.n, self.mode, x)
        if self.mode == 'force':
            self.forced = x
        elif self.mode == 'release':
            self.forced = None
        if self.forced is None or self.mode == 'force':
            self.v = x

class Dut:
    def __init__(self):
        self.sigs = {'top.a': Sig('top.a', 5), 'top.b': Sig('top.b', 0), 'a': Sig('a', 9)}
    def GetInternalSignal(self, name, *args, **kw):
        if name in self.sigs:
            return self.sigs[name]
        return None
    def RefreshComb(self):
        hook('comb')
    def Step(self, n=1):
        hook('stepped', n)
    def FlushWaveform(self):
        hook('flush')
    def VPIInternalSignalList(self, prefix='', deep=99):
        hook('list', prefix, deep)
        return ['sig.one', 'sig.two']

def state(tag):
    hook(tag, [(s.n, s.v, s.filter, s.forced) for s in d.sigs.values()])

async def test():
    global d
    d = Dut()
    db = D.get(d)
"""
START = [("top.a", 5, True, None), ("top.b", 0, True, None), ("a", 9, True, None)]


def act(cmds):
    code = PRE
    for i, (c, a) in enumerate(cmds):
        code += "    hook('c%d')\n    db.do_%s(%r)\n    state('s%d')\n" % (i, c, a, i)
    return code + "    hook('c%d')\n" % len(cmds)


def between(r, i):
    """Visible events of the i-th command."""
    l, on = [], False
    for e in r.events:
        if e.tag in ("c%d" % i, "s%d" % i):
            on = e.tag[0] == "c"
        elif on:
            l.append(e)
    return l


def state(r, i):
    return [tuple(x) for x in data(r.find("s%d" % i)[0].args[0])]


def known(x):
    return cval(x) if x.op == "const" else show(x)


def printed(r):
    """Arguments of print, all commands."""
    l = []
    for e in r.ob.effects:
        if e.kind == "call" and show(e.a[0]) == "print":
            l.append([known(x) for x in e.a[1]])
    return l


def nothing(r):
    """No print was seen: a violation unless the output may have gone another way."""
    other = [show(e.a[0]) for e in r.ob.effects if e.kind == "call" and show(e.a[0]) != "hook" and "pdb.Pdb" not in show(e.a[0])]
    return Und("no print is seen, but calls of %s" % other[:3]) if other else "it prints nothing"


SEQS = [
    [("tforce", "top.a 7")], [("tforce", "top.a 5")], [("tforce", "a 9")], [("tforce", "top.b 0"), ("tforce", "top.b 0")],
    [("tforce", "top.a -1"), ("trelease", "top.a")], [("tforce", "top.a 5"), ("trelease", "top.a"), ("tforce", "top.a 5")],
    [("tforce", "top.a 1"), ("tforce", "a 2"), ("trelease", "top.a")], [("trelease", "top.b")], [("trelease", "a"), ("trelease", "a")],
    [("tset", "top.a 3")], [("tset", "top.b 1"), ("tset", "top.a 1")], [("tforce", "top.a 255"), ("trelease", "top.a"), ("tset", "top.a 3")],
    [("tforce", "top.a 0"), ("trelease", "a"), ("trelease", "top.b"), ("trelease", "top.a")],
    [("tforce", "top.b 2"), ("trelease", "top.b"), ("tset", "top.b 7"), ("tset", "top.b 8")],
    [("tforce", "top.a 18446744073709551616"), ("tset", "top.b 4")],
]
BAD = [
    ("tforce", ""), ("tforce", "top.a"), ("tforce", "top.a x"), ("tforce", "top.c 5"), ("tforce", "5 top.a"), ("tforce", "top 5"),
    ("trelease", ""), ("trelease", "top.c"), ("tset", ""), ("tset", "top.a"), ("tset", "top.a y"), ("tset", "b 5"),
    ("tstep", "x"), ("tstep", "1.5"), ("tflush", "now"), ("tlist", "x"), ("tlist", "x top"), ("tprint", ""), ("tprint", "top.c"), ("tprint", "top.a oct"), ("tprint", "c hex"),
]


@rule("G01")
def commands(A, R):
    R.env = {"D": world(R).module("toffee.debug")}
    for seq in SEQS:
        def judge(r):
            want = [list(x) for x in START]
            for i, (c, a) in enumerate(seq):
                ev = [(e.tag,) + tuple(known(x) for x in e.args) for e in between(r, i)]
                name = a.split()[0]
                w = next(x for x in want if x[0] == name)
                what = "command '%s %s'" % (c, a)
                if not ev or ev[-1] != ("comb",):
                    return "%s: the combinational logic is not updated at the end: %s" % (what, ev)
                ws = [e for e in ev if e[0] == "write"]
                if any(e[1] != name for e in ws):
                    return "%s writes %s" % (what, ws)
                if c == "tforce":
                    w[1] = w[3] = int(a.split()[1])
                    if not any(e[2:] == ("force", w[1]) for e in ws):
                        return "%s does not force the value: %s" % (what, ws)
                elif c == "trelease":
                    w[3] = None
                    if not any(e[2] == "release" for e in ws):
                        return "%s does not release: %s" % (what, ws)
                else:
                    v = int(a.split()[1])
                    w[1] = v
                    if w[3] is None and any(e[2] in ("force", "release") for e in ws):
                        return "%s: a signal that is not forced is written by '%s'" % (what, ws[0][2])
                    if any(e[3] != v for e in ws):
                        return "%s writes %s" % (what, ws)
                got = state(r, i)
                if got != [tuple(x) for x in want]:
                    return "%s: signals (name, value, filtering, forced) are %s, expected %s" % (what, got, want)
            return None

        scenario(R, "commands %s" % "; ".join("%s %s" % x for x in seq), act(seq), "", judge)
    for c, a in BAD:
        for before in ([], [("tforce", "top.a 6")]):
            cmds = before + [(c, a)]

            def judge(r):
                i = len(cmds) - 1
                ev = [call_of(e) for e in between(r, i)]
                if ev:
                    return "it has effects on the DUT: %s" % ev
                want = START if not before else [("top.a", 6, True, 6)] + START[1:]
                if a and not printed(r):
                    return nothing(r)
                return None if state(r, i) == want else "the signals (name, value, filtering, forced) are %s, expected %s" % (state(r, i), want)

            scenario(R, "command '%s %s' %s" % (c, a, "after a force" if before else "at first"), act(cmds), "", judge)
    # steps, listing, printing
    for a, n in (("", 1), ("1", 1), ("7", 7), ("100", 100)):
        def judge(r):
            ev = [(e.tag,) + tuple(known(x) for x in e.args) for e in between(r, 0)]
            return None if ev == [("stepped", n), ("flush",)] and state(r, 0) == START else "it does %s" % ev

        scenario(R, "command 'tstep %s'" % a, act([("tstep", a)]), "", judge)
    scenario(R, "command 'tflush'", act([("tflush", "")]), "", lambda r: None if [e.tag for e in between(r, 0)] == ["flush"] else "it does %s" % between(r, 0))
    for a, w in (("", ("", 99)), ("3", ("", 3)), ("2 top.x", ("top.x", 2))):
        def judge(r):
            ev = [(e.tag,) + tuple(known(x) for x in e.args) for e in between(r, 0)]
            if ev != [("list",) + w]:
                return "it does %s" % ev
            out = printed(r)
            if not out:
                return nothing(r)
            names = [x for l in out for x in l if x in ("sig.one", "sig.two")]
            return None if names == ["sig.one", "sig.two"] else "it prints %s" % out

        scenario(R, "command 'tlist %s'" % a, act([("tlist", a)]), "", judge)
    for a, w in (("top.a", 5), ("top.a dec", 5), ("a hex", "0x9"), ("a HEX", "0x9"), ("top.a bin", "0b101"), ("top.b BIN", "0b0")):
        def judge(r):
            if between(r, 0) or state(r, 0) != START:
                return "it changes the DUT: %s" % between(r, 0)
            out = printed(r)
            if not out:
                return nothing(r)
            return None if any(w == x or isinstance(x, str) and x.split()[-1:] == [str(w)] for l in out for x in l) else "it prints %s instead of %s" % (out, w)

        scenario(R, "command 'tprint %s'" % a, act([("tprint", a)]), "", judge)
