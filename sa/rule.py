"""Obligations of a property and what became of them."""

from .loader import *
from .query import *


class Report(object):
    def __init__(self, pid, A):
        self.pid, self.A = pid, A
        self.obligations = []  # (name, status, detail, loc)
        self.instances = {}
        self.pairs = 0
        self.world_ = None
        self.worlds = []
        self.paths = 0
        self.entry_points = []
        self.share = None  # the part of this process, if several share the work
        self.deep = False  # the thorough tier

    # status: "ok", "bad", "undecided"

    def add(self, name, status, detail="", loc=None):
        if self.share is not None:
            if not self.share.wanted():
                return
            self.share.log.append((self.share.at, len(self.share.log), name, status, detail, loc))
        for i, o in enumerate(self.obligations):
            if o[0] == name:
                self.instances[name] += 1
                rank = ("ok", "undecided", "bad")
                if rank.index(status) > rank.index(o[1]):
                    self.obligations[i] = (name, status, detail, loc)
                return
        self.instances[name] = 1
        self.obligations.append((name, status, detail, loc))

    def check(self, name, ok, detail="", loc=None):
        self.add(name, "ok" if ok else "bad", "" if ok else detail, loc)
        return ok

    def ok(self, name):
        self.add(name, "ok")

    def bad(self, name, detail, loc=None):
        self.add(name, "bad", detail, loc)

    def undecided(self, name, detail, loc=None):
        self.add(name, "undecided", detail, loc)

    def run(self, name, code, types=None, **kw):
        """Outcomes of an entry point; None if the analysis gives up (obligation undecided)."""
        try:
            outs = self.A.run(code, types, **kw)
        except (Unsupported, TooComplex) as e:
            self.undecided(name, "%s: %s" % (type(e).__name__, e))
            return None
        if self.share is None or self.share.wanted():
            self.paths += len(outs)
            self.entry_points.append(name)
        return outs

    def compare(self, name, code, spec, types=None, keep=None, order="set", ret=True, exc=True, spawn=True,
                excs=None, min_paths=1, show_all=False, soft=False, **kw):
        """The code's outcomes are those of the reference, on every path."""
        impl = self.run(name, code, types, **kw)
        if impl is None:
            return None
        funcs = None
        try:
            ref = self.A.run(spec, types, **kw)
        except OutOfTime as e:
            self.undecided(name, str(e))
            return None
        except (Unsupported, TooComplex) as e:
            raise Broken("reference of %s: %s" % (name, e))
        bad, n, pi, ps = compare(self.A, impl, ref, keep, order, ret, exc, spawn, excs)
        if self.share is None or self.share.wanted():
            self.pairs += n
        if n < min_paths:
            self.undecided(name, "only %d path pairs" % n)
            return impl
        if not bad:
            self.ok("%s: %d paths agree with the rule" % (name, len(pi)))
            return impl
        defin = [m for m in bad if not m.undecided]
        if defin and not soft:
            m = defin[0]
            self.bad(name, repr(m), m.loc)
        else:
            self.undecided(name, repr(bad[0]))
        return impl

    @property
    def violations(self):
        return [o for o in self.obligations if o[1] == "bad"]


class Monitor(object):
    """A typestate automaton run along every path."""

    start = ()

    def __init__(self):
        self.errors = []
        self.seen = set()

    def error(self, msg, loc):
        if (msg, loc) not in self.errors:
            self.errors.append((msg, loc))

    def eff(self, m, kind, a, loc, st):
        return m

    def dec(self, m, c, val, st):
        return m


RULES = {}


def rule(pid):
    def deco(f):
        RULES[pid] = f
        return f

    return deco
