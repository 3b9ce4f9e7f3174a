"""Generators of client programs: nothing of one runs before somebody asks for its values.

A generator is run by whoever consumes it: `sink` is what happens at every yield.  sink(st, value) -> outcomes
[(st, ctl, val)]; another ctl than None and 'cont' ends the generator (GeneratorExit is raised at the yield).
"""

from .state import *
from .terms import *

GEN_EXIT = mk("exc", ext("GeneratorExit"), ())


def is_lazy(st, v):
    return v.op == "ref" and st.obj(v).kind == "lazy"


def new(I, st, thunk):
    """thunk(st, sink) -> outcomes"""
    return I.new_ref(st, Obj("lazy", {}, (), thunk))


def consume(I, st, v, sink):
    """Run the body of the generator with the sink."""
    o = st.own(v)
    o.kind, thunk, o.data = "gen", o.extra, ()
    if o.attrs.get("__cut") is not None:
        I.too_complex("a generator that goes on after it was left")
    r = []
    for x in thunk(st, sink):
        if x[1] not in (None, "exc"):
            x[0].own(v).attrs["__cut"] = TRUE
        r.append(x)
    return r


def force(I, st, v):
    """[(st, v)]: all values at once; st.exc if the body raises."""
    if not is_lazy(st, v):
        return [(st, v)]

    def sink(s, x):
        o = s.own(v)
        o.data = o.data + (one(x),)
        return [(s, None, None)]

    return [(x[0], v) for x in consume(I, st, v, sink)]


def force_all(I, st, vs):
    """[st]"""
    cur = [st]
    for v in vs:
        cur = [z for x in cur for z in ([x] if x.exc is not None else [y for y, _ in force(I, x, v)])]
    return cur


def body(I, fi, fr):
    """The thunk of a generator function."""

    def thunk(st, sink):
        I.stack.append(fi)
        loc = I.loc
        old = I.sinks.get(fr)
        I.sinks[fr] = sink
        I.loc = (fi.path, I.loc[1])
        r = []
        try:
            for s, ctl, v in I.block(fi.body, st, fr):
                if ctl == "exc" and s.exc is GEN_EXIT and ("#stop", fr) in s.cnt:
                    ctl, val, exc = s.cnt.pop(("#stop", fr))
                    s.exc = exc
                    r.append((s, ctl, val))
                elif ctl == "exc":
                    if s.exc.a[0] is ext("StopIteration"):
                        s.exc = mk("exc", ext("RuntimeError"), ())
                    r.append((s, ctl, None))
                elif ctl == "ret":
                    r.append((s, None, v))
                else:
                    r.append((s, ctl, v))
        finally:
            I.stack.pop()
            I.loc = loc
            if old is None:
                I.sinks.pop(fr, None)
            else:
                I.sinks[fr] = old
        return r

    return thunk


def yielded(I, st, fr, outs):
    """Outcomes of the expression 'yield' from those of the sink."""
    r = []
    for s, ctl, val in outs:
        if ctl in (None, "cont"):
            r.append((s, NONE if val is None else val))
        elif ctl == "throw":
            r.append((s, None))
        else:
            s.cnt[("#stop", fr)] = (ctl, val, s.exc)
            s.exc = GEN_EXIT
            r.append((s, None))
    return r


def loop_gen(I, st, v, run):
    """A loop over an iterator: it takes one value after the other. None: not known well enough."""
    if not all(x.op == "one" for x in st.obj(v).data):
        return None
    out, states = [], [st]
    n = 0
    while states:
        nxt = []
        for s in states:
            d = s.obj(v).data
            if not d:
                out.append((s, None, None))
                continue
            s.own(v).data = d[1:]
            for o in run(s, d[0].a[0]):
                if o[1] in (None, "cont"):
                    nxt.append((o[0], None, None))
                else:
                    out.append(o)
        nxt = merge_outcomes(nxt)
        I.limit(nxt)
        states = [o[0] for o in nxt]
        n += 1
        if n > 2000:
            I.too_complex("an iterator that does not end")
    return merge_outcomes(out)


def quant(I, st, v, is_all):
    """any(v), all(v) of a generator."""

    def sink(s, x):
        r = []
        for s2, b in I.truth(s, x):
            if b is None or s2.exc is not None:
                r.append((s2, "exc", None))
            elif b == is_all:
                r.append((s2, None, None))
            else:
                r.append((s2, "brk", None))
        return r

    r = []
    for s, ctl, _ in consume(I, st, v, sink):
        if ctl == "brk":
            r.append((s, const(not is_all)))
        elif ctl is None:
            r.append((s, const(is_all)))
        else:
            r.append((s, None))
    return r


def first(I, st, v, default):
    """next(v, default)"""
    r = []
    for s, ctl, val in consume(I, st, v, lambda s, x: [(s, "brk", x)]):
        if ctl == "brk":
            r.append((s, val))
        elif ctl is None:
            if default is None:
                I.raise_ext(s, "StopIteration")
            r.append((s, default))
        else:
            r.append((s, None))
    return r


def within(I, st, g, run):
    """with f() as x: ... for a generator function f decorated with contextmanager."""

    def sink(s, v):
        outs = []
        for x, ctl, val in run(s, v):
            if ctl == "exc":
                outs.append((x, "throw", None))
            elif ctl in (None, "div"):
                outs.append((x, ctl, val))
            else:
                x.cnt[("#ctl", g)] = (ctl, val)
                outs.append((x, None, None))
        return outs

    r = []
    for s, ctl, val in consume(I, st, g, sink):
        if ctl is None and ("#ctl", g) in s.cnt:
            ctl, val = s.cnt.pop(("#ctl", g))
            r.append((s, ctl, val))
        else:
            r.append((s, ctl, None))
    return r
