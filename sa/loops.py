"""Loop summaries.

A loop over an unknown collection is analysed for one arbitrary element; what the
body changes is widened until it no longer depends on the iteration.
"""

import ast

from .state import *
from .terms import *
from .interp import TooComplex

BRK, CONT, EXC, RET, DIV = "brk", "cont", "exc", "ret", "div"


def loop_segs(I, st, segs, body, loc):
    """Run body(state, value) over the segments: [(st, ctl, val)], ctl None = ran to the end."""
    live = [st]
    out = []
    for sg in segs:
        nxt = []
        for s in live:
            for o in run_seg(I, s, sg, body, loc):
                if o[1] in (None, CONT):
                    nxt.append((o[0], None, None))
                else:
                    out.append(o)
        nxt = merge_outcomes(nxt)
        I.limit(nxt)
        live = [o[0] for o in nxt]
    return [(s, None, None) for s in live] + out


def concrete(segs):
    return all(x.op in ("one", "kv") for x in segs)


def live(I, st, it):
    """The object iterated over, if the loop sees its changes: a list, dictionary or set of known members."""
    if it.op in ("keys", "values", "items"):
        it = it.a[0]
    if it.op != "ref":
        return None
    ob = st.obj(it)
    if ob.kind in ("list", "dict", "set") and concrete(ob.data):
        return it
    return None


def loop_live(I, st, segs, ref, body, loc):
    """Like loop_segs, for members that the body may add or remove."""
    if st.obj(ref).kind == "list":
        out = []
        states = [st]
        i = 0
        known = None
        while states:
            nxt = []
            for s in states:
                d = st_data(s, ref)
                if d is not known and not concrete(d):
                    out.extend(loop_segs(I, s, list(d[i:]), body, loc))
                elif i >= len(d):
                    out.append((s, None, None))
                else:
                    known = d
                    for o in body(s, d[i].a[0]):
                        if o[1] in (None, CONT):
                            nxt.append((o[0], None, None))
                        else:
                            out.append(o)
            nxt = merge_outcomes(nxt)
            I.limit(nxt)
            states = [o[0] for o in nxt]
            i += 1
            if i > 2000:
                raise TooComplex("a list that grows in a loop over it")
        return merge_outcomes(out)
    n = len(st_data(st, ref))
    out, states = [], [st]
    for sg in segs:
        nxt = []
        for s in states:
            for o in run_seg(I, s, sg, body, loc):
                if o[1] not in (None, CONT):
                    out.append(o)
                elif len(st_data(o[0], ref)) != n and concrete(st_data(o[0], ref)):
                    o[0].exc = mk("exc", mk("ext", "RuntimeError"), ())
                    out.append((o[0], EXC, None))
                else:
                    nxt.append((o[0], None, None))
        nxt = merge_outcomes(nxt)
        I.limit(nxt)
        states = [o[0] for o in nxt]
    return [(s, None, None) for s in states] + out


def st_data(st, ref):
    return st.obj(ref).data


def run_seg(I, st, sg, body, loc):
    if sg.op == "one":
        return body(st, sg.a[0])
    if sg.op in ("all", "merge"):
        src = sg.a[0]
        if src.op == "seq" and not any(x.op == "all" and x.a[0] is src for x in src.a[0]):
            return loop_segs(I, st, list(src.a[0]), body, loc)
        if src.op == "range":
            pass
        d = depth_of(I, src)
        e = mk("elem", src, d)
        return sym_loop(I, st, src, e, mk("idx", src, d), lambda s: body(s, e), loc)
    if sg.op == "each":
        src, e, i, alts = sg.a
        d = depth_of(I, src)
        if e.op == "elem" and e.a[1] != d:
            e2, i2 = mk("elem", src, d), mk("idx", src, d)
            m = {e: e2, i: i2}
            alts = tuple((tuple((subst(a, m), v) for a, v in cs), tuple(subst(x, m) for x in inner)) for cs, inner in alts)
            e, i = e2, i2

        def run(s):
            outs = []
            for n, (cs, inner) in enumerate(alts):
                x = s.copy() if n < len(alts) - 1 else s
                if not all(x.assume((a, True), v) for a, v in cs):
                    continue
                outs.extend(loop_segs(I, x, list(inner), body, loc))
            return outs

        return sym_loop(I, st, src, e, i, run, loc)
    if sg.op == "rep":
        src = mk("range", const(0), sg.a[1])
        d = depth_of(I, src)
        e = mk("elem", src, d)
        return sym_loop(I, st, src, e, mk("idx", src, d), lambda s: loop_segs(I, s, list(sg.a[0]), body, loc), loc)
    src = mk("seq", (sg,))
    d = depth_of(I, src)
    e = mk("elem", src, d)
    return sym_loop(I, st, src, e, mk("idx", src, d), lambda s: body(s, e), loc)


def depth_of(I, src):
    return sum(1 for x in I.active_loops if x is src)


# ---------------------------------------------------------------- slots


def get_slot(st, sl):
    if sl[0] == "h":
        o = st.heap.get(sl[1]) or st.base.get(sl[1])
        return o.attrs.get(sl[2])
    if sl[0] == "d":
        o = st.heap.get(sl[1]) or st.base.get(sl[1])
        return o.data
    return st.over.get(sl[1])


def set_slot(st, sl, v):
    if sl[0] == "h":
        o = st.own(ref(sl[1]))
        if v is None:
            o.attrs.pop(sl[2], None)
        else:
            o.attrs[sl[2]] = v
    elif sl[0] == "d":
        st.own(ref(sl[1])).data = v
    elif v is None:
        st.over.pop(sl[1], None)
    else:
        st.over[sl[1]] = v


def diff(s0, s1):
    """Slots that existed in s0 (or are new attributes of old objects) and differ in s1."""
    out = []
    for i, o in s1.heap.items():
        old = s0.heap.get(i)
        if old is None:
            old = s0.base.get(i)
        if old is None or old is o:
            continue
        if old.attrs is not o.attrs:
            for k, v in o.attrs.items():
                if old.attrs.get(k) is not v:
                    out.append(("h", i, k))
            for k in old.attrs:
                if k not in o.attrs:
                    out.append(("h", i, k))
        if old.data != o.data and o.kind in ("list", "dict", "set", "gen"):
            out.append(("d", i, None))
    if s0.over != s1.over:
        for k, v in s1.over.items():
            if s0.over.get(k) is not v:
                out.append(("o", k, None))
        for k in s0.over:
            if k not in s1.over:
                out.append(("o", k, None))
    return out


def slot_name(st, sl):
    if sl[0] == "h":
        return sl[2]
    if sl[0] == "d":
        o = st.heap.get(sl[1]) or st.base.get(sl[1])
        return o.kind
    return "%s" % (sl[1][1:],) if sl[1][1] == "[]" else str(sl[1][1])


class Slot(object):
    __slots__ = ("cls", "name", "init", "lv", "vals", "step", "op")

    def __init__(self, cls, name, init, lv):
        self.cls, self.name, self.init, self.lv = cls, name, init, lv
        self.vals = None
        self.step = None
        self.op = None


CLASSES = {"flag": 0, "ind": 1, "fold": 2, "any": 3, "acc": 0, "dacc": 0, "dany": 3}


def first_class(sl, old, new):
    if sl[0] == "d":
        if isinstance(new, tuple) and isinstance(old, tuple) and new[: len(old)] == old:
            return "acc"
        return "dany"
    if old is not None and old.op == "const" and new is not None and new.op == "const":
        if isinstance(cval(old), (bool, str)) or old is NONE or cval(old) is None:
            if isinstance(cval(new), (bool, str)) or new is NONE:
                return "flag"
        return "ind"
    if old is not None and new is not None and old is not NOVAL and new is not NOVAL:
        return "ind"
    return "any"


def start_value(sl, s, idx):
    """Value of the slot at the start of an arbitrary iteration."""
    if s.cls == "acc":
        return s.init + (mk("all", s.lv),)
    if s.cls == "dany":
        return (mk("all", s.lv),)
    if s.cls == "ind":
        if s.step is None or s.init is None:
            return s.lv
        return mkbin("+", s.init, mkbin("*", idx, const(s.step)))
    return s.lv


def fold_of(lv, new):
    """(op, contribution) if new is an accumulation on lv."""
    if new.op == "bin" and new.a[0] in ("+", "*", "|", "&", "^"):
        if new.a[1] is lv and not mentions(new.a[2], lv):
            return new.a[0], new.a[2]
        if new.a[2] is lv and not mentions(new.a[1], lv) and new.a[0] in ("*", "|", "&", "^", "+"):
            return new.a[0], new.a[1]
        l = linear(new)
        if l is not None and l[0].get(lv) == 1:
            d = dict(l[0])
            del d[lv]
            r = from_linear(d, l[1])
            if not mentions(r, lv):
                return "+", r
    if new.op == "fmt" and new.a and new.a[0] is lv:
        rest = mkfmt(new.a[1:])
        if not mentions(rest, lv):
            return "str", rest
    if new.op == "bin" and new.a[0] == "-" and new.a[1] is lv and not mentions(new.a[2], lv):
        return "-", new.a[2]
    return None


def forget(st, terms):
    """Drop the facts that mention one of the terms."""
    if not terms:
        return
    st.facts = {a: v for a, v in st.facts.items() if not mentions_any(a, terms)}
    st.iv = {a: v for a, v in st.iv.items() if not mentions_any(a, terms)}


def key_term(x):
    return x if isinstance(x, T) else const(x)


def analyse_body(I, pre, idx, run, lkey, forget_terms):
    """Widen; returns (slots, joint flag runs [(assignment, outcomes, start)])."""
    slots = {}
    bump = [False]
    names = {}
    for rnd in range(12):
        runs = []
        flags = [sl for sl in slots if slots[sl].cls == "flag"]
        todo = [(tuple(slots[sl].init for sl in flags), pre.mon)]
        seen = set(todo)
        bad = False
        changed = {}
        while todo:
            asg, mon = todo.pop()
            s0 = pre.copy()
            s0.mon = mon
            forget(s0, forget_terms)
            if bump[0]:
                s0.ep = (s0.ep if isinstance(s0.ep, int) else 0) + 1
            for sl, s in slots.items():
                set_slot(s0, sl, start_value(sl, s, idx))
            for sl, v in zip(flags, asg):
                set_slot(s0, sl, v)
            start = s0.copy()
            ndiv = len(I.div)
            outs = run(s0)
            runs.append((asg, outs, start))
            for o in outs:
                if o[0].ep != start.ep:
                    if not bump[0]:
                        bump[0] = True
                        bad = True
                if o[1] in (None, CONT):
                    for sl in diff(start, o[0]):
                        if sl not in slots:
                            old, new = get_slot(start, sl), get_slot(o[0], sl)
                            c = changed.get(sl)
                            fc = first_class(sl, old, new)
                            if c is None or CLASSES[fc] > CLASSES[c]:
                                changed[sl] = fc
                    na = tuple(get_slot(o[0], sl) for sl in flags)
                    for sl, v in zip(flags, na):
                        if v is None or v.op != "const":
                            slots[sl].cls = "any"
                            bad = True
                    if bad:
                        continue
                    na = (na, o[0].mon)
                    if na not in seen:
                        seen.add(na)
                        todo.append(na)
                        if len(seen) > 24 + 40 * (pre.mon is not None):
                            for sl in flags:
                                slots[sl].cls = "any"
                            bad = True
                            todo = []
            if bad or changed:
                break
        for sl, c in changed.items():
            n = slot_name(pre, sl)
            k = names.get(n, 0)
            names[n] = k + 1
            nm = n if not k else "%s~%d" % (n, k)
            init = get_slot(pre, sl)
            lv = mk("lv", nm, lkey)
            if c == "flag" and (init is None or init is NOVAL):
                c = "any"
            slots[sl] = Slot(c, nm, init, lv)
        if changed or bad:
            continue
        # check the classes against the generalised runs
        for sl, s in slots.items():
            if s.cls == "acc":
                for asg, outs, start in runs:
                    base = get_slot(start, sl)
                    for o in outs:
                        if o[1] in (None, CONT):
                            new = get_slot(o[0], sl)
                            if new is not base and new[: len(base)] != base:
                                s.cls = "dany"
                                bad = True
            elif s.cls in ("ind", "fold"):
                steps = set()
                ops = set()
                okf = True
                for asg, outs, start in runs:
                    base = get_slot(start, sl)
                    for o in outs:
                        if o[1] in (None, CONT):
                            new = get_slot(o[0], sl)
                            if new is base:
                                steps.add(0)
                                continue
                            if new is None or new is NOVAL:
                                okf = False
                                continue
                            if s.cls == "ind":
                                l = linear(mkbin("-", new, base)) if looks_linear(new) else None
                                if l is not None and not l[0]:
                                    steps.add(l[1])
                                else:
                                    steps.add(None)
                            else:
                                f = fold_of(s.lv, new)
                                if f is None:
                                    okf = False
                                else:
                                    ops.add(f[0])
                if s.cls == "ind":
                    st1 = list(steps)[0] if len(steps) == 1 else None
                    if st1 is None or s.init is None or s.init is NOVAL or not looks_linear(s.init):
                        s.cls = "fold"
                        bad = True
                    elif s.step is None:
                        s.step = st1
                        bad = True
                    elif s.step != st1:
                        s.cls = "fold"
                        s.step = None
                        bad = True
                else:
                    if not okf or len(ops) > 1 or not ops or s.init is None or s.init is NOVAL:
                        s.cls = "any"
                        bad = True
                    else:
                        s.op = ops.pop()
        if not bad:
            return slots, flags, runs, bump[0]
    I.stats["widenings"] += 1
    for s in slots.values():
        s.cls = "dany" if s.cls in ("acc", "dany") else "any"
    s0 = pre.copy()
    forget(s0, forget_terms)
    s0.ep = (s0.ep if isinstance(s0.ep, int) else 0) + 1
    for sl, s in slots.items():
        set_slot(s0, sl, start_value(sl, s, idx))
    start = s0.copy()
    return slots, [], [((), run(s0), start)], True


def looks_linear(t):
    return t is not None and t is not NOVAL and t.op not in ("fmt", "tuple", "ref") and not (
        t.op == "const" and not isinstance(cval(t), int)
    ) and linear(t) is not None


def seg_delta(base, new):
    return new[len(base):]


def summarise(I, pre, src, e, idx, run, loc, lkey, fterms):
    slots, flags, runs, bumped = analyse_body(I, pre, idx, run, lkey, fterms)
    multi = len({r[0] for r in runs}) > 1
    alts = []  # (Alt, asg, outcome)
    exits = []
    done = set()
    I.loop_mons = [] if pre.mon is None else [pre.mon]
    for asg, outs, start in runs:
        again = asg in done
        done.add(asg)
        for o in outs:
            if o[1] in (None, CONT) and o[0].mon is not None and o[0].mon not in I.loop_mons:
                I.loop_mons.append(o[0].mon)
            if again and o[1] in (None, CONT):
                continue
            conds = o[0].decisions(start.path)
            effs = o[0].effects(start.eff)
            upd = {}
            if o[1] in (None, CONT):
                for sl, s in slots.items():
                    base, new = get_slot(start, sl), get_slot(o[0], sl)
                    upd[sl] = (base, new)
                alts.append((Alt(tuple(conds), effs, "next", upd, o[0]), asg, o, start))
            else:
                exits.append((Alt(tuple(conds), effs, o[1], upd, o[0]), asg, o, start))
    return slots, flags, runs, alts, exits, bumped, multi


def sym_loop(I, pre, src, e, idx, run, loc):
    I.stats["loops"] += 1
    if I.opts.closed and src.op != "range":
        raise TooComplex("a loop over unknown members at %s:%s" % loc)
    I.active_loops.append(src)
    try:
        lkey = mk("loop", src, e.a[1] if e.op == "elem" else 0)
        fterms = {e, idx}
        slots, flags, runs, alts, exits, bumped, multi = summarise(I, pre, src, e, idx, run, loc, lkey, fterms)
    finally:
        I.active_loops.pop()
    mons = I.loop_mons
    pre_mon = pre.mon
    results = []
    exit_conjs = [list(a.conds) for a, _, _, _ in exits]
    # decisions about the whole loop, made inside its body
    ec = I.exists_cond(src, e, exit_conjs) if exits else False
    if exits and ec is not False:
        x = pre.copy()
        if x.assume(ec):
            results.extend(exit_states(I, x, src, e, idx, lkey, slots, flags, alts, exits, ec, loc, bumped))
    # all elements visited
    y = pre
    if exits and not y.assume(ec, False):
        return results
    # nonempty facts
    for asg, outs, start in runs:
        for o in outs:
            if o[0].exc is None and o[1] in (None, CONT):
                for i, ob in o[0].heap.items():
                    if i not in y.heap and y.base.get(i) is None:
                        y.heap[i] = ob
                for k, v in o[0].cnt.items():
                    if v > y.cnt.get(k, 0):
                        y.cnt[k] = v
                for k, v in o[0].types.items():
                    y.types.setdefault(k, v)
    eff_alts = norm_alts([a for a, _, _, _ in alts], multi, flags, slots, alts)
    if any(a.effects for a in eff_alts):
        y.emit("foreach", (src, e, idx, tuple(eff_alts)), loc)
    if bumped:
        y.ep = (y.ep if isinstance(y.ep, int) else 0) + 2
    outs = [y]
    # flags
    done_flags = {}
    for fi, sl in enumerate(flags):
        nxt = []
        for z in outs:
            nxt.extend(flag_final(I, z, src, e, slots[sl], fi, sl, alts, lkey))
        outs = nxt
    for z in outs:
        for sl, s in slots.items():
            if s.cls == "flag":
                continue
            final_value(I, z, src, e, idx, sl, s, alts, lkey)
        mark_written(I, z, src, e, slots)
        if len(mons) > 1 or mons and mons[0] is not pre_mon:
            for m in mons:
                w = z.copy()
                w.mon = m
                if exits:
                    w.mon = I.base.monitor.dec(m, ec, False, w)
                results.insert(0, (w, None, None))
        else:
            results.insert(0, (z, None, None))
    return results


def norm_alts(als, multi, flags, slots, alts):
    if not multi:
        return als
    out = []
    for a, asg, o, start in alts:
        extra = tuple((mk("is", slots[sl].lv, v), True) for sl, v in zip(flags, asg))
        if a.effects:
            out.append(Alt(extra + a.conds, a.effects, a.kind, a.updates, a.st))
        else:
            out.append(Alt(extra + a.conds, a.effects, a.kind, a.updates, a.st))
    # identical alternatives for every flag value
    groups = {}
    for a, full in zip([x[0] for x in alts], out):
        k = (a.conds, tuple((f.kind, f.a) for f in a.effects if f.kind not in ("foreach", "loop", "spawn")), len(a.effects))
        groups.setdefault(k, []).append((a, full))
    n = len({asg for _, asg, _, _ in alts})
    res = []
    for k, l in groups.items():
        if len(l) >= n:
            res.append(l[0][0])
        else:
            res.extend(f for _, f in l)
    return res


def mark_written(I, z, src, e, slots):
    """Attributes written on an arbitrary element: later reads are a new version."""
    for sl in slots:
        if sl[0] == "o" and mentions(sl[1][0], e):
            z.over.pop(sl[1], None)
            nm = sl[1][1]
            if isinstance(nm, str) and nm != "[]":
                k = ("#attr", nm)
                z.cnt[k] = z.cnt.get(k, 0) + 1
            elif nm == "[]":
                I.bump_content(z, sl[1][0])


def final_value(I, z, src, e, idx, sl, s, alts, lkey):
    if s.cls == "ind":
        if s.init is not None and s.step is not None:
            from . import models

            n = models.src_len(I, z, src) if src.op != "while" else mk("trips", lkey)
            set_slot(z, sl, mkbin("+", s.init, mkbin("*", n, const(s.step))))
            return
    if s.cls == "acc":
        inner = []
        for a, asg, o, start in alts:
            base, new = a.updates[sl]
            d = seg_delta(base, new)
            if d:
                inner.append((a.conds, d))
        if not inner:
            set_slot(z, sl, s.init)
            return
        inner = merge_alts(inner)
        seg = mk("each", src, e, idx, tuple((tuple(c), tuple(d)) for c, d in inner))
        if (
            len(inner) == 1 and not inner[0][0] and len(inner[0][1]) == 1 and inner[0][1][0].op == "one"
            and inner[0][1][0].a[0] is e and src.op != "while"
        ):
            seg = mk("all", src)
        set_slot(z, sl, s.init + (seg,))
        return
    if s.cls == "dany":
        set_slot(z, sl, (mk("all", mk("lo", s.name, lkey)),))
        return
    if s.cls == "fold":
        conts = []
        for a, asg, o, start in alts:
            base, new = a.updates[sl]
            if new is base:
                continue
            conts.append((tuple(a.conds), fold_of(s.lv, new)[1]))
        set_slot(z, sl, mk("fold", s.op, s.init, src, tuple(canon_conts(conts, e))))
        return
    # unknown: the value of the last iteration
    if s.init is None and sl[0] == "o" and mentions(sl[1][0], e):
        set_slot(z, sl, None)
        return
    news = {a.updates[sl][1] for a, _, _, _ in alts}
    if len(news) == 1 and list(news)[0] is s.init:
        set_slot(z, sl, s.init)
        return
    set_slot(z, sl, mk("lo", s.name, lkey))


def canon_conts(conts, e):
    m = {e: mk("bv", 0)}
    if e.op == "elem":
        m[mk("idx", e.a[0], e.a[1])] = mk("bvi", 0)
    by = {}
    for c, v in conts:
        by.setdefault(subst(v, m), []).append([(subst(a, m), x) for a, x in c])
    return sorted(((bf_make(cs), v) for v, cs in by.items()), key=lambda z: okey(z[1]))


def merge_alts(inner):
    """Alternatives with the same result whose conditions differ in one decision are joined."""
    by = []
    for c, d in inner:
        for g in by:
            if g[1] == d:
                g[0].append(list(c))
                break
        else:
            by.append(([list(c)], d))
    out = []
    for cs, d in by:
        bf = bf_make(cs)
        if bf.op == "bf":
            atoms, terms = bf.a
            if len(cs) > 1:
                # back to conjunctions, smallest cover by merging greedily
                for t in cover(atoms, terms):
                    out.append((tuple(t), d))
                continue
        for c in cs:
            out.append((tuple(c), d))
    return out


def cover(atoms, terms):
    """Terms (bool tuples) as a list of conjunctions with free atoms dropped."""
    cubes = {tuple(t) for t in terms}
    changed = True
    primes = set()
    cur = cubes
    while cur:
        nxt = set()
        used = set()
        l = list(cur)
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                d = [k for k in range(len(atoms)) if l[i][k] != l[j][k]]
                if len(d) == 1 and l[i][d[0]] is not None and l[j][d[0]] is not None:
                    t = list(l[i])
                    t[d[0]] = None
                    nxt.add(tuple(t))
                    used.add(l[i])
                    used.add(l[j])
        primes |= cur - used
        cur = nxt
    chosen = []
    left = set(cubes)
    key = lambda p: (sum(x is not None for x in p), tuple(-1 if x is None else int(x) for x in p))
    while left:
        p = max(sorted(primes, key=key), key=lambda p: sum(1 for c in left if covers(p, c)))
        chosen.append(p)
        left = {c for c in left if not covers(p, c)}
    return [[(a, v) for a, v in zip(atoms, p) if v is not None] for p in chosen]


def covers(p, c):
    return all(x is None or x == y for x, y in zip(p, c))


def flag_final(I, z, src, e, s, fi, sl, alts, lkey):
    """States after the loop, by the final value of a flag."""
    # per value of the flag: the alternatives leaving it
    vals = set()
    trans = {}
    for a, asg, o, start in alts:
        base, new = a.updates[sl]
        trans.setdefault((asg, base), []).append((new, a))
        vals.add(base)
        vals.add(new)
    init = s.init
    others = vals - {init}
    if not others:
        set_slot(z, sl, init)
        return [z]
    absorbing = all(new in others for (asg, base), l in trans.items() if base is not init for new, _ in l)
    if absorbing and len(others) == 1:
        ds = set()
        for (asg, base), l in trans.items():
            if base is init:
                ds.add(I.exists_cond(src, e, [list(a.conds) for new, a in l if new is not init]))
        if len(ds) == 1:
            c = ds.pop()
            r = []
            w = z.copy()
            if w.assume(c, True):
                set_slot(w, sl, list(others)[0])
                r.append(w)
            if z.assume(c, False):
                set_slot(z, sl, init)
                r.append(z)
            return r
    # last write wins with constants only: value of the last element
    r = []
    vl = sorted(vals, key=lambda t: okey(t))
    for v in vl:
        w = z.copy()
        ok = True
        for u in vl:
            a = mk("is", mk("lo", s.name, lkey), u)
            ok = ok and w.assume((a, True), u is v)
        if ok:
            set_slot(w, sl, v)
            r.append(w)
    return r


def exit_states(I, x, src, e, idx, lkey, slots, flags, alts, exits, ec, loc, bumped):
    out = []
    first = mk("first", src, ec[0].a[1] if ec is not True and ec[0].op == "exists" else BF_TRUE)
    fidx = mk("fidx", src, ec[0].a[1] if ec is not True and ec[0].op == "exists" else BF_TRUE)
    m = {e: first, idx: fidx}
    memo = {}
    sub = lambda t: subst(t, m, memo)
    pre_alts = [a for a, _, _, _ in alts]
    flagged = {}
    for a, asg, o, start in exits:
        z = x.copy()
        ok = True
        for at, v in a.conds:
            if not z.assume((sub(at), True), v):
                ok = False
                break
        if not ok:
            continue
        b = o[0]
        # the body state, seen from the element that leaves the loop
        for i, ob in b.heap.items():
            if i in z.heap and z.heap[i] is ob:
                continue
            if z.heap.get(i) is None and z.base.get(i) is ob:
                continue
            n = ob.clone()
            n.attrs = {k: (sub(v) if isinstance(v, T) else v) for k, v in n.attrs.items()}
            if n.kind in ("list", "dict", "set", "gen"):
                n.data = tuple(sub(d) for d in n.data)
            elif n.kind in ("coro",):
                n.data = tuple(sub(d) if isinstance(d, (T, tuple)) else d for d in n.data)
            elif n.kind == "task":
                n.data = sub(n.data)
            z.heap[i] = n
        z.over = {sub_key(k, sub): (sub(v) if isinstance(v, T) else v) for k, v in b.over.items()}
        z.cnt = {(sub(k) if isinstance(k, tuple) else k): v for k, v in b.cnt.items()}
        for k, v in b.types.items():
            z.types.setdefault(sub(k), v)
        for k, v in b.types.items():
            z.types.setdefault(k, v)
        if any(al.effects for al in pre_alts):
            z.emit("foreach", (mk("before", src, first), e, idx, tuple(norm_alts(pre_alts, False, flags, slots, alts))), loc)
        for ef in a.effects:
            z.eff = (z.eff, sub_eff(ef, sub))
        z.mon = b.mon
        z.ep = b.ep
        z.exc = sub(b.exc) if b.exc is not None else None
        z.cur_exc = b.cur_exc
        val = o[2]
        if isinstance(val, T):
            val = sub(val)
        out.append((z, o[1], val))
    return merge_outcomes(out)


def sub_key(k, sub):
    return tuple(sub(x) if isinstance(x, T) else x for x in k)


def sub_eff(ef, sub):
    if ef.kind in ("foreach", "loop"):
        a = tuple(sub(x) if isinstance(x, T) else x for x in ef.a[:-1]) + (
            tuple(Alt(tuple((sub(c), v) for c, v in al.conds), [sub_eff(f, sub) for f in al.effects], al.kind, al.updates, al.st) for al in ef.a[-1]),
        )
        return Eff(ef.kind, a, ef.loc, ef.path)
    if ef.kind == "spawn":
        a = (sub(ef.a[0]), sub(ef.a[1]), tuple(
            Alt(tuple((sub(c), v) for c, v in al.conds), [sub_eff(f, sub) for f in al.effects], al.kind, al.updates, al.st) for al in ef.a[2]))
        return Eff(ef.kind, a, ef.loc, ef.path)
    return Eff(ef.kind, tuple(sub(x) if isinstance(x, (T, tuple)) else x for x in ef.a), ef.loc, ef.path)


# ---------------------------------------------------------------- while


def while_loop(I, s, st, fr):
    """[(st, ctl, val)]"""
    file, line = getattr(s, "file", "?"), s.lineno
    loc = (file, line)
    I.stats["loops"] += 1
    src = mk("while", len(I.active_loops), len(I.stack))
    idx = mk("idx", src, 0)
    res = []
    pre = st

    def cond_first(x):
        return I.cond(s.test, x, fr)

    # leaving before the first iteration
    entry = []
    for y, b in cond_first(pre):
        if y.exc is not None:
            res.append((y, EXC, None))
        elif not b:
            res.append((y, None, None))
        else:
            entry.append(y)
    for y in entry:
        res.extend(while_rest(I, s, y, fr, src, idx, loc))
    return res


def while_rest(I, s, pre, fr, src, idx, loc):
    """The loop from a state in which its condition holds for the first time."""
    lkey = mk("loop", src, 0)

    def run(x):
        outs = []
        for o in I.block(s.body, x, fr):
            outs.append(o)
        return outs

    def run_tested(x):
        outs = []
        for o in run(x):
            if o[1] in (None, CONT):
                for y, b in I.cond(s.test, o[0], fr):
                    if y.exc is not None:
                        outs.append((y, EXC, None))
                    elif b:
                        outs.append((y, None, None))
                    else:
                        outs.append((y, "stop", None))
            else:
                outs.append(o)
        return outs

    I.active_loops.append(src)
    try:
        counted = None if I.opts.closed else for_range(I, s, pre, fr, loc)
        if counted is not None:
            return counted
        if I.opts.finite or I.sched or I.opts.closed:
            fin = finite_loop(I, pre, run_tested)
            if fin is not None:
                return fin
        if I.opts.closed:
            raise TooComplex("a loop that does not end after a known number of rounds at %s:%s" % loc)
        # the first iteration starts in the known state, later ones in the widened state
        slots, flags, runs, alts, exits, bumped, multi = summarise(I, pre, src, idx, idx, run_tested, loc, lkey, {idx})
    finally:
        I.active_loops.pop()
    res = []
    eff_alts = norm_alts([a for a, _, _, _ in alts], multi, flags, slots, alts)
    for a, asg, o, start in exits:
        z = o[0]
        # effects of earlier iterations come before those of the last one
        tail = a.effects
        z.eff = pre.eff
        if any(al.effects for al in eff_alts):
            z.emit("loop", (src, idx, tuple(eff_alts)), loc)
        for ef in tail:
            z.eff = (z.eff, ef)
        if o[1] == "stop":
            res.append((z, None, None))
        else:
            res.append((z, o[1], o[2]))
    if not exits:
        z = pre.copy()
        z.emit("loop", (src, idx, tuple(eff_alts)), loc)
        I.div.append(z)
    elif alts:
        pass
    return merge_outcomes(res)


def finite_loop(I, pre, run):
    """All states at the head of the loop, if there are few of them (values of a finite domain).

    Effects of earlier iterations are not kept: for typestate monitors only.
    """

    def head(x):
        sl = []
        for slot in diff(pre, x):
            v = get_slot(x, slot)
            if slot[0] == "h" and slot[1] not in pre.heap and slot[1] not in pre.base:
                continue
            sl.append((slot, v))
        return (x.mon, tuple(sorted(sl, key=repr)))

    res = []
    if not I.opts.finite:
        # keep everything: executions one after the other, each up to the first repeated state
        todo = [(pre, frozenset())]
        n = 0
        rep = []
        one = True
        while todo:
            one = one and len(todo) == 1
            x, seen = todo.pop()
            k = head(x)
            if k in seen:
                rep.append(x)
                continue
            seen = seen | {k}
            n += 1
            if n > 2000 or not one and (n > 150 or len(seen) > 40):
                return None
            for z, ctl, val in run(x.copy()):
                if ctl in (None, CONT):
                    todo.append((z, seen))
                elif ctl in ("stop", BRK):
                    res.append((z, None, None))
                else:
                    res.append((z, ctl, val))
        I.div.extend(rep)
        return res
    seen = set()
    todo = [pre]
    while todo:
        x = todo.pop(0)
        k = head(x)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 120:
            return None
        y = x.copy()
        y.facts, y.iv, y.path, y.eff = pre.facts, pre.iv, pre.path, pre.eff
        for z, ctl, val in run(y):
            if ctl in (None, CONT):
                todo.append(z)
            elif ctl in ("stop", BRK):
                res.append((z, None, None))
            else:
                res.append((z, ctl, val))
    if not res:
        I.div.append(pre.copy())
    return res


def for_range(I, s, pre, fr, loc):
    """A while loop that counts up (or down) to a bound is a loop over a range."""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
    # candidate counters: names assigned in the body by +- constant
    cands = []
    for n in ast.walk(ast.Module(s.body, [])):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
            cands.append(n.target.id)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
            cands.append(n.targets[0].id)
    cands = list(dict.fromkeys(cands))
    if len(cands) != 1:
        return None
    c = cands[0]
    v0 = I.lookup_name(pre, fr, c)
    if v0 is None or v0 is NOVAL or not looks_linear(v0):
        return None
    lkey = mk("loop", mk("count", 0), 0)
    lv = mk("lv", c, lkey)
    probe = pre.copy()
    I.store_name(probe, fr, c, lv)
    outs = I.ev(t, probe, fr)
    if len(outs) != 1 or outs[0][0].exc is not None or outs[0][1].op != "cmp":
        return None
    cmpv = outs[0][1]
    at, pos = cmpv.a[3]
    if at.op not in ("le", "eqc"):
        return None
    d = dict(at.a[0].a[0])
    if lv not in d or abs(d[lv]) != 1:
        return None
    k = at.a[1]
    # at: d <= k  (pos) or d > k (not pos);   the loop goes on while it holds
    co = d.pop(lv)
    rest = from_linear({x: -y for x, y in d.items()}, 0)
    # co*i <= k + rest'  where rest' = -(other terms)
    if at.op == "eqc":
        if pos:
            return None
        # i != bound
        bound = mkbin("+", rest, const(k)) if co == 1 else mkbin("-", const(-k), rest)
        up = None
        limit = bound
        inclusive = False
    else:
        b = mkbin("+", rest, const(k))
        if co == 1:
            if pos:
                up, limit = True, mkbin("+", b, const(1))  # i <= b : i < b+1
            else:
                up, limit = False, b  # i > b
        else:
            nb = from_linear(*neg_lin(b))
            if pos:
                up, limit = False, mkbin("-", nb, const(1))  # -i <= b : i >= -b : i > -b-1
            else:
                up, limit = True, nb  # -i > b : i < -b
    # the bound does not change: evaluate the body once with the counter widened
    test = pre.copy()
    I.store_name(test, fr, c, lv)
    start = test.copy()
    nd = len(I.div)
    body_outs = I.block(s.body, test, fr)
    steps = set()
    for o in body_outs:
        if o[1] in (None, CONT):
            nv = I.lookup_name(o[0], fr, c)
            if nv is None or nv is NOVAL:
                return None
            l = linear(mkbin("-", nv, lv)) if looks_linear(nv) else None
            if l is None or l[0]:
                return None
            steps.add(l[1])
            # is the bound still the same?
            for y, v in I.ev(t, with_name(I, o[0].copy(), fr, c, lv), fr):
                if y.exc is not None or v is None or v.op != "cmp" or v.a[3] != cmpv.a[3]:
                    return None
    if len(steps) != 1:
        return None
    step = steps.pop()
    if up is None:
        up = step > 0
    if (up and step != 1) or (not up and step != -1):
        return None
    n = mkbin("-", limit, v0) if up else mkbin("-", v0, limit)
    if n.op == "const" and (I.opts.finite or I.sched):
        return None
    src = mk("range", const(0), n)
    if is_len(n):
        src = n.a[1][0]
    dep = depth_of(I, src)
    e, i = mk("elem", src, dep), mk("idx", src, dep)
    cur = mkbin("+", v0, i) if up else mkbin("-", v0, i)

    def run(x):
        I.store_name(x, fr, c, cur)
        return I.block(s.body, x, fr)

    return sym_loop(I, pre, src, e, i, run, loc)


def with_name(I, st, fr, c, v):
    I.store_name(st, fr, c, v)
    return st


def neg_lin(t):
    l = linear(t)
    return {k: -v for k, v in l[0].items()}, -l[1]
