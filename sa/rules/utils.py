"""Shift register, replacement tree and counter."""

import itertools

from .world import *

# ------------------------------------------------------------------ values as bits over GF(2)
# A bit is an int: bit i of it says whether state bit i takes part in the sum, bit ONE stands for 1.

W = 160
ONE = 1 << 200
TOP = -1  # not a sum of bits


class NotLinear(Exception):
    pass


def bits_of(t, s, memo, seed):
    """The bits of the value t, each a sum over GF(2) of the bits of the symbol s."""
    if t in memo:
        return memo[t]
    r = None
    if t is s:
        r = list(seed)
    elif t.op == "const" and isinstance(cval(t), int):
        v = int(cval(t))
        if v < 0:
            raise NotLinear(show(t)[:80])
        r = [ONE if v >> i & 1 else 0 for i in range(W)]
        if v >> W:
            raise NotLinear("wide constant")
    elif t.op == "bin" and t.a[1].op == "ones" and (t.a[0], t.a[2]) in (("%", const(2)), ("&", const(1))):
        p = 0
        for q in bits_of(t.a[1].a[0], s, memo, seed):
            p = xor(p, q)
        r = [p] + [0] * (W - 1)
    elif t.op == "bin":
        o, x, y = t.a
        k = int(cval(y)) if y.op == "const" and isinstance(cval(y), int) else None
        k2 = int(cval(x)) if x.op == "const" and isinstance(cval(x), int) else None
        if o in ("*", "//", "%") and k is not None and k > 0 and k & (k - 1) == 0:
            n = k.bit_length() - 1
            b = bits_of(x, s, memo, seed)
            r = {"*": lambda: shl(b, n), "//": lambda: b[n:] + [0] * n, "%": lambda: b[:n] + [0] * (W - n)}[o]()
        elif o == "*" and k2 is not None and k2 > 0 and k2 & (k2 - 1) == 0:
            r = shl(bits_of(y, s, memo, seed), k2.bit_length() - 1)
        elif o == "<<" and k is not None:
            r = shl(bits_of(x, s, memo, seed), k)
        elif o == ">>" and k is not None:
            b = bits_of(x, s, memo, seed)
            r = b[k:] + [0] * min(k, W)
        elif o == "%" and k is not None and k > 0:
            raise NotLinear(show(t)[:80])
        elif o in ("^", "&", "|", "+", "-"):
            a, b = bits_of(x, s, memo, seed), bits_of(y, s, memo, seed)
            if o in "+-":
                # a carry or borrow is known where at most one of the bits is not zero
                r, carry = [], 0
                for p, q in zip(a, b):
                    r.append(xor(xor(p, q), carry))
                    nz = [v for v in (p, q, carry) if v]
                    if o == "+":
                        carry = 0 if len(nz) < 2 else TOP
                    else:
                        carry = 0 if not carry and (q == 0 or q == p or p == ONE) else TOP
            else:
                r = [{"^": xor, "&": conj, "|": disj}[o](p, q) for p, q in zip(a, b)]
    elif t.op in ("quant", "cmp"):
        c = t.a[0] if t.op == "quant" else t.a[3]
        r = [bit_of_cond(c, s, memo, seed)] + [0] * (W - 1)
    elif t.op == "lin":
        pass
    if r is None:
        raise NotLinear(show(t)[:80])
    memo[t] = r
    return r


def xor(p, q):
    return TOP if TOP in (p, q) else p ^ q


def conj(p, q):
    if p == 0 or q == 0:
        return 0
    if p == ONE or q == ONE:
        return q if p == ONE else p
    if TOP in (p, q):
        return TOP
    return p if p == q else 0 if p == q ^ ONE else TOP


def disj(p, q):
    if p == 0 or q == 0:
        return p or q
    if p == ONE or q == ONE:
        return ONE
    if TOP in (p, q):
        return TOP
    return p if p == q else ONE if p == q ^ ONE else TOP


def evaluate(t, s, v, memo):
    """The value of the term t where s is v."""
    if t is s:
        return v
    if t.op == "const":
        return cval(t)
    if t in memo:
        return memo[t]
    if t.op == "bin":
        x, y = evaluate(t.a[1], s, v, memo), evaluate(t.a[2], s, v, memo)
        f = {"+": int.__add__, "-": int.__sub__, "*": int.__mul__, "^": int.__xor__, "&": int.__and__, "|": int.__or__,
             "<<": int.__lshift__, ">>": int.__rshift__, "//": int.__floordiv__, "%": int.__mod__}.get(t.a[0])
        if f is None:
            raise NotLinear(show(t)[:80])
        r = f(int(x), int(y))
    elif t.op == "ones":
        r = bin(evaluate(t.a[0], s, v, memo)).count("1")
    elif t.op in ("quant", "cmp"):
        r = int(holds(t.a[0] if t.op == "quant" else t.a[3], s, v, memo))
    else:
        raise NotLinear(show(t)[:80])
    memo[t] = r
    return r


def holds(c, s, v, memo):
    if c is True or c is False:
        return c
    atom, pos = c
    if atom.op == "truth":
        b = bool(evaluate(atom.a[0], s, v, memo))
    elif atom.op == "eq":
        b = evaluate(atom.a[0], s, v, memo) == evaluate(atom.a[1], s, v, memo)
    else:
        raise NotLinear("condition " + show(atom)[:80])
    return b == pos


WITNESSES = [0, 1, 2, 3, 2**63, 2**64 - 1, 2**64, 2**64 + 5] + [1 << i for i in range(0, 64, 7)] + [0x9E3779B97F4A7C15 * k % 2**64 for k in range(1, 40)]


def shl(b, n):
    if any(b[W - n :]):
        raise NotLinear("wide value")
    return [0] * n + b[: W - n]


def bit_of_cond(c, s, memo, seed):
    """The condition (atom, polarity) as a bit: 1 iff it holds."""
    if c is True or c is False:
        return ONE if c else 0
    atom, pos = c
    v = None
    if atom.op == "truth":
        v = one_bit(bits_of(atom.a[0], s, memo, seed))
    elif atom.op in ("eq", "le", "lt") or len(atom.a) == 2:
        x, y = atom.a[:2]
        if isinstance(x, T) and isinstance(y, T) and atom.op == "eq":
            v = one_bit([p ^ q for p, q in zip(bits_of(x, s, memo, seed), bits_of(y, s, memo, seed))]) ^ ONE
    if v is None:
        raise NotLinear("condition " + show(atom)[:80])
    return v if pos else v ^ ONE


def one_bit(b):
    if TOP in b:
        raise NotLinear("a condition on an unknown bit")
    nz = [x for x in b if x]
    if not nz:
        return 0
    if len(nz) == 1:
        return nz[0]
    if ONE in nz:
        return ONE
    raise NotLinear("a condition on several bits")


def apply(m, v):
    """m: rows as masks (row i gives new bit i)."""
    r = 0
    for i, row in enumerate(m):
        r |= (bin(row & v).count("1") & 1) << i
    return r


def mul(a, b):
    """rows of a.b"""
    out = []
    for row in a:
        r = 0
        i = 0
        while row:
            if row & 1:
                r ^= b[i]
            row >>= 1
            i += 1
        out.append(r)
    return out


def power(m, n):
    r = [1 << i for i in range(len(m))]
    while n:
        if n & 1:
            r = mul(r, m)
        m = mul(m, m)
        n >>= 1
    return r


STEP = [1 << (i + 1) for i in range(63)] + [1 << 0 | 1 << 1 | 1 << 3 | 1 << 4]
FACTORS = (3, 5, 17, 257, 641, 65537, 6700417)


@rule("U01")
def lfsr(A, R):
    # the polynomial's register runs through all values but zero
    n = 2**64 - 1
    ident = [1 << i for i in range(64)]
    prod = 1
    for f in FACTORS:
        prod *= f
    if prod != n or power(STEP, n) != ident or any(power(STEP, n // f) == ident for f in FACTORS):
        raise Broken("the reference register does not have full period")
    R.ok("the register x^64 + x^4 + x^3 + x + 1 has period 2^64 - 1 (algebra of the reference)")
    s = sym("s")
    seed = [1 << i for i in range(64)] + [1 << i for i in range(64, W)]
    for steps in (0, 1, 2, 3, 30):
        code = "async def test(s):\n    r = LFSR_64(s)\n    for _ in range(%d):\n        r.step()\n    hook('value', r.rand)\n    hook('again', r.rand)\n" % steps
        what = "after %d steps from any seed" % steps
        rs = client(R, what, code, "s")
        want = power(STEP, steps)
        for r in rs or ():
            ev = [e for e in r.events if e.tag in ("value", "again")]
            if r.raised or len(ev) != 2:
                R.bad(what, r.tell(), r.loc())
                continue
            witness = refute(s, r, ev, steps)
            if witness:
                R.bad(what + " the value is that of the polynomial", witness, r.loc())
                continue
            try:
                memo = {}
                rel = [bit_of_cond((a, v), s, memo, seed) ^ ONE for a, v in r.conds if s in set(walk(a))]
                base = reduce_basis(rel)
                if base is None:
                    continue
                for e in ev:
                    b = bits_of(e.args[0], s, memo, seed)
                    if TOP in b:
                        raise NotLinear("bit %d of %s" % (b.index(TOP), show(e.args[0])[:80]))
                    bad = [i for i in range(W) if reduced(b[i] ^ (want[i] if i < 64 else 0), base)]
                    R.check("the register keeps 64 bits", not any(i >= 64 for i in bad), "%s bits from 64 on can be set: %s" % (what, show(e.args[0])[:300]), r.loc())
                    R.check(what + " the value is that of the polynomial", not any(i < 64 for i in bad), "bits %s of the value differ: %s" % (bad[:8], show(e.args[0])[:300]), r.loc())
            except NotLinear as x:
                R.undecided(what, "not a linear register: %s" % x)
    rs = client(R, "default seed", "async def test():\n    r = LFSR_64()\n    hook('value', r.rand)\n", "")
    for r in rs or ():
        v = r.find("value")
        R.check("the default seed is not zero", bool(v) and v[0].args[0].op == "const" and cval(v[0].args[0]) != 0, r.tell(), r.loc())


def refute(s, r, ev, steps):
    """A seed for which the value is wrong: the term found for all seeds, at some of them."""
    for v in WITNESSES:
        memo = {}
        try:
            if not all(holds((a, pos), s, v, memo) for a, pos in r.conds if s in set(walk(a))):
                continue
            want = v % 2**64
            for _ in range(steps):
                want = apply(STEP, want)
            for e in ev:
                got = evaluate(e.args[0], s, v, memo)
                if got != want:
                    return "seed %#x gives %#x, not %#x: %s" % (v, got, want, show(e.args[0])[:300])
        except NotLinear:
            return None


def reduce_basis(rel):
    """Basis (top bit -> vector) of relations that are zero on this path; None if contradictory."""
    base = []
    for v in rel:
        v = reduced(v, base)
        if v == ONE:
            return None
        if v:
            p = v & ~ONE
            p = p & -p
            base = [(q, w ^ v if w & p else w) for q, w in base] + [(p, v)]
    return base


def reduced(v, base):
    for p, w in base:
        if v & p:
            v ^= w
    return v


# ------------------------------------------------------------------ pseudo LRU


@rule("U02")
def plru(A, R):
    for n in (2, 4, 8):
        layers = n.bit_length() - 1
        paths, chosen, after = {}, {}, {}
        for w in range(n):
            code = "async def test():\n    p = PLRU(%d)\n    any_bits(p)\n    a = bits(p)\n    hook('first', p.get())\n    p.update(%d)\n    hook('bits', a, bits(p))\n    hook('next', p.get())\n    hook('next', p.get())\n" % (n, w)
            what = "%d ways: any state, way %d is used" % (n, w)
            rs = client(R, what, code)
            changed, seen = set(), {}
            for r in rs or ():
                if not fine(R, what, r):
                    continue
                f, b, g = r.find("first"), r.find("bits")[0].args, r.find("next")
                ways = [x.args[0] for x in f + g]
                if any(x.op != "const" for x in ways):
                    R.undecided(what, "way %s" % [show(x) for x in ways])
                    continue
                ways = [cval(x) for x in ways]
                R.check("%d ways: the way chosen is a valid way" % n, all(isinstance(x, int) and 0 <= x < n for x in ways), "ways chosen: %s" % ways, r.loc())
                R.check("%d ways: the way used last is not chosen" % n, ways[1] != w and ways[2] != w, "way %d was used and is chosen; bits before %s, after %s" % (w, show(b[0]), show(b[1])), r.loc())
                R.check("%d ways: choosing changes nothing" % n, ways[1] == ways[2], "asked twice: %s" % ways[1:], r.loc())
                pre, post = b[0].a, b[1].a
                chosen.setdefault(ways[0], set()).add(pre)
                after.setdefault(w, set()).add(post)
                if len(pre) != len(post):
                    R.undecided("%d ways: bits changed" % n, "%d bits become %d" % (len(pre), len(post)))
                    continue
                for i, (x, y) in enumerate(zip(pre, post)):
                    if x is not y:
                        changed.add(i)
                    if seen.setdefault(i, y) is not y:
                        seen[i] = None
            if rs:
                paths[w] = changed
        if not paths or not any(paths.values()):
            R.undecided("%d ways: bits changed" % n, "the state is not kept as numbers in containers")
            continue
        # the path of a way: the bits that have one value only in all states in which it is chosen
        for w in range(n):
            st = list(chosen.get(w, ()))
            if not st or len({len(x) for x in st}) > 1:
                R.check("%d ways: each way is chosen in some state" % n, bool(st), "way %d is never chosen" % w)
                continue
            path = {i: st[0][i] for i in range(len(st[0])) if all(x[i] is st[0][i] for x in st)}
            R.check("%d ways: using a way changes only the bits on its path" % n, paths.get(w, set()) <= set(path),
                    "using way %d changes bits %s, those on its path are %s" % (w, sorted(paths.get(w, ())), sorted(path)))
            R.check("%d ways: using a way turns the bits on its path away from it" % n, all(x[i] is not v for x in after.get(w, ()) for i, v in path.items()),
                    "after using way %d some bit on its path %s still points to it" % (w, sorted(path)))
    for n in (2, 4, 8, 16, 32):
        code = """
async def test():
    for a in range(%d):
        for b in range(%d):
            p = PLRU(%d)
            f = p.get()
            p.update(b)
            p.update(a)
            hook('next', a, b, f, p.get())
""" % (n, min(n, 8), n)
        what = "%d ways: ways used one after another" % n

        def judge(r):
            got = [tuple(cval(x) if x.op == "const" else None for x in e.args) for e in r.find("next")]
            if len(got) != n * min(n, 8):
                return "%d of %d histories" % (len(got), n * min(n, 8))
            if any(None in x for x in got):
                return Und("values are not known")
            for a, b, f, g in got:
                if f not in range(n) or g not in range(n):
                    return "way %s chosen of %d after using %d, %d" % (g, n, b, a)
                if g == a:
                    return "way %d was used last and is chosen" % a

        scenario(R, what, code, "", judge)


# ------------------------------------------------------------------ two-bit counter


@rule("U03")
def counter(A, R):
    # get_prediction tells the upper half: all histories up to the counter's diameter separate its states
    for k in range(4):
        for seq in itertools.chain(*(itertools.product((0, 1, 2), repeat=m) for m in range(0, 7 if R.deep else 5))):
            if len([x for x in seq if x == 2]) > 2 or (len(seq) >= 4 and 2 in seq):
                continue
            code = "async def test(%s):\n    c = TwoBitsCounter(%d)\n    hook('p', c.get_prediction())\n" % (", ".join("t%d" % i for i in range(len(seq))) or "z", k)
            for i, x in enumerate(seq):
                code += "    c.update(%s)\n    hook('p', c.get_prediction())\n" % ("False", "True", "t%d" % i)[x]

            def judge(r):
                c = k
                want = [c > 1]
                for i, x in enumerate(seq):
                    if x == 2:
                        x = r.known(mk("truth", sym("t%d" % i)))
                        if x is None:
                            return "the update does not depend on its argument"
                    c = min(3, c + 1) if x else max(0, c - 1)
                    want.append(c > 1)
                got = [e.args[0] for e in r.find("p")]
                if [g.op == "const" and bool(cval(g)) for g in got] != want:
                    return "from %d the predictions are %s" % (k, [show(g) for g in got])

            scenario(R, "from %d, updates %s" % (k, " ".join(("down", "up", "any")[x] for x in seq) or "none"), code, ", ".join("t%d" % i for i in range(len(seq))) or "z", judge)
    scenario(R, "a new counter predicts taken weakly", "async def test():\n    c = TwoBitsCounter()\n    hook('p', c.get_prediction())\n    c.update(False)\n    hook('p', c.get_prediction())\n", "",
             lambda r: None if [show(e.args[0]) in ("1", "True") for e in r.find("p")] == [True, False] else "it predicts %s" % [show(e.args[0]) for e in r.find("p")])
