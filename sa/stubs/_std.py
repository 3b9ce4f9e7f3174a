"""Parts of the standard library, for arguments whose members are known."""

class _none:
    pass


def reduce(f, it, start=_none):
    it = iter(it)
    if start is _none:
        for x in it:
            start = x
            break
        else:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        start = f(start, x)
    return start


def islice(it, *a):
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi, step = a[0] or 0, a[1], (a[2] or 1) if len(a) > 2 else 1
    if hi is not None and hi <= lo:
        return
    n = 0
    nxt = lo
    for x in it:
        if n == nxt:
            yield x
            nxt += step
        n += 1
        if hi is not None and n >= hi:
            return


def product(*its, repeat=1):
    res = [()]
    for it in [list(i) for i in its] * repeat:
        res = [r + (x,) for r in res for x in it]
    return iter(res)


def accumulate(it, func=None, *, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total


def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def dropwhile(f, it):
    on = False
    for x in it:
        if not on and f(x):
            continue
        on = True
        yield x


def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x


def starmap(f, it):
    for x in it:
        yield f(*x)


def compress(it, sel):
    for x, s in zip(it, sel):
        if s:
            yield x


def pairwise(it):
    last = _none
    for x in it:
        if last is not _none:
            yield (last, x)
        last = x


def zip_longest(*its, fillvalue=None):
    its = [list(i) for i in its]
    n = 0
    for i in its:
        if len(i) > n:
            n = len(i)
    return iter([tuple([i[k] if k < len(i) else fillvalue for i in its]) for k in range(n)])


def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(g)) for k, g in out])


def combinations(it, n):
    it = list(it)
    if n == 0:
        return iter([()])
    return iter([(it[i],) + c for i in range(len(it)) for c in combinations(it[i + 1 :], n - 1)])


def permutations(it, n=None):
    it = list(it)
    if n is None:
        n = len(it)
    if n == 0:
        return iter([()])
    return iter([(it[i],) + c for i in range(len(it)) for c in permutations(it[:i] + it[i + 1 :], n - 1)])


def repeat(x, n):
    return iter([x] * n)


def tee(it, n=2):
    it = list(it)
    return tuple([iter(list(it)) for _ in range(n)])


def heappush(h, x):
    i = 0
    while i < len(h) and not x < h[i]:
        i += 1
    h.insert(i, x)


def heappop(h):
    return h.pop(0)


def heapify(h):
    h.sort()


def heappushpop(h, x):
    heappush(h, x)
    return h.pop(0)


def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]


def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi and (a[lo] if key is None else key(a[lo])) < x:
        lo += 1
    return lo


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi and not x < (a[lo] if key is None else key(a[lo])):
        lo += 1
    return lo


def insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


def insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def extreme(it, key, default, more):
    best = _none
    for x in it:
        k = x if key is None else key(x)
        if best is _none or (bk < k if more else k < bk):
            best, bk = x, k
    if best is _none:
        if default is _none:
            raise ValueError("empty iterable")
        return default
    return best


def maximum(*a, key=None, default=_none):
    return extreme(a[0] if len(a) == 1 else a, key, default, True)


def minimum(*a, key=None, default=_none):
    return extreme(a[0] if len(a) == 1 else a, key, default, False)


def itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: o[ks[0]]
    return lambda o: tuple([o[k] for k in ks])


def path(o, n):
    for p in n.split("."):
        o = getattr(o, p)
    return o


def attrgetter(*ns):
    if len(ns) == 1:
        return lambda o: path(o, ns[0])
    return lambda o: tuple([path(o, n) for n in ns])


def methodcaller(n, *a, **k):
    return lambda o: getattr(o, n)(*a, **k)


def count(it=(), **kw):
    d = {}
    if isinstance(it, dict):
        d.update(it)
    else:
        for x in it:
            d[x] = d.get(x, 0) + 1
    for k, v in kw.items():
        d[k] = d.get(k, 0) + v
    return d


def getmembers(x, predicate=None):
    r = []
    for n in dir(x):
        try:
            v = getattr(x, n)
        except AttributeError:
            continue
        if predicate is None or predicate(v):
            r.append((n, v))
    return r


def deepcopy(x):
    if isinstance(x, dict):
        return {deepcopy(k): deepcopy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deepcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple([deepcopy(v) for v in x])
    if isinstance(x, set):
        return {deepcopy(v) for v in x}
    return x


class namespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps)

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return iter(d)

    def items(self):
        return [(k, self[k]) for k in self]


class ExitStack:
    def __init__(self):
        self.calls = []

    def callback(self, f, *a, **k):
        self.calls.append((f, a, k, True))
        return f

    def push(self, f):
        self.calls.append((f, (), {}, False))
        return f

    def enter_context(self, m):
        r = m.__enter__()
        self.calls.append((m.__exit__, (), {}, False))
        return r

    def __enter__(self):
        return self

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, *exc):
        quiet = False
        while self.calls:
            f, a, k, plain = self.calls.pop()
            if plain:
                f(*a, **k)
            elif f(*exc):
                exc = (None, None, None)
                quiet = True
        return quiet


class Plain:
    pass


def total(it, start=0):
    for x in it:
        start = start + x
    return start


class Record:
    def _asdict(self):
        return {n: getattr(self, n) for n in self._fields}

    def __iter__(self):
        return iter([getattr(self, n) for n in self._fields])

    def __len__(self):
        return len(self._fields)

    def __getitem__(self, i):
        return tuple(self)[i]

    def __eq__(self, other):
        return tuple(self) == tuple(other)

    def __lt__(self, other):
        return tuple(self) < tuple(other)

    def __contains__(self, x):
        return x in tuple(self)

    def index(self, x):
        return list(self).index(x)

    def count(self, x):
        return list(self).count(x)

    def _replace(self, **kw):
        d = self._asdict()
        d.update(kw)
        return type(self)(**d)
