"""What is assumed about Python's builtins and the standard library."""

import builtins as _b

from . import lazy
from . import misuse
from . import std
from .state import *
from .terms import *

BUILTINS = set(dir(_b))

EXC_BASES = {}
for _n in dir(_b):
    _c = getattr(_b, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        EXC_BASES[_n] = [x.__name__ for x in _c.__mro__ if x is not object]
EXC_BASES["asyncio.CancelledError"] = ["asyncio.CancelledError", "BaseException"]
EXC_BASES["asyncio.QueueEmpty"] = ["asyncio.QueueEmpty", "Exception", "BaseException"]
EXC_BASES["asyncio.QueueFull"] = ["asyncio.QueueFull", "Exception", "BaseException"]
EXC_BASES["queue.Empty"] = ["queue.Empty", "Exception", "BaseException"]
EXC_BASES["re.error"] = ["re.error", "Exception", "BaseException"]


BUILTIN_TYPES = {"int", "str", "float", "bool", "bytes", "complex", "NoneType", "tuple", "list", "dict", "set", "frozenset", "object", "type"}


def is_exception_name(n):
    return n in EXC_BASES


def ext_subclass(n, d):
    if n == d or d == "object":
        return True
    if n in EXC_BASES and d in EXC_BASES:
        return d in EXC_BASES[n]
    if n in EXC_BASES or d in EXC_BASES:
        return None if "." in n or "." in d else False
    if n in ("int", "str", "list", "dict", "tuple", "set", "float", "bool") and d in (
        "int", "str", "list", "dict", "tuple", "set", "float", "bool"):
        return n == "bool" and d == "int"
    if (n, d) == ("collections.OrderedDict", "dict"):
        return True
    return None


MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard",
    "setdefault", "sort", "reverse", "popitem", "put_nowait", "popleft", "appendleft",
}

PURE_METHODS = {
    "startswith", "endswith", "replace", "split", "rsplit", "strip", "lstrip", "rstrip",
    "lower", "upper", "join", "format", "find", "count", "title", "partition", "rpartition",
    "encode", "decode", "isdigit", "isidentifier", "removeprefix", "removesuffix", "splitlines",
    "groups", "group", "match", "search", "fullmatch", "finditer", "findall", "sub",
    "W", "IsOutIO", "IsInIO", "IsBiIO", "GetKeys", "union", "intersection", "difference",
    "isalpha", "isalnum", "zfill", "bind", "span", "start", "end", "issubset", "capitalize",
}
STATE_METHODS = {
    "qsize", "empty", "full", "is_set", "done", "cancelled", "get_name", "result", "index",
    "get_nowait_", "copy", "S", "U", "items", "keys", "values", "locked", "__len__",
}
PURE_EXT = {
    "len", "str", "int", "bool", "float", "repr", "abs", "min", "max", "sum", "any", "all", "hash",
    "isinstance", "issubclass", "callable", "type", "id", "bin", "hex", "chr", "ord", "round", "oct",
    "divmod", "pow", "dir", "getattr", "format", "tuple", "frozenset", "zip", "range", "slice",
    "math.ceil", "math.log2", "math.floor", "math.log", "math.sqrt", "vars", "complex", "bytes",
    "inspect.signature", "inspect.iscoroutinefunction", "inspect.iscoroutine", "inspect.isawaitable",
    "inspect.getsourcefile", "inspect.getsourcelines", "inspect.stack", "inspect.currentframe",
    "inspect.isfunction", "inspect.ismethod", "inspect.isclass", "inspect.isasyncgenfunction",
    "os.path.abspath", "os.path.join", "os.path.basename", "os.path.dirname", "os.path.exists",
    "os.path.realpath", "os.path.normpath",
    "re.compile", "re.match", "re.search", "re.fullmatch", "re.escape", "re.findall", "re.sub", "re.split",
    "fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.filter", "fnmatch.translate", "json.dumps", "json.loads",
    "logging.getLogger", "operator.itemgetter", "operator.attrgetter", "asyncio.iscoroutine",
    "asyncio.iscoroutinefunction", "textwrap.dedent", "copy.copy", "copy.deepcopy",
    "logging.Formatter", "typing.cast",
}
STATE_EXT = {"asyncio.all_tasks", "asyncio.current_task", "asyncio.get_event_loop", "asyncio.get_running_loop"}
SINGLETONS = {"asyncio.get_event_loop", "asyncio.get_running_loop"}
QUIET_EXT = {"print", "setattr"}

# methods of the standard library that never give control to code of the package
QUIET_METHODS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault",
    "sort", "set", "set_name", "get_nowait", "put_nowait", "AsImmWrite", "AsRiseWrite", "AsFallWrite",
    "AsVPIWriteForce", "AsVPIWriteRelease", "AsVPIWriteNoDelay", "SetIgnoreSameDataWrite", "write", "close",
    "setLevel", "setFormatter", "addHandler", "removeHandler", "cancel", "set_exception_handler",
    "apply_defaults", "popleft", "put", "get",
}


def is_pure(f, args):
    if f.op == "ext":
        n = f.a[0]
        if n in PURE_EXT:
            return "pure"
        if n in STATE_EXT:
            return "state"
        if is_exception_name(n):
            return "pure"
        return None
    if f.op in ("attr", "bm"):
        n = f.a[1]
        if n in PURE_METHODS:
            return "pure"
        if n in STATE_METHODS:
            return "state"
    return None


# functions outside the package whose calls are visible events or arbitrary data
TOLD = {"print", "copy.deepcopy", "copy.copy", "id", "hash", "repr", "object"}
TOLD_MODULES = ("random", "inspect", "json", "time", "datetime", "os", "sys", "logging", "traceback", "warnings", "gc", "signal", "checker")


def unknown_library(f):
    """A call of a library function whose result would have to be known."""
    while f.op in ("attr", "bm", "call", "bound") and isinstance(f.a[0], T):
        f = f.a[0]
    if f.op == "ext":
        return not (f.a[0] in TOLD or f.a[0].split(".")[0] in TOLD_MODULES or is_exception_name(f.a[0]))
    return f.op in ("const", "tuple", "fmt", "binary")


def quiet_call(f):
    if f.op == "ext":
        return f.a[0] in QUIET_EXT or f.a[0].startswith("logging.")
    if f.op in ("attr", "bm"):
        return f.a[1] in QUIET_METHODS
    if f.op == "bound" and f.a[0].op == "ext":
        return True
    return False


# ------------------------------------------------------------------ dicts


def dict_lookup(I, st, data, k):
    """[(st, value or None)] for the entries, last one first."""
    outs = []
    live = [st]
    for en in reversed(data):
        nxt = []
        for s in live:
            if en.op == "kv":
                if en.a[1] is NOVAL_T:
                    c = I.eq_cond(s, k, en.a[0])
                    for s2, b in I.fork(s, c):
                        if b:
                            outs.append((s2, None))
                        else:
                            nxt.append(s2)
                    continue
                for s2, b in I.fork(s, I.eq_cond(s, k, en.a[0])):
                    if b:
                        outs.append((s2, en.a[1]))
                    else:
                        nxt.append(s2)
            elif en.op == "merge":
                src = en.a[0]
                if src.op == "dictof":
                    for s2, v in dict_lookup(I, s, src.a[0], k):
                        if v is None:
                            nxt.append(s2)
                        else:
                            outs.append((s2, v))
                    continue
                for s2, b in I.fork(s, (mk("in", I.snap(s, k), src), True)):
                    if b:
                        outs.append((s2, mkitem(src, k)))
                    else:
                        nxt.append(s2)
            elif en.op == "each":
                src, e, i, alts = en.a
                v = each_lookup(I, s, en, k)
                if v is not None:
                    # assumed present: the key is the key of this element
                    outs.append((s, v))
                    continue
                c = (mk("in", I.snap(s, k), mk("dictof", (en,))), True)
                for s2, b in I.fork(s, c):
                    if b:
                        outs.append((s2, mk("item", mk("dictof", (en,)), k)))
                    else:
                        nxt.append(s2)
            else:
                c = (mk("in", I.snap(s, k), mk("dictof", (en,))), True)
                for s2, b in I.fork(s, c):
                    if b:
                        outs.append((s2, mk("item", mk("dictof", (en,)), k)))
                    else:
                        nxt.append(s2)
        live = nxt
    outs.extend((s, None) for s in live)
    return outs


def each_lookup(I, st, en, k):
    """Value for key k in a comprehension {K(e): V(e) for e in src} if k is K(e') for some e'."""
    src, e, i, alts = en.a
    if len(alts) != 1 or alts[0][0] or len(alts[0][1]) != 1 or alts[0][1][0].op != "kv":
        return None
    kk, vv = alts[0][1][0].a
    if kk is k:
        return vv
    # element of the same source at another depth
    if kk is e:
        if k.op == "elem" and k.a[0] is src:
            return subst(vv, {e: k, i: mk("idx", src, k.a[1])})
        # K is the identity: the value for k is V(k), if k is in src
        if st.known_atom(mk("in", k, src)):
            return subst(vv, {e: k})
    return None


def dict_get(I, st, b, k, default):
    """[(st, v)]; default None: KeyError."""
    data = st.obj(b).data
    outs = []
    for s, v in dict_lookup(I, st, data, k):
        if v is None:
            if default is None:
                I.raise_ext(s, "KeyError", k)
                outs.append((s, None))
            else:
                outs.append((s, default))
        else:
            outs.append((s, v))
    return outs


def dict_set(I, st, b, k, v):
    o = st.own(b)
    data = list(o.data)
    for j, en in enumerate(data):
        if en.op == "kv" and I.eq_cond(st, en.a[0], k) is True:
            if not any(
                x.op != "kv" or I.eq_cond(st, x.a[0], k) is not False for x in data[j + 1 :]
            ):
                data[j] = mk("kv", k, v)
                o.data = tuple(data)
                return
    data.append(mk("kv", k, v))
    o.data = tuple(data)


def dict_del(I, st, b, k):
    o = st.own(b)
    data = list(o.data)
    exact = [j for j, en in enumerate(data) if en.op == "kv" and I.eq_cond(st, en.a[0], k) is True]
    for j in reversed(exact):
        del data[j]
    if any(en.op != "kv" or I.eq_cond(st, en.a[0], k) is not False for en in data):
        data.append(mk("kv", k, NOVAL_T))
    o.data = tuple(data)


NOVAL_T = mk("novalue")


def dict_update(I, st, d, v, quiet=False):
    o = st.own(d)
    if v.op == "ref" and st.obj(v).kind == "dict":
        for en in st.obj(v).data:
            if en.op == "kv":
                dict_set(I, st, d, en.a[0], en.a[1])
            else:
                o2 = st.own(d)
                o2.data = o2.data + (en,)
    elif v.op == "ref" and st.obj(v).kind in ("list", "gen"):
        for sg in st.obj(v).data:
            kv = pairs_to_kv(sg)
            if kv.op == "kv" and I.opts.closed:
                dict_set(I, st, d, *kv.a)
                continue
            o2 = st.own(d)
            o2.data = o2.data + (kv,)
    else:
        o.data = o.data + (mk("merge", I.versioned(st, v)),)
    if not quiet:
        st.emit("update", (d, I.snap(st, v)), I.loc)
    return [st]


def pairs_to_kv(sg):
    if sg.op == "one":
        if sg.a[0].op == "tuple" and len(sg.a[0].a) == 2:
            return mk("kv", *sg.a[0].a)
        return mk("kv", mk("item", sg.a[0], const(0)), mk("item", sg.a[0], const(1)))
    if sg.op == "each":
        src, e, i, alts = sg.a
        return mk("each", src, e, i, tuple((c, tuple(pairs_to_kv(x) for x in inner)) for c, inner in alts))
    if sg.op == "all":
        return mk("merge", mk("pairs", sg.a[0]))
    return sg


# ------------------------------------------------------------------ lists


def list_get(I, st, b, k):
    d = st.obj(b).data
    if all(x.op == "one" for x in d) and k.op == "const" and isinstance(cval(k), int):
        if -len(d) <= cval(k) < len(d):
            return [(st, d[cval(k)].a[0])]
        I.raise_ext(st, "IndexError", k)
        return [(st, None)]
    if len(d) == 1:
        sg = d[0]
        if sg.op == "all":
            return [(st, I.item_read(st, sg.a[0], k))]
        if sg.op == "each":
            src, e, i, alts = sg.a
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "one":
                v = alts[0][1][0].a[0]
                if k is i:
                    return [(st, v)]
                if k.op == "idx" and k.a[0] is src:
                    return [(st, subst(v, {e: mk("elem", src, k.a[1]), i: k}))]
                if v.op != "ref":
                    if k.op == "const" or True:
                        return [(st, subst(v, {i: k, e: I.item_read(st, src, k)}))]
    if k.op == "const" and isinstance(cval(k), int):
        n = cval(k)
        if n >= 0:
            pre = d[: n + 1]
            if len(pre) == n + 1 and all(x.op == "one" for x in pre):
                return [(st, pre[n].a[0])]
        else:
            post = d[n:]
            if len(post) == -n and all(x.op == "one" for x in post):
                return [(st, post[0].a[0])]
    return [(st, mk("item", I.snap(st, b), k))]


def list_set(I, st, b, k, v):
    o = st.own(b)
    d = o.data
    if k.op == "sliceobj":
        lo, hi, step = k.a
        if lo is NONE and hi is NONE and step is NONE:
            o.data = tuple(I.segs_of(st, v))
            return
        vs = std.members(st, v)
        if vs is not None and all(x.op == "one" for x in d) and all(x.op == "const" for x in k.a):
            l = list(d)
            try:
                l[slice(*[cval(x) for x in k.a])] = [one(x) for x in vs]
            except ValueError:
                I.raise_ext(st, "ValueError", k)
                return
            o.data = tuple(l)
            return
    elif k.op == "const" and all(x.op == "one" for x in d) and isinstance(cval(k), int) and -len(d) <= cval(k) < len(d):
        l = list(d)
        l[cval(k)] = one(v)
        o.data = tuple(l)
        return
    o.data = (mk("all", mk("upd", I.snap(st, b), k, v)),)


def seq_len(I, st, segs):
    """Length of the segments as a term."""
    total = const(0)
    for s in segs:
        if s.op in ("one", "kv"):
            n = const(1)
        elif s.op in ("all", "merge"):
            n = length(I, st, s.a[0])
        elif s.op == "each":
            src, e, i, alts = s.a
            if len(alts) == 1 and not alts[0][0]:
                inner = seq_len(I, st, alts[0][1])
                if inner.op == "const":
                    n = mkbin("*", src_len(I, st, src), inner)
                else:
                    n = mk("call", ext("len"), (mk("seq", (s,)),), (), ())
            else:
                n = mk("call", ext("len"), (mk("seq", (s,)),), (), ())
        elif s.op == "rep":
            n = mkbin("*", seq_len(I, st, s.a[0]), s.a[1])
        else:
            n = mk("call", ext("len"), (mk("seq", (s,)),), (), ())
        total = mkbin("+", total, n)
    return total


def src_len(I, st, src):
    if src.op == "range":
        return mkbin("-", src.a[1], src.a[0])
    return length(I, st, src)


def dict_inst(I, st, v):
    """Is v the __dict__ of an object of which everything is known?"""
    return v.op == "attr" and v.a[1] == "__dict__" and I.opts.closed and v.a[0].op == "ref" and st.obj(v.a[0]).kind == "inst"


def inst_dict(I, st, v):
    """The present contents of obj.__dict__, as a dictionary."""
    if not dict_inst(I, st, v):
        return None
    at = st.obj(v.a[0]).attrs
    return I.new_dict(st, [mk("kv", const(k), x) for k, x in at.items() if isinstance(k, str) and x is not NOVAL])


def length(I, st, v):
    d = inst_dict(I, st, v)
    if d is not None:
        v = d
    if v.op == "tuple":
        return const(len(v.a))
    if v.op == "const" and isinstance(cval(v), (str, bytes)):
        return const(len(cval(v)))
    if v.op == "ref" and st.obj(v).kind in ("list", "set", "gen", "dict"):
        segs = st.obj(v).data
        if st.obj(v).kind != "set" or len(segs) <= 1:
            return seq_len(I, st, segs)
        if I.opts.closed and all(x.op == "one" for x in segs):
            n = 0
            for i, x in enumerate(segs):
                cs = [I.eq_cond(st, x.a[0], y.a[0]) for y in segs[:i]]
                if any(c is True for c in cs):
                    continue
                if all(c is False for c in cs):
                    n += 1
                    continue
                break
            else:
                return const(n)
        return mk("call", ext("len"), (I.snap(st, v),), (), ())
    if v.op in ("keys", "values", "items"):
        return length(I, st, v.a[0])
    if v.op == "seq":
        return seq_len(I, st, v.a[0])
    if v.op == "ver":
        return mk("call", ext("len"), (v,), (), ())
    n = st.cnt.get(("#content", v), 0)
    return mk("call", ext("len"), (mk("ver", v, n) if n else v,), (), ())


# ------------------------------------------------------------ text formats


def percent_format(I, st, x, y):
    s = cval(x)
    args = list(y.a) if y.op == "tuple" else [y]
    parts = []
    j = 0
    lit = ""
    while j < len(s):
        c = s[j]
        if c == "%" and j + 1 < len(s):
            n = s[j + 1]
            if n == "%":
                lit += "%"
                j += 2
                continue
            if n in "sdi":
                if not args:
                    return None
                parts.append(const(lit))
                lit = ""
                parts.append(args.pop(0))
                j += 2
                continue
            return None
        lit += c
        j += 1
    parts.append(const(lit))
    if args:
        return None
    return mkfmt([shown(I, st, p) for p in parts])


def shown(I, st, p):
    """What stands for the value in a text."""
    if p.op == "keys" and p.a[0].op == "ref" and st.obj(p.a[0]).kind == "dict":
        segs = st.obj(p.a[0]).data
        if all(g.op == "kv" and g.a[0].op == "const" for g in segs):
            return const("dict_keys(%r)" % [cval(g.a[0]) for g in segs])
    return p if p.op != "ref" else I.snap(st, p)


def format_call(I, st, s, args, kw):
    import string

    try:
        fields = list(string.Formatter().parse(s))
    except ValueError:
        return None
    parts = []
    n = 0
    kw = dict(kw)
    for lit, name, spec, conv in fields:
        parts.append(const(lit))
        if name is None:
            continue
        if spec or conv:
            return None
        if name == "":
            if n >= len(args):
                return None
            parts.append(args[n])
            n += 1
        elif name.isdigit():
            if int(name) >= len(args):
                return None
            parts.append(args[int(name)])
        elif name in kw:
            parts.append(kw[name])
        else:
            return None
    return mkfmt([p if p.op != "ref" else I.snap(st, p) for p in parts])


def fmt_differ(x, y):
    """Two texts that differ in fixed parts only."""
    a, b = list(x.a), list(y.a)
    while a and b and a[0] is b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] is b[-1]:
        a, b = a[:-1], b[:-1]
    return a != b and all(p.op == "const" and isinstance(cval(p), str) for p in a + b)


def fmt_eq_const(x, s):
    """fmt == constant string: False when the fixed parts cannot fit."""
    parts = x.a
    if parts[0].op == "const" and not s.startswith(cval(parts[0])):
        return False
    if parts[-1].op == "const" and not s.endswith(cval(parts[-1])):
        return False
    fixed = sum(len(cval(p)) for p in parts if p.op == "const")
    if fixed > len(s):
        return False
    return None


# ---------------------------------------------------------------- builtins


def lam_term(I, st, f):
    """Canonical form of a one-argument function: its result on a bound variable."""
    if f is NONE:
        return NONE
    if f.op == "call" and f.a[0].op == "ext" and f.a[0].a[0] == "operator.itemgetter" and len(f.a[1]) == 1:
        return mk("lam", mkitem(mk("bv", 50), f.a[1][0]))
    if f.op == "call" and f.a[0].op == "ext" and f.a[0].a[0] == "operator.attrgetter" and f.a[1][0].op == "const":
        return mk("lam", mk("attr", mk("bv", 50), cval(f.a[1][0])))
    s = st.copy()
    try:
        outs = I.call(s, f, [mk("bv", 50)], [])
    except RecursionError:
        return f
    if len(outs) == 1 and outs[0][0].exc is None:
        return mk("lam", I.snap(outs[0][0], outs[0][1]))
    return mk("lamx", f if f.op != "ref" else const("?"))


def signature(I, st, f):
    """inspect.signature of a function of the program."""
    skip = 0
    while f.op in ("bound", "static", "classm"):
        if f.op == "bound":
            skip += 1
        f = f.a[0]
    n = 0
    while f.op == "ref" and st.obj(f).kind == "func" and "__wrapped__" in st.obj(f).attrs and n < 9:
        f = st.obj(f).attrs["__wrapped__"]
        n += 1
    if not (f.op == "ref" and st.obj(f).kind == "func"):
        return None
    fi, _, dv, kws, _ = st.obj(f).data
    a = fi.args
    ps = []
    pos = a.posonlyargs + a.args
    for i, x in enumerate(pos):
        di = i - (len(pos) - len(dv))
        ps.append((x.arg, 0 if i < len(a.posonlyargs) else 1, dv[di] if di >= 0 else None))
    if a.vararg is not None:
        ps.append((a.vararg.arg, 2, None))
    for x, d in zip(a.kwonlyargs, kws):
        ps.append((x.arg, 3, d))
    if a.kwarg is not None:
        ps.append((a.kwarg.arg, 4, None))
    ps = ps[skip:]
    segs = [mk("one", tup(const(n_), const(k), TRUE if d is not None else FALSE, d if d is not None else NONE)) for n_, k, d in ps]
    cls = I.modules["_signature"]
    c = I.base[cls.a[0]].attrs["Signature"]
    return I.call(st, c, [I.new_list(st, segs)], [])


def const_sort(I, st, segs, key, rev):
    """The elements in order, if all their keys are known."""
    if any(x.op != "one" for x in segs) or rev not in (TRUE, FALSE):
        return None
    ks = []
    for x in segs:
        k = x.a[0]
        if key is not NONE:
            mark = st.eff
            try:
                outs = I.call(st.copy(), key, [k], [])
            except RecursionError:
                return None
            if len(outs) != 1 or outs[0][0].exc is not None or outs[0][0].eff is not mark:
                return None
            k = outs[0][1]
        k = const_key(k)
        if k is None:
            return None
        ks.append(k[0])
    try:
        order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=rev is TRUE)
    except TypeError:
        return None
    return tuple(segs[i] for i in order)


def const_key(k):
    if k.op == "const":
        return (cval(k),)
    if k.op == "tuple":
        xs = [const_key(x) for x in k.a]
        if all(x is not None for x in xs):
            return (tuple(x[0] for x in xs),)
    return None


def bool_quant(I, st, v, is_all, test=None):
    """any(v) / all(v): condition."""
    if test is None and lazy.is_lazy(st, v):
        return lazy.quant(I, st, v, is_all)
    segs = None
    live = [st]
    outs = []
    r = []
    for s0, sg in I.iterate(st, v):
        if s0.exc is not None:
            r.append((s0, None))
            continue
        live = [s0]
        for g in sg:
            nxt = []
            for s in live:
                if g.op in ("one",):
                    for s2, b in I.truth(s, g.a[0]):
                        if b is None:
                            r.append((s2, None))
                        elif b == is_all:
                            nxt.append(s2)
                        else:
                            r.append((s2, const(not is_all)))
                    continue
                if g.op == "each":
                    def t(s1, x):
                        res = []
                        for s2, b in I.truth(s1, x):
                            res.append((s2, const(b != is_all)))
                        return res

                    c = I.each_exists(s, g, t)
                else:
                    src = g.a[0]
                    e = mk("elem", src, 0)
                    tc = I.truth_cond(s, e)
                    if tc is None or tc is True or tc is False:
                        tc = (mk("truth", e), True)
                    if is_all:
                        tc = neg(tc)
                    c = I.exists_cond(src, e, [[tc]])
                # c: some element decides the result
                if c is True or c is False:
                    if c:
                        r.append((s, const(not is_all)))
                    else:
                        nxt.append(s)
                    continue
                if len(sg) == 1:
                    k = s.known(c)
                    if k is not None:
                        r.append((s, const(not is_all if k else is_all)))
                    else:
                        r.append((s, mk("quant", neg(c) if is_all else c)))
                    continue
                for s2, b in I.fork(s, c):
                    if b:
                        r.append((s2, const(not is_all)))
                    else:
                        nxt.append(s2)
            live = nxt
        r.extend((s, const(is_all)) for s in live)
    return r


def isinstance_(I, st, x, c):
    if c.op == "tuple":
        live, r = [st], []
        for t in c.a:
            nxt = []
            for s in live:
                for s2, b in I.fork(s, I.isinst_cond(s, x, t)):
                    if b:
                        r.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            live = nxt
        return r + [(s, FALSE) for s in live]
    if c.op == "ext" and c.a[0] in ("typing.Callable", "collections.abc.Callable"):
        return callable_(I, st, x)
    cd = I.isinst_cond(st, x, c)
    if cd is True or cd is False:
        return [(st, const(cd))]
    k = st.known(cd)
    if k is not None:
        return [(st, const(k))]
    return [(st, mk("cmp", "isinstance", x, c, cd))]


def callable_(I, st, x):
    if x.op in ("bound", "ext", "bm", "partial"):
        return [(st, TRUE)]
    if x.op in ("const", "tuple", "fmt", "enum"):
        return [(st, FALSE)]
    if x.op == "ref":
        o = st.obj(x)
        if o.kind in ("func", "class"):
            return [(st, TRUE)]
        if o.kind == "inst":
            return [(st, const(I.class_attr(st, o.data, "__call__") is not None))]
        return [(st, FALSE)]
    t = st.types.get(x)
    if t is not None and t.op == "ref":
        return [(st, const(I.class_attr(st, t, "__call__") is not None))]
    c = (mk("callable", x), True)
    k = st.known(c)
    return [(st, const(k))] if k is not None else [(st, mk("cmp", "callable", x, NONE, c))]


def hasattr_(I, st, x, n):
    cls = I.class_of(st, x)
    if cls is not None and n.op == "const":
        ga = I.class_attr(st, cls, "__getattribute__")
        p = I.class_attr(st, cls, cval(n))
        g2 = I.class_attr(st, cls, "__getattr__") if p is None and x.op == "ref" and cval(n) not in st.obj(x).attrs else None
        if (ga is not None and ga.op == "ref") or (p is not None and p.op in ("prop", "cprop")) or (g2 is not None and g2.op == "ref"):
            r = []
            for s, v in I.getattr(st, x, cval(n)):
                if s.exc is not None:
                    m = I.exc_match(s.exc, ext("AttributeError"))
                    if m:
                        s.exc = None
                        r.append((s, FALSE))
                    else:
                        r.append((s, None))
                else:
                    r.append((s, TRUE))
            return r
    c = I.hasattr_cond(st, x, n)
    if c is True or c is False:
        return [(st, const(c))]
    if c is None:
        c = (mk("has", x, cval(n) if n.op == "const" else n), True)
    k = st.known(c)
    return [(st, const(k))] if k is not None else [(st, mk("cmp", "hasattr", x, n, c))]


def getattr_(I, st, args):
    b, n = args[0], args[1]
    if len(args) == 2:
        return I.dyn_getattr(st, b, n)
    # with a default
    if n.op == "const":
        r = []
        for s, h in hasattr_(I, st, b, n):
            if s.exc is not None:
                r.append((s, None))
                continue
            for s2, t in I.truth(s, h):
                if t:
                    r.extend(I.dyn_getattr(s2, b, n))
                else:
                    r.append((s2, args[2]))
        return r
    v = st.over.get((b, n))
    if v is not None and v is not NOVAL:
        return [(st, v)]
    return [(st, mk("dattr", b, n, args[2]))]


def spawn(I, st, coro, args=(), kw=()):
    desc = coro_desc(I, st, coro)
    n = st.cnt.get(("task", desc), 0)
    st.cnt[("task", desc)] = n + 1
    d = mk("task", desc, n) if n else mk("task", desc)
    alts = ()
    t = I.new_ref(st, Obj("task", {}, d))
    body = None
    if I.opts.tasks and coro.op == "ref" and st.obj(coro).kind == "coro":
        st.emit("spawn", (d, coro, ()), I.loc)
        if I.opts.tasks == "lazy":
            st.own(t).attrs["__coro__"] = coro
            return [(st, t)]
        return run_task(I, st, t, coro, d)
    if coro.op == "ref" and st.obj(coro).kind == "coro" and I.opts.spawn_bodies:
        f, fr, fi, a, k = st.obj(coro).data
        if not I.recursive(fi):
            s = st.copy()
            mark, pm = s.eff, s.path
            ndiv = len(I.div)
            try:
                outs = I.run_body(s, f, fi, fr, list(a), list(k))
                alts = []
                for o, v in outs:
                    alts.append(Alt(tuple(o.decisions(pm)), o.effects(mark), EXC_ if o.exc is not None else "end", {"value": v, "exc": o.exc}, o))
                for o in I.div[ndiv:]:
                    alts.append(Alt(tuple(o.decisions(pm)), o.effects(mark), "div", {}, o))
            finally:
                del I.div[ndiv:]
            alts = tuple(alts)
    st.emit("spawn", (d, coro, alts), I.loc)
    return [(st, t)]


def sched_spawn(I, st, coro):
    if not (coro.op == "ref" and st.obj(coro).kind == "coro"):
        return spawn(I, st, coro)
    desc = coro_desc(I, st, coro)
    n = st.cnt.get(("task", desc), 0)
    st.cnt[("task", desc)] = n + 1
    d = mk("task", desc, n) if n else mk("task", desc)
    t = I.new_ref(st, Obj("task", {"__coro__": coro}, d))
    st.emit("spawn", (d, coro, ()), I.loc)
    st.pend = st.pend + (t,)
    return [(st, t)]


def sched_run(I, st):
    """Let the tasks that have not started run, in the order of their creation."""
    todo = [st]
    res = []
    while todo:
        s = todo.pop()
        if not s.pend:
            res.append(s)
            continue
        t = s.pend[0]
        s.pend = s.pend[1:]
        o = s.obj(t)
        coro = o.attrs.get("__coro__")
        if coro is None:
            todo.append(s)
            continue
        s.own(t).attrs.pop("__coro__")
        saved, I.stack = I.stack, []
        ndiv = len(I.div)
        pre = s.copy()
        try:
            outs = run_task(I, s, t, coro, o.data)
        finally:
            I.stack = saved
        if outs:
            # executions that come back to a state they have been in add nothing
            del I.div[ndiv:]
        else:
            # a task that never ends: its effects are kept apart
            alts = tuple(Alt(tuple(x.decisions(pre.path)), x.effects(pre.eff), "div", {}, x) for x in I.div[ndiv:])
            del I.div[ndiv:]
            pre.emit("spawn", (o.data, coro, alts), I.loc)
            todo.append(pre)
            continue
        todo.extend(x for x, _ in outs)
    return res


def sched_ready(I, st, what):
    """The current task waits: the others run."""
    st.emit("suspend", (what,), I.loc)
    I.havoc(st)
    return [(s, NONE) for s in sched_run(I, st)]


def sched_suspend(I, st, what):
    """Nothing wakes the current task yet: the others run, then the idle function of the entry point."""
    I.havoc(st)
    res = []
    for s in sched_run(I, st):
        idle = I.opts.idle
        f = I.harness_frame.get(idle) if idle else None
        if f is None or s.cnt.get("#idle"):
            res.append((s, NONE))
            continue
        s.cnt["#idle"] = 1
        saved, I.stack = I.stack, []
        try:
            for s2, c in I.call(s, f, [what], []):
                if s2.exc is not None:
                    s2.cnt["#idle"] = 0
                    res.append((s2, None))
                    continue
                for s3, _ in I.await_(s2, c):
                    s3.cnt["#idle"] = 0
                    if s3.exc is not None:
                        res.append((s3, None))
                        continue
                    res.extend((x, NONE) for x in sched_run(I, s3))
        finally:
            I.stack = saved
    return res


def run_task(I, st, t, coro, d):
    """The whole body of the task now; its result is kept in the task."""
    f, fr, fi, a, k = st.obj(coro).data
    st.emit("taskstart", (d,), I.loc)
    res = []
    for s, v in I.run_body(st, f, fi, fr, list(a), list(k)):
        s.emit("taskend", (d,), I.loc)
        o = s.own(t)
        o.attrs.pop("__coro__", None)
        if s.exc is not None:
            o.attrs["__exc__"] = s.exc
            s.emit("taskfail", (d, s.exc), I.loc)
            s.exc = None
        else:
            o.attrs["__result__"] = v
        for s2 in done_callbacks(I, s, t):
            res.append((s2, t))
    return res


def done_callbacks(I, st, t):
    cbs = st.obj(t).attrs.get("__done")
    out = [st]
    for cb in cbs.a if cbs is not None else ():
        nxt = []
        for s in out:
            for s2, _ in I.call(s, cb, [t], []):
                s2.exc = None
                nxt.append(s2)
        out = nxt
    return out


EXC_ = "exc"


def coro_desc(I, st, coro):
    if coro.op == "ref":
        o = st.obj(coro)
        if o.kind == "coro":
            f, fr, fi, a, k = o.data
            return mk("coro", fi.qual, tuple(I.snap(st, x) for x in a), tuple((n, I.snap(st, v)) for n, v in k))
        if o.kind == "task":
            return o.data
    return coro


def cells(st, r, seen=None):
    """(container, index) of the small numbers kept in the lists and dictionaries below an object."""
    seen = set() if seen is None else seen
    if r.op == "tuple":
        return [c for x in r.a for c in cells(st, x, seen)]
    if r.op != "ref" or r in seen:
        return []
    seen.add(r)
    o = st.obj(r)
    out = []
    if o.kind == "inst":
        for k in o.attrs:
            if isinstance(o.attrs[k], T):
                out += cells(st, o.attrs[k], seen)
    elif o.kind in ("list", "dict"):
        for i, g in enumerate(o.data):
            v = g.a[0] if g.op == "one" else g.a[1] if o.kind == "dict" and len(g.a) > 1 else None
            if not isinstance(v, T):
                continue
            if v.op == "const" and cval(v) in (0, 1):
                out.append((r, i))
            else:
                out += cells(st, v, seen)
    return out


def strings(args):
    r = []
    for x in args:
        if x.op != "const" or not isinstance(cval(x), str):
            return None
        r.append(cval(x))
    return r


def regex(I, st, n, args):
    """Regular expressions on known strings; None if they are not known."""
    import fnmatch
    import re

    if n in ("fnmatch.fnmatch", "fnmatch.fnmatchcase") and len(args) == 2 and strings(args):
        return [(st, const(getattr(fnmatch, n[8:])(*strings(args))))]
    if n == "fnmatch.filter" and len(args) == 2 and strings(args[1:]) and args[0].op == "ref" and st.obj(args[0]).kind == "list":
        segs = st.obj(args[0]).data
        if all(g.op == "one" for g in segs) and strings([g.a[0] for g in segs]) is not None:
            l = fnmatch.filter(strings([g.a[0] for g in segs]), cval(args[1]))
            return [(st, I.new_list(st, [mk("one", const(x)) for x in l]))]
    if n == "fnmatch.translate" and len(args) == 1 and strings(args):
        return [(st, const(fnmatch.translate(*strings(args))))]
    pat = None
    if args:
        pat = cval(args[0].a[0]) if args[0].op == "repat" else (strings(args[:1]) or [None])[0]
    if pat is None:
        return None
    try:
        c = re.compile(pat)
    except re.error:
        I.raise_ext(st, "re.error", const(pat))
        return [(st, None)]
    if n == "re.compile" and len(args) == 1:
        return [(st, mk("repat", const(pat)))]
    if n in ("re.match", "re.search", "re.fullmatch") and len(args) == 2 and strings(args[1:]):
        m = getattr(c, n[3:])(cval(args[1]))
        return [(st, NONE if m is None else mk("rematch", const(n[3:]), const(pat), args[1]))]
    if n == "re.sub" and len(args) == 3 and strings(args[1:]):
        return [(st, const(c.sub(*strings(args[1:]))))]
    if n in ("re.findall", "re.split") and len(args) == 2 and strings(args[1:]):
        l = getattr(c, n[3:])(cval(args[1]))
        return [(st, I.new_list(st, [mk("one", tup(*[const(y) for y in x]) if isinstance(x, tuple) else const(x)) for x in l]))]
    if n == "re.escape" and strings(args):
        return [(st, const(re.escape(cval(args[0]))))]
    return None


def match_method(I, st, b, m, args):
    import re

    if b.op == "repat":
        if m in ("match", "search", "fullmatch", "sub", "findall", "split"):
            return regex(I, st, "re." + m, [b] + list(args))
        return None
    v = getattr(re.compile(cval(b.a[1])), cval(b.a[0]))(cval(b.a[2]))
    if m not in ("group", "groups", "start", "end", "span") or any(x.op != "const" for x in args):
        return None
    r = getattr(v, m)(*[cval(x) for x in args])
    return [(st, mk("tuple", *[const(x) for x in r]) if isinstance(r, tuple) else const(r))]


CONSUMERS = {"sum", "sorted", "min", "max", "list", "tuple", "set", "frozenset", "dict", "collections.deque", "reversed", "zip", "enumerate"}


def variant(I, st, f, flag):
    """The function with a decorator that the analysis knows."""
    import copy

    o = st.obj(f)
    fi = copy.copy(o.data[0])
    setattr(fi, flag, True)
    return I.new_ref(st, Obj("func", dict(o.attrs, **({"__cache": I.new_dict(st)} if flag == "is_memo" else {})), (fi,) + tuple(o.data[1:]), o.extra))


def memo(I, st, f, ob, args, kw):
    """A call of a function decorated with functools.cache."""
    if any(st.kind(a) in ("list", "dict", "set") for a in list(args) + [v for _, v in kw]):
        I.raise_ext(st, "TypeError", f)
        return [(st, None)]
    key = tup(tup(*args), tup(*[tup(const(k), v) for k, v in kw]))
    cache = ob.attrs["__cache"]
    r = []
    for s, v in dict_get(I, st, cache, key, NOVAL_T):
        if v is not NOVAL_T:
            r.append((s, v))
            continue
        fi = ob.data[0]
        fi.is_memo = False
        try:
            outs = I.call_func(s, f, ob, args, kw)
        finally:
            fi.is_memo = True
        for s2, w in outs:
            if s2.exc is None:
                dict_set(I, s2, cache, key, w)
            r.append((s2, w))
    return r


def dataclass(I, st, c):
    import ast

    o = st.obj(c)
    fields = []
    for b in reversed(o.data["mro"][1:]):
        if b.op == "ref":
            for x in st.obj(b).data.get("fields", ()):
                fields = [y for y in fields if y[0] != x[0]] + [x]
    for b in o.data["node"].body:
        if not (isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)) or "ClassVar" in ast.dump(b.annotation):
            continue
        n, v = b.target.id, o.attrs.get(b.target.id)
        default, factory, init = v, None, True
        if v is not None and v.op == "call" and v.a[0] is ext("dataclasses.field"):
            k = dict(v.a[2])
            default, factory, init = k.get("default"), k.get("default_factory"), k.get("init", TRUE) is not FALSE
            if default is None:
                st.own(c).attrs.pop(n, None)
            else:
                st.own(c).attrs[n] = default
        x = (n, default, factory, init)
        at = next((i for i, y in enumerate(fields) if y[0] == n), None)
        if at is None:
            fields.append(x)
        else:
            fields[at] = x
    st.own(c).data = dict(st.obj(c).data, fields=fields)


def call_ext(I, st, f, args, kw):
    n = f.a[0]
    na = len(args)
    if I.opts.closed and (n in CONSUMERS or n.startswith(("itertools.", "functools.", "collections.", "heapq.", "bisect."))) and any(lazy.is_lazy(st, a) for a in args):
        r = []
        for s in lazy.force_all(I, st, args):
            r.extend([(s, None)] if s.exc is not None else call_ext(I, s, f, args, kw))
        return r
    if I.opts.closed:
        r = std.call(I, st, f, n, args, kw)
        if r is not None:
            return r
    if n.startswith(("re.", "fnmatch.")) and not kw:
        r = regex(I, st, n, args)
        if r is not None:
            return r
    if n == "checker.any_bits":
        # every assignment of 0 and 1 to the numbers that the object keeps in containers
        live = [st]
        for r, i in cells(st, args[0]):
            nxt = []
            for s in live:
                for b in (0, 1):
                    s2 = s.copy()
                    o = s2.own(r)
                    g = o.data[i]
                    a = list(g.a)
                    a[0 if g.op == "one" else 1] = const(b)
                    o.data = o.data[:i] + (mk(g.op, *a),) + o.data[i + 1 :]
                    nxt.append(s2)
            live = nxt
            if len(live) > 4096:
                from .interp import TooComplex

                raise TooComplex("%d states of an object" % len(live))
        return [(s, NONE) for s in live]
    if n == "checker.bits":
        out = []
        for r, i in cells(st, args[0]):
            g = st.obj(r).data[i]
            out.append(g.a[0 if g.op == "one" else 1])
        return [(st, mk("tuple", *out))]
    bad = misuse.builtin(I, st, n, args, kw)
    if bad:
        I.raise_ext(st, bad)
        return [(st, None)]
    kwd = {k: v for k, v in kw if k is not None}
    star = any(a.op == "star" for a in args) or any(k is None for k, _ in kw)
    if star and n not in ("asyncio.gather", "print", "zip", "max", "min", "dict"):
        return I.opaque(st, f, args, kw)
    if n == "len" and na == 1:
        v = args[0]
        cls = I.class_of(st, v)
        if cls is not None:
            m = I.class_attr(st, cls, "__len__")
            if m is not None and m.op == "ref":
                return I.call(st, mk("bound", m, v), [], [])
        return [(st, length(I, st, v))]
    if n == "isinstance" and na == 2:
        return isinstance_(I, st, args[0], args[1])
    if n == "issubclass" and na == 2:
        r = I.base.subclass(args[0], args[1]) if args[1].op != "tuple" else None
        if r is not None:
            return [(st, const(r))]
        return [(st, mk("cmp", "issubclass", args[0], args[1], (mk("issub", args[0], args[1]), True)))]
    if n == "callable" and na == 1:
        return callable_(I, st, args[0])
    if n == "hasattr" and na == 2:
        return hasattr_(I, st, args[0], args[1])
    if n == "getattr" and na in (2, 3):
        return getattr_(I, st, args)
    if n == "setattr" and na == 3:
        return [(s, NONE) for s in I.dyn_setattr(st, args[0], args[1], args[2])]
    if n in ("object.__setattr__",) and na == 3:
        return set_raw(I, st, args[0], args[1], args[2])
    if n == "delattr" and na == 2:
        I.delattr(st, args[0], args[1])
        return [(st, NONE)]
    if n in ("list", "tuple", "set", "frozenset", "iter", "collections.deque", "reversed"):
        if na == 0:
            if n == "tuple":
                return [(st, tup())]
            d = I.new_list(st, (), "set" if "set" in n else "list")
            if n == "collections.deque":
                st.own(d).attrs["__deque"] = TRUE
            if n == "collections.deque" and kwd.get("maxlen", NONE) is not NONE:
                st.own(d).attrs["__maxlen"] = kwd["maxlen"]
            return [(st, d)]
        r = []
        if n == "iter":
            if args[0].op == "ref" and st.obj(args[0]).kind == "lazy":
                return [(st, args[0])]
            if I.opts.closed and not (args[0].op == "ref" and st.obj(args[0]).kind == "gen"):
                for s, segs in I.iterate(st, args[0]):
                    if s.exc is not None:
                        r.append((s, None))
                    elif all(x.op == "one" for x in segs):
                        r.append((s, I.new_list(s, segs, "gen")))
                    else:
                        r.append((s, mk("iter", args[0])))
                return r
            return [(st, mk("iter", args[0]))] if not (args[0].op == "ref" and st.obj(args[0]).kind == "gen") else [(st, args[0])]
        for s, segs in I.iterate(st, args[0]):
            if s.exc is not None:
                r.append((s, None))
            elif n == "tuple":
                if all(x.op == "one" for x in segs):
                    r.append((s, tup(*[x.a[0] for x in segs])))
                elif len(segs) == 1 and segs[0].op == "all":
                    r.append((s, segs[0].a[0]))
                else:
                    r.append((s, I.new_list(s, segs)))
            elif n == "reversed":
                if all(x.op == "one" for x in segs):
                    r.append((s, I.new_list(s, tuple(reversed(segs)))))
                else:
                    src = segs[0].a[0] if len(segs) == 1 and segs[0].op == "all" else mk("seq", tuple(segs))
                    r.append((s, I.new_list(s, (mk("all", mk("reversed", src)),))))
            else:
                d = I.new_list(s, segs if "set" not in n else no_doubles(I, s, segs), "set" if "set" in n else "list")
                if n == "collections.deque":
                    s.own(d).attrs["__deque"] = TRUE
                    bound = args[1] if na > 1 else kwd.get("maxlen", NONE)
                    if bound is not NONE:
                        s.own(d).attrs["__maxlen"] = bound
                        trim(I, s, d)
                r.append((s, d))
        return r
    if n in ("dict.fromkeys", "collections.OrderedDict.fromkeys") and 1 <= na <= 2 and not kw:
        r = []
        for s, segs in I.iterate(st, args[0]):
            if s.exc is not None:
                r.append((s, None))
            elif all(x.op == "one" for x in segs):
                d = I.new_dict(s)
                for x in segs:
                    dict_set(I, s, d, x.a[0], args[1] if na > 1 else NONE)
                r.append((s, d))
            else:
                return I.opaque(st, f, args, kw)
        return r
    if n in ("dict", "collections.OrderedDict", "collections.defaultdict"):
        d = I.new_dict(st)
        if n == "collections.defaultdict":
            if args and args[0] is not NONE and I.opts.closed:
                st.own(d).attrs.update({"__factory": args[0], "__keep": TRUE})
            args = args[1:]
        cur = [st]
        for a in args:
            a = a.a[0].a[0] if a.op == "star" and a.a[0].op == "all" else a
            if a.op == "call" or a.op == "zip":
                pass
            if a.op in ("items",):
                a = a.a[0]
            cur = [y for x in cur for y in dict_update(I, x, d, a, quiet=True)]
        for k, v in kw:
            for x in cur:
                if k is None:
                    dict_update(I, x, d, v, quiet=True)
                else:
                    dict_set(I, x, d, const(k), v)
        return [(x, d) for x in cur]
    if n == "range" and 1 <= na <= 3:
        if na == 1:
            return [(st, mk("range", const(0), args[0]))]
        if na == 3 and args[2] is not const(1):
            return [(st, mk("range", *args))]
        return [(st, mk("range", args[0], args[1]))]
    if n == "enumerate":
        start = args[1] if na > 1 else kwd.get("start", const(0))
        r = []
        for s, segs in I.iterate(st, args[0]):
            if s.exc is not None:
                r.append((s, None))
                continue
            out = []
            cnt = start
            ok = True
            for g in segs:
                if g.op == "one":
                    out.append(one(tup(cnt, g.a[0])))
                    cnt = mkbin("+", cnt, const(1))
                elif g.op == "all":
                    src = g.a[0]
                    e, i = mk("elem", src, 0), mk("idx", src, 0)
                    out.append(mk("each", src, e, i, (((), (one(tup(mkbin("+", cnt, i), e)),)),)))
                    cnt = mkbin("+", cnt, length(I, s, src))
                elif g.op == "each" and len(g.a[3]) == 1 and not g.a[3][0][0] and len(g.a[3][0][1]) == 1 and g.a[3][0][1][0].op == "one":
                    src, e, i, alts = g.a
                    out.append(mk("each", src, e, i, (((), (one(tup(mkbin("+", cnt, i), alts[0][1][0].a[0])),)),)))
                    cnt = mkbin("+", cnt, src_len(I, s, src))
                else:
                    src = mk("seq", (g,))
                    e, i = mk("elem", src, 0), mk("idx", src, 0)
                    out.append(mk("each", src, e, i, (((), (one(tup(mkbin("+", cnt, i), e)),)),)))
                    cnt = mkbin("+", cnt, length(I, s, src))
            r.append((s, I.new_list(s, out, "gen")))
        return r
    if n == "zip" and na >= 1 and not star:
        segl = []
        cur = [(st, [])]
        for a in args:
            cur = [(s2, l + [sg]) for s, l in cur for s2, sg in I.iterate(s, a)]
        r = []
        for s, l in cur:
            if s.exc is not None:
                r.append((s, None))
                continue
            if all(all(x.op == "one" for x in sg) for sg in l):
                r.append((s, I.new_list(s, [one(tup(*[x.a[0] for x in z])) for z in zip(*l)], "gen")))
                continue
            # walk along the first argument, the others are indexed
            srcs = [zip_src(sg) for sg in l]
            if all(x is not None for x in srcs):
                src = srcs[0][0]
                e, i = mk("elem", src, 0), mk("idx", src, 0)
                vals = []
                for (z, fn) in srcs:
                    vals.append(fn(e, i) if z is src else fn(mk("item", z, i), i))
                r.append((s, I.new_list(s, [mk("each", src, e, i, (((), (one(tup(*vals)),)),))], "gen")))
                continue
            r.append((s, mk("zip", *[mk("seq", tuple(sg)) for sg in l])))
        return r
    if n in ("any", "all") and na == 1:
        return bool_quant(I, st, args[0], n == "all")
    if n == "sum" and na in (1, 2):
        if args[0].op == "ref" and all(x.op == "one" for x in st.obj(args[0]).data):
            t = const(0) if na == 1 else args[1]
            for x in st.obj(args[0]).data:
                t = mkbin("+", t, x.a[0])
            return [(st, t)]
        r = []
        for s, segs in I.iterate(st, args[0]):
            if s.exc is not None:
                r.append((s, None))
                continue
            r.append((s, mk("sum", tuple(I.snap_seg(s, x) for x in segs))))
        return r
    if n == "sorted" and na == 1:
        key = kwd.get("key", NONE)
        rev = kwd.get("reverse", FALSE)
        if args[0].op == "ref" and st.obj(args[0]).kind in ("list", "gen", "set") and len(st.obj(args[0]).data) <= 1 and all(x.op == "one" for x in st.obj(args[0]).data):
            return [(st, I.new_list(st, st.obj(args[0]).data))]
        r = []
        for s, segs in I.iterate(st, args[0]):
            if s.exc is not None:
                r.append((s, None))
                continue
            cs = const_sort(I, s, segs, key, rev)
            if cs is not None:
                r.append((s, I.new_list(s, cs)))
                continue
            t = mk("sorted", src_of(I, s, segs), lam_term(I, s, key), rev)
            r.append((s, I.new_list(s, (mk("all", t),))))
        return r
    if n in ("map", "filter") and na == 2 and I.opts.closed:
        return lazy_map(I, st, n, args)
    if n in ("map", "filter") and na == 2:
        out = I.new_list(st, (), "gen")

        def body(x, v):
            outs = []
            for s2, w in (I.call(x, args[0], [v], []) if args[0] is not NONE else [(x, v)]):
                if s2.exc is not None:
                    outs.append((s2, "exc", None))
                    continue
                if n == "map":
                    o = s2.own(out)
                    o.data = o.data + (one(w),)
                    outs.append((s2, None, None))
                else:
                    for s3, b in I.truth(s2, w):
                        if b:
                            o = s3.own(out)
                            o.data = o.data + (one(v),)
                        outs.append((s3, None, None))
            return outs

        r = []
        for s, segs in I.iterate(st, args[1]):
            if s.exc is not None:
                r.append((s, None))
                continue
            for o in I.loop_segs(s, segs, body):
                r.append((o[0], out if o[1] is None else None))
        return r
    if n == "next" and na in (1, 2):
        return next_(I, st, args)
    if n in ("str", "repr") and na == 1:
        v = args[0]
        if v.op == "const" and n == "str":
            return [(st, const(str(cval(v))))]
        if v.op == "fmt" and n == "str":
            return [(st, v)]
        if v.op == "exc" or n == "repr":
            return [(st, mk("call", f, (I.snap(st, v),), (), ()))]
        cls = I.class_of(st, v)
        if cls is not None:
            m = I.class_attr(st, cls, "__str__")
            if m is not None and m.op == "ref":
                return I.call(st, mk("bound", m, v), [], [])
        return [(st, mkfmt((I.snap(st, v),)))]
    if n == "str" and na == 0:
        return [(st, const(""))]
    if n in ("int", "float") and na == 1 and args[0].op == "const":
        try:
            return [(st, const({"int": int, "float": float}[n](cval(args[0]))))]
        except Exception:
            I.raise_ext(st, "ValueError", args[0])
            return [(st, None)]
    if n == "int" and na == 1 and args[0].op == "cmp":
        return [(s, const(int(b))) for s, b in I.truth(st, args[0])]
    if n == "int" and I.opts.parse_errors:
        t = mk("call", f, tuple(args), (), ())
        s2 = st.copy()
        I.raise_ext(s2, "ValueError", args[0])
        r = []
        a = mk("parses", args[0])
        if st.assume((a, True)):
            r.append((st, t))
        s2.exc, e = None, s2.exc
        if s2.assume((a, True), False):
            s2.exc = e
            r.append((s2, None))
        return r
    if n == "bool" and na == 1:
        c = I.truth_cond(st, args[0])
        if c is True or c is False:
            return [(st, const(c))]
        if c is None:
            return [(s, const(b)) for s, b in I.truth(st, args[0])]
        k = st.known(c)
        return [(st, const(k) if k is not None else mk("quant", c))]
    if n == "type" and na == 1:
        v = args[0]
        if v.op == "ref" and st.obj(v).kind == "inst":
            return [(st, st.obj(v).data)]
        if v.op == "const":
            return [(st, ext(type(cval(v)).__name__))]
        if v.op == "ref" and st.obj(v).kind in ("list", "dict", "set"):
            return [(st, ext(st.obj(v).kind))]
        if v.op == "exc" and v.a[0].op in ("ext", "ref"):
            return [(st, v.a[0])]
        k = {"tuple": "tuple", "fmt": "str", "bound": "types.MethodType"}.get(v.op)
        if v.op == "ref":
            k = {"func": "types.FunctionType", "lazy": "types.GeneratorType", "gen": "types.GeneratorType", "coro": "types.CoroutineType"}.get(st.obj(v).kind)
        if k:
            return [(st, ext(k))]
        return [(st, mk("typeof", v))]
    if n == "dir" and na == 1 and I.opts.closed and args[0].op == "ref" and st.obj(args[0]).kind == "inst":
        ob = st.obj(args[0])
        names = {k for k, v in ob.attrs.items() if v is not NOVAL and isinstance(k, str)}
        for c in st.obj(ob.data).data["mro"] if ob.data.op == "ref" else ():
            if c.op == "ref":
                names.update(k for k in st.obj(c).attrs if isinstance(k, str))
        names.add("__class__")
        return [(st, I.new_list(st, [mk("one", const(x)) for x in sorted(names)]))]
    if n == "vars" and na == 1:
        return I.getattr(st, args[0], "__dict__")
    if n in ("min", "max") and na >= 2 and not kw and not star:
        return minmax(I, st, n, args)
    if n == "abs" and na == 1 and args[0].op == "const":
        return [(st, const(abs(cval(args[0]))))]
    if n in ("hex", "bin", "oct", "chr", "ord", "round", "pow", "ascii") and na and not kw and not star and all(
        a.op == "const" and type(cval(a)) in (int, str, float, bool) for a in args
    ):
        try:
            return [(st, const(getattr(_b, n)(*[cval(a) for a in args])))]
        except (TypeError, ValueError, OverflowError, ZeroDivisionError) as x:
            st.exc = mk("exc", ext(type(x).__name__), ())
            return [(st, None)]
    if n == "bin" and na == 1 and not kw and not star and args[0].op == "bin":
        return [(st, mk("binary", args[0]))]
    if n in ("math.ceil", "math.log2", "math.floor") and na == 1 and args[0].op == "const":
        import math

        return [(st, const(getattr(math, n.split(".")[1])(cval(args[0]))))]
    if n == "property":
        return [(st, mk("prop", args[0] if na else kwd.get("fget", NONE), args[1] if na > 1 else kwd.get("fset", NONE)))]
    if n == "staticmethod":
        return [(st, mk("static", args[0]))]
    if n == "classmethod":
        return [(st, mk("classm", args[0]))]
    if n == "functools.wraps":
        return [(st, mk("wraps", args[0]))]
    if n == "functools.partial":
        return [(st, mk("partial", args[0], tuple(args[1:]), tuple(kw)))]
    if n in ("functools.cached_property",):
        return [(st, mk("cprop", args[0], NONE))]
    if n in ("contextlib.contextmanager", "contextlib.asynccontextmanager") and na == 1 and st.kind(args[0]) == "func" and st.obj(args[0]).data[0].is_gen:
        return [(st, variant(I, st, args[0], "is_ctx"))]
    if n in ("functools.lru_cache", "functools.cache"):
        if na == 1 and st.kind(args[0]) == "func":
            return [(st, variant(I, st, args[0], "is_memo"))]
        return [(st, mk("partial", ext("functools.cache"), (), ()))]
    if n in ("typing.overload", "typing.final", "typing.no_type_check", "typing.override"):
        if na == 1 and (args[0].op == "ref"):
            return [(st, args[0])]
        return [(st, mk("partial", ext("typing.cast"), (NONE,), ()))]
    if n == "typing.cast" and na == 2:
        return [(st, args[1])]
    if n == "dataclasses.dataclass":
        if na and st.kind(args[0]) == "class":
            dataclass(I, st, args[0])
            return [(st, args[0])]
        return [(st, mk("partial", ext("dataclasses.dataclass"), (), ()))]
    if n == "dataclasses.field" and not na:
        return [(st, mk("call", f, (), tuple(kw), ()))]
    if n == "contextlib.suppress":
        return [(st, mk("call", f, tuple(args), (), ()))]
    if n in ("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction") and na == 1:
        g = args[0]
        while g.op == "bound":
            g = g.a[0]
        if g.op == "ref" and st.obj(g).kind == "func":
            return [(st, TRUE if st.obj(g).data[0].is_async else FALSE)]
        if g.op == "ref" and st.obj(g).kind in ("class", "inst"):
            return [(st, FALSE)]
    if n in ("inspect.iscoroutine", "asyncio.iscoroutine", "inspect.isawaitable") and na == 1:
        g = args[0]
        if g.op == "ref" and st.obj(g).kind == "coro":
            return [(st, TRUE)]
        if g.op == "ref" and st.obj(g).kind in ("class", "func"):
            return [(st, FALSE)]
    if n == "inspect.signature" and na == 1 and "_signature" in getattr(I, "modules", {}):
        r = signature(I, st, args[0])
        if r is not None:
            return r
    if n == "_sched.create_task":
        return sched_spawn(I, st, args[0] if na else kwd.get("coro", NONE))
    if n == "_sched.suspend":
        return [(st, mk("schedsuspend", args[0]))]
    if n == "_sched.ready":
        return [(st, mk("schedready", args[0]))]
    if n == "_sched.stuck":
        st.emit("stuck", tuple(args), I.loc)
        return [(st, NONE)]
    if n in ("asyncio.create_task", "asyncio.ensure_future"):
        return spawn(I, st, args[0] if na else kwd.get("coro", NONE))
    if n in SINGLETONS:
        return [(st, mk("call", ext("asyncio.get_event_loop"), (), (), ()))]
    if n in ("typing.TypeVar", "typing.NewType", "collections.namedtuple"):
        return [(st, mk("call", f, (), (), ()))]
    if n == "copy.copy" and na == 1:
        v = args[0]
        if v.op == "ref":
            o = st.obj(v)
            if o.kind in ("list", "set", "dict", "inst"):
                return [(st, I.new_ref(st, Obj(o.kind, dict(o.attrs), o.data, o.extra)))]
        k = st.cnt.get(("copy", v), 0)
        st.cnt[("copy", v)] = k + 1
        t = mk("copy", v, k)
        if v in st.types:
            st.types[t] = st.types[v]
        # attributes of the copy start as those of the original
        return [(st, t)]
    if n == "itertools.chain" and not star:
        segs = []
        cur = [(st, [])]
        for a in args:
            cur = [(s2, l + list(sg)) for s, l in cur for s2, sg in I.iterate(s, a)]
        return [(s, I.new_list(s, l, "gen")) for s, l in cur]
    if n == "itertools.count":
        return [(st, mk("count", args[0] if na else const(0)))]
    if n == "itertools.repeat":
        if na == 2:
            src = mk("range", const(0), args[1])
            return [(st, I.new_list(st, [mk("each", src, mk("elem", src, 0), mk("idx", src, 0), (((), (one(args[0]),)),))], "gen"))]
    if n == "itertools.chain.from_iterable":
        return flatten_iter(I, st, args[0])
    if n == "id":
        return [(st, mk("id", args[0]))]
    if n.startswith("enum.auto"):
        return [(st, const(("auto", I.loc[1])))]
    if n.startswith("asyncio.") and n.split(".")[1] in ("Event", "Queue", "Lock", "Semaphore", "Condition") and n.count(".") == 1:
        i = I.new_ref(st, Obj("inst", {}, f))
        st.emit("new", (i, f), I.loc)
        return [(st, i)]
    if n in ("queue.Queue", "queue.SimpleQueue", "threading.Lock"):
        k = st.cnt.get(("newext", n), 0)
        st.cnt[("newext", n)] = k + 1
        return [(st, mk("call", f, tuple(args), tuple(kw), ("new", k)))]
    if is_exception_name(n):
        return [(st, mk("exc", f, tuple(args)))]
    # a method of an external base class called with an explicit self
    if n.split(".")[-1] == "__init__" and na >= 1:
        return call_bound_ext(I, st, mk("bound", f, args[0]), n, args[0], args[1:], kw)
    if n in ("object.__init__",):
        return [(st, NONE)]
    return I.opaque(st, f, args, kw)


def flatten_iter(I, st, v):
    """itertools.chain.from_iterable"""
    out = I.new_list(st, (), "gen")
    r = []
    for s, segs in I.iterate(st, v):
        if s.exc is not None:
            r.append((s, None))
            continue

        def body(x, w):
            q = []
            for y, inner in I.iterate(x, w):
                if y.exc is not None:
                    q.append((y, "exc", None))
                    continue
                ob = y.own(out)
                ob.data = ob.data + tuple(inner)
                q.append((y, None, None))
            return q

        for s2, ctl, _ in I.loop_segs(s, segs, body):
            r.append((s2, out if ctl is None else None))
    return r


def zip_src(sg):
    if len(sg) != 1:
        return None
    g = sg[0]
    if g.op == "all":
        return (g.a[0], lambda e, i: e)
    if g.op == "each":
        src, e0, i0, alts = g.a
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "one":
            v = alts[0][1][0].a[0]
            return (src, lambda e, i: subst(v, {e0: e, i0: i}))
    return None


def src_of(I, st, segs):
    if len(segs) == 1 and segs[0].op == "all":
        return segs[0].a[0]
    return mk("seq", tuple(I.snap_seg(st, x) for x in segs))


def minmax(I, st, n, args):
    cs = [a for a in args if a.op == "const" and is_num(cval(a))]
    vs = [a for a in args if not (a.op == "const" and is_num(cval(a)))]
    pick = min if n == "min" else max
    if cs:
        c = const(pick(cval(x) for x in cs))
        vs = vs + [c]
    if len(vs) == 1:
        return [(st, vs[0])]
    vs = sorted(set(vs), key=lambda t: okey(t))
    return [(st, mk("call", ext(n), tuple(vs), (), ()))]


def lazy_map(I, st, n, args):
    src = args[1]

    def thunk(x, sink):
        def body(y, v):
            outs = []
            for s2, w in I.call(y, args[0], [v], []) if args[0] is not NONE else [(y, v)]:
                if s2.exc is not None:
                    outs.append((s2, "exc", None))
                elif n == "map":
                    outs.extend(sink(s2, w))
                else:
                    for s3, b in I.truth(s2, w):
                        if s3.exc is not None:
                            outs.append((s3, "exc", None))
                        elif b:
                            outs.extend(sink(s3, v))
                        else:
                            outs.append((s3, None, None))
            return outs

        if lazy.is_lazy(x, src):
            return lazy.consume(I, x, src, body)
        r = []
        for s, segs in I.iterate(x, src):
            r.extend([(s, "exc", None)] if s.exc is not None else I.loop_segs(s, segs, body))
        return r

    if misuse_lacks(I, st, src):
        I.raise_ext(st, "TypeError", src)
        return [(st, None)]
    return [(st, lazy.new(I, st, thunk))]


def misuse_lacks(I, st, v):
    from . import misuse

    return misuse.lacks(I, st, v, "__iter__", "__getitem__")


def next_(I, st, args):
    v = args[0]
    has_def = len(args) > 1
    if lazy.is_lazy(st, v):
        return lazy.first(I, st, v, args[1] if has_def else None)
    if I.opts.closed and st.kind(v) == "gen" and "__cut" not in st.obj(v).attrs and all(x.op == "one" for x in st.obj(v).data):
        d = st.obj(v).data
        if d:
            st.own(v).data = d[1:]
            return [(st, d[0].a[0])]
        if has_def:
            return [(st, args[1])]
        I.raise_ext(st, "StopIteration")
        return [(st, None)]
    if v.op == "iter":
        v = v.a[0]
    r = []
    for s, segs in I.iterate(st, v):
        if s.exc is not None:
            r.append((s, None))
            continue
        hit = I.new_list(s, ())

        def body(x, w):
            x.own(hit).data = (one(w),)
            return [(x, "brk", None)]

        for o in I.loop_segs(s, segs, body):
            if o[1] == "brk":
                r.append((o[0], o[0].obj(hit).data[0].a[0]))
            elif o[1] is None:
                if has_def:
                    r.append((o[0], args[1]))
                else:
                    I.raise_ext(o[0], "StopIteration")
                    r.append((o[0], None))
            else:
                r.append((o[0], None))
    return r


def set_raw(I, st, b, n, v):
    if n.op == "const" and b.op == "ref":
        st.own(b).attrs[cval(n)] = v
    else:
        st.over[(b, cval(n) if n.op == "const" else n)] = v
    st.emit("set", (b, n, v), I.loc)
    return [(st, NONE)]


def call_bound_ext(I, st, f, n, selfv, args, kw):
    m = n.split(".")[-1]
    if m == "__init__":
        if n.startswith("object."):
            return [(st, NONE)]
        st.emit("call", (mk("bound", ext(n), selfv), tuple(I.snap(st, a) for a in args), tuple((k, I.snap(st, v)) for k, v in kw), NONE), I.loc)
        return [(st, NONE)]
    if m == "__setattr__":
        return set_raw(I, st, selfv, args[0], args[1])
    if m in ("__init_subclass__", "__set_name__"):
        return [(st, NONE)]
    if m == "__getattribute__" and args and args[0].op == "const":
        t = mk("attr", selfv, cval(args[0]))
        return [(st, st.over.get((selfv, cval(args[0])), t))]
    if m in ("qsize", "empty", "full", "is_set"):
        return [(st, mk("call", mk("attr", selfv, m), (), (), ("e", st.ep, st.cnt.get(("#content", selfv), 0))))]
    if m in ("__str__", "__repr__", "format", "__hash__", "__eq__"):
        return I.opaque(st, mk("attr", selfv, m), args, kw, pure="pure") if m != "format" else I.opaque(st, mk("bound", ext(n), selfv), args, kw, pure="pure")
    if n.startswith("asyncio.") and m in ("put_nowait", "get_nowait", "put", "get"):
        I.bump_content(st, selfv)
    return I.opaque(st, mk("attr", selfv, m), args, kw)


STR_EVAL = {
    "startswith", "endswith", "replace", "split", "strip", "lower", "upper", "lstrip", "rstrip",
    "join", "format", "find", "count", "title", "isdigit", "isidentifier", "removeprefix", "removesuffix",
    "rsplit", "partition", "rpartition", "splitlines", "rfind", "index", "rindex", "zfill", "ljust", "rjust", "center",
    "capitalize", "casefold", "swapcase", "isalpha", "isalnum", "isnumeric", "isdecimal", "isupper", "islower", "isspace",
    "expandtabs",
}


TASK_METHODS = ("done", "cancelled", "result", "exception", "add_done_callback", "get_name", "set_name")


def call_task_method(I, st, b, m, args):
    o = st.obj(b)
    ended = "__result__" in o.attrs or "__exc__" in o.attrs
    if m == "done":
        return [(st, TRUE if ended else FALSE)]
    if m == "cancelled":
        return [(st, FALSE)]
    if m == "get_name":
        return [(st, o.attrs.get("__name", const("task")))]
    if m == "set_name" and len(args) == 1:
        st.own(b).attrs["__name"] = args[0]
        return [(st, NONE)]
    if m in ("result", "exception"):
        if not ended:
            st.exc = mk("exc", ext("asyncio.InvalidStateError"), ())
            return [(st, None)]
        if m == "exception":
            return [(st, o.attrs.get("__exc__", NONE))]
        if "__exc__" in o.attrs:
            st.exc = o.attrs["__exc__"]
            return [(st, None)]
        return [(st, o.attrs["__result__"])]
    if m == "add_done_callback" and len(args) == 1:
        if ended:
            return [(s, None if s.exc is not None else NONE) for s, _ in I.call(st, args[0], [b], [])]
        st.own(b).attrs["__done"] = tup(*(st.obj(b).attrs["__done"].a if "__done" in o.attrs else ()), args[0])
        return [(st, NONE)]
    return None


NUM_EVAL = ("bit_length", "bit_count", "is_integer", "conjugate", "__index__", "__int__", "__float__", "__abs__", "__neg__", "__invert__", "__bool__")


def call_builtin_method(I, st, b, m, args, kw):
    f = mk("bm", b, m)
    if b.op == "ref" and st.obj(b).kind == "task":
        r = call_task_method(I, st, b, m, args)
        if r is not None:
            return r
    if b.op in ("const", "fmt", "tuple"):
        if b.op == "const" and isinstance(cval(b), str):
            if m == "format":
                r = format_call(I, st, cval(b), args, kw)
                if r is not None:
                    return [(st, r)]
            if m == "join" and len(args) == 1:
                r = []
                for s, segs in I.iterate(st, args[0]):
                    if s.exc is not None:
                        r.append((s, None))
                    elif all(x.op == "one" for x in segs):
                        parts = []
                        for j, x in enumerate(segs):
                            if j and cval(b):
                                parts.append(b)
                            parts.append(x.a[0])
                        r.append((s, mkfmt(parts)))
                    else:
                        r.append((s, mk("join", b, tuple(I.snap_seg(s, x) for x in segs))))
                return r
            if m in ("startswith", "endswith") and len(args) == 1 and args[0].op == "tuple" and strings(args[0].a) is not None:
                return [(st, const(getattr(cval(b), m)(tuple(strings(args[0].a)))))]
            if m in STR_EVAL and all(a.op == "const" for a in args) and all(isinstance(k, str) and a.op == "const" for k, a in kw):
                try:
                    v = getattr(cval(b), m)(*[cval(a) for a in args], **{k: cval(a) for k, a in kw})
                except ValueError as e:
                    I.raise_ext(st, "ValueError", const(str(e)))
                    return [(st, None)]
                except Exception:
                    return I.opaque(st, f, args, kw)
                if isinstance(v, list):
                    return [(st, I.new_list(st, [one(const(x)) for x in v]))]
                if isinstance(v, tuple):
                    return [(st, tup(*[const(x) for x in v]))]
                return [(st, const(v))]
        if b.op == "const" and m in NUM_EVAL and not args and not kw and hasattr(cval(b), m):
            return [(st, const(getattr(cval(b), m)()))]
        if b.op == "tuple":
            if m in ("index", "count"):
                return I.opaque(st, f, args, kw, pure="pure")
        if m in PURE_METHODS or True:
            return I.opaque(st, mk("attr", b, m), args, kw, pure="pure")
    if b.op in ("keys", "values", "items", "range", "seq"):
        if m in ("index", "count"):
            return [(st, mk("call", mk("attr", I.snap(st, b), m), tuple(args), (), ()))]
        if m == "__iter__":
            return [(st, b)]
        return I.opaque(st, mk("attr", b, m), args, kw)
    if b.op == "ref":
        o = st.obj(b)
        k = o.kind
        if k == "func":
            if m == "__get__":
                return [(st, mk("bound", b, args[0]))]
            return I.call(st, b, args, kw)
        if k == "dict":
            return dict_method(I, st, b, m, args, kw)
        if k == "lazy" or k == "gen" and I.opts.closed:
            if m == "__iter__":
                return [(st, b)]
            if m == "__next__":
                return next_(I, st, [b])
            if m == "close":
                ob = st.own(b)
                ob.kind, ob.data = "gen", ()
                return [(st, NONE)]
            if m in ("send", "throw"):
                I.too_complex("a generator that is sent values")
        if k in ("list", "set", "gen"):
            return list_method(I, st, b, m, args, kw)
    return I.opaque(st, f, args, kw)


def no_doubles(I, st, segs):
    if len(segs) < 2 or not all(x.op == "one" for x in segs) or len(segs) > 200:
        return segs
    return [one(v) for v in std.distinct(I, st, [x.a[0] for x in segs])]


def trim(I, st, b, left=False):
    n = st.obj(b).attrs.get("__maxlen")
    if n is None:
        return
    if n.op != "const" or not all(x.op == "one" for x in st.obj(b).data):
        I.too_complex("a deque of unknown size")
    d = st.obj(b).data
    st.own(b).data = d[: cval(n)] if left else d[max(0, len(d) - cval(n)):]


def list_method(I, st, b, m, args, kw):
    if st.obj(b).kind == "list" and I.opts.closed:
        if m in ("appendleft", "extendleft") and len(args) == 1:
            outs = [(st, [one(args[0])])] if m == "appendleft" else I.iterate(st, args[0])
            for s, segs in outs:
                if s.exc is None:
                    s.own(b).data = tuple(reversed(segs)) + s.obj(b).data
                    for g in segs:
                        s.emit("append", (b, g), I.loc)
                    trim(I, s, b, True)
            return [(s, NONE if s.exc is None else None) for s, _ in outs]
        if m == "rotate" and len(args) <= 1 and all(x.op == "one" for x in st.obj(b).data) and all(a.op == "const" for a in args):
            d = st.obj(b).data
            k = (cval(args[0]) if args else 1) % (len(d) or 1)
            st.own(b).data = d[len(d) - k:] + d[: len(d) - k]
            return [(st, NONE)]
        if "__maxlen" in st.obj(b).attrs and m in ("append", "extend", "insert"):
            outs = list_method_(I, st, b, m, args, kw)
            for s, _ in outs:
                if s.exc is None:
                    trim(I, s, b)
            return outs
        if m == "count" and len(args) == 1 and all(x.op == "one" for x in st.obj(b).data):
            cs = [I.eq_cond(st, x.a[0], args[0]) for x in st.obj(b).data]
            if all(c is True or c is False for c in cs):
                return [(st, const(sum(cs)))]
    if st.obj(b).kind == "set":
        r = std.set_method(I, st, b, m, args)
        if r is not None:
            return r
    return list_method_(I, st, b, m, args, kw)


def list_method_(I, st, b, m, args, kw):
    o = st.own(b)
    if m in ("append", "add") and len(args) == 1:
        if o.kind == "set" and (one(args[0]) in o.data or any(x.op == "one" and I.eq_cond(st, x.a[0], args[0]) is True for x in o.data)):
            return [(st, NONE)]
        o.data = o.data + (one(args[0]),)
        st.emit("append", (b, one(args[0])), I.loc)
        return [(st, NONE)]
    if m in ("extend", "update") and len(args) == 1:
        r = []
        for s, segs in I.iterate(st, args[0]):
            if s.exc is None:
                ob = s.own(b)
                if m == "update":
                    segs = no_doubles(I, s, list(ob.data) + list(segs))[len(ob.data):]
                ob.data = ob.data + tuple(segs)
                for sg in segs:
                    s.emit("append", (b, sg), I.loc)
            r.append((s, NONE))
        return r
    if m == "clear":
        o.data = ()
        st.emit("clear", (b,), I.loc)
        return [(st, NONE)]
    if m == "copy":
        return [(st, I.new_list(st, o.data, o.kind if o.kind != "gen" else "list"))]
    if m == "insert":
        if args[0] is const(0):
            o.data = (one(args[1]),) + o.data
        elif args[0].op == "const" and all(x.op == "one" for x in o.data):
            l = list(o.data)
            l.insert(cval(args[0]), one(args[1]))
            o.data = tuple(l)
        else:
            o.data = (mk("all", mk("upd", I.snap(st, b), args[0], args[1], const("insert"))),)
        st.emit("insert", (b, args[0], args[1]), I.loc)
        return [(st, NONE)]
    if m == "pop":
        idx = args[0] if args else const(-1)
        if not o.data:
            I.raise_ext(st, "IndexError")
            return [(st, None)]
        if idx is const(-1) and o.data[-1].op == "one":
            v = o.data[-1].a[0]
            o.data = o.data[:-1]
        elif idx is const(0) and o.data[0].op == "one":
            v = o.data[0].a[0]
            o.data = o.data[1:]
        else:
            sn = I.snap(st, b)
            v = mk("item", sn, idx)
            o.data = (mk("all", mk("del", sn, idx)),)
        st.emit("pop", (b, idx), I.loc)
        return [(st, v)]
    if m in ("remove", "discard"):
        sn = I.snap(st, b)
        if one(args[0]) in o.data:
            l = list(o.data)
            l.remove(one(args[0]))
            o.data = tuple(l)
        elif I.opts.closed and all(x.op == "one" and I.eq_cond(st, x.a[0], args[0]) is False for x in o.data):
            if m == "remove":
                I.raise_ext(st, "ValueError" if o.kind == "list" else "KeyError", args[0])
                return [(st, None)]
        else:
            o.data = (mk("all", mk("without", sn, args[0])),)
        st.emit("remove", (b, args[0]), I.loc)
        return [(st, NONE)]
    if m == "index" and len(args) == 1:
        v = index_of(I, st, b, args[0])
        if v is None:
            I.raise_ext(st, "ValueError", mk("attr", I.snap(st, b), "index"))
        return [(st, v)]
    if m == "count":
        return [(st, mk("call", mk("attr", I.snap(st, b), "count"), tuple(args), (), ()))]
    if m == "sort":
        kwd = dict(kw)
        if len(o.data) > 1 or any(x.op != "one" for x in o.data):
            cs = const_sort(I, st, o.data, kwd.get("key", NONE), kwd.get("reverse", FALSE))
            if cs is None:
                t = mk("sorted", src_of(I, st, o.data), lam_term(I, st, kwd.get("key", NONE)), kwd.get("reverse", FALSE))
                cs = (mk("all", t),)
            st.own(b).data = cs
        st.emit("sort", (b,), I.loc)
        return [(st, NONE)]
    if m == "reverse":
        if all(x.op == "one" for x in o.data):
            o.data = tuple(reversed(o.data))
        else:
            o.data = (mk("all", mk("reversed", I.snap(st, b))),)
        return [(st, NONE)]
    if m in ("items", "keys", "values", "get") and len(o.data) == 1 and o.data[0].op == "all":
        src = o.data[0].a[0]
        if m == "get":
            return sym_get(I, st, src, args)
        return [(st, mk(m, src))]
    if m in ("__iter__",):
        return [(st, b)]
    if m in ("__len__",):
        return [(st, length(I, st, b))]
    if m in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
        if m == "union":
            segs = list(o.data)
            for a in args:
                if lazy.is_lazy(st, a):
                    return [z for s, _ in lazy.force(I, st, a) for z in ([(s, None)] if s.exc is not None else list_method(I, s, b, m, args, kw))]
                segs += I.segs_of(st, a)
            return [(st, I.new_list(st, segs, "set"))]
        return [(st, mk("setop", m, I.snap(st, b), tuple(I.snap(st, a) for a in args)))]
    if m in ("close", "send", "throw"):
        return [(st, NONE)]
    if m in ("popleft",):
        return list_method(I, st, b, "pop", [const(0)], [])
    return I.opaque(st, mk("attr", I.snap(st, b), m), args, kw)


def index_of(I, st, b, x):
    segs = st.obj(b).data
    if len(segs) == 1 and segs[0].op == "all" and x.op == "elem" and x.a[0] is segs[0].a[0]:
        pass
    if all(s.op == "one" for s in segs):
        for i, s in enumerate(segs):
            c = I.eq_cond(st, s.a[0], x)
            if c is True:
                return const(i)
            if c is not False:
                break
        else:
            return None
    return mk("call", mk("attr", I.snap(st, b), "index"), (I.snap(st, x),), (), ())


def dict_method(I, st, b, m, args, kw):
    o = st.own(b)
    if m in ("items", "keys", "values"):
        return [(st, mk(m, b))]
    if m == "get":
        return dict_get(I, st, b, args[0], args[1] if len(args) > 1 else NONE)
    if m == "pop":
        r = []
        for s, v in dict_get(I, st, b, args[0], args[1] if len(args) > 1 else None):
            if s.exc is None:
                dict_del(I, s, b, args[0])
                s.emit("delitem", (b, args[0]), I.loc)
            r.append((s, v))
        return r
    if m == "update":
        cur = [st]
        for a in args:
            cur = [y for x in cur for y in dict_update(I, x, b, a)]
        for s in cur:
            for k, v in kw:
                if k is None:
                    dict_update(I, s, b, v)
                else:
                    dict_set(I, s, b, const(k), v)
                    s.emit("setitem", (b, const(k), v), I.loc)
        return [(s, NONE) for s in cur]
    if m == "setdefault":
        r = []
        d = args[1] if len(args) > 1 else NONE
        for s, v in dict_lookup(I, st, o.data, args[0]):
            if v is None:
                dict_set(I, s, b, args[0], d)
                s.emit("setitem", (b, args[0], d), I.loc)
                r.append((s, d))
            else:
                r.append((s, v))
        return r
    if m == "popitem" and all(x.op == "kv" for x in o.data) and I.opts.closed:
        if not o.data:
            I.raise_ext(st, "KeyError", const("popitem(): dictionary is empty"))
            return [(st, None)]
        k, v = o.data[-1].a
        dict_del(I, st, b, k)
        st.emit("delitem", (b, k), I.loc)
        return [(st, tup(k, v))]
    if m == "clear":
        o.data = ()
        st.emit("clear", (b,), I.loc)
        return [(st, NONE)]
    if m == "copy":
        return [(st, I.new_dict(st, o.data))]
    if m == "__contains__":
        return I.contains(st, args[0], b, False)
    return I.opaque(st, mk("attr", I.snap(st, b), m), args, kw)


def sym_get(I, st, d, args):
    """d.get(k, default) of a symbolic dictionary."""
    v = st.over.get((d, "[]", args[0]))
    if v is not None and v is not NOVAL:
        return [(st, v)]
    c = (mk("in", I.snap(st, args[0]), I.versioned(st, d)), True)
    r = []
    for s, b in I.fork(st, c):
        if b:
            r.append((s, I.item_read(s, d, args[0])))
        else:
            r.append((s, args[1] if len(args) > 1 else NONE))
    return r


DICT_VIEWS = ("items", "keys", "values")


def call_attr(I, st, f, args, kw):
    """Methods of symbolic values with a known meaning; None if there is none."""
    b, m = f.a[0], f.a[1]
    d = inst_dict(I, st, b)
    if d is not None:
        if m == "update" and len(args) == 1 and not kw:
            g = inst_dict(I, st, args[0]) or args[0]
            e = [x for x in st.obj(g).data or ()] if g.op == "ref" and st.obj(g).kind == "dict" else None
            if e is None or any(x.op != "kv" or x.a[0].op != "const" for x in e):
                raise Unsupported("update of __dict__")
            for x in e:
                I.setitem(st, b, x.a[0], x.a[1])
            return [(st, NONE)]
        before = st.obj(d).data
        outs = call_builtin_method(I, st, d, m, args, kw)
        for s, _ in outs:
            after = s.obj(d).data
            if s.exc is None and after is not before and after != before:
                # written through
                if any(x.op != "kv" or x.a[0].op != "const" for x in after):
                    raise Unsupported("__dict__.%s" % m)
                at = s.own(b.a[0]).attrs
                for k in [k for k in at if isinstance(k, str)]:
                    del at[k]
                for x in after:
                    at[cval(x.a[0])] = x.a[1]
        return outs
    if b.op in ("repat", "rematch") and not kw:
        return match_method(I, st, b, m, args)
    if m in DICT_VIEWS and not args and not kw:
        return [(st, mk(m, b))]
    if m == "get" and 1 <= len(args) <= 2 and not kw and I.opts.dict_like(b):
        return sym_get(I, st, b, args)
    if m == "copy" and not args:
        return [(st, I.new_list(st, (mk("all", I.versioned(st, b)),)))]
    if m == "pop" and not kw and len(args) in (1, 2) and I.opts.dict_like(b) and args[0].op == "const" and isinstance(cval(args[0]), str):
        r = []
        for s, v in sym_get(I, st, b, args if len(args) == 2 else list(args) + [mk("missing")]):
            if s.known_atom(mk("in", args[0], I.versioned(s, b))) is not False or (b, "[]", args[0]) in s.over:
                s.over[(b, "[]", args[0])] = NOVAL
                s.emit("delitem", (b, args[0]), I.loc)
                I.bump_content(s, b)
                s.facts = dict(s.facts)
                s.facts[mk("in", args[0], I.versioned(s, b))] = False
            r.append((s, v))
        return r
    if m == "setdefault" and len(args) == 2:
        r = []
        for s, v in sym_get(I, st, b, [args[0], mk("missing")]):
            if v.op == "missing":
                for s2 in I.setitem(s, b, args[0], args[1]):
                    r.append((s2, args[1]))
            else:
                r.append((s, v))
        return r
    return None
