"""What Python refuses: attributes, items, calls and operators that a value of a known type does not have.

Used for client programs only, where every value is followed; a value of an unknown type is never refused."""

import builtins
import collections
import collections.abc
import enum
import importlib
import numbers
import operator
import types
import typing

from .terms import *

SAMPLE = {list: [], dict: {}, set: set(), tuple: (), str: "", type(len): len, collections.deque: collections.deque(), collections.Counter: collections.Counter(), collections.defaultdict: {}}
FUNC = types.FunctionType


def pytype(I, st, v):
    """The Python type of a value, None if it is not known or is a class of the program."""
    o = v.op
    if o == "const":
        return type(cval(v))
    if o == "tuple":
        return tuple
    if o == "fmt":
        return str
    if o == "range":
        return range
    if o == "ref":
        k = st.obj(v).kind
        if k == "func":
            return FUNC
        if k == "list" and "__deque" in st.obj(v).attrs:
            return collections.deque
        if k == "dict" and "__factory" in st.obj(v).attrs:
            return collections.Counter if "__keep" not in st.obj(v).attrs else collections.defaultdict
        return {"list": list, "dict": dict, "set": set}.get(k)
    return None


def py_class(n):
    """The class that an external name stands for."""
    if n == "NoneType":
        return type(None)
    m, _, a = n.rpartition(".")
    if m in ("", "builtins"):
        c = getattr(builtins, a, None)
    elif m in ("collections", "collections.abc", "numbers", "types", "enum"):
        c = getattr(importlib.import_module(m), a, None)
    elif m == "typing":
        c = typing.get_origin(getattr(typing, a, None))
    else:
        return None
    return c if isinstance(c, type) else None


def own_instance(I, st, v):
    """The class of an instance that inherits nothing from outside the program."""
    if v.op == "ref" and st.obj(v).kind == "inst":
        ob = st.obj(v)
        if ob.extra != "open" and all(c.op == "ref" or c.a[0] == "object" for c in I.base.mro(ob.data)):
            return ob.data
    return None


def lacks(I, st, v, *names):
    """v surely has none of the special methods."""
    if not I.opts.closed:
        return False
    t = pytype(I, st, v)
    if t is not None:
        return not any(hasattr(t, n) for n in names)
    c = own_instance(I, st, v)
    if c is not None:
        return all(I.class_attr(st, c, n) is None for n in names) and not (
            "__class_getitem__" in names and False)
    return v.op == "enum" and not any(hasattr(object, n) for n in names)


def attribute(I, st, v, name):
    """The attribute does not exist."""
    if not I.opts.closed:
        return False
    t = pytype(I, st, v)
    return t is not None and t is not FUNC and not hasattr(t, name)


def sample(I, st, v):
    """(known, a value of the same type)"""
    if v.op == "const":
        return True, cval(v)
    t = pytype(I, st, v)
    if t in SAMPLE:
        return True, SAMPLE[t]
    if v.op == "range":
        return True, range(0)
    c = own_instance(I, st, v)
    if c is not None and not any(x.op == "ref" and any(n.startswith("__") and n not in PLAIN for n in st.obj(x).attrs) for x in I.base.mro(c)):
        return True, object()
    return False, None


PLAIN = {"__init__", "__module__", "__qualname__", "__doc__", "__setattr__", "__getattribute__", "__getattr__", "__init_subclass__", "__str__", "__repr__"}
OPS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
    "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
}


def operands(I, st, op, x, y):
    """Name of the exception, None if there is none or it is not known."""
    if not I.opts.closed or op not in OPS:
        return None
    a, x_ = sample(I, st, x)
    b, y_ = sample(I, st, y)
    if not a or not b or op == "%" and isinstance(x_, str):
        return None
    if op in ("**", "<<", "*") and not (abs_small(x_) and abs_small(y_)):
        return None
    try:
        OPS[op](x_, y_)
    except TypeError:
        return "TypeError"
    except ZeroDivisionError:
        return "ZeroDivisionError"
    except ValueError:
        return "ValueError" if x.op == y.op == "const" else None
    except Exception:
        return None
    return None


def abs_small(x):
    return not isinstance(x, (int, float)) or abs(x) < 1 << 16


def item(I, st, b, k):
    """b[k]"""
    if not I.opts.closed:
        return None
    if b.op == "tuple" and k.op == "const":
        if not isinstance(cval(k), int):
            return "TypeError"
        return None if -len(b.a) <= cval(k) < len(b.a) else "IndexError"
    if b.op == "const" and k.op == "const":
        try:
            cval(b)[cval(k)]
        except (TypeError, IndexError, KeyError) as e:
            return type(e).__name__
        return None
    if b.op == "ref" and st.obj(b).kind == "list" and k.op == "const" and not isinstance(cval(k), int):
        return "TypeError"
    if lacks(I, st, b, "__getitem__"):
        return "TypeError"
    return None


ITER = ("list", "tuple", "set", "frozenset", "sorted", "enumerate", "sum", "any", "all", "reversed", "iter")


def builtin(I, st, n, args, kw):
    """Name of the exception of a call of a builtin function."""
    if not I.opts.closed or any(a.op == "star" for a in args):
        return None
    if n in ITER and args and lacks(I, st, args[0], "__iter__", "__getitem__"):
        return "TypeError"
    if n == "len" and args and lacks(I, st, args[0], "__len__"):
        return "TypeError"
    if n == "zip" and any(lacks(I, st, a, "__iter__", "__getitem__") for a in args):
        return "TypeError"
    if n in ("map", "filter") and len(args) > 1 and any(lacks(I, st, a, "__iter__", "__getitem__") for a in args[1:]):
        return "TypeError"
    if n in ("min", "max") and len(args) == 1:
        a = args[0]
        if lacks(I, st, a, "__iter__", "__getitem__"):
            return "TypeError"
        if not any(k == "default" for k, _ in kw) and (
            a.op == "tuple" and not a.a or a.op == "ref" and st.obj(a).kind in ("list", "set", "dict", "gen") and not st.obj(a).data
        ):
            return "ValueError"
    if n == "next" and args and lacks(I, st, args[0], "__next__"):
        return "TypeError"
    if n == "range" and any(a.op == "const" and not isinstance(cval(a), int) for a in args):
        return "TypeError"
    if n == "int" and args and pytype(I, st, args[0]) in (type(None), list, dict, set, tuple):
        return "TypeError"
    if n == "abs" and args and lacks(I, st, args[0], "__abs__"):
        return "TypeError"
    if n == "isinstance" and len(args) == 2 and pytype(I, st, args[1]) in (type(None), int, float, str, list, dict, set):
        return "TypeError"
    return None
