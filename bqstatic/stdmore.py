"""Further standard library functions, endless iterators, and the guard that no argument of a modelled function is ignored."""
import builtins
import cmath
import itertools
import math
import re
import string
import sys

from .core import *
from .interp import *
from . import models
from .models import lift_py, lower_py, idx_of


class InfIter(Obj):
    """itertools.count / cycle / repeat without an end"""
    __slots__ = ("nth", "what")

    def __init__(self, what, nth):
        super().__init__({"pos": 0})
        self.what, self.nth = what, nth

    def __repr__(self):
        return f"<{self.what}>"

    def step(self, I):
        p = self.f["pos"]
        I.E.put(self.f, "pos", p + 1)
        return self.nth(I, p)

    def iterate(self, I):
        raise I.undecided(f"iteration over {self.what}")

    def getattr(self, I, name):
        if name == "__next__":
            return Native(name, lambda I, a, k: self.step(I))
        if name == "__iter__":
            return Native(name, lambda I, a, k: self)
        return NotImplemented

    def pycls(self, I):
        return I.bt["object"]


def steps(I, v, n):
    """the next n elements of an iterator (fewer when it ends)"""
    out = []
    if isinstance(v, InfIter):
        return [v.step(I) for _ in range(n)]
    for _ in range(n):
        try:
            out.append(models.py_next(I, [v], {}))
        except PyRaise as pr:
            if pr.exc.cls.name == "StopIteration":
                break
            raise
    return out


def islice(I, a, k):
    args = list(a[1:])
    if not all(isinstance(x, int) or x is None for x in args):
        raise I.undecided("islice with abstract bounds")
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0] or 0, args[1], (args[2] if len(args) > 2 else None) or 1)
    src = a[0]
    if isinstance(src, (IterObj, InfIter)):
        if hi is None:
            if isinstance(src, InfIter):
                steps(I, src, lo)
                if st == 1:
                    return src
                raise I.undecided("endless islice")
            l = I.list_values(src)
            return IterObj(l[lo::st])

        def thunk():
            return steps(I, src, max(hi, 0))[lo::st]
        return IterObj(None, thunk)
    return IterObj(list(itertools.islice(I.list_values(src), *args)))


def keyed(I, a, k):
    """functools.cmp_to_key"""
    cmp_ = a[0]
    c = ClassObj("K", [I.bt["object"]])

    def lt(I, b, kk):
        return I.compare("<", I.call(cmp_, [b[0].f["obj"], b[1].f["obj"]], {}), 0)

    def gt(I, b, kk):
        return I.compare(">", I.call(cmp_, [b[0].f["obj"], b[1].f["obj"]], {}), 0)
    c.f["__lt__"], c.f["__gt__"] = Native("__lt__", lt), Native("__gt__", gt)
    c.f["__eq__"] = Native("__eq__", lambda I, b, kk: I.compare("==", I.call(cmp_, [b[0].f["obj"], b[1].f["obj"]], {}), 0))

    def make(I, b, kk):
        r = InstObj(c)
        r.f["obj"] = b[0]
        return r
    return Native("cmp_to_key", make)


class MatchObj(AbsVal):
    def __init__(self, m):
        self.m = m

    def truth(self, I):
        return True

    def getitem(self, I, key):
        return lift_py(I, self.m[key])

    def getattr(self, I, name):
        if name in ("string", "pos", "endpos", "lastindex", "lastgroup"):
            return getattr(self.m, name)
        if hasattr(self.m, name) and not name.startswith("__"):
            def f(I, a, k):
                r = getattr(self.m, name)(*[lower_py(x) for x in a], **{n: lower_py(x) for n, x in k.items()})
                return models.mkdict(I, r) if isinstance(r, dict) else lift_py(I, r)
            return Native("match." + name, f)
        return NotImplemented


class PatObj(AbsVal):
    def __init__(self, p):
        self.p = p

    def truth(self, I):
        return True

    def getattr(self, I, name):
        if name in ("pattern", "flags", "groups"):
            return getattr(self.p, name)
        if name in RE_FNS:
            return Native("pattern." + name, lambda I, a, k: re_call(I, name, getattr(self.p, name), a, k))
        return NotImplemented


RE_FNS = ("match", "fullmatch", "search", "findall", "split", "sub", "finditer", "subn")


def re_call(I, name, fn, a, k):
    def low(x):
        if isinstance(x, (FuncObj, Native, Bound)):
            if name not in ("sub", "subn"):
                raise I.undecided("callable argument of re")
            return lambda m: lower_py(I.call(x, [MatchObj(m)], {}))
        try:
            return lower_py(x)
        except TypeError:
            raise I.undecided(f"re.{name} of an abstract string")
    try:
        r = fn(*[low(x) for x in a], **{n: low(x) for n, x in k.items()})
    except re.error as ex:
        raise I.undecided(f"re.error {ex}")
    except (TypeError, ValueError, IndexError) as ex:
        raise I.exc(type(ex).__name__, str(ex))
    if isinstance(r, re.Match):
        return MatchObj(r)
    if name == "finditer":
        return IterObj([MatchObj(m) for m in r])
    return lift_py(I, r)


def total_ordering(I, a, k):
    c = a[0]

    def have(n):
        r = c.lookup(n)
        return r is not None and isinstance(r[1], FuncObj)
    roots = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if have(n)]
    if not roots:
        raise I.exc("ValueError", "must define at least one ordering operation: < > <= >=")
    root = next(n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in roots)
    op = {"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}

    def derive(want):
        def f(I, b, kk):
            x, y = b
            r = I.call_method(x, root, y)
            if r is NotImplemented:
                return r
            r = I.truth(r)
            strict, up = root in ("__lt__", "__gt__"), root in ("__gt__", "__ge__")
            wstrict, wup = want in ("__lt__", "__gt__"), want in ("__gt__", "__ge__")
            if up == wup:
                if strict and not wstrict:
                    return r or I.truth(I.compare("==", x, y))
                return r and not I.truth(I.compare("==", x, y))
            if strict and not wstrict:
                return not r
            if strict:
                return not r and not I.truth(I.compare("==", x, y))
            if wstrict:
                return not r
            return not r or I.truth(I.compare("==", x, y))
        return Native(want, f)
    for n in op:
        if n not in roots:
            I.E.put(c.f, n, derive(n))
    return c


def cls_dataclass(I, a, k):
    """dataclasses.dataclass for classes without inheritance from another dataclass"""
    if k and set(k) - {"frozen", "eq", "repr", "order"} or I.truth(k.get("order", False)):
        raise I.undecided("dataclass options")

    def deco(I, b, kk):
        c = b[0]
        if c.node is None:
            raise I.undecided("dataclass of another kind")
        import ast
        fields = []
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if "ClassVar" in ast.unparse(s.annotation):
                    continue
                fields.append(s.target.id)
        for base in c.mro[1:]:
            if base.f.get("__dataclass_fields__") is not None:
                raise I.undecided("inherited dataclass")
        defaults = {n: c.f[n] for n in fields if n in c.f}

        def init(I, args, kw):
            self = args[0]
            if len(args) - 1 > len(fields):
                raise I.exc("TypeError", "__init__() takes too many positional arguments")
            vals = dict(zip(fields, args[1:]))
            for n, v in kw.items():
                if n not in fields or n in vals:
                    raise I.exc("TypeError", f"__init__() got an unexpected keyword argument '{n}'")
                vals[n] = v
            for n in fields:
                if n not in vals:
                    if n not in defaults:
                        raise I.exc("TypeError", f"__init__() missing 1 required positional argument: '{n}'")
                    d = defaults[n]
                    if isinstance(d, FieldSpec):
                        if d.factory is not None:
                            d = I.call(d.factory, [], {})
                        elif d.default is not NOARG:
                            d = d.default
                        else:
                            raise I.exc("TypeError", f"__init__() missing 1 required positional argument: '{n}'")
                    vals[n] = d
                I.E.put(self.f, n, vals[n])
            if c.lookup("__post_init__"):
                I.call_method(self, "__post_init__")
        if "__init__" not in c.f:
            I.E.put(c.f, "__init__", Native("__init__", init))
            c.f["__init__"] = NativeMethod(init)
        if "__eq__" not in c.f:
            def eq(I, args, kw):
                x, y = args
                if not isinstance(y, InstObj) or y.cls is not x.cls:
                    return NotImplemented
                return all(I.truth(I.compare("==", x.f[n], y.f[n])) for n in fields)
            c.f["__eq__"] = NativeMethod(eq)
        c.f["__dataclass_fields__"] = tuple(fields)
        return c
    if a:
        return deco(I, a, {})
    return Native("dataclass", deco)


class FieldSpec(AbsVal):
    def __init__(self, default, factory):
        self.default, self.factory = default, factory


NOARG = models.NOARG


def NativeMethod(fn):
    return Native("method", fn)


def ext_more(I, mod, name):
    """further attributes of standard modules; None when there is no model"""
    full = mod + "." + name
    N = lambda fn: Native(full, fn)
    if mod == "itertools":
        if name == "count":
            def count(I, a, k):
                s = a[0] if a else k.get("start", 0)
                d = a[1] if len(a) > 1 else k.get("step", 1)
                return InfIter("itertools.count", lambda I, p: I.binop("+", s, I.binop("*", p, d)) if p else s)
            return N(count)
        if name == "cycle":
            def cycle(I, a, k):
                l = I.list_values(a[0])
                if not l:
                    return IterObj([])
                return InfIter("itertools.cycle", lambda I, p: l[p % len(l)])
            return N(cycle)
        if name == "islice":
            return N(islice)
        if name == "pairwise":
            return N(lambda I, a, k: IterObj([tuple(t) for t in itertools.pairwise(I.list_values(a[0]))]))
        if name == "batched":
            def batched(I, a, k):
                l, n = I.list_values(a[0]), a[1]
                if not isinstance(n, int):
                    raise I.undecided("batched by an abstract number")
                return IterObj([tuple(l[i:i + n]) for i in range(0, len(l), n)])
            return N(batched)
        if name == "compress":
            return N(lambda I, a, k: IterObj([x for x, s in zip(I.list_values(a[0]), I.list_values(a[1])) if I.truth(s)]))
        if name == "accumulate":
            def acc(I, a, k):
                fn = a[1] if len(a) > 1 else k.get("func")
                out = [k["initial"]] if k.get("initial") is not None else []
                for x in I.list_values(a[0]):
                    out.append(x if not out else I.binop("+", out[-1], x) if fn is None else I.call(fn, [out[-1], x], {}))
                return IterObj(out)
            return N(acc)
    if mod == "functools":
        if name == "cmp_to_key":
            return N(keyed)
        if name == "total_ordering":
            return N(total_ordering)
    if mod == "operator":
        if name == "methodcaller":
            return N(lambda I, a, k: Native("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], a[0]), list(a[1:]), dict(k))))
        one = {"pos": "+", "invert": "~", "inv": "~"}
        if name in one:
            return N(lambda I, a, k: I.unop(one[name], a[0]))
        t = {"contains": lambda I, a, k: I.contains(a[0], a[1]), "getitem": lambda I, a, k: I.getitem(a[0], a[1]),
             "setitem": lambda I, a, k: I.setitem(a[0], a[1], a[2]), "truth": lambda I, a, k: I.truth(a[0]),
             "is_": lambda I, a, k: I.compare("is", a[0], a[1]), "is_not": lambda I, a, k: I.compare("is not", a[0], a[1]),
             "abs": lambda I, a, k: models.py_abs(I, a[0]), "concat": lambda I, a, k: I.binop("+", a[0], a[1]),
             "countOf": lambda I, a, k: sum(1 for x in I.list_values(a[0]) if I.truth(I.compare("==", x, a[1])))}
        if name in t:
            return N(t[name])
    if mod == "re":
        if name == "compile":
            def comp(I, a, k):
                try:
                    return PatObj(re.compile(*[lower_py(x) for x in a], **{n: lower_py(x) for n, x in k.items()}))
                except TypeError:
                    raise I.undecided("re.compile of an abstract pattern")
            return N(comp)
        if name in RE_FNS:
            return N(lambda I, a, k: re_call(I, name, getattr(re, name), a, k) if not isinstance(a[0], PatObj)
                     else re_call(I, name, getattr(a[0].p, name), a[1:], k))
        if name == "escape":
            return N(lambda I, a, k: re.escape(lower_py(a[0])))
        v = getattr(re, name, None)
        if isinstance(v, int):
            return int(v)
    if mod == "string":
        v = getattr(string, name, None)
        if isinstance(v, str):
            return v
    if mod == "sys" and name == "maxsize":
        return sys.maxsize
    if mod == "math":
        if name == "dist":
            def dist(I, a, k):
                s = 0
                for x, y in zip(I.list_values(a[0]), I.list_values(a[1])):
                    d = I.binop("-", x, y)
                    s = I.binop("+", s, I.binop("*", d, d))
                return I.call(models.ext_attr(I, I.ext_module("math"), "sqrt"), [s], {})
            return N(dist)
        if name in ("fsum", "sumprod"):
            def fsum(I, a, k):
                l = [I.list_values(x) for x in a]
                if all(isinstance(x, (int, float)) for y in l for x in y):
                    return getattr(math, name)(*l)
                if name == "fsum":
                    return models.py_sum(I, [a[0], 0.0], {})
                r = 0
                for x, y in zip(*l):
                    r = I.binop("+", r, I.binop("*", x, y))
                return r
            return N(fsum)
    if mod == "contextlib":
        if name in ("suppress", "nullcontext"):
            def make(I, a, k):
                c = ClassObj(name, [I.bt["object"]])
                c.f["__enter__"] = Native("__enter__", lambda I, b, kk: a[0] if a and name == "nullcontext" else None)

                def leave(I, b, kk):
                    et = b[1]
                    if name == "nullcontext" or et is None:
                        return False
                    return any(x in et.mro for x in a)
                c.f["__exit__"] = Native("__exit__", leave)
                return InstObj(c)
            return N(make)
    if mod == "dataclasses":
        if name == "dataclass":
            return N(cls_dataclass)
        if name == "field":
            def field(I, a, k):
                if set(k) - {"default", "default_factory", "repr", "compare", "hash", "init", "metadata"} or k.get("init", True) is not True or k.get("compare", True) is not True:
                    raise I.undecided("dataclass field options")
                return FieldSpec(k.get("default", NOARG), k.get("default_factory"))
            return N(field)
    return None


# ---------------------------------------------------------------------- what the real types offer
NUMPY_SCALAR = {"item", "astype", "dtype", "tolist", "shape", "ndim", "size", "conj", "T", "sum", "prod", "any", "all", "round", "copy", "reshape",
                "flatten", "ravel", "squeeze", "max", "min", "mean", "view", "tobytes", "nbytes", "itemsize", "flat", "byteswap", "dot"}
REAL = {"str": str, "int": int, "float": float, "complex": complex, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "set": set,
        "frozenset": frozenset, "range": range, "bytes": bytes, "slice": slice, "NoneType": type(None), "object": object, "type": type}


def real_has(I, o, name):
    """does the value's real type have an attribute of this name, so that its absence here is a gap of the models?"""
    import collections
    if isinstance(o, ClassObj):
        if o.node is not None:
            return any(b.node is None and b.name in REAL and b.name not in ("object", "type") and hasattr(REAL[b.name], name) for b in o.mro)
        t = REAL.get(o.name) or getattr(builtins, o.name, None) or getattr(collections, o.name, None)
        return t is not None and hasattr(t, name)
    if isinstance(o, Native):
        return not name.startswith("__") and o.name.split(".")[0] in LIBS | {"np", "ndarray"}
    if isinstance(o, IterObj):
        return name in ("send", "throw", "gi_frame", "gi_running", "__length_hint__")
    if isinstance(o, (FuncObj, Bound)):
        return name.startswith("__") and hasattr(real_has, name)
    if isinstance(o, InstObj):
        return any(b.node is None and b.name in REAL and b.name not in ("object", "type") and hasattr(REAL[b.name], name) for b in o.cls.mro)
    try:
        n = I.type_of(o).name
    except Undecided:
        return False
    if n in ("int", "float", "complex", "bool") and name in NUMPY_SCALAR:
        return True
    t = REAL.get(n) or getattr(collections, n, None)
    return t is not None and hasattr(t, name)


# ---------------------------------------------------------------------- arguments that a model did not look at
class KW(dict):
    """keyword arguments of a call of a modelled function; remembers which were looked at"""
    __slots__ = ("seen", "whole")

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen, self.whole = set(), False

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        self.whole = True
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.whole = True
        return dict.__iter__(self)

    def keys(self):
        self.whole = True
        return dict.keys(self)

    def items(self):
        self.whole = True
        return dict.items(self)

    def values(self):
        self.whole = True
        return dict.values(self)

    def __len__(self):
        return dict.__len__(self)

    def __or__(self, o):
        self.whole = True
        return dict.__or__(self, o)


class PA(list):
    """positional arguments of such a call; remembers the last one that was looked at"""
    __slots__ = ("top",)

    def __init__(self, v):
        list.__init__(self, v)
        self.top = 0

    def __getitem__(self, i):
        if i.__class__ is int:
            if i < 0:
                self.top = 1 << 30
            elif i >= self.top:
                self.top = i + 1
        else:
            self.top = 1 << 30
        return list.__getitem__(self, i)

    def __iter__(self):
        self.top = 1 << 30
        return list.__iter__(self)

    def __len__(self):
        self.top = 1 << 30      # optional arguments are accounted for
        return list.__len__(self)

    def pop(self, *i):
        self.top = 1 << 30
        return list.pop(self, *i)

    def __add__(self, o):
        self.top = 1 << 30
        return list.__add__(self, o)

    def __radd__(self, o):
        self.top = 1 << 30
        return o + list(self)


OURS = {"bqstatic." + m for m in ("models", "npmodel", "npmore", "symodel", "spmodel", "stdmore", "interp")}


# their arguments are looked at only when they are needed, or later
LAZY = {"itertools.chain", "operator.itemgetter", "operator.attrgetter", "operator.methodcaller", "setdefault", "print", "wraps", "get", "pop", "getattr", "next"}


def call_guarded(I, f, args, kw):
    if getattr(f.fn, "__module__", None) not in OURS:
        return f.fn(I, args, kw)
    n = len(args)
    if n > 1:
        args = PA(args)
    if kw:
        k = KW(kw)
        r = f.fn(I, args, k)
        if not k.whole:
            for x in kw:
                if x not in k.seen and kw[x] is not None:
                    raise I.undecided(f"argument {x} of {f.name} is not modelled")
    else:
        r = f.fn(I, args, kw)
    if n > 1 and args.top < n and f.name not in LAZY and list.__getitem__(args, n - 1) is not None:
        raise I.undecided(f"argument {args.top + 1} of {f.name} is not modelled")
    return r
