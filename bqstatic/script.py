"""Obligations written as functions of an analysed scenario module.

The scenario source is interpreted by the same abstract interpreter as the package; every function named ob_* is one
obligation. `expect(cond, text)` must hold on every abstract trace."""
from .core import *
from .errors import *
from .scen import *
from .scalar import Scalar
from .symint import SymInt, BitInt
from . import npmodel as NP


class LaterScalar:
    """compares a scalar under what is known at the time of the comparison"""
    def __init__(self, E, s):
        self.E, self.s = E, s

    def __eq__(self, o):
        return isinstance(o, LaterScalar) and self.E.norm(self.s).key() == self.E.norm(o.s).key()

    def __hash__(self):
        return 0

    def __repr__(self):
        return repr(self.E.norm(self.s).key())


def deep_key(I, v, seen=None):
    """structural key of a value including everything reachable from it"""
    seen = {} if seen is None else seen
    if isinstance(v, tuple):
        return ("t",) + tuple(deep_key(I, x, seen) for x in v)
    if isinstance(v, Rep):
        return ("rep", tuple(deep_key(I, x, seen) for x in v.block), repr(v.count))
    if isinstance(v, AbsElems):
        return ("abs", id(v))
    if isinstance(v, SliceObj):
        return ("slice",) + tuple(deep_key(I, x, seen) for x in (v.start, v.stop, v.step))
    if isinstance(v, Scalar):
        return ("s", LaterScalar(I.E, v) if "later" in seen else I.E.norm(v).key())
    if isinstance(v, (Bound,)):
        return ("bound", deep_key(I, v.func, seen), deep_key(I, v.self_, seen))
    if isinstance(v, Partial):
        return ("partial", deep_key(I, v.func, seen), tuple(deep_key(I, x, seen) for x in v.args),
                tuple((k, deep_key(I, x, seen)) for k, x in sorted(v.kwargs.items())))
    if isinstance(v, (FuncObj, Native, ClassObj, ModuleObj, ExtModule)):
        return ("id", id(v))
    if isinstance(v, Obj):
        if v.oid in seen:
            return ("ref", seen[v.oid])
        seen[v.oid] = len(seen)
        if isinstance(v, NP.NdArr):
            return ("nd", v.shape, tuple(deep_key(I, c, seen) for c in v.cells()))
        if isinstance(v, DictObj):
            return ("d", tuple((deep_key(I, k, seen), deep_key(I, x, seen)) for k, x in v.pairs()))
        if isinstance(v, ListObj):
            return ("l",) + tuple(deep_key(I, x, seen) for x in v.items)
        if isinstance(v, SetObj):
            return ("set",) + tuple(sorted((deep_key(I, x, seen) for x in v.f["items"].values()), key=repr))
        if isinstance(v, NP.VecObj):
            return ("vec", tuple(sorted((b, deep_key(I, x, seen)) for b, x in v.tab.items())))
        if isinstance(v, InstObj):
            return ("i", v.cls.name, deep_key(I, v.tup, seen) if v.tup is not None else None,
                    tuple(sorted((k, deep_key(I, x, seen)) for k, x in v.f.items())))
        return ("o", type(v).__name__, tuple(sorted(((k, deep_key(I, x, seen)) for k, x in v.f.items() if isinstance(k, str)), key=repr)))
    if isinstance(v, list):
        return ("L",) + tuple(deep_key(I, x, seen) for x in v)
    try:
        return I.hkey(v)
    except PyRaise:
        return ("id", id(v))


def mutable_parts(I, v):
    """identities of the mutable containers reachable from v (gate objects and functions are shared by design)"""
    gate = I.load("blueqat.gate").f.get("Gate")
    out = {}
    for o in reach(v):
        if isinstance(o, InstObj) and gate in o.cls.mro:
            continue
        out[o.oid] = o
    return out


def _lab(x):
    if isinstance(x, ListObj):
        return "+".join(map(_lab, x.items))
    if isinstance(x, (FuncObj, ClassObj, Native)):
        return x.name
    if isinstance(x, tuple):
        return "(" + ",".join(map(_lab, x)) + ")"
    return x if isinstance(x, str) else repr(x)


class Token(Opaque):
    """an arbitrary object"""


class Script:
    def __init__(self, ck, I, src, **natives):
        self.ck, self.I = ck, I
        self.on_start = None
        self.ob = ""
        nat = {"expect": self._expect, "snap": self._snap, "unchanged": self._unchanged, "shared": self._shared,
               "tok": lambda I, a, k: Opaque("any:" + a[0]), "sym": lambda I, a, k: Scalar.sym(a[0]),
               "nat": lambda I, a, k: SymInt(0, {a[0]: 1}), "fail": self._fail,
               "raises": self._raises, "events": lambda I, a, k: ListObj([tuple(e) for e in I.events.items]),
               "note": lambda I, a, k: None, "same_key": self._same_key, "show": lambda I, a, k: repr(a[0])}
        nat.update(natives)
        self.m = source(I, src, **nat)

    def _expect(self, I, a, k):
        text = a[1] if len(a) > 1 else "expectation"
        extra = ""
        if len(a) > 2:
            extra = "; got " + ", ".join(map(repr, a[2:]))
        if not I.truth(a[0]):
            raise Finding(k.get("rule", self.rule), k.get("key", self.ob), (text if isinstance(text, str) else repr(text)) + extra)

    def _fail(self, I, a, k):
        raise Finding(k.get("rule", self.rule), self.ob, a[0] if isinstance(a[0], str) else repr(a[0]))

    def _snap(self, I, a, k):
        return tuple(("snap", deep_key(I, x, {"later": 1})) for x in a)

    def _unchanged(self, I, a, k):
        return a[0] == tuple(("snap", deep_key(I, x, {"later": 1})) for x in a[1:])

    def _same_key(self, I, a, k):
        return deep_key(I, a[0]) == deep_key(I, a[1])

    def _shared(self, I, a, k):
        """mutable objects reachable from both values"""
        x, y = mutable_parts(I, a[0]), mutable_parts(I, a[1])
        both = [repr(x[o]) for o in x if o in y]
        return tuple(both)

    def _raises(self, I, a, k):
        """raises(fn, *args): name of the exception raised, or None"""
        try:
            I.call(a[0], list(a[1:]), k)
        except PyRaise as e:
            return e.exc.cls.name
        return None

    def run(self, rule, names=None, args=None, prefix="", fallback=None):
        """decide every ob_* function (or the listed ones), each for every tuple in args"""
        self.rule = rule
        with self.ck.batch():
            self._run(rule, names, args, prefix, fallback)

    def _run(self, rule, names, args, prefix, fallback):
        fns = [n for n in self.m.f if n.startswith("ob_") and isinstance(self.m.f[n], FuncObj)] if names is None else names
        for n in fns:
            f = self.m.f[n]
            for a in (args if args is not None else [()]):
                nm = prefix + n[3:] + ("[" + ",".join(map(_lab, a)) + "]" if a else "")

                def go(f=f, a=a, nm=nm):
                    self.ob, self.rule = nm, rule
                    if self.on_start:
                        self.on_start()
                    return self.I.call(f, list(a), {})
                self.ck.oblige(self.I, nm, go, fallback(n, a) if fallback else ())
