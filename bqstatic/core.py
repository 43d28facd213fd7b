"""Object model of the abstract interpreter and the trace-partitioning engine."""
import itertools
import math
import time
from .errors import Undecided, Prune
from .scalar import Scalar, Gen, apply_fn, equal as s_equal
from .symint import SymInt, BitInt
from . import symint as SI

_ids = itertools.count(1)


class Obj:
    """mutable abstract heap object; all mutable state is in .f and is written through Engine.put"""
    __slots__ = ("f", "oid", "origin")

    def __init__(self, f):
        self.f = f
        self.oid = next(_ids)
        self.origin = None


class Rep:
    """`count` consecutive copies of the element block (array segmentation)"""
    __slots__ = ("block", "count")

    def __init__(self, block, count):
        self.block, self.count = tuple(block), count

    def __repr__(self):
        return f"Rep({self.block}x{self.count})"


class AbsElems:
    """an unknown number of generic elements; make() builds a fresh one"""
    def __init__(self, make, name="elems"):
        self.make, self.name = make, name


class ListObj(Obj):
    __slots__ = ()

    def __init__(self, items):
        super().__init__({"items": list(items)})

    @property
    def items(self):
        return self.f["items"]


class SetObj(Obj):
    __slots__ = ("frozen",)

    def __init__(self, d=None, frozen=False):
        super().__init__({"items": dict(d or {})})
        self.frozen = frozen


class DictObj(Obj):
    """items: canonical hash key -> list of (key, value)"""
    __slots__ = ("cls", "factory")

    def __init__(self, cls=None, factory=None):
        super().__init__({"items": {}})
        self.cls = cls
        self.factory = factory

    def pairs(self):
        return [kv for b in self.f["items"].values() for kv in b]


class InstObj(Obj):
    __slots__ = ("cls", "tup")

    def __init__(self, cls, attrs=None, tup=None):
        super().__init__(dict(attrs or {}))
        self.cls = cls
        self.tup = tup

    def __repr__(self):
        return f"<{self.cls.name} {self.tup if self.tup is not None else self.f}>"


class ModuleObj(Obj):
    __slots__ = ("name", "path", "tree", "src")

    def __init__(self, name, path):
        super().__init__({})
        self.name, self.path = name, path

    def __repr__(self):
        return f"<module {self.name}>"


class ClassObj(Obj):
    __slots__ = ("name", "bases", "mro", "pytype", "module", "qual", "check", "construct", "node", "nt_fields")

    def __init__(self, name, bases=(), ns=None, pytype=None, module=None, check=None, construct=None, node=None):
        super().__init__(dict(ns or {}))
        self.name, self.bases, self.pytype, self.module = name, tuple(bases), pytype, module
        self.qual = name
        self.check, self.construct, self.node = check, construct, node
        self.nt_fields = None
        self.mro = self._mro()
        for b in self.mro[1:]:
            if b.nt_fields is not None:
                self.nt_fields = b.nt_fields
                break

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent MRO of " + self.name)
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.f:
                return c, c.f[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class FuncObj:
    __slots__ = ("node", "name", "module", "closure", "defaults", "kwdefaults", "defcls", "qual", "is_gen", "attrs", "locals_", "marks")

    def __init__(self, node, name, module, closure, defaults, kwdefaults, defcls, qual, is_gen, locals_):
        self.node, self.name, self.module, self.closure = node, name, module, closure
        self.defaults, self.kwdefaults, self.defcls, self.qual = defaults, kwdefaults, defcls, qual
        self.is_gen = is_gen
        self.locals_ = locals_
        self.attrs = {}
        self.marks = {}

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Native:
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f"<native {self.name}>"


class Partial:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class IterObj(Obj):
    """list iterator (also a started generator)"""
    __slots__ = ("thunk", "kind")

    def __init__(self, items=None, thunk=None, kind="iterator"):
        super().__init__({"items": items, "pos": 0})
        self.thunk = thunk
        self.kind = kind


class RangeObj:
    __slots__ = ("start", "stop", "step", "parallel")

    def __init__(self, start, stop, step=1, parallel=False):
        self.start, self.stop, self.step = start, stop, step
        self.parallel = parallel


class SliceObj:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def key(self):
        return ("slice", self.start, self.stop, self.step)

    def __repr__(self):
        return f"slice({self.start},{self.stop},{self.step})"


class PropertyObj:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ExtModule:
    __slots__ = ("name", "missing")

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class AbsVal:
    """base of immutable abstract values with operator hooks"""
    def binop(self, I, op, other, refl):
        return NotImplemented

    def unop(self, I, op):
        return NotImplemented

    def compare(self, I, op, other, refl):
        return NotImplemented

    def getattr(self, I, name):
        return NotImplemented

    def getitem(self, I, key):
        raise Undecided(f"subscript of {self!r}")

    def call(self, I, args, kwargs):
        raise Undecided(f"call of {self!r}")

    def truth(self, I):
        return NotImplemented

    def iterate(self, I):
        raise Undecided(f"iteration over {self!r}")

    def hkey(self, I):
        return ("id", id(self))

    def cls(self, I):
        return I.bt["object"]


def freeze(v):
    """structural key of a value (used by opaque terms and facts)"""
    if isinstance(v, Scalar):
        return ("S", v.key())
    if isinstance(v, SymInt):
        return ("I", v.key())
    if isinstance(v, BitInt):
        return ("B", v.key())
    if isinstance(v, tuple):
        return ("T",) + tuple(freeze(x) for x in v)
    if isinstance(v, Obj):
        return ("O", v.oid)
    if isinstance(v, (int, float, complex, str, bytes, bool)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, AbsVal):
        return v.hkey(None) if isinstance(v, Opaque) else ("A", repr(v))
    if isinstance(v, SliceObj):
        return ("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    return ("?", id(v))


class Opaque(AbsVal):
    """uninterpreted term: a value obtained from an unmodelled external operation"""
    def __init__(self, name, args=(), uid=None, cls_=None):
        self.name, self.args, self.uid = name, tuple(args), uid
        self.k = ("op", name, tuple(freeze(a) for a in args), uid)
        self._cls = cls_

    def hkey(self, I):
        return self.k

    def __repr__(self):
        a = f"({', '.join(map(repr, self.args))})" if self.args else ""
        return f"{self.name}{a}" + (f"#{self.uid}" if self.uid is not None else "")

    def binop(self, I, op, other, refl):
        return Opaque("op" + op, (other, self) if refl else (self, other))

    def unop(self, I, op):
        return Opaque("un" + op, (self,))

    def compare(self, I, op, other, refl):
        if isinstance(other, Opaque) and other.k == self.k and op in ("==", "!="):
            return op == "=="
        return Cond(("cmp", op if not refl else SWAP[op], freeze(self), freeze(other)), f"{self!r} {op} {other!r}")

    def getattr(self, I, name):
        return Opaque(f"{self.name}.{name}", self.args, self.uid)

    def getitem(self, I, key):
        if not self.args:
            I.note_unmodelled(self.name)
        return Opaque("getitem", (self, key))

    def call(self, I, args, kwargs):
        return I.opaque_call(self, args, kwargs)

    def truth(self, I):
        return Cond(("truth", self.k), repr(self))

    def iterate(self, I):
        return [AbsElems(lambda: Opaque("elem", (self,), I.fresh("e")), repr(self))]

    def cls(self, I):
        return self._cls or I.opaque_cls


SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "is": "is", "is not": "is not", "in": "in", "not in": "not in"}


class Cond(AbsVal):
    """undecided boolean; key identifies the proposition, neg its polarity; refine(E, value) records consequences"""
    def __init__(self, key, text="", neg=False, refine=None):
        self.key, self.text, self.neg, self.refine = key, text, neg, refine

    def __repr__(self):
        return ("not " if self.neg else "") + f"[{self.text or self.key}]"

    def negate(self):
        return Cond(self.key, self.text, not self.neg, self.refine)

    def truth(self, I):
        return self

    def hkey(self, I):
        return ("cond", self.key, self.neg)

    def unop(self, I, op):
        if op == "not":
            return self.negate()
        return NotImplemented

    def compare(self, I, op, other, refl):
        if isinstance(other, bool) and op in ("==", "!=", "is", "is not"):
            same = other == (op in ("==", "is"))
            return self if same else self.negate()
        return NotImplemented

    def cls(self, I):
        return I.bt["bool"]


class Engine:
    """enumerates all abstract traces; undecided propositions are decided once per trace and remembered as facts"""
    MAX_TRACES = 20000

    def __init__(self):
        self.log = []
        self.prefix = []
        self.pos = 0
        self.taken = []
        self.facts = {}
        self.forms = {}         # fact key -> the scalar it speaks of
        self.subst = {}
        self.nzs = {}
        self.monos = {}
        self.steps, self.deadline = 0, None
        self.generic = None     # decides that an expression does not vanish for the values the analysis is about
        self.lin = {"ge": (), "ne": ()}     # linear facts about integer symbols: d >= 0 and d != 0
        self.unmodelled = []    # library functions without a model that were called, oldest first
        self.stats = {"traces": 0, "pruned": 0, "forks": 0, "loops_summarised": 0}

    # -- logged mutation
    def put(self, d, k, v):
        self.log.append((d, k, k in d, d.get(k)))
        d[k] = v

    def rm(self, d, k):
        # keep dict order on undo by storing a full copy
        self.log.append((d, None, "all", dict(d)))
        del d[k]

    def rollback(self, mark):
        log = self.log
        while len(log) > mark:
            d, k, had, old = log.pop()
            if had == "all":
                d.clear()
                d.update(old)
            elif had:
                d[k] = old
            else:
                d.pop(k, None)

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided("time limit")

    # -- choices
    def choose(self, n, label):
        self.stats["forks"] += 1
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos][0]
        else:
            c = 0
        self.taken.append((c, n, label))
        self.pos += 1
        return c

    def explore(self, fn, limit=None):
        """run fn on every abstract trace; returns [(result, trace labels)]"""
        limit = limit or self.MAX_TRACES
        saved = (self.prefix, self.pos, self.taken)
        out = []
        prefix = []
        mark = len(self.log)
        while True:
            self.prefix, self.pos, self.taken = prefix, 0, []
            self.stats["traces"] += 1
            self.check_time()
            try:
                r = fn()
                out.append((r, [(c, l) for c, n, l in self.taken]))
            except Prune:
                self.stats["pruned"] += 1
            finally:
                taken = self.taken
                self.rollback(mark)
            # next prefix
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                break
            c, n, l = taken[-1]
            prefix = taken[:-1] + [(c + 1, n, l)]
            if len(out) > limit:
                raise Undecided(f"more than {limit} abstract traces")
        self.prefix, self.pos, self.taken = saved
        return out

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        k = cond.key
        if k in self.facts:
            v = self.facts[k]
        else:
            c = self.choose(2, cond.text or str(k))
            v = (c == 0)
            self.put(self.facts, k, v)
            if cond.refine:
                cond.refine(self, v)
        return v != cond.neg

    # -- linear facts about non-negative integer symbols
    def int_lt0(self, d, text):
        """d < 0: True/False/Cond"""
        ge = self.lin["ge"]
        if ge:
            if infeasible(ge + (d,)):
                return True
            if infeasible(ge + (SI.sub(SI.sub(0, d), 1),)):
                return False
        nd = SI.sub(SI.sub(0, d), 1)
        k1, k2 = SymInt.lift(d).key(), SymInt.lift(nd).key()

        def refine(E, v):
            E.int_assume(nd if v == (k1 <= k2) else d)
        self.forms["ilt0", min(k1, k2)] = d if k1 <= k2 else nd
        c = Cond(("ilt0", min(k1, k2)), text, refine=refine)
        return c if k1 <= k2 else Cond(("ilt0", k2), text, True, refine)

    def int_eq0(self, d, text):
        ge = self.lin["ge"]
        nd = SI.sub(0, d)
        if infeasible(ge + (d, nd)):
            return False
        if ge and infeasible(ge + (SI.sub(d, 1),)) and infeasible(ge + (SI.sub(nd, 1),)):
            return True
        k1, k2 = SymInt.lift(d).key(), SymInt.lift(nd).key()

        def refine(E, v):
            if v:
                E.int_assume(d)
                E.int_assume(nd)
            else:
                E.put(E.lin, "ne", E.lin["ne"] + (d,))
                E.int_tighten()
        self.forms["ieq0", min(k1, k2)] = d
        return Cond(("ieq0", min(k1, k2)), text, refine=refine)

    def int_assume(self, d):
        """record d >= 0"""
        d = SI.SymInt.lift(d)
        self.put(self.lin, "ge", self.lin["ge"] + (d,))
        self.int_tighten()

    def int_tighten(self):
        """d != 0 with d >= 0 (or d <= 0) known: the bound becomes strict"""
        again = True
        while again:
            again = False
            for d in self.lin["ne"]:
                for e in (d, SI.sub(0, d)):
                    if infeasible(self.lin["ge"] + (SI.sub(SI.sub(0, e), 1),)):
                        self.put(self.lin, "ne", tuple(x for x in self.lin["ne"] if x is not d))
                        self.put(self.lin, "ge", self.lin["ge"] + (SI.sub(e, 1),))
                        again = True
                        break
                if again:
                    break
        if infeasible(self.lin["ge"]):
            raise Prune()

    # -- scalars under the facts of the trace
    def norm(self, s):
        n = 0
        while self.subst and n < 10:
            t = s.subs(self.subst)
            if t is s or t.key() == s.key():
                break
            s = t
            n += 1
        return self.reduce(s) if self.monos else s

    def reduce(self, s):
        """rewrite with the polynomial facts (leading monomial -> smaller ones)"""
        for _ in range(60):
            for m, c in s.t.items():
                if m[0] or not m[1]:
                    continue
                e = dict(m[1])
                for lead, val in self.monos.items():
                    if all(e.get(g, 0) >= r for g, r in lead[1]):
                        rest = Scalar({m: c}, s.ty)
                        q = rest
                        for g, r in lead[1]:
                            q = q * Scalar.gen(g, -r)
                        s = s - rest + q * val
                        break
                else:
                    continue
                break
            else:
                return s
        return s

    def scalar_eq(self, a, b):
        """True/False/Cond"""
        d = self.norm(Scalar.lift(a) - Scalar.lift(b))
        if d.is_zero():
            return True
        if d.is_const():
            return False
        if s_equal(d, 0):
            return True
        if self.generic is not None and self.generic(d):
            return False
        key = ("eq0", canon(d))
        if key in self.facts:
            return self.facts[key]
        if self.facts.get(("lt0", canon_pos(d))) is False and self.facts.get(("lt0", canon_pos(-d))) is False:
            self.put(self.facts, key, True)
            if poly(d):
                self.assume_zero(d)
            else:
                self.assume_zero_generic(d)
            return True
        self.forms[key] = d
        if self.nonzero(d):
            return False
        if not poly(d):
            def refine(E, v):
                if v:
                    E.assume_zero_generic(d)
            return Cond(key, f"{d} == 0", refine=refine)
        if any(r.is_const() and not r.is_zero() for r in parts(d)):
            return False
        k2 = canon(d), canon(d.conj())
        for nz in self.nzs.values():
            if canon(self.norm(nz)) in k2:
                return False

        def refine(E, v):
            if v:
                E.assume_zero(d)
            else:
                E.put(E.nzs, key, d)
                if len(d.t) == 1:
                    for g in [g for (ang, gs) in d.t for g, r in gs if r > 0]:
                        h = Scalar.gen(g.data if g.kind == "conj" else g)
                        E.put(E.facts, ("eq0", canon(h)), False)
                        E.put(E.facts, ("eq0", canon(h.conj())), False)
        return Cond(key, f"{d} == 0", refine=refine)

    def nonzero(self, d):
        """d is a single monomial of generators that cannot vanish"""
        if len(d.t) != 1:
            return False
        ((ang, gs), c), = d.t.items()
        return all(g.pos or r < 0 or self.facts.get(("eq0", canon(Scalar.gen(g)))) is False for g, r in gs)

    def assume_zero(self, d):
        """make d == 0 a fact: polynomials are split into factors and real and imaginary parts and solved for generators"""
        self.solve_zero(d)
        again = True
        while again:
            again = False
            for lead, val in list(self.monos.items()):
                p = Scalar({lead: 1 + 0j}) - val
                q = p.subs(self.subst) if self.subst else p
                if q is not p and q.key() != p.key():
                    self.rm(self.monos, lead)
                    self.solve_zero(q)
                    again = True
                    break
        for nz in self.nzs.values():
            if self.norm(nz).is_zero():
                raise Prune()

    def solve_zero(self, d, depth=0):
        d = self.norm(d)
        if d.is_zero():
            return
        if d.is_const():
            raise Prune()
        common = None
        for (ang, gs) in d.t:
            e = {g: r for g, r in gs}
            common = e if common is None else {g: min(r, e[g]) for g, r in common.items() if g in e}
        zero = Scalar({}, "float")
        fac = [g for g in sorted(common) if not g.pos and self.facts.get(("eq0", canon(Scalar.gen(g)))) is not False]
        if common:
            rest = d
            for g, r in common.items():
                rest = rest * Scalar.gen(g, -r)
            opts = fac + ([] if rest.is_const() else [None])
            if not opts:
                raise Prune()
            c = self.choose(len(opts), f"a factor of {d} is 0") if len(opts) > 1 else 0
            g = opts[c]
            if g is None:
                for h in fac:
                    x = Scalar.gen(h)
                    self.put(self.nzs, ("eq0", canon(x)), x)
                    self.put(self.facts, ("eq0", canon(x)), False)
                return self.solve_zero(rest, depth)
            if g.kind == "conj":
                g = g.data
            self.put(self.facts, ("eq0", canon(Scalar.gen(g))), True)
            self.put(self.subst, g, zero)
            return
        lin = []
        for (ang, gs), c in sorted(d.t.items(), key=lambda t: repr(t[0])):
            if len(gs) == 1 and gs[0][1] == 1 and (gs[0][0].kind in ("sym", "conj")) and not gs[0][0].pos:
                g = gs[0][0]
                rest = d - Scalar({((), gs): c})
                base = g.data if g.kind == "conj" else g
                if base not in rest.deep_gens():
                    lin.append((g.real, g.kind == "conj", g, rest * (-1 / c)))
        if lin:
            real, cj, g, val = min(lin, key=lambda t: t[:2])
            if not real:
                if cj:
                    g, val = g.data, val.conj()
                self.put(self.subst, g, val)
                return
            if d.is_real() or (d * 1j).is_real():
                g, val = next(((g, v) for r, cj, g, v in lin if v.is_real()), (None, None))
                if g is not None:
                    self.put(self.subst, g, val)
                    return
        if depth < 3:
            ps = [r for r in parts(d) if not r.is_zero()]
            if len(ps) == 2:
                for r in ps:
                    self.solve_zero(r, depth + 1)
                return
        # c and conj(c) in one real equation: solve for conj(c)
        for (ang, gs), c in sorted(d.t.items(), key=lambda t: repr(t[0])):
            if len(gs) == 1 and gs[0][1] == 1 and gs[0][0].kind == "conj":
                g = gs[0][0]
                rest = d - Scalar({((), gs): c})
                if all(g not in [h for h, r in m[1]] for m in rest.t):
                    self.put(self.subst, g, rest * (-1 / c))
                    return
        q = square_root(d)
        if q is not None:
            return self.solve_zero(q, depth)
        lead = max(d.t, key=lambda m: (sum(r for g, r in m[1]), repr(m)))
        c = d.t[lead]
        if lead not in self.monos and len(lead[1]):
            self.put(self.monos, lead, (d - Scalar({lead: c})) * (-1 / c))

    def assume_zero_generic(self, d):
        """solve d == 0 for a generator that occurs linearly and nowhere else"""
        if len(d.t) == 1:
            ((ang, gs), c), = d.t.items()
            cands = [g for g, r in gs if r > 0 and not g.pos]
            if len(cands) == 1:
                self.put(self.subst, cands[0], Scalar({}, "float"))
                return
        for (ang, gs), c in sorted(d.t.items(), key=lambda t: repr(t[0])):
            if not ang and len(gs) == 1 and gs[0][1] == 1 and gs[0][0].kind in ("sym",):
                g = gs[0][0]
                rest = d - Scalar({(ang, gs): c})
                if g not in rest.deep_gens():
                    val = rest * (-1 / c)
                    if g.real and not val.is_real():
                        continue
                    self.put(self.subst, g, val)
                    return

    def scalar_lt(self, a, b):
        """a < b"""
        d = self.norm(Scalar.lift(a) - Scalar.lift(b))
        if d.is_const():
            return d.const_value().real < -1e-12
        if len(d.t) == 1:
            # sign of a positive monomial
            ((ang, gs), c), = d.t.items()
            if not ang and abs(c.imag) < 1e-9 and all(g.pos for g, _ in gs):
                return c.real < 0
        u = unit_interval(d)
        if u is not None:
            return u
        x = exponents(d)
        if x is not None:
            return self.scalar_lt(x, 0)
        x = logarithm(d)
        if x is not None:
            return self.scalar_lt(x, 0)
        k, kn = ("lt0", canon_pos(d)), ("lt0", canon_pos(-d))
        if k in self.facts:
            return self.facts[k]
        if self.facts.get(kn) is True:
            return False
        eq = self.facts.get(("eq0", canon(d)))
        if eq is True:
            return False
        if eq is False and self.facts.get(kn) is False:
            return True
        self.forms[k] = d

        def refine(E, v):
            if not v and E.facts.get(kn) is False:
                E.scalar_eq(d, 0)
        return Cond(k, f"{d} < 0", refine=refine)


def poly(d):
    """a polynomial of independent symbols"""
    return all(not ang and all(r > 0 and r.denominator == 1 and (g.kind == "sym" or g.kind == "conj" and g.data.kind == "sym") for g, r in gs) for ang, gs in d.t)


def square_root(d):
    """q with q*q == k*d for a constant k, or None"""
    sq = sorted(((m, c) for m, c in d.t.items() if all(r % 2 == 0 for g, r in m[1])), key=lambda t: repr(t[0]))
    if len(sq) < 2:
        return None
    k = sq[0][1]
    q = [(tuple((g, r / 2) for g, r in m[1]), (c / k) ** 0.5) for m, c in sq]
    out = Scalar({((), q[0][0]): 1})
    for gs, c in q[1:]:
        x = Scalar({((), gs): 1})
        cross = next(iter((x * Scalar({((), q[0][0]): 1})).t))
        v = d.t.get(cross, 0) / k / 2
        if abs(v * v - c * c) > 1e-9:
            return None
        out = out + x * v
    return out if (out * out - d * (1 / k)).is_zero() else None


def parts(d):
    c = d.conj()
    return (d + c) * 0.5, (d - c) * (-0.5j)


def exponents(d):
    """x with x < 0 exactly when d < 0, for d = a*exp(p) - b*exp(q) with a, b > 0"""
    if len(d.t) != 2:
        return None
    out = Scalar.const(0)
    signs = set()
    for (ang, gs), c in d.t.items():
        if ang or abs(c.imag) > 1e-12 or abs(c.real) < 1e-12:
            return None
        x = Scalar.const(math.log(abs(c.real)))
        for g, r in gs:
            if not (g.pos and g.kind == "fn" and g.data[0] == "exp"):
                return None
            x = x + g.data[1][0].s * float(r)
        signs.add(c.real > 0)
        out = out + (x if c.real > 0 else x * -1)
    return out if len(signs) == 2 and any(gs for ang, gs in d.t) else None


def logarithm(d):
    """x with x < 0 exactly when d < 0, for d = c*log(a) + b with a real a > 0"""
    logs = [(m, c) for m, c in d.t.items() if any(g.kind == "fn" and g.data[0] == "log" for g, r in m[1])]
    if len(logs) != 1:
        return None
    (m, c), = logs
    if m[0] or len(m[1]) != 1 or m[1][0][1] != 1 or abs(c.imag) > 1e-12:
        return None
    args = m[1][0][0].data[1]
    if len(args) != 1 or not args[0].s.is_real():
        return None
    rest = d - Scalar({m: c})
    if not rest.is_real():
        return None
    x = args[0].s - apply_fn("exp", [rest * (-1 / c.real)])
    return x if c.real > 0 else x * -1


def unit_interval(d):
    """sign of c*U + k for a random number U in [0, 1), when it is the same for all U"""
    c = k = 0.0
    for (ang, gs), v in d.t.items():
        if ang or abs(v.imag) > 1e-12:
            return None
        if not gs:
            k = v.real
        elif len(gs) == 1 and gs[0][1] == 1 and isinstance(gs[0][0].data, tuple) and gs[0][0].data and gs[0][0].data[0] == "U":
            if c:
                return None
            c = v.real
        else:
            return None
    if not c:
        return None
    lo, hi = (k, c + k) if c > 0 else (c + k, k)
    if c > 0:
        return True if hi <= 1e-9 else False if lo >= 0 else None
    return True if hi < 0 else False if lo >= -1e-9 else None


def canon(d):
    """key of the equation d == 0 (invariant under scaling)"""
    items = sorted(d.t.items(), key=lambda t: repr(t[0]))
    c0 = items[0][1]
    return Scalar({m: c / c0 for m, c in items}).key()


def canon_pos(d):
    items = sorted(d.t.items(), key=lambda t: repr(t[0]))
    c0 = abs(items[0][1])
    return Scalar({m: c / c0 for m, c in items}).key()


_INF_CACHE = {}


def infeasible(cs):
    """no assignment of non-negative integers satisfies c >= 0 for all c (Fourier-Motzkin; symbols '~x' may be negative)"""
    rows = set()
    for c in cs:
        c = SymInt.lift(c)
        rows.add((c.c, tuple(sorted(c.t.items()))))
    key = frozenset(rows)
    if key not in _INF_CACHE:
        if len(_INF_CACHE) > 50000:
            _INF_CACHE.clear()
        _INF_CACHE[key] = _fm(rows)
    return _INF_CACHE[key]


def _fm(rows):
    from math import gcd
    rows = set(rows)
    for v in {k for _, t in rows for k, _ in t}:
        if not v.startswith("~"):
            rows.add((0, ((v, 1),)))
    while True:
        vs = {}
        for c, t in rows:
            if not t and c < 0:
                return True
            for k, x in t:
                p = vs.setdefault(k, [0, 0])
                p[x < 0] += 1
        if not vs:
            return False
        v = min(vs, key=lambda k: vs[k][0] * vs[k][1])
        pos, neg, new = [], [], set()
        for r in rows:
            x = dict(r[1]).get(v, 0)
            (pos if x > 0 else neg if x < 0 else new).append((r, x)) if x else new.add(r)
        for (c1, t1), x1 in pos:
            for (c2, t2), x2 in neg:
                d = {}
                for k, y in t1:
                    d[k] = d.get(k, 0) - x2 * y
                for k, y in t2:
                    d[k] = d.get(k, 0) + x1 * y
                d = {k: y for k, y in d.items() if y}
                c = -x2 * c1 + x1 * c2
                g = 0
                for y in d.values():
                    g = gcd(g, y)
                if g > 1:
                    d = {k: y // g for k, y in d.items()}
                    c = c // g      # integer tightening
                new.add((c, tuple(sorted(d.items()))))
        rows = new
        if len(rows) > 2000:
            return False
