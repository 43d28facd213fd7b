"""Scalar domain: Laurent/exponential polynomials with complex float coefficients.

A scalar is a finite sum  c * e^{i(sum q_j a_j)} * prod g_k^{r_k}
with real 'angle' symbols a_j (rational q_j), generators g_k and rational powers r_k.
Sines and cosines of linear forms are expanded to exponentials, so trigonometric identities hold by
normal form.  Non-polynomial functions are generators keyed by their (normalised) arguments.
Equality is decided on normal forms; when only non-polynomial generators differ, by polynomial identity
testing of the two normal forms at fixed pseudo-random points.
"""
import cmath
import math
import random
import zlib
from fractions import Fraction

TOL = 1e-9


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    f = Fraction(x).limit_denominator(1 << 12)
    if abs(float(f) - x) > 1e-9:
        return Fraction(x)
    return f


def _ckey(c):
    return (round(c.real, 7) + 0.0, round(c.imag, 7) + 0.0)


class Gen:
    """A generator. kind: 'sym' (name), 'fn' (name, args), 'psi', 'P' ..."""
    __slots__ = ("kind", "data", "real", "pos", "_h")
    _tab = {}

    def __new__(cls, kind, data, real=True, pos=False):
        k = (kind, data)
        g = cls._tab.get(k)
        if g is None:
            g = object.__new__(cls)
            g.kind, g.data, g.real, g.pos = kind, data, real, pos
            g._h = zlib.crc32(repr(k).encode())
            cls._tab[k] = g
        return g

    def __repr__(self):
        if self.kind == "sym":
            return str(self.data)
        if self.kind == "fn":
            return f"{self.data[0]}({', '.join(map(str, self.data[1]))})"
        if self.kind == "conj":
            return f"conj({self.data})"
        return f"{self.kind}{self.data}"

    def __lt__(self, other):
        return (self._h, repr(self)) < (other._h, repr(other))

    def __deepcopy__(self, memo):
        return self


def _mono(ang, gens):
    return (tuple(sorted(((s, q) for s, q in ang.items() if q), key=lambda t: repr(t[0]))),
            tuple(sorted(((g, r) for g, r in gens.items() if r), key=lambda t: (t[0]._h, repr(t[0])))))


ONE = ((), ())


class Scalar:
    __slots__ = ("t", "ty", "_k")

    def __init__(self, terms, ty="complex"):
        self.t = {m: c for m, c in terms.items() if abs(c) > TOL}
        self.ty = ty
        self._k = None

    # ---- construction
    @staticmethod
    def const(c, ty=None):
        if ty is None:
            ty = "complex" if isinstance(c, complex) else "float"
        return Scalar({ONE: complex(c)}, ty)

    @staticmethod
    def gen(g, power=1, ty=None):
        return Scalar({((), ((g, Fraction(power)),)): 1 + 0j}, ty or ("float" if g.real else "complex"))

    @staticmethod
    def sym(name, real=True, pos=False, ty=None):
        return Scalar.gen(Gen("sym", name, real, pos), ty=ty)

    # ---- inspection
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, _ckey(c)) for m, c in self.t.items()), key=repr))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_value(self):
        c = self.t.get(ONE, 0j)
        return c

    def is_zero(self):
        return not self.t

    def gens(self):
        s = set()
        for (ang, gs), _ in self.t.items():
            for a, _q in ang:
                s.add(a)
            for g, _r in gs:
                s.add(g)
        return s

    def deep_gens(self):
        out = set()
        todo = list(self.gens())
        while todo:
            g = todo.pop()
            if g in out:
                continue
            out.add(g)
            if g.kind in ("fn", "pow"):
                for a in (g.data[1] if g.kind == "fn" else (g.data,)):
                    if isinstance(a, FrozenS):
                        todo.extend(a.s.gens())
            elif g.kind == "conj":
                todo.append(g.data)
            elif g.kind == "prod":
                todo.extend(x for x, _ in g.data)
        return out

    def is_real(self):
        d = self - self.conj()
        return d.is_zero()

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (ang, gs), c in sorted(self.t.items(), key=lambda t: repr(t[0])):
            s = f"({c.real:.6g}{c.imag:+.6g}j)" if abs(c.imag) > TOL else f"{c.real:.6g}"
            if ang:
                s += "*e^i(" + "+".join(f"{q}*{a}" for a, q in ang) + ")"
            for g, r in gs:
                s += f"*{g}" + (f"^{r}" if r != 1 else "")
            out.append(s)
        return " + ".join(out)

    # ---- arithmetic
    @staticmethod
    def lift(x):
        if isinstance(x, Scalar):
            return x
        if isinstance(x, bool):
            return Scalar.const(int(x), "int")
        if isinstance(x, int):
            return Scalar.const(x, "int")
        if isinstance(x, float):
            return Scalar.const(x, "float")
        if isinstance(x, complex):
            return Scalar.const(x, "complex")
        return None

    def _rty(self, o):
        order = {"int": 0, "float": 1, "complex": 2, "sympy": 3}
        return max(self.ty, o.ty, key=lambda t: order[t])

    def __add__(self, o):
        o = Scalar.lift(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0j) + c
        return Scalar(t, self._rty(o))

    __radd__ = __add__

    def __neg__(self):
        return Scalar({m: -c for m, c in self.t.items()}, self.ty)

    def __sub__(self, o):
        return self + (-Scalar.lift(o))

    def __rsub__(self, o):
        return Scalar.lift(o) + (-self)

    def __mul__(self, o):
        o = Scalar.lift(o)
        if len(o.t) == 1 and ONE in o.t:
            c = o.t[ONE]
            return Scalar({m: v * c for m, v in self.t.items()}, self._rty(o))
        t = {}
        for (a1, g1), c1 in self.t.items():
            for (a2, g2), c2 in o.t.items():
                if not a2 and not g2:
                    m = (a1, g1)
                elif not a1 and not g1:
                    m = (a2, g2)
                else:
                    ang = dict(a1)
                    for s, q in a2:
                        ang[s] = ang.get(s, 0) + q
                    gs = dict(g1)
                    for g, r in g2:
                        gs[g] = gs.get(g, 0) + r
                    m = _mono(ang, gs)
                t[m] = t.get(m, 0j) + c1 * c2
        return _expand_pows(Scalar(t, self._rty(o)))

    __rmul__ = __mul__

    def inv(self):
        if len(self.t) == 1:
            ((ang, gs), c), = self.t.items()
            return Scalar({_mono({s: -q for s, q in ang}, {g: -r for g, r in gs}): 1 / c}, "complex" if self.ty == "complex" else self.ty if self.ty == "sympy" else "float")
        if not self.t:
            raise ZeroDivisionError
        return Scalar.gen(powgen(self), -1, ty=self.ty if self.ty in ("complex", "sympy") else "float")

    def __truediv__(self, o):
        r = self * Scalar.lift(o).inv()
        if r.ty == "int":
            r.ty = "float"
        return r

    def __rtruediv__(self, o):
        return Scalar.lift(o) / self

    def __pow__(self, n):
        if isinstance(n, int):
            if n >= 0:
                r = Scalar.const(1, "int")
                b = self
                k = n
                while k:
                    if k & 1:
                        r = r * b
                    b = b * b
                    k >>= 1
                r.ty = self.ty
                return r
            return (self ** (-n)).inv()
        return self.rpow(frac(n))

    def rpow(self, q):
        q = frac(q)
        if q.denominator == 1:
            return self ** int(q)
        if self.is_const():
            v = self.const_value()
            if v.imag == 0 and v.real >= 0:
                return Scalar.const(v.real ** float(q), "float")
            return Scalar.const(v ** float(q))
        if len(self.t) == 1:
            ((ang, gs), c), = self.t.items()
            if not ang and abs(c.imag) < TOL and c.real > 0 and all(g.pos for g, _ in gs):
                return Scalar({_mono({}, {g: r * q for g, r in gs}): c.real ** float(q)}, "float")
            # squares of real generators: sqrt(g^2) = |g|
        return Scalar.gen(powgen(self), q, ty="float" if self.is_real() else "complex")

    def conj(self):
        t = {}
        for (ang, gs), c in self.t.items():
            ng = {}
            for g, r in gs:
                if g.real:
                    ng[g] = ng.get(g, 0) + r
                elif g.kind == "conj":
                    ng[g.data] = ng.get(g.data, 0) + r
                else:
                    h = Gen("conj", g, False)
                    ng[h] = ng.get(h, 0) + r
            m = _mono({s: -q for s, q in ang}, ng)
            t[m] = t.get(m, 0j) + c.conjugate()
        return Scalar(t, self.ty)

    def real_part(self):
        r = (self + self.conj()) * 0.5
        r.ty = "float"
        return r

    def imag_part(self):
        r = (self - self.conj()) * (-0.5j)
        r.ty = "float"
        return r

    def absolute(self):
        if self.is_const():
            return Scalar.const(abs(self.const_value()), "float")
        sq = self * self.conj()
        r = sq.rpow(Fraction(1, 2))
        r.ty = "float"
        return r

    # ---- substitution of generators/angles by scalars
    def subs(self, mp):
        """mp: {Gen: Scalar}; angle symbols may be replaced by linear forms."""
        if not mp:
            return self
        dg = self.deep_gens()
        if not any(g in dg for g in mp):
            return self
        out = Scalar({}, self.ty)
        for (ang, gs), c in self.t.items():
            term = Scalar.const(c, self.ty)
            lin = Scalar({}, "float")
            for a, q in ang:
                if a in mp:
                    v = mp[a]
                elif a.kind == "prod":
                    v = Scalar({((), a.data): 1 + 0j}, "float").subs(mp)
                else:
                    v = Scalar.gen(a)
                lin = lin + v * float(q)
            if ang:
                term = term * expi(lin)
            for g, r in gs:
                if g in mp:
                    v = mp[g]
                elif g.kind == "conj" and g.data in mp:
                    v = mp[g.data].conj()
                elif g.kind == "fn":
                    args = tuple(FrozenS(a.s.subs(mp)) if isinstance(a, FrozenS) else a for a in g.data[1])
                    v = apply_fn(g.data[0], [a.s if isinstance(a, FrozenS) else a for a in args])
                elif g.kind == "pow":
                    v = g.data.s.subs(mp)
                else:
                    v = Scalar.gen(g)
                if r.denominator == 1 and r > 0:
                    term = term * v ** int(r)
                else:
                    term = term * v.rpow(r)
            out = out + term
        out.ty = self.ty
        return out

    def evalf(self, env):
        tot = 0j
        for (ang, gs), c in self.t.items():
            v = c
            if ang:
                v *= cmath.exp(1j * sum(env(a).real * float(q) for a, q in ang))
            for g, r in gs:
                b = env(g)
                if r.denominator == 1:
                    v *= b ** int(r)
                else:
                    v *= b ** float(r)
            tot += v
        return tot


class FrozenS:
    """Hashable wrapper of a scalar (argument of a generator)."""
    __slots__ = ("s", "_h")

    def __init__(self, s):
        self.s = s
        self._h = hash(repr(s.key()))

    def __eq__(self, o):
        return isinstance(o, FrozenS) and self.s.key() == o.s.key()

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.s)


def powgen(s):
    """generator standing for the value of the polynomial s itself (used with fractional/negative powers)"""
    return Gen("pow", FrozenS(Scalar(s.t, "complex")), s.is_real(), False)


def _expand_pows(s):
    """(poly)^(integer>0) produced by multiplying fractional powers is expanded back."""
    if not any(g.kind == "pow" and r.denominator == 1 and r > 0 for (_a, gs) in s.t for g, r in gs):
        return s
    out = Scalar({}, s.ty)
    for (ang, gs), c in s.t.items():
        term = Scalar({(ang, tuple((g, r) for g, r in gs if not (g.kind == "pow" and r.denominator == 1 and r > 0))): c}, s.ty)
        for g, r in gs:
            if g.kind == "pow" and r.denominator == 1 and r > 0:
                term = term * (g.data.s ** int(r))
        out = out + term
    out.ty = s.ty
    return out


def _linear(s):
    """s = const + sum q_j g_j with all g_j of power 1 (no exponentials)? -> (const, {g: coef}) or None"""
    const = 0j
    lin = {}
    for (ang, gs), c in s.t.items():
        if ang:
            return None
        if not gs:
            const = c
        elif len(gs) == 1 and gs[0][1] == 1:
            lin[gs[0][0]] = c
        else:
            # treat a product of generators as one opaque real symbol
            lin[_prodgen(gs)] = c
    return const, lin


def _prodgen(gs):
    if all(g.real for g, _ in gs):
        return Gen("prod", gs, True)
    return Gen("prod", gs, False)


def cexp(s):
    """e^s"""
    s = Scalar.lift(s)
    l = _linear(s)
    if l is None:
        return Scalar.gen(Gen("fn", ("exp", (FrozenS(s),)), s.is_real()))
    const, lin = l
    ang = {}
    extra = Scalar.const(cmath.exp(const))
    for g, c in lin.items():
        if g.real and abs(c.real) < TOL:
            ang[g] = frac(c.imag)
        else:
            if g.real and abs(c.imag) < TOL:
                # e^(c x) as a power of e^x: products of such factors combine
                one = Scalar({((), ((g, Fraction(1)),)): 1 + 0j}) if g.kind != "prod" else Scalar({((), g.data): 1 + 0j})
                extra = extra * Scalar({((), ((Gen("fn", ("exp", (FrozenS(one),)), True, True), frac(c.real)),)): 1 + 0j})
                continue
            one = Scalar({((), ((g, Fraction(1)),)): c}) if g.kind != "prod" else Scalar({((), g.data): c})
            extra = extra * Scalar.gen(Gen("fn", ("exp", (FrozenS(one),)), abs(c.imag) < TOL and g.real, abs(c.imag) < TOL and g.real))
    r = Scalar({_mono(ang, {}): 1 + 0j}) * extra
    r.ty = "complex"
    return r


def expi(s):
    return cexp(Scalar.lift(s) * 1j)


def apply_fn(name, args):
    x = Scalar.lift(args[0])
    if name == "cos":
        e = expi(x)
        r = (e + expi(-x)) * 0.5
        r.ty = "float"
        return r
    if name == "sin":
        r = (expi(x) - expi(-x)) * (-0.5j)
        r.ty = "float"
        return r
    if name == "exp":
        r = cexp(x)
        if x.is_real():
            r.ty = "float"
        return r
    if name == "sqrt":
        return x.rpow(Fraction(1, 2))
    if name == "abs":
        return x.absolute()
    if name == "real":
        return x.real_part()
    if name == "imag":
        return x.imag_part()
    if name == "conj":
        return x.conj()
    if x.is_const() and len(args) == 1:
        f = getattr(cmath if abs(x.const_value().imag) > TOL else math, name, None)
        if f is not None:
            v = x.const_value()
            return Scalar.const(f(v if abs(v.imag) > TOL else v.real))
    return Scalar.gen(Gen("fn", (name, tuple(FrozenS(Scalar.lift(a)) for a in args)), x.is_real()))


# ---- polynomial identity testing for normal forms that differ only in non-polynomial generators
class PIT:
    def __init__(self, seed, given=None):
        self.rng_seed = seed
        self.cache = dict(given or {})

    def rnd(self, tag):
        return random.Random(zlib.crc32((str(self.rng_seed) + repr(tag)).encode())).uniform(0.15, 0.95)

    def __call__(self, g):
        if g in self.cache:
            return self.cache[g]
        if g.kind == "conj":
            v = self(g.data).conjugate()
        elif g.kind == "pow":
            v = g.data.s.evalf(self)
        elif g.kind == "prod":
            v = 1
            for h, r in g.data:
                v *= self(h) ** (int(r) if r.denominator == 1 else float(r))
        elif g.kind == "fn":
            name, args = g.data
            xs = [a.s.evalf(self) for a in args]
            v = _evalfn(name, xs, self)
        elif g.kind == "P":
            v = self.prob(g)
        elif g.real:
            v = self.rnd(g.data) if g.pos else 2 * self.rnd(g.data) - 1.1
        else:
            v = complex(2 * self.rnd((g.data, "re")) - 1, 2 * self.rnd((g.data, "im")) - 1.1)
        self.cache[g] = v
        return v

    def prob(self, g):
        """joint probability that all listed bits are zero: independent bits keep the relations consistent"""
        v = 1.0
        for p in g.data[1]:
            v *= self.rnd(("bit", g.data[0], p))
        return v


def _evalfn(name, xs, pit):
    try:
        if name in ("exp",):
            return cmath.exp(xs[0])
        f = getattr(cmath, name, None)
        if f is not None and len(xs) == 1:
            return f(xs[0])
    except (ValueError, OverflowError):
        pass
    return complex(2 * pit.rnd((name, tuple((round(x.real, 9), round(x.imag, 9)) for x in map(complex, xs)))) - 1, 0)


def _nonpoly(s):
    return any(g.kind in ("pow", "fn", "prod") or r.denominator != 1 or r < 0
               for (_a, gs) in s.t for g, r in gs)


def equal(a, b):
    d = Scalar.lift(a) - Scalar.lift(b)
    if d.is_zero():
        return True
    if not _nonpoly(d) and not any(g.kind == "prod" for g in d.gens()):
        return False
    for seed in (11, 23, 37):
        pit = PIT(seed)
        try:
            va, vb = Scalar.lift(a).evalf(pit), Scalar.lift(b).evalf(pit)
        except (ZeroDivisionError, OverflowError):
            continue
        if abs(va - vb) > 1e-6 * (1 + abs(va)):
            return False
    return True
