"""Integer domains.

SymInt  : linear forms over non-negative slack symbols.  Ordered qubit positions 0 <= p0 < p1 < ... < N are written
          p0 = s0, p1 = s0+1+s1, ..., so every order question about positions is decided by the signs of coefficients.
BitInt  : non-negative integers described by disjoint bit segments: constant ones, or a copy of a segment of a
          source variable's bits, with symbolic (SymInt) borders.  Borders may be infinite (complement of a mask).
"""
from .errors import Undecided


class _Inf:
    def __repr__(self):
        return "inf"


INF = _Inf()


class SymInt:
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def lift(x):
        if isinstance(x, SymInt):
            return x
        return SymInt(int(x))

    def simp(self):
        return self.c if not self.t else self

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def __eq__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return not self.t and self.c == o
        return isinstance(o, SymInt) and self.key() == o.key()

    def __hash__(self):
        return hash(self.c) if not self.t else hash(self.key())

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = "+".join((f"{v}*{k}" if v != 1 else k) for k, v in sorted(self.t.items()))
        return f"<{s}{self.c:+d}>" if self.c else f"<{s}>"

    def add(self, o, k=1):
        o = SymInt.lift(o)
        t = dict(self.t)
        for s, v in o.t.items():
            t[s] = t.get(s, 0) + k * v
        return SymInt(self.c + k * o.c, t).simp()

    def mul(self, k):
        return SymInt(self.c * k, {s: v * k for s, v in self.t.items()}).simp()


def add(a, b):
    return SymInt.lift(a).add(b) if isinstance(a, SymInt) or isinstance(b, SymInt) else a + b


def sub(a, b):
    return SymInt.lift(a).add(b, -1) if isinstance(a, SymInt) or isinstance(b, SymInt) else a - b


def sign(d):
    """'+' >0, '0', '-' <0, '>=', '<=', None unknown"""
    if not isinstance(d, SymInt):
        return "+" if d > 0 else "-" if d < 0 else "0"
    if any(k.startswith("~") for k in d.t):
        return None
    ps = all(v >= 0 for v in d.t.values())
    ng = all(v <= 0 for v in d.t.values())
    if ps:
        return "+" if d.c > 0 else ">=" if d.c == 0 else None
    if ng:
        return "-" if d.c < 0 else "<=" if d.c == 0 else None
    return None


def le(a, b):
    """a <= b : True / False / None"""
    if b is INF:
        return True
    if a is INF:
        return False
    s = sign(sub(b, a))
    if s in ("+", "0", ">="):
        return True
    if s == "-":
        return False
    return None


def lt(a, b):
    if b is INF:
        return a is not INF
    if a is INF:
        return False
    s = sign(sub(b, a))
    if s == "+":
        return True
    if s in ("0", "-", "<="):
        return False
    return None


def eq(a, b):
    if a is INF or b is INF:
        return a is b
    s = sign(sub(a, b))
    if s == "0":
        return True
    if s in ("+", "-"):
        return False
    return None


def _max(a, b):
    r = le(a, b)
    if r is True:
        return b
    r2 = le(b, a)
    if r2 is True:
        return a
    raise Undecided(f"order of {a} and {b} unknown")


def _min(a, b):
    r = le(a, b)
    if r is True:
        return a
    r2 = le(b, a)
    if r2 is True:
        return b
    raise Undecided(f"order of {a} and {b} unknown")


def skey(x):
    return ("inf",) if x is INF else SymInt.lift(x).key()


class Seg:
    """bits [lo,hi): src None -> ones;  else (name, shift, neg): bit p = [not] source bit p-shift"""
    __slots__ = ("lo", "hi", "src")

    def __init__(self, lo, hi, src=None):
        self.lo, self.hi, self.src = lo, hi, src

    def key(self):
        return (skey(self.lo), skey(self.hi), None if self.src is None else (self.src[0], skey(self.src[1]), self.src[2]))

    def __repr__(self):
        return f"[{self.lo},{self.hi}){'1' if self.src is None else self.src}"


class BitInt:
    """bounded/unbounded non-negative integer given by segments (sorted when possible)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        out = []
        for s in segs:
            e = le(s.hi, s.lo)
            if e is True:
                continue
            out.append(s)
        # merge adjacent/sort (orders known only up to sign analysis)
        import functools

        def cmp(a, b):
            if le(a.hi, b.lo) is True:
                return -1
            if le(b.hi, a.lo) is True:
                return 1
            return 0
        out.sort(key=functools.cmp_to_key(cmp))
        merged = []
        for s in out:
            if merged and eq(merged[-1].hi, s.lo) is True and _samesrc(merged[-1].src, s.src):
                merged[-1] = Seg(merged[-1].lo, s.hi, s.src)
            else:
                merged.append(s)
        self.segs = tuple(merged)

    def key(self):
        return tuple(s.key() for s in self.segs)

    def __eq__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o < 0:
                return False
            o = from_int(o)
        return isinstance(o, BitInt) and self.key() == o.key()

    def __hash__(self):
        v = self.const()
        return hash(v) if v is not None else hash(self.key())

    def __repr__(self):
        return "Bits{" + " ".join(map(repr, self.segs)) + "}"

    def const(self):
        v = 0
        for s in self.segs:
            if s.src is not None or s.hi is INF or isinstance(s.lo, SymInt) or isinstance(s.hi, SymInt):
                return None
            v |= ((1 << (s.hi - s.lo)) - 1) << s.lo
        return v

    def simp(self):
        v = self.const()
        return self if v is None else v

    def pow2(self):
        """exponent if the value is exactly 2**e, else None"""
        if len(self.segs) == 1:
            s = self.segs[0]
            if s.src is None and eq(add(s.lo, 1), s.hi) is True:
                return s.lo
        return None


def _samesrc(a, b):
    if a is None or b is None:
        return a is b
    return a[0] == b[0] and eq(a[1], b[1]) is True and a[2] == b[2]


def from_int(v):
    if v < 0:
        # two's complement, infinite ones above
        inv = ~v
        return bnot(from_int(inv))
    segs = []
    p = 0
    while v:
        if v & 1:
            lo = p
            while v & 1:
                v >>= 1
                p += 1
            segs.append(Seg(lo, p))
        else:
            v >>= 1
            p += 1
    return BitInt(segs)


def lift(x):
    if isinstance(x, BitInt):
        return x
    if isinstance(x, bool):
        return from_int(int(x))
    if isinstance(x, int):
        return from_int(x)
    if hasattr(x, "as_bits"):
        return x.as_bits()
    raise Undecided(f"bit operation on {x!r}")


def power2(e):
    return BitInt([Seg(e, add(e, 1))]).simp()


def ones(lo, hi):
    return BitInt([Seg(lo, hi)])


def var(name, width):
    """a generic integer in [0, 2**width)"""
    return BitInt([Seg(0, width, (name, 0, False))])


def bnot(x):
    x = lift(x)
    segs = []
    cur = 0
    for s in x.segs:
        segs.append(Seg(cur, s.lo))
        if s.src is not None:
            segs.append(Seg(s.lo, s.hi, (s.src[0], s.src[1], not s.src[2])))
        cur = s.hi
    if cur is not INF:
        segs.append(Seg(cur, INF))
    return BitInt(segs)


def _comb(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if _samesrc(a, b):
        return a
    if a[0] == b[0] and eq(a[1], b[1]) is True:
        return "zero"
    raise Undecided(f"conjunction of different bit sources {a} and {b}")


def band(x, y):
    x, y = lift(x), lift(y)
    segs = []
    for a in x.segs:
        for b in y.segs:
            if le(a.hi, b.lo) is True or le(b.hi, a.lo) is True:
                continue
            lo, hi = _max(a.lo, b.lo), _min(a.hi, b.hi)
            if le(hi, lo) is True:
                continue
            src = _comb(a.src, b.src)
            if src == "zero":
                continue
            segs.append(Seg(lo, hi, src))
    return BitInt(segs).simp()


def _minus(segs, b):
    """segments minus the range of b"""
    out = []
    for a in segs:
        if le(a.hi, b.lo) is True or le(b.hi, a.lo) is True:
            out.append(a)
            continue
        hi1 = _min(a.hi, b.lo)
        out.append(Seg(a.lo, hi1, a.src)) if le(hi1, a.lo) is not True else None
        lo2 = _max(a.lo, b.hi)
        out.append(Seg(lo2, a.hi, a.src)) if le(a.hi, lo2) is not True else None
    return out


def bor(x, y):
    x, y = lift(x), lift(y)
    res = list(x.segs)
    for b in y.segs:
        rest = [b]
        for a in x.segs:
            nrest = []
            for r in rest:
                if le(a.hi, r.lo) is True or le(r.hi, a.lo) is True:
                    nrest.append(r)
                    continue
                # overlap
                lo, hi = _max(a.lo, r.lo), _min(a.hi, r.hi)
                if a.src is None or _samesrc(a.src, r.src):
                    nrest += _minus([r], Seg(lo, hi))
                elif r.src is None:
                    res = _minus(res, Seg(lo, hi))
                    nrest.append(r)
                elif a.src[0] == r.src[0] and eq(a.src[1], r.src[1]) is True:
                    res = _minus(res, Seg(lo, hi))
                    nrest += _minus([r], Seg(lo, hi))
                    nrest.append(Seg(lo, hi))
                else:
                    raise Undecided(f"disjunction of different bit sources {a.src} {r.src}")
            rest = nrest
        res += rest
    return BitInt(res).simp()


def bxor(x, y):
    x, y = lift(x), lift(y)
    if disjoint(x, y):
        return bor(x, y)
    # xor = (x | y) with overlaps resolved
    xs, ys = list(x.segs), list(y.segs)
    out = []
    ox, oy = list(x.segs), list(y.segs)
    for a in xs:
        for b in ys:
            if le(a.hi, b.lo) is True or le(b.hi, a.lo) is True:
                continue
            lo, hi = _max(a.lo, b.lo), _min(a.hi, b.hi)
            cut = Seg(lo, hi)
            ox = _minus(ox, cut)
            oy = _minus(oy, cut)
            if a.src is None and b.src is None:
                continue
            if a.src is None or b.src is None:
                s = a.src or b.src
                out.append(Seg(lo, hi, (s[0], s[1], not s[2])))
            elif a.src[0] == b.src[0] and eq(a.src[1], b.src[1]) is True:
                if a.src[2] != b.src[2]:
                    out.append(cut)
            else:
                raise Undecided("xor of different bit sources")
    return BitInt(ox + oy + out).simp()


def shl(x, k):
    if not isinstance(x, BitInt) and x == 1:
        return power2(k)
    x = lift(x)
    return BitInt([Seg(add(s.lo, k), INF if s.hi is INF else add(s.hi, k),
                       None if s.src is None else (s.src[0], add(s.src[1], k), s.src[2])) for s in x.segs]).simp()


def shr(x, k):
    x = lift(x)
    segs = []
    for s in x.segs:
        lo, hi = sub(s.lo, k), INF if s.hi is INF else sub(s.hi, k)
        if hi is not INF and le(hi, 0) is True:
            continue
        lo = _max(lo, 0)
        segs.append(Seg(lo, hi, None if s.src is None else (s.src[0], sub(s.src[1], k), s.src[2])))
    return BitInt(segs).simp()


def disjoint(x, y):
    for a in x.segs:
        for b in y.segs:
            if not (le(a.hi, b.lo) is True or le(b.hi, a.lo) is True):
                return False
    return True


def badd(x, y):
    x, y = lift(x), lift(y)
    if disjoint(x, y):
        return bor(x, y)
    p, q = x.pow2(), y.pow2()
    if p is not None and q is not None and eq(p, q) is True:
        return power2(add(p, 1))
    for a, b in ((x, y), (y, x)):
        if a.const() == 1 and len(b.segs) == 1 and b.segs[0].src is None and eq(b.segs[0].lo, 0) is True and b.segs[0].hi is not INF:
            return power2(b.segs[0].hi)
    raise Undecided(f"addition with carries: {x} + {y}")


def bsub(x, y):
    x, y = lift(x), lift(y)
    if y.const() == 0:
        return x.simp()
    p, q = x.pow2(), y.pow2()
    if p is not None and q is not None and le(q, p) is True:
        return ones(q, p).simp()
    # subtracting bits known to be set (all of y's bits are ones of x)
    if all(s.src is None for s in y.segs):
        inter = lift(band(x, y))
        if inter.key() == y.key() and all(s.src is None for s in inter.segs):
            return band(x, bnot(y))
    if x.key() == y.key():
        return 0
    inter = lift(band(x, y))
    if inter.key() == y.key():
        return band(x, bnot(y))
    raise Undecided(f"subtraction with borrows: {x} - {y}")


def bcmp_eq(x, y):
    """equality of two bit integers: True / False / None or a ('bit', source, index, value) condition"""
    x, y = lift(x), lift(y)
    if x.key() == y.key():
        return True
    d = lift(bxor(x, y))
    if any(s.src is None and lt(s.lo, s.hi) is True for s in d.segs):
        return False
    if not d.segs:
        return True
    if len(d.segs) == 1 and d.segs[0].src is not None:
        s = d.segs[0]
        if eq(add(s.lo, 1), s.hi) is True:
            # equal iff that bit of the difference is 0
            return ("bit", s.src[0], sub(s.lo, s.src[1]), 1 if s.src[2] else 0)
    return None
