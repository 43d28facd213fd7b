"""Model of the sympy names the package may use: exact scalars and matrices, also Kronecker products of symbolic width."""
import math
from .core import *
from .errors import *
from .scalar import Scalar, Gen, expi, apply_fn, equal as s_equal
from .symint import SymInt, BitInt
from . import symint as SI


def sy(I, v):
    s = I.to_scalar(v)
    if s is None:
        raise I.undecided(f"sympy value {v!r}")
    return retype(s)


def retype(s):
    s = Scalar.lift(s)
    if s.ty == "sympy":
        return s
    return Scalar(s.t, "sympy")


def subs_scalar(I, s, pairs, simultaneous):
    def gen(old):
        o = I.to_scalar(old)
        if o is None or len(o.t) != 1:
            raise I.undecided(f"substitution of {old!r}")
        ((ang, gs), c), = o.t.items()
        if ang or len(gs) != 1 or gs[0][1] != 1 or abs(c - 1) > 1e-12:
            raise I.undecided(f"substitution of {old!r}")
        return gs[0][0]
    if simultaneous:
        return retype(s.subs({gen(o): sy(I, n) for o, n in pairs}))
    for o, n in pairs:
        s = s.subs({gen(o): sy(I, n)})
    return retype(s)


def subs_args(I, a, k):
    sim = bool(k.get("simultaneous", False))
    if len(a) == 2:
        return [(a[0], a[1])], sim
    if isinstance(a[0], DictObj):
        return [(x, y) for x, y in a[0].pairs()], sim
    return [tuple(I.list_values(x)) for x in I.list_values(a[0])], sim


def scalar_attr(I, o, name):
    def nat(f):
        return (Native("sympy." + name, f),)
    if name in ("subs", "xreplace"):
        return nat(lambda I, a, k: subs_scalar(I, o, *subs_args(I, a, dict(k, simultaneous=True) if name == "xreplace" else k)))
    if name in ("simplify", "expand", "doit", "evalf", "n", "trigsimp", "nsimplify", "together", "cancel", "factor", "radsimp", "rewrite"):
        return nat(lambda I, a, k: o)
    if name in ("conjugate", "adjoint"):
        return nat(lambda I, a, k: retype(o.conj()))
    if name == "as_numer_denom":
        def nd(I, a, k):
            if o.is_const():
                v = o.const_value().real
                from fractions import Fraction
                f = Fraction(v).limit_denominator(10 ** 6)
                if abs(float(f) - v) < 1e-12:
                    return (Scalar.const(float(f.numerator), "sympy"), Scalar.const(float(f.denominator), "sympy"))
            d = Scalar.gen(Gen("sym", "denominator of " + min(repr(o), repr(-o)), True, True))
            return (retype(o * d), retype(d))
        return nat(nd)
    if name == "as_real_imag":
        return nat(lambda I, a, k: (retype(o.real_part()), retype(o.imag_part())))
    if name == "free_symbols":
        s = SetObj()
        for g in o.gens():
            if g.kind == "sym":
                v = retype(Scalar.gen(g))
                s.f["items"][I.hkey(v)] = v
        return (s,)
    if name == "is_number":
        return (o.is_const(),)
    if name == "is_zero":
        return (o.is_zero() if o.is_const() or o.is_zero() else None,)
    if name == "is_real":
        return (True if o.is_real() else None,)
    if name in ("args", "func", "is_Symbol"):
        raise I.undecided("structure of a sympy expression")
    return None


class SMat(AbsVal):
    """matrix with explicit entries"""
    def __init__(self, rows):
        self.f = {"rows": tuple(tuple(r) for r in rows)}

    @property
    def rows(self):
        return self.f["rows"]

    @property
    def shape(self):
        return (len(self.rows), len(self.rows[0]) if self.rows else 0)

    def __repr__(self):
        return f"Matrix({[list(r) for r in self.rows]!r})"

    def hkey(self, I):
        return ("smat", tuple(x.key() for r in self.rows for x in r), self.shape)

    def map(self, f):
        return SMat([[retype(f(x)) for x in r] for r in self.rows])

    def binop(self, I, op, o, refl):
        if isinstance(o, Factors) or isinstance(o, KOp):
            return NotImplemented
        if isinstance(o, SMat):
            a, b = (o, self) if refl else (self, o)
            if op in ("+", "-"):
                if a.shape != b.shape:
                    raise I.exc("ShapeError" if "ShapeError" in I.builtins else "ValueError", "matrix size mismatch")
                return SMat([[retype(x + y if op == "+" else x - y) for x, y in zip(p, q)] for p, q in zip(a.rows, b.rows)])
            if op in ("*", "@"):
                if a.shape[1] != b.shape[0]:
                    raise I.exc("ValueError", "matrix size mismatch")
                out = []
                for r in a.rows:
                    row = []
                    for j in range(b.shape[1]):
                        s = Scalar({})
                        for x, q in zip(r, b.rows):
                            if not x.is_zero() and not q[j].is_zero():
                                s = s + x * q[j]
                        row.append(retype(s))
                    out.append(row)
                return SMat(out)
            return NotImplemented
        if I.is_num(o):
            s = sy(I, o)
            if op == "*":
                return self.map(lambda x: x * s)
            if op == "/" and not refl:
                if s.is_zero():
                    raise I.exc("ZeroDivisionError", "division by zero")
                return self.map(lambda x: x / s)
            if op == "**" and not refl and isinstance(o, int):
                if o < 0:
                    raise I.undecided("inverse of a matrix")
                r = eye(self.shape[0])
                for _ in range(o):
                    r = r.binop(I, "*", self, False)
                return r
            raise I.exc("TypeError", f"matrix {op} number")
        return NotImplemented

    def unop(self, I, op):
        if op == "-":
            return self.map(lambda x: -x)
        if op == "+":
            return self
        return NotImplemented

    def compare(self, I, op, o, refl):
        if op in ("==", "!="):
            if not isinstance(o, SMat):
                return op == "!="
            same = self.shape == o.shape and all(s_equal(x, y) for p, q in zip(self.rows, o.rows) for x, y in zip(p, q))
            return same == (op == "==")
        return NotImplemented

    def getitem(self, I, k):
        n, m = self.shape

        def one(i, size):
            if isinstance(i, SliceObj):
                from . import models
                return list(range(size))[models.pyslice(i)], True
            i = idx(I, i)
            if not -size <= i < size:
                raise I.exc("IndexError", "index out of range")
            return [i % size], False
        if isinstance(k, tuple):
            (r, rs), (c, cs) = one(k[0], n), one(k[1], m)
            if rs or cs:
                return SMat([[self.rows[i][j] for j in c] for i in r])
            return self.rows[r[0]][c[0]]
        flat = [x for r in self.rows for x in r]
        r, rs = one(k, n * m)
        return ListObj([flat[i] for i in r]) if rs else flat[r[0]]

    def setitem(self, I, k, v):
        if not isinstance(k, tuple) or not all(isinstance(x, int) for x in k):
            raise I.undecided("assignment to a block of a sympy matrix")
        i, j = k[0] % self.shape[0], k[1] % self.shape[1]
        rows = [list(r) for r in self.rows]
        rows[i][j] = sy(I, v)
        I.E.put(self.f, "rows", tuple(map(tuple, rows)))

    def iterate(self, I):
        return [x for r in self.rows for x in r]

    def truth(self, I):
        return True

    def cls(self, I):
        return I.bt.setdefault("sympyMatrix", ClassObj("Matrix", [I.bt["object"]]))

    def getattr(self, I, name):
        r = mat_attr(I, self, name)
        if r is not None:
            return r
        raise I.exc("AttributeError", f"'Matrix' object has no attribute '{name}'")


def mat_attr(I, m, name):
    def nat(f):
        return Native("Matrix." + name, f)
    if name == "shape":
        return m.shape
    if name in ("rows", "cols"):
        return m.shape[name == "cols"]
    if name in ("T",):
        return SMat(zip(*m.rows))
    if name == "transpose":
        return nat(lambda I, a, k: SMat(zip(*m.rows)))
    if name in ("H",):
        return SMat([[retype(x.conj()) for x in r] for r in zip(*m.rows)])
    if name in ("adjoint",):
        return nat(lambda I, a, k: SMat([[retype(x.conj()) for x in r] for r in zip(*m.rows)]))
    if name in ("C",):
        return m.map(lambda x: x.conj())
    if name == "conjugate":
        return nat(lambda I, a, k: m.map(lambda x: x.conj()))
    if name in ("subs", "xreplace"):
        def sub(I, a, k):
            pairs, sim = subs_args(I, a, k)
            return m.map(lambda x: subs_scalar(I, x, pairs, sim or name == "xreplace"))
        return nat(sub)
    if name in ("simplify", "expand", "evalf", "n", "as_mutable", "as_immutable", "copy", "doit", "as_explicit", "applyfunc_"):
        def cp(I, a, k):
            return None if name == "simplify" else SMat(m.rows)
        return nat(cp)
    if name == "applyfunc":
        return nat(lambda I, a, k: SMat([[sy(I, I.call(a[0], [x], {})) for x in r] for r in m.rows]))
    if name == "tolist":
        return nat(lambda I, a, k: ListObj([ListObj(list(r)) for r in m.rows]))
    if name == "dot" or name == "multiply":
        return nat(lambda I, a, k: I.binop("*", m, a[0]))
    if name == "row":
        return nat(lambda I, a, k: SMat([m.rows[a[0]]]))
    if name == "col":
        return nat(lambda I, a, k: SMat([[r[a[0]]] for r in m.rows]))
    if name in ("trace",):
        def tr(I, a, k):
            s = Scalar({})
            for i in range(m.shape[0]):
                s = s + m.rows[i][i]
            return retype(s)
        return nat(tr)
    if name == "diagonal":
        return nat(lambda I, a, k: SMat([[m.rows[i][i] for i in range(min(m.shape))]]))
    if name == "is_square":
        return m.shape[0] == m.shape[1]
    return None


def idx(I, i):
    from .models import idx_of
    i = idx_of(I, i)
    if not isinstance(i, int):
        raise I.undecided("symbolic index of a matrix")
    return i


def eye(n):
    return SMat([[Scalar.const(1 if i == j else 0, "sympy") for j in range(n)] for i in range(n)])


def is_eye(m):
    return m.shape[0] == m.shape[1] and all(s_equal(x, 1 if i == j else 0) for i, r in enumerate(m.rows) for j, x in enumerate(r))


class Factors(AbsVal):
    """Kronecker product of 2x2 matrices, most significant first; Rep((M,), count) stands for count equal factors"""
    def __init__(self, fs):
        self.fs = tuple(fs)

    def __repr__(self):
        return f"Kron{list(self.fs)!r}"

    def length(self):
        n = 0
        for x in self.fs:
            n = SI.add(n, x.count if isinstance(x, Rep) else 1)
        return n

    def op(self, I):
        """operator on the known positions"""
        n = self.length()
        if not I.truth(I.int_cmp("==", n, I.width)):
            raise I.undecided(f"Kronecker product of {n} factors in a circuit of width {I.width}")
        q = n
        mats = {}
        for x in self.fs:
            if isinstance(x, Rep):
                q = SI.sub(q, x.count)
                if not is_eye(x.block[0]):
                    if I.truth(I.int_cmp("==", x.count, 0)):
                        continue
                    raise I.undecided("repeated factor other than the identity")
                # the known positions inside the segment get the identity
                continue
            q = SI.sub(q, 1)
            if is_eye(x):
                continue
            for j, p in enumerate(I.positions):
                if I.truth(I.int_cmp("==", p, q)):
                    mats[j] = x
                    break
            else:
                raise I.undecided(f"factor at unknown position {q}")
        return KOp.product(len(I.positions), mats)

    def binop(self, I, op, o, refl):
        return self.op(I).binop(I, op, o, refl)

    def unop(self, I, op):
        return self.op(I).unop(I, op)

    def getitem(self, I, k):
        return self.op(I).getitem(I, k)

    def getattr(self, I, name):
        return self.op(I).getattr(I, name)

    def truth(self, I):
        return True


def dense_op(I, m):
    """a matrix of explicit size as operator on the known positions, when these are all the qubits"""
    n = m.shape[0].bit_length() - 1
    if m.shape != (1 << n, 1 << n) or n != len(I.positions) or not I.truth(I.int_cmp("==", I.width, n)):
        raise I.undecided(f"a matrix of size {m.shape} in a circuit of width {I.width}")
    for j, p in enumerate(I.positions):
        if not I.truth(I.int_cmp("==", p, j)):
            raise I.undecided("positions of a dense matrix")
    b = lambda i: tuple(i >> t & 1 for t in range(n))
    return KOp(n, {(b(i), b(j)): x for i, r in enumerate(m.rows) for j, x in enumerate(r)})


class KOp(AbsVal):
    """operator A (x) identity: entries of A over the bits of the k known positions"""
    def __init__(self, k, e):
        self.k = k
        self.e = {x: v for x, v in e.items() if not v.is_zero()}

    @staticmethod
    def product(k, mats):
        import itertools
        e = {}
        for r in itertools.product((0, 1), repeat=k):
            for c in itertools.product((0, 1), repeat=k):
                v = Scalar.const(1, "sympy")
                for j in range(k):
                    if j in mats:
                        v = v * mats[j].rows[r[j]][c[j]]
                    elif r[j] != c[j]:
                        v = Scalar({})
                    if v.is_zero():
                        break
                e[r, c] = retype(v)
        return KOp(k, e)

    def __repr__(self):
        return f"Op{self.e!r}"

    def hkey(self, I):
        return ("kop", self.k, tuple(sorted((x, v.key()) for x, v in self.e.items())))

    def binop(self, I, op, o, refl):
        if isinstance(o, Factors):
            o = o.op(I)
        if isinstance(o, SMat):
            o = dense_op(I, o)
        if isinstance(o, KOp):
            a, b = (o, self) if refl else (self, o)
            if op in ("+", "-"):
                e = dict(a.e)
                for x, v in b.e.items():
                    e[x] = retype(e.get(x, Scalar({})) + (v if op == "+" else -v))
                return KOp(self.k, e)
            if op in ("*", "@"):
                byrow = {}
                for (r, c), v in b.e.items():
                    byrow.setdefault(r, []).append((c, v))
                e = {}
                for (r, m), v in a.e.items():
                    for c, w in byrow.get(m, ()):
                        e[r, c] = e.get((r, c), Scalar({})) + v * w
                return KOp(self.k, {x: retype(v) for x, v in e.items()})
            return NotImplemented
        if I.is_num(o):
            s = sy(I, o)
            if op == "*":
                return KOp(self.k, {x: retype(v * s) for x, v in self.e.items()})
            if op == "/" and not refl:
                return KOp(self.k, {x: retype(v / s) for x, v in self.e.items()})
        raise I.undecided(f"matrix of symbolic size {op} {o!r}")

    def unop(self, I, op):
        if op == "-":
            return KOp(self.k, {x: -v for x, v in self.e.items()})
        return NotImplemented

    def getitem(self, I, k):
        raise I.undecided("entry of a matrix of symbolic size")

    def truth(self, I):
        return True

    def getattr(self, I, name):
        if name in ("simplify", "expand", "evalf", "copy", "doit", "as_mutable"):
            return Native(name, lambda I, a, k: None if name == "simplify" else self)
        if name in ("subs", "xreplace"):
            def sub(I, a, k):
                pairs, sim = subs_args(I, a, k)
                return KOp(self.k, {x: subs_scalar(I, v, pairs, sim or name == "xreplace") for x, v in self.e.items()})
            return Native(name, sub)
        if name in ("H", "T", "C"):
            return KOp(self.k, {((c, r) if name != "C" else (r, c)): retype(v.conj() if name != "T" else v) for (r, c), v in self.e.items()})
        if name == "adjoint":
            return Native(name, lambda I, a, k: self.getattr(I, "H"))
        raise I.undecided(f"attribute {name} of a matrix of symbolic size")

    def cls(self, I):
        return I.bt.setdefault("sympyMatrix", ClassObj("Matrix", [I.bt["object"]]))


def kron(I, ms):
    if all(isinstance(m, SMat) for m in ms):
        r = ms[0]
        for m in ms[1:]:
            r = SMat([[retype(r.rows[i // m.shape[0]][j // m.shape[1]] * m.rows[i % m.shape[0]][j % m.shape[1]])
                       for j in range(r.shape[1] * m.shape[1])] for i in range(r.shape[0] * m.shape[0])])
        return r
    fs = []
    for m in ms:
        if isinstance(m, Factors):
            fs += m.fs
        elif isinstance(m, SMat) and m.shape == (2, 2):
            fs.append(m)
        elif isinstance(m, SMat) and is_eye(m) and m.shape[0] & (m.shape[0] - 1) == 0:
            fs += [eye(2)] * (m.shape[0].bit_length() - 1)
        else:
            raise I.undecided(f"Kronecker product with {m!r}")
    return Factors(fs)


def kron_items(I, items):
    if not any(isinstance(x, (Rep, AbsElems)) for x in items):
        return kron(I, items)
    fs = []
    for x in items:
        if isinstance(x, AbsElems):
            raise I.undecided("Kronecker product of unknown factors")
        if isinstance(x, Rep):
            if len(x.block) != 1 or not isinstance(x.block[0], SMat) or x.block[0].shape != (2, 2):
                raise I.undecided("Kronecker product of a repeated block")
            fs.append(x)
        else:
            r = kron(I, [Factors([]), x])
            fs += r.fs
    return Factors(fs)


def as_matrix(I, v):
    if isinstance(v, (SMat,)):
        return SMat(v.rows)
    if isinstance(v, (KOp, Factors)):
        return v
    rows = I.list_values(v)
    if rows and all(isinstance(x, (ListObj, tuple)) or hasattr(x, "iterate") for x in rows):
        return SMat([[sy(I, y) for y in I.list_values(x)] for x in rows])
    return SMat([[sy(I, x)] for x in rows])


def matrix(I, a, k):
    if len(a) == 3 and isinstance(a[0], int):
        n, m = a[0], a[1]
        if isinstance(a[2], (ListObj, tuple)):
            v = [sy(I, x) for x in I.list_values(a[2])]
            return SMat([v[i * m:(i + 1) * m] for i in range(n)])
        return SMat([[sy(I, I.call(a[2], [i, j], {})) for j in range(m)] for i in range(n)])
    return as_matrix(I, a[0])


def mk_eye(I, a, k):
    n = a[0]
    if isinstance(n, BitInt) and n.pow2() is not None:
        return Factors([Rep((eye(2),), SymInt.lift(n.pow2()))]) if isinstance(n.pow2(), SymInt) else eye(1 << n.pow2())
    if not isinstance(n, int):
        raise I.undecided("identity matrix of symbolic size")
    return eye(n)


def symbols(I, a, k):
    real = True
    if isinstance(a[0], str):
        names = a[0].replace(",", " ").split()
        vs = tuple(retype(Scalar.gen(Gen("sym", n, real))) for n in names)
        return vs[0] if len(vs) == 1 and "," not in a[0] else vs
    raise I.undecided("symbols of a non-string")


def fn(name):
    def f(I, a, k):
        return retype(apply_fn(name, [sy(I, a[0])]))
    return f


def ext_attr(I, mod, name):
    full = mod + "." + name
    if mod == "sympy" and name in ("physics", "matrices", "core", "functions", "simplify_", "kronecker"):
        return I.ext_module(full)
    if mod == "sympy.physics" and name == "quantum":
        return I.ext_module(full)
    if name in ("Matrix", "ImmutableMatrix", "MutableDenseMatrix", "ImmutableDenseMatrix"):
        c = I.bt.get("sympyMatrix")
        if c is None:
            c = ClassObj("Matrix", [I.bt["object"]])
            I.bt["sympyMatrix"] = c
        c.construct = lambda I, c, a, k: matrix(I, a, k)
        c.f.setdefault("eye", StaticM(Native("eye", mk_eye)))
        return c
    if name in ("TensorProduct", "kronecker_product", "KroneckerProduct"):
        return Native("sympy.TensorProduct", lambda I, a, k: kron(I, a))
    if name == "eye":
        return Native(full, mk_eye)
    if name in ("zeros", "ones"):
        def z(I, a, k):
            n = a[0]
            m = a[1] if len(a) > 1 else n
            if not isinstance(n, int) or not isinstance(m, int):
                raise I.undecided("matrix of symbolic size")
            return SMat([[Scalar.const(0 if name == "zeros" else 1, "sympy")] * m for _ in range(n)])
        return Native(full, z)
    if name == "diag":
        def dg(I, a, k):
            return SMat([[sy(I, x) if i == j else Scalar.const(0, "sympy") for j in range(len(a))] for i, x in enumerate(a)])
        return Native(full, dg)
    if name in ("symbols", "Symbol", "Dummy"):
        return Native(full, symbols)
    if name in ("sin", "cos", "exp", "sqrt", "tan"):
        return Native(full, fn(name))
    if name in ("Abs",):
        return Native(full, fn("abs"))
    if name in ("conjugate", "re", "im"):
        return Native(full, fn({"conjugate": "conj", "re": "real", "im": "imag"}[name]))
    if name == "pi":
        return Scalar.const(math.pi, "sympy")
    if name == "I":
        return Scalar.const(1j, "sympy")
    if name == "E":
        return Scalar.const(math.e, "sympy")
    if name in ("nsimplify", "simplify", "expand", "sympify", "S", "Integer", "Float", "N", "trigsimp", "together", "factor", "cancel", "expand_complex", "radsimp"):
        def same(I, a, k):
            if isinstance(a[0], (SMat, KOp, Factors)):
                return a[0]
            v = sy(I, a[0])
            if name == "nsimplify":
                return nsimplified(v, a[2] if len(a) > 2 else k.get("tolerance"))
            return v
        if name == "S":
            return Native(full, same, {"Zero": Scalar.const(0, "sympy"), "One": Scalar.const(1, "sympy"), "Half": Scalar.const(0.5, "sympy"),
                                       "Pi": Scalar.const(math.pi, "sympy"), "ImaginaryUnit": Scalar.const(1j, "sympy")})
        return Native(full, same)
    if name == "Rational":
        return Native(full, lambda I, a, k: retype(sy(I, a[0]) / sy(I, a[1])) if len(a) > 1 else sy(I, a[0]))
    if name in ("Mul", "Add"):
        def red(I, a, k):
            r = Scalar.const(1 if name == "Mul" else 0, "sympy")
            for x in a:
                r = r * sy(I, x) if name == "Mul" else r + sy(I, x)
            return retype(r)
        return Native(full, red)
    if name in ("Expr", "Basic", "Number"):
        return ClassObj(name, [I.bt["object"]], check=lambda I, v: isinstance(v, Scalar) and v.ty == "sympy" and (name != "Number" or v.is_const()))
    return Opaque(full)


def nsimplified(v, tol):
    """with a tolerance sympy may return any simple number nearby"""
    if tol is None or isinstance(tol, (int, float)) and abs(tol) < 1e-14 or isinstance(tol, Scalar) and tol.is_const() and abs(tol.const_value()) < 1e-14:
        return v
    return retype(v + Scalar.gen(Gen("sym", "error of nsimplify for " + min(repr(v), repr(-v)), True, False)))


def seg_reduce(I, f, acc, items):
    if isinstance(f, Native) and f.name == "sympy.TensorProduct":
        return kron_items(I, ([acc] if acc is not None else []) + list(items))
    raise I.undecided("reduce over a segmented sequence")
