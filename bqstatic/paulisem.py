"""Meaning of Pauli objects of the analysed tree: {product of (qubit, letter)} -> coefficient, and the algebra on it."""
from .scen import *
from .script import Script
from . import npmodel as NP

MUL = {("X", "Y"): (1j, "Z"), ("Y", "X"): (-1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "Y"): (-1j, "X"), ("Z", "X"): (1j, "Y"), ("X", "Z"): (-1j, "Y")}
MAT = {"I": {(0, 0): 1, (1, 1): 1}, "X": {(0, 1): 1, (1, 0): 1}, "Y": {(0, 1): -1j, (1, 0): 1j}, "Z": {(0, 0): 1, (1, 1): -1}}


class PauliOp(Opaque):
    """an operator as a table; keys are tuples of (number of the qubit, letter) sorted by number"""
    def __init__(self, sem, tab):
        super().__init__("operator")
        self.sem, self.tab = sem, tab

    def __repr__(self):
        if not self.tab:
            return "0"
        return " + ".join(f"({c})" + "".join(f"*{l}[{self.sem.reps[q]}]" for q, l in k) for k, c in self.tab.items())


class PauliSem:
    """reps: the qubit indices seen so far on this trace, pairwise different"""
    def __init__(self, I):
        self.I = I
        self.reps = []
        self.mod = I.load("blueqat.pauli").f

    def start(self):
        del self.reps[:]

    def number(self, n):
        for i, r in enumerate(self.reps):
            if r is n or self.I.truth(self.I.compare("==", r, n)):
                return i
        self.reps.append(n)
        return len(self.reps) - 1

    def norm(self, c):
        s = self.I.to_scalar(c)
        if s is None:
            raise Finding("pauli", "coefficient", f"the coefficient {c!r} is not a number")
        return self.I.E.norm(s)

    def letters(self, ops):
        """(phase, key) of a product of (number, letter)"""
        ph, t = 1, {}
        for q, l in ops:
            if l == "I":
                continue
            o = t.get(q)
            if o is None:
                t[q] = l
            elif o == l:
                del t[q]
            else:
                k, t[q] = MUL[o, l]
                ph = ph * k
        return ph, tuple(sorted(t.items()))

    def ops_of(self, ops):
        I = self.I
        out = []
        for p in I.list_values(ops):
            l = I.getattr(p, "op")
            out.append((None if l == "I" else self.number(I.getattr(p, "n")), l))
        return out

    def read(self, v):
        I = self.I
        if isinstance(v, PauliOp):
            return v
        if isinstance(v, InstObj):
            if self.mod["Expr"] in v.cls.mro:
                tab = {}
                for t in I.list_values(I.getattr(v, "terms")):
                    for k, c in self.read(t).tab.items():
                        tab[k] = self.norm(I.binop("+", tab[k], c)) if k in tab else c
                return self.mk(tab)
            if self.mod["Term"] in v.cls.mro:
                ph, k = self.letters(self.ops_of(I.getattr(v, "ops")))
                return self.mk({k: self.norm(I.binop("*", ph, I.getattr(v, "coeff")))})
            try:
                l = I.getattr(v, "op")
            except PyRaise:
                raise Finding("pauli", "result", f"{v!r} is no Pauli object")
            return self.mk({() if l == "I" else ((self.number(I.getattr(v, "n")), l),): self.norm(1)})
        s = I.to_scalar(v)
        if s is None or isinstance(v, (str, Opaque)):
            raise Finding("pauli", "result", f"{v!r} is no Pauli object")
        return self.mk({(): self.norm(v)})

    def mk(self, tab):
        return PauliOp(self, {k: c for k, c in tab.items() if not c.is_zero()})

    def add(self, a, b, sign=1):
        a, b = self.read(a), self.read(b)
        tab = dict(a.tab)
        for k, c in b.tab.items():
            c = self.I.binop("*", sign, c)
            tab[k] = self.norm(self.I.binop("+", tab[k], c)) if k in tab else self.norm(c)
        return self.mk(tab)

    def mul(self, a, b):
        a, b = self.read(a), self.read(b)
        tab = {}
        for k, c in a.tab.items():
            for l, d in b.tab.items():
                ph, m = self.letters(k + l)
                x = self.I.binop("*", ph, self.I.binop("*", c, d))
                tab[m] = self.norm(self.I.binop("+", tab[m], x)) if m in tab else self.norm(x)
        return self.mk(tab)

    def div(self, a, x):
        return self.mk({k: self.norm(self.I.binop("/", c, x)) for k, c in self.read(a).tab.items()})

    def power(self, a, n):
        r = self.mk({(): self.norm(1)})
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def same(self, a, b):
        """decides (forking where the facts leave it open) whether two operators are equal"""
        d = self.add(a, b, -1)
        return all(self.is0(c) for c in d.tab.values())

    def is0(self, c):
        return self.I.truth(self.I.compare("==", c, 0))

    def identical(self, a, b):
        """equal without a further assumption"""
        a, b = self.read(a), self.read(b)
        ks = list(a.tab) + [k for k in b.tab if k not in a.tab]
        z = Scalar.lift(0)
        return all(s_equal(self.I.E.norm(a.tab.get(k, z)), self.I.E.norm(b.tab.get(k, z))) for k in ks)

    def matrix(self, a, n):
        """{(row, col): Scalar} with qubit q at bit q; the qubit indices have to be ints"""
        out = {}
        for k, c in self.read(a).tab.items():
            fac = ["I"] * n
            for q, l in k:
                fac[self.reps[q]] = l
            rows = [(0, 0, c)]
            for j, l in enumerate(fac):
                rows = [(r | x << j, s | y << j, self.I.binop("*", v, m)) for r, s, v in rows for (x, y), m in MAT[l].items()]
            for r, s, v in rows:
                out[r, s] = self.norm(self.I.binop("+", out[r, s], v)) if (r, s) in out else self.norm(v)
        return out

    def natives(self):
        I = self.I
        w = lambda f: (lambda I, a, k: f(*a))
        return {"v": w(self.read), "vadd": w(self.add), "vsub": w(lambda a, b: self.add(a, b, -1)), "vmul": w(self.mul), "vdiv": w(self.div),
                "vpow": w(self.power), "vneg": w(lambda a: self.mul(-1, a)), "is_op": w(self.identical), "equal_op": w(self.same)}
