"""Model of sympy expressions that are polynomials in symbols (wq's symbolic QUBOs), with coefficients in the exact scalars."""
import ast as _ast
import re as _re
from .core import *
from .errors import *
from .scalar import Scalar
from .models import StrT, Hole

NUMS = (bool, int, float, Scalar)


def natkey(n):
    return tuple(int(x) if x.isdigit() else x for x in _re.split(r"(\d+)", n))


class SymCtx:
    """per check: order in which sets of symbols and arguments of sums are listed"""
    reverse = False


def order(names):
    return sorted(names, key=natkey, reverse=SymCtx.reverse)


class SPoly(AbsVal):
    """raw: kind of the top node ("Mul", "Pow", "Add") if the expression is not expanded; names: its free symbols then"""
    def __init__(self, terms, raw=None, names=None):
        self.terms = {m: c for m, c in terms.items() if not c.is_zero()}
        self.raw = raw
        self.names = names

    def __repr__(self):
        def one(m, c):
            f = "*".join(n if e == 1 else f"{n}**{e}" for n, e in m)
            return f"{c!r}" if not m else f if c.is_const() and abs(c.const_value() - 1) < 1e-12 else f"{c!r}*{f}"
        return " + ".join(one(m, c) for m, c in sorted(self.terms.items(), key=repr)) or "0"

    def text(self, I):
        return next(iter(self.free())) if self.kind() == "Symbol" else StrT([Hole(self)])

    # ---- structure
    def is_const(self):
        return self.raw is None and all(not m for m in self.terms)

    def const(self):
        return self.terms.get((), Scalar.const(0, "sympy"))

    def as_scalar(self):
        return self.const() if self.is_const() else None

    def to_float(self, I):
        if self.raw:
            raise I.undecided("float of an unexpanded sympy expression")
        if not self.is_const():
            raise I.exc("TypeError", "Cannot convert expression to float")
        return Scalar(self.const().t, "float")

    def free(self):
        s = set(self.names or ())
        if not self.raw:
            for m in self.terms:
                s |= {n for n, e in m}
        return s

    def unit(self, c):
        return c.is_const() and abs(c.const_value() - 1) < 1e-15

    def kind(self, I=None):
        if self.raw:
            return self.raw
        if len(self.terms) > 1:
            return "Add"
        if not self.terms:
            return "Number"
        ((m, c),) = self.terms.items()
        if not m:
            return "Number"
        if not self.unit(c) or len(m) > 1:
            return "Mul"
        return "Symbol" if m[0][1] == 1 else "Pow"

    def clean(self, I, what):
        if self.raw:
            raise I.undecided(f"{what} of an unexpanded sympy expression")
        return self

    def parts(self, I):
        """args"""
        k = self.clean(I, "structure").kind()
        if k == "Add":
            return tuple(SPoly({m: self.terms[m]}) for m in sorted(self.terms, key=lambda m: tuple((natkey(n), e) for n, e in m), reverse=SymCtx.reverse))
        if k == "Mul":
            ((m, c),) = self.terms.items()
            fs = [SPoly({((n, e),): one()}) for n, e in sorted(m, key=lambda x: natkey(x[0]))]
            return tuple(([] if self.unit(c) else [SPoly({(): c})]) + fs)
        if k == "Pow":
            ((m, c),) = self.terms.items()
            return (sym(m[0][0]), SPoly({(): Scalar.const(m[0][1], "sympy")}))
        return ()

    def hkey(self, I):
        if self.raw:
            raise I.undecided("hash of an unexpanded sympy expression")
        return ("sympy expression", tuple(sorted((m, c.key()) for m, c in self.terms.items())))

    def cls(self, I):
        return klass(I, self.kind())

    def truth(self, I):
        if self.is_const():
            return not self.const().is_zero()
        return True

    def iterate(self, I):
        raise I.exc("TypeError", f"'{self.kind()}' object is not iterable")

    # ---- operators
    def binop(self, I, op, o, refl):
        if op in ("==", "!="):
            return NotImplemented
        o = lift(I, o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if refl else (self, o)
        if op == "+":
            return add(a, b)
        if op == "-":
            return add(a, mul(I, lift(I, -1), b))
        if op == "*":
            return mul(I, a, b)
        if op == "/":
            if not b.is_const():
                raise I.undecided("quotient of sympy expressions")
            if b.const().is_zero():
                raise I.undecided("division by zero in sympy")
            return mul(I, a, SPoly({(): retype(Scalar.const(1) / b.const())}))
        if op == "**":
            n = integer(b)
            if n is None or n < 0:
                raise I.undecided("power of a sympy expression")
            if n == 0:
                return lift(I, 1)
            if n == 1:
                return a
            r = a
            for _ in range(n - 1):
                r = SPoly(product(r.terms, a.terms))
            if a.kind() in ("Add", "Mul") and not (a.kind() == "Mul" and not a.raw) or a.raw:
                return SPoly(r.terms, "Pow", a.free())
            return r
        return NotImplemented

    def unop(self, I, op):
        if op == "-":
            return mul(I, lift(I, -1), self)
        return self if op == "+" else NotImplemented

    def compare(self, I, op, o, refl):
        if op not in ("==", "!="):
            if self.is_const():
                return NotImplemented
            raise I.undecided("comparison of sympy expressions")
        x = lift(I, o) if not isinstance(o, str) else None
        if x is None:
            return op == "!="
        if (self.raw or x.raw) and self is not x:
            d = add(SPoly(self.terms), mul(I, lift(I, -1), SPoly(x.terms)))
            if d.terms:
                return op == "!="
            raise I.undecided("equality of unexpanded sympy expressions")
        return (not add(self, mul(I, lift(I, -1), x)).terms) == (op == "==")

    # ---- attributes
    def getattr(self, I, name):
        def nat(f):
            return Native("Expr." + name, f)
        k = self.kind()
        if name == "free_symbols":
            return symset(I, self.free())
        if name == "args":
            return self.parts(I)
        if name == "func":
            return klass(I, k)
        if name in ("name", "is_positive") and k == "Symbol":
            return next(iter(self.free())) if name == "name" else None
        if name in ("is_Add", "is_Mul", "is_Pow", "is_Symbol", "is_Number"):
            return k == name[3:]
        if name in ("is_number", "is_constant"):
            return self.is_const() if name == "is_number" else nat(lambda I, a, kw: self.is_const())
        if name in ("is_commutative",):
            return True
        if name == "expand":
            return nat(lambda I, a, kw: SPoly(self.terms))
        if name in ("subs", "xreplace", "replace"):
            return nat(lambda I, a, kw: subs(I, self, a, kw))
        if name == "coeff":
            return nat(lambda I, a, kw: coeff(I, self, a, kw))
        if name in ("as_coeff_Mul", "as_coeff_mul"):
            def cm(I, a, kw):
                if k == "Mul":
                    ((m, c),) = self.clean(I, name).terms.items()
                    r = SPoly({m: one()})
                elif k == "Number":
                    c, r = self.const(), SPoly({(): one()})
                else:
                    c, r = one(), self
                    if self.raw:
                        raise I.undecided("as_coeff_Mul of an unexpanded expression")
                if name == "as_coeff_mul":
                    return (SPoly({(): c}), tuple(p for p in (r.parts(I) if r.kind() == "Mul" else (r,)) if not r.is_const()))
                return (SPoly({(): c}), r)
            return nat(cm)
        if name in ("as_coeff_Add", "as_coeff_add"):
            def ca(I, a, kw):
                self.clean(I, name)
                c = SPoly({(): self.const()})
                r = SPoly({m: x for m, x in self.terms.items() if m})
                if name == "as_coeff_add":
                    return (c, r.parts(I) if r.kind() == "Add" else (r,) if r.terms else ())
                return (c, r)
            return nat(ca)
        if name == "as_ordered_terms":
            return nat(lambda I, a, kw: ListObj(list(self.parts(I)) if k == "Add" else [self.clean(I, name)]))
        if name == "as_coefficients_dict":
            def cd(I, a, kw):
                d = DictObj()
                for m, c in self.clean(I, name).terms.items():
                    I.setitem(d, SPoly({m: one()}), SPoly({(): c}))
                return d
            return nat(cd)
        if name == "as_base_exp" and k in ("Symbol", "Pow") and not self.raw:
            ((m, c),) = self.terms.items()
            return nat(lambda I, a, kw: (sym(m[0][0]), SPoly({(): Scalar.const(m[0][1], "sympy")})))
        if name == "has":
            return nat(lambda I, a, kw: any(bool(lift(I, x).free() & self.free()) for x in a))
        if name == "atoms":
            def at(I, a, kw):
                if len(a) == 1 and getattr(a[0], "name", "") == "Symbol":
                    return symset(I, self.free())
                raise I.undecided("atoms of a sympy expression")
            return nat(at)
        if name == "as_poly":
            return nat(lambda I, a, kw: poly(I, [self] + list(a), kw))
        if name in ("simplify", "factor", "together", "cancel", "collect", "evalf", "n", "doit") and k in ("Symbol", "Number"):
            return nat(lambda I, a, kw: self)
        raise I.undecided(f"sympy attribute {name} of {k}")


class PolyVal(AbsVal):
    def __init__(self, p, gens):
        self.p, self.gens = p, gens

    def __repr__(self):
        return f"Poly({self.p!r})"

    def exps(self):
        return [(tuple(dict(m).get(g, 0) for g in self.gens), c) for m, c in self.p.terms.items()]

    def getattr(self, I, name):
        def nat(f):
            return Native("Poly." + name, f)
        if name == "degree":
            def deg(I, a, kw):
                g = a[0] if a else kw.get("gen", 0)
                if isinstance(g, int):
                    g = self.gens[g]
                elif isinstance(g, SPoly) and g.kind() == "Symbol":
                    g = next(iter(g.free()))
                else:
                    raise I.undecided("generator of a sympy polynomial")
                return max((dict(m).get(g, 0) for m in self.p.terms), default=None)
            return nat(deg)
        if name == "total_degree":
            return nat(lambda I, a, kw: max((sum(e for n, e in m) for m in self.p.terms), default=None))
        if name == "degree_list":
            return nat(lambda I, a, kw: tuple(max(e[i] for e, c in self.exps()) for i in range(len(self.gens))))
        if name == "gens":
            return tuple(sym(g) for g in self.gens)
        if name == "free_symbols":
            return symset(I, self.p.free())
        if name == "as_expr":
            return nat(lambda I, a, kw: self.p)
        if name in ("is_linear", "is_quadratic", "is_multilinear"):
            d = max((sum(e for n, e in m) for m in self.p.terms), default=0)
            return d <= 1 if name == "is_linear" else d <= 2 if name == "is_quadratic" else all(e <= 1 for m in self.p.terms for n, e in m)
        if name in ("coeff_monomial", "nth"):
            def cm(I, a, kw):
                if name == "nth":
                    if len(a) != len(self.gens):
                        raise I.exc("ValueError", "exponent vector must match the generators")
                    m = tuple(sorted((g, e) for g, e in zip(self.gens, a) if e))
                else:
                    x = lift(I, a[0])
                    if x is None or len(x.terms) != 1:
                        raise I.undecided("monomial of a sympy polynomial")
                    ((m, c),) = x.terms.items()
                return SPoly({(): self.p.terms.get(m, Scalar.const(0, "sympy"))})
            return nat(cm)
        if name in ("terms", "monoms", "coeffs", "as_dict"):
            def t(I, a, kw):
                es = sorted(self.exps(), key=lambda x: x[0], reverse=True)
                if name == "as_dict":
                    d = DictObj()
                    for e, c in es:
                        I.setitem(d, e, SPoly({(): c}))
                    return d
                return ListObj([(e, SPoly({(): c})) if name == "terms" else e if name == "monoms" else SPoly({(): c}) for e, c in es])
            return nat(t)
        raise I.undecided(f"sympy attribute {name} of Poly")


def one():
    return Scalar.const(1, "sympy")


def retype(s):
    s = Scalar.lift(s)
    return s if s.ty == "sympy" else Scalar(s.t, "sympy")


def sym(n):
    return SPoly({((n, 1),): one()})


def symset(I, names):
    s = SetObj()
    for n in order(names):
        v = sym(n)
        s.f["items"][I.hkey(v)] = v
    return s


def integer(p):
    if p.is_const() and p.const().is_const():
        v = p.const().const_value()
        if abs(v - round(v.real)) < 1e-12:
            return int(round(v.real))
    return None


def lift(I, v):
    if isinstance(v, SPoly):
        return v
    if isinstance(v, PolyVal):
        return None
    if isinstance(v, NUMS) or I.is_num(v):
        s = I.to_scalar(v)
        if s is not None:
            return SPoly({(): retype(s)})
    return None


def product(s, t):
    out = {}
    for m, c in s.items():
        for n, d in t.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key = tuple(sorted(e.items()))
            out[key] = out[key] + c * d if key in out else c * d
    return {k: retype(c) for k, c in out.items()}


def add(a, b):
    out = dict(a.terms)
    for m, c in b.terms.items():
        out[m] = retype(out[m] + c) if m in out else c
    if a.raw or b.raw:
        return SPoly(out, "Add", a.free() | b.free())
    return SPoly(out)


def mul(I, a, b):
    r = product(a.terms, b.terms)
    for x, y in ((a, b), (b, a)):
        if x.is_const():
            if x.const().is_zero():
                return SPoly({})
            if y.raw:
                return y if x.unit(x.const()) else SPoly(r, "Mul" if y.raw != "Add" else "Add", y.free())
            return SPoly(r)
    if a.raw or b.raw or len(a.terms) > 1 or len(b.terms) > 1:
        return SPoly(r, "Mul", a.free() | b.free())
    return SPoly(r)


def klass(I, k):
    key = "sympy." + k
    c = I.bt.get(key)
    if c is None:
        base = [I.bt["object"]]
        if k != "Expr":
            base = [klass(I, "Expr")]
        c = ClassObj(k, base)
        I.bt[key] = c
        if k == "Symbol":
            c.construct = lambda I, c, a, kw: symbol(I, a, kw)
        elif k in ("Add", "Mul", "Pow"):
            def build(I, c, a, kw):
                if kw:
                    raise I.undecided("options of a sympy constructor")
                r = lift(I, {"Add": 0, "Mul": 1}[k]) if k != "Pow" else None
                if k == "Pow":
                    return I.binop("**", a[0], a[1])
                for x in a:
                    r = I.binop("+" if k == "Add" else "*", r, x)
                return r
            c.construct = build
    return c


def assumptions(I, kw):
    if any(v for n, v in kw.items() if n in ("positive", "nonnegative", "negative", "commutative", "zero") and not (n == "commutative" and v is True)):
        raise I.undecided("sympy symbols with assumptions")


def symbol(I, a, kw):
    assumptions(I, kw)
    if not isinstance(a[0], str):
        raise I.undecided("symbol with an unknown name")
    return sym(a[0])


def symbols(I, a, kw):
    assumptions(I, kw)
    if isinstance(a[0], (tuple, ListObj)):
        r = [symbols(I, [x], kw) for x in I.list_values(a[0])]
        return tuple(r) if isinstance(a[0], tuple) else ListObj(r)
    if not isinstance(a[0], str):
        raise I.undecided("symbols of a non-string")
    s = a[0].strip()
    if not s:
        raise I.exc("ValueError", "no symbols given")
    many = s.endswith(",")
    names = []
    for n in s.replace(",", " ").split():
        m = _re.fullmatch(r"(.*?)(\d*):(\d+)", n)
        if m:
            many = True
            names += [f"{m[1]}{i}" for i in range(int(m[2] or 0), int(m[3]))]
        elif ":" in n or "(" in n:
            raise I.undecided("range of sympy symbols")
        else:
            names.append(n)
    vs = tuple(sym(n) for n in names)
    if len(vs) == 1 and not many:
        return vs[0]
    return tuple(vs)


def sympify(I, v):
    r = lift(I, v)
    if r is not None:
        return r
    if isinstance(v, str):
        try:
            t = _ast.parse(v.replace("^", "**").strip(), mode="eval").body
        except SyntaxError:
            raise I.undecided("text given to sympy")

        def ev(n):
            if isinstance(n, _ast.Constant) and isinstance(n.value, (int, float)):
                return lift(I, n.value)
            if isinstance(n, _ast.Name) and n.id not in ("I", "E", "S", "N", "O", "Q", "pi"):
                return sym(n.id)
            if isinstance(n, _ast.UnaryOp) and isinstance(n.op, (_ast.USub, _ast.UAdd)):
                return I.unop("-", ev(n.operand)) if isinstance(n.op, _ast.USub) else ev(n.operand)
            ops = {_ast.Add: "+", _ast.Sub: "-", _ast.Mult: "*", _ast.Div: "/", _ast.Pow: "**"}
            if isinstance(n, _ast.BinOp) and type(n.op) in ops:
                return I.binop(ops[type(n.op)], ev(n.left), ev(n.right))
            raise I.undecided("text given to sympy")
        return ev(t)
    raise I.undecided("value given to sympy")


def expand(I, a, kw):
    if any(v is False for v in kw.values()):
        raise I.undecided("options of expand")
    return SPoly(sympify(I, a[0]).terms)


def poly(I, a, kw):
    p = SPoly(sympify(I, a[0]).terms)
    gens = [next(iter(lift(I, g).free())) for g in a[1:]] or sorted(p.free(), key=natkey)
    if kw:
        raise I.undecided("options of a sympy polynomial")
    if not gens:
        raise I.exc("GeneratorsNeeded" if "GeneratorsNeeded" in I.builtins else "Exception", "can't initialize from 'dict' without generators")
    if p.free() - set(gens):
        raise I.undecided("sympy polynomial over other generators")
    return PolyVal(p, gens)


def subs_one(I, p, old, new):
    old, new = sympify(I, old), sympify(I, new)
    if old.raw or len(old.terms) != 1:
        raise I.undecided("substitution of a sum")
    ((m, c),) = old.terms.items()
    if not m or not old.unit(c):
        raise I.undecided("substitution of a number or multiple")
    if p.raw:
        if len(m) != 1 or m[0][1] != 1:
            raise I.undecided("substitution in an unexpanded expression")
    out = SPoly({})
    for t, c in p.terms.items():
        e = dict(t)
        n = None
        if len(m) == 1:
            # powers: an exact multiple of the exponent is replaced, a sum of both is left alone
            k = e.get(m[0][0], 0)
            n = k // m[0][1] if k and k % m[0][1] == 0 else 0
            if n:
                del e[m[0][0]]
        else:
            ks = [e.get(x, 0) for x, y in m]
            if any(y != 1 for x, y in m):
                raise I.undecided("substitution of a product of powers")
            if all(ks):
                n = ks[0]
                if any(k != 1 for k in ks):
                    raise I.undecided("substitution of a product in powers")
                for x, y in m:
                    del e[x]
        r = SPoly({tuple(sorted(e.items())): c})
        v = SPoly(new.terms)
        for _ in range(n or 0):
            r = SPoly(product(r.terms, v.terms))
        out = add(out, r)
    raw = p.raw
    if not raw and len(new.terms) > 1 and any(set(dict(t)) & {x for x, y in m} and len(t) > 1 for t in p.terms):
        raw = "Add"
    if raw and not out.free():
        raw = None
    return SPoly(out.terms, raw, (p.free() | new.free()) if raw else None)


def subs(I, p, a, kw):
    if len(a) == 2:
        return subs_one(I, p, a[0], a[1])
    pairs = [(x, y) for x, y in a[0].pairs()] if isinstance(a[0], DictObj) else [tuple(I.list_values(x)) for x in I.list_values(a[0])]
    if kw.get("simultaneous"):
        olds = set().union(*[sympify(I, x).free() for x, y in pairs])
        if any(sympify(I, y).free() & olds for x, y in pairs):
            raise I.undecided("simultaneous substitution")
    elif len(pairs) > 1 and isinstance(a[0], DictObj):
        olds = set().union(*[sympify(I, x).free() for x, y in pairs])
        if any(sympify(I, x).kind() != "Symbol" for x, y in pairs) or any(sympify(I, y).free() & olds for x, y in pairs):
            raise I.undecided("substitution of several expressions at once")
    for x, y in pairs:
        p = subs_one(I, p, x, y)
    return p


def coeff(I, p, a, kw):
    p.clean(I, "coeff")
    n = a[1] if len(a) > 1 else kw.get("n", 1)
    if not isinstance(n, int):
        raise I.undecided("exponent of coeff")
    x = sympify(I, a[0])
    if len(x.terms) != 1 or x.raw:
        raise I.undecided("coeff of a sum")
    ((m, c),) = x.terms.items()
    if not m:
        raise I.undecided("coeff of a number")
    if not x.unit(c):
        raise I.undecided("coeff of a multiple")
    out = {}
    for t, c in p.terms.items():
        e = dict(t)
        if len(m) == 1:
            v, k = m[0]
            if e.get(v, 0) != k * n:
                continue
            e.pop(v, None)
        else:
            if n != 1 or any(y != 1 for _, y in m):
                raise I.undecided("coeff of a product of powers")
            if not all(v in e for v, y in m):
                continue
            if any(e[v] != 1 for v, y in m):
                raise I.undecided("coeff of a product in powers")
            for v, y in m:
                del e[v]
        key = tuple(sorted(e.items()))
        out[key] = out[key] + c if key in out else c
    return SPoly(out)


def install(I):
    """use this model for the module sympy"""
    from .models import to_float

    def put(name, f):
        I.overrides["sympy", name] = Native("sympy." + name, f)
    put("symbols", symbols)
    # (sympy.var also writes the symbols into the caller's globals, which no part of the code reads)
    put("var", lambda I, a, k: None)
    put("expand", expand)
    for n in ("sympify", "S", "Integer", "Float", "Number"):
        put(n, lambda I, a, k: sympify(I, a[0]))
    put("Rational", lambda I, a, k: I.binop("/", sympify(I, a[0]), a[1] if len(a) > 1 else 1))
    put("poly", poly)
    put("Poly", poly)
    put("re", lambda I, a, k: sympify(I, a[0]))
    put("im", lambda I, a, k: lift(I, 0))
    put("degree", lambda I, a, k: I.call(I.getattr(poly(I, a[:1], {}), "degree"), list(a[1:]), k))
    put("total_degree", lambda I, a, k: I.call(I.getattr(poly(I, a[:1], {}), "total_degree"), [], {}))
    for n in ("Symbol", "Add", "Mul", "Pow", "Expr"):
        I.overrides["sympy", n] = klass(I, n)
    I.overrides["sympy", "Basic"] = klass(I, "Expr")
