"""C34: conversions of symbolic (sympy) QUBO expressions preserve the value of every bit assignment."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World
from ..scalar import Scalar
from .. import npmodel as NP
from .. import sppoly as SP

RULE = ("Abstract interpretation of wq.optx, optm, qn_to_qubo, make_qs, nbody_separation and Opt.expand_qubo/qubo_to_matrix/add on sympy expressions, modelled as polynomials in the bits with "
        "independent symbols as coefficients (sums, products and powers that are not yet expanded included): the polynomial denoted by the result must equal that of the argument for every bit "
        "assignment, with exact coefficients; for nbody_separation after replacing every supplementary variable by the product it stands for, its constraints vanishing exactly there. Sets of symbols and "
        "the terms of a sum are listed in both orders.")
ASSUME = ["up to four bits (five for nbody_separation); plain symbols q0, q1, ... without assumptions", "expressions whose products have at most two different bits where a matrix is asked for"]
HISTORY = True
MIN_OBLIGATIONS = 100
BATCH = True

SRC = '''
import sympy
from blueqat import wq

def build(q, kind):
    """an expression in the bits q, with independent coefficients c0, c1, ..."""
    n = len(q)
    e = 0
    k = 0
    if kind == "linear":
        for i in range(n):
            e = e + sym("c%d" % i) * q[i]
        return e
    if kind == "plain":
        for i in range(n):
            e = e + q[i]
        return e
    if kind == "constant":
        return build(q, "linear") + sym("k")
    if kind == "pairs":
        for i in range(n):
            for j in range(i + 1, n):
                e = e + sym("c%d%d" % (i, j)) * q[i] * q[j]
        return e + sym("c0") * q[0]
    if kind == "plain pairs":
        for i in range(n):
            for j in range(i + 1, n):
                e = e + q[j] * q[i]
        return e - 3 * q[n - 1]
    if kind == "full":
        for i in range(n):
            for j in range(i, n):
                e = e + sym("c%d%d" % (i, j)) * q[i] * q[j]
        return e + build(q, "constant")
    if kind == "squares":
        for i in range(n):
            e = e + sym("c%d" % i) * q[i] ** 2 + sym("d%d" % i) * q[i]
        return e
    if kind == "last square":
        for i in range(n - 1):
            e = e + q[i]
        return e + sym("c") * q[n - 1] ** 2 + 2
    if kind == "one pair":
        return sym("c") * q[0] * q[n - 1] - q[n - 1] + 0.5 * q[0] + sum_of(q)
    if kind == "square of sum":
        return (build(q, "linear") + sym("k")) ** 2
    if kind == "square of plain sum":
        return (sum_of(q) - 1) ** 2
    if kind == "product of sums":
        f = sum_of(q) * sym("w")
        return (build(q, "linear") - 1) * (f + 2) + 3 * q[0]
    if kind == "cancelling":
        return (q[0] + q[n - 1]) ** 2 - q[0] ** 2 - 2 * q[0] * q[n - 1] + build(q, "squares")
    if kind == "cubes":
        for i in range(n):
            e = e + sym("c%d" % i) * q[i] ** (i + 2)
        return e + sym("d") * q[0] ** 3 * q[n - 1] ** 2
    if kind == "cube of sum":
        return (q[0] - sym("c") * q[n - 1]) ** 3 + sum_of(q)
    if kind == "skip":
        return sym("c") * q[n - 1] + sym("k")
    if kind == "skip pair":
        return sym("c") * q[n - 1] * q[0] - 2 * q[n - 1]
    if kind == "far":
        return sym("c") * q[2] * q[10] + sym("d") * q[11] * q[9] - 2 * q[10] ** 2 + q[1] + sym("k")
    if kind == "far plain":
        return q[10] * q[9] + q[2] * q[11] - q[1] * q[10] + q[n - 1]
    if kind == "far square":
        return (q[2] - sym("c") * q[10] + q[9]) ** 2 - 3 * q[n - 1]
    if kind == "fourth powers":
        return q[0] ** 4 - sym("c") * q[n - 1] ** 6 * q[0] ** 2 + q[n - 1] ** 5
    fail("kind")

def sum_of(q):
    e = 0
    for x in q:
        e = e + x
    return e


def qs(n):
    q = wq.make_qs(n)
    expect(len(q) == n, "make_qs() returns another number of symbols", len(q))
    return q

def ob_make_qs(n):
    q = wq.make_qs(n)
    expect(isinstance(q, tuple) and len(q) == n, "make_qs(n)", q)
    for i in range(n):
        expect(str(q[i]) == "q%d" % i, "make_qs(n)", q)
    for m in range(n + 1, n + 4):
        p = wq.make_qs(n, m)
        expect(isinstance(p, tuple) and len(p) == m - n, "make_qs(n, m)", p)
        for i in range(n, m):
            expect(str(p[i - n]) == "q%d" % i, "make_qs(n, m)", p)

def ob_expand(n, kind):
    e = build(qs(n), kind)
    r = wq.Opt().expand_qubo(e)
    same_value(r, e, n, True)
    multilinear(r)

def ob_expand_text(text, n):
    r = wq.Opt().expand_qubo(text)
    same_value(r, sympy.expand(text), n, True)
    multilinear(r)

def ob_optx(n, kind):
    e = build(qs(n), kind)
    r = wq.optx(e)
    same_value(r, e, n, True)
    multilinear(r)

def ob_optm(n, kind, extra):
    e = build(qs(n), kind)
    m = wq.optm(e, n + extra)
    matrix_of(m, e, n + extra)

def ob_qn(n, kind):
    e = sympy.expand(build(qs(n), kind))
    m = wq.qn_to_qubo(e)
    expect(isinstance(m, list) and all(isinstance(r, list) for r in m), "qn_to_qubo() returns lists", m)
    matrix_of(m, e, n)

def ob_matrix(n, kind):
    e = build(qs(n), kind)
    matrix_of(wq.Opt().qubo_to_matrix(e), e, n)

def ob_add_text(text, n, how):
    e = sympy.expand(text)
    o = wq.Opt()
    if how == "first":
        expect(o.add(text) is o, "add() does not return the optimizer")
        matrix_of(o.qubo, e, n)
    elif how == "weighted":
        o.add(text, sym("w"))
        matrix_of(o.qubo, sym("w") * e, n)
    elif how == "keyword":
        o.add(text, M=-2)
        matrix_of(o.qubo, -2 * e, n)
    elif how == "after a matrix":
        d = [[(i + 1 if i == j else i - j if i < j else 0) for j in range(n)] for i in range(n)]
        f = 0
        for i in range(n):
            for j in range(n):
                f = f + d[i][j] * sympy.Symbol("q%d" % i) * sympy.Symbol("q%d" % j)
        o.add(d).add(text, sym("w"))
        matrix_of(o.qubo, f + sym("w") * e, n)
    else:
        o.add(text).add(text, 3)
        matrix_of(o.qubo, 4 * e, n)
    expect(len(wq.Opt().qubo) == 0, "optimizers share their QUBO")

def terms(q, spec):
    e = 0
    k = 0
    for m in spec:
        t = sym("c%d" % k) if k % 2 == 0 else 1
        k = k + 1
        for i in m:
            t = t * q[i]
        e = e + t
    return e

def ob_nbody(n, spec):
    q = qs(n)
    z = wq.make_qs(n, n + 8)
    e = sympy.expand(terms(q, spec))
    r = wq.nbody_separation(e, z)
    expect(isinstance(r, tuple) and len(r) == 3, "nbody_separation() returns three values")
    separated(r[0], r[1], r[2], e, n, z)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq")))
    SP.install(I)
    for m in ("blueqat.wq",):
        I.load(m)
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2)]

    def is_zero(s):
        d = I.E.norm(I.to_scalar(s))
        return d.is_zero() or all(abs(w.val(d)) < 1e-9 for w in worlds)

    def at(m, i, j):
        v = I.to_scalar(I.getitem(I.getitem(m, i), j))
        if v is None:
            raise Finding("energy", S.ob, f"the entry ({i}, {j}) of the matrix is no number")
        return v

    def expr(v):
        p = SP.lift(I, v)
        if p is None:
            raise Finding("energy", S.ob, f"{v!r} is returned instead of an expression")
        return p

    def value(p, bits):
        v = Scalar.const(0)
        for m, c in p.terms.items():
            if all(bits.get(x, None) for x, e in m):
                v = v + c
        return v

    def variables(p, n, more=()):
        for x in p.free():
            if x not in {f"q{i}" for i in range(n)} | set(more):
                raise Finding("energy", S.ob, f"the result depends on {x}")

    def allbits(names):
        names = list(names)
        for b in itertools.product((0, 1), repeat=len(names)):
            yield dict(zip(names, b))

    def same_value(I, a, k):
        r, e, n, const = a
        r, e = expr(r), expr(e)
        variables(SP.SPoly(r.terms), n)
        for bits in allbits(sorted({*r.free(), *e.free()}) if n > 6 else [f"q{i}" for i in range(n)]):
            d = value(r, bits) - value(e, bits)
            if not is_zero(d):
                raise Finding("energy", S.ob, f"for the bits {bits} the result is {I.E.norm(value(r, bits))}, the expression is {I.E.norm(value(e, bits))}")

    def multilinear(I, a, k):
        p = expr(a[0])
        for m in p.terms:
            if any(e > 1 for x, e in m):
                raise Finding("energy", S.ob, f"the result still has powers: {p!r}")

    def matrix_of(I, a, k):
        m, e, n = a
        e = expr(e)
        if isinstance(m, NP.NdArr):
            if m.shape != (n, n):
                raise Finding("energy", S.ob, f"the matrix has the shape {m.shape}, there are {n} bits")
        else:
            rows = [I.list_values(r) for r in I.list_values(m)]
            if len(rows) != n or any(len(r) != n for r in rows):
                raise Finding("energy", S.ob, f"the matrix has {len(rows)} rows, there are {n} bits")
        zero = value(e, {})
        # a quadratic function is determined by its values for at most two ones
        for bits in allbits(range(n)) if n <= 6 else ({i: int(i in p) for i in range(n)} for m in range(3) for p in itertools.combinations(range(n), m)):
            v = Scalar.const(0)
            for i in range(n):
                for j in range(n):
                    if bits[i] and bits[j]:
                        v = v + at(m, i, j)
            w = value(e, {f"q{i}": b for i, b in bits.items()}) - zero
            if not is_zero(v - w):
                raise Finding("energy", S.ob, f"for the bits {tuple(bits.values())} the QUBO is {I.E.norm(v)}, the expression without its constant is {I.E.norm(w)}")
        for i in range(n):
            for j in range(i):
                if not is_zero(at(m, i, j)):
                    raise Finding("energy", S.ob, "the matrix is not upper triangular")

    def separated(I, a, k):
        new, cons, mapping, e, n, z = a
        new, cons, e = expr(new), expr(cons), expr(e)
        new.clean(I, "result"), cons.clean(I, "constraints")
        names = [next(iter(expr(x).free())) for x in I.list_values(z)]
        qn = [f"q{i}" for i in range(n)]
        pairs = {}
        for key, v in mapping.pairs():
            p = I.list_values(key)
            x = next(iter(expr(v).free()))
            if len(p) != 2 or not all(isinstance(y, str) for y in p) or expr(v).kind() != "Symbol" or x in pairs or x not in names:
                raise Finding("separation", S.ob, f"mapping {key!r} -> {v!r}")
            pairs[x] = tuple(p)
        variables(new, n, pairs)
        variables(cons, n, pairs)
        for p in (new, cons):
            for m in p.terms:
                if sum(x for _, x in m) > 2:
                    raise Finding("separation", S.ob, f"the result has products of more than two bits: {p!r}")

        def full(bits):
            """the supplementary variables as products"""
            b = dict(bits)
            todo = dict(pairs)
            while todo:
                ready = [x for x, p in todo.items() if all(y in b for y in p)]
                if not ready:
                    raise Finding("separation", S.ob, f"mapping {pairs} does not lead back to the bits")
                for x in ready:
                    u, v = todo.pop(x)
                    b[x] = b[u] * b[v]
            return b
        if n > 6:
            qn = sorted(e.free())
        for bits in allbits(qn):
            b = full(bits)
            d = value(new, b) - value(e, bits)
            if not is_zero(d):
                raise Finding("separation", S.ob, f"for the bits {tuple(bits.values())} the separated problem is {I.E.norm(value(new, b))}, the problem is {I.E.norm(value(e, bits))}")
            for extra in itertools.product((0, 1), repeat=len(pairs)):
                c = dict(bits)
                c.update(zip(pairs, extra))
                v = I.E.norm(value(cons, c))
                if not v.is_const():
                    raise Finding("separation", S.ob, f"the constraints depend on the coefficients: {v}")
                v = v.const_value().real
                right = all(c[x] == c[p[0]] * c[p[1]] for x, p in pairs.items())
                if right and abs(v) > 1e-9 or not right and v < 0.5:
                    raise Finding("separation", S.ob, f"the constraints are {v} for {c} ({'' if right else 'not '}satisfied)")

    S = Script(ck, I, SRC, same_value=same_value, multilinear=multilinear, matrix_of=matrix_of, separated=separated)
    def start():
        SP.SymCtx.reverse = S.ob.startswith("reversed")
        # coefficients are independent: no combination vanishes by accident
        I.E.generic = lambda d: all(abs(w.val(d)) > 1e-9 for w in worlds)
    S.on_start = start
    quad = ("linear", "plain", "constant", "pairs", "plain pairs", "full", "squares", "last square", "one pair", "square of sum", "square of plain sum", "product of sums", "cancelling")
    high = ("cubes", "cube of sum")
    top = 4 if ck.tier == "quick" else 5
    texts = {"(q0+q1)^2": 2, "q0 + 2*q1 - 3*q0*q1": 2, "2*(q0-q1)**2 + q1": 2, "q0+q1^2": 2, "q0*q1 + q1^3 - q0": 2, "(q0+q1+q2-1)^2": 3, "q0^2": 1, "3*q0 - 1": 1, "-q0*q1": 2,
             "q1": 2, "q0*q2": 3, "0.5*q1^2 - q3*q0": 4, "(q1 - 2*q2)^2": 3, "q10*q2 - 3*q9": 11}
    specs = [((0, 1, 2), (0,)), ((0, 1, 2), (0, 1, 2, 3)), ((0, 1, 2, 3), ()), ((0, 1), (1, 2, 3), (0, 2, 3)), ((0, 1, 2, 3, 4), (3, 4)), ((4, 2, 0), (0, 1, 2), (), (3,)), ((0, 1), (2,)),
             ((1, 2, 3), (0, 1, 2), (0, 2, 3), (0, 1, 3)), ((0,), (1,), (0, 1, 2)), ((2, 10, 11), (1, 10, 9)), ((11, 10), (2, 10, 9, 11), (3,))]
    for r in (False, True):
        def go(*a, r=r):
            S.run(*a, prefix="reversed " if r else "")
        for n in range(1, top + 1):
            go("energy", ["ob_make_qs"], [(n,)])
            qk = [k for k in quad if n > 1 or k not in ("pairs", "plain pairs", "one pair", "cancelling", "last square")]
            go("energy", ["ob_expand"], [(n, k) for k in qk + ([h for h in high] if n > 1 else [])])
            go("energy", ["ob_optx"], [(n, k) for k in qk])
            go("energy", ["ob_optm"], [(n, k, x) for k in qk for x in (0, 1)])
            if n > 1:
                go("energy", ["ob_qn"], [(n, k) for k in qk + ["skip", "skip pair"]])
            go("energy", ["ob_matrix"], [(n, k) for k in qk + (["skip", "skip pair"] if n > 1 else [])])
        for k in ("far", "far plain", "far square"):
            for o in ("ob_expand", "ob_optx", "ob_qn", "ob_matrix"):
                go("energy", [o], [(12, k)])
            go("energy", ["ob_optm"], [(12, k, 0)])
        go("energy", ["ob_expand"], [(n, "fourth powers") for n in (2, 3)])
        for t, n in texts.items():
            go("energy", ["ob_expand_text"], [(t, n)])
            go("energy", ["ob_add_text"], [(t, n, h) for h in ("first", "weighted", "keyword", "after a matrix", "twice")])
        go("separation", ["ob_nbody"], [(max(max(m, default=0) for m in s) + 1, s) for s in specs])
