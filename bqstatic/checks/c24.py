"""C24: QUBO conversions preserve the energy of every bit assignment."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World
from .. import npmodel as NP

RULE = ("Abstract interpretation of blueqat.wq with matrices and vectors of independent symbols: the polynomial in the bits denoted by the result (a Pauli expression with bit 1 meaning Z = -1, an Ising matrix "
        "and offset with spins 2*bit-1, or a QUBO matrix) must equal, coefficient by coefficient and hence for every bit assignment, the polynomial of the arguments; the arguments must be unchanged. "
        "Sizes, container kinds and index lists are enumerated.")
ASSUME = ["matrices of up to four bits (for all entries up to two bits, above for entries of which no combination vanishes, and concrete ones with zeros and cancellations); the loops over bits treat every pair alike", "Opt.qi is used with upper-triangular QUBO matrices, which is what the builders return"]
HISTORY = True
MIN_OBLIGATIONS = 200
BATCH = True

SRC = '''
import numpy as np
from blueqat import wq, vqe
from blueqat.pauli import qubo_bit

def matrix(n, shape, kind):
    """entries are independent symbols where the shape allows it"""
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            if shape == "full" or i == j or (shape == "upper" and i < j) or (shape == "lower" and i > j) or (shape == "sparse" and (i + j) % 2 and i < j):
                row.append(entry("q", i, j))
            elif shape == "symmetric":
                row.append(entry("q", min(i, j), max(i, j)))
            else:
                row.append(0)
        rows.append(row)
    if shape == "diagonal":
        pass
    if kind == "array":
        return np.array(rows)
    if kind == "tuples":
        return tuple(tuple(r) for r in rows)
    if kind == "rows of arrays":
        return [np.array(r) for r in rows]
    return rows

def vector(name, n, kind):
    v = [entry(name, i, 0) for i in range(n)]
    return np.array(v) if kind == "array" else tuple(v) if kind == "tuple" else v

def ints(n, shape):
    return [[(3 * i - 2 * j + 1 if shape == "full" or i <= j else 0) for j in range(n)] for i in range(n)]

def ob_pauli(n, shape, kind):
    if n > 2:
        generic()
    m = matrix(n, shape, kind)
    s = snap(m)
    h = wq.pauli(m)
    expect(unchanged(s, m), "pauli() modifies its argument", m)
    same_as_qubo(h, matrix(n, shape, "lists"))
    same_as_qubo(wq.pauli(m), matrix(n, shape, "lists"))

def ob_pauli_ints(n, shape, kind):
    m = ints(n, shape)
    if kind == "cancelling":
        m = [[m[i][j] if i < j else -m[j][i] if i > j else (i - 1) for j in range(n)] for i in range(n)]
    if kind == "floats":
        m = [[m[i][j] * 0.25 if (i + j) % 3 else 0.0 for j in range(n)] for i in range(n)]
    h = wq.pauli(np.array(m) if kind == "array" else m)
    same_as_qubo(h, m)

def ob_pauli_rejected():
    expect(raises(lambda: wq.pauli([[1, 2], [0]])) is not None and raises(lambda: wq.pauli([[1, 2, 3], [0, 1, 2]])) is not None, "pauli() accepts a matrix that is not square")

def ob_qubo_bit(n):
    b = qubo_bit(n)
    m = [[0] * (n + 1) for _ in range(n + 1)]
    m[n][n] = 1
    same_as_qubo(b, m)

def check_ising(o, m):
    J = o.J
    same_as_ising(J, o.ep, m)
    R = o.reJ()
    for i in range(len(m)):
        for j in range(len(m)):
            zero(R[i][j] - J[min(i, j)][max(i, j)], "reJ() is not the symmetric matrix of J")
    return J

def ob_qi(n, shape, kind, twice):
    o = wq.Opt()
    m = matrix(n, shape, kind)
    s = snap(m)
    o.qubo = m
    o.qi()
    expect(unchanged(s, m) and o.qubo is m, "qi() modifies the QUBO", m)
    check_ising(o, matrix(n, shape, "lists"))
    if twice:
        o.qi()
        check_ising(o, matrix(n, shape, "lists"))
        o.qubo = ints(n + 1, "upper")
        o.qi()
        check_ising(o, ints(n + 1, "upper"))

def ob_qi_ints(n, kind):
    o = wq.Opt()
    m = ints(n, "upper")
    o.qubo = np.array(m) if kind == "array" else m
    o.qi()
    check_ising(o, m)

def ob_ei(n):
    """the energies that the optimizers report"""
    o = wq.Opt()
    o.qubo = matrix(n, "upper", "lists")
    o.qi()
    for bits in all_bits(n):
        e = wq.Ei(np.array([2 * b - 1 for b in bits]), o.J) + o.ep
        zero(e - qubo_value(matrix(n, "upper", "lists"), bits), "Ei() plus the offset is not the QUBO energy")

def qubo_value(m, bits):
    v = 0
    for i in range(len(bits)):
        for j in range(len(bits)):
            v = v + m[i][j] * bits[i] * bits[j]
    return v

def ob_add(n, shape, kind, times):
    a, b = matrix(n, shape, kind), vector("v", n, "list")
    d = wq.diag(b)
    s = snap(a, d)
    o = wq.Opt()
    r = o.add(a)
    expect(r is o, "add() does not return the optimizer")
    same_qubo(o.qubo, a)
    if times == 1:
        o.add(d)
        want = [[a[i][j] + d[i][j] for j in range(n)] for i in range(n)]
    else:
        o.add(d, M=sym("w"))
        want = [[a[i][j] + sym("w") * d[i][j] for j in range(n)] for i in range(n)]
    same_qubo(o.qubo, want)
    expect(unchanged(s, a, d), "add() modifies its argument")
    if times == 2:
        o.add(a, -2)
        same_qubo(o.qubo, [[want[i][j] - 2 * a[i][j] for j in range(n)] for i in range(n)])
        expect(unchanged(s, a, d), "add() modifies its argument")
    p = wq.Opt().add(a, sym("w"))
    same_qubo(p.qubo, [[sym("w") * a[i][j] for j in range(n)] for i in range(n)])
    expect(unchanged(s, a, d), "add() modifies its argument")

def ob_opts_independent():
    a, b = wq.Opt(), wq.Opt()
    a.add([[1, 2], [0, 3]])
    expect(len(b.qubo) == 0 and len(wq.Opt().qubo) == 0 and len(b.E) == 0, "optimizers share their QUBO")
    a.qi()
    expect(len(b.J) == 0 and b.ep == 0, "optimizers share their Ising matrix")

def ob_sel(n, k, arr, kind):
    lst = list(arr)
    given = np.array(lst) if kind == "array" and lst else tuple(lst) if kind == "tuple" else lst
    s = snap(given)
    m = wq.sel(n, k) if kind == "default" else wq.sel(n, k, given)
    expect(unchanged(s, given), "sel() modifies its argument", given)
    want = [[0] * n for _ in range(n)]
    for i in range(n):
        want[i][i] = 1 - 2 * k - 0.5 * lst.count(i)
        for j in range(i + 1, n):
            want[i][j] = 2
    same_qubo(m, want)
    same_qubo(wq.sel(n, k, given) if kind != "default" else wq.sel(n, k), want)
    # the builder used before does not matter
    same_qubo(wq.sel(2, 1), [[-1, 2], [0, -1]])

def ob_mul(n, ka, kb):
    a, b = vector("a", n, ka), vector("b", n, kb)
    s = snap(a, b)
    m = wq.mul(a, b)
    expect(unchanged(s, a, b), "mul() modifies its arguments")
    same_qubo(m, [[a[i] * b[j] for j in range(n)] for i in range(n)])
    upper(m)

def ob_sqr(n, kind):
    a = vector("a", n, kind)
    s = snap(a)
    m = wq.sqr(a)
    expect(unchanged(s, a), "sqr() modifies its argument")
    same_qubo(m, [[a[i] * a[j] for j in range(n)] for i in range(n)])
    upper(m)

def upper(m):
    for i in range(len(m)):
        for j in range(i):
            zero(m[i][j], "the matrix is not upper triangular")

def ob_net(n, edges, kind):
    e = [list(x) for x in edges]
    given = np.array(e) if kind == "array" and e else [tuple(x) for x in e] if kind == "tuples" else e
    s = snap(given)
    m = wq.net(given, n)
    expect(unchanged(s, given), "net() modifies its argument", given)
    want = [[0] * n for _ in range(n)]
    for a, b in edges:
        want[min(a, b)][max(a, b)] = 1
    expect(len(m) == n, "size of the matrix", len(m))
    same_qubo(m, want)
    upper(m)

def ob_diag(n, kind):
    a = vector("a", n, kind)
    s = snap(a)
    m = wq.diag(a)
    expect(unchanged(s, a), "diag() modifies its argument")
    same_qubo(m, [[a[i] if i == j else 0 for j in range(n)] for i in range(n)])
    z = wq.zeros(n)
    expect(len(z) == n, "size of the matrix", len(z))
    same_qubo(z, [[0] * n for _ in range(n)])
    z[0][0] = 1
    same_qubo(wq.zeros(n), [[0] * n for _ in range(n)])

def ob_fresh(n):
    """changing a result does not change what is returned later, nor the argument"""
    for f, a in ((wq.diag, vector("a", n, "array")), (wq.sqr, vector("a", n, "array")), (wq.sqr, vector("a", n, "list"))):
        s = snap(a)
        m = f(a)
        t = snap(m)
        for i in range(n):
            for j in range(n):
                m[i][j] = 7
        expect(unchanged(s, a), "changing the result changes the argument")
        expect(unchanged(t, f(a)), "changing a result changes later results")
    m = matrix(n, "upper", "array")
    s = snap(m)
    o = wq.Opt().add(m)
    o.qi()
    J = o.J
    for i in range(n):
        for j in range(n):
            J[i][j] = 7
    expect(unchanged(s, m), "changing the Ising matrix changes the QUBO")
    q = o.qubo
    for i in range(n):
        for j in range(n):
            q[i][j] = 7
    expect(unchanged(s, m), "changing the optimizer's QUBO changes the argument of add()")

def ob_chain(n, k):
    """matrices of several builders added up, converted both ways"""
    generic()
    a, b = vector("a", n, "list"), vector("b", n, "list")
    o = wq.Opt().add(wq.sel(n, k)).add(wq.sqr(a), sym("w")).add(wq.mul(a, b)).add(wq.net([[0, n - 1]], n), 3)
    want = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            want[i][j] = sym("w") * a[i] * a[j] + a[i] * b[j] + ((1 - 2 * k) if i == j else 2 if i < j else 0) + (3 if (i, j) == (0, n - 1) else 0)
    same_qubo(o.qubo, want)
    same_as_qubo(wq.pauli(o.qubo), want)
    o.qi()
    same_as_ising(o.J, o.ep, want)

def ob_qaoa(n, step):
    o = wq.Opt()
    o.qubo = ints(n, "upper")
    r = o.qaoa(step=step) if step else o.qaoa()
    a = r.vqe.ansatz
    same_as_qubo(a.hamiltonian, ints(n, "upper"))
    expect(a.step == (step or 2), "number of steps", a.step)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq", "blueqat.pauli", "blueqat.vqe")))
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2)]

    def entry(I, a, k):
        name, i, j = a
        return Scalar.sym(f"{name}{i}{j}" if name == "q" else f"{name}{i}")

    def is_zero(s):
        d = I.E.norm(I.to_scalar(s))
        return d.is_zero() or all(abs(w.val(d)) < 1e-9 for w in worlds)

    def at(m, i, j):
        return I.to_scalar(I.getitem(I.getitem(m, i), j))

    def size(m):
        if isinstance(m, NP.NdArr):
            if len(m.shape) != 2 or m.shape[0] != m.shape[1]:
                raise Finding("energy", S.ob, f"the matrix has the shape {m.shape}")
            return m.shape[0]
        return len(I.list_values(m))

    def poly(m):
        """{(i, j) with i <= j: coefficient} of the QUBO polynomial"""
        n = size(m)
        out = {}
        for i in range(n):
            for j in range(n):
                key = (min(i, j), max(i, j))
                out[key] = out.get(key, Scalar.const(0)) + at(m, i, j)
        return out

    def value(p, bits):
        v = Scalar.const(0)
        for (i, j), c in p.items():
            if bits[i] and bits[j]:
                v = v + c
        return v

    def words(h):
        if isinstance(h, (int, float, complex, Scalar)):
            return {(): I.to_scalar(h)}
        out = {}
        for t in I.list_values(I.getattr(I.call(I.getattr(h, "to_expr"), [], {}), "terms")):
            qs = []
            for p in I.list_values(I.getattr(t, "ops")):
                op = I.getattr(p, "op")
                if op == "I":
                    continue
                if op != "Z":
                    raise Finding("energy", S.ob, f"the expression contains the operator {op}")
                qs.append(I.getattr(p, "n"))
            key = tuple(sorted(q for q in set(qs) if qs.count(q) % 2))
            out[key] = out.get(key, Scalar.const(0)) + I.to_scalar(I.getattr(t, "coeff"))
        return out

    def same_as_qubo(I, a, k):
        h, m = a
        w, p = words(h), poly(m)
        n = size(m)
        if any(q >= n for key in w for q in key):
            raise Finding("energy", S.ob, f"the expression acts on a qubit outside of 0..{n - 1}")
        for bits in itertools.product((0, 1), repeat=n):
            v = Scalar.const(0)
            for key, c in w.items():
                v = v + c * (-1 if sum(bits[q] for q in key) % 2 else 1)
            if not is_zero(v - value(p, bits)):
                raise Finding("energy", S.ob, f"for the bits {bits} the expression is {I.E.norm(v)}, the QUBO value is {I.E.norm(value(p, bits))}")

    def same_as_ising(I, a, k):
        J, ep, m = a
        p = poly(m)
        n = size(m)
        if size(J) != n:
            raise Finding("energy", S.ob, f"the Ising matrix has the size {size(J)}")
        for bits in itertools.product((0, 1), repeat=n):
            s = [2 * b - 1 for b in bits]
            v = I.to_scalar(ep)
            for i in range(n):
                v = v + at(J, i, i) * s[i]
                for j in range(i + 1, n):
                    v = v + at(J, i, j) * (s[i] * s[j])
            if not is_zero(v - value(p, bits)):
                raise Finding("energy", S.ob, f"for the bits {bits} the Ising energy is {I.E.norm(v)}, the QUBO value is {I.E.norm(value(p, bits))}")

    def same_qubo(I, a, k):
        x, y = poly(a[0]), poly(a[1])
        if size(a[0]) != size(a[1]):
            raise Finding("energy", S.ob, f"the matrix has the size {size(a[0])} instead of {size(a[1])}")
        for key in y:
            if not is_zero(x[key] - y[key]):
                raise Finding("energy", S.ob, f"the coefficient of bits {key} is {I.E.norm(x[key])} instead of {I.E.norm(y[key])}")

    def zero(I, a, k):
        if not is_zero(a[0]):
            raise Finding("energy", S.ob, f"{a[1]}: {I.E.norm(I.to_scalar(a[0]))}")

    def minimize(I, a, k):
        r = ModuleObj("result", "")
        r.f["x"] = a[1]
        return r
    # (the optimiser is numerical and not modelled: any point it returns is admissible, here the initial one)
    I.overrides["scipy.optimize", "minimize"] = Native("minimize", minimize)
    vqe = I.load("blueqat.vqe")
    for key, v in list(vqe.f.items()):
        if getattr(v, "name", "") == "scipy.optimize.minimize":
            vqe.f[key] = I.overrides["scipy.optimize", "minimize"]
    def generic(I, a, k):
        """from here on no combination of entries vanishes by accident"""
        I.E.generic = lambda d: all(abs(w.val(d)) > 1e-9 for w in worlds)
    S = Script(ck, I, SRC, generic=generic, entry=entry, same_as_qubo=same_as_qubo, same_as_ising=same_as_ising, same_qubo=same_qubo, zero=zero,
               all_bits=lambda I, a, k: ListObj([tuple(b) for b in itertools.product((0, 1), repeat=a[0])]))

    def start():
        I.E.generic = None
    S.on_start = start
    shapes = ("full", "upper", "lower", "symmetric", "diagonal", "sparse")
    kinds = ("lists", "array", "tuples", "rows of arrays")
    top = 4 if ck.tier == "quick" else 5
    for n in range(0, top + 1):
        S.run("energy", ["ob_pauli"], [(n, s, k) for s in shapes for k in kinds if n or k != "array"])
        S.run("energy", ["ob_pauli_ints"], [(n, s, k) for s in ("full", "upper") for k in ("lists", "array", "cancelling", "floats") if n or k != "array"])
        if n:
            S.run("energy", ["ob_qi"], [(n, s, k, t) for s in ("upper", "diagonal", "sparse") for k in ("lists", "array", "rows of arrays") for t in (False, True)])
            S.run("energy", ["ob_qi_ints"], [(n, k) for k in ("lists", "array")])
            S.run("energy", ["ob_add"], [(n, s, k, t) for s in ("full", "upper") for k in ("lists", "array") for t in (1, 2)])
            S.run("energy", ["ob_fresh"], [(n,)])
            S.run("energy", ["ob_diag"], [(n, k) for k in ("list", "array", "tuple")])
            S.run("energy", ["ob_sqr"], [(n, k) for k in ("list", "array", "tuple")])
            S.run("energy", ["ob_mul"], [(n, k, l) for k in ("list", "array", "tuple") for l in ("list", "array")])
            for kk in range(0, n + 1):
                S.run("energy", ["ob_sel"], [(n, kk, (), "default"), (n, kk, (), "list"), (n, kk, (0,), "list"), (n, kk, (n - 1,), "array"), (n, kk, tuple(range(n)), "list"), (n, kk, (0, 0, n - 1), "tuple")])
        if n <= 3 and n:
            S.run("energy", ["ob_ei"], [(n,)])
        if n > 1:
            S.run("energy", ["ob_chain"], [(n, k) for k in (1, 2)])
        S.run("energy", ["ob_qubo_bit"], [(n,)])
    S.run("energy", ["ob_pauli_rejected", "ob_opts_independent"])
    edges = [(), ((0, 1),), ((1, 0),), ((0, 1), (1, 2)), ((2, 0), (1, 2), (0, 2)), ((3, 1), (0, 3), (1, 0)), ((1, 1), (0, 2)), ((0, 1), (1, 0), (0, 1))]
    for e in edges:
        for n in (4, 5):
            S.run("energy", ["ob_net"], [(n, e, k) for k in ("lists", "tuples", "array")])
    S.run("energy", ["ob_qaoa"], [(n, s) for n in (1, 2, 3) for s in (0, 1, 2)])
