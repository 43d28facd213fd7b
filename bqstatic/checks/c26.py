"""C26: the QAOA ansatz builds the alternating circuit it documents."""
import cmath
import itertools
import math
from ..gatesem import *
from ..script import Script, deep_key
from ..stoch import World
from .. import npmodel as NP

RULE = ("Abstract interpretation of QaoaAnsatz.__init__ and get_circuit with symbolic parameters and symbolic or concrete real coefficients: the product of the defining unitaries of the operations in the "
        "resulting circuit must equal, up to a global phase, the initial circuit followed per step by exp(2 pi i gamma_k c P) for every Hamiltonian term and exp(-i pi beta_k X/2) on every qubit (or the "
        "evolution of every mixer term). Step counts, widths, initial circuits, mixers, kinds of parameter containers and commuting Hamiltonians are enumerated, Hamiltonians that do not commute must raise ValueError.")
ASSUME = ["step counts up to four, up to four qubits", "identity testing of the derived unitaries at pseudo-random parameters", "mixer is a list or an Expr of terms; an empty mixer is not considered"]
HISTORY = True
MIN_OBLIGATIONS = 100
BATCH = True

SRC = '''
import numpy as np
from blueqat import Circuit, vqe
from blueqat.pauli import Expr, Term, X, Y, Z, I

def factor(l, q):
    return {"X": X, "Y": Y, "Z": Z, "I": I}[l](q) if l != "I" else I

def expr(words, cs):
    return Expr(tuple(Term(tuple(factor(l, q) for q, l in w), c) for w, c in zip(words, cs)))

def hamiltonian(words, cs, form):
    if form == "term":
        return Term(tuple(factor(l, q) for q, l in words[0]), cs[0])
    if form == "sum":
        e = 0
        for w, c in zip(words, cs):
            t = c
            for q, l in w:
                t = t * factor(l, q)
            e = e + t
        return e
    return expr(words, cs)

def initial(n, kind):
    if kind == "default":
        return None
    if kind == "plain":
        return Circuit(n).ry(0.3)[0].x[n - 1]
    if kind == "slice":
        return Circuit(n).h[:].rz(0.7)[1:]
    if kind == "cached":
        c = Circuit(n).h[:].rx(1.1)[0]
        c.run()
        c.make_cache()
        return c
    if kind == "entangled":
        return Circuit(n).h[0].cx[0, n - 1].t[n - 1]
    if kind == "symbolic":
        return Circuit(n).ry(sym("init"))[0].h[n - 1]
    if kind == "empty":
        return Circuit(n)

def params(kind, k):
    ps = [sym("p" + str(i)) for i in range(k)]
    if kind == "tuple":
        return tuple(ps)
    if kind == "array":
        return np.array(ps)
    return ps

def mixer(words, cs, kind):
    e = expr(words, cs)
    return list(e) if kind == "list" else e

def ob_circuit(words, cs, form, step, n_init, init, pkind):
    """words and coefficients of the Hamiltonian, number of steps, width and kind of the initial circuit"""
    h = hamiltonian(words, cs, form)
    before = snap(h)
    ic = initial(n_init, init)
    ops = [] if ic is None else list(ic.ops)
    width = 0 if ic is None else ic.n_qubits
    if step is None:
        a = vqe.QaoaAnsatz(h) if ic is None else vqe.QaoaAnsatz(h, init_circuit=ic)
        step = 1
    elif ic is None:
        a = vqe.QaoaAnsatz(h, step)
    else:
        a = vqe.QaoaAnsatz(h, step, ic)
    expect(a.n_params == 2 * step, "number of parameters", a.n_params)
    same_polynomial(a.hamiltonian, words, cs)
    check_build(a, words, cs, step, ops, width, ic, pkind, None, None)
    expect(unchanged(before, h), "building the circuit modifies the Hamiltonian", h)

def ob_mixer(words, cs, mwords, mcs, mkind, step, n_init, init, pkind):
    ic = initial(n_init, init)
    ops = list(ic.ops)
    width = ic.n_qubits
    m = mixer(mwords, mcs, mkind)
    before = snap(m)
    a = vqe.QaoaAnsatz(expr(words, cs), step, ic, m)
    check_build(a, words, cs, step, ops, width, ic, pkind, mwords, mcs)
    expect(unchanged(before, m), "building the circuit modifies the mixer", m)

def check_build(a, words, cs, step, ops, width, ic, pkind, mwords, mcs):
    p = params(pkind, 2 * step)
    vals = [p[i] for i in range(2 * step)]
    before = snap(p)
    opsnap = snap(ops)
    c = a.get_circuit(p)
    expect(unchanged(before, p), "get_circuit modifies its parameters", p)
    check_circuit(c.ops, c.n_qubits, ops, width, words, cs, vals, step, mwords, mcs)
    if ic is not None:
        expect(len(ic.ops) == len(ops) and all(x is y for x, y in zip(ic.ops, ops)) and unchanged(opsnap, ops) and ic.n_qubits == width, "the initial circuit is modified", ic.ops)
    # a second circuit with other parameters does not depend on what happened to the first one
    c.x[0]
    if ic is not None:
        expect(len(ic.ops) == len(ops) and ic.n_qubits == width, "the initial circuit is modified with the built circuit", ic.ops)
    q = [sym("q" + str(i)) for i in range(2 * step)]
    c2 = a.get_circuit(q)
    check_circuit(c2.ops, c2.n_qubits, ops, width, words, cs, q, step, mwords, mcs)

def ob_rejected(words, cs, form, step, init):
    ic = initial(3, init)
    h = hamiltonian(words, cs, form)
    def make():
        return vqe.QaoaAnsatz(h, step) if ic is None else vqe.QaoaAnsatz(h, step, ic)
    expect(raises(make) == "ValueError", "a Hamiltonian that does not commute with itself is accepted")

def ob_mixer_alone(mwords, mkind, step):
    m = mixer(mwords, [1.0] * len(mwords), mkind)
    h = expr((((0, "Z"),), ((1, "Z"),)), (1.0, 2.0))
    expect(raises(lambda: vqe.QaoaAnsatz(h, step, mixer=m)) == "ValueError", "a mixer is accepted without an initial circuit")
    expect(raises(lambda: vqe.QaoaAnsatz(h, step, None, m)) == "ValueError", "a mixer is accepted without an initial circuit")

def ob_run(words, cs, step, n_init, init, mwords, mcs):
    """the energy the whole pipeline hands to the minimiser"""
    ic = initial(n_init, init)
    ops = None if ic is None else list(ic.ops)
    width = 0 if ic is None else ic.n_qubits
    h = expr(words, cs)
    a = vqe.QaoaAnsatz(h, step) if ic is None else vqe.QaoaAnsatz(h, step, ic) if mwords is None else vqe.QaoaAnsatz(h, step, ic, mixer(mwords, mcs, "list"))
    vals = [0.13, -0.4, 0.77, 0.21, 0.55, -0.9, 0.31, 0.08][:2 * step]
    got = []
    def minimizer(f, k):
        got.append(k)
        got.append(f(list(vals)))
        got.append(f(list(vals)))
        return list(vals)
    for s in (None, vqe.non_sampling_sampler):
        got.clear()
        r = vqe.Vqe(a, minimizer, s).run()
        expect(got[0] == 2 * step, "number of parameters")
        check_energy(got[1], ops, width, words, cs, vals, step, mwords, mcs)
        check_energy(got[2], ops, width, words, cs, vals, step, mwords, mcs)
        check_probs(r.get_probs(), ops, width, words, cs, vals, step, mwords, mcs)
'''
PAULI = {"X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]]}
MULT = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def reduced(word):
    ph, t = 1, {}
    for q, l in word:
        if l == "I":
            continue
        if q not in t:
            t[q] = l
        elif t[q] == l:
            del t[q]
        else:
            k, t[q] = MULT[t[q], l]
            ph *= k
    return ph, t


def apply_pauli(t, v, n):
    """P v for the factors t"""
    out = [0] * len(v)
    for i, x in enumerate(v):
        j, f = i, 1
        for q, l in t.items():
            b = i >> q & 1
            r = b ^ (l in "XY")
            f *= PAULI[l][r][b]
            j = j & ~(1 << q) | r << q
        out[j] += f * x
    return out


def evolve(t, theta, v, n):
    w = apply_pauli(t, v, n)
    return [cmath.cos(theta) * a + 1j * cmath.sin(theta) * b for a, b in zip(v, w)]


def apply_matrix(U, idx, v):
    out = [0] * len(v)
    for i, x in enumerate(v):
        if not x:
            continue
        col = sum((i >> q & 1) << j for j, q in enumerate(idx))
        base = i
        for q in idx:
            base &= ~(1 << q)
        for row in range(len(U)):
            if U[row][col]:
                out[base | sum((row >> j & 1) << q for j, q in enumerate(idx))] += U[row][col] * x
    return out


def commuting(words):
    ts = [reduced(w)[1] for w in words]
    return all(sum(q in b and a[q] != b[q] for q in a) % 2 == 0 for a, b in itertools.combinations(ts, 2))


def check(ck):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", "blueqat.vqe", "blueqat.pauli")))
    con = "QaoaAnsatz.get_circuit"

    def lst(x):
        return list(x) if isinstance(x, tuple) else I.list_values(x)

    def width_of(words, cs, width, mwords=()):
        """all qubits of the initial circuit, the Hamiltonian and the mixer (terms that cancel need no qubit)"""
        acc = {}
        for wd, c in zip(words, cs):
            ph, t = reduced(wd)
            key = tuple(sorted(t.items()))
            acc[key] = acc.get(key, Scalar.const(0)) + I.to_scalar(c) * ph
        ws = [k for k, c in acc.items() if not I.E.norm(c).is_zero()]
        return max([width] + [q + 1 for k in ws for q, l in k] + [q + 1 for w in mwords for q in reduced(w)[1]])

    def expected(w, ops, width, words, cs, vals, step, mwords, mcs, n):
        """numeric columns of the expected unitary in the world w (applied to every basis state)"""
        P = Pos(n, n, tuple(range(n)))
        init = [(U, idx) for U, idx, _ in initial_steps(ops, P)] if ops is not None else [(ref.H, [q]) for q in range(n)]
        init = [(w.mat(U), idx) for U, idx in init]
        words, co = nonzero(w, words, cs)
        mwords, mco = (None, ()) if mwords is None else nonzero(w, mwords, mcs)
        pv = [w.val(v) for v in vals]
        cols = []
        for b in range(1 << n):
            v = [0] * (1 << n)
            v[b] = 1
            for U, idx in init:
                v = apply_matrix(U, idx, v)
            for k in range(step):
                beta, gamma = pv[k].real * math.pi, pv[step + k].real * 2 * math.pi
                for wd, c in zip(words, co):
                    ph, t = reduced(wd)
                    v = evolve(t, (ph * c).real * gamma, v, n)
                if mwords is None:
                    for q in range(n):
                        v = evolve({q: "X"}, -beta / 2, v, n)
                else:
                    for wd, c in zip(mwords, mco):
                        ph, t = reduced(wd)
                        v = evolve(t, (ph * c).real * beta, v, n)
            cols.append(v)
        return cols

    def nonzero(w, words, cs):
        """the terms that are left and their numeric coefficients"""
        t = [(wd, I.E.norm(I.to_scalar(c))) for wd, c in zip(words, cs)]
        return [wd for wd, c in t if not c.is_zero()], [w.val(c) for wd, c in t if not c.is_zero()]

    def initial_steps(ops, P):
        """slices of the initial circuit cover all qubits of the built circuit"""
        return steps(I, ops, P, con)

    def opslist(o):
        return None if o is None else I.list_values(o)

    def check_circuit(I, a, k):
        ops, width, iops, iw, words, cs, vals, step, mwords, mcs = a
        words, cs, vals = lst(words), lst(cs), lst(vals)
        mwords, mcs = (None, None) if mwords is None else (lst(mwords), lst(mcs))
        iops = opslist(iops) if iw else None
        n = width_of(words, cs, iw, mwords or ())
        if width != n:
            raise Finding("ansatz", con, f"the circuit has {width} qubits instead of {n}")
        P = Pos(n, n, tuple(range(n)))
        st = steps(I, I.list_values(ops), P, con)
        for seed in (1, 2):
            w = World(seed, P)
            want = expected(w, iops, iw, words, cs, vals, step, mwords, mcs, n)
            num = [(w.mat(U), idx) for U, idx, _ in st]
            ip = 0
            got = []
            for b in range(1 << n):
                v = [0] * (1 << n)
                v[b] = 1
                for U, idx in num:
                    v = apply_matrix(U, idx, v)
                got.append(v)
            ip = sum(complex(x).conjugate() * y for c, d in zip(want, got) for x, y in zip(c, d)) / (1 << n)
            if not abs(abs(ip) - 1) < 1e-7:
                names = " ".join(f"{nm}{idx}" for _, idx, nm in st)
                raise Finding("ansatz", con, f"{step} steps for {words} give {names[:300]}, which is not the alternating circuit (overlap {abs(ip):.4f})")

    def same_polynomial(I, a, k):
        h, words, cs = a
        acc = {}
        for wd, c in zip(lst(words), lst(cs)):
            ph, t = reduced(wd)
            key = tuple(sorted(t.items()))
            acc[key] = acc.get(key, Scalar.const(0)) + I.to_scalar(c) * ph
        got = {}
        for t in I.list_values(I.getattr(h, "terms")):
            ops = [(I.getattr(p, "n"), I.getattr(p, "op")) for p in I.list_values(I.getattr(t, "ops"))]
            ph, tt = reduced(ops)
            key = tuple(sorted(tt.items()))
            got[key] = got.get(key, Scalar.const(0)) + I.to_scalar(I.getattr(t, "coeff")) * ph
        for key in set(acc) | set(got):
            d = I.E.norm(acc.get(key, Scalar.const(0)) - got.get(key, Scalar.const(0)))
            if not d.is_zero() and abs(World(1, Pos(1, 1, (0,))).val(d)) > 1e-9:
                raise Finding("ansatz", "QaoaAnsatz.hamiltonian", f"the coefficient of {key} differs by {d}")

    def final_state(a):
        iops, iw, words, cs, vals, step, mwords, mcs = a
        words, cs, vals = lst(words), lst(cs), lst(vals)
        mwords, mcs = (None, None) if mwords is None else (lst(mwords), lst(mcs))
        n = width_of(words, cs, iw, mwords or ())
        w = World(1, Pos(n, n, tuple(range(n))))
        cols = expected(w, opslist(iops), iw, words, cs, vals, step, mwords, mcs, n)
        return n, w, cols[0], words, [w.val(I.E.norm(I.to_scalar(c))) for c in cs]

    def check_energy(I, a, k):
        n, w, v, words, co = final_state(a[1:])
        want = 0
        for wd, c in zip(words, co):
            ph, t = reduced(wd)
            want += ph * c * sum(complex(x).conjugate() * y for x, y in zip(v, apply_pauli(t, v, n)))
        got = w.val(I.to_scalar(a[0]))
        if not abs(got - want) < 1e-6:
            raise Finding("ansatz", "Vqe.run", f"the energy of {words} in the built circuit is {got:.5f} instead of {want:.5f}")

    def check_probs(I, a, k):
        n, w, v, words, co = final_state(a[1:])
        got = {}
        for key, x in a[0].pairs():
            got[tuple(int(b.const_value().real) if isinstance(b, Scalar) else int(b) for b in key)] = w.val(I.to_scalar(x))
        for i, x in enumerate(v):
            b = tuple(i >> q & 1 for q in range(n))
            if not abs(got.get(b, 0) - abs(x) ** 2) < 1e-6:
                raise Finding("ansatz", "VqeResult.get_probs", f"the bits {b} have the probability {got.get(b, 0)} instead of {abs(x) ** 2:.5f}")

    S = Script(ck, I, SRC, check_circuit=check_circuit, same_polynomial=same_polynomial, check_energy=check_energy, check_probs=check_probs)

    def coeffs(k, kind):
        """real coefficients, distinct and not related to each other"""
        if kind == "symbolic":
            return tuple(Scalar.sym(f"c{i}") for i in range(k))
        return tuple((0.7, -1.3, 2, 0.45, -0.2, 1.9, 0.33, -3)[i % 8] for i in range(k))

    Zs = [(((0, "Z"),),), (((0, "Z"),), ((1, "Z"),)), (((0, "Z"), (1, "Z")), ((1, "Z"), (2, "Z"))), (((0, "Z"), (2, "Z")), ((1, "Z"),), ()),
          ((), ((0, "Z"), (1, "Z"), (2, "Z"))), (((2, "Z"),),), (((3, "Z"), (0, "Z")), ((1, "Z"),), ((2, "Z"), (1, "Z")))]
    others = [(((0, "X"),),), (((0, "Y"),), ((1, "X"),)), (((0, "X"), (1, "X")), ((0, "Z"), (1, "Z"))), (((0, "X"), (1, "Y")), ((0, "Y"), (1, "X")), ((0, "Z"), (1, "Z"))),
              (((0, "Y"), (1, "Y"), (2, "Z")), ((0, "X"), (1, "X")), ((2, "Z"),)), (((0, "Z"), (1, "X"), (2, "Z")), ((0, "X"), (1, "X"), (2, "X"))) if False else (((1, "X"), (2, "Z")), ((1, "Z"), (2, "X"))),
              (((2, "Y"), (0, "Y")),), (((0, "Z"), (1, "X"), (2, "Z")), ((1, "X"),))]
    odd = [(((0, "X"), (0, "X"), (1, "Z")), ((1, "Z"),)), (((1, "Z"), (0, "X"), (0, "X")), ((0, "Z"),)), (((1, "Z"), (0, "Z")), ((0, "Z"), (1, "Z")))]
    withid = (((0, "I"), (1, "Z")), ((0, "Z"),), ((2, "Z"), (0, "I")))
    for h in Zs + others + odd:
        assert commuting(h)
    pk = ("list", "tuple", "array")
    n = 0
    for h in Zs + others + odd:
        top = max([q + 1 for w in h for q, l in w])
        for kind in ("symbolic", "concrete"):
            for step in (1, 2) if top < 4 else (1,):
                n += 1
                S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), kind), "expr", step, 0, "default", pk[n % 3])])
        for init in ("plain", "slice", "cached", "entangled", "empty"):
            for w in {top, top + 1} if top < 4 else {top}:
                if init == "entangled" and w < 2:
                    continue
                n += 1
                S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), "concrete"), "expr", 1 + n % 2, w, init, pk[n % 3])])
    for h in (Zs[1], Zs[2], others[0], others[2]):
        for step in (None, 0, 1, 2, 3, 4):
            for p in pk:
                S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), "concrete"), "expr", step, 0, "default", p)])
            S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), "concrete"), "expr", step, 3, "plain", "list")])
        for form in ("sum",) + (("term",) if len(h) == 1 else ()):
            for init in ("default", "plain", "symbolic"):
                S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), k), form, 2, 2 if init != "default" else 0, init, "list") for k in ("symbolic", "concrete")])
    S.run("ansatz", ["ob_circuit"], [(withid, coeffs(3, k), "sum", 2, 0, "default", "list") for k in ("symbolic", "concrete")])
    # an initial circuit narrower than the Hamiltonian
    for h in (Zs[2], Zs[5], others[1], others[4]):
        for init in ("plain", "empty", "cached"):
            S.run("ansatz", ["ob_circuit"], [(h, coeffs(len(h), "concrete"), "expr", s, 1, init, "array") for s in (1, 2)])
    # mixers
    mixers = [(((0, "X"),), ((1, "X"),)), (((0, "X"), (1, "X")), ((0, "Y"), (1, "Y"))), (((0, "Y"),),), (((0, "Z"), (1, "X")), ((1, "Z"),), ((0, "X"), (1, "Z"))), (((2, "X"), (0, "Y")), ((1, "X"),)), (((0, "X"),), ())]
    for i, m in enumerate(mixers):
        for h in (Zs[1], Zs[3], others[2], others[5]):
            for mk in ("list", "expr"):
                n += 1
                S.run("ansatz", ["ob_mixer"], [(h, coeffs(len(h), ("symbolic", "concrete")[n % 2]), m, tuple(1 + c * 0.5 for c in coeffs(len(m), "concrete")), mk, 1 + (n + i) % 3, 3, ("plain", "slice", "cached", "entangled")[n % 4], pk[(n // 2) % 3])])
        S.run("ansatz", ["ob_mixer"], [(Zs[1], coeffs(2, "concrete"), m, coeffs(len(m), "symbolic"), "list", s, 3, "plain", "list") for s in (1, 2)])
        S.run("rejected", ["ob_mixer_alone"], [(m, mk, s) for mk in ("list", "expr") for s in (1, 2)])
    # Hamiltonians that do not commute
    bad = [(((0, "Z"),), ((0, "X"),)), (((0, "Y"),), ((0, "Z"),)), (((0, "X"),), ((0, "Y"),)), (((0, "Z"), (1, "Z")), ((1, "X"),)), (((0, "X"), (1, "Y")), ((1, "X"), (2, "Y"))),
           (((0, "Z"),), ((1, "Z"),), ((1, "Y"),)), (((0, "X"), (1, "X"), (2, "X")), ((0, "Z"), (1, "Z"), (2, "Z"))), ((), ((2, "Z"), (0, "X")), ((0, "Z"),)),
           (((0, "X"), (0, "Y")), ((0, "X"),)) if False else (((1, "X"), (0, "Z")), ((0, "X"), (1, "Y"), (2, "Z")), ((1, "Z"),))]
    for h in bad:
        assert not commuting(h), h
        for form in ("expr", "sum"):
            for step in (1, 2):
                S.run("rejected", ["ob_rejected"], [(h, coeffs(len(h), "concrete"), form, step, i) for i in ("default", "plain")])
    # terms that cancel do not count
    S.run("ansatz", ["ob_circuit"], [((((0, "Z"),), ((0, "X"),), ((0, "X"),)), (1.5, 2.0, -2.0), f, s, 0, "default", "list") for f in ("expr", "sum") for s in (1, 2)])
    # the energy seen by the minimiser
    for h in Zs[:6] + others[:6]:
        for step in (1, 2):
            S.run("energy", ["ob_run"], [(h, coeffs(len(h), "concrete"), step, w, i, None, None) for w, i in ((0, "default"), (3, "plain"), (3, "cached"))])
    for m in mixers:
        S.run("energy", ["ob_run"], [(h, coeffs(len(h), "concrete"), s, 3, i, m, tuple(1 + c * 0.5 for c in coeffs(len(m), "concrete"))) for h in (Zs[1], others[2]) for s in (1, 2) for i in ("plain", "slice")])
