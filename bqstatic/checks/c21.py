import itertools
from ..gatesem import *
from ..script import Script, deep_key
from .c12 import NPAR, TWO, THREE

RULE = ("Abstract interpretation of the index-resolution code (target_iter / control_target_iter and everything below) against Python's own indexing of list(range(n)): "
        "all ints and slices with bounds around +-n and steps of both signs for every width up to the stated one, sequences of them, objects with __index__, and symbolic "
        "integers of either sign for a symbolic width; every pair form for two-qubit gates; malformed targets must raise the documented exception when resolved, on every "
        "backend, for every gate of the gate set. Backends must give the same result for a gate on slices, negative or listed indices as for the single gates they stand for.")
ASSUME = ["targets lie in range(-n, n); widths of slice enumeration are bounded as stated in the evidence"]
HISTORY = True
MIN_OBLIGATIONS = 300
BATCH = True

SRC = '''
from blueqat import Circuit
from blueqat.gate import XGate, Measurement, CXGate, SwapGate
from blueqat.circuit import GATE_SET

class Idx:
    def __init__(self, i):
        self.i = i
    def __index__(self):
        return self.i

def one(cls, spec, n):
    return list(cls(spec).target_iter(n))

def want(spec, n):
    r = list(range(n))
    out = []
    for s in spec if isinstance(spec, tuple) else (spec,):
        if isinstance(s, slice):
            out += r[s]
        else:
            out.append(r[s])
    return out

def ob_slices(n, step):
    for a in BOUNDS(n):
        for b in BOUNDS(n):
            s = slice(a, b, step)
            expect(one(XGate, s, n) == want(s, n), "a slice resolves to other indices than Python's", s, n, one(XGate, s, n))

def ob_wide(n, a, b, step):
    s = slice(a, b, step)
    expect(one(XGate, s, n) == want(s, n), "a slice resolves to other indices than Python's", s, n, one(XGate, s, n))

def ob_ints(n):
    for i in range(-n, n):
        expect(one(XGate, i, n) == want(i, n), "an index resolves to another qubit", i, n, one(XGate, i, n))
        expect(one(XGate, Idx(i), n) == want(i, n), "an object with __index__ resolves to another qubit", i, n, one(XGate, Idx(i), n))
        expect(one(XGate, (i,), n) == want(i, n), "an index resolves to another qubit", i, n, one(XGate, (i,), n))
        for j in range(-n, n):
            expect(one(XGate, (i, j), n) == want((i, j), n), "two indices resolve to other qubits", (i, j), n, one(XGate, (i, j), n))

def ob_symbolic(k):
    n = nat("n")
    a, b = nat("a"), nat("b")
    assume_lt(a, n)
    assume_lt(b, n)
    ts = {"q": (a, [a]), "-q": (-1 - a, [n - 1 - a]), "(q,-r)": ((a, -1 - b), [a, n - 1 - b]), "(-q,r,q)": ((-1 - a, b, a), [n - 1 - a, b, a])}
    spec, w = ts[k]
    for cls in (XGate, Measurement):
        r = one(cls, spec, n)
        expect(len(r) == len(w) and all(x == y for x, y in zip(r, w)), "indices resolve to other qubits", spec, r, w)

SEQS = [(0, 1, 2), (2, 0), (-1, 0, -1), (slice(None), 0), (slice(1, None), slice(None, 1)), (slice(None, None, -1), -2), (), (slice(0, 0),), (slice(None, None, 2), slice(1, None, 2)),
        (1, slice(-2, None), 1), (Idx(2), slice(None, Idx(2))), (-3, slice(-1, None, -2), 2), True, (True, False), slice(Idx(1), None, Idx(2))]
def ob_seq(i, name):
    s = SEQS[i]
    for n in (3, 4, 5):
        expect(one(GATE_SET[name], s, n) == want(s, n), "targets resolve to other indices than Python's", s, n, one(GATE_SET[name], s, n))

def mkone(name, spec, npar):
    return GATE_SET[name](spec, *[0.5] * npar)

def ob_bad_type(name, npar, i):
    bad = BAD[i]
    for spec in (bad, (0, bad), (bad, 1), (slice(None), bad)):
        if isinstance(bad, tuple) and spec is bad:
            continue
        r = raises(lambda: list(mkone(name, spec, npar).target_iter(3)))
        expect(r == "TypeError", "an index that is neither an integer nor a slice has to raise TypeError", spec, r)
        c = Circuit(3).y[0]
        h = snap(c)
        r = raises(lambda: getattr(c, name)(*[0.5] * npar)[spec])
        if r is None:
            r = raises(lambda: c.run(backend="qasm_output"))
        else:
            expect(unchanged(h, c), "a rejected gate is left in the circuit", spec, c.ops)
        expect(r == "TypeError", "a circuit has to reject an index that is neither an integer nor a slice with TypeError", spec, r)

BAD = [1.5, 0.0, "0", None, [0], {}, object(), 1j, (0, 1)]

def ob_bad_pair_type(name, npar, i):
    for spec in ((0, BAD[i]), (BAD[i], 0), ((0, BAD[i]), (1, 2)), ((0, 1), (2, BAD[i]))):
        if BAD[i] == (0, 1) and not isinstance(spec[0], tuple):
            continue
        if BAD[i] == (0, 1) and (spec[0] == (0, 1) or spec[1] == (0, 1)) and not (isinstance(spec[0], tuple) and isinstance(spec[1], tuple)):
            continue
        r = raises(lambda: list(mkone(name, spec, npar).control_target_iter(3)))
        expect(r == "TypeError", "an index that is neither an integer nor a slice has to raise TypeError", spec, r)

# two-qubit gates
POOL = [0, 1, 2, -1, -2, (0, 1), (1, 2), (2, 0), (1,), (0, -1), (), slice(None), slice(None, -1), slice(1, None), slice(None, None, -1), slice(0, 0), slice(1, 2), (0, slice(1, None)), (slice(None, 1), -1), Idx(2), (0, 1, 2), (2, 1, 0), (2, 1, 0, 1)]

def ob_pair(i, name, npar):
    for n in (3, 4):
        for q in POOL:
            spec = (POOL[i], q)
            cs, ts = want(spec[0], n), want(spec[1], n)
            g = mkone(name, spec, npar)
            if len(cs) != len(ts) or any(c == t for c, t in zip(cs, ts)):
                r = raises(lambda: list(g.control_target_iter(n)))
                expect(r == "ValueError", "pairs of different length or with a control equal to its target have to raise ValueError", spec, n, r)
            else:
                r = [tuple(x) for x in g.control_target_iter(n)]
                expect(r == list(zip(cs, ts)), "controls and targets are paired up differently", spec, n, r)

def ob_symbolic_pair(k):
    n = nat("n")
    a, b = nat("a"), nat("b")
    assume_lt(a, n)
    assume_lt(b, n)
    spec, p = {"(q,r)": ((a, b), (a, b)), "(-q,r)": ((-1 - a, b), (n - 1 - a, b)), "(q,-r)": ((a, -1 - b), (a, n - 1 - b)), "(-q,-r)": ((-1 - a, -1 - b), (n - 1 - a, n - 1 - b))}[k]
    for cls in (CXGate, SwapGate):
        g = cls(spec)
        if p[0] == p[1]:
            expect(raises(lambda: list(g.control_target_iter(n))) == "ValueError", "a control equal to its target has to raise ValueError", spec)
        else:
            r = [tuple(x) for x in g.control_target_iter(n)]
            expect(len(r) == 1 and r[0][0] == p[0] and r[0][1] == p[1], "the pair resolves to other qubits", spec, r)

def ob_not_pair(name, npar):
    for spec in (0, (), (0,), (0, 1, 2), slice(None), ((0, 1),), ((0, 1), (1, 2), (2, 0)), None, "01", [0, 1]):
        g = mkone(name, spec, npar)
        r = raises(lambda: list(g.control_target_iter(3)))
        expect(r == "ValueError", "targets of a two-qubit gate that are no pair have to raise ValueError", spec, r)

# the same on every backend
def ob_reject(name, npar, backend):
    for spec in ((0, 0), (1, -2), ((0, 1), 2), ((0, 1), (1, 1)), (slice(None), slice(None)), (0, 1, 2), 0, (0,), ((0, 1), (1, 2, 0))):
        c = Circuit(3)
        getattr(c, name)(*[0.5] * npar)[spec]
        r = raises(lambda: c.run(backend=backend))
        expect(r == "ValueError", "malformed pairs have to be rejected with ValueError", backend, name, spec, r)

ONE = [-1, -3, slice(None), slice(None, None, -1), (0, -1), (2, 0), slice(1, None), (slice(None, 1), 2), (-1, -1), ()]
PAIR = [(0, -1), (-1, 0), (-2, -3), ((0, 1), (1, 2)), ((2, 0), (-2, -1)), (slice(None, 2), slice(1, None)), (slice(None, -1), slice(None, None, -2)), ((), ()), (slice(0, 1), -1)]
def ob_same(name, npar, kind, i, backend):
    spec = (ONE if kind == "one" else PAIR)[i]
    ps = [sym("p0"), sym("p1"), sym("p2")][:npar]
    if kind == "one":
        singles = want(spec, 3)
    else:
        singles = list(zip(want(spec[0], 3), want(spec[1], 3)))
    a = result(backend, name, ps, [spec])
    b = result(backend, name, ps, singles)
    expect(same_result(a, b), "a gate on several targets differs from the single gates it stands for", backend, name, spec, singles)

def ob_late_width():
    """negative indices and slices are resolved for the width at the time of the run"""
    for spec, ws in ((-1, [3]), (slice(None), [0, 1, 2, 3]), (slice(-2, None), [2, 3])):
        c = Circuit().x[spec].z[3]
        d = Circuit(4)
        for w in ws:
            d.x[w]
        d.z[3]
        expect(c.to_qasm() == d.to_qasm(), "indices are resolved for another width than the circuit's", spec, c.to_qasm(), d.to_qasm())
    c = Circuit().cx[-1, 0].z[2] 
    expect(c.to_qasm() == Circuit(3).cx[2, 0].z[2].to_qasm(), "indices are resolved for another width than the circuit's", c.to_qasm())
    c = Circuit().x[-1]
    c += Circuit(3).z[0]
    expect(c.to_qasm() == Circuit(3).x[2].z[0].to_qasm(), "indices are resolved for another width than the circuit's", c.to_qasm())
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.backends._numba_backend_impl")))
    from .. import symodel as SY
    deep = ck.tier == "thorough"
    sims = {w: Sim(w, I) for w in ("numpy", "numba")}
    names = [k for k, _ in I.attr_path("blueqat.circuit", "GATE_SET").pairs()]
    one = [n for n in names if n not in TWO | THREE]
    two = [n for n in names if n in TWO]

    def result(I, a, k):
        backend, name, ps, specs = a[0], a[1], I.list_values(a[2]), I.list_values(a[3])
        P = Pos(0, 3, ())
        P.enter(I)
        ops = []
        for s in specs:
            if backend in sims:
                ops += I.list_values(sims[backend].ops(3, name, ps, s))
            else:
                c = I.call(I.attr_path("blueqat.circuit", "Circuit"), [3], {})
                g = I.getattr(c, name)
                I.getitem(I.call(g, ps, {}) if ps else g, s)
                ops += I.list_values(I.getattr(c, "ops"))
        if backend in sims:
            return ListObj([sims[backend].run(ListObj(ops), 3)])
        c = I.call(I.attr_path("blueqat.circuit", "Circuit"), [3, ListObj(ops)], {})
        return ListObj([I.call(I.getattr(c, "run"), [], {"backend": backend})])

    def same(I, a, k):
        x, y = a[0].items[0], a[1].items[0]
        if isinstance(x, (NP.VecObj, NP.NdArr)):
            X, Y = state_tab(I, x), state_tab(I, y)
            return set(X) == set(Y) and all(s_equal(X[b], Y[b]) for b in X)
        if isinstance(x, (SY.SMat, SY.Factors, SY.KOp)) and isinstance(y, (SY.SMat, SY.Factors, SY.KOp)):
            from .c03 import entries
            P = Pos(0, 3, ())
            X, Y = entries(I, P, x, "to_unitary"), entries(I, P, y, "to_unitary")
            z = Scalar({})
            return all(s_equal(X.get(b, z), Y.get(b, z)) for b in set(X) | set(Y))
        return deep_key(I, x) == deep_key(I, y)

    def lt(I, a, k):
        if not I.truth(I.int_cmp("<", a[0], a[1])):
            raise Prune()

    nmax = 5 if deep else 4
    S = Script(ck, I, SRC, assume_lt=lt, result=result, same_result=same,
               BOUNDS=lambda I, a, k: ListObj([None] + list(range(-a[0] - 2, a[0] + 3))))
    rule = "index-resolution"
    S.run(rule, ["ob_slices"], [(n, s) for n in range(0, nmax + 1) for s in [None] + [x for k in range(1, nmax + 2) for x in (k, -k)]])
    S.run(rule, ["ob_wide"], [(n, a, b, s) for n in (9, 33, 70) for a, b, s in [(None, None, None), (None, None, -1), (-7, None, 3), (n - 1, 0, -4), (2, -2, 5), (None, -3, None), (n, None, -2), (-n, n, 1), (32, None, None)]])
    S.run(rule, ["ob_ints"], [(n,) for n in range(1, nmax + 1)])
    S.run(rule, ["ob_symbolic"], [(k,) for k in ["q", "-q", "(q,-r)", "(-q,r,q)"]])
    S.run(rule, ["ob_seq"], [(i, n) for i in range(15) for n in (["x", "measure", "reset"])])
    S.run(rule, ["ob_bad_type"], [(n, NPAR.get(n, 0), i) for n in one for i in range(9) if n in ("x", "m", "rx") or i in (0, 2)])
    S.run(rule, ["ob_bad_pair_type"], [(n, NPAR.get(n, 0), i) for n in two for i in range(8) if n in ("cx", "swap") or i in (0, 2)])
    S.run(rule, ["ob_pair"], [(i, n, NPAR.get(n, 0)) for i in range(23) for n in (two if deep else ["cx", "swap", "crx"])])
    S.run(rule, ["ob_symbolic_pair"], [(k,) for k in ["(q,r)", "(-q,r)", "(q,-r)", "(-q,-r)"]])
    S.run(rule, ["ob_not_pair"], [(n, NPAR.get(n, 0)) for n in two])
    bk = ["numpy", "numba", "sympy_unitary", "qasm_output"]
    S.run(rule, ["ob_reject"], [(n, NPAR.get(n, 0), b) for n in two for b in bk if not (b == "qasm_output" and n == "cu2")])
    uni = [n for n in one if n not in ("m", "measure", "reset")]
    S.run(rule, ["ob_same"], [(n, NPAR.get(n, 0), "one", i, b) for n in uni for i in range(10) for b in bk if deep or n in ("x", "ry", "u3", "t") or i in (0, 1, 3, 4)])
    S.run(rule, ["ob_same"], [(n, NPAR.get(n, 0), "pair", i, b) for n in two for i in range(9) for b in bk if (deep or n in ("cx", "crz", "swap") or i in (0, 2, 5))])
    S.run(rule, ["ob_late_width"])
