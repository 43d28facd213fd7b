"""C17: the VQE energy is the expectation value of the Hamiltonian."""
import itertools
from ..scen import *
from ..script import Script, deep_key
from ..stoch import World, facts_of, weight
from .. import npmodel as NP

RULE = ("Abstract interpretation of AnsatzBase.get_energy, get_energy_sparse, get_objective, sparse_expectation, Vqe.run and VqeResult on circuits whose state is a generic vector of symbols, with "
        "symbolic complex coefficients, for every product of X, Y and Z on up to three qubits, sums and constants, with an exact stand-in sampler and the package's own exact sampler: the resulting "
        "expression must equal the real part of the sum of coefficient times <psi|P|psi>. For every bundled sampler the operations and width of the given circuit are compared before and after.")
ASSUME = ["Hamiltonians are Exprs whose terms have at most one factor per qubit", "generic states of up to three qubits; products of up to ten factors with given outcomes and symbolic probabilities; no amplitude vanishes by accident", "identity testing of the derived expressions at pseudo-random states",
          "the sparse energy is asked for circuits as wide as the ansatz"]
HISTORY = 300
MIN_OBLIGATIONS = 200
BATCH = True

SRC = '''
from blueqat import Circuit, BlueqatGlobalSetting, vqe
from blueqat.pauli import Expr, Term, X, Y, Z, I
from blueqat.gate import Gate
from blueqat.backends.numpy_backend import NumPyBackend
from collections import Counter

class ProbeGate(Gate):
    lowername = "vpprobe"
    def __init__(self):
        self.params = ()
        self.kwargs = {}
        self.targets = ()
class ProbeBackend(NumPyBackend):
    def gate_vpprobe(self, gate, ctx):
        return vp_probe(self, gate, ctx)
BlueqatGlobalSetting.register_backend("vpprobe", ProbeBackend)

class Ansatz(vqe.AnsatzBase):
    def __init__(self, h, n_params, circuit):
        super().__init__(h, n_params)
        self.circuit = circuit
        self.asked = []
        if circuit.n_qubits > self.n_qubits:
            self.n_qubits = circuit.n_qubits
    def get_circuit(self, params):
        self.asked.append(params)
        return self.circuit.copy()

def circuit(n):
    c = Circuit(n)
    c.ops.append(ProbeGate())
    c.set_default_backend("vpprobe")
    return c

def factor(l, q):
    return {"X": X, "Y": Y, "Z": Z}[l](q)

def hamiltonian(words, how):
    terms = tuple(Term(tuple(factor(l, q) for q, l in w), coeff(i, how)) for i, w in enumerate(words))
    return Expr(terms)

def exact(c, meas):
    """the exact probabilities of the requested qubits"""
    v = c.run(returns="statevector")
    out = {}
    meas = tuple(meas)
    for i in range(len(v)):
        key = tuple(i >> q & 1 for q in meas)
        p = v[i] * v[i].conjugate()
        out[key] = out[key] + p if key in out else p
    return out

def sampler(name):
    return {"exact": exact, "vqe": vqe.non_sampling_sampler}[name]

def ob_energy(n, words, how, s):
    h = hamiltonian(words, how)
    c = circuit(n)
    a = Ansatz(h, 1, c)
    snap0 = snap(list(c.ops), c.n_qubits)
    hs = snap(h)
    e = a.get_energy(c, sampler(s))
    expect(unchanged(snap0, list(c.ops), c.n_qubits), "computing the energy modifies the circuit", c.ops)
    expect(unchanged(hs, a.hamiltonian), "computing the energy modifies the Hamiltonian", a.hamiltonian)
    check_energy(e, n, words, how)

def ob_long(n, words, pats):
    """a sampler that reports symbolic probabilities of given outcomes in every basis"""
    def sampler(c, meas):
        meas = tuple(meas)
        out = {}
        for i, b in enumerate(pats):
            key = tuple(b[q] for q in meas)
            p = sym("q" + str(i))
            out[key] = out[key] + p if key in out else p
        return out
    h = hamiltonian(words, "complex")
    c = Circuit(n).h[0]
    a = Ansatz(h, 1, c)
    check_signs(a.get_energy(c, sampler), words, pats)

def ob_energy_twice(n, words, how, s):
    h = hamiltonian(words, how)
    c = circuit(n)
    a = Ansatz(h, 1, c)
    a.get_energy(c, sampler(s))
    c.make_cache()
    check_energy(a.get_energy(c, sampler(s)), n, words, how)

def ob_sparse(n, words, how, fmt):
    h = hamiltonian(words, how)
    c = circuit(n)
    a = Ansatz(h, 1, c)
    if fmt == "default":
        a.make_sparse()
    elif fmt == "method":
        a.make_sparse(make_method=lambda e: e.to_matrix(n, sparse="csr"))
    else:
        a.make_sparse(fmt)
    snap0 = snap(list(c.ops), c.n_qubits)
    e = a.get_energy_sparse(c)
    expect(unchanged(snap0, list(c.ops), c.n_qubits), "computing the energy modifies the circuit", c.ops)
    check_energy(e, n, words, how)

def ob_objective(n, words, how, s):
    h = hamiltonian(words, how)
    a = Ansatz(h, 2, circuit(n))
    f = a.get_objective() if s == "none" else a.get_objective(sampler(s))
    p = [sym("p0"), sym("p1")]
    check_energy(f(p), n, words, how)
    expect(len(a.asked) == 1 and a.asked[0] is p, "the objective function asks for a circuit with other parameters", a.asked)
    check_energy(f([sym("p1"), sym("p0")]), n, words, how)

def ob_two(n, words, how, s, other, how2):
    """two ansatz objects of the same kind and size"""
    fs = [Ansatz(hamiltonian(w, h), 2, circuit(n)).get_objective(*([] if s == "none" else [sampler(s)])) for w, h in ((words, how), (other, how2))]
    for k in (0, 1, 0):
        check_energy(fs[k]([sym("p0"), sym("p1")]), n, (words, other)[k], (how, how2)[k])

def ob_vqe(n, words, how, s, verbose):
    h = hamiltonian(words, how)
    a = Ansatz(h, 2, circuit(n))
    best = [sym("b0"), sym("b1")]
    seen = []
    def minimizer(objective, n_params):
        seen.append(n_params)
        check_energy(objective([sym("p0"), sym("p1")]), n, words, how)
        return best
    v = vqe.Vqe(a, minimizer) if s == "none" else vqe.Vqe(a, minimizer, sampler(s))
    r = v.run(True) if verbose else v.run()
    expect(seen == [2], "number of parameters given to the minimiser", seen)
    expect(r.params is best, "the result does not hold the minimiser's parameters", r.params)
    expect(a.asked[-1] is best, "the circuit of the result is not made from the minimiser's parameters", a.asked)
    c = r.circuit
    snap0 = snap(list(c.ops), c.n_qubits)
    p = r.get_probs()
    check_probs(p, n)
    expect(unchanged(snap0, list(c.ops), c.n_qubits), "get_probs modifies the circuit", c.ops)
    expect(r.get_probs() is p, "get_probs() computes stored probabilities again")
    q = r.get_probs(exact)
    check_probs(q, n)
    expect(r.get_probs() is q, "get_probs(sampler) does not store its result")
    q2 = r.get_probs(exact, store=False)
    check_probs(q2, n)
    expect(r.get_probs() is q, "get_probs(store=False) stores its result")
    expect(r.get_probs(exact, rerun=False) is q, "get_probs(rerun=False) computes stored probabilities again")
    check_probs(r.get_probs(rerun=True), n)
    expect(unchanged(snap0, list(c.ops), c.n_qubits), "get_probs modifies the circuit", c.ops)

def ob_most_common(k):
    r = vqe.VqeResult(None, None, Circuit(2))
    r._probs = {(0, 0): 0.125, (1, 0): 0.5, (0, 1): 0.0625, (1, 1): 0.3125}
    want = (((1, 0), 0.5), ((1, 1), 0.3125), ((0, 0), 0.125), ((0, 1), 0.0625))
    got = r.most_common() if k == 0 else r.most_common(k)
    expect(got == want[:k or 1], "most_common", got)

# bundled samplers leave the circuit alone
def bundled(name):
    if name == "vqe":
        return vqe.non_sampling_sampler
    if name == "measurement":
        return vqe.get_measurement_sampler(2)
    if name == "measurement options":
        return vqe.get_measurement_sampler(2, {"backend": "numpy"})
    if name == "state vector":
        return vqe.get_state_vector_sampler(2)
    return vqe.get_qiskit_sampler(tok("backend"))

def ob_sampler_effect(name, meas, form):
    c = Circuit(2).h[0].rx(0.7)[1]
    if form == "default":
        c.set_default_backend("numpy")
    if form == "cached":
        c.make_cache()
    s = bundled(name)
    ops = c.ops
    before = snap(list(c.ops), c.n_qubits)
    s(c, meas)
    expect(c.ops is ops and unchanged(before, list(c.ops), c.n_qubits), "the sampler modifies the circuit", c.ops)
    s(c, tuple(reversed(meas)))
    expect(c.ops is ops and unchanged(before, list(c.ops), c.n_qubits), "the sampler modifies the circuit", c.ops)

def ob_energy_effect(name):
    c = Circuit(2).h[0].rx(0.7)[1]
    a = Ansatz(Expr((Term((X(0), Y(1)), 2.0), Term((Z(1),), 1.0), Term((), 0.5))), 1, c)
    ops = c.ops
    before = snap(list(c.ops), c.n_qubits)
    a.get_energy(c, bundled(name))
    expect(c.ops is ops and unchanged(before, list(c.ops), c.n_qubits), "computing the energy modifies the circuit", c.ops)
'''
LET = {"I": {(0, 0): 1, (1, 1): 1}, "X": {(0, 1): 1, (1, 0): 1}, "Y": {(0, 1): -1j, (1, 0): 1j}, "Z": {(0, 0): 1, (1, 1): -1}}


def value(w, n, words, cs):
    """real part of sum of coefficient * <psi|P|psi>; qubits beyond the state are |0>"""
    top = max([n] + [q + 1 for wd in words for q, l in wd])
    psi = {b + (0,) * (top - n): v[0] for b, v in w.psi.items()}
    tot = 0
    for wd, c in zip(words, cs):
        acc = 0
        for b, x in psi.items():
            d, f = list(b), 1
            for q, l in wd:
                col = b[q]
                row = col ^ (l in "XY")
                f *= LET[l][row, col]
                d[q] = row
            acc += f * x * psi.get(tuple(d), 0).conjugate()
        tot += c * acc
    return tot.real


def check(ck):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", "blueqat.vqe", "blueqat.pauli")))
    worlds = {}

    def world(n, seed):
        if (n, seed) not in worlds:
            worlds[n, seed] = World(seed, Pos(n, n, tuple(range(n))))
        return worlds[n, seed]

    def generic(d):
        n = box["n"]
        return n is not None and all(abs(world(n, s).val(d)) > 1e-9 for s in (1, 2))
    box = {"n": None}

    def probe(I, a, k):
        ctx = a[2]
        n = I.getattr(ctx, "n_qubits")
        Pos(n, n, tuple(range(n))).enter(I)
        m = box["n"]
        # the generic state of the first m qubits, |0> in qubits added later
        make_generic(I, ctx)
        if m < n:
            for o in reach(ctx):
                if isinstance(o, NP.NdArr) and o.dtype.kind in "cf" and len(o.idx) == 1 << n:
                    cells = o.cells()
                    if any(NP.psi(I, "v", (0,) * n).gens() & I.to_scalar(x).gens() for x in cells[:1]):
                        o.write(I, [(i, NP.psi(I, "v", tuple(i >> t & 1 for t in range(m))) if i < 1 << m else 0) for i in range(1 << n)])
        return ctx

    def coeffs(words, how):
        return [{"one": 1, "real": Scalar.sym(f"c{i}"), "complex": Scalar.sym(f"c{i}", real=False)}[how] for i in range(len(words))]

    def coeff(I, a, k):
        return coeffs([None] * (a[0] + 1), a[1])[-1]

    def check_energy(I, a, k):
        e, n, words, how = a
        what = S.ob.split("[")[0]
        e = I.E.norm(I.to_scalar(e))
        for seed in (1, 2, 3):
            w = world(n, seed)
            want = value(w, n, words, [w.val(c) for c in coeffs(words, how)])
            got = w.val(e)
            if not abs(got - want) < 1e-6 * (1 + abs(want)):
                raise Finding("energy", what, f"the energy of {show(words)} is {str(e)[:200]} which is {got:.4f} where {want:.4f} is right")

    def check_signs(I, a, k):
        e, words, pats = a
        want = Scalar.const(0)
        for w, c in zip(words, coeffs(words, "complex")):
            for i, b in enumerate(pats):
                want = want + c * Scalar.sym(f"q{i}") * (-1) ** sum(b[q] for q, l in w)
        want = want.real_part()
        if not I.E.norm(I.to_scalar(e) - want).is_zero():
            raise Finding("energy", "ob_energy", f"the energy of {show(words)} from the outcomes {pats} is {str(e)[:200]}")

    def check_probs(I, a, k):
        d, n = a
        got = {}
        for key, v in d.pairs():
            got[tuple(int(x.const_value().real) if isinstance(x, Scalar) else int(x) for x in key)] = I.to_scalar(v)
        for seed in (1, 2):
            w = world(n, seed)
            for b in w.psi:
                if abs(w.val(got.get(b, 0)) - abs(w.psi[b][0]) ** 2) > 1e-6:
                    raise Finding("energy", "VqeResult.get_probs", f"the bits {b} have the probability {got.get(b, 0)}")
            if len(got) != 1 << n:
                raise Finding("energy", "VqeResult.get_probs", f"probabilities of {sorted(got)}")

    def show(words):
        return " + ".join("*".join(f"{l}[{q}]" for q, l in w) or "1" for w in words)

    # stand-ins used by the samplers
    I.overrides["numpy.random", "multinomial"] = Native("multinomial", lambda I, a, k: NP.NdArr([Scalar.sym(f"d{i}") for i in range(len(I.list_values(a[1])))], (len(I.list_values(a[1])),), NP.dtype_of(I, "float64")))
    qk = ModuleObj("qiskit", "")
    aer, qc, job, res = (ModuleObj(x, "") for x in ("Aer", "QuantumCircuit", "job", "result"))
    aer.f["get_backend"] = Native("get_backend", lambda I, a, k: Opaque("backend"))
    qc.f["from_qasm_str"] = Native("from_qasm_str", lambda I, a, k: Opaque("circuit"))

    def get_counts(I, a, k):
        d = DictObj(I.bt["dict"])
        I.dict_set(d, "01", 3)
        I.dict_set(d, "11", 1021)
        return d
    res.f["get_counts"] = Native("get_counts", get_counts)
    job.f["result"] = Native("result", lambda I, a, k: res)
    qk.f.update({"Aer": aer, "QuantumCircuit": qc, "execute": Native("execute", lambda I, a, k: job)})
    I.ext["qiskit"] = qk
    S = Script(ck, I, SRC, vp_probe=probe, coeff=coeff, check_energy=check_energy, check_probs=check_probs, check_signs=check_signs)

    def words_on(n):
        for ls in itertools.product("IXYZ", repeat=n):
            yield tuple((q, l) for q, l in enumerate(ls) if l != "I")

    def run(names, args):
        """each tuple starts with the number of qubits of the state"""
        for a in args:
            def go(f=S.m.f[names], a=a):
                S.ob, S.rule = names[3:], "energy"
                box["n"] = a[0]
                I.E.generic = generic
                try:
                    return I.call(f, list(a), {})
                finally:
                    I.E.generic = None
            ck.run_bounded(I, f"{names[3:]} n={a[0]} {show(a[1])} {' '.join(map(str, a[2:]))}", go)
    # long products: the sign depends on the parity of all measured bits
    top = 16 if deep else 10
    for n in range(3, top + 1):
        w = tuple((q, "XYZ"[(q * q + n) % 3]) for q in range(n))
        for back in (False, True):
            ones = [tuple(int((q < j) != back) for q in range(n)) for j in range(n + 1)]
            mixed = [tuple((j * j + q * (j + 1) + q * q // 2) % 2 for q in range(n)) for j in range(n)]
            for pats in (ones, [b for b in dict.fromkeys(mixed)]):
                run("ob_long", [(n, ws, tuple(pats)) for ws in ((w,), (w[:-1], w, w[1:], ()), (tuple(reversed(w)), w[::2]))])
    nmax = 3
    for n in range(1, nmax + 1):
        ws = list(words_on(n))
        for w in ws:
            for s in ("exact", "vqe"):
                run("ob_energy", [(n, (w,), "complex", s)])
            run("ob_sparse", [(n, (w,), "complex", "default")])
            if len(w) > 1:
                run("ob_energy", [(n, (tuple(reversed(w)),), "complex", "vqe")])
        sums = [tuple(ws[(5 * i + 3 * j * j + i * j) % len(ws)] for j in range(2 + i % 3)) for i in range(16 if not deep else 64)]
        sums = [s for s in dict.fromkeys(sums) if len(set(s)) == len(s)]
        for i, ss in enumerate(sums):
            for how in ("real", "complex", "one"):
                run("ob_energy", [(n, ss, how, ("exact", "vqe")[i % 2])])
            run("ob_energy_twice", [(n, ss, "complex", "vqe")])
            run("ob_sparse", [(n, ss, "complex", f) for f in (("default", "csr", "csc", "coo", "method") if i % 4 == 0 else (("default", "csr", "csc", "coo", "lil", "dok")[i % 6],))])
            if i % 3 == 0:
                run("ob_objective", [(n, ss, "complex", s) for s in ("none", "exact", "vqe")])
                run("ob_two", [(n, ss, "real", s, o, h) for s in ("none", "vqe") for o, h in ((tuple(reversed([ws[-1 - ws.index(w)] for w in ss])), "real"), (ss, "one"))])
                run("ob_vqe", [(n, ss, "complex", s, v) for s in ("none", "exact", "vqe") for v in ((False, True) if i % 6 == 0 else (False,))])
        # constants alone, empty sums and the same product twice
        run("ob_energy", [(n, ss, "complex", s) for ss in [((),), (), ((), ()), (ws[1], ws[1]), (ws[-1], (), ws[-1])] for s in ("exact", "vqe")])
    # circuits that are wider or narrower than the Hamiltonian
    for n, ss in [(2, (((0, "X"),), ())), (3, (((0, "Y"),), ((1, "Z"),))), (3, (((1, "Y"), (0, "X")),)), (3, (((),)))]:
        run("ob_energy", [(n, ss, "complex", s) for s in ("exact", "vqe")])
        if any(ss):
            run("ob_sparse", [(n, ss, "complex", f) for f in ("default", "csr")])
            run("ob_objective", [(n, ss, "complex", "none")])
    for n, ss in [(1, (((1, "Z"),),)), (1, (((1, "X"), (0, "Y")), ((2, "Z"),))), (2, (((2, "Y"),), ((0, "X"), (2, "Z"))))]:
        run("ob_energy", [(n, ss, "complex", "exact"), (n, ss, "complex", "vqe")])
    box["n"] = None
    S.run("energy", ["ob_most_common"], [(k,) for k in (0, 1, 2, 4, 9)])
    S.run("circuit unchanged", ["ob_sampler_effect"], [(s, m, f) for s in ("vqe", "measurement", "measurement options", "state vector", "qiskit") for m in ((0,), (1,), (0, 1), (1, 0)) for f in ("", "default", "cached")])
    S.run("circuit unchanged", ["ob_energy_effect"], [(s,) for s in ("vqe", "measurement", "state vector", "qiskit")])
