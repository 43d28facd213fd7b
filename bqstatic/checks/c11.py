"""C11: circuit operations leave their operands unchanged and copies independent."""
from ..scen import *
from ..script import Script, deep_key, mutable_parts
from .. import npmodel as NP
from .c12 import NPAR, TWO, THREE, CLASSES

RULE = ("Effect and alias analysis by abstract interpretation: every way of using a circuit (+, +=, copy, dagger, run with each backend and option, make_cache, to_qasm, to_unitary, the bundled vqe "
        "samplers, energies) is interpreted on circuits holding every operation of the gate set with symbolic parameters and different cache histories. The list of operations, its elements, the public "
        "fields of every gate object and the width of every circuit involved must be the same afterwards; then a battery of later changes is interpreted on each circuit involved, and neither the other "
        "circuits' operations, width, default backend and result nor any mutable object they share may change.")
ASSUME = ["backends outside the package (qiskit, qgate) are replaced by stand-ins that accept any call", "every random draw is 0.6 (which outcome is drawn does not matter for what is written)", "attributes added to a gate object after its creation (memos) are not observed"]
HISTORY = True
MIN_OBLIGATIONS = 500
BATCH = True

SRC = '''
import numpy as np
from blueqat import Circuit, vqe, BlueqatGlobalSetting
from blueqat.circuit import GATE_SET
from blueqat.pauli import X, Y, Z, Term, Expr

TARGETS = {
    1: [lambda: 0, lambda: (2, 0), lambda: slice(None, None, None), lambda: slice(1, None, None), lambda: -1, lambda: (slice(0, 1), 2)],
    2: [lambda: (0, 1), lambda: ((0, 2), (1, 0)), lambda: (slice(0, 2), slice(1, 3)), lambda: (2, -3)],
    3: [lambda: (0, 1, 2), lambda: (2, 0, 1)],
}

def params(name, how):
    k = NPAR(name)
    if how == "symbolic":
        return [sym("p0"), sym("p1"), sym("p2")][:k]
    return [0.3, 1.1, -0.7][:k]

def one(name, i, how):
    c = Circuit(3)
    t = TARGETS[OPERANDS(name)][i]()
    w = getattr(c, name)
    if how == "options":
        return w(*params(name, how), option=tok("v"))[t]
    if NPAR(name):
        w = w(*params(name, how))
    return w[t]

def history(c, how):
    """what has been done with the circuit before"""
    if how == "ran":
        go(c, backend="numpy")
    elif how == "numba":
        go(c, backend="numba")
    elif how == "cached":
        c.make_cache("numpy")
        c.make_cache("numba")
    elif how == "all":
        c.set_default_backend("numba")
        go(c)
        c.make_cache()
        c.run(backend="numpy", shots=1)
        c.to_qasm()
    return c

def ransom(how, k):
    """circuits made of several operations; without measurement for even k"""
    if k == 0:
        c = Circuit(2).h[:].rx(0.4)[1].cx[0, 1]
    elif k == 1:
        c = Circuit(2).h[0].m[0].u2(0.3, 0.8)[1].reset[0]
    elif k == 2:
        c = Circuit(3).ry(0.6)[2].ryy(0.3)[(0, 1), (1, 2)].cu3(0.1, 0.2, 0.3)[0, 2].toffoli[0, 1, 2].swap[1, 2].t[:]
    elif k == 3:
        c = Circuit(1).x[0].m[:]
    elif k == 4:
        c = Circuit()
    elif k == 5:
        c = Circuit(3)
    else:
        c = Circuit().z[1].phase(0.2)[0]
    return history(c, how)

FIELDS = ("targets", "params", "kwargs", "lowername", "theta", "phi", "lambd", "_reverse_pairs")

def fields(g):
    return [(f, getattr(g, f)) for f in FIELDS if hasattr(g, f)]

class Watch:
    """remembers what must stay the same in a circuit"""
    def __init__(self, c, deep=False):
        self.c = c
        self.list = c.ops
        self.ops = list(c.ops)
        self.n = c.n_qubits
        self.default = c.get_default_backend_name()
        self.gates = [snap(fields(g)) for g in self.ops]
        self.deep = deep
        if deep and no_chance(c):
            self.result = c.copy(copy_backends=False).run(backend="numpy")

    def check(self, what):
        c = self.c
        expect(len(c.ops) == len(self.ops) and all(x is y for x, y in zip(c.ops, self.ops)), what + " changes the operations of a circuit", c.ops, self.ops)
        expect(c.n_qubits == self.n, what + " changes the width of a circuit", c.n_qubits, self.n)
        expect(c.get_default_backend_name() == self.default, what + " changes the default backend of a circuit", c.get_default_backend_name())
        for g, s in zip(self.ops, self.gates):
            expect(unchanged(s, fields(g)), what + " modifies a gate object", type(g).lowername, fields(g))

    def check_result(self, what):
        c = self.c
        if self.deep and no_chance(c):
            expect(same_key(self.result, c.run(backend="numpy")), what + " changes the result of another circuit")

def no_chance(c):
    return not any(g.lowername in ("measure", "reset") for g in c.ops)

# --- single gates
def ob_gate(name, i, how):
    c = one(name, i, how)
    g = c.ops[0]
    s = snap(fields(g))
    for f in (lambda: g.dagger(), lambda: g.fallback(3), lambda: str(g), lambda: repr(g), lambda: g.uppername, lambda: list(g.target_iter(3)), lambda: list(g.control_target_iter(3)),
              lambda: c.dagger(), lambda: c.dagger(ignore_measurement=True), lambda: c + c, lambda: c.copy(), lambda: repr(c)):
        try:
            f()
        except (ValueError, NotImplementedError, AttributeError):
            pass
        expect(unchanged(s, fields(g)), "a gate object is modified after its creation", fields(g))
        expect(len(c.ops) == 1 and c.ops[0] is g and c.n_qubits == 3, "the circuit is modified", c.ops)

def ob_gate_results(name, i, how):
    """the dagger of a gate can be used on its own"""
    c = one(name, i, how)
    g = c.ops[0]
    try:
        d = g.dagger()
        dd = d.dagger()
    except (ValueError, NotImplementedError):
        return
    s, t = snap(fields(g)), snap(fields(d))
    d.dagger()
    dd.dagger()
    go(Circuit(3, [g, d, dd, g]), backend="numpy")
    Circuit(3, [g, d, dd, g]).dagger().run(backend="numpy")
    expect(unchanged(s, fields(g)) and unchanged(t, fields(d)), "a gate object is modified after its creation", fields(g), fields(d))

def ob_runs(name, i, how, backend):
    c = one(name, i, how)
    w = Watch(c)
    for f in RUNS[backend]:
        f(c)
        w.check("running")
    f(c)
    w.check("running twice")

RUNS = {
    "numpy": [lambda c: go(c), lambda c: go(c, backend="numpy", ignore_global=True), lambda c: go(c, backend="numpy", returns="statevector_and_shots"), lambda c: c.make_cache("numpy"), lambda c: c.run(shots=1),
              lambda c: go(c, backend="numpy", enable_cache=False), lambda c: go(c, backend="numpy", returns="statevector")],
    "numba": [lambda c: go(c, backend="numba"), lambda c: c.run_with_numba(returns="shots", shots=1), lambda c: c.make_cache("numba"), lambda c: go(c, backend="numba", dtype=np.complex64)],
    "qasm": [lambda c: c.to_qasm(), lambda c: c.to_qasm(output_prologue=False), lambda c: c.run(backend="qasm_output"), lambda c: c.make_cache("qasm_output")],
    "sympy": [lambda c: attempt(lambda: c.to_unitary()), lambda c: attempt(lambda: c.to_unitary(ignore_global=True)), lambda c: attempt(lambda: c.run_with_sympy_unitary())],
    "ibmq": [lambda c: attempt(lambda: c.run(backend="ibmq")), lambda c: attempt(lambda: c.run_with_ibmq(shots=2, returns="qiskit_circuit")), lambda c: attempt(lambda: c.run_with_ibmq(returns="draw"))],
}

def go(c, **kw):
    """one shot is enough for a circuit with measurements"""
    if not no_chance(c):
        kw["shots"] = 1
    return c.run(**kw)

def attempt(f):
    try:
        return f()
    except (ValueError, NotImplementedError, AssertionError):
        pass

def ob_many(k, how, backend):
    c = ransom(how, k)
    w = Watch(c)
    for f in RUNS[backend]:
        f(c)
        w.check("running")
    for f in RUNS[backend]:
        f(c)
        w.check("running twice")

# --- circuits made from other circuits
def dagger(c, **kw):
    return c.dagger(ignore_measurement=True, **kw)

UNARY = {
    "copy": lambda c: c.copy(), "copy without backends": lambda c: c.copy(copy_backends=False), "copy without default": lambda c: c.copy(copy_default_backend=False), "bare copy": lambda c: c.copy(False, False),
    "dagger": lambda c: dagger(c), "dagger with backends": lambda c: dagger(c, copy_backends=True), "dagger without default": lambda c: dagger(c, copy_default_backend=False),
    "dagger of dagger": lambda c: dagger(dagger(c, copy_backends=True)), "copy of copy": lambda c: c.copy().copy(), "copy of dagger": lambda c: dagger(c).copy(),
    "+ nothing": lambda c: c + Circuit(), "nothing +": lambda c: Circuit() + c, "+ itself": lambda c: c + c, "+ its dagger": lambda c: c + dagger(c),
}
COMBINE = {
    "+": lambda c, d: c + d, "+ twice": lambda c, d: c + d + c, "copy +=": lambda c, d: iadd(c.copy(), d), "dagger +": lambda c, d: dagger(c) + d, "empty +=": lambda c, d: iadd(iadd(Circuit(), c), d),
    "sum": lambda c, d: sum([d, d], c),
}

def iadd(c, d):
    c += d
    return c

def add_in_place(c):
    c += Circuit(2).y[1]

def narrow(c):
    c.n_qubits = 1

CHANGES = [
    ("appending a gate", lambda c: c.x[0]), ("appending a measurement", lambda c: c.m[1]),
    ("running", lambda c: c.run(backend="numpy", shots=1)), ("running", lambda c: c.run(backend="numba", returns="statevector_and_shots", shots=1)),
    ("making a cache", lambda c: c.make_cache("numpy")), ("appending a wide gate", lambda c: c.z[2]), ("making a cache", lambda c: c.make_cache("numba")),
    ("setting the default backend", lambda c: c.set_default_backend("qasm_output")), ("exporting", lambda c: c.to_qasm()),
    ("setting the default backend", lambda c: c.set_default_backend("numpy")), ("adding in place", add_in_place),
    ("changing the list of operations", lambda c: c.ops.reverse()), ("changing the list of operations", lambda c: c.ops.pop()), ("changing the list of operations", lambda c: c.ops.clear()),
    ("running", lambda c: (narrow(c), c.run(backend="numpy"))),
]

def independent(make, parts, what):
    """none of the changes of one circuit shows in the others"""
    n = len(parts()) + 1
    for i in range(n):
        cs = parts()
        cs.insert(0, make(*cs))
        watches = [Watch(c, True) for c in cs]
        w = [watches[j] for j in range(n) if j != i]
        before = shared_state(cs[i], [x.c for x in w])
        for text, f in CHANGES:
            f(cs[i])
            for x in w:
                x.check(text + " (after " + what + ")")
            expect(shared_same(before), text + " of a circuit writes to an object shared by it and another one (after " + what + ")", before)
        for x in w:
            x.check_result("changing a circuit (after " + what + ")")

def ob_unary(op, k, how):
    c = ransom(how, k)
    w = Watch(c)
    r = UNARY[op](c)
    w.check(op)
    expect(r is not c and r.ops is not c.ops, op + " gives the same circuit or list")
    w.check(op)
    r2 = UNARY[op](c)
    w.check(op)
    expect(r2 is not r and r2.ops is not r.ops, op + " gives the same circuit or list twice")
    independent(UNARY[op], lambda: [ransom(how, k)], op)

def ob_combine(op, k, l, how, hol):
    c, d = ransom(how, k), ransom(hol, l)
    w, v = Watch(c), Watch(d)
    r = COMBINE[op](c, d)
    w.check(op)
    v.check(op)
    expect(r is not c and r is not d and r.ops is not c.ops and r.ops is not d.ops, op + " gives the same circuit or list")
    independent(COMBINE[op], lambda: [ransom(how, k), ransom(hol, l)], op)

def ob_iadd(k, l, how, hol):
    """changes only its left operand"""
    c, d = ransom(how, k), ransom(hol, l)
    v = Watch(d)
    ops, mine = list(c.ops), list(d.ops)
    gates = snap([fields(g) for g in ops])
    n = c.n_qubits
    r = c
    r += d
    v.check("+=")
    expect(r is c, "+= gives another circuit")
    expect(len(c.ops) == len(ops) + len(mine) and all(x is y for x, y in zip(c.ops, ops + mine)), "+= does not append the operations", c.ops)
    expect(unchanged(gates, [fields(g) for g in ops]), "+= modifies a gate object")
    expect(c.n_qubits == (n if n > d.n_qubits else d.n_qubits), "width after +=", c.n_qubits)
    expect(c.ops is not d.ops, "+= shares the list of operations")
    for i in (0, 1):
        cs = [ransom(how, k), ransom(hol, l)]
        cs[0] += cs[1]
        w = Watch(cs[1 - i], True)
        before = shared_state(cs[i], [cs[1 - i]])
        for text, f in CHANGES:
            f(cs[i])
            w.check(text + " (after +=)")
            expect(shared_same(before), text + " of a circuit writes to an object shared by it and another one (after +=)", before)
        w.check_result("changing a circuit (after +=)")

def ob_iadd_itself(k, how):
    c = ransom(how, k)
    ops = list(c.ops)
    c += c
    expect(len(c.ops) == 2 * len(ops) and all(x is y for x, y in zip(c.ops, ops + ops)), "c += c", c.ops)

# --- vqe
class Ansatz(vqe.AnsatzBase):
    def __init__(self, h, c):
        super().__init__(h, 1)
        self.c = c
        if c.n_qubits > self.n_qubits:
            self.n_qubits = c.n_qubits
    def get_circuit(self, params):
        return self.c.copy()

def energy_terms():
    return Expr((Term((X(0), Y(1)), 2.0), Term((Z(1),), 1.0), Term((X(0),), -0.5), Term((), 0.5)))

def vandal(seen):
    """a sampler that changes the circuit it is given"""
    def sample(c, meas):
        seen.append(c)
        for text, f in CHANGES:
            f(c)
        return {(0,) * len(tuple(meas)): 1.0}
    return sample

def ob_energy(k, how, objective):
    c = ransom(how, k)
    a = Ansatz(energy_terms(), c)
    w = Watch(c, True)
    seen = []
    if objective:
        a.get_objective(vandal(seen))([0.1])
    else:
        a.get_energy(c, vandal(seen))
    w.check("computing the energy")
    w.check_result("computing the energy")
    expect(len(seen) > 0 and all(s is not c and s.ops is not c.ops for s in seen), "the sampler is given the circuit itself")
    for i in range(len(seen)):
        expect(all(seen[i] is not s and seen[i].ops is not s.ops for s in seen[:i]), "the sampler is given the same circuit again")
    w.check("computing the energy")

def bundled(name):
    if name == "exact":
        return vqe.non_sampling_sampler
    if name == "measurement":
        return vqe.get_measurement_sampler(1)
    if name == "state vector":
        return vqe.get_state_vector_sampler(2)
    return vqe.get_qiskit_sampler(tok("backend"))

def ob_sampler(name, k, how, meas):
    c = ransom(how, k)
    w = Watch(c, True)
    s = bundled(name)
    s(c, meas)
    w.check("sampling")
    s(c, meas)
    w.check("sampling")
    a = Ansatz(energy_terms(), c)
    a.get_energy(c, s)
    w.check("computing the energy")
    w.check_result("computing the energy")
    if name == "exact":
        a.make_sparse()
        a.get_energy_sparse(c)
        w.check("computing the energy")

def ob_result(k, how):
    c = ransom(how, k)
    w = Watch(c)
    r = vqe.VqeResult(vqe.Vqe(Ansatz(energy_terms(), c), tok("minimizer")), [0.1], c)
    r.get_probs()
    w.check("get_probs")
    r.most_common(2)
    r.get_probs(vqe.non_sampling_sampler, store=False)
    w.check("get_probs")
'''


def check(ck):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", "blueqat.vqe", "blueqat.pauli", "blueqat.backends._numba_backend_impl")))
    I.overrides["numpy.random", "multinomial"] = Native("multinomial", lambda I, a, k: NP.NdArr([Scalar.sym(f"d{i}") for i in range(len(I.list_values(a[1])))], (len(I.list_values(a[1])),), NP.dtype_of(I, "float64")))
    # the outcome of a draw does not matter for what is written where
    I.overrides["random", "random"] = Native("random", lambda I, a, k: Scalar.const(0.6))
    fake_qiskit(I)

    def shared_state(I, a, k):
        """the mutable objects reachable from a circuit and from other ones, with what they hold"""
        mine = mutable_parts(I, a[0])
        out = []
        common = global_parts(I)
        for c in I.list_values(a[1]):
            for oid, o in mutable_parts(I, c).items():
                if oid in mine and oid not in common:
                    out.append((o, deep_key(I, o, {"later": 1})))
        return Held(out)

    def shared_same(I, a, k):
        return all(deep_key(I, o, {"later": 1}) == key for o, key in a[0].parts)

    S = Script(ck, I, SRC, NPAR=lambda I, a, k: NPAR.get(a[0], 0), OPERANDS=lambda I, a, k: 2 if a[0] in TWO else 3 if a[0] in THREE else 1, shared_state=shared_state, shared_same=shared_same)
    gset = I.attr_path("blueqat.circuit", "GATE_SET")
    names = [n for n, _ in gset.pairs() if n in CLASSES]
    for n in names:
        forms = {1: 6, 2: 4, 3: 2}[2 if n in TWO else 3 if n in THREE else 1]
        for i in range(forms):
            for how in ("symbolic", "options"):
                S.run("gate objects", ["ob_gate"], [(n, i, how)])
            S.run("gate objects", ["ob_gate_results"], [(n, i, "symbolic")])
            for j, b in enumerate(("numpy", "numba", "qasm", "sympy", "ibmq")):
                if deep or b in ("numpy", "numba") or (i + j) % 2 == 0:
                    S.run("operands unchanged", ["ob_runs"], [(n, i, "concrete" if b in ("qasm", "ibmq") else "symbolic", b)])
    H = ("none", "ran", "numba", "cached", "all")
    for k in range(7):
        for h in H:
            for b in ("numpy", "numba", "qasm", "sympy", "ibmq"):
                if b in ("numpy", "numba") or h in ("none", "all"):
                    S.run("operands unchanged", ["ob_many"], [(k, h, b)])
    for op in [k for k, _ in S.m.f["UNARY"].pairs()]:
        for k in range(7):
            for h in H:
                if deep or k in (0, 1) or h in ("none", "all"):
                    S.run("independent", ["ob_unary"], [(op, k, h)])
    for op in [k for k, _ in S.m.f["COMBINE"].pairs()]:
        for i, (k, l) in enumerate([(0, 1), (1, 0), (0, 2), (2, 3), (4, 0), (0, 4), (5, 3), (6, 6), (4, 5), (3, 1)]):
            for j, (g, h) in enumerate([("none", "none"), ("all", "cached"), ("ran", "all"), ("cached", "numba")]):
                if deep or j < 2 or (i + j) % 3 == 0:
                    S.run("independent", ["ob_combine"], [(op, k, l, g, h)])
    for i, (k, l) in enumerate([(0, 1), (1, 0), (0, 2), (2, 3), (4, 0), (0, 4), (5, 3), (6, 6), (4, 5), (3, 1)]):
        for g, h in [("none", "none"), ("all", "cached"), ("ran", "all"), ("cached", "numba")]:
            S.run("independent", ["ob_iadd"], [(k, l, g, h)])
    S.run("independent", ["ob_iadd_itself"], [(k, h) for k in range(7) for h in H])
    for k in (0, 2, 6):
        for h in H:
            S.run("samplers", ["ob_energy"], [(k, h, o) for o in (False, True)])
            for s in ("exact", "measurement", "state vector", "qiskit"):
                S.run("samplers", ["ob_sampler"], [(s, k, h, m) for m in ((0, 1), (1,)) if s != "measurement" or h in ("none", "all")])
            S.run("samplers", ["ob_result"], [(k, h)])


class Held(Opaque):
    """shared objects and their state, handed through the scenario"""
    def __init__(self, parts):
        super().__init__("shared objects")
        self.parts = parts


def global_parts(I):
    """what belongs to the package and not to a circuit"""
    out = set()
    for name, mod in I.modules.items():
        if name.startswith("blueqat"):
            for v in mod.f.values():
                if isinstance(v, ClassObj):
                    for x in v.f.values():
                        out |= {o.oid for o in reach(x)}
                else:
                    out |= {o.oid for o in reach(v)}
    return out


def fake_qiskit(I):
    qk = ModuleObj("qiskit", "")
    aer, qc, job, res = (ModuleObj(x, "") for x in ("Aer", "QuantumCircuit", "job", "result"))
    circ = ModuleObj("circuit", "")
    circ.f["draw"] = Native("draw", lambda I, a, k: "drawing")
    aer.f["get_backend"] = Native("get_backend", lambda I, a, k: Opaque("backend"))
    qc.f["from_qasm_str"] = Native("from_qasm_str", lambda I, a, k: circ)

    def get_counts(I, a, k):
        d = DictObj(I.bt["dict"])
        I.dict_set(d, "001", 3)
        I.dict_set(d, "011", 1021)
        return d
    res.f["get_counts"] = Native("get_counts", get_counts)
    job.f["result"] = Native("result", lambda I, a, k: res)
    qk.f.update({"Aer": aer, "QuantumCircuit": qc, "execute": Native("execute", lambda I, a, k: job)})
    I.ext["qiskit"] = qk
