"""C38: copies and pickles of circuits, gates and Pauli objects mean the same and are independent."""
import itertools
from ..scen import *
from ..script import Script
from ..scalar import Scalar

RULE = ("Abstract interpretation of Python's copy and pickle protocols (__reduce__, __getnewargs__, iteration of named tuples, __new__, __getstate__, __setstate__ and its lookup through __getattr__, references to classes and "
        "functions by name) on Pauli objects of every kind with symbolic coefficients, every gate of the gate set, circuits after every kind of run, Ops, optimizers and results: the copy must have the same type, be equal and hash "
        "equally, give the same strings, matrices, operations and results, and changing it (deep copies and pickles) must leave the original alone.")
ASSUME = ["copy and pickle follow the documented protocol (pickle protocol 2 or later)", "functions and classes are pickled by name"]
HISTORY = True
MIN_OBLIGATIONS = 200
BATCH = True

SRC = '''
import copy
import pickle
import numpy as np
import blueqat.gate as G
from blueqat import Circuit, BlueqatGlobalSetting as S, vqe, wq
from blueqat.circuit import GATE_SET
from blueqat.pauli import X, Y, Z, I, Term, Expr, qubo_bit
from blueqat.experimental import Ops

def dup(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "pickle":
        return pickle.loads(pickle.dumps(x))
    if how == "protocol":
        return pickle.loads(pickle.dumps(x, pickle.HIGHEST_PROTOCOL))
    if how == "nested":
        return copy.deepcopy({"a": [x, x]})["a"][1]
    if how == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(x)))
    return pickle.loads(pickle.dumps([(x,)]))[0][0]

PAULIS = {
    "X": lambda: X[1], "Y": lambda: Y[0], "Z": lambda: Z(3), "I": lambda: I, "I()": lambda: I(),
    "X*Y": lambda: X[0] * Y[1], "same bit": lambda: X[2] * Z[2], "identity term": lambda: X[1] * X[1], "coeff": lambda: sym("c") * Z[2] * X[0],
    "complex": lambda: 2j * Y[1], "zero term": lambda: Term((), 0), "long": lambda: X[0] * Y[1] * Z[2] * X[3] * sym("c"), "unsorted": lambda: Term((Z[2], X[0]), 2.0),
    "number": lambda: Expr.from_number(3), "zero": lambda: Expr.zero(), "one term": lambda: (sym("c") * X[0]).to_expr(), "sum": lambda: X[0] + sym("c") * Z[1] * Y[0] + 3,
    "two": lambda: Z[0] + Z[1], "three": lambda: X[0] - sym("c") * Y[1] + Z[0] * Z[1], "equal terms": lambda: X[0] + X[0], "not simplified": lambda: Expr((Term((X[0],), 1.0), Term((X[0],), 2.0))),
    "bit": lambda: qubo_bit(2), "from text": lambda: Term.from_chars("XIZY"),
}

def ob_pauli(name, how, touch):
    p = PAULIS[name]()
    if touch:
        # results that are kept in the object must not disturb the copy
        p.to_expr().simplify()
        p.to_matrix(4)
        raises(lambda: hash(p))
        repr(p)
    q = dup(p, how)
    expect(type(q) is type(p), "type of the copy", type(q))
    if name not in ("coeff", "long", "one term", "sum", "three"):
        expect(repr(q) == repr(p) and str(q) == str(p), "text of the copy", repr(q))
    expect(q == p and p == q and not (q != p), "the copy is not equal", q)
    if raises(lambda: hash(p)) is None:
        expect(hash(q) == hash(p), "hash of the copy")
        expect(len({p: 1, q: 2}) == 1, "the copy is another key")
    same_expr(p.to_expr(), q.to_expr())
    same_expr((q * 2 + X[0]).to_expr(), (p * 2 + X[0]).to_expr())
    if hasattr(p, "terms"):
        expect(isinstance(q.terms, tuple) and len(q.terms) == len(p.terms), "terms of the copy", q.terms)
        for s, t in zip(p.terms, q.terms):
            expect(type(s) is type(t) and s == t and s.ops == t.ops, "a term of the copy", t)
    if hasattr(p, "ops"):
        expect(isinstance(q.ops, tuple) and q.ops == p.ops, "letters of the copy", q.ops)
    a, b = p.to_matrix(4), q.to_matrix(4)
    expect(a.shape == b.shape, "matrix of the copy")
    same_cells(a, b)

def ob_evolution(name, how):
    """a copied term evolves circuits like the original"""
    p = PAULIS[name]().to_term() if not hasattr(PAULIS[name](), "ops") else PAULIS[name]()
    q = dup(p, how)
    c, d = Circuit(4), Circuit(4)
    p.get_time_evolution()(c, 0.5)
    q.get_time_evolution()(d, 0.5)
    same_ops(c, d)

def params_of(name):
    n = {"rx": 1, "ry": 1, "rz": 1, "phase": 1, "u1": 1, "u2": 2, "u3": 3, "crx": 1, "cry": 1, "crz": 1, "cphase": 1, "r": 1, "cr": 1, "cu1": 1, "cu2": 2, "cu3": 3, "rxx": 1, "ryy": 1, "rzz": 1}
    return [sym("p%d" % i) for i in range(n.get(name, 0))]

def targets_of(name, form):
    g = GATE_SET[name]
    if issubclass(g, G.TwoQubitGate):
        return (0, 2) if form == 0 else ((0, 1), (2, 3)) if form == 1 else (slice(None, 2), slice(2, None))
    if name in ("ccx", "toffoli", "cswap"):
        return (2, 0, 1) if form else (0, 1, 2)
    if name in ("swap", "rxx", "ryy", "rzz"):
        return (0, 2) if form == 0 else (3, 1)
    return 1 if form == 0 else (0, 3) if form == 1 else slice(None, None, 2)

def put(c, name, form):
    g = getattr(c, name)
    ps = params_of(name)
    if ps:
        g = g(*ps)
    return g[targets_of(name, form)]

def same_ops(c, d):
    expect(len(c.ops) == len(d.ops) and c.n_qubits == d.n_qubits, "operations and width of the copy", d.ops, d.n_qubits)
    for a, b in zip(c.ops, d.ops):
        same_gate(a, b)

def same_gate(a, b):
    expect(type(a) is type(b) and a.lowername == b.lowername and a.uppername == b.uppername, "gate of the copy", b)
    expect(a.targets == b.targets, "targets of the copy", b.targets)
    expect(len(a.params) == len(b.params) and all(same_number(x, y) for x, y in zip(a.params, b.params)), "parameters of the copy", b.params)
    expect(a.kwargs == b.kwargs, "options of the copy", b.kwargs)

def ob_gate(name, form, how):
    c = put(Circuit(4), name, form)
    g = c.ops[0]
    h = dup(g, how)
    same_gate(g, h)
    expect(str(g) == str(h), "text of the copy", str(h))
    if hasattr(g, "target_iter"):
        expect(list(g.target_iter(4)) == list(h.target_iter(4)), "targets of the copy")
    if hasattr(g, "control_target_iter"):
        expect(list(g.control_target_iter(4)) == list(h.control_target_iter(4)), "targets of the copy")
    if name not in ("reset", "measure", "m"):
        same_gate(g.dagger(), h.dagger())

def circuit(k):
    if k == 0:
        return Circuit()
    if k == 1:
        return Circuit(3).h[0].cx[0, 1]
    if k == 2:
        return Circuit().rx(0.5)[0].cu3(0.1, 0.2, 0.3)[0, 2].ccx[0, 1, 2].s[:].swap[0, 1]
    if k == 3:
        return Circuit(2).x[0].m[:]
    return Circuit(2).h[:].cz[0, 1].rz(0.25)[1].t[0]

def used(c, use):
    if use == "run":
        c.run()
    elif use == "cache":
        c.make_cache()
    elif use == "shots":
        c.run(shots=3)
    elif use == "unitary" and len(c.ops) > 0 and c.ops[-1].lowername != "measure":
        c.to_unitary()
    elif use == "qasm":
        c.to_qasm()
    elif use == "default":
        c.set_default_backend("qasm_output")
    elif use == "more":
        c.run()
        c.y[0]
    return c

def ob_circuit(k, use, how):
    c = used(circuit(k), use)
    d = dup(c, how)
    expect(type(d) is Circuit and d is not c, "type of the copy", d)
    same_ops(c, d)
    expect(repr(d) == repr(c), "text of the copy", repr(d))
    expect(d.get_default_backend_name() == c.get_default_backend_name(), "default back end of the copy")
    n, m = len(c.ops), c.n_qubits
    fresh = circuit(k)
    if use == "more":
        fresh.y[0]
    want = fresh.run()
    if how != "copy":
        # independent of each other
        d.x[4]
        expect(len(c.ops) == n and c.n_qubits == m and len(d.ops) == n + 1 and d.n_qubits == 5, "the copy shares the operations with the original", c.ops)
        same_cells(d.run(backend="numpy"), fresh.copy().x[4].run())
        c.h[0]
        expect(len(d.ops) == n + 1, "the copy shares the operations with the original", d.ops)
        d2 = dup(c, how)
        same_cells(d2.run(backend="numpy"), fresh.h[0].run())
    else:
        same_cells(d.run(backend="numpy"), want)

def ob_macro(how):
    S.register_macro("vpmacro", lambda c, i: c.x[i])
    d = dup(Circuit(2).vpmacro(1), how)
    d.vpmacro(0)
    expect([(g.lowername, g.targets) for g in d.ops] == [("x", 1), ("x", 0)], "macro on a copy", d.ops)
    S.unregister_macro("vpmacro")

def ob_missing(how):
    """a copy has no more attributes than the original"""
    d = dup(circuit(1), how)
    for name in ("no_such_gate", "run_with_nothing", "__no_such__"):
        expect(not hasattr(d, name), "attribute of a copy", name)

def ob_ops(how):
    o = Ops().h[0].cx[0, 1].rz(0.5)[1]
    p = dup(o, how)
    expect(type(p) is type(o), "type of the copy", p)
    same_ops(o.to_circuit(), p.to_circuit())
    q = p.x[3]
    same_ops(o.to_circuit(), p.to_circuit())
    expect(len(q.to_circuit().ops) == 4, "building on a copy")

def ob_opt(how, filled):
    o = wq.Opt()
    if filled:
        o.add([[sym("a"), sym("b")], [0, 2]])
        o.qi()
        o.E = [1.0, 2.0]
        o.ite = 7
    p = dup(o, how)
    for x, y in ((o.Ts, p.Ts), (o.Tf, p.Tf), (o.Gs, p.Gs), (o.Gf, p.Gf), (o.tro, p.tro), (o.R, p.R), (o.ite, p.ite), (o.E, p.E)):
        expect(x == y, "setting of the copy", x, y)
    if filled:
        same_cells(np.array(o.qubo), np.array(p.qubo))
        same_cells(o.reJ(), p.reJ())
        if how != "copy":
            p.qubo[0][1] = 5
            p.E.append(3.0)
            expect(o.E == [1.0, 2.0], "the copy shares the energies")
            same_cells(np.array(o.qubo), np.array([[sym("a"), sym("b")], [0, 2]]))

def ob_result(how):
    """results of variational runs"""
    r = vqe.VqeResult(None, [0.25, 0.5], Circuit(2).ry(0.25)[0].cx[0, 1])
    before = r.get_probs(vqe.non_sampling_sampler)
    s = dup(r, how)
    expect(type(s) is vqe.VqeResult and s.params == [0.25, 0.5], "copy of a result", s)
    same_ops(r.circuit, s.circuit)
    p = s.get_probs()
    expect(sorted(p.keys()) == sorted(before.keys()) and all(same_number(p[k], before[k]) for k in p), "probabilities of the copy", p)
    expect(s.most_common(1)[0][0] == r.most_common(1)[0][0], "most common outcome of the copy")

def ob_counts(how):
    random_bits()
    a = Circuit(2).x[0].m[:].run(shots=4)
    b = dup(a, how)
    expect(type(a) is type(b) and a == b and b["10"] == 4 and b["11"] == 0, "copy of counts", b)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.gate", "blueqat.circuit", "blueqat.pauli", "blueqat.vqe", "blueqat.wq", "blueqat.experimental")))

    def same(x, y):
        return I.E.norm(I.to_scalar(x) - I.to_scalar(y)).is_zero()

    def same_expr(I, a, k):
        p, q = [{tuple(repr(o.cls.name) + repr(o.tup) for o in I.list_values(t.tup[0])): t.tup[1] for t in I.list_values(I.getattr(I.call_method(x, "simplify"), "terms"))} for x in a]
        if set(p) != set(q) or any(not same(p[x], q[x]) for x in p):
            raise Finding("copy", S.ob, f"{q} instead of {p}")

    def same_cells(I, a, k):
        x, y = (NP_cells(v) for v in a)
        if len(x) != len(y) or any(not same(u, v) for u, v in zip(x, y)):
            raise Finding("copy", S.ob, "the copy gives another array")

    from .. import npmodel as NP

    def NP_cells(v):
        return NP.to_arr(I, v).cells()

    S = Script(ck, I, SRC, same_expr=same_expr, same_cells=same_cells, same_number=lambda I, a, k: same(a[0], a[1]), random_bits=lambda I, a, k: None)
    hows = ("copy", "deepcopy", "pickle", "protocol", "nested", "twice", "list")
    paulis = [x.value for x in S.m.f["PAULIS"].pairs()] if False else [p[0] for p in S.m.f["PAULIS"].pairs()]
    few = ("copy", "deepcopy", "pickle")
    S.run("pauli", ["ob_pauli"], [(p, h, False) for p in paulis for h in hows] + [(p, h, True) for p in paulis for h in few])
    S.run("pauli", ["ob_evolution"], [(p, h) for p in ("X", "Z", "X*Y", "coeff", "long", "unsorted", "identity term") for h in few])
    gates = [p[0] for p in I.modules["blueqat.circuit"].f["GATE_SET"].pairs()]
    S.run("gate", ["ob_gate"], [(g, f, h) for g in gates for f in (0, 1, 2) for h in few])
    S.run("circuit", ["ob_circuit"], [(k, u, h) for k in range(5) for u in ("", "run", "cache", "shots", "unitary", "qasm", "default", "more") for h in few if k or u != "more"])
    S.run("circuit", ["ob_circuit"], [(k, u, h) for k in (1, 2) for u in ("", "run", "more") for h in ("nested", "twice", "list")])
    S.run("circuit", ["ob_macro", "ob_missing"], [(h,) for h in hows])
    S.run("other", ["ob_ops", "ob_result", "ob_counts"], [(h,) for h in hows])
    S.run("other", ["ob_opt"], [(h, f) for h in hows for f in (False, True)])
