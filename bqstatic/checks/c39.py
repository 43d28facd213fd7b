"""C39: the text of a circuit, gate, Ops or Pauli object is the Python expression that builds it."""
import ast
from ..scen import *
from ..interp import Frame
from ..script import Script

RULE = ("The text (repr, str) that the analysed source produces for circuits, gates, Ops and Pauli objects is parsed as a Python expression and interpreted abstractly with the package's names in scope: "
        "it must build an object of the same kind with the same gates in the same order on the same qubits with the same parameters and width, or an equal operator; producing it changes nothing.")
ASSUME = ["str() of Python numbers is the shortest text that reads back as the same number"]
HISTORY = True
MIN_OBLIGATIONS = 150
BATCH = True

SRC = '''
import copy
import numpy as np
import blueqat.gate as G
from blueqat import Circuit, vqe, wq, pauli
from blueqat.circuit import GATE_SET
from blueqat.pauli import X, Y, Z, I, Term, Expr, qubo_bit
from blueqat.experimental import Ops

NUMS = {"float": (0.5, -1.25, 3.0), "int": (2, -1, 0), "small": (1e-10, -2.5e-7, 1.0), "long": (0.1234567890123456, 3.141592653589793, -2.718281828459045), "zero": (0.0, 0, 0.0), "large": (12345678.9, 1e20, -1e16)}

def params_of(name, kind):
    n = {"rx": 1, "ry": 1, "rz": 1, "phase": 1, "u1": 1, "u2": 2, "u3": 3, "crx": 1, "cry": 1, "crz": 1, "cphase": 1, "r": 1, "cr": 1, "cu1": 1, "cu2": 2, "cu3": 3, "rxx": 1, "ryy": 1, "rzz": 1}
    return NUMS[kind][:n.get(name, 0)]

ONE = [0, 2, -1, (0, 3), (2, 0, 1), (1,), slice(None), slice(1, None), slice(None, 3), slice(0, 4, 2), slice(None, None, 2), slice(3, None, -1), slice(0, None, -1), slice(3, 0, -1), slice(0, 2), slice(None, None, -2), slice(-2, None), slice(1, -1), (0, slice(2, 4)), (slice(None, 2), 3), (slice(1, 3), -1)]
TWO = [(0, 2), (3, 1), (0, -1), ((0, 1), (2, 3)), ((3, 0, 1), (2, 1, 3)), ((1,), (2,)), (slice(None, 2), slice(2, None)), (slice(None, -1), slice(1, None)), (slice(0, 4, 2), slice(1, 4, 2)), ((0, 1), slice(2, 4)), (1, (2,))]
THREE = [(0, 1, 2), (3, 0, 1), (-1, 1, 0)]

def forms(name):
    g = GATE_SET[name]
    if name in ("ccx", "toffoli", "cswap"):
        return THREE
    if issubclass(g, G.TwoQubitGate) or name in ("swap", "rxx", "ryy", "rzz"):
        return TWO
    return ONE

def put(c, name, t, kind="float"):
    g = getattr(c, name)
    ps = params_of(name, kind)
    if ps:
        g = g(*ps)
    return g[t]

def where(g, n):
    if hasattr(g, "control_target_iter"):
        return list(g.control_target_iter(n))
    if hasattr(g, "target_iter"):
        return list(g.target_iter(n))
    return [g.targets]

def same(c, d, ordered=True):
    expect(type(c) is type(d), "what the text builds", d)
    expect(d.n_qubits == c.n_qubits, "width of what the text builds", d.n_qubits)
    expect(len(c.ops) == len(d.ops), "number of operations in the text", len(d.ops))
    n = c.n_qubits
    for a, b in zip(c.ops, d.ops):
        expect(type(a) is type(b) and a.lowername == b.lowername, "gate in the text", b.lowername)
        v, w = where(a, n), where(b, n)
        expect(v == w if ordered else sorted(v) == sorted(w), "qubits in the text", w)
        expect(len(a.params) == len(b.params), "parameters in the text", b.params)
        for p, q in zip(a.params, b.params):
            expect(p == q, "parameter in the text", q)

def texts(c):
    a, b = repr(c), str(c)
    expect(a == b and a == "%r" % (c,) and a == "{}".format(c), "repr and str of a circuit", a, b)
    return a

def ob_gate(name, k, kind):
    c = Circuit(4).x[0]
    c = put(c, name, forms(name)[k], kind).z[3]
    before = snap(c)
    t = texts(c)
    expect(unchanged(before, c), "making the text changed the circuit")
    expect(isinstance(t, str), "text of a circuit", t)
    same(c, value(t))
    g = c.ops[1]
    s = str(g)
    same(put(Circuit(4), name, forms(name)[k], kind), value("Circuit(4)." + s))
    expect(unchanged(before, c), "making the text changed the circuit")

def ob_dagger(name, k):
    """inverses of gates have a text too (the order of the pairs of an inverted gate has no notation)"""
    c = put(Circuit(4), name, forms(name)[k]).dagger()
    same(c, value(repr(c)), False)

def ob_ops(name, k):
    o = put(Ops(4).x[0], name, forms(name)[k]).y[2]
    t = repr(o)
    p = value(t)
    expect(type(p) is type(o), "what the text of Ops builds", p)
    same(o.to_circuit(), p.to_circuit())

def circuit(k):
    if k == 0:
        return Circuit()
    if k == 1:
        return Circuit(3)
    if k == 2:
        return Circuit(5).h[0]
    if k == 3:
        return Circuit().h[:2].cx[0, 1].m[:]
    if k == 4:
        return Circuit().rx(0.5)[0].cu3(0.1, 0.2, 0.3)[0, 2].ccx[0, 1, 2].s[:].swap[0, 1].reset[1]
    if k == 5:
        return Circuit().x[:].y[2].x[:]
    if k == 6:
        return Circuit(2).h[:] + Circuit(3).cx[1, 2].rz(-0.5)[0]
    if k == 7:
        return Circuit(2).h[0].t[1].u2(0.5, 0.25)[0].cx[0, 1].dagger()
    c = Circuit(3)
    (0.5 * X[0] * Z[2]).get_time_evolution()(c, 0.25)
    return c

def ob_circuit(k, use):
    c = circuit(k)
    if use == "run":
        c.run()
    if use == "append":
        repr(c)
        c.y[1]
    if use == "copy":
        c = c.copy()
    d = value(texts(c))
    same(c, d)
    # what the text builds goes on like the circuit
    same(c.copy().x[3], d.x[3])

def ob_ops_text(k):
    o = Ops(3).h[0].cx[0, 1].rz(0.5)[-1] if k == 0 else Ops(2) if k == 1 else Ops().x[2] if k == 2 else Ops(1).x[0] + Ops(3).y[:]
    p = value(repr(o))
    expect(type(p) is type(o), "what the text of Ops builds", p)
    same(o.to_circuit(), p.to_circuit())

PAULIS = {
    "X": lambda: X[1], "Y": lambda: Y[0], "Z": lambda: Z(30), "I": lambda: I, "I()": lambda: I(),
    "X*Y": lambda: X[0] * Y[1], "Y*X": lambda: Y[1] * X[0], "same bit": lambda: X[2] * Z[2], "identity term": lambda: X[1] * X[1], "scaled identity": lambda: 2.5 * I,
    "coeff": lambda: 0.25 * Z[2] * X[0], "negative": lambda: -1.5 * Z[2] * X[0], "minus": lambda: -Z[1], "minus identity": lambda: -1 * I, "int": lambda: 3 * X[0], "one": lambda: 1 * X[0].to_term(),
    "complex": lambda: (1 + 2j) * Y[1], "imaginary": lambda: 2j * Y[1], "minus imaginary": lambda: -1j * Y[1] * X[0], "minus complex": lambda: (-1 - 0.5j) * X[3], "small": lambda: -1e-12 * X[0],
    "zero term": lambda: Term((), 0), "zero letters": lambda: 0 * X[1], "long": lambda: 0.5 * X[0] * Y[1] * Z[2] * X[3], "unsorted": lambda: Term((Z[2], X[0]), 2.0), "repeated": lambda: Term((Z[2], X[2]), 2.0),
    "number": lambda: Expr.from_number(3), "negative number": lambda: Expr.from_number(-0.5), "zero": lambda: Expr.zero(), "one term": lambda: (-0.75 * X[0]).to_expr(), "minus one term": lambda: (-X[0]).to_expr(),
    "sum": lambda: X[0] + 2 * Z[1] * Y[0] + 3, "difference": lambda: X[0] - Y[1], "difference 2": lambda: -X[0] - 2.5 * Y[1] * X[0] + 1.5 * Z[2], "two": lambda: Z[0] + Z[1], "complex sum": lambda: 2j * X[0] - (1 + 1j) * Y[1] - 3j,
    "minus complex sum": lambda: X[0] + (-1 - 2j) * Y[1] - 1j * Z[0], "with constant": lambda: 1 - Z[0], "equal terms": lambda: X[0] + X[0], "not simplified": lambda: Expr((Term((X[0],), 1.0), Term((X[0],), -2.0), Term((), -1.0))),
    "zero terms": lambda: X[0] + 0 * Y[1] - 0 * Z[2], "bit": lambda: qubo_bit(2), "product": lambda: qubo_bit(0) * qubo_bit(1) - 2 * qubo_bit(1), "from text": lambda: Term.from_chars("XIZY"),
    "from dict": lambda: Expr.from_terms_dict({(X[0], Z[1]): -1.0, (): 2.0}) if hasattr(Expr, "from_terms_dict") else X[0],
    "square": lambda: (X[0] + Y[1]) ** 2, "simplified": lambda: ((X[0] - Z[1]) * (X[0] + Z[1])).simplify(),
}

def ob_pauli(name):
    p = PAULIS[name]()
    before = snap(p)
    t, s = repr(p), str(p)
    expect(t == s, "repr and str of a Pauli object", t, s)
    expect(unchanged(before, p), "making the text changed the object")
    q = value(t)
    expect(q == p and p == q, "operator in the text", t)
    table(p, q, t)
    if not hasattr(p, "terms"):
        # letters and products stay what they are
        expect(not hasattr(q, "terms"), "kind of the operator in the text", t)

def ob_sum_text(a, b):
    """the text of a sum has all its terms"""
    p, q = PAULIS[a](), PAULIS[b]()
    for r in (p.to_expr() + q.to_expr(), p.to_expr() - q.to_expr(), 0.5 * (p.to_expr() - 2 * q.to_expr())):
        t = repr(r)
        table(r, value(t), t)

def ob_term_in_list():
    t = repr([X[0], 2.0 * Y[1]]), str((Z[0] + X[1],))
    expect(value(t[0]) == [X[0], 2.0 * Y[1]] and value(t[1]) == (Z[0] + X[1],), "text of a list", t)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.gate", "blueqat.circuit", "blueqat.pauli", "blueqat.vqe", "blueqat.wq", "blueqat.experimental")))

    def value(I, a, k):
        text = a[0]
        if not isinstance(text, str):
            raise Undecided(f"the text {text!r} is not concrete")
        try:
            tree = ast.parse(text, mode="eval")
        except SyntaxError:
            raise Finding("text", S.ob, f"{text!r} is no expression")
        fr = Frame(None, S.m, qual="text")
        fr.vars = S.m.f
        try:
            return I.eval(tree.body, fr)
        except PyRaise as e:
            raise Finding("text", S.ob, f"{text!r} raises {e.exc.cls.name}")

    def dict_of(I, v):
        out = {}
        for t in I.list_values(I.getattr(I.call_method(I.call_method(v, "to_expr"), "simplify"), "terms")):
            key = tuple(o.cls.name + repr(o.tup) for o in I.list_values(t.tup[0]))
            out[key] = I.to_scalar(t.tup[1])
        return {k: v for k, v in out.items() if not I.E.norm(v).is_zero()}

    def table(I, a, k):
        p, q = dict_of(I, a[0]), dict_of(I, a[1])
        if set(p) != set(q) or any(not I.E.norm(p[x] - q[x]).is_zero() for x in p):
            raise Finding("text", S.ob, f"the text {a[2]!r} is another operator")

    S = Script(ck, I, SRC, value=value, table=table)
    gates = [p[0] for p in I.modules["blueqat.circuit"].f["GATE_SET"].pairs()]
    n = {g: len(I.list_values(I.call(S.m.f["forms"], [g], {}))) for g in gates}
    par = [g for g in gates if len(I.call(S.m.f["params_of"], [g, "float"], {}))]
    ops = {p[0] for p in I.modules["blueqat.experimental.operations"].f["GATE_SET"].pairs()}
    S.run("gate", ["ob_gate"], [(g, k, "float") for g in gates for k in range(n[g])])
    S.run("gate", ["ob_gate"], [(g, 0, kind) for g in par for kind in ("int", "zero", "small", "long", "large")])
    S.run("gate", ["ob_dagger"], [(g, k) for g in gates for k in range(n[g]) if g not in ("m", "measure", "reset")])
    S.run("ops", ["ob_ops"], [(g, k) for g in gates if g in ops for k in range(min(3, n[g]))])
    S.run("circuit", ["ob_circuit"], [(k, u) for k in range(9) for u in ("", "run", "append", "copy")])
    S.run("ops", ["ob_ops_text"], [(k,) for k in range(4)])
    names = [p[0] for p in S.m.f["PAULIS"].pairs()]
    S.run("pauli", ["ob_pauli"], [(p,) for p in names])
    S.run("pauli", ["ob_sum_text"], [(p, q) for p in names for q in names[::5 if ck.tier != "thorough" else 1]])
    S.run("pauli", ["ob_term_in_list"], [()])
