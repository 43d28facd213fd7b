import itertools
from ..gatesem import *
from ..script import Script
from .c12 import NPAR, TWO, THREE, LAMBD

RULE = ("Effect and alias analysis by abstract interpretation of experimental.Ops and circuit_to_unitary: every gate name, parameter and target form is applied to an Ops "
        "of generic width holding generic operations and to a Circuit holding the same; the results must agree in operations, order and width, the Ops operands must be "
        "unchanged and share no mutable object with what is returned. circuit_to_unitary() is interpreted on circuits of up to three qubits with symbolic angles and on a "
        "recording backend; its columns must be those of the circuit's unitary.")
ASSUME = ["circuit_to_unitary is decided for widths up to 3 (up to 4 in the thorough run)"]
HISTORY = True
MIN_OBLIGATIONS = 120
BATCH = True

SRC = '''
from blueqat import Circuit, BlueqatGlobalSetting
import blueqat.circuit as C
import blueqat.experimental.operations as O
from blueqat.experimental.operations import Ops
from blueqat.experimental.utils import circuit_to_unitary
from blueqat.gate import Gate, Measurement, Reset, XGate

def params(npar):
    return [sym("p0"), sym("p1"), sym("p2")][:npar]

def target(tg):
    a, b, d = nat("a"), nat("b"), nat("d")
    return {"q": a, "(q,r)": (a, b), "(q,r,s)": (a, b, d), "pairs": ((a, b), (d, a)), "neg": -1 - a, "()": (), ":": slice(None), "a:b": slice(a, b), "(:b,q)": (slice(None, b), d)}[tg]

def same_gate(g, h):
    return type(g) is type(h) and same_key(g.targets, h.targets) and same_key(tuple(g.params), tuple(h.params)) and same_key(g.kwargs, h.kwargs)

def agree(o, c, k):
    expect(type(o) is Ops, "the result is no Ops", type(o))
    expect(type(o.ops) is tuple, "the operations of an Ops are no tuple", type(o.ops))
    expect(len(o.ops) == len(c.ops), "number of operations of Ops and Circuit", o.ops, c.ops)
    for i, (g, h) in enumerate(zip(o.ops, c.ops)):
        if i < k:
            expect(g is h, "earlier operations are moved or replaced", o.ops)
        else:
            expect(same_gate(g, h), "Ops and Circuit hold different operations", g, h)
    expect(o.n_qubits == c.n_qubits, "width of Ops and Circuit", o.n_qubits, c.n_qubits)

def start(n):
    return Ops(n, (tok("op1"), tok("op2"))), Circuit(n, [tok("op1"), tok("op2")])

def ob_names():
    for name in O.GATE_SET:
        expect(name in C.GATE_SET and O.GATE_SET[name] is C.GATE_SET[name], "a gate name stands for different gates on Ops and Circuit", name)

def ob_gate(name, npar, tg):
    o, c = start(nat("n"))
    h = snap(o)
    ps = params(npar)
    w, v = getattr(o, name), getattr(c, name)
    if npar:
        w, v = w(*ps), v(*ps)
    r = w[target(tg)]
    agree(r, v[target(tg)], 2)
    expect(r is not o and unchanged(h, o) and len(o.ops) == 2, "appending a gate modifies the Ops", o)
    expect(len(shared(o, r)) == 0, "the new Ops shares mutable state with the old one", shared(o, r))
    s = w[0 if tg == "q" else target(tg)]
    expect(len(s.ops) == 3 and len(r.ops) == 3 and unchanged(h, o), "using a gate wrapper twice accumulates operations", s.ops)

def ob_kwargs(name, npar, names):
    o, c = start(nat("n"))
    v = tok("v")
    t = (0, 1) if name not in ("ccx", "toffoli") else (0, 1, 2)
    agree(getattr(o, name)(*params(npar), option=v)[t], getattr(c, name)(*params(npar), option=v)[t], 2)
    kw = dict(zip(names, params(npar)))
    if npar:
        c = start(nat("n"))[1]
        agree(getattr(o, name)(**kw)[t], getattr(c, name)(**kw)[t], 2)

def ob_chain(n):
    p = params(3)
    o = Ops(n)
    c = Circuit(n)
    h = snap(o)
    r = o.h[0].cx[0, 1].u3(*p)[2].rz(p[0])[:].m[0].swap[1, 3]
    d = c.h[0].cx[0, 1].u3(*p)[2].rz(p[0])[:].m[0].swap[1, 3]
    agree(r, d, 0)
    expect(unchanged(h, o) and len(o.ops) == 0, "building on an Ops modifies it")
    expect(len(Ops().ops) == 0 and Ops().n_qubits == 0 and len(Ops(3).ops) == 0, "the empty Ops is modified")

def ob_add(i, j):
    n, m = nat("n"), nat("m")
    a = Ops(n, (tok("op1"), tok("op2"))[:i])
    b = Ops(m, (tok("op3"), tok("op4"))[:j])
    ca = Circuit(n, list(a.ops))
    cb = Circuit(m, list(b.ops))
    h = snap(a, b)
    r = a + b
    agree(r, ca + cb, 4)
    expect(unchanged(h, a, b), "adding two Ops modifies an operand")
    s = a
    s += b
    agree(s, ca + cb, 4)
    expect(unchanged(h, a, b), "in-place addition modifies an operand")
    agree(a + a, ca + ca, 4)
    agree(a + b + a, ca + cb + ca, 6)

def ob_add_other():
    for x in (3, None, Circuit(1), "x"):
        expect(raises(lambda: Ops(1) + x) == "TypeError", "an Ops plus something else has to raise TypeError", x)

def ob_dagger(names):
    n = nat("n")
    o, c = Ops(n), Circuit(n)
    for name in names:
        t = 0 if name in ONE else (0, 1) if name in TWO else (0, 1, 2)
        ps = params(NP(name))
        if ps:
            o, c = getattr(o, name)(*ps)[t], getattr(c, name)(*ps)[t]
        else:
            o, c = getattr(o, name)[t], getattr(c, name)[t]
    h = snap(o)
    if "measure" in names:
        expect(raises(o.dagger) == "ValueError", "the dagger of an Ops with a measurement has to raise ValueError")
        return
    r = o.dagger()
    agree(r, c.dagger(), 0)
    expect(unchanged(h, o), "dagger() modifies the Ops")
    agree(r.dagger(), c.dagger().dagger(), 0)

def ob_to_circuit():
    n = nat("n")
    o, c = start(n)
    h = snap(o)
    r = o.to_circuit()
    expect(type(r) is Circuit, "to_circuit() returns no Circuit", type(r))
    agree(o, r, 2)
    expect(len(shared(o, r)) == 0, "the circuit shares mutable state with the Ops")
    r.x[nat("a")]
    r += Circuit(7, [tok("op3")])
    expect(unchanged(h, o), "changing the circuit changes the Ops")
    q = o.to_circuit()
    expect(len(q.ops) == 2 and q is not r, "to_circuit() returns the same circuit again")
    agree(o, q, 2)
    e = Ops(n).to_circuit()
    e.x[0]
    expect(len(Ops(n).ops) == 0 and len(Ops(n).to_circuit().ops) == 0, "circuits of empty Ops share their operations")

def ob_attr():
    expect(raises(lambda: Ops().nosuchgate) == "AttributeError", "an unknown name has to raise AttributeError")
    expect(raises(lambda: setattr(Ops(1), "n_qubits", 2)) == "AttributeError", "the fields of an Ops can be assigned")
    expect(raises(lambda: setattr(Ops(1), "ops", ())) == "AttributeError", "the fields of an Ops can be assigned")

# circuit_to_unitary
class Spy:
    def __init__(self):
        self.calls = []
    def run(self, gates, n_qubits, *args, **kwargs):
        self.calls.append((list(gates), n_qubits, args, kwargs))
        return [len(self.calls) * 10 + i for i in range(1 << n_qubits)]
    def copy(self):
        return self

def ob_spy(n):
    s = Spy()
    c = Circuit(n, [tok("op1"), tok("op2")])
    h = snap(c.ops, c.n_qubits)
    u = circuit_to_unitary(c, backend=s)
    expect(len(s.calls) == 1 << n, "number of runs", len(s.calls))
    expect(u.shape == (1 << n, 1 << n), "shape of the matrix", u.shape)
    done = []
    for gates, m, args, kwargs in s.calls:
        expect(m == n, "the basis states are run on another width", m, n)
        expect(len(gates) >= 2 and gates[-2] is tok("op1") and gates[-1] is tok("op2"), "the circuit's operations are not run", gates)
        bits = [0] * n
        for g in gates[:-2]:
            expect(type(g) is XGate, "the basis state is not prepared by X", g)
            for q in g.target_iter(n):
                bits[q] ^= 1
        done.append(sum(b << k for k, b in enumerate(bits)))
        expect(args == () and kwargs == {"returns": "statevector", "ignore_global": False}, "options of the runs", args, kwargs)
    for j in range(1 << n):
        k = done.index(j)
        for r in range(1 << n):
            expect(u[r, j] == (k + 1) * 10 + r, "column j is not the result for basis state j", r, j, u[r, j])
    expect(unchanged(h, c.ops, c.n_qubits), "circuit_to_unitary() modifies the circuit")

def ob_options():
    s = Spy()
    v = tok("v")
    c = Circuit(1, [tok("op1")])
    circuit_to_unitary(c, backend=s, option=v, ignore_global=True)
    for gates, m, args, kwargs in s.calls:
        expect(kwargs == {"returns": "statevector", "ignore_global": True, "option": v} and args == (), "options are not passed on", kwargs)
    expect(len(s.calls) == 2, "number of runs", len(s.calls))

def ob_zero():
    u = circuit_to_unitary(Circuit())
    expect(u.shape == (1, 1) and u[0, 0] == 1, "the matrix of the empty circuit", u)

def build(n, steps):
    c = Circuit(n)
    for name, k, tg in steps:
        w = getattr(c, name)
        if k:
            w = w(*params(k))
        w[tg]
    return c

def ob_unitary(n, steps, backend):
    c = build(n, steps)
    h = snap(c.ops, c.n_qubits)
    u = circuit_to_unitary(c) if backend is None else circuit_to_unitary(c, backend=backend)
    check_unitary(u, c)
    expect(unchanged(h, c.ops, c.n_qubits), "circuit_to_unitary() modifies the circuit")
    c.run()
    v = circuit_to_unitary(c)
    check_unitary(v, c)
    c.make_cache()
    check_unitary(circuit_to_unitary(c), c)
'''

STEPS = [("x", 0, 0)], [("h", 0, 0), ("rx", 1, 0)], [("cx", 0, (0, 1))], [("u3", 3, 1), ("cx", 0, (1, 0)), ("t", 0, 0)], [("ry", 1, -1), ("cz", 0, (0, 1))], [("ccx", 0, (2, 0, 1)), ("s", 0, 1)], \
    [("rz", 1, slice(None)), ("swap", 0, (0, 2)), ("crx", 1, (1, 2))], [("y", 0, (0, 2)), ("cphase", 1, (2, 1))]


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.experimental.operations", "blueqat.experimental.utils", "blueqat.backends._numba_backend_impl")))
    deep = ck.tier == "thorough"
    toks = {}
    rule = "ops"

    def unitary_of(I, a, k):
        u, c = a
        n = I.getattr(c, "n_qubits")
        P = Pos(0, n, tuple(range(n)))
        st = steps(I, I.list_values(I.getattr(c, "ops")), P, "circuit_to_unitary")
        want = normed(I, unitary(st, list(P.bits())))
        cells = u.cells()
        N = 1 << n
        if u.shape != (N, N):
            raise Finding(rule, "circuit_to_unitary", f"the matrix is {u.shape} instead of {(N, N)}")
        b = lambda i: tuple(i >> t & 1 for t in range(n))
        z = Scalar({})
        for i in range(N):
            for j in range(N):
                g, w = I.E.norm(I.to_scalar(cells[i * N + j])), want.get((b(i), b(j)), z)
                if not s_equal(g, w):
                    raise Finding(rule, "circuit_to_unitary", f"entry ({i}, {j}) is {g} instead of {w}")
    for n in range(6):
        toks[f"op{n}"] = Opaque(f"any:op{n}")

    def enter(I, a, k):
        Pos(0, a[0], ()).enter(I)
    S = Script(ck, I, SRC, tok=lambda I, a, k: toks.setdefault(a[0], Opaque("any:" + a[0])), check_unitary=unitary_of, NP=lambda I, a, k: NPAR.get(a[0], 0),
               TWO=tuple(TWO), ONE=("x", "y", "z", "h", "t", "s", "tdg", "sdg", "i", "rx", "ry", "rz", "phase", "u1", "u2", "u3", "measure", "m"), enter=enter)
    names = [k for k, _ in I.attr_path("blueqat.experimental.operations", "GATE_SET").pairs()]
    if "cx" not in names or "x" not in names:
        raise AnchorLost("Ops no longer knows cx or x")
    S.run(rule, ["ob_names", "ob_add_other", "ob_to_circuit", "ob_attr", "ob_zero", "ob_options"])
    for n in names:
        tgs = ["q", "(q,r)", ":", "a:b", "(:b,q)", "neg", "()"] if n not in TWO | THREE else ["(q,r)", "pairs"] if n in TWO else ["(q,r,s)"]
        S.run(rule, ["ob_gate"], [(n, NPAR.get(n, 0), t) for t in tgs])
        S.run(rule, ["ob_kwargs"], [(n, NPAR.get(n, 0), ListObj(LAMBD.get(n, ["theta"])))])
    S.run(rule, ["ob_chain"], [(k,) for k in (0, 2, 4, 9)] + [(SymInt(0, {"n": 1}),)])
    S.run(rule, ["ob_add"], [(i, j) for i in range(3) for j in range(3)])
    known = [n for n in names if n not in ("m", "measure", "reset")]
    S.run(rule, ["ob_dagger"], [(ListObj([n]),) for n in known] + [(ListObj(x),) for x in (["h", "t", "cx"], ["s", "rx", "u3", "swap"], ["x", "measure"], ["measure"], [], ["cu3", "u2", "ccx", "sdg", "t"])])
    S.run(rule, ["ob_spy"], [(n,) for n in range(1, 4 if not deep else 6)])
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        for st in STEPS:
            top = 1 + max(max(abs(y) for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, int)) if not isinstance(x, slice) else 0 for _, _, x in st)
            if top > n:
                continue
            s = ListObj([(a, b, SliceObj(None, None, None) if isinstance(t, slice) else t) for a, b, t in st])
            for b in (None, "numba"):
                def go(n=n, s=s, b=b):
                    Pos(0, n, ()).enter(I)
                    S.ob, S.rule = "circuit_to_unitary", rule
                    return I.call(S.m.f["ob_unitary"], [n, s, b], {})
                ck.oblige(I, f"circuit_to_unitary {st} n={n} {b or 'default backend'}", go)
