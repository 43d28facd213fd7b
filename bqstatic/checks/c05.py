import itertools
from ..gatesem import *
from ..script import Script

RULE = ("Abstract interpretation of every dagger() method with symbolic angles, positions and width: the returned gate, resolved on the same operands, must "
        "have the adjoint unitary (up to a global phase), the same targets and the same keyword options; Circuit.dagger over operation lists with "
        "segments of arbitrary length must return the daggers in reverse order, the width, and treat measure/reset as documented.")
ASSUME = ["parameters are real numbers"]
HISTORY = True
MIN_OBLIGATIONS = 60

SRC = '''
from blueqat import Circuit
from blueqat.gate import Gate, Measurement, Reset

class G(Gate):
    lowername = "g"
    def __init__(self, k, inv=False):
        self.k = k
        self.inv = inv
        self.targets = ()
        self.params = ()
        self.kwargs = {}
        self.dual = None
    def dagger(self):
        if self.dual is not None:
            return self.dual
        return G(self.k, not self.inv)

def check_list(ops, want):
    expect(len(ops) == len(want), "number of operations of the inverse", len(ops), len(want))
    for g, k in zip(ops, want):
        expect(type(g) is G and g.k == k and g.inv, "the inverse does not hold the daggers in reverse order", [x.k for x in ops])

def ob_circuit_order(m):
    n = nat("n")
    c = Circuit(n, [G(i) for i in range(m)])
    h = snap(c)
    d = c.dagger()
    check_list(d.ops, [m - 1 - i for i in range(m)])
    expect(d.n_qubits == n, "the width of the inverse", d.n_qubits)
    expect(d is not c and len(shared(c, d)) == 0, "the inverse shares state with the circuit")
    expect(unchanged(h, c), "dagger() modifies the circuit")

def ob_circuit_any_length():
    n = nat("n")
    c = seg_circuit(n)
    d = c.dagger()
    ops = list(d.ops)
    expect_seg(ops)
    expect(d.n_qubits == n, "the width of the inverse", d.n_qubits)

def ob_measurement(kind, pos, m):
    n = nat("n")
    ops = [G(i) for i in range(m)]
    mm = Measurement(0) if kind == "measure" else Reset(0)
    ops.insert(pos, mm)
    c = Circuit(n, ops)
    h = snap(c)
    expect(raises(c.dagger) == "ValueError", "dagger() of a circuit with " + kind + " does not raise ValueError")
    expect(raises(c.dagger, ignore_measurement=False) == "ValueError", "dagger(ignore_measurement=False) does not raise ValueError")
    d = c.dagger(ignore_measurement=True)
    check_list(d.ops, [m - 1 - i for i in range(m)])
    expect(d.n_qubits == n, "the width of the inverse", d.n_qubits)
    expect(unchanged(h, c), "dagger() modifies the circuit")

def ob_measurements(kinds):
    ops = []
    k = 0
    for s in kinds:
        if s == "g":
            ops.append(G(k))
            k += 1
        elif s == "m":
            ops.append(Measurement(0))
        else:
            ops.append(Reset((0, 1)))
    c = Circuit(2, ops)
    d = c.dagger(ignore_measurement=True)
    check_list(d.ops, [k - 1 - i for i in range(k)])

def ob_twice():
    c = Circuit(nat("n"), [G(0), G(1), G(2)])
    d = c.dagger().dagger()
    expect([g.k for g in d.ops] == [0, 1, 2] and not any([g.inv for g in d.ops]), "dagger twice")

def ob_default_backend(flag):
    c = Circuit(2, [G(0)])
    c.set_default_backend("numpy")
    d = c.dagger(copy_default_backend=flag)
    expect(len(d.ops) == 1, "operations")
'''


def check(ck):
    I = ck.use(new_interp())
    classes = gate_classes(I)
    for n in ("s", "tdg", "u2", "u3", "cu2", "cu3", "rxx", "ccx", "measure", "reset"):
        if n not in classes:
            raise AnchorLost(f"gate class {n!r} not found")
    for name, cls in classes.items():
        if name in ("measure", "reset"):
            def go(cls=cls, name=name):
                g = I.call(cls, [0], {})
                try:
                    I.call(I.getattr(g, "dagger"), [], {})
                except PyRaise as e:
                    if e.exc.cls.name != "ValueError":
                        raise Finding("dagger", f"dagger:{name}", f"raises {e.exc.cls.name} instead of ValueError")
                    return
                raise Finding("dagger", f"dagger:{name}", "does not raise ValueError")
            ck.oblige(I, f"dagger {name} is refused", go)
            continue
        if name not in ref.GATES:
            ck.notes.append({"gate_without_oracle": name})
            continue
        nq, pn, fn = ref.GATES[name]
        params = [Scalar.sym(x) for x in pn]
        for label, k, mk, ops_q in targets(nq):
            def scenario(P, cls=cls, name=name, params=params, mk=mk, ops_q=ops_q, fn=fn, label=label):
                def go():
                    P.enter(I)
                    con = f"dagger:{name}"
                    tg = mk(P.p)
                    v = Opaque("any:v")
                    g = I.call(cls, [tg] + params, {"option": v})
                    d = I.call(I.getattr(g, "dagger"), [], {})
                    kw = I.getattr(d, "kwargs")
                    kv = [(k_, x) for k_, x in kw.pairs()] if isinstance(kw, DictObj) else None
                    if kv is None or len(kv) != 1 or kv[0][0] != "option" or kv[0][1] is not v:
                        raise Finding("dagger", con, f"the keyword options of the gate are not kept: {kv}")
                    if freeze(I.getattr(d, "targets")) != freeze(tg):
                        raise Finding("dagger", con, f"the targets {tg} become {I.getattr(d, 'targets')}")
                    st = steps(I, [d], P, con)
                    U = fn(*params)
                    want = [(ref.adj(U), [P.index(q) for q in qs], name) for qs in reversed(ops_q)]
                    same_up_to_phase(I, st, want, P, "dagger", con, f"dagger of {name}{label} is not its inverse")
                    dd = I.call(I.getattr(d, "dagger"), [], {})
                    same_up_to_phase(I, steps(I, [dd], P, con), [(U, [P.index(q) for q in qs], name) for qs in ops_q], P, "dagger", con,
                                     f"dagger of the dagger of {name}{label} is not {name}")
                return go
            ck.oblige(I, f"dagger {name}{label}", scenario(Pos(k)))
        # constructed by keyword

    S = Script(ck, I, SRC, seg_circuit=lambda I, a, k: seg_circuit(I, S, a[0]), expect_seg=lambda I, a, k: expect_seg(I, a[0]))
    S.run("circuit-dagger", ["ob_circuit_order"], [(m,) for m in range(5)])
    S.run("circuit-dagger", ["ob_circuit_any_length", "ob_twice"])
    S.run("circuit-dagger", ["ob_measurement"], [(k, p, m) for k in ("measure", "reset") for m in range(3) for p in range(m + 1)])
    S.run("circuit-dagger", ["ob_measurements"], [(s,) for s in ("mm", "gmg", "mgrgm", "rrg", "gmrg")])
    S.run("circuit-dagger", ["ob_default_backend"], [(True,), (False,)])


def seg_circuit(I, S, n):
    """[g0, m copies of g1, g2] for an arbitrary m"""
    G = S.m.f["G"]
    g = [I.call(G, [i], {}) for i in range(3)]
    for i, x in enumerate(g):
        I.setattr(x, "dual", I.call(G, [i, True], {}))
    m = SymInt(0, {"m": 1})
    I.width = n
    return I.call(I.attr_path("blueqat.circuit", "Circuit"), [n, ListObj([g[0], Rep((g[1],), m), g[2]])], {})


def expect_seg(I, ops):
    con = "Circuit.dagger"
    items = list(ops.items)
    flat = []
    for x in items:
        if isinstance(x, Rep):
            if len(x.block) != 1 or x.count != SymInt(0, {"m": 1}):
                raise Finding("circuit-dagger", con, f"the inverse of a circuit with m equal operations holds {x}")
            flat.append(x.block[0])
        else:
            flat.append(x)
    ks = [I.getattr(x, "k") for x in flat]
    m = SymInt(0, {"m": 1})
    empty = I.truth(I.int_cmp("==", m, 0))
    want = [2, 0] if empty and len(ks) == 2 else [2, 1, 0]
    if ks != want or not all(I.getattr(x, "inv") is True for x in flat):
        raise Finding("circuit-dagger", con, f"the inverse of [0, 1 (m times), 2] holds {ks}")
    if len(flat) == 3 and not isinstance([x for x in items][1], Rep):
        raise Finding("circuit-dagger", con, "the repeated operation occurs once")
