import itertools
from ..gatesem import *
from .. import symodel as SY
from ..script import Script

RULE = ("Abstract interpretation of the symbolic-unitary backend on an exact matrix domain (entries in trigonometric normal form; Kronecker products over a "
        "generic number of qubits): to_unitary() of every gate, with generic numeric and symbolic angles (including the symbols used internally), must "
        "be the oracle unitary embedded with qubit 0 as least significant bit; products in order; measure/reset skipped with a warning; ignore_global "
        "changes the result by a unit-modulus factor only.")
ASSUME = ["sympy's matrix, substitution and elementary functions behave as documented; structural comparisons with 0 are decided semantically",
          "user symbols are real"]
HISTORY = True
MIN_OBLIGATIONS = 120
EXACT = {"i", "x", "y", "z", "h", "rx", "ry", "rz", "phase", "u1", "u2", "u3", "cx", "cz"}

SRC = '''
from blueqat import Circuit
def build(n, steps):
    c = Circuit(n)
    for name, ps, tg in steps:
        g = getattr(c, name)
        if len(ps) > 0:
            g = g(*ps)
        g[tg]
    return c
def unitary(n, steps, kw):
    return build(n, steps).to_unitary(**kw)
'''


def entries(I, P, m, con):
    """{(row bits, column bits): Scalar} over the operand bits (symbolic width) or over all bits"""
    if isinstance(m, SY.Factors):
        m = m.op(I)
    if isinstance(m, SY.SMat) and not isinstance(P.n, int):
        m = SY.dense_op(I, m)
    if isinstance(m, SY.KOp):
        return {k: I.E.norm(v) for k, v in m.e.items()}
    if isinstance(m, SY.SMat):
        n = P.n
        if m.shape != (1 << n, 1 << n):
            raise Finding("shape", con, f"the matrix of a circuit with {n} qubits is {m.shape}")
        b = lambda i: tuple(i >> t & 1 for t in range(n))
        return {(b(i), b(j)): I.E.norm(x) for i, r in enumerate(m.rows) for j, x in enumerate(r) if not I.E.norm(x).is_zero()}
    raise Finding("shape", con, f"to_unitary() returns {m!r}")


def compare(I, P, m, want, exact, con, what):
    A = entries(I, P, m, con)
    B = normed(I, unitary(want, list(P.bits())))
    if exact:
        z = Scalar({})
        for k in sorted(set(A) | set(B)):
            if not s_equal(A.get(k, z), B.get(k, z)):
                raise Finding("matrix", con, f"{what}: {show(A, B, I.E)}")
    elif not mat_phase_equal(A, B):
        raise Finding("matrix", con, f"{what}: {show(A, B, I.E)}")


def check(ck):
    I = ck.use(new_interp())
    m = source(I, SRC)
    gset = I.attr_path("blueqat.circuit", "GATE_SET")
    names = [k for k, _ in gset.pairs()]

    def mat(P, stps, **kw):
        P.enter(I)
        d = DictObj(I.bt["dict"])
        for k, v in kw.items():
            I.dict_set(d, k, v)
        return I.call(m.f["unitary"], [P.n, ListObj(stps), d], {})
    internal = ["theta", "phi", "lambd"]
    for name in names:
        std = ref.ALIASES.get(name, name)
        if std not in ref.GATES:
            continue
        nq, pn, fn = ref.GATES[std]
        kinds = [("float", [Scalar.sym("a%d" % i) for i in range(len(pn))])]
        if pn:
            kinds.append(("symbols", [Scalar(Scalar.sym(x).t, "sympy") for x in ("a", "b", "c")[:len(pn)]]))
            for r in range(1, 3):
                kinds.append((f"internal symbols rotated by {r}", [Scalar(Scalar.sym(internal[(internal.index(x) + r) % 3]).t, "sympy") for x in pn]))
            kinds.append(("expressions", [SY.retype(Scalar.sym("theta") * 2.0 + Scalar.sym("b")), SY.retype(Scalar.sym("phi") + Scalar.sym("lambd")), SY.retype(Scalar.sym("theta") * -1.0)][:len(pn)]))
            kinds.append(("ints", [Scalar.const(i + 1, "int") for i in range(len(pn))]))
        alias = std != name
        for label, k, mk, ops_q in targets(nq)[:1 if alias else None]:
            for perm in itertools.permutations(range(k)):
                for kind, params in kinds:
                    if kind != "float" and (label != targets(nq)[0][0] or perm != tuple(range(k)) or alias):
                        continue

                    def scenario(P, perm=perm, name=name, params=params, mk=mk, ops_q=ops_q, fn=fn, std=std, label=label, kind=kind):
                        def go():
                            con = f"sympy:{name}"
                            tg = mk([P.p[j] for j in perm])
                            r = mat(P, [(name, tuple(params), tg)])
                            want = [(fn(*[SY.retype(x) for x in params]), [P.index(perm[q]) for q in qs], name) for qs in ops_q]
                            compare(I, P, r, want, std in EXACT, con, f"matrix of {name}{label} ({kind} parameters)")
                        return go
                    ck.oblige(I, f"{name}{label} order {perm} {kind}", scenario(Pos(k)),
                              [(f"n={n} at {pl}", scenario(Pos(k, n, pl), tuple(range(k)))) for n, pl in instances(k, max(k, 3))])
    a, b = Scalar.sym("a"), Scalar.sym("b")

    def seq(stps, P, kw, con, what, exact=True):
        def go():
            full = [(n_, tuple(ps), mkt(P)) for n_, ps, mkt, _ in stps]
            r = mat(P, full, **kw)
            want = [(ref.GATES[n_][2](*ps), [P.index(q) for q in qs], n_) for n_, ps, _, qs in stps if n_ in ref.GATES]
            compare(I, P, r, want, exact, con, what)
        return go
    one = lambda j: (lambda P: P.p[j])
    two = lambda i, j: (lambda P: (P.p[i], P.p[j]))
    progs = {
        "order: rx then rz on one qubit": (1, [("rx", [a], one(0), [0]), ("rz", [b], one(0), [0])]),
        "order: h, cx, ry": (2, [("h", [], one(0), [0]), ("cx", [], two(0, 1), [0, 1]), ("ry", [a], one(1), [1])]),
        "order: cx up and down": (2, [("cx", [], two(0, 1), [0, 1]), ("cx", [], two(1, 0), [1, 0]), ("u3", [a, b, a], one(0), [0])]),
        "unused qubits": (3, [("x", [], one(2), [2]), ("cz", [], two(0, 2), [0, 2]), ("h", [], one(0), [0])]),
    }
    for t, (k, stps) in progs.items():
        ck.oblige(I, t, seq(stps, Pos(k), {}, "sympy:run", t), [(f"n={n} at {pl}", seq(stps, Pos(k, n, pl), {}, "sympy:run", t)) for n, pl in instances(k, 3)])
    # every parameter value of the same run is fresh: two circuits with the same backend object
    for t, kw in (("measure", {}), ("reset", {})):
        def go(t=t):
            P = Pos(2)
            e0 = len(I.events.items)
            r = mat(P, [("h", (), P.p[0]), (t, (), P.p[0]), ("cx", (), (P.p[0], P.p[1])), (t, (), (P.p[1], P.p[0]))])
            want = [(ref.H, [P.index(0)], "h"), (ref.GATES["cx"][2](), [P.index(0), P.index(1)], "cx")]
            compare(I, P, r, want, True, f"sympy:{t}", f"circuit with {t}")
            w = [e for e in I.events.items[e0:] if e[0] == "warn"]
            if len(w) < 2:
                raise Finding("warning", f"sympy:{t}", f"{t} is skipped without a warning")
        ck.oblige(I, f"{t} is skipped with a warning", go)
    # empty circuit
    for n in (0, 1, 2):
        def go(n=n):
            P = Pos(0, n, ())
            compare(I, P, mat(P, []), [], True, "sympy:run", "the empty circuit")
        ck.oblige(I, f"identity for {n} qubits", go)
    # ignore_global: bounded widths, every kind of first diagonal entry
    ig = {
        "phase": (1, [("rz", [a], one(0), [0])]), "negative": (1, [("rz", [2 * math_pi()], one(0), [0])]),
        "zero diagonal start": (1, [("x", [], one(0), [0])]), "y": (1, [("y", [], one(0), [0])]),
        "generic": (1, [("u3", [a, b, a], one(0), [0])]), "two": (2, [("rz", [a], one(0), [0]), ("x", [], one(1), [1])]),
        "cx": (2, [("h", [], one(0), [0]), ("cx", [], two(0, 1), [0, 1]), ("u1", [b], one(1), [1])]),
        "late pivot": (2, [("cx", [], two(0, 1), [0, 1]), ("x", [], one(1), [1]), ("u1", [a], one(0), [0])]),
        "zz": (2, [("rzz", [a], two(0, 1), [0, 1])]),
    }
    for t, (k, stps) in ig.items():
        for n in range(k, 3):
            P = Pos(k, n, tuple(range(k)))
            ck.run_bounded(I, f"ignore_global=True: {t}, n={n}", seq(stps, P, {"ignore_global": True}, "sympy:ignore_global", f"ignore_global=True ({t})", False))
            ck.run_bounded(I, f"ignore_global=False: {t}, n={n}", seq(stps, P, {"ignore_global": False}, "sympy:ignore_global", f"ignore_global=False ({t})", all(x[0] in EXACT for x in stps)))


def math_pi():
    import math
    return Scalar.const(math.pi, "float")
