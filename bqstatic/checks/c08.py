"""C08: measurement and reset collapse the state and record the outcome."""
import itertools
from .. import ref
from ..scen import *
from ..scalar import apply_fn
from ..stoch import *
from ..symint import SymInt

RULE = ("Abstract interpretation of the numpy and numba simulators on a generic normalised state of symbolic width with measure and reset in generic qubit positions. Every random "
        "number is a symbol on [0, 1); each abstract trace carries the facts its branches establish about these symbols, hence the exact probability of the trace as an expression "
        "in the state. Per trace the record and the final amplitudes must be those of one oracle trajectory (projection onto the outcome, renormalisation, for reset the move to the "
        "0 half), and the probabilities of all traces with a result must add up to that result's probability; the expressions are compared by identity testing.")
ASSUME = ["random.random() is uniform on [0, 1) and its values are independent", "arithmetic is exact", "identity testing of the derived expressions at three pseudo-random states",
          "slices as targets are decided for widths up to 3"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True
BACKENDS = {"numpy": "blueqat.backends.numpy_backend", "numba": "blueqat.backends._numba_backend_impl"}


def programs():
    """name, number of positions, [(gate, params, operand numbers or None)]"""
    M, R = "measure", "reset"
    one = [("measure q", 1, [(M, (0,))]), ("m q", 1, [("m", (0,))]), ("reset q", 1, [(R, (0,))])]
    two = [("measure (q,r)", 2, [(M, (0, 1))]), ("measure (r,q)", 2, [(M, (1, 0))]), ("reset (q,r)", 2, [(R, (0, 1))]), ("reset (r,q)", 2, [(R, (1, 0))]),
           ("measure q; measure r", 2, [(M, (0,)), (M, (1,))]), ("reset q; reset r", 2, [(R, (0,)), (R, (1,))]), ("measure r; reset q", 2, [(M, (1,)), (R, (0,))]),
           ("reset q; measure r", 2, [(R, (0,)), (M, (1,))]), ("measure q of two", 2, [(M, (1,))]), ("reset q of two", 2, [(R, (1,))]),
           ("measure q; h r; measure r", 2, [(M, (0,)), ("h", (1,)), (M, (1,))]), ("h q; measure q; cx q,r; measure r", 2, [("h", (0,)), (M, (0,)), ("cx", (0, 1)), (M, (1,))]),
           ("cx q,r; reset q; h q; measure (r,q)", 2, [("cx", (0, 1)), (R, (0,)), ("h", (0,)), (M, (1, 0))])]
    rep = [("measure (q,q)", 1, [(M, (0, 0))]), ("measure q; measure q", 1, [(M, (0,)), (M, (0,))]), ("reset (q,q)", 1, [(R, (0, 0))]),
           ("measure q; reset q", 1, [(M, (0,)), (R, (0,))]), ("reset q; measure q", 1, [(R, (0,)), (M, (0,))]), ("measure q; x q; measure q", 1, [(M, (0,)), ("x", (0,)), (M, (0,))]),
           ("h q; measure q; h q; measure q", 1, [("h", (0,)), (M, (0,)), ("h", (0,)), (M, (0,))]), ("measure q; reset q; h q; measure q", 1, [(M, (0,)), (R, (0,)), ("h", (0,)), (M, (0,))])]
    three = [("measure (s,q,r)", 3, [(M, (2, 0, 1))]), ("reset (r,s)", 3, [(R, (1, 2))]), ("measure (q,r,q)", 2, [(M, (0, 1, 0))])]
    return one + two + rep + three


def steps_of(prog, P):
    out = []
    for g, qs in prog:
        if g in ("measure", "m"):
            out += [("M", P.index(q)) for q in qs]
        elif g == "reset":
            out += [("R", P.index(q)) for q in qs]
        else:
            nq, pn, fn = ref.GATES[g]
            out += [("U", fn(), [P.index(q) for q in qs])]
    return out


def check(ck):
    for which, mod in BACKENDS.items():
        one_backend(ck, which, mod)


def one_backend(ck, which, mod):
    deep = ck.tier == "thorough"
    sim = Sim(which, ck.use(new_interp(load=("blueqat", mod))))
    I = sim.I

    def build(P, prog):
        ops = []
        for g, qs in prog:
            t = tuple(P.p[q] for q in qs)
            ops += I.list_values(sim.ops(P.n, g, [], t[0] if len(t) == 1 else t))
        return ListObj(ops)

    def scenario(P, prog, nm, zero=None, target=None, opts=None, steps=None):
        def go():
            P.enter(I)
            if zero is not None:
                certain(I, P, *zero)
            ops = build(P, prog) if target is None else sim.ops(P.n, target[0], [], target[1]())
            r = sim.run(ops, P.n, **({"returns": "statevector_and_shots", "shots": 1} if opts is None else opts))
            if opts == {}:
                return Run(I, r)
            require_pair(r, nm)
            return Run(I, *r)
        go.final = lambda res: compare(res, P, [steps if steps is not None else steps_of(prog, P)], f"{which}:{nm}", nm,
                                       zero=(lambda b: b[P.index(zero[0])] != zero[1]) if zero else (lambda b: False))
        return go
    for name, k, prog in programs():
        fb = [(f"n={n} at {pl}", scenario(Pos(k, n, pl), prog, name)) for n, pl in instances(k, 3 if not deep else 4)]
        ck.oblige(I, f"{which} {name}", scenario(Pos(k), prog, name), fb)
        if deep:
            for s, f in fb:
                ck.run_bounded(I, f"{which} {name} {s}", f)
    for name, k, prog in programs()[:3]:
        ck.oblige(I, f"{which} {name} (state only)", scenario(Pos(k), prog, name, opts={}))
        for v in (0, 1):
            ck.oblige(I, f"{which} {name} of a qubit that is certainly {v}", scenario(Pos(k), prog, name, zero=(0, v)))
    # qubits given by slices and negative numbers
    for n in (1, 2, 3):
        P = Pos(n, n, range(n))
        for g, s in (("measure", "M"), ("reset", "R")):
            ck.run_bounded(I, f"{which} {g}[:] n={n}", scenario(P, None, f"{g}[:]", target=(g, lambda: SliceObj(None, None, None)), steps=[(s, q) for q in range(n)]))
            ck.run_bounded(I, f"{which} {g}[-1] n={n}", scenario(P, None, f"{g}[-1]", target=(g, lambda: -1), steps=[(s, n - 1)]))
            if n == 3:
                ck.run_bounded(I, f"{which} {g}[::-2] n={n}", scenario(P, None, f"{g}[::-2]", target=(g, lambda: SliceObj(None, None, -2)), steps=[(s, 2), (s, 0)]))


def instances(k, nmax):
    for n in range(k, nmax + 1):
        for places in itertools.permutations(range(n), k):
            yield n, places


def require_pair(r, nm):
    if not isinstance(r, tuple) or len(r) != 2:
        raise Finding("result", nm, f"returns='statevector_and_shots' gives {r!r}")


def certain(I, P, q, v):
    """the generic state has operand q in |v> with certainty"""
    q = P.index(q)
    k = P.k if P.sym else P.n
    for b in NP.patterns(k):
        if b[q] != v:
            I.E.put(I.E.subst, NP.psi(I, "v", b).gens().pop(), Scalar({}))
    for r in range(1, k + 1):
        for zs in itertools.combinations(range(k), r):
            if q in zs:
                rest = tuple(z for z in zs if z != q)
                g = Gen("P", ("v", zs), True, True)
                val = Scalar({}) if v == 1 else Scalar.gen(Gen("P", ("v", rest), True, True)) if rest else Scalar.const(1, "float")
                I.E.put(I.E.subst, g, val)
