"""Shared rule of C01/C02: abstract post-state of every gate = defining unitary applied to a generic pre-state."""
import itertools

from .. import ref
from ..check import require
from ..scen import *


def targets(nq):
    """(label, target expression builder over positions, list of operand tuples) with k positions"""
    if nq == 1:
        return [("q", 1, lambda p: p[0], [(0,)]),
                ("(q,)", 1, lambda p: (p[0],), [(0,)]),
                ("(q,r)", 2, lambda p: (p[0], p[1]), [(0,), (1,)]),
                ("(q,q)", 1, lambda p: (p[0], p[0]), [(0,), (0,)]),
                ("(q,r,q)", 2, lambda p: (p[0], p[1], p[0]), [(0,), (1,), (0,)])]
    if nq == 2:
        return [("(c,t)", 2, lambda p: (p[0], p[1]), [(0, 1)]),
                ("((c,t),(t,u))", 3, lambda p: ((p[0], p[1]), (p[1], p[2])), [(0, 1), (1, 2)]),
                ("((c,t),(t,c))", 2, lambda p: ((p[0], p[1]), (p[1], p[0])), [(0, 1), (1, 0)])]
    return [("(a,b,c)", 3, lambda p: tuple(p[:3]), [(0, 1, 2)])]


def instances(k, nmax):
    """bounded instances: all placements of k positions in widths k..nmax"""
    for n in range(k, nmax + 1):
        for places in itertools.permutations(range(n), k):
            yield n, places


def same_state(I, got, want, exact, construct, extra=""):
    if set(got) != set(want):
        raise Finding("shape", construct, f"the state has {len(got)} entries instead of {len(want)}")
    diff = [b for b in want if not s_equal(got[b], want[b])]
    if not diff:
        return
    if not exact and phase_equal(got, want):
        return
    b = diff[0]
    raise Finding("unitary", construct, f"amplitude {''.join(map(str, b))} (bits of operands) is {got[b]} but the gate's definition gives {want[b]}{extra}")


def lin(s):
    """linear form over psi generators: {gen: coefficient}"""
    out = {}
    for (ang, gs), c in s.t.items():
        ps = [g for g, r in gs if g.kind in ("psi", "e0") and r == 1]
        if len(ps) != 1:
            return None
        rest = tuple((g, r) for g, r in gs if g is not ps[0])
        out[ps[0]] = out.get(ps[0], Scalar({})) + Scalar({(ang, rest): c})
    return out


def phase_equal(got, want):
    """got = g * want for a unit-modulus g (independent of the state)"""
    G, W = {}, {}
    for b in want:
        lg, lw = lin(got[b]), lin(want[b])
        if lg is None or lw is None:
            return False
        for p, c in lg.items():
            G[b, p] = c
        for p, c in lw.items():
            W[b, p] = c
    return mat_phase_equal(G, W)


def mat_phase_equal(G, W):
    """the families (same index set up to zeros) are proportional by a factor of modulus one"""
    keys = set(G) | set(W)
    zero = Scalar({})
    g = lambda k: G.get(k, zero)
    w = lambda k: W.get(k, zero)
    for k in keys:
        if not s_equal(g(k) * g(k).conj(), w(k) * w(k).conj()):
            return False
    piv = [k for k in sorted(keys, key=repr) if not w(k).is_zero()]
    # entries that vanish for some parameters leave the proportionality there to continuity
    for p in piv[:1]:
        for k in keys:
            if not s_equal(g(k) * w(p), g(p) * w(k)):
                return False
    return True


def run(ck, which, exact_names):
    sim = Sim(which, ck.use(new_interp(load=("blueqat",) + (("blueqat.backends._numba_backend_impl",) if which == "numba" else ()))))
    I = sim.I
    gs = I.attr_path("blueqat.circuit", "GATE_SET")
    names = [k for k, _ in gs.pairs()]
    H = ref.GATES["h"][2]()
    todo = [(n, n) for n in ref.GATES if n != "ccz"] + [(a, t) for a, t in ref.ALIASES.items() if t in ref.GATES]
    for n, _ in todo:
        if n not in names:
            raise AnchorLost(f"gate {n!r} is no longer in the gate set")
    ck.notes.append({"gate_set_entries_not_in_the_oracle": [n for n in names if n not in dict(todo) and n not in ("m", "measure", "reset")]})
    for name, std in todo:
        nq, pn, fn = ref.GATES[std]
        alias = name != std
        params = [Scalar.sym(x) for x in pn]
        for label, k, mk, ops_q in targets(nq)[:1 if alias else None]:
            for perm in itertools.permutations(range(k)):
                def scenario(P, perm=perm, mk=mk, ops_q=ops_q, exact=std in exact_names, name=name, params=params, fn=fn):
                    def go():
                        P.enter(I)
                        target = mk([P.p[j] for j in perm])
                        ops = sim.ops(P.n, name, params, target)
                        got = state_tab(I, sim.run(ops, P.n))
                        want = P.generic(I)
                        for qs in ops_q:
                            want = ref.apply(fn(*params), [P.index(perm[q]) for q in qs], want)
                        same_state(I, got, want, exact, f"{which}:{name}", f" (targets {label}, order {perm})")
                    return go
                nm = f"{which} {name}{label} operand order {perm}"
                if any(f["construct"] == f"{which}:{name}" for f in ck.findings):
                    continue
                fb = []
                if perm == tuple(range(k)):
                    fb = None
                ck.oblige(I, nm, scenario(Pos(k)),
                          [(f"n={n} at {pl}", scenario(Pos(k, n, pl), perm=tuple(range(k)))) for n, pl in instances(k, max(k, 3) if ck.tier == "quick" else 4)])
        # the gate between two others: what it leaves in the context's buffers must suit the next gate
        label, k, mk, ops_q = targets(nq)[0]

        def between(P, name=name, params=params, fn=fn, mk=mk, ops_q=ops_q, exact=std in exact_names, nq=nq):
            def go():
                P.enter(I)
                ops = I.list_values(sim.ops(P.n, "h", [], P.p[0]))
                ops += I.list_values(sim.ops(P.n, name, params, mk(P.p)))
                ops += I.list_values(sim.ops(P.n, "h", [], P.p[-1]))
                got = state_tab(I, sim.run(ListObj(ops), P.n))
                want = ref.apply(H, [P.index(0)], P.generic(I))
                for qs in ops_q:
                    want = ref.apply(fn(*params), [P.index(q) for q in qs], want)
                want = ref.apply(H, [P.index(nq - 1)], want)
                same_state(I, got, want, exact, f"{which}:{name}", " (between two Hadamard gates)")
            return go
        if any(f["construct"] == f"{which}:{name}" for f in ck.findings):
            continue
        ck.oblige(I, f"{which} h, {name}{label}, h", between(Pos(nq)), [(f"n={n} at {pl}", between(Pos(nq, n, pl))) for n, pl in list(instances(nq, 3))[:2]])
        # registers of fixed width, so that the histories mix widths and placements
        for n, pl in [(nq, tuple(range(nq))), (nq + 1, tuple(range(nq))), (nq + 1, tuple(range(1, nq + 1))), (nq, tuple(range(nq))[::-1])][:4 if nq > 1 else 3]:
            ck.run_bounded(I, f"{which} h, {name}{label}, h at {pl} of {n}", between(Pos(nq, n, pl)))
    return sim
