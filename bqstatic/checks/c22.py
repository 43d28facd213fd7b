"""C22: run options of the state-vector simulators."""
import itertools
from .. import ref
from ..scen import *
from ..script import Script
from ..stoch import *

RULE = ("Abstract interpretation of Circuit.run and the numpy and numba simulators under every combination of shots/returns/ignore_global (given by keyword). Kinds of results, shot totals, "
        "the default number of shots and the rejection of unknown values (nothing simulated before: no gate action, no random draw) are checked on each abstract trace; several shots of "
        "circuits with measurements are compared with independent oracle trajectories, and ignore_global with the phase-fixed state, for generic states.")
ASSUME = ["circuits have at least one qubit", "shot numbers up to 7 and the default; widths up to 2 (3 in the thorough run) for ignore_global", "a negligible amplitude is an exact zero"]
HISTORY = True
MIN_OBLIGATIONS = 100
BATCH = True
BACKENDS = {"numpy": "blueqat.backends.numpy_backend", "numba": "blueqat.backends._numba_backend_impl"}

SRC = '''
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting
import numpy as np
from blueqat.gate import OneQubitGate
from blueqat.utils import ignore_global_phase

class Note(OneQubitGate):
    lowername = "vpnote"
    def fallback(self, n_qubits):
        probe()
        return []
BlueqatGlobalSetting.register_gate("vpnote", Note)

def build(kind):
    if kind == "plain":
        return Circuit(2).h[0].cx[0, 1]
    if kind == "sure":
        return Circuit(2).x[1].m[:]
    if kind == "random":
        return Circuit(2).h[0].m[0].x[1].m[1]
    if kind == "reset":
        return Circuit(2).h[:].reset[0]
    if kind == "empty":
        return Circuit(1)
    return Circuit(1).x[0].m[0]

def is_state(v, c):
    return isinstance(v, np.ndarray) and v.shape == (2 ** c.n_qubits,)

def is_counter(v, n, c, text):
    expect(isinstance(v, Counter), text + ": the result is no Counter", v)
    expect(sum(v.values()) == n, text + ": number of shots", v, n)
    for k in v:
        expect(isinstance(k, str) and len(k) == c.n_qubits, text + ": key of the counter", k)
        expect(v[k] > 0, text + ": entry without shots", v)

def go(c, b, kw, how):
    if how == "name":
        return c.run(backend=b, **kw)
    if how == "method":
        return getattr(c, "run_with_" + b)(**kw)
    if how == "default":
        c.set_default_backend(b)
        return c.run(**kw)
    BlueqatGlobalSetting.set_default_backend(b)
    return c.run(**kw)

def ob_kind(b, kind, returns, shots, ign, how):
    c = build(kind)
    kw = {}
    if returns != "-":
        kw["returns"] = None if returns == "None" else returns
    if shots != "-":
        kw["shots"] = shots
    if ign != "-":
        kw["ignore_global"] = ign
    text = "run(" + ", ".join(k + "=" + str(kw[k]) for k in kw) + ")"
    r = go(c, b, kw, how)
    n = shots if shots != "-" and shots is not None else 1024
    want = returns if returns not in ("-", "None") else ("statevector" if shots in ("-", None) else "shots")
    if want == "statevector":
        expect(is_state(r, c), text + " gives no state vector", r)
    elif want == "shots":
        is_counter(r, n, c, text)
    else:
        expect(isinstance(r, tuple) and len(r) == 2, text + " gives no pair", r)
        expect(is_state(r[0], c), text + " gives no state vector", r[0])
        is_counter(r[1], n, c, text)

def ob_unknown(b, kind, bad, shots, how):
    c = build(kind)
    c.ops.insert(0, Note(0))
    kw = {"returns": bad}
    if shots != "-":
        kw["shots"] = shots
    e = raises(lambda: go(c, b, kw, how))
    expect(e == "ValueError", "an unknown returns value has to raise ValueError", e)
    expect(count_probes() == 0, "an unknown returns value is rejected only after the simulation has begun")
    go(c, b, {}, "name")
    expect(count_probes() > 0, "probe")

def ob_again(b, kind, n):
    c = build(kind)
    for kw in ({"shots": n}, {"shots": n + 1}, {"shots": n, "returns": "statevector_and_shots"}, {"shots": 1}, {"shots": n}):
        r = c.run(backend=b, **kw)
        if "returns" in kw:
            r = r[1]
        is_counter(r, kw["shots"], c, "run " + str(kw))
    expect(is_state(c.run(backend=b), c), "run() gives no state vector after a run with shots")

def ob_small(lead, x, z):
    """a small first amplitude still decides the phase"""
    v = np.array([0j] * lead + [x * z] + [-0.6 + 0.8j] * (3 - lead))
    r = ignore_global_phase(v)
    expect(r is v, "the given state vector is not returned")
    f = complex(r[lead])
    expect(abs(f.imag) < 1e-9 * x and abs(f.real - x) < 1e-9 * x, "the first amplitude is not real and positive", f)
    g = complex(r[2])
    w = (-0.6 + 0.8j) * z.conjugate()
    expect(lead == 2 or abs(g - w) < 1e-9, "the other amplitudes are not multiplied by the same factor", g)
'''

IGN = '''
from blueqat.utils import ignore_global_phase
def call(v):
    return ignore_global_phase(v)
def same(a, b):
    return a is b
'''


def check(ck):
    for which, mod in BACKENDS.items():
        one_backend(ck, which, mod)


def one_backend(ck, which, mod):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", mod)))
    probes = []
    S = Script(ck, I, SRC, count_probes=lambda I, a, k: len(probes), probe=lambda I, a, k: probes.append(1))
    S.on_start = probes.clear
    rets = ["-", "None", "statevector", "shots", "statevector_and_shots"]
    args = [(which, kind, r, n, g, how) for kind in ("plain", "sure", "random", "reset", "empty") for r in rets for n in ("-", None, 1, 2, 3) for g in ("-", True, False)
            for how in ("name", "method", "default", "global")
            if (how == "name" or (kind == "sure" and g == "-"))
            and (not (n in ("-", None) and r in ("shots", "statevector_and_shots")) or (kind == "sure" and g == "-" and n == "-" and (how == "name" or r == "shots")) or (kind == "empty" and how == "name" and g != False))]
    S.run("run options", ["ob_kind"], args)
    S.run("run options", ["ob_kind"], [(which, "sure", r, n, "-", "name") for r in ("shots", "-") for n in (0, 7, 40)])
    S.run("rejection", ["ob_unknown"], [(which, kind, bad, n, how) for kind in ("sure", "random") for bad in ("state", "Shots", "", 3, "counts", True, ()) for n in ("-", 2) for how in ("name", "method")])
    if which == "numpy":
        S.run("global phase", ["ob_small"], [(lead, x, z) for lead in (0, 1, 2) for x in (0.5, 1e-2, 1e-4, 1e-5) for z in (1j, -1 + 0j, 0.6 - 0.8j)])
    S.run("run options", ["ob_again"], [(which, k, n) for k in ("plain", "sure", "one", "random") for n in (1, 2) if k != "random" or n == 1])
    # several shots of circuits with random outcomes
    sim = Sim(which, ck.use(new_interp(load=("blueqat", mod))))
    from .c08 import steps_of, programs
    J = sim.I
    for name, k, prog in [("measure q", 1, [("measure", (0,))]), ("reset q", 1, [("reset", (0,))]), ("h q; measure q; x q", 1, [("h", (0,)), ("measure", (0,)), ("x", (0,))]),
                          ("measure (q,r)", 2, [("measure", (0, 1))]), ("measure r; h q", 2, [("measure", (1,)), ("h", (0,))]), ("reset q; measure r", 2, [("reset", (0,)), ("measure", (1,))])]:
        for n in (2, 3) if k == 1 else (2,):
            def scenario(P, prog=prog, n=n, name=name):
                def go():
                    P.enter(J)
                    ops = []
                    for g, qs in prog:
                        t = tuple(P.p[q] for q in qs)
                        ops += J.list_values(sim.ops(P.n, g, [], t[0] if len(t) == 1 else t))
                    return Run(J, *sim.run(ListObj(ops), P.n, returns="statevector_and_shots", shots=n))
                go.final = lambda res: compare(res, P, [steps_of(prog, P)] * n, f"{which}:{n} shots", f"{n} shots of {name}", worlds=(1, 2), rule="shots")
                return go
            ck.oblige(J, f"{which} {n} shots of {name}", scenario(Pos(k)), [(f"n={m}", scenario(Pos(k, m, tuple(range(k))))) for m in (k, 2)])
    # the global phase
    m = source(J, IGN)
    for n in (0, 1, 2) if not deep else (0, 1, 2, 3):
        for lead in range((1 << n) + 1):
            if n == 0 and lead == 1:
                continue
            if n == 3 and lead not in (0, 1, 4, 7):
                continue

            def scenario(how, n=n, lead=lead):
                P = Pos(n, n, tuple(range(n)))
                order = [tuple(i >> j & 1 for j in range(n)) for i in range(1 << n)]
                zero = set(order[:lead])

                def go():
                    P.enter(J)
                    for b in zero:
                        g, = NP.psi(J, "v", b).gens()
                        J.E.put(J.E.subst, g, Scalar({}))
                    if how == "utils":
                        v = NP.NdArr([NP.psi(J, "v", b) for b in order], (1 << n,), NP.dtype_of(J, "complex128"))
                        r = J.call(m.f["call"], [v], {})
                        if not J.truth(J.call(m.f["same"], [r, v], {})):
                            raise Finding("global phase", "utils.ignore_global_phase", "the given state vector is not returned")
                    else:
                        r = sim.run(ListObj([]), n, ignore_global=True, **how)
                        if "returns" in how and isinstance(r, tuple):
                            r = r[0]
                    return facts_of(J), state_tab(J, r)
                go.final = lambda res: phase_check(res, P, order, zero, f"{which}:ignore_global" if how != "utils" else "utils.ignore_global_phase")
                return go
            for how in ([{}] if n == 0 else [{}, {"returns": "statevector"}, {"returns": "statevector_and_shots", "shots": 1}]):
                if lead < 1 << n:
                    ck.run_bounded(J, f"{which} ignore_global n={n} first {lead} amplitudes 0 {how}", scenario(how))
            if which == "numpy":
                ck.run_bounded(J, f"utils.ignore_global_phase n={n} first {lead} amplitudes 0", scenario("utils"))


def phase_check(res, P, order, zero, construct):
    for seed in (1, 2, 3):
        w = World(seed, P, zero=lambda b: b in zero) if len(zero) < len(order) else None
        hit = 0
        for facts, tab in res:
            if w is None:
                if any(not x.is_zero() for x in tab.values()):
                    raise Finding("global phase", construct, "a vector of zeros is changed")
                continue
            if weight(facts, w) is None:
                continue
            hit += 1
            old = {b: w.psi[b][0] for b in order}
            new = {b: w.val(tab[b]) for b in order}
            if not same_vec(new, old):
                raise Finding("global phase", construct, f"the state {show_state(tab)} is not the original state times a factor of modulus 1")
            f = next(new[b] for b in order if b not in zero)
            if abs(f.imag) > 1e-9 or f.real <= 0:
                raise Finding("global phase", construct, f"the first amplitude of {show_state(tab)} is not real and positive")
        if w is not None and hit != 1:
            raise Undecided("global phase: no abstract trace for a state")
