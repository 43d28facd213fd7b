import os
import sys
import itertools
from ..scen import *
from ..script import Script

RULE = ("Import-effect analysis: the load-time code of every module of the package is interpreted abstractly (each module in a fresh program, with every single "
        "optional package missing, all of them missing, and none missing); no import executed on the way may name anything but the standard library, numpy, scipy or "
        "blueqat. Then each feature is interpreted with packages missing: a feature that needs one raises ImportError, every other feature works and imports none.")
ASSUME = ["the private module blueqat.backends._numba_backend_impl is exempt, as the property says"]
MIN_OBLIGATIONS = 200
OPT = ("sympy", "numba", "qiskit", "qgate", "matplotlib", "dwave")
BASE = set(sys.stdlib_module_names) | {"numpy", "scipy", "blueqat"}
EXEMPT = "blueqat.backends._numba_backend_impl"

SRC = '''
from blueqat import Circuit, pauli, vqe, wq, utils, BlueqatGlobalSetting
from blueqat.pauli import X, Y, Z, I as Id

def circ():
    return Circuit(2).h[0].cx[0, 1].rz(0.5)[1]

def f_run():
    return circ().run()
def f_run_numpy():
    return circ().measure[:].run(backend="numpy", shots=2)
def f_run_with_numpy():
    return circ().run_with_numpy(returns="statevector")
def f_make_cache():
    c = circ()
    c.make_cache()
    return c.run()
def f_to_qasm():
    return circ().to_qasm()
def f_copy_dagger_add():
    c = circ()
    return (c.copy().dagger() + c).run()
def f_macro():
    BlueqatGlobalSetting.register_macro("vpname", lambda c: c.x[0])
    Circuit().vpname()
    BlueqatGlobalSetting.unregister_macro("vpname")
def f_default_backend():
    BlueqatGlobalSetting.set_default_backend("numpy")
    c = circ()
    c.set_default_backend("qasm_output")
    return c.run()
def f_default_names():
    """choosing an optional backend as a default does not need it yet"""
    c = circ()
    for b in ["sympy_unitary", "ibmq", "numba", "qgate"]:
        c.set_default_backend(b)
    return c.copy()
def f_pauli():
    e = X[0] * Y[1] + 2 * Z[2] - 1
    e = (e * e).simplify()
    return e.to_matrix(), (X[0] * Z[1]).get_time_evolution()(Circuit(2), 0.5)
def f_vqe_expect():
    return vqe.expect(circ().run(), (0, 1))
def f_vqe_samplers():
    return vqe.get_measurement_sampler(5), vqe.get_state_vector_sampler(5), vqe.non_sampling_sampler(circ(), (0, 1))
def f_vqe_ansatz():
    a = vqe.QaoaAnsatz(Z[0] * Z[1] + Z[0], 1)
    a.make_sparse()
    return a.get_circuit([0.25, 0.5]), a.get_energy_sparse(a.get_circuit([0.25, 0.5]))
def f_wq_pauli():
    return wq.pauli([[1, 2], [0, 3]])
def f_wq_builders():
    return wq.sel(3, 1), wq.mul([1, 2], [3, 4]), wq.sqr([1, 2]), wq.net([[0, 1]], 3), wq.diag([1, 2]), wq.zeros(2)
def f_wq_qi():
    o = wq.Opt()
    o.qubo = [[1., 2.], [0., 3.]]
    o.qi()
    return o
def f_utils():
    return utils.to_inttuple("01"), utils.ignore_global_phase(circ().run())
def f_ops():
    from blueqat.experimental import Ops
    return Ops().h[0].cx[0, 1].to_circuit()
def f_circuit_to_unitary():
    from blueqat.experimental.utils import circuit_to_unitary
    return circuit_to_unitary(Circuit(1).h[0])

# features that need a package
def n_sympy_to_unitary():
    return circ().to_unitary()
def n_sympy_backend():
    return circ().run(backend="sympy_unitary")
def n_sympy_run_with():
    return circ().run_with_sympy_unitary(ignore_global=True)
def n_sympy_default():
    c = circ()
    c.set_default_backend("sympy_unitary")
    return c.run()
def n_sympy_optx():
    return wq.optx(tok("expr"))
def n_sympy_optm():
    return wq.optm(tok("expr"), 3)
def n_sympy_make_qs():
    return wq.make_qs(3)
def n_sympy_nbody():
    return wq.nbody_separation(tok("expr"), tok("qs"))
def n_sympy_qn_to_qubo():
    return wq.qn_to_qubo(tok("expr"))
def n_sympy_qubo_to_matrix():
    return wq.Opt().qubo_to_matrix(tok("expr"))
def n_sympy_expand():
    return wq.Opt().expand_qubo(tok("expr"))
def n_sympy_add():
    return wq.Opt().add("q0*q1")
def n_qiskit_run():
    return circ().run(backend="ibmq")
def n_qiskit_run_with():
    return circ().run_with_ibmq(shots=5)
def n_qiskit_draw():
    return circ().run_with_ibmq(returns="draw")
def n_qiskit_result():
    return circ().run_with_ibmq(returns="qiskit_result")
def n_qiskit_sampler():
    return vqe.get_qiskit_sampler(tok("backend"), shots=10)
def n_numba_run():
    return circ().run(backend="numba")
def n_numba_run_with():
    return circ().run_with_numba()
def n_numba_cache():
    return circ().make_cache(backend="numba")
def n_qgate_run():
    return circ().run(backend="qgate")
def n_matplotlib_plot():
    return wq.Opt().plot()
def n_dwave_dw():
    return wq.Opt().dw()

def missing(f):
    """f raises ImportError, in the first and in a later call"""
    for i in range(2):
        try:
            f()
        except ImportError:
            continue
        except Exception as e:
            fail("raises " + type(e).__name__ + " instead of ImportError when its package is missing")
        fail("does not raise ImportError when its package is missing")

def ob_exception_option(kind):
    r = circ().run_with_ibmq(returns="_exception")
    if kind == "":
        expect(r is None, "returns='_exception' without an error", r)
    elif kind == "missing":
        expect(isinstance(r, ImportError), "returns='_exception' does not return the ImportError", r)
    else:
        expect(isinstance(r, RuntimeError), "returns='_exception' does not return the exception", r)

def ob_unknown_returns():
    expect(raises(lambda: circ().run_with_ibmq(returns="vpnone")) == "ValueError", "an unknown returns value is accepted")

def ob_broken():
    expect(raises(lambda: circ().run_with_ibmq()) == "ValueError", "a failing import that is no ImportError")
'''


def modules(root):
    out = []
    base = os.path.join(root, "blueqat")
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ("__pycache__", "tests"))
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(rel[:-9] if rel.endswith(".__init__") else rel)
    return out


def outside(log):
    return [(n, stack, qual) for n, stack, qual, _ in log if n.split(".")[0] not in BASE]


def check(ck):
    mods = [m for m in modules(ROOT) if m != EXEMPT]
    if len(mods) < 12:
        raise AnchorLost("the package has fewer modules than expected")
    sets = [()] + [(m,) for m in OPT] + [OPT]
    if ck.tier == "thorough":
        sets = [s for r in range(len(OPT) + 1) for s in itertools.combinations(OPT, r)]
    tree = ck.use(new_interp(load=()))
    for m in mods:
        for miss in sets:
            I = ck.use(new_interp(missing=miss, load=()))

            def go(m=m, I=I):
                try:
                    I.load(m)
                except PyRaise as e:
                    from ..check import explain_raise
                    raise Finding("import", m, f"importing {m} without {', '.join(miss) or 'anything missing'}: {explain_raise(e)}")
                bad = outside(I.import_log)
                if bad:
                    n, stack, qual = bad[0]
                    raise Finding("import", f"{(stack or ('?',))[-1]}:{n}", f"importing {m} imports {n} (in {qual}, by way of {' -> '.join(stack)})")
            ck.oblige(I, f"import {m} without {'+'.join(miss) or 'nothing'}", go)
            ck.interps.pop()
            for q, n in I.cover.items():
                tree.cover[q] = tree.cover.get(q, 0) + n
            for k, v in I.E.stats.items():
                tree.E.stats[k] = tree.E.stats.get(k, 0) + v
    free = None
    for miss in sets:
        I = ck.use(new_interp(missing=miss))
        S = Script(ck, I, SRC)
        S.rule = "feature"
        names = [n for n in S.m.f if n.startswith("f_")]
        for n in names:
            def go(n=n, I=I, S=S, miss=miss):
                S.ob = n
                k = len(I.import_log)
                I.positions, I.width = [], 2
                try:
                    I.call(S.m.f[n], [], {})
                except PyRaise as e:
                    from ..check import explain_raise
                    raise Finding("feature", n[2:], f"without {'+'.join(miss) or 'anything missing'}: {explain_raise(e)}")
                bad = outside(I.import_log[k:])
                if bad:
                    raise Finding("feature", n[2:], f"imports {bad[0][0]} (in {bad[0][2]})")
            ck.oblige(I, f"{n[2:]} without {'+'.join(miss) or 'nothing'}", go)
        for n in [n for n in S.m.f if n.startswith("n_")]:
            dep = n.split("_")[1]
            if dep not in miss:
                continue

            def go(n=n, I=I, S=S):
                S.rule, S.ob = "feature", n[2:]
                k = len(I.import_log)
                I.positions, I.width = [], 2
                I.call(S.m.f["missing"], [S.m.f[n]], {})
            ck.oblige(I, f"{n[2:]} without {'+'.join(miss)}", go)
        if miss in ((), ("qiskit",)):
            S.run("feature", ["ob_exception_option"], [("missing" if miss else "",)])
            S.run("feature", ["ob_unknown_returns"])
    I = ck.use(new_interp(missing={"qiskit": "RuntimeError"}))
    S = Script(ck, I, SRC)
    S.run("feature", ["ob_exception_option"], [("broken",)])
    S.run("feature", ["ob_unknown_returns", "ob_broken"])
