"""C31: a variational run returns the minimiser's parameters, their circuit and its probabilities."""
import itertools
from ..scen import *
from ..script import Script
from .. import npmodel as NP

RULE = ("Abstract interpretation of Vqe, VqeResult and get_scipy_minimizer on stand-ins for ansatz, sampler, minimiser and scipy.optimize.minimize that return arbitrary objects and record how they are "
        "called: objective, number of parameters, parameters, circuit and probabilities must be handed on unchanged, stored and reused exactly as get_probs documents, and most_common must list the largest "
        "probabilities in descending order (symbolic and concrete probabilities, with ties).")
ASSUME = ["the minimiser is any function of the objective and the number of parameters", "scipy.optimize.minimize(f, x0, **options) returns an object with attribute x"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
from blueqat import vqe, Circuit
from blueqat.vqe import Vqe, VqeResult, get_scipy_minimizer, AnsatzBase, QaoaAnsatz
from blueqat.pauli import X, Y, Z
import numpy as np

class Ansatz:
    def __init__(self, n_params):
        self.n_params = n_params
        self.log = []
        self.objective = lambda params: ("value", params)
    def get_objective(self, sampler=None):
        self.log.append(("objective", sampler))
        return self.objective
    def get_circuit(self, params):
        self.log.append(("circuit", params))
        return ("circuit of", params)

def minimiser(log, result, calls=()):
    def f(objective, n_params):
        log.append((objective, n_params))
        for p in calls:
            log.append(objective(p))
        return result
    return f

def ob_run(n_params, with_sampler, verbose, twice):
    a = Ansatz(n_params)
    log = []
    res, p0 = tok("result"), tok("p0")
    s = tok("sampler") if with_sampler else None
    v = Vqe(a, minimiser(log, res, (p0,)), s) if with_sampler else Vqe(a, minimizer=minimiser(log, res, (p0,)))
    r = v.run(verbose=True) if verbose else v.run()
    if twice:
        a.log.clear()
        log.clear()
        r = v.run(verbose=verbose)
    expect(len(log) == 2, "calls of the minimiser", log)
    expect(log[0][1] == n_params, "number of parameters given to the minimiser", log[0][1])
    expect(log[1][0] == "value" and log[1][1] is p0, "the objective given to the minimiser is not the ansatz's", log[1])
    if not verbose:
        expect(log[0][0](p0)[0] == "value", "the objective given to the minimiser is not the ansatz's")
    expect(len([x for x in a.log if x[0] == "objective"]) == 1, "objectives made", a.log)
    expect([x for x in a.log if x[0] == "objective"][0][1] is s, "the objective is not made for the sampler of the run", a.log)
    expect(r.params is res, "the parameters of the result are not the minimiser's", r.params)
    expect(r.circuit[0] == "circuit of" and r.circuit[1] is res, "the circuit of the result is not the ansatz's circuit for the final parameters", r.circuit)
    expect(r.vqe is v, "the run the result belongs to", r.vqe)
    expect(v.ansatz is a and v.sampler is s, "run() changes the settings of the Vqe object")

def ob_old_result(verbose, runs):
    """the deprecated attribute Vqe.result"""
    a = Ansatz(1)
    log = []
    v, w = Vqe(a, minimiser(log, tok("result"))), Vqe(a, minimiser(log, tok("result")))
    e = v.result
    expect(isinstance(e, VqeResult) and e.params is None and e.circuit is None and e.vqe is None, "Vqe.result without a run", e)
    r = None
    for i in range(runs):
        r = v.run(verbose=verbose)
    expect(v.result is r and v.result is r, "Vqe.result is not the result of the last run", v.result)
    expect(w.result.params is None, "Vqe.result of another object", w.result)

def ob_real_ansatz(verbose, sampler):
    h = X[0] + 2 * Y[1] * Z[0] + 3
    class My(AnsatzBase):
        def __init__(self):
            super().__init__(h, 2)
        def get_circuit(self, params):
            c = Circuit(2).ry(params[0])[0].rx(params[1])[1]
            made.append(c)
            return c
    made = []
    a = My()
    seen = []
    def minim(f, n):
        expect(n == 2, "number of parameters", n)
        seen.append(f([0.25, 0.5]))
        return [0.75, 0.125]
    s = {"none": None, "exact": vqe.non_sampling_sampler}[sampler]
    r = Vqe(a, minim, s).run(verbose)
    expect(r.circuit is made[-1] and len(made) >= 2, "the circuit of the result", made)
    expect(r.circuit.ops[0].params[0] == 0.75 and r.circuit.ops[1].params[0] == 0.125, "parameters of the result's circuit", r.circuit.ops)
    p = r.get_probs()
    keys = sorted(p.keys())
    expect(keys == [(0, 0), (0, 1), (1, 0), (1, 1)], "probabilities of", keys)
    q = vqe.expect(Circuit(2).ry(0.75)[0].rx(0.125)[1].run(returns="statevector"), (0, 1))
    for k in keys:
        expect(abs(p[k] - q[k]) < 1e-6, "probability of", k, p[k], q[k])

class Circ:
    def __init__(self, n):
        self.n_qubits = n
        self.log = []
    def run(self, *args, **kwargs):
        self.log.append(("run", args, kwargs))
        return np.array([0.6, 0.0, 0.0, 0.8j])

def sampler(log, probs):
    def f(circuit, meas):
        log.append((circuit, tuple(meas)))
        return probs[len(log) - 1]
    return f

def result(own, n=2):
    log = []
    probs = [{"no": i} for i in range(6)]
    v = Vqe(Ansatz(1), minimiser([], None), sampler(log, probs) if own else None)
    c = Circ(n)
    return VqeResult(v, tok("params"), c), c, log, probs

def asked(log, k, c, n):
    expect(len(log) == k, "number of times the sampler was asked", log)
    for x in log:
        expect(x[0] is c, "the sampler is asked about another circuit", x)
        expect(x[1] == tuple(range(n)), "qubits the sampler is asked about", x)

def ob_probs_run(n):
    r, c, log, probs = result(True, n)
    p = r.get_probs()
    expect(p is probs[0], "the probabilities are not the sampler's", p)
    expect(r.get_probs() is p and r.get_probs() is p, "probabilities are not stored")
    expect(r.get_probs(store=False) is p and r.get_probs(None, None, False) is p, "stored probabilities are not used")
    asked(log, 1, c, n)
    expect(len(c.log) == 0, "the circuit is run although there is a sampler")

def ob_probs_rerun():
    r, c, log, probs = result(True)
    r.get_probs()
    expect(r.get_probs(rerun=True) is probs[1], "rerun=True")
    expect(r.get_probs() is probs[1], "the newer probabilities are not stored")
    expect(r.get_probs(rerun=False) is probs[1], "rerun=False")
    expect(r.get_probs(rerun=True, store=False) is probs[2], "rerun=True, store=False")
    expect(r.get_probs() is probs[1], "store=False stores the probabilities")
    asked(log, 3, c, 2)

def ob_probs_first_not_stored():
    r, c, log, probs = result(True)
    expect(r.get_probs(store=False) is probs[0], "store=False")
    expect(r.get_probs() is probs[1], "store=False stores the probabilities")
    expect(r.get_probs() is probs[1], "probabilities are not stored")
    asked(log, 2, c, 2)

def ob_probs_other_sampler():
    r, c, log, probs = result(True)
    mine = [{"other": i} for i in range(4)]
    l2 = []
    s = sampler(l2, mine)
    expect(r.get_probs() is probs[0], "probabilities")
    expect(r.get_probs(s) is mine[0], "the sampler given is not asked")
    expect(r.get_probs() is mine[0], "the newer probabilities are not stored")
    expect(r.get_probs(sampler=s, store=False) is mine[1], "the sampler given is not asked")
    expect(r.get_probs() is mine[0], "store=False stores the probabilities")
    expect(r.get_probs(s, rerun=False) is mine[0], "rerun=False with a sampler")
    expect(r.get_probs(rerun=True) is probs[1], "rerun with the sampler of the run")
    asked(log, 2, c, 2)
    asked(l2, 2, c, 2)

def ob_probs_same_sampler():
    r, c, log, probs = result(True)
    s = r.vqe.sampler
    expect(r.get_probs() is probs[0], "probabilities")
    expect(r.get_probs(s) is probs[1], "the sampler given is not asked, as it is the sampler of the run")
    expect(r.get_probs(sampler=s, rerun=False) is probs[1], "rerun=False with a sampler")
    asked(log, 2, c, 2)

def ob_probs_no_stored_rerun_false():
    r, c, log, probs = result(True)
    expect(r.get_probs(rerun=False) is probs[0], "rerun=False without stored probabilities")
    asked(log, 1, c, 2)

def ob_probs_exact():
    r, c, log, probs = result(False)
    p = r.get_probs()
    expect(len(p) == 2 and abs(p[(0, 0)] - 0.36) < 1e-9 and abs(p[(1, 1)] - 0.64) < 1e-9, "exact probabilities", p)
    expect(r.get_probs() is p, "probabilities are not stored")
    expect(len(c.log) == 1, "runs of the circuit", c.log)
    kw = c.log[0][2]
    expect(len(c.log[0][1]) == 0 and len(kw) == 1 and kw["returns"] == "statevector", "the circuit is not run for its state vector", c.log)
    r.get_probs(rerun=True)
    expect(len(c.log) == 2, "rerun=True")
    l2 = []
    mine = [{"other": 1}]
    expect(r.get_probs(sampler(l2, mine)) is mine[0], "the sampler given is not asked")
    expect(len(c.log) == 2, "the circuit is run although there is a sampler")

def ob_probs_independent():
    r, c, log, probs = result(True)
    q, d, log2, probs2 = result(True)
    q.get_probs()
    expect(r.get_probs() is probs[0] and q.get_probs() is probs2[0], "results share probabilities")

def ob_most_common(ps, n, how):
    """ps: probabilities; the k most probable outcomes in descending order"""
    keys = [(0, 0), (1, 0), (0, 1), (1, 1)][:len(ps)]
    d = {k: p for k, p in zip(keys, ps)}
    r, c, log, probs = result(True)
    probs[0] = d
    h = snap(d)
    if how == "stored":
        r.get_probs()
    m = r.most_common() if n is None else r.most_common(n)
    expect(unchanged(h, d), "most_common() modifies the probabilities")
    k = 1 if n is None else n
    expect(isinstance(m, tuple) and len(m) == min(k, len(ps)), "number of outcomes", m)
    expect(len(set(x[0] for x in m)) == len(m), "an outcome twice", m)
    for x in m:
        expect(d[x[0]] == x[1], "probability of", x)
    for x, y in zip(m, m[1:]):
        expect(not x[1] < y[1], "order of the outcomes", m)
    for key in d:
        if key not in [x[0] for x in m]:
            for x in m:
                expect(not x[1] < d[key], "a more probable outcome is left out", m)
    asked(log, 1, c, 2)

def ob_most_common_symbolic(n):
    ob_most_common([sym("p0"), sym("p1")], n, "run")

def ob_scipy(n, options):
    opts = {"method": tok("method"), "options": tok("options"), "tol": tok("tol")}
    opts = {k: opts[k] for k in options}
    f = tok("objective")
    m = get_scipy_minimizer(**opts)
    for again in range(2):
        clear_calls()
        r = m(f, n)
        cs = calls()
        expect(len(cs) == 1, "calls of scipy.optimize.minimize", cs)
        fun, x0, kw = cs[0]
        expect(fun is f, "function given to scipy", fun)
        expect(len(x0) == n, "number of initial parameters", x0)
        expect(len(kw) == len(opts), "options given to scipy", kw)
        for k in opts:
            expect(kw[k] is opts[k], "option " + k, kw)
        expect(r is minimum(), "the minimiser does not return scipy's minimum", r)

def ob_default_minimizer(how):
    a = Ansatz(3)
    v = Vqe(a) if how == "default" else Vqe(a, None, None)
    clear_calls()
    r = v.run()
    cs = calls()
    expect(len(cs) == 1, "calls of scipy.optimize.minimize", cs)
    expect(len(cs[0][1]) == 3, "number of initial parameters", cs[0][1])
    expect(cs[0][0](tok("p"))[0] == "value", "function given to scipy")
    expect(cs[0][2]["method"] == "Powell", "method of the default minimiser", cs[0][2])
    expect(r.params is minimum(), "the parameters of the result are not scipy's minimum", r.params)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.vqe", "blueqat.pauli")))
    box = {"calls": [], "min": None}

    def minimize(I, a, k):
        k = dict(k)
        a = list(a)
        fun = a.pop(0) if a else k.pop("fun")
        x0 = a.pop(0) if a else k.pop("x0")
        for nm in ("args", "method")[:len(a)]:
            k[nm] = a.pop(0)
        d = DictObj(I.bt["dict"])
        for kk, v in k.items():
            I.dict_set(d, kk, v)
        box["calls"].append((fun, x0, d))
        r = ModuleObj("result", "")
        box["min"] = r.f["x"] = Opaque("minimum")
        return r
    I.overrides["scipy.optimize", "minimize"] = Native("minimize", minimize)
    vqe = I.load("blueqat.vqe")
    for key, v in list(vqe.f.items()):
        if getattr(v, "name", "") == "scipy.optimize.minimize":
            vqe.f[key] = I.overrides["scipy.optimize", "minimize"]

    def clear_calls(I, a, k):
        box["calls"] = []
    S = Script(ck, I, SRC, clear_calls=clear_calls, calls=lambda I, a, k: ListObj(list(box["calls"])), minimum=lambda I, a, k: box["min"])
    S.on_start = lambda: box.update(calls=[], min=None)
    S.run("run", ["ob_run"], [(n, s, v, t) for n in (0, 1, 5) for s in (False, True) for v in (False, True) for t in (False, True)])
    S.run("run", ["ob_old_result"], [(v, n) for v in (False, True) for n in (1, 2)])
    S.run("run", ["ob_real_ansatz"], [(v, s) for v in (False, True) for s in ("none", "exact")])
    S.run("probs", ["ob_probs_run"], [(n,) for n in (1, 2, 5)])
    S.run("probs", ["ob_probs_rerun", "ob_probs_first_not_stored", "ob_probs_other_sampler", "ob_probs_no_stored_rerun_false", "ob_probs_same_sampler", "ob_probs_exact", "ob_probs_independent"])
    S.run("most-common", ["ob_most_common"], [(ps, n, how) for ps in [(0.1, 0.4, 0.3, 0.2), (0.25, 0.25, 0.25, 0.25), (0.7, 0.1, 0.1, 0.1), (0.0, 0.5, 0.0, 0.5), (1.0,), (0.3, 0.7)]
                                              for n in (None, 0, 1, 2, 3, 4, 7) for how in ("run", "stored")])
    S.run("most-common", ["ob_most_common_symbolic"], [(n,) for n in (None, 1, 2, 3)])
    S.run("minimizer", ["ob_scipy"], [(n, o) for n in (0, 1, 4) for o in ((), ("method",), ("method", "options"), ("tol", "options"))])
    S.run("minimizer", ["ob_default_minimizer"], [("default",), ("none",)])
