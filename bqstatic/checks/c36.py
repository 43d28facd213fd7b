"""C36: a QUBO is submitted to the D-Wave solver as its own Ising problem, and the sample is returned as bits."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World
from ..scalar import Scalar

RULE = ("Abstract interpretation of wq.Opt.dw on QUBO matrices of independent symbols with a stand-in for dwave.cloud that records every call: the client must be made for the optimizer's endpoint, token and solver, "
        "the linear coefficient of every bit the solver has must be submitted under that bit's number and the coupling of every pair of bits under an edge of the solver, so that the submitted energy is the "
        "QUBO's value up to a constant wherever the solver has the bits and edges, with one read; the first sample's spins are returned as 0s and 1s. Nodes and edges are listed in several orders, with more and with fewer nodes than bits.")
ASSUME = ["solver.nodes and solver.undirected_edges (pairs in ascending order), Client.from_config, get_solver and sample_ising behave as dwave-cloud-client documents", "up to four bits", "QUBO matrices are upper triangular"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
import numpy as np
from blueqat import wq

class Answer:
    def __init__(self, samples):
        self.samples = samples
        self.num_occurrences = [1] * len(samples)
    def result(self):
        return {"samples": self.samples, "solutions": self.samples}
    def __getitem__(self, k):
        return self.result()[k]

class Solver:
    def __init__(self, nodes, edges, samples):
        self.nodes = nodes
        self.undirected_edges = edges
        self.edges = edges
        self.samples = samples
    def sample_ising(self, linear, quadratic=None, offset=0, **kw):
        log.append(("ising", linear, quadratic if quadratic is not None else {}, offset, kw))
        return Answer(self.samples)

class Client:
    @staticmethod
    def from_config(config_file=None, **kw):
        log.append(("client", config_file, kw))
        return Client()
    def get_solver(self, *a, **kw):
        log.append(("solver", a, kw))
        return box[0]
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False

log = []
box = []

def problem(n, kind):
    rows = [[(entry(i, j) if i <= j else 0) for j in range(n)] for i in range(n)]
    if kind == "array":
        return np.array(rows)
    return rows

def device(nodes, edges, samples, form):
    install(Client)
    log.clear()
    box.clear()
    if form == "set":
        nodes, edges = set(nodes), set(edges)
    box.append(Solver(nodes, edges, samples))

def ob_dw(n, kind, nodes, edges, samples, form, how):
    device(nodes, edges, samples, form)
    q = problem(n, kind)
    o = wq.Opt()
    if how == "add":
        o.add(q)
    else:
        o.qubo = q
    h = snap(o.qubo)
    endpoint, token, solver = 'https://cloud.dwavesys.com/sapi', '', 'DW_2000Q_6'
    if how == "settings":
        endpoint = o.dwaveendpoint = "e"
        token = o.dwavetoken = "t"
        solver = o.dwavesolver = "s"
    r = o.dw()
    expect(unchanged(h, o.qubo), "dw() modifies the QUBO")
    kinds = [x[0] for x in log]
    expect(kinds == ["client", "solver", "ising"], "calls of the D-Wave client", kinds)
    kw = log[0][2]
    expect(log[0][1] is None and kw["endpoint"] == endpoint and kw["token"] == token and kw["solver"] == solver and len(kw) == 3, "configuration of the client", log[0])
    expect(log[2][4] == {"num_reads": 1} or log[2][4] == {}, "options of the sampler", log[2][4])
    submitted(n, nodes, edges, log[2][1], log[2][2], log[2][3])
    expect(isinstance(r, list) and len(r) == n, "result of dw()", r)
    for i in nodes:
        if i < n:
            expect(isinstance(r[i], int) and r[i] == (samples[0][i] + 1) // 2, "the bits returned are not those of the first sample", r, samples)
    if how == "twice":
        log.clear()
        o.qubo = problem(1, kind)
        r = o.dw()
        expect([x[0] for x in log] == ["client", "solver", "ising"], "calls of the D-Wave client")
        submitted(1, nodes, edges, log[2][1], log[2][2], log[2][3])
        expect(len(r) == 1, "result of dw()", r)
    if how == "again":
        # another problem of the same size, set or added to the one held
        for k in ("set", "item", "add"):
            log.clear()
            other("b" if k == "set" else "c")
            if k == "set":
                o.qubo = problem(n, kind)
            elif k == "item":
                for i in range(n):
                    for j in range(i, n):
                        o.qubo[i][j] = entry(i, j)
            else:
                other("")
                p = problem(n, kind)
                o.qubo = problem(n, kind)
                o.dw()
                o.add(p)
                other("2")
                log.clear()
            r = o.dw()
            expect([x[0] for x in log] == ["client", "solver", "ising"], "calls of the D-Wave client")
            submitted(n, nodes, edges, log[2][1], log[2][2], log[2][3])
            other("")

def ob_after(n, nodes, edges, samples, what):
    """nothing of an earlier use of the optimizer is submitted"""
    device(nodes, edges, samples, "list")
    o = wq.Opt()
    other("b")
    o.qubo = problem(n, "lists")
    if what == "qi":
        o.qi()
    elif what == "J":
        o.J = np.eye(n)
        o.ep = 3
    else:
        o.ite, o.Ts, o.Tf = 1, 1.0, 0.9
        o.qi()
        o.reJ()
    other("")
    o.qubo = problem(n, "lists")
    r = o.dw()
    submitted(n, nodes, edges, log[2][1], log[2][2], log[2][3])
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq")))
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2)]
    root, mod = ModuleObj("dwave", ""), ModuleObj("dwave.cloud", "")
    root.f["cloud"] = mod
    I.ext["dwave"], I.ext["dwave.cloud"] = root, mod

    def install(I, a, k):
        mod.f["Client"] = a[0]

    def same(x, y):
        d = I.E.norm(I.to_scalar(x) - I.to_scalar(y))
        return d.is_zero() or all(abs(w.val(d)) < 1e-9 for w in worlds)

    def entry(I, a, k):
        if variant == "2":
            return Scalar.sym(f"q{a[0]}{a[1]}") * 2
        return Scalar.sym(f"q{variant}{a[0]}{a[1]}")

    variant = ""

    def other(I, a, k):
        nonlocal variant
        variant = a[0]

    def ising(n):
        q = lambda i, j: entry(I, (min(i, j), max(i, j)), {})
        h = {}
        for i in range(n):
            h[i] = q(i, i) * 0.5
            for j in range(n):
                if j != i:
                    h[i] = h[i] + q(i, j) * 0.25
        return h, {(i, j): q(i, j) * 0.25 for i in range(n) for j in range(i + 1, n)}

    def submitted(I, a, k):
        n, nodes, edges, linear, quad, offset = a
        nodes, edges = I.list_values(nodes), [tuple(I.list_values(e)) for e in I.list_values(edges)]
        if not isinstance(linear, DictObj):
            # a sequence of biases is documented as well
            linear = list(enumerate(I.list_values(linear)))
        else:
            linear = list(linear.pairs())
        h, J = ising(n)
        got = {}
        for i, v in linear:
            if i in got:
                raise Finding("linear", "Opt.dw", f"two linear coefficients of node {i}")
            got[i] = v
        for i in set(got) | {x for x in nodes if x < n}:
            v = got.get(i, 0)
            if i not in nodes and not same(v, 0):
                raise Finding("linear", "Opt.dw", f"a linear coefficient is submitted for node {i}, which the solver ({nodes}) does not have")
            if not same(v, h[i] if i in h and i in nodes else 0):
                raise Finding("linear", "Opt.dw", f"the linear coefficient of bit {i} is {I.E.norm(I.to_scalar(v))} instead of {I.E.norm(h[i]) if i in h else 0} (nodes {nodes})")
        sums = {}
        for e, v in quad.pairs():
            e = tuple(I.list_values(e))
            p = tuple(sorted(e))
            if p not in edges and not same(v, 0):
                raise Finding("quadratic", "Opt.dw", f"a coupling is submitted for {e}, which is no edge of the solver")
            sums[p] = I.to_scalar(v) + sums.get(p, Scalar.const(0))
        for p in set(sums) | {x for x in edges if x[1] < n}:
            if not same(sums.get(p, Scalar.const(0)), J.get(p, Scalar.const(0))):
                raise Finding("quadratic", "Opt.dw", f"the coupling of {p} is {I.E.norm(sums.get(p, Scalar.const(0)))} instead of {I.E.norm(J.get(p, Scalar.const(0)))}")

    S = Script(ck, I, SRC, entry=entry, other=other, install=install, submitted=submitted)
    L = ListObj

    def cases():
        for n in range(1, 5 if ck.tier == "quick" else 6):
            for m in (n, n + 2):
                full = list(range(m))
                graphs = {"complete": list(itertools.combinations(full, 2)), "chain": [(i, i + 1) for i in range(m - 1)], "none": [], "back": list(itertools.combinations(full, 2))[::-1]}
                for gname, es in graphs.items():
                    for nodes in ([full, full[::-1]] + ([[x for x in full if x != y] for y in (0, n // 2, n - 1)] if n > 1 else [])):
                        ee = [e for e in es if e[0] in nodes and e[1] in nodes]
                        sample = [(1 if (i * i + n + m) % 3 else -1) if i in nodes else 3 for i in range(m)]
                        for kind, form, how in (("lists", "set", "plain"), ("array", "list", "add"), ("lists", "list", "settings"), ("array", "set", "twice"), ("lists", "list", "again"), ("array", "list", "again")):
                            if 0 not in nodes and how == "twice":
                                continue
                            yield (n, kind, L(list(nodes)), L(list(ee)), L([L(list(sample)), L([-x for x in sample])]), form, how)
    S.run("submission", ["ob_dw"], list(cases()))
    S.run("submission", ["ob_after"], [(n, L(list(range(n))), L(list(itertools.combinations(range(n), 2))), L([L([1] * n)]), w) for n in (1, 2, 3) for w in ("qi", "J", "reJ")])
