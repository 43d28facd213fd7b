"""C40: the Boltzmann-machine helpers compute their statistics and the training applies the stated update."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World
from ..scalar import Scalar, apply_fn
from .. import npmodel as NP

RULE = ("Abstract interpretation of dbms, setRBM, sigm, rbm_hmodel, rbm_data_qubo, rbm_model_qubo, fit, rands and counter of wq with independent symbols for the weights, data and random draws and a stand-in for the annealing run "
        "that records its arguments and returns enumerated samples: every entry of each matrix must equal the statistic it stands for (layered random weights; hidden probabilities 1/(1+exp(-(bias+weights.data))); averages of bits and of "
        "products of visible and hidden bits over the shots) and every epoch of the training must give alpha*old + epsilon*(statistics of the inverted data - statistics of the model).")
ASSUME = ["numpy.random.rand and randint return values of their documented ranges", "up to four bits, four shots and three epochs (the loops treat all alike)", "two layers where the training is concerned"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
import numpy as np
from blueqat import wq

class Machine(wq.Opt):
    """the annealing run is a stand-in"""
    def run(self, shots=1, sampler="normal", targetT=0.02, verbose=False):
        CALLS.append((shots, sampler, targetT, [[self.qubo[i][j] for j in range(len(self.qubo))] for i in range(len(self.qubo))]))
        r = SAMPLES.pop(0)
        return r[0] if shots == 1 else r

CALLS = []
SAMPLES = []

def weights(v, h, kind="array"):
    n = v + h
    rows = [[(sym("w%d%d" % (i, j)) if i == j or i < v <= j else 0) for j in range(n)] for i in range(n)]
    return np.array(rows) if kind == "array" else rows

def ob_dbms(layers, w):
    start()
    q = wq.dbms(layers) if w is None else wq.dbms(layers, w)
    layered(q, layers, w)

def ob_set(v, h):
    start()
    o = wq.Opt()
    o.setRBM([v, h])
    expect(o.RBMvisible == v and o.RBMhidden == h, "sizes of the layers", o.RBMvisible, o.RBMhidden)
    layered(o.qubo, [v, h], None)
    p = wq.Opt()
    expect(p.RBMvisible == 0 and p.RBMhidden == 0 and len(p.qubo) == 0, "another optimizer")

def ob_sigm():
    x = sym("x")
    same(wq.sigm(x), sigmoid(x), "sigm(x)")
    expect(wq.sigm(0) == 0.5, "sigm(0)")

def ob_hidden(v, h, kind, data):
    W = weights(v, h, kind)
    d = [(sym("d%d" % i) if x == "s" else x) for i, x in enumerate(data)]
    before = snap(W, d)
    r = wq.rbm_hmodel(d, W)
    expect(len(r) == h, "number of hidden probabilities", r)
    for j in range(h):
        s = W[v + j][v + j]
        for i in range(v):
            s = s + W[i][v + j] * d[i]
        same(r[j], sigmoid(s), "the probability of hidden bit %d" % j)
    expect(unchanged(before, W, d), "rbm_hmodel changes its arguments")

def data_matrix(d, W, v, h):
    n = v + h
    p = []
    for j in range(h):
        s = W[v + j][v + j]
        for i in range(v):
            s = s + W[i][v + j] * d[i]
        p.append(sigmoid(s))
    a = list(d) + p
    return [[(a[i] if i == j else a[i] * a[j] if i < v <= j else 0) for j in range(n)] for i in range(n)]

def ob_data(v, h, kind, data):
    W = weights(v, h, kind)
    d = [(sym("d%d" % i) if x == "s" else x) for i, x in enumerate(data)]
    before = snap(W, d)
    r = wq.rbm_data_qubo(d, W)
    matrix(r, data_matrix(d, W, v, h), "statistics of the data")
    expect(unchanged(before, W, d), "rbm_data_qubo changes its arguments")

def model_matrix(samples, v, h):
    n, m = v + h, len(samples)
    return [[(sum([s[i] * (s[j] if i != j else 1) for s in samples]) / m if i == j or i < v <= j else 0) for j in range(n)] for i in range(n)]

def machine(v, h):
    o = Machine()
    o.RBMvisible = v
    o.RBMhidden = h
    o.qubo = weights(v, h)
    CALLS.clear()
    SAMPLES.clear()
    return o

def ob_model(v, h, samples, t):
    o = machine(v, h)
    SAMPLES.append([list(s) for s in samples])
    n = len(samples)
    before = snap(o.qubo)
    if t is None:
        if n != 1:
            r = o.rbm_model_qubo(shots=n)
        else:
            r = o.rbm_model_qubo(1)
    else:
        r = o.rbm_model_qubo(shots=n, targetT=t)
    expect(len(CALLS) == 1 and CALLS[0][0] == n and CALLS[0][2] == (0.02 if t is None else t), "arguments of the annealing run", [c[:3] for c in CALLS])
    matrix(r, model_matrix(samples, v, h), "statistics of the model")
    expect(unchanged(before, o.qubo), "rbm_model_qubo changes the QUBO")

def ob_fit(v, h, vdata, picks, samples, options, form):
    start(picks)
    o = machine(v, h)
    W = [[o.qubo[i][j] for j in range(v + h)] for i in range(v + h)]
    epochs, shots = len(picks), len(samples[0])
    for s in samples:
        SAMPLES.append([list(x) for x in s])
    al, ep, t = 0.9, 0.1, 0.02
    kw = {}
    if "alpha" in options:
        al = kw["alpha"] = sym("al")
    if "epsilon" in options:
        ep = kw["epsilon"] = sym("ep")
    if "targetT" in options:
        t = kw["targetT"] = 0.5
    data = [list(x) for x in vdata]
    data = np.array(data) if form == "array" else data
    before = snap(data)
    o.fit(data, shots=shots, epoch=epochs, verbose=("verbose" in options), **kw)
    expect(unchanged(before, data), "fit() changes the data")
    expect(len(CALLS) == epochs, "number of annealing runs", len(CALLS))
    expect(picked() == [len(vdata)] * epochs, "draws of the data", picked())
    for e in range(epochs):
        expect(CALLS[e][0] == shots and CALLS[e][2] == t, "arguments of the annealing run", CALLS[e][:3])
        matrix(CALLS[e][3], W, "the QUBO that is annealed in epoch %d" % e)
        D = data_matrix([1 - x for x in vdata[picks[e]]], W, v, h)
        M = model_matrix(samples[e], v, h)
        W = [[al * W[i][j] + ep * (D[i][j] - M[i][j]) for j in range(v + h)] for i in range(v + h)]
    matrix(o.qubo, W, "the QUBO after %d epochs" % epochs)
    expect(o.RBMvisible == v and o.RBMhidden == h, "sizes of the layers", o.RBMvisible, o.RBMhidden)

def ob_rands(n):
    start()
    q = wq.rands(n)
    triangle(q, n)

def ob_counter(rows):
    before = snap(rows)
    c = wq.counter(rows)
    want = {}
    for r in rows:
        k = "".join([str(x) for x in r])
        want[k] = want.get(k, 0) + 1
    expect(dict(c) == want, "counts", dict(c))
    expect(c["no such key"] == 0 and sum(c.values()) == len(rows), "kind of counter")
    if want:
        expect(c.most_common(1)[0][1] == max(want.values()), "most common")
    expect(unchanged(before, rows), "counter changes its argument")
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq")))
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2, 3)]
    box = {}

    def eq(x, y):
        d = I.E.norm(I.to_scalar(x) - I.to_scalar(y))
        return d.is_zero() or all(abs(w.val(d)) < 1e-8 * (1 + abs(w.val(I.to_scalar(x)))) for w in worlds)

    def draw(sh):
        cells = []
        n = 1
        for x in sh:
            n *= x
        for _ in range(n):
            box["n"] = box.get("n", 0) + 1
            cells.append(Scalar.sym(f"u{box['n']}"))
        box.setdefault("draws", []).extend(cells)
        return NP.NdArr(cells, tuple(sh), NP.dtype_of(I, "float64")) if sh else cells[0]

    def rand(I, a, k):
        return draw([int(x) for x in a])

    def uniform(I, a, k):
        size = k.get("size", a[0] if a else None)
        return draw([] if size is None else [int(x) for x in I.list_values(size)] if isinstance(size, (tuple, ListObj)) else [size])

    def pick(n):
        box["picked"].append(n)
        if not box["picks"]:
            raise Finding("data", S.ob, "more draws of data than epochs")
        return box["picks"].pop(0)

    def randint(I, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 and k.get("high") is None else (a[0], k.get("high", a[1] if len(a) > 1 else None))
        if lo != 0 or k.get("size", a[2] if len(a) > 2 else None) is not None:
            raise Undecided("form of randint")
        return pick(hi)

    def choice(I, a, k):
        if len(a) != 1 or k:
            raise Undecided("form of choice")
        return pick(a[0]) if isinstance(a[0], int) else I.getitem(a[0], pick(len(I.list_values(a[0]))))

    for nm, f in (("choice", choice), ("randint", randint), ("rand", rand), ("random", uniform), ("random_sample", uniform)):
        I.overrides["numpy.random", nm] = Native(nm, f)
    I.overrides["random", "random"] = Native("random", rand)
    I.overrides["random", "randrange"] = Native("randrange", randint)
    I.overrides["random", "choice"] = Native("choice", choice)

    def start(I, a, k):
        box.clear()
        box.update(picks=list(I.list_values(a[0])) if a else [], picked=[], n=0)

    def sigmoid(I, a, k):
        e = apply_fn("exp", [I.E.norm(-I.to_scalar(a[0]))])
        return I.binop("/", 1, I.binop("+", 1, e))

    def rows(v):
        return [[I.to_scalar(x) for x in I.list_values(r)] if not isinstance(r, NP.NdArr) else r.cells() for r in (I.list_values(v) if not isinstance(v, NP.NdArr) else [I.getitem(v, i) for i in range(v.shape[0])])]

    def matrix(I, a, k):
        x, y = rows(a[0]), rows(a[1])
        if [len(r) for r in x] != [len(r) for r in y]:
            raise Finding("matrix", S.ob, f"{a[2]}: shape {[len(r) for r in x]}")
        for i, (r, s) in enumerate(zip(x, y)):
            for j, (u, w) in enumerate(zip(r, s)):
                if not eq(u, w):
                    raise Finding("matrix", S.ob, f"{a[2]}: entry ({i}, {j}) is {I.E.norm(I.to_scalar(u))!r} instead of {I.E.norm(I.to_scalar(w))!r}")

    def draws(cells):
        ds = [d.key() for d in box.get("draws", [])]
        ks = [c.key() if isinstance(c, Scalar) else None for c in cells]
        if any(x not in ds for x in ks) or len(set(map(repr, ks))) != len(ks):
            raise Finding("matrix", S.ob, f"the entries {cells} are not different random numbers")

    def layered(I, a, k):
        q, layers, w = a
        layers = I.list_values(layers)
        x = rows(q)
        n = sum(layers)
        lay = [i for i, m in enumerate(layers) for _ in range(m)]
        if [len(r) for r in x] != [n] * n:
            raise Finding("matrix", S.ob, f"shape {[len(r) for r in x]} for layers {layers}")
        rest = []
        for i in range(n):
            for j in range(n):
                if i == j or lay[j] == lay[i] + 1:
                    if w is None:
                        rest.append(x[i][j])
                    elif not eq(x[i][j], 0.5 if i == j else w):
                        raise Finding("matrix", S.ob, f"entry ({i}, {j}) is {x[i][j]} instead of {0.5 if i == j else w}")
                elif not eq(x[i][j], 0):
                    raise Finding("matrix", S.ob, f"entry ({i}, {j}) is {x[i][j]}: bits of layers {lay[i]} and {lay[j]} are connected")
        draws(rest)

    def triangle(I, a, k):
        x = rows(a[0])
        n = a[1]
        if [len(r) for r in x] != [n] * n:
            raise Finding("matrix", S.ob, f"shape {[len(r) for r in x]}")
        for i in range(n):
            for j in range(i):
                if not eq(x[i][j], 0):
                    raise Finding("matrix", S.ob, f"entry ({i}, {j}) below the diagonal is {x[i][j]}")
        draws([x[i][j] for i in range(n) for j in range(i, n)])

    def same(I, a, k):
        if not eq(a[0], a[1]):
            raise Finding("value", S.ob, f"{a[2]} is {I.E.norm(I.to_scalar(a[0]))!r} instead of {I.E.norm(I.to_scalar(a[1]))!r}")

    S = Script(ck, I, SRC, start=start, layered=layered, triangle=triangle, sigmoid=sigmoid, matrix=matrix, same=same, picked=lambda I, a, k: ListObj(list(box["picked"])))
    L = lambda *x: ListObj(list(x))
    LL = lambda rs: L(*[L(*r) for r in rs])
    S.run("layers", ["ob_dbms"], [(L(*l), w) for l in ((1,), (2,), (1, 1), (2, 1), (1, 3), (2, 2), (1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 3, 1)) for w in (None, 0.25, 1, -0.75)])
    S.run("layers", ["ob_set"], [(v, h) for v in (1, 2, 3) for h in (1, 2)])
    S.run("statistics", ["ob_sigm"], [()])
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]
    S.run("statistics", ["ob_hidden", "ob_data"], [(v, h, kind, d) for v, h in sizes for kind in ("array", "lists") for d in set(itertools.product((0, 1), repeat=v)) | {("s",) * v}])
    few = {n: list(itertools.product((0, 1), repeat=n)) for n in (2, 3, 4)}
    for v, h in sizes:
        b = few[v + h]
        S.run("statistics", ["ob_model"], [(v, h, LL(s), t) for s in ([[x] for x in b] + [[b[i], b[-1 - i]] for i in range(3)] + [[b[1], b[-1], b[-1]], b[:4], b[-4:], b]) for t in (None, 0.5)])
        data = [x[:v] for x in b[:: 2 ** h]]
        for opts in ((), ("alpha",), ("epsilon", "targetT"), ("alpha", "epsilon", "verbose")):
            for picks in ((0,), (len(data) - 1,)) + (((1, 0), (0, 1, 1)) if v + h == 2 else ()):
                for shots in (1, 2, 4):
                    sam = [[b[(3 * e + 5 * s + 1) % len(b)] for s in range(shots)] for e in range(len(picks))]
                    for form in ("lists", "array"):
                        S.run("training", ["ob_fit"], [(v, h, LL(data), L(*picks), L(*[LL(x) for x in sam]), L(*opts), form)])
    S.run("helpers", ["ob_rands"], [(n,) for n in range(1, 5)])
    S.run("helpers", ["ob_counter"], [(LL(r),) for r in ([], [(0, 1)], [(0, 1), (1, 0), (0, 1)], [(1,), (1,), (0,), (1,)], [(0, 0, 1), (0, 1, 0), (0, 0, 1), (1, 1, 1)])])
