"""C09: measured bits appear at their qubit's position in every sampled result."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World, assignments, facts_of, runs, text, weight
from ..scalar import apply_fn

RULE = ("Abstract interpretation of the counters of the numpy and numba simulators on circuits of generic width with qubits set and measured in generic positions, of the ibmq backend and "
        "the Qiskit sampler on a stand-in for the qiskit module that returns arbitrary counts, of vqe.expect and the vqe samplers on state vectors and counters with symbolic entries for every "
        "ordered subset of the qubits, and of utils.to_inttuple. Every key must carry each qubit's bit in its place and the symbolic weights must be attached to the right keys.")
ASSUME = ["samplers are decided for widths up to 3 (4 in the thorough run)", "the stand-in for qiskit returns counts keyed with classical bit 0 rightmost, as qiskit does",
          "numpy.random.multinomial(n, p) returns one count for each entry of p"]
HISTORY = True
MIN_OBLIGATIONS = 150
BATCH = True
BACKENDS = {"numpy": "blueqat.backends.numpy_backend", "numba": "blueqat.backends._numba_backend_impl"}

SRC = '''
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting, vqe, utils
import numpy as np

def ob_counter(b, setq, meas, shots, how):
    pos, n = positions()
    c = Circuit(n)
    for q in setq:
        c.x[pos[q]]
    if how == "each":
        for q in meas:
            c.measure[pos[q]]
    elif how == "x again":
        for q in meas:
            c.m[pos[q]].x[pos[q]]
    else:
        c.m[tuple(pos[q] for q in meas)]
    r = c.run(backend=b, shots=shots)
    check_counter(r, n, tuple(pos[q] for q in meas if q in setq), shots)

def ob_counter_slice(b, n, setq, lo, hi, st):
    width(n)
    c = Circuit(n)
    for q in setq:
        c.x[q]
    c.m[lo:hi:st]
    n = c.n_qubits
    r = c.run(backend=b, shots=2)
    check_counter(r, n, tuple(q for q in range(n)[lo:hi:st] if q in setq), 2)

class Fake:
    """stands for a backend"""
    def __init__(self, f):
        self.f = f
        self.calls = 0
    def run(self, gates, n_qubits, *args, **kwargs):
        self.calls += 1
        return self.f(list(gates), n_qubits, kwargs)
    def copy(self):
        return self
    def make_cache(self, gates, n_qubits):
        return None

def circuit_on(n, f):
    c = Circuit(n).h[0]
    c._backends = {}
    BlueqatGlobalSetting.register_backend("vpfake", lambda: Fake(f), allow_overwrite=True)
    c.set_default_backend("vpfake")
    return c

def iterable(meas, how):
    if how == "iter":
        return iter(meas)
    if how == "list":
        return list(meas)
    return meas

def keys_ok(r, meas):
    for k in r:
        expect(isinstance(k, tuple) and len(k) == len(meas), "key of the result", k)
        for x in k:
            expect(x == 0 or x == 1, "a bit of a key is neither 0 nor 1", k)

def ob_expect(n, zero, meas, how):
    r = vqe.expect(state(n, zero), iterable(meas, how))
    keys_ok(r, meas)
    check_dist(r, n, zero, meas)

def ob_expect_phase(n, meas):
    r = vqe.expect(numbers(n), meas)
    keys_ok(r, meas)
    check_numbers(r, n, meas)

def ob_non_sampling(n, zero, meas, how):
    seen = []
    def f(gates, w, kw):
        seen.append(1)
        expect(kw.get("returns") in (None, "statevector") and kw.get("shots") is None, "the sampler asks for something else than the state vector", kw)
        return state(n, zero)
    c = circuit_on(n, f)
    r = vqe.non_sampling_sampler(c, iterable(meas, how))
    keys_ok(r, meas)
    check_dist(r, n, zero, meas)

def ob_state_vector_sampler(n, zero, meas, how, shots):
    c = circuit_on(n, lambda gates, w, kw: state(n, zero))
    start_draw()
    r = vqe.get_state_vector_sampler(shots)(c, iterable(meas, how))
    keys_ok(r, meas)
    check_drawn(r, n, zero, meas, shots)

def measured(gates, n, where):
    out = []
    for g in gates:
        if type(g).__name__ == "Measurement":
            out += list(g.target_iter(n))
    return out

def ob_measurement_sampler(n, meas, bits, how, shots, opt):
    counts = nums(len(bits))
    def f(gates, w, kw):
        expect(kw.get("shots") == shots, "number of shots of the sampled run", kw)
        expect(kw.get("returns") in (None, "shots"), "what the sampled run returns", kw)
        got = measured(gates, w, "")
        expect(set(got) == set(meas), "qubits measured by the sampler", got)
        return Counter({b: c for b, c in zip(bits, counts)})
    if opt == "default":
        c = circuit_on(n, f)
        s = vqe.get_measurement_sampler(shots)
    else:
        c = Circuit(n).h[0]
        s = vqe.get_measurement_sampler(shots, {"backend": Fake(f)})
    r = s(c, iterable(meas, how))
    keys_ok(r, meas)
    check_counts(r, bits, counts, meas, shots)

def ob_qiskit_sampler(n, meas, bits, form, how, shots):
    counts = nums(len(bits))
    keys = [b[::-1] for b in bits]
    if form == "hex":
        keys = [hex(int(b, 2)) for b in keys]
    set_counts({k: c for k, c in zip(keys, counts)})
    s = vqe.get_qiskit_sampler(tok("backend")) if shots is None else vqe.get_qiskit_sampler(tok("backend"), shots=shots)
    r = s(Circuit(n).h[0], iterable(meas, how))
    keys_ok(r, meas)
    n = 1024 if shots is None else shots
    if len(meas) == 0:
        expect(len(r) == 1 and r[()] == 1.0, "no qubit is requested", r)
    else:
        expect(executed()[0] == n, "number of shots of the job", executed())
        check_counts(r, bits, counts, meas, n)

def ob_ibmq(n, bits, shots, how):
    counts = nums(len(bits))
    set_counts({b[::-1]: c for b, c in zip(bits, counts)})
    c = Circuit(n).h[0].m[:]
    kw = {} if shots is None else {"shots": shots}
    if how == "named":
        kw["returns"] = "shots"
    if how == "method":
        r = c.run_with_ibmq(**kw)
    else:
        r = c.run(backend="ibmq", **kw)
    expect(isinstance(r, Counter), "the result of the ibmq backend is no Counter", r)
    expect(len(r) == len(bits), "entries of the counter", r)
    for b, x in zip(bits, counts):
        expect(r[b] == x, "bits of the counter are in the wrong place: entry " + b, r)
    expect(executed()[0] == (1024 if shots is None else shots), "number of shots of the job", executed())

def ob_to_inttuple(bits, form):
    counts = nums(len(bits))
    if form == "str":
        for b in bits:
            r = utils.to_inttuple(b)
            expect(r == tuple(1 if x == "1" else 0 for x in b), "to_inttuple", b, r)
            expect(isinstance(r, tuple), "to_inttuple gives no tuple", r)
        return
    d = {b: c for b, c in zip(bits, counts)}
    if form == "Counter":
        d = Counter(d)
    h = snap(d)
    r = utils.to_inttuple(d)
    expect(unchanged(h, d), "to_inttuple modifies its argument")
    expect(type(r) is type(d), "to_inttuple gives another type", type(r))
    expect(len(r) == len(d), "number of entries", r)
    for b, c in zip(bits, counts):
        expect(r[tuple(1 if x == "1" else 0 for x in b)] == c, "to_inttuple of a dict", b, r)

def ob_to_inttuple_bad(kind):
    bad = {"list": ["0", "1"], "int": 101, "None": None, "text": "01a", "tuple": ("0", "1")}[kind]
    expect(raises(utils.to_inttuple, bad) == "ValueError", "to_inttuple accepts " + kind)
    if kind == "text":
        expect(raises(utils.to_inttuple, {"01a": 1}) == "ValueError", "to_inttuple accepts a bad key")
'''


def subsets(n, rmax=None):
    for r in range((n if rmax is None else rmax) + 1):
        yield from itertools.permutations(range(n), r)


def key_num(I, key, what):
    out = []
    for x in key:
        x = x.const_value().real if isinstance(x, Scalar) else x
        if not isinstance(x, (int, float)):
            raise Finding("order", what, f"key {key!r}")
        out.append(int(x))
    return tuple(out)


def check(ck):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", "blueqat.vqe", "blueqat.utils", *BACKENDS.values())))
    box = {}

    def amp(n, zero, b):
        if b in zero:
            return Scalar({})
        s = "".join(map(str, b))
        return Scalar.sym(f"r{s}", pos=True) * apply_fn("exp", [Scalar.const(1j) * Scalar.sym(f"t{s}")])

    def order(n):
        return [tuple(i >> j & 1 for j in range(n)) for i in range(1 << n)]

    def zeros(n, m):
        return {b for i, b in enumerate(order(n)) if m >> i & 1}

    def state(I, a, k):
        n, z = a
        return NP.NdArr([amp(n, zeros(n, z), b) for b in order(n)], (1 << n,), NP.dtype_of(I, "complex128"))

    def prob(n, z, b):
        return Scalar({}) if b in zeros(n, z) else Scalar.sym("r" + "".join(map(str, b)), pos=True) ** 2

    def want_dist(n, z, meas):
        d = {}
        for b in order(n):
            p = prob(n, z, b)
            if not p.is_zero():
                key = tuple(b[q] for q in meas)
                d[key] = d.get(key, Scalar({})) + p
        return d

    def compare_dist(d, want, what):
        got = {}
        for key, v in d.pairs():
            kk = key_num(I, key, what)
            if kk in got:
                raise Finding("order", what, f"key {kk} occurs twice")
            got[kk] = I.E.norm(I.to_scalar(v))
        for key in sorted(set(got) | set(want)):
            x, y = got.get(key, Scalar({})), want.get(key, Scalar({}))
            if not s_equal(x, y):
                raise Finding("order", what, f"bits {key} have the weight {x}, not {y}")

    def check_dist(I, a, k):
        d, n, z, meas = a
        compare_dist(d, want_dist(n, z, meas), S.ob.split("[")[0])

    VALS = {b: complex((7 * i % 11) - 3.5, (5 * i % 7) - 2.25) for n in range(1, 5) for i, b in enumerate(order(n))}

    def numbers(I, a, k):
        return NP.NdArr([Scalar.const(VALS[b]) for b in order(a[0])], (1 << a[0],), NP.dtype_of(I, "complex128"))

    def check_numbers(I, a, k):
        d, n, meas = a
        want = {}
        for b in order(n):
            key = tuple(b[q] for q in meas)
            want[key] = want.get(key, 0) + abs(VALS[b]) ** 2
        compare_dist(d, {q: Scalar.const(v) for q, v in want.items()}, S.ob.split("[")[0])

    def nums(I, a, k):
        return ListObj([Scalar.sym(f"c{i}", pos=True) for i in range(a[0])])

    def check_counts(I, a, k):
        d, bits, counts, meas, n = a
        want = {}
        for b, c in zip(I.list_values(bits), I.list_values(counts)):
            key = tuple(int(b[q]) for q in meas)
            want[key] = want.get(key, Scalar({})) + c * Scalar.const(1 / n)
        compare_dist(d, want, S.ob.split("[")[0])

    # numpy.random.multinomial returns one count for every probability
    def multinomial(I, a, k):
        a = list(a) + [k[x] for x in ("n", "pvals") if x in k]
        box["draw"].append((a[0], [I.E.norm(I.to_scalar(x)) for x in I.list_values(a[1])]))
        return NP.NdArr([Scalar.sym(f"d{i}", pos=True) for i in range(len(box["draw"][-1][1]))], (len(box["draw"][-1][1]),), NP.dtype_of(I, "float64"))
    I.overrides["numpy.random", "multinomial"] = Native("multinomial", multinomial)

    def start_draw(I, a, k):
        box["draw"] = []

    def check_drawn(I, a, k):
        d, n, z, meas, shots = a
        what = S.ob.split("[")[0]
        if len(box["draw"]) != 1 or box["draw"][0][0] != shots:
            raise Finding("shots", what, f"draws {box['draw']} instead of one of {shots} shots")
        want = want_dist(n, z, meas)
        probs = box["draw"][0][1]
        got = {}
        for key, v in d.pairs():
            got[key_num(I, key, what)] = I.E.norm(I.to_scalar(v))
        for i, p in enumerate(probs):
            if p.is_zero():
                continue
            w = Scalar.sym(f"d{i}", pos=True) * Scalar.const(1 / shots)
            key = [q for q in got if s_equal(got[q], w)]
            if len(key) != 1:
                raise Finding("order", what, f"the count drawn with probability {p} belongs to {key}")
            if not s_equal(p, want.get(key[0], Scalar({}))):
                raise Finding("order", what, f"bits {key[0]} are drawn with probability {p}, not {want.get(key[0], 0)}")
        if set(want) - set(got):
            raise Finding("order", what, f"bits {sorted(set(want) - set(got))} are never drawn")

    # a stand-in for qiskit
    def native(f):
        return Native(f.__name__, f)

    def set_counts(I, a, k):
        box["counts"], box["exec"] = a[0], None

    def get_counts(I, a, k):
        return box["counts"]

    def execute(I, a, k):
        if not isinstance(a[0], Opaque):
            raise Finding("ibmq", "execute", "the job is not run on the circuit read from the OpenQASM text")
        box["exec"] = (k.get("shots", a[2] if len(a) > 2 else None), k.get("backend", a[1] if len(a) > 1 else None))
        res = ModuleObj("qiskit_result", "")
        res.f["get_counts"] = native(get_counts)
        job = ModuleObj("qiskit_job", "")
        job.f["result"] = Native("result", lambda I, a, k: res)
        return job

    def executed(I, a, k):
        return box["exec"]
    qk = ModuleObj("qiskit", "")
    aer, qc = ModuleObj("Aer", ""), ModuleObj("QuantumCircuit", "")
    aer.f["get_backend"] = Native("get_backend", lambda I, a, k: Opaque("backend:" + a[0]))
    qc.f["from_qasm_str"] = Native("from_qasm_str", lambda I, a, k: Opaque("circuit"))
    qk.f.update({"Aer": aer, "QuantumCircuit": qc, "execute": native(execute)})
    I.ext["qiskit"] = qk

    def check_counter(I, a, k):
        r, n, ones, shots = a
        what = S.ob.split("[")[0] + ":" + S.ob.split("[")[1].split(",")[0]
        items = [(key, v) for key, v in r.pairs()]
        if len(items) != 1 or items[0][1] != shots:
            raise Finding("order", what, f"{shots} shots of a circuit with one possible outcome give {r!r}")
        rs = runs(I, items[0][0])
        facts = [f for f in facts_of(I) if f[0] in ("ilt0", "ieq0")]
        hit = 0
        for ints in assignments([type("T", (), {"facts": facts})], P3):
            W.ints = ints
            if weight(facts, W) is None:
                continue
            hit += 1
            want = ["0"] * W.int(n)
            for q in ones:
                want[W.int(q)] = "1"
            if text(rs, W) != tuple(want):
                raise Finding("order", what, f"with 1 measured in the qubits {ones} of {n} the record is {items[0][0]!r}")
        if not hit:
            raise Undecided("no width realises the trace")

    P3 = Pos(3)
    W = World(1, P3)

    def positions(I, a, k):
        P3.enter(I)
        return tuple(P3.p), P3.n

    def width(I, a, k):
        Pos(1, a[0], (0,)).enter(I)

    S = Script(ck, I, SRC, positions=positions, width=width, state=state, check_dist=check_dist, numbers=numbers, check_numbers=check_numbers, nums=nums, check_counts=check_counts,
               start_draw=start_draw, check_drawn=check_drawn, set_counts=set_counts, executed=executed, check_counter=check_counter)
    for b in BACKENDS:
        args = [(b, s, m, k, how) for r in range(4) for s in itertools.combinations(range(3), r) for m in [(0,), (2,), (0, 1), (2, 0), (1, 2), (1, 0, 2), (2, 1, 0)]
                for k, how in ((1, "together"), (3, "each"), (2, "x again")) if how == "together" or len(m) > 1 or s in ((1,), (2,))]
        S.run("order", ["ob_counter"], args)
        S.run("order", ["ob_counter_slice"], [(b, n, s, lo, hi, st) for n in (1, 2, 3, 4) for s in [(0,), (n - 1,), tuple(range(0, n, 2))]
                                              for lo, hi, st in [(None, None, None), (1, None, None), (None, -1, None), (None, None, -1), (None, None, 2)]])
    zs = {1: [0, 1, 2], 2: list(range(15)), 3: [0, 0b10010110, 0b11101111, 0b01111111, 0b11110000]}
    if deep:
        zs[3] = list(range(0, 255, 7))
        zs[4] = [0, 0x5a5a, 0x7fff]
    for n in zs:
        for m in subsets(n):
            full = n < 3 or len(m) != 3 or m in ((2, 0, 1), (1, 2, 0), (0, 1, 2), (2, 1, 0))
            for z in zs[n] if full else [0]:
                for how in ("tuple", "iter", "list") if z == 0 else ("tuple",):
                    if how != "tuple" and n == 4:
                        continue
                    S.run("order", ["ob_expect"], [(n, z, m, how)])
                    if z in zs[n][:3]:
                        S.run("order", ["ob_non_sampling"], [(n, z, m, how)])
                        S.run("order", ["ob_state_vector_sampler"], [(n, z, m, how, 5)])
            S.run("order", ["ob_expect_phase"], [(n, m)])
            words = ["".join(map(str, b)) for b in order(n)]
            for bits in [words, words[1::2], words[:0:-1], words[-1:]]:
                bl = tuple(bits)
                for how in ("tuple", "iter"):
                    if how == "iter" and bits is not words:
                        continue
                    S.run("order", ["ob_measurement_sampler"], [(n, m, bl, how, 5, opt) for opt in ("default", "options")])
                    S.run("order", ["ob_qiskit_sampler"], [(n, m, bl, form, how, sh) for form in ("bits", "hex") for sh in ((None, 7) if form == "bits" else (7,))])
    for n in (1, 2, 3, 4):
        words = ["".join(map(str, b)) for b in order(n)]
        for bits in (words, words[1:2], words[::3], words[::-1]):
            S.run("order", ["ob_ibmq"], [(n, tuple(bits), sh, how) for sh in (None, 7) for how in ("named", "method", "default")])
            S.run("to_inttuple", ["ob_to_inttuple"], [(tuple(bits), f) for f in ("str", "dict", "Counter")])
    S.run("to_inttuple", ["ob_to_inttuple"], [((), f) for f in ("dict", "Counter")] + [(("", "0110100", "1" * 12), f) for f in ("str", "dict", "Counter")])
    S.run("to_inttuple", ["ob_to_inttuple_bad"], [(x,) for x in ("list", "int", "None", "text", "tuple")])
