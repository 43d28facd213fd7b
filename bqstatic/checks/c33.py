"""C33: the ibmq backend hands the circuit and the options to Qiskit and returns what was asked for."""
import itertools
from ..scen import *
from ..script import Script

RULE = ("Abstract interpretation of Circuit.run(backend='ibmq') and run_with_ibmq() on a stand-in for the qiskit module that records every call and returns arbitrary objects: the OpenQASM text read must be "
        "Circuit.to_qasm() of the same circuit, execute() must receive the circuit read from it, the given Qiskit backend (or Aer's qasm_simulator), the given number of shots (or 1024) and all other options "
        "unchanged, and each value of `returns` must give the documented object without starting work that it does not need; an unknown value raises ValueError before Qiskit is used.")
ASSUME = ["QuantumCircuit.from_qasm_str, execute, job.result and result.get_counts behave as Qiskit documents", "counts are keyed with classical bit 0 rightmost"]
HISTORY = True
MIN_OBLIGATIONS = 150
BATCH = True

SRC = '''
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting

def circuit(i):
    if i == 0:
        return Circuit(2).h[0].cx[0, 1].m[:]
    if i == 1:
        return Circuit(1).x[0]
    if i == 2:
        return Circuit(3).rx(0.25)[1].cu3(0.5, 0.25, 0.125)[0, 2].ccx[0, 1, 2].m[2]
    if i == 3:
        return Circuit(4).h[:].swap[0, 3].reset[1].m[1:3]
    if i == 4:
        return Circuit(12).x[10].m[11].m[1]
    return Circuit(1)

def call(c, how, kw):
    if how == "method":
        return c.run_with_ibmq(**kw)
    if how == "default":
        c.set_default_backend("ibmq")
        return c.run(**kw)
    return c.run(backend="ibmq", **kw)

def options(shots, backend, extra):
    kw = {}
    if shots == "none":
        kw["shots"] = None
    elif shots is not None:
        kw["shots"] = shots
    if backend == "given":
        kw["qiskit_backend"] = the("device")
    elif backend == "none":
        kw["qiskit_backend"] = None
    if extra:
        kw["optimization_level"] = tok("level")
        kw["memory"] = tok("memory")
    return kw

def check_job(log, c, shots, backend, extra):
    parsed = [x for x in log if x[0] == "parse"]
    jobs = [x for x in log if x[0] == "execute"]
    expect(len(parsed) == 1, "circuits read", parsed)
    expect(parsed[0][1] == c.to_qasm(), "the text read by Qiskit is not the circuit's OpenQASM", parsed)
    expect(len(jobs) == 1, "jobs started", jobs)
    circ, be, n, rest = jobs[0][1]
    expect(circ is the("circuit"), "the job is not run on the circuit read from the text", circ)
    if backend == "given":
        expect(be is the("device"), "the job does not run on the given backend", be)
    else:
        expect(be == "backend qasm_simulator", "the job does not run on Aer's qasm_simulator by default", be)
    expect(n == (1024 if shots in (None, "none") else shots), "shots of the job", n)
    if extra:
        expect(len(rest) == 2 and rest["optimization_level"] is tok("level") and rest["memory"] is tok("memory"), "further options of execute()", rest)
    else:
        expect(len(rest) == 0, "options of execute() that nobody gave", rest)

def ob_returns(i, how, returns, shots, backend, extra):
    c = circuit(i)
    h = snap(c.ops)
    kw = options(shots, backend, extra)
    if returns is not None:
        kw["returns"] = returns
    r = call(c, how, kw)
    log = calls()
    if returns == "qiskit_circuit":
        expect(r is the("circuit"), "returns='qiskit_circuit' gives another object", r)
        expect(len(log) == 1 and log[0][0] == "parse" and log[0][1] == c.to_qasm(), "returns='qiskit_circuit' does more than read the circuit", log)
    elif returns == "draw":
        expect(r is tok("drawing"), "returns='draw' gives another object", r)
        expect(len(log) == 2 and log[0][0] == "parse" and log[0][1] == c.to_qasm() and log[1][0] == "draw", "returns='draw' does more than draw the circuit", log)
        rest = log[1][1]
        expect(len(rest) == (2 if extra else 0), "options of draw()", rest)
        if extra:
            expect(rest["optimization_level"] is tok("level") and rest["memory"] is tok("memory"), "options of draw()", rest)
    else:
        check_job(log, c, shots, backend, extra)
        kinds = [x[0] for x in log]
        if returns == "qiskit_job":
            expect(r is the("job"), "returns='qiskit_job' gives another object", r)
            expect("result" not in kinds, "returns='qiskit_job' waits for the result", log)
        elif returns == "qiskit_result":
            expect(r is the("result"), "returns='qiskit_result' gives another object", r)
        else:
            expect(isinstance(r, Counter), "the counts are no Counter", r)
            want = counts()
            expect(len(r) == len(want), "entries of the counter", r)
            for k in want:
                expect(r[k[::-1]] == want[k], "the count of " + k, r)
    expect(unchanged(h, c.ops), "the run modifies the circuit")

def ob_none(how, extra):
    c = circuit(0)
    kw = options(3, "given", extra)
    kw["returns"] = "_exception"
    expect(call(c, how, kw) is None, "returns='_exception' without a failing import")
    expect([x[0] for x in calls() if x[0] != "parse"] == [], "returns='_exception' starts a job", calls())

def ob_unknown(how, v):
    c = circuit(0)
    kw = options(3, "given", False)
    kw["returns"] = v
    expect(raises(lambda: call(c, how, kw)) == "ValueError", "an unknown value of `returns` does not raise ValueError", v)
    expect(calls() == [] or [x[0] for x in calls()] == ["parse"], "an unknown value of `returns` starts a job", calls())

def ob_repeat(shots):
    """every run makes a job of its own for the circuit as it is then"""
    c = circuit(0)
    c.run(backend="ibmq", shots=shots)
    a = len(calls())
    c.x[2]
    c.run(backend="ibmq", shots=shots + 1, optimization_level=tok("level"), memory=tok("memory"))
    check_job(calls()[a:], c, shots + 1, None, True)
    b = len(calls())
    c.run(backend="ibmq")
    check_job(calls()[b:], c, None, None, False)
    d = Circuit(5).z[4]
    b = len(calls())
    d.run_with_ibmq(qiskit_backend=the("device"))
    check_job(calls()[b:], d, None, "given", False)
'''


def check(ck):
    I = ck.use(new_interp())
    box = {}

    def objects():
        res, job, circ = ModuleObj("result of the job", ""), ModuleObj("job", ""), ModuleObj("circuit", "")
        box.update(log=[], result=res, job=job, circuit=circ, device=ModuleObj("device", ""))
        box["counts"] = DictObj(I.bt["dict"])
        for k in ("0010", "1000", "0111"):
            I.dict_set(box["counts"], k, Scalar.sym("count " + k, ty="int"))

        def get_counts(I, a, k):
            box["log"].append(("get_counts", None))
            return box["counts"]

        def result(I, a, k):
            box["log"].append(("result", None))
            return res

        def draw(I, a, k):
            if a:
                raise Finding("draw", "draw", "positional options of draw()")
            box["log"].append(("draw", to_dict(k)))
            return S_tok("drawing")
        res.f["get_counts"] = Native("get_counts", get_counts)
        job.f["result"] = Native("result", result)
        circ.f["draw"] = Native("draw", draw)

    def to_dict(k):
        d = DictObj(I.bt["dict"])
        for x, v in k.items():
            I.dict_set(d, x, v)
        return d

    def parse(I, a, k):
        box["log"].append(("parse", a[0] if a else k["qasm_str"]))
        return box["circuit"]

    def execute(I, a, k):
        k = dict(k)
        names = ("experiments", "backend")
        for n, v in zip(names, a):
            k[n] = v
        if len(a) > 2:
            raise Finding("execute", "execute", "more than two positional arguments of execute()")
        circ, be, n = k.pop("experiments", None), k.pop("backend", None), k.pop("shots", None)
        box["log"].append(("execute", (circ, be, n, to_dict(k))))
        return box["job"]

    qk = ModuleObj("qiskit", "")
    aer, qc = ModuleObj("Aer", ""), ModuleObj("QuantumCircuit", "")
    aer.f["get_backend"] = Native("get_backend", lambda I, a, k: "backend " + a[0])
    qc.f["from_qasm_str"] = Native("from_qasm_str", parse)
    qk.f.update({"Aer": aer, "QuantumCircuit": qc, "execute": Native("execute", execute)})
    I.ext["qiskit"] = qk

    S = Script(ck, I, SRC, calls=lambda I, a, k: ListObj(list(box["log"])), the=lambda I, a, k: box[a[0]], counts=lambda I, a, k: box["counts"])
    S.on_start = objects

    def S_tok(x):
        return I.call(S.m.f["tok"], [x], {})
    hows = ("name", "method", "default")
    modes = (None, "shots", "draw", "qiskit_circuit", "qiskit_job", "qiskit_result")
    for how in hows:
        S.run("returns", ["ob_returns"], [(0, how, r, sh, b, x) for r in modes for sh in (None, 7) for b in (None, "given") for x in (False, True)])
        S.run("returns", ["ob_returns"], [(i, how, r, None, None, False) for i in (1, 2, 3, 4, 5) for r in modes])
        S.run("returns", ["ob_none"], [(how, x) for x in (False, True)])
        S.run("returns", ["ob_unknown"], [(how, v) for v in ("statevector", "", "Shots", "job", "statevector_and_shots", "circuit", 0)])
    S.run("returns", ["ob_returns"], [(2, "name", r, sh, b, True) for r in modes for sh in ("none", 0, 1, 1024, 1025) for b in ("none", "given")])
    S.run("repeat", ["ob_repeat"], [(s,) for s in (1, 7)])
