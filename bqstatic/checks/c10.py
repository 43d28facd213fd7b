"""C10: OpenQASM output means the same circuit."""
import itertools
from .. import qasm, ref
from ..scen import *
from ..script import Script
from ..stoch import World, assignments, facts_of, weight
from ..models import Hole, RepStr, StrT

RULE = ("Abstract interpretation of the qasm_output backend and of the backends built on it for every entry of GATE_SET with symbolic parameters at generic qubit positions of a circuit of "
        "generic width; the text, a template with holes for the symbolic numbers, is read as OpenQASM 2.0 and every statement is expanded to U and CX by its definition in qelib1.inc. "
        "The program must have the circuit's registers and perform the oracle's unitaries (up to a global phase), measurements and resets in order on the same qubits.")
ASSUME = ["qubits lie inside the circuit and the circuit has at least one qubit", "parameters are real; the shortest text of a float denotes that float",
          "cu2 and cu3 are read as blueqat's gates of these names after reporting the known difference from qelib1"]
HISTORY = True
NO_HISTORY = ("custom",)
MIN_OBLIGATIONS = 500
BATCH = True

SRC = '''
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.circuit import GATE_SET
from blueqat.gate import OneQubitGate, Gate, XGate, HGate, CXGate, Measurement, Reset
import numpy as np
import math

def pick(x, pos):
    """the nested tuple x of operand numbers at the positions"""
    if isinstance(x, tuple):
        return tuple(pick(y, pos) for y in x)
    if isinstance(x, list):
        return [pick(y, pos) for y in x]
    return pos[x]

def add(c, name, npar, tg):
    g = getattr(c, name)
    ps = [sym("t" + str(i)) for i in range(npar)]
    if npar:
        g = g(*ps)
    return g[tg]

def ob_gate(name, npar, tg, ops):
    pos, n = positions()
    c = Circuit(n)
    h = snap(c.ops)
    add(c, name, npar, pick(tg, pos))
    s = snap(c.ops, c.n_qubits)
    t = c.to_qasm()
    expect(unchanged(s, c.ops, c.n_qubits), "to_qasm() modifies the circuit", c.ops)
    ps = [sym("t" + str(i)) for i in range(npar)]
    means(t, n, [(name, ps, pick(o, pos)) for o in ops])

def ob_slice(name, npar, n, tg, ops):
    width(n)
    c = Circuit(n)
    add(c, name, npar, tg)
    ps = [sym("t" + str(i)) for i in range(npar)]
    means(c.to_qasm(), c.n_qubits, [(name, ps, o) for o in ops])

def ob_sequence(steps):
    width(3)
    c = Circuit(3)
    want = []
    k = 0
    for name, npar, qs in steps:
        g = getattr(c, name)
        ps = [sym("t" + str(k + i)) for i in range(npar)]
        k += npar
        if npar:
            g = g(*ps)
        g[qs]
        want.append((name, ps, qs if isinstance(qs, tuple) else (qs,)))
    means(c.to_qasm(), 3, want)

def ob_value(name, kind, npar):
    v = values(kind)
    c = Circuit(2)
    ps = v[:npar]
    getattr(c, name)(*ps)[0 if arity(name) == 1 else (0, 1)]
    means(c.to_qasm(), 2, [(name, ps, tuple(range(arity(name))))])

def some(n):
    return Circuit(n).h[0].rz(sym("t0"))[n - 1].cx[0, n - 1].m[:].reset[0]

def some_ops(n):
    return [("h", [], (0,)), ("rz", [sym("t0")], (n - 1,)), ("cx", [], (0, n - 1))] + [("measure", [], (i,)) for i in range(n)] + [("reset", [], (0,))]

def ob_prologue(how, n):
    c = some(n)
    pro = True
    if how == "to_qasm":
        t = c.to_qasm()
    elif how == "to_qasm(True)":
        t = c.to_qasm(True)
    elif how == "to_qasm(kw True)":
        t = c.to_qasm(output_prologue=True)
    elif how == "run":
        t = c.run(backend="qasm_output")
    elif how == "run_with":
        t = c.run_with_qasm_output()
    elif how == "default":
        c.set_default_backend("qasm_output")
        t = c.run()
    else:
        pro = False
        if how == "to_qasm(False)":
            t = c.to_qasm(False)
        elif how == "to_qasm(kw False)":
            t = c.to_qasm(output_prologue=False)
        elif how == "run False":
            t = c.run(backend="qasm_output", output_prologue=False)
        else:
            t = c.run_with_qasm_output(False)
    means(t, n, some_ops(n), prologue=pro)

def ob_without_gates(n, pro):
    means(Circuit(n).to_qasm(output_prologue=pro), n, [], prologue=pro)

def ob_again():
    width(2)
    c = Circuit(2)
    b = Circuit(3).x[1]
    c.h[0]
    t1 = c.to_qasm()
    means(t1, 2, [("h", [], (0,))])
    c.to_qasm(False)
    means(b.to_qasm(), 3, [("x", [], (1,))])
    c.cz[0, 1]
    means(c.to_qasm(), 2, [("h", [], (0,)), ("cz", [], (0, 1))])
    c.x[3]
    means(c.to_qasm(), 4, [("h", [], (0,)), ("cz", [], (0, 1)), ("x", [], (3,))])
    d = c.copy()
    d.y[0]
    means(d.to_qasm(), 4, [("h", [], (0,)), ("cz", [], (0, 1)), ("x", [], (3,)), ("y", [], (0,))])
    means(c.to_qasm(), 4, [("h", [], (0,)), ("cz", [], (0, 1)), ("x", [], (3,))])
    means((b + c).to_qasm(), 4, [("x", [], (1,)), ("h", [], (0,)), ("cz", [], (0, 1)), ("x", [], (3,))])
    means(Circuit(2).s[0].t[1].dagger().to_qasm(), 2, [("tdg", [], (1,)), ("sdg", [], (0,))])

def ob_options_of_gates():
    c = Circuit(2)
    c.rx(sym("t0"), option=tok("any"))[0].m(key="k")[1]
    means(c.to_qasm(), 2, [("rx", [sym("t0")], (0,)), ("measure", [], (1,))])

class Bell(Gate):
    lowername = "vpbell"
    def __init__(self, targets, **kwargs):
        super().__init__(targets, (), **kwargs)
    def fallback(self, n_qubits):
        a, b = self.targets
        return [HGate(a), CXGate((a, b)), Measurement((b, a)), XGate(b)]
    def dagger(self):
        return self

class Outer(Gate):
    lowername = "vpouter"
    def __init__(self, targets, **kwargs):
        super().__init__(targets, (), **kwargs)
    def fallback(self, n_qubits):
        a, b = self.targets
        return [Bell((b, a)), XGate(slice(None)), Reset(a)]
    def dagger(self):
        return self

class Nothing(Gate):
    lowername = "vpnothing"
    def __init__(self, targets, **kwargs):
        super().__init__(targets, (), **kwargs)
    def dagger(self):
        return self

def ob_custom(which):
    width(3)
    BlueqatGlobalSetting.register_gate("vpbell", Bell)
    BlueqatGlobalSetting.register_gate("vpouter", Outer)
    BlueqatGlobalSetting.register_gate("vpnothing", Nothing)
    bell = lambda a, b: [("h", [], (a,)), ("cx", [], (a, b)), ("measure", [], (b,)), ("measure", [], (a,)), ("x", [], (b,))]
    if which == "bell":
        means(Circuit(3).x[0].vpbell[2, 0].z[1].to_qasm(), 3, [("x", [], (0,))] + bell(2, 0) + [("z", [], (1,))])
    elif which == "nested":
        means(Circuit(3).vpouter[2, 0].to_qasm(), 3, bell(0, 2) + [("x", [], (0,)), ("x", [], (1,)), ("x", [], (2,)), ("reset", [], (2,))])
    else:
        c = Circuit(3).x[0].vpnothing[1]
        expect(raises(c.to_qasm) is not None, "a gate that has no OpenQASM form is left out")

def ob_parsable(how):
    from blueqat.backends.qasm_parser_backend_generator import generate_backend
    got = []
    res = tok("result")
    def runner(text, *args, **kwargs):
        got.append((text, args, kwargs))
        return res
    BlueqatGlobalSetting.register_backend("vpparsable", generate_backend(runner), allow_overwrite=True)
    c = some(2)
    a, k = tok("argument"), tok("option")
    if how == "run":
        r = c.run(backend="vpparsable", shots=k)
    elif how == "positional":
        r = c.run_with_vpparsable(a, shots=k)
    elif how == "twice":
        c.run(backend="vpparsable", shots=tok("other"))
        c.copy().x[0].run(backend="vpparsable")
        got.clear()
        r = c.run(backend="vpparsable", shots=k)
    else:
        c.set_default_backend("vpparsable")
        r = c.run(shots=k)
    expect(r is res, "the result is not what the runner returns", r)
    expect(len(got) == 1, "calls of the runner", got)
    t, args, kwargs = got[0]
    expect(len(kwargs) == 1 and kwargs["shots"] is k, "the options are not handed to the runner", kwargs)
    if how == "positional":
        expect(len(args) == 1 and args[0] is a, "the arguments are not handed to the runner", args)
    else:
        expect(len(args) == 0, "the runner gets arguments nobody gave", args)
    means(t, 2, some_ops(2))
'''

ALL_PARAMS = [Scalar.sym(f"t{i}") for i in range(6)]


def concrete(I, v, w, marks):
    """text of a template in a world; symbolic parameters become marks"""
    if isinstance(v, str):
        return v
    if not isinstance(v, StrT):
        raise Finding("syntax", "to_qasm", f"the output is {v!r}, no text")

    def part(p):
        if isinstance(p, str):
            return p
        if isinstance(p, RepStr):
            return "".join(part(x) for x in p.parts) * max(0, w.int(p.count))
        if isinstance(p, Hole):
            x = p.val
            if isinstance(x, (int, SymInt)) and not isinstance(x, bool):
                if p.spec not in ("", "d"):
                    raise Undecided(f"format {p.spec} of an integer")
                return str(w.int(x))
            if isinstance(x, str):
                return x
            if I.is_num(x) or isinstance(x, Scalar):
                if not lossless(p.spec):
                    raise Finding("parameters", "to_qasm", f"a parameter is written with the format {p.spec!r}, which does not keep its value")
                k = f"\x01{len(marks)}\x02"
                marks[k] = I.to_scalar(x)
                return k
        raise Undecided(f"part {p!r} of the text")
    return "".join(part(p) for p in v.parts)


def lossless(spec):
    if spec in ("", "r", "s"):
        return True
    if spec[0] in "+- ":
        spec = spec[1:]
    if spec.startswith(".") and spec[1:-1].isdigit():
        return spec[-1] in "gG" and int(spec[1:-1]) >= 17 or spec[-1] in "eE" and int(spec[1:-1]) >= 16
    return False


def check(ck):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", "blueqat.backends.qasm_output_backend", "blueqat.backends.qasm_parser_backend_generator")))
    box = {}
    names = {}
    gs = I.attr_path("blueqat.circuit", "GATE_SET")
    for name, cls in gs.pairs():
        ref_name = ref.ALIASES.get(name, name)
        if ref_name in ref.GATES or ref_name in ("measure", "reset"):
            names[name] = (ref_name, *((ref.GATES[ref_name][0], len(ref.GATES[ref_name][1])) if ref_name in ref.GATES else (1, 0)))
        else:
            ck.notes.append({"gate_without_oracle": name})

    def oracle(name, ps, qs, w, own=False):
        r = ref.ALIASES.get(name, name)
        if r == "measure":
            return ("measure", qs[0], qs[0])
        if r == "reset":
            return ("reset", qs[0])
        nq, pn, fn = ref.GATES[r]
        return ("U", w.mat(fn(*[I.E.norm(I.to_scalar(p)) for p in ps])), tuple(qs))

    def meaning(prog, w, own):
        out = []
        for o in prog:
            if o[0] != "gate":
                out.append(o)
                continue
            _, name, vals, qs = o
            if name in own:
                fn = ref.GATES[name][2]
                out.append(("U", w.mat(fn(*[Scalar.const(v) for v in vals])), tuple(qs)))
            else:
                seq = []
                qasm.expand(name, vals, qs, seq)
                out += [("U", U, q) for U, q in seq]
        return out

    def means(I, a, k):
        t, n, ops = a
        prologue = k.get("prologue", True)
        what = S.ob.split("[")[0] + ":" + S.ob.split("[")[1].split(",")[0].rstrip("]") if "[" in S.ob else S.ob
        ops = [(o[0], I.list_values(o[1]), list(I.list_values(o[2]))) for o in I.list_values(ops)]
        used = {ref.ALIASES.get(o[0], o[0]) for o in ops}
        facts = [f for f in facts_of(I) if f[0] in ("ilt0", "ieq0")]
        P = box.get("P") or Pos(1, 1, (0,))
        hit = 0
        odds = set()
        for ints in assignments([type("T", (), {"facts": facts})], P):
            for seed in (1, 2):
                w = World(seed, P)
                w.ints = ints
                if weight(facts, w) is None:
                    continue
                hit += 1
                marks = {}
                txt = concrete(I, t, w, marks)
                env = {m: w.val(I.E.norm(s)) for m, s in marks.items()}
                N = w.int(n)
                want = [oracle(nm, ps, [w.int(q) for q in qs], w) for nm, ps, qs in ops]
                own = {"cu2"} & used
                try:
                    prog = qasm.parse(txt, env, prologue, N, own)
                except qasm.Bad as e:
                    raise Finding("syntax", what, f"{e}; the text is {t!r}")
                d = qasm.difference(meaning(prog, w, ()), want) if not any(o[0] == "gate" and o[1] in own for o in prog) else "cu2"
                if d is None:
                    continue
                # the documented differences of cu2 and cu3 from qelib1.inc
                odd = sorted({o[1] for o in prog if o[0] == "gate" and o[1] in ("cu2", "cu3")} & used)
                e = qasm.difference(meaning(prog, w, odd), want) if odd else d
                if e is not None:
                    raise Finding("meaning", what, f"{e}; the text is {t!r}")
                odds |= set(odd)
        if not hit:
            raise Undecided("no width realises the trace")
        if "cu2" in odds:
            raise Finding("qelib1", "cu2", "the statement cu2(phi,lambda) is emitted, but qelib1.inc defines no cu2")
        if "cu3" in odds:
            raise Finding("qelib1", "cu3", "cu3(theta,phi,lambda) of qelib1.inc differs from the circuit's gate by the phase (phi+lambda)/2 on the control qubit")

    def positions(I, a, k):
        P = Pos(3)
        box["P"] = P
        P.enter(I)
        return tuple(P.p), P.n

    def width(I, a, k):
        box["P"] = Pos(1, a[0], (0,))
        box["P"].enter(I)

    def values(I, a, k):
        import math
        v = {"ints": (1, -2, 0), "floats": (0.5, -1.25, 2.5), "small": (1e-7, -3.5e-05, 1e-3), "big": (123456789.125, -1e6, 7e3), "pi": (math.pi, -math.pi / 2, math.pi / 4),
             "np": tuple(Scalar.const(x) for x in (0.5, -0.25, 3.0))}[a[0]]
        return tuple(v)

    S = Script(ck, I, SRC, means=means, positions=positions, width=width, values=values, arity=lambda I, a, k: names[a[0]][1])

    def start():
        box.pop("P", None)
    S.on_start = start
    L = ListObj
    for name, (r, nq, npar) in names.items():
        if nq == 1:
            tg = [(1, ((1,),)), ((2, 0), ((2,), (0,))), ((0, 1, 2), ((0,), (1,), (2,))), ((), ())]
        elif nq == 2:
            tg = [((a, b), ((a, b),)) for a, b in itertools.permutations(range(3), 2)]
            tg += [(((0, 1), (2, 1)), ((0, 2), (1, 1))), (((2, 1, 0), (1, 0, 2)), ((2, 1), (1, 0), (0, 2))), ((0, (1, 2)), None), (((1, 2), 0), None)]
            tg = [(t, o if all(len(set(x)) == 2 for x in o) else None) for t, o in tg if o] + [(((0, 1), (2, 0)), ((0, 2), (1, 0))), (((1, 2), (0, 1)), ((1, 0), (2, 1)))]
            tg = [(t, o) for t, o in tg if o]
        else:
            tg = [(p, (p,)) for p in itertools.permutations(range(3))]
        S.run("meaning", ["ob_gate"], [(name, npar, t, o) for t, o in tg])
        sl = slices(nq)
        S.run("meaning", ["ob_slice"], [(name, npar, n, t, o) for n, t, o in sl])
        if npar:
            S.run("meaning", ["ob_value"], [(name, kind, npar) for kind in ("ints", "floats", "small", "big", "pi", "np")])
    order = sorted(names)
    qs = {1: [0, 2, 1], 2: [(0, 1), (2, 0), (1, 2)], 3: [(0, 1, 2), (2, 0, 1), (1, 2, 0)]}

    def step(nm, i):
        r, nq, npar = names[nm]
        return (nm, npar, qs[nq][i % 3])
    seqs = []
    for i, a in enumerate(order):
        for j, b in enumerate(order):
            if deep or (i + j) % 5 == 0 or b in ("measure", "reset") or a in ("measure", "reset"):
                if not {a, b} & {"cu2", "cu3"}:
                    seqs.append((step(a, i), step(b, j + i)))
        if a not in ("cu2", "cu3"):
            seqs.append((step("measure", 0), step(a, 0), step("measure", 0), step(a, 1), step("reset", 2)))
            seqs.append((step(a, 0), step(a, 1), step(a, 0)))
    S.run("order", ["ob_sequence"], [(s,) for s in seqs])
    S.run("prologue", ["ob_prologue"], [(h, n) for h in ("to_qasm", "to_qasm(True)", "to_qasm(kw True)", "run", "run_with", "default", "to_qasm(False)", "to_qasm(kw False)", "run False", "run_with False")
                                        for n in (2, 3)])
    S.run("prologue", ["ob_without_gates"], [(n, p) for n in (1, 4) for p in (True, False)])
    S.run("order", ["ob_again", "ob_options_of_gates"])
    S.run("fallback", ["ob_custom"], [("bell",), ("nested",), ("nothing",)])
    S.run("parsable", ["ob_parsable"], [(h,) for h in ("run", "positional", "twice", "default")])


def slices(nq):
    """[(width, target, operand tuples)]"""
    from ..core import SliceObj
    out = []
    if nq == 1:
        for n in (1, 2, 3):
            for lo, hi, st in [(None, None, None), (1, None, None), (None, -1, None), (None, None, -1), (None, None, 2)]:
                w = max(n, (lo or 0) + 1) if lo is not None else n
                out.append((n, SliceObj(lo, hi, st), tuple((q,) for q in range(w)[lo:hi:st])))
        out += [(3, -1, ((2,),)), (3, (-3, 1), ((0,), (1,))), (3, (SliceObj(None, 2, None), -1), ((0,), (1,), (2,)))]
        return out
    if nq == 2:
        return [(4, (SliceObj(None, 2, None), SliceObj(2, None, None)), ((0, 2), (1, 3))), (3, (SliceObj(None, -1, None), SliceObj(1, None, None)), ((0, 1), (1, 2))),
                (3, (-1, 0), ((2, 0),)), (3, (SliceObj(None, None, -1), (1, 2, 0)), ((2, 1), (1, 2), (0, 0)))][:3]
    return []
