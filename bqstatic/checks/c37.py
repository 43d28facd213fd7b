"""C37: a back end written against Backend receives the circuit's operations, or their fallbacks, in order."""
import itertools
from ..scen import *
from ..script import Script

RULE = ("Abstract interpretation of Backend's default flow with recording back ends that implement different sets of gate actions: the preprocessing must receive the circuit's operations, width and arguments, "
        "every operation it returns must reach the action of its name exactly once and in order, or else (recursively) the operations of its fallback for the circuit's width, each action must receive what the one before returned, "
        "and the postprocessing's value must be the result; without action and fallback NotImplementedError is raised. Expected sequences are built from the gates' own fallbacks by an independent recursion.")
ASSUME = ["actions return the context they are given or another one", "the postprocessing is observed with a context that the actions change in place"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
import blueqat.circuit as C
import blueqat.gate as G
from blueqat import Circuit, BlueqatGlobalSetting as S
from blueqat.backends.backendbase import Backend

ALL = ("i", "x", "y", "z", "h", "t", "s", "tdg", "sdg", "rx", "ry", "rz", "phase", "u1", "u2", "u3", "cx", "cy", "cz", "ch", "crx", "cry", "crz", "cphase", "cu1", "cu2", "cu3", "swap",
       "rxx", "ryy", "rzz", "ccx", "cswap", "reset", "measure", "vpnew", "vpold")
SETS = {
    "all": ALL,
    "universal": ("u3", "cx", "rz", "h", "rx", "ry", "phase", "cphase", "measure", "reset", "x", "z", "cz"),
    "small": ("u1", "u2", "u3", "cx", "cu3", "rz", "phase", "cphase", "u", "h", "measure"),
    "no toffoli": tuple(n for n in ALL if n not in ("ccx", "cswap", "swap", "rxx", "ryy", "rzz", "t", "tdg", "s", "sdg")),
    "bare": ("cx", "rz", "rx", "ry", "h", "phase"),
    "none": (),
}

class New(G.OneQubitGate):
    """a user's gate with a fallback"""
    lowername = "vpnew"
    def __init__(self, targets, theta, **kwargs):
        super().__init__(targets, (theta,), **kwargs)
        self.theta = theta
    def fallback(self, n_qubits):
        EXTRA.append(("fallback", self, n_qubits))
        return [G.HGate(self.targets), New2(self.targets), G.RZGate(self.targets, self.theta)]

class New2(G.OneQubitGate):
    lowername = "vpinner"
    def __init__(self, targets, **kwargs):
        super().__init__(targets, (), **kwargs)
    def fallback(self, n_qubits):
        EXTRA.append(("fallback", self, n_qubits))
        return [G.CXGate((t, n_qubits - 1)) for t in self.target_iter(n_qubits) if t != n_qubits - 1]

class Old(G.OneQubitGate):
    """a user's gate without fallback"""
    lowername = "vpold"
    def __init__(self, targets, **kwargs):
        super().__init__(targets, (), **kwargs)

S.register_gate("vpnew", New)
S.register_gate("vpold", Old)
EXTRA = []
LOG = []

class Ctx:
    def __init__(self, k):
        self.k = k
        self.names = []

def recorder(name, fresh):
    def action(self, gate, ctx):
        LOG.append((name, gate, ctx))
        ctx.names.append(name)
        if fresh:
            return Ctx(ctx.k + 1)
        return ctx
    return action

def backend(which, fresh):
    class Rec(Backend):
        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            LOG.append(("pre", gates, n_qubits, args, kwargs, self))
            return self.other(gates), Ctx(0)
        def other(self, gates):
            return gates
        def _postprocess_run(self, ctx):
            LOG.append(("post", ctx))
            return ("result", ctx)
    for n in SETS[which]:
        setattr(Rec, "gate_" + n, recorder(n, fresh))
    return Rec

def circuit(k):
    if k == 0:
        return Circuit(2).h[0].cx[0, 1].m[:]
    if k == 1:
        return Circuit(3).x[0].rz(0.25)[:2].ccx[0, 1, 2].swap[0, 2].t[1].sdg[:].cu3(0.5, 0.25, 0.125)[2, 0]
    if k == 2:
        return Circuit(4).vpnew(0.5)[1].h[:].vpnew(0.25)[0, 2].vpnew(1.5)[3]
    if k == 3:
        return Circuit(4).rxx(0.5)[0, 1].ryy(0.25)[(0, 1), (2, 3)].rzz(1)[3, 0].cswap[0, 1, 2].crx(0.5)[1, 2].cu1(0.3)[0, 1].u2(0.1, 0.2)[3].y[-1]
    if k == 4:
        return Circuit(2)
    if k == 5:
        return Circuit(2).h[0].vpold[1].x[0]
    if k == 6:
        return Circuit(5).reset[1].tdg[0, 3].ch[0, 1].cy[(0, 1), (2, 3)].s[::2].u1(0.25)[4].measure[1, 3]
    return Circuit(1).h[0].x[0].h[0].x[0].h[0]

def expand(gates, n, names):
    """the operations in terms of gates with an action; None when there are none"""
    res = []
    for g in gates:
        if g.lowername in names:
            res.append(g)
        else:
            try:
                f = g.fallback(n)
            except NotImplementedError:
                return res, True
            r, bad = expand(f, n, names)
            res += r
            if bad:
                return res, True
    return res, False

def same_gates(got, want):
    expect(len(got) == len(want), "operations that reach the actions", got, want)
    for a, b in zip(got, want):
        expect(type(a) is type(b) and a.lowername == b.lowername and a.targets == b.targets and a.params == b.params, "operation of an action", a, b)

def run_it(c, b, how, args, kw):
    if how == "object":
        return c.run(*args, backend=b(), **kw)
    if how == "name":
        S.register_backend("vprec", b, allow_overwrite=True)
        return c.run(*args, backend="vprec", **kw)
    if how == "method":
        S.register_backend("vprec", b, allow_overwrite=True)
        return c.run_with_vprec(*args, **kw)
    return b().run(c.ops, c.n_qubits, *args, **kw)

def ob_flow(k, which, fresh, how):
    c = circuit(k)
    want, bad = expand(c.ops, c.n_qubits, SETS[which])
    h = snap(c.ops)
    a, x = tok("arg"), tok("kwarg")
    LOG.clear()
    EXTRA.clear()
    b = backend(which, fresh)
    e = None
    try:
        r = run_it(c, b, how, (a,), {"opt": x})
    except NotImplementedError as err:
        e = err
    expect((e is not None) == bad, "NotImplementedError of an operation without action and fallback", bad)
    pre = LOG[0]
    expect(pre[0] == "pre" and len([l for l in LOG if l[0] == "pre"]) == 1, "preprocessing", LOG)
    expect(len(pre[1]) == len(c.ops) and all(p is q for p, q in zip(pre[1], c.ops)), "operations the preprocessing gets", pre[1])
    expect(pre[2] == c.n_qubits, "width the preprocessing gets", pre[2])
    expect(len(pre[3]) == 1 and pre[3][0] is a and len(pre[4]) == 1 and pre[4]["opt"] is x, "arguments the preprocessing gets", pre[3], pre[4])
    acts = [l for l in LOG if l[0] not in ("pre", "post")]
    # what happens before the run fails is not specified, but nothing else may
    same_gates([l[1] for l in acts], want[:len(acts)] if bad else want)
    for l in acts:
        expect(l[0] == l[1].lowername, "the operation reaches the action of another name", l)
    for i in range(len(acts)):
        expect(acts[i][2].k == (i if fresh else 0), "the context of an action is not what the action before returned", i, acts[i][2].k)
    direct = [l[1] for l in acts if l[1] in c.ops]
    for g in c.ops:
        if g.lowername in SETS[which] and not bad:
            expect(len([d for d in direct if d is g]) == 1, "an operation with an action does not reach it once", g)
    for f in EXTRA:
        expect(f[2] == c.n_qubits, "width given to a fallback", f)
    if not bad:
        expect(LOG[-1][0] == "post" and len([l for l in LOG if l[0] == "post"]) == 1, "postprocessing", LOG)
        expect(isinstance(r, tuple) and r[0] == "result", "the result is not the postprocessing's", r)
        if not fresh:
            expect(LOG[-1][1].names == [g.lowername for g in want], "the postprocessing gets another context", LOG[-1][1].names)
            expect(r[1] is LOG[-1][1], "the result is not the postprocessing's", r)
    else:
        expect(len([l for l in LOG if l[0] == "post"]) == 0, "postprocessing after an operation that cannot be run")
    expect(unchanged(h, c.ops), "the run modifies the circuit")

def ob_replaced(k, which, keep):
    """the preprocessing replaces the operations"""
    c = circuit(k)
    other = [G.HGate(0), G.CXGate((0, 1)), G.RZGate(1, 0.5), G.PhaseGate(0, 0.25)]
    class Sub(backend(which, False)):
        def other(self, gates):
            return other + list(gates) if keep else other
    LOG.clear()
    r = c.run(backend=Sub())
    want, bad = expand(other + (c.ops if keep else []), c.n_qubits, SETS[which])
    same_gates([l[1] for l in LOG if l[0] not in ("pre", "post")], want)

def ob_flatten(k, which):
    c = circuit(k)
    b = backend(which, False)()
    want, bad = expand(c.ops, c.n_qubits, SETS[which])
    if hasattr(b, "_resolve_fallback"):
        try:
            r = b._resolve_fallback(c.ops, c.n_qubits)
            expect(not bad, "NotImplementedError of an operation without action and fallback")
            same_gates(r, want)
        except NotImplementedError:
            expect(bad, "NotImplementedError although every operation can be run")
    if hasattr(b, "_has_action"):
        for g in c.ops:
            expect(b._has_action(g) == (g.lowername in SETS[which]), "_has_action", g)

def ob_plain(k):
    """a back end that defines actions only"""
    c = circuit(k)
    got = []
    class Plain(Backend):
        def __init__(self):
            self.got = got
    def act(self, gate, ctx):
        expect(ctx is None, "default context", ctx)
        self.got.append(gate)
    for n in SETS["universal"] + ("ccx", "swap", "cu3", "y", "s", "t", "tdg", "sdg", "cu1", "crx", "cry"):
        setattr(Plain, "gate_" + n, act)
    r = c.run(5, backend=Plain(), shots=3)
    expect(r is None, "result without a postprocessing", r)
    want, bad = expand(c.ops, c.n_qubits, SETS["universal"] + ("ccx", "swap", "cu3", "y", "s", "t", "tdg", "sdg", "cu1", "crx", "cry"))
    expect(not bad, "scenario")
    same_gates(got, want)

def ob_none(how):
    """a back end without any action cannot run anything but the empty circuit"""
    class Nothing(Backend):
        pass
    c = Circuit(3)
    expect(c.run(backend=Nothing()) is None, "run of an empty circuit")
    expect(raises(lambda: c.x[0].run(backend=Nothing())) == "NotImplementedError", "an operation that cannot be run")
    expect(Nothing().make_cache(c.ops, 3) is None and Nothing().clear_cache() is None, "default caches")

def ob_overridden():
    """a back end that defines run itself"""
    class Own(Backend):
        def run(self, gates, n_qubits, *args, **kwargs):
            return (gates, n_qubits, args, kwargs)
        def _run(self, *a):
            fail("_run is called although run is overridden")
    c = circuit(1)
    r = c.run(1, 2, backend=Own(), returns="x")
    expect(len(r[0]) == len(c.ops) and r[1] == 3 and r[2] == (1, 2) and r[3] == {"returns": "x"}, "arguments of run", r)

def ob_copy():
    class State(Backend):
        def __init__(self):
            self.data = {"a": [1, 2]}
            self.n = 3
    b = State()
    d = b.copy()
    expect(type(d) is State and d is not b and d.n == 3 and d.data == {"a": [1, 2]}, "copy of a back end", d)
    d.data["a"].append(3)
    d.n = 4
    expect(b.data == {"a": [1, 2]} and b.n == 3, "the copy of a back end shares its state", b.data)

def ob_inherited():
    """actions may be inherited or live on the instance"""
    base = backend("bare", False)
    class Mixin:
        def gate_ccx(self, gate, ctx):
            LOG.append(("ccx", gate, ctx))
            return ctx
    class Sub(Mixin, base):
        def __init__(self):
            self.gate_swap = self.own
        def own(self, gate, ctx):
            LOG.append(("swap", gate, ctx))
            return ctx
    c = Circuit(3).ccx[0, 1, 2].swap[0, 1].h[2].ccx[2, 1, 0]
    LOG.clear()
    c.run(backend=Sub())
    expect([l[0] for l in LOG] == ["pre", "ccx", "swap", "h", "ccx", "post"], "actions", [l[0] for l in LOG])
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.gate", "blueqat.circuit", "blueqat.backends.backendbase")))
    S = Script(ck, I, SRC)
    sets = ("all", "universal", "small", "no toffoli", "bare", "none")
    S.run("flow", ["ob_flow"], [(k, w, f, "object") for k in range(8) for w in sets for f in (False, True)])
    S.run("flow", ["ob_flow"], [(k, w, f, how) for k in (1, 2, 5) for w in ("all", "universal", "bare") for f in (False, True) for how in ("name", "method", "direct")])
    S.run("flow", ["ob_replaced"], [(k, w, kp) for k in (0, 2, 4) for w in ("all", "no toffoli") for kp in (False, True)])
    S.run("flow", ["ob_flatten"], [(k, w) for k in range(8) for w in sets])
    S.run("flow", ["ob_plain"], [(k,) for k in (0, 1, 4, 7)])
    S.run("flow", ["ob_none"], [("x",)])
    S.run("flow", ["ob_overridden", "ob_copy", "ob_inherited"], [()])
