from ..scen import *
from ..script import Script

RULE = ("Dataflow of the backend choice by abstract interpretation of Circuit.run, make_cache, run_with_*, to_qasm, to_unitary, set_default_backend, copy and "
        "dagger: recording backends are registered and every combination and order of explicit backend, circuit default and global default is "
        "interpreted; the backend object that receives the call, how often it was created, and the arguments it receives must be the chosen ones.")
ASSUME = ["make_cache takes a backend by name (objects are only accepted by run)"]
MIN_OBLIGATIONS = 80

SRC = '''
import blueqat.circuit as C
from blueqat import Circuit, BlueqatGlobalSetting as S
from blueqat.backends.backendbase import Backend

LOG = []
class Rec(Backend):
    label = "base"
    def __init__(self):
        LOG.append(("new", self.label, self))
    def run(self, gates, n_qubits, *args, **kwargs):
        LOG.append(("run", self.label, self, gates, n_qubits, args, kwargs))
        return (self.label, "result")
    def make_cache(self, gates, n_qubits):
        LOG.append(("cache", self.label, self, gates, n_qubits))
class RecA(Rec):
    label = "vpa"
class RecB(Rec):
    label = "vpb"
class RecC(Rec):
    label = "vpc"
S.register_backend("vpa", RecA)
S.register_backend("vpb", RecB)
S.register_backend("vpc", RecC)
class Numpy(Rec):
    label = "numpy"
S.register_backend("numpy", Numpy, allow_overwrite=True)

def prepare(circ, glob, order):
    c = None
    for step in order:
        if step == "c":
            c = Circuit(nat("n"), [tok("op")])
        elif step == "l" and circ != "-":
            c.set_default_backend(None if circ == "None" else circ)
        elif step == "g" and glob != "-":
            S.set_default_backend(glob)
    return c

def want(explicit, circ, glob):
    if explicit not in ("-", "None"):
        return explicit
    if circ not in ("-", "None"):
        return circ
    return glob if glob != "-" else "numpy"

def news(label):
    return len([e for e in LOG if e[0] == "new" and e[1] == label])

def calls():
    return [e for e in LOG if e[0] != "new"]

def check_call(e, kind, label, c, args, kw):
    expect(e[0] == kind and e[1] == label, "the " + kind + " call went to '" + str(e[1]) + "' (" + e[0] + "), expected '" + label + "'")
    expect(same_ops(e[3], c.ops) and e[4] == c.n_qubits, "the backend does not get the circuit's operations and width")
    if kind == "run":
        expect(len(e[5]) == len(args) and len(e[6]) == len(kw), "other arguments reach the backend", e[5], e[6])
        for a, b in zip(e[5], args):
            expect(a is b, "positional arguments are changed", e[5])
        for k in kw:
            expect(k in e[6] and e[6][k] is kw[k], "keyword arguments are changed", e[6])

def same_ops(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y:
            return False
    return True

def ob_run(explicit, circ, glob, order):
    c = prepare(circ, glob, order)
    w = want(explicit, circ, glob)
    p, q, r = tok("p"), tok("q"), tok("r")
    LOG.clear()
    if explicit == "-":
        res = c.run(p, q, shots=r, foo=q)
    else:
        res = c.run(p, q, backend=None if explicit == "None" else explicit, shots=r, foo=q)
    expect(res == (w, "result"), "result of run", res)
    expect(len(calls()) == 1, "number of backend calls", len(calls()))
    check_call(calls()[0], "run", w, c, (p, q), {"shots": r, "foo": q})
    expect(c.get_default_backend_name() == want("-", circ, glob), "default backend name", c.get_default_backend_name())
    expect(S.get_default_backend_name() == (glob if glob != "-" else "numpy"), "global default backend name", S.get_default_backend_name())
    # once more: the same backend object, created once
    c.run(backend=None if explicit in ("-", "None") else explicit)
    expect(calls()[1][2] is calls()[0][2] and news(w) == 1, "the backend is created again for the second run", news(w))
    check_call(calls()[1], "run", w, c, (), {})
    expect(len([e for e in LOG if e[0] == "new"]) == 1, "other backends are created", LOG)

def ob_cache(explicit, circ, glob, order):
    c = prepare(circ, glob, order)
    w = want(explicit, circ, glob)
    LOG.clear()
    if explicit == "-":
        c.make_cache()
    else:
        c.make_cache(backend=None if explicit == "None" else explicit)
    expect(len(calls()) == 1, "number of backend calls", len(calls()))
    check_call(calls()[0], "cache", w, c, (), {})
    # the run that follows uses the backend object that was prepared
    if explicit == "-":
        c.run()
    else:
        c.run(backend=None if explicit == "None" else explicit)
    expect(calls()[1][2] is calls()[0][2] and news(w) == 1, "run does not use the backend object that make_cache prepared")

def ob_positional_cache():
    c = prepare("vpa", "vpb", "clg")
    LOG.clear()
    c.make_cache("vpc")
    check_call(calls()[0], "cache", "vpc", c, (), {})

def ob_object(circ, glob):
    c = prepare(circ, glob, "clg")
    b = RecC()
    LOG.clear()
    p, q = tok("p"), tok("q")
    res = c.run(p, backend=b, foo=q)
    expect(len(LOG) == 1 and LOG[0][2] is b, "the given backend object is not used")
    check_call(LOG[0], "run", "vpc", c, (p,), {"foo": q})
    c.run(backend=b)
    expect(len(LOG) == 2 and LOG[1][2] is b, "the given backend object is not used again")
    # and it does not become anybody's default
    LOG.clear()
    c.run()
    expect(calls()[0][1] == want("-", circ, glob) and calls()[0][2] is not b, "the explicit object replaced the default")
    LOG.clear()
    c.run(backend="vpc")
    expect(calls()[0][2] is not b and news("vpc") == 1, "the explicit object replaced the circuit's own backend of that name")

def ob_run_with(name, circ, glob):
    c = prepare(circ, glob, "clg")
    p, q = tok("p"), tok("q")
    LOG.clear()
    res = getattr(c, "run_with_" + name)(p, foo=q)
    expect(res == (name, "result"), "result of run_with_", res)
    expect(len(calls()) == 1, "number of backend calls", len(calls()))
    check_call(calls()[0], "run", name, c, (p,), {"foo": q})
    expect(c.get_default_backend_name() == want("-", circ, glob), "run_with_ changed the default")
    c.run(backend=name)
    expect(calls()[1][2] is calls()[0][2] and news(name) == 1, "run_with_ and run(backend=) use different backend objects")
    # a runner taken before operations are appended runs the circuit as it is at the call
    r = getattr(c, "run_with_" + name)
    c.x[0]
    r()
    check_call(calls()[2], "run", name, c, (), {})

def ob_exports(which):
    """to_qasm and to_unitary use their backend whatever the defaults are"""
    name = "qasm_output" if which == "to_qasm" else "sympy_unitary"
    class R(Rec):
        label = name
    S.register_backend(name, R, allow_overwrite=True)
    c = prepare("vpa", "vpb", "clg")
    p, q = tok("p"), tok("q")
    LOG.clear()
    res = getattr(c, which)(p, foo=q)
    expect(res == (name, "result"), "result of " + which, res)
    check_call(calls()[0], "run", name, c, (p,), {"foo": q})

def ob_global_later():
    """the global default counts at the time of the call"""
    c = Circuit()
    for b in ["vpa", "vpb", "vpa", "numpy"]:
        S.set_default_backend(b)
        LOG.clear()
        c.run()
        c.make_cache()
        expect([e[1] for e in calls()] == [b, b], "the global default at the time of the call is not used", [e[1] for e in calls()])
        expect(c.get_default_backend_name() == b and S.get_default_backend_name() == b, "names of the defaults")

def ob_local_changes():
    c, d = Circuit(), Circuit()
    S.set_default_backend("vpc")
    for b in ["vpa", "vpb", None, "vpa", None, "numpy"]:
        c.set_default_backend(b)
        LOG.clear()
        c.run()
        d.run()
        w = "vpc" if b is None else b
        expect([e[1] for e in calls()] == [w, "vpc"], "the circuit's default is not its own", [e[1] for e in calls()])
        expect(c.get_default_backend_name() == w and d.get_default_backend_name() == "vpc", "names of the defaults")
        expect(S.get_default_backend_name() == "vpc", "a circuit's default changes the global one")

def ob_unknown(before):
    c = prepare(before, "vpb", "clg")
    expect(raises(lambda: c.set_default_backend("vpnone")) == "ValueError", "a circuit accepts an unknown default backend")
    expect(c.get_default_backend_name() == want("-", before, "vpb"), "a refused default changes the circuit's default")
    expect(raises(lambda: S.set_default_backend("vpnone")) == "ValueError", "an unknown global default backend is accepted")
    expect(S.get_default_backend_name() == "vpb", "a refused global default changes the default")
    LOG.clear()
    c.run()
    expect(calls()[0][1] == want("-", before, "vpb"), "a refused default changes the backend used")
    expect(raises(lambda: c.run(backend="vpnone")) == "ValueError", "run accepts an unknown backend")
    expect(raises(lambda: c.make_cache(backend="vpnone")) == "ValueError", "make_cache accepts an unknown backend")
    expect(raises(lambda: c.run_with_vpnone) == "AttributeError", "run_with_ of an unknown backend")
    c.run()
    expect(calls()[1][2] is calls()[0][2] and len(calls()) == 2, "a refused backend changes the circuit")

def ob_copy(how, circ):
    c = prepare(circ, "vpb", "clg")
    if how == "copy":
        d, keeps = c.copy(), True
    elif how == "copy_default_backend=True":
        d, keeps = c.copy(copy_default_backend=True), True
    elif how == "copy_backends=False":
        d, keeps = c.copy(copy_backends=False), True
    elif how == "copy_default_backend=False":
        d, keeps = c.copy(copy_default_backend=False), False
    elif how == "copy False False":
        d, keeps = c.copy(False, False), False
    elif how == "copy False True":
        d, keeps = c.copy(False, True), True
    elif how == "dagger":
        c.ops.clear()
        d, keeps = c.dagger(), True
    elif how == "dagger copy_backends=True":
        c.ops.clear()
        d, keeps = c.dagger(copy_backends=True), True
    elif how == "dagger copy_default_backend=False":
        c.ops.clear()
        d, keeps = c.dagger(copy_default_backend=False), False
    else:
        d, keeps = c + Circuit(), True
    w = want("-", circ if keeps else "-", "vpb")
    expect(d.get_default_backend_name() == w, "default backend of the copy", d.get_default_backend_name())
    LOG.clear()
    d.run()
    expect(calls()[0][1] == w, "backend used by the copy", calls()[0][1])
    # the two are independent afterwards
    d.set_default_backend("vpc")
    expect(c.get_default_backend_name() == want("-", circ, "vpb"), "setting the copy's default changes the original's")
    c.set_default_backend("vpa")
    expect(d.get_default_backend_name() == "vpc", "setting the original's default changes the copy's")

def ob_separate():
    """circuits do not share backend objects"""
    c, d = Circuit(), Circuit()
    LOG.clear()
    c.run(backend="vpa")
    d.run(backend="vpa")
    expect(calls()[0][2] is not calls()[1][2] and news("vpa") == 2, "two circuits share one backend object")
    c.run(backend="vpb")
    c.run(backend="vpa")
    expect(calls()[3][2] is calls()[0][2] and news("vpa") == 2 and news("vpb") == 1, "the backend is created again after another one was used")

def ob_registered_later():
    c = Circuit()
    expect(raises(lambda: c.run(backend="vplate")) == "ValueError", "an unregistered backend")
    class L(Rec):
        label = "vplate"
    S.register_backend("vplate", L)
    LOG.clear()
    c.run(backend="vplate")
    c.set_default_backend("vplate")
    c.run()
    expect([e[1] for e in calls()] == ["vplate", "vplate"] and news("vplate") == 1, "a backend registered later")

def ob_result_none():
    """whatever the backend returns is returned"""
    v = tok("v")
    class R(Rec):
        def run(self, gates, n_qubits, *args, **kwargs):
            return v
    S.register_backend("vpr", R)
    expect(Circuit().run(backend="vpr") is v and Circuit().run_with_vpr() is v and Circuit().run(backend=R()) is v, "the backend's result is not returned")

def ob_function_backend():
    """a registered factory is called without arguments, once for each circuit"""
    made = []
    def factory():
        made.append(1)
        return RecA()
    S.register_backend("vpf", factory)
    c = Circuit()
    c.run(backend="vpf")
    c.run_with_vpf()
    expect(len(made) == 1, "the factory is called again", len(made))
'''


def check(ck):
    I = ck.use(new_interp())
    S = Script(ck, I, SRC)
    R = "selection"
    ex = ["-", "None", "vpc", "vpa"]
    ci = ["-", "None", "vpa"]
    gl = ["-", "vpb"]
    args = [(e, c, g, o) for e in ex for c in ci for g in gl for o in (("clg", "cgl", "gcl") if g != "-" and c != "-" else ("clg", "gcl") if g != "-" else ("clg",))]
    S.run(R, ["ob_run", "ob_cache"], args)
    S.run(R, ["ob_positional_cache"])
    S.run(R, ["ob_object"], [(c, g) for c in ci for g in gl])
    S.run(R, ["ob_run_with"], [(n, c, g) for n in ("vpc", "vpa") for c in ci for g in gl])
    S.run(R, ["ob_exports"], [("to_qasm",), ("to_unitary",)])
    S.run(R, ["ob_unknown"], [("-",), ("vpa",), ("None",)])
    hows = ["copy", "copy_default_backend=True", "copy_backends=False", "copy_default_backend=False", "copy False False", "copy False True",
            "dagger", "dagger copy_backends=True", "dagger copy_default_backend=False", "add"]
    S.run(R, ["ob_copy"], [(h, c) for h in hows for c in ("-", "vpa")])
    S.run(R, ["ob_global_later", "ob_local_changes", "ob_separate", "ob_registered_later", "ob_result_none", "ob_function_backend"])
