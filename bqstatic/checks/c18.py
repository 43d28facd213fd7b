from ..scen import *
from ..script import Script

RULE = ("Typestate/effect analysis of the three registries by abstract interpretation of BlueqatGlobalSetting and Circuit.__getattr__: for every kind of "
        "name (fresh, taken by a gate, an alias, a macro, a backend, a Circuit method, a circuit's own attribute, reserved) and every allow_overwrite form, "
        "a call either changes exactly the entry of that name or raises ValueError and changes nothing; what is registered is what circuits made before and "
        "after find under that name; unregistering removes exactly that entry.")
ASSUME = ["names are str; circuits are used through attribute access"]
MIN_OBLIGATIONS = 150

SRC = '''
import blueqat.circuit as C
from blueqat import Circuit, BlueqatGlobalSetting as S
from blueqat.gate import OneQubitGate, XGate
from blueqat.backends.backendbase import Backend

class VpGate(OneQubitGate):
    lowername = "vpgate"
class VpGate2(OneQubitGate):
    lowername = "vpgate2"
def vp_macro(c, *args, **kw):
    return ("first", c, args, kw)
def vp_macro2(c, *args, **kw):
    return ("second", c, args, kw)
class VpBackend(Backend):
    def run(self, gates, n_qubits, *args, **kwargs):
        return ("first", gates, n_qubits, args, kwargs)
class VpBackend2(Backend):
    def run(self, gates, n_qubits, *args, **kwargs):
        return ("second", gates, n_qubits, args, kwargs)

REG = {"macro": (S.register_macro, S.unregister_macro), "gate": (S.register_gate, S.unregister_gate), "backend": (S.register_backend, S.unregister_backend)}
VAL = {"macro": (vp_macro, vp_macro2), "gate": (VpGate, VpGate2), "backend": (VpBackend, VpBackend2)}

def table(kind):
    if kind == "macro":
        return dict(C.GLOBAL_MACROS)
    if kind == "gate":
        return dict(C.GATE_SET)
    return dict(C.BACKENDS)

def tables():
    return {"macro": table("macro"), "gate": table("gate"), "backend": table("backend")}

def same(a, b):
    """the same names with the identical values"""
    if set(a) != set(b):
        return False
    for k in a:
        if a[k] is not b[k]:
            return False
    return True

def all_same(a, b, but=None):
    for k in a:
        if k != but and not same(a[k], b[k]):
            return k
    return None

def plus(t, name, v):
    t = dict(t)
    t[name] = v
    return t

def minus(t, name):
    t = dict(t)
    del t[name]
    return t

def usable(kind, name, which, c):
    """does circuit c find the registered object under the name"""
    n = nat("n")
    word = ["first", "second"][which]
    if kind == "macro":
        r = getattr(c, name)(1, 2, k=3)
        expect(r[0] == word and r[1] is c and r[2] == (1, 2) and r[3] == {"k": 3}, "the macro is called with other arguments", r)
    elif kind == "gate":
        k0 = len(c.ops)
        r = getattr(c, name)[2]
        expect(r is c and len(c.ops) == k0 + 1 and type(c.ops[k0]) is VAL["gate"][which] and c.ops[k0].targets == 2, "the registered gate is not what the circuit appends", c.ops)
    else:
        r = c.run(4, backend=name, k=3)
        expect(r[0] == word and r[1] is c.ops and r[2] == c.n_qubits and r[3] == (4,) and r[4] == {"k": 3}, "run(backend=name) does not use the registered backend", r)
        r = getattr(c, "run_with_" + name)(4, k=3)
        expect(r[0] == word and r[1] is c.ops and r[2] == c.n_qubits and r[3] == (4,) and r[4] == {"k": 3}, "run_with_<name> does not use the registered backend", r)

def absent(kind, name, c):
    if kind == "backend":
        expect(raises(lambda: c.run(backend=name)) == "ValueError", "an unregistered backend can still be used")
        expect(raises(lambda: getattr(c, "run_with_" + name)) == "AttributeError", "run_with_<name> is still there")
    else:
        expect(raises(lambda: getattr(c, name)) == "AttributeError", "the unregistered name is still found on circuits")

def call(kind, name, v, form):
    if form == "":
        return REG[kind][0](name, v)
    if form == "False":
        return REG[kind][0](name, v, False)
    if form == "kw False":
        return REG[kind][0](name, v, allow_overwrite=False)
    if form == "True":
        return REG[kind][0](name, v, True)
    return REG[kind][0](name, v, allow_overwrite=True)

def ob_new(kind, name, form):
    """a free name"""
    before, old = tables(), Circuit(3)
    v, w = VAL[kind]
    call(kind, name, v, form)
    now = tables()
    expect(all_same(before, now, kind) is None, "another registry changed: " + str(all_same(before, now, kind)))
    expect(same(now[kind], plus(before[kind], name, v)), "the registry does not hold exactly one more entry", name)
    usable(kind, name, 0, old)
    usable(kind, name, 0, Circuit())
    # a second registration is refused and keeps the first
    for f in ["", "False", "kw False"]:
        expect(raises(lambda: call(kind, name, w, f)) == "ValueError", "a taken name is registered again")
        expect(all_same(now, tables()) is None, "a refused registration changes a registry")
    usable(kind, name, 0, Circuit())
    # ... but replaces it when overwriting is allowed
    for f in ["True", "kw True"]:
        call(kind, name, v, f)
        call(kind, name, w, f)
        expect(all_same(before, tables(), kind) is None, "overwriting changes another registry")
        expect(same(table(kind), plus(before[kind], name, w)), "overwriting does not replace exactly that entry", name)
        usable(kind, name, 1, Circuit())
        if kind != "backend":
            usable(kind, name, 1, old)
    # only its own registry can remove it
    for k in REG:
        if k != kind and name not in before[k]:
            expect(raises(lambda: REG[k][1](name)) == "ValueError", "unregister_" + k + " accepts a name of another registry")
            expect(same(table(kind), plus(before[kind], name, w)), "unregister_" + k + " removed the " + kind)
    REG[kind][1](name)
    expect(all_same(before, tables()) is None, "unregistering does not restore the registries", name)
    absent(kind, name, Circuit())
    if kind != "backend":
        absent(kind, name, old)
    expect(raises(lambda: REG[kind][1](name)) == "ValueError", "a name is unregistered twice")
    expect(all_same(before, tables()) is None, "a refused unregistration changes a registry", name)
    # free again
    call(kind, name, w, "")
    usable(kind, name, 1, Circuit())
    REG[kind][1](name)
    expect(all_same(before, tables()) is None, "unregistering does not restore the registries", name)

def ob_taken(kind, name, form):
    """a name the registry has to refuse"""
    before = tables()
    r = raises(lambda: call(kind, name, VAL[kind][0], form))
    expect(r == "ValueError", "register_" + kind + " accepts the name '" + name + "'", r)
    expect(all_same(before, tables()) is None, "a refused registration changes a registry", name)
    probes(name)

def ob_forced(kind, name, form):
    """... but takes when overwriting is allowed"""
    before = tables()
    call(kind, name, VAL[kind][0], form)
    now = tables()
    expect(all_same(before, now, kind) is None, "overwriting changes another registry", name)
    expect(same(now[kind], plus(before[kind], name, VAL[kind][0])), "register_" + kind + "(allow_overwrite=True) does not set exactly that entry", name)

def probes(name):
    """the circuit interface still works"""
    c = Circuit(1)
    c.x[1]
    expect(c.n_qubits == 2 and len(c.ops) == 1 and len(c.copy().ops) == 1, "the circuit interface is broken", name)

def ob_cross(first, second, form):
    """a name taken by one registry in another one"""
    name = "vpname"
    call(first, name, VAL[first][0], "")
    before = tables()
    if form in ("True", "kw True") or "backend" in (first, second):
        call(second, name, VAL[second][0], form)
        expect(all_same(before, tables(), second) is None and same(table(second), plus(before[second], name, VAL[second][0])), "registering beside another registry's entry")
        if "backend" in (first, second):
            usable(first, name, 0, Circuit())
            usable(second, name, 0, Circuit())
        REG[second][1](name)
        expect(all_same(before, tables()) is None, "unregistering touched another registry's entry")
        usable(first, name, 0, Circuit())
    else:
        expect(raises(lambda: call(second, name, VAL[second][0], form)) == "ValueError", "a name taken by a " + first + " is registered as a " + second)
        expect(all_same(before, tables()) is None, "a refused registration changes a registry")
        usable(first, name, 0, Circuit())

def ob_forced_cross(order):
    """a gate forced over a macro of the same name leaves the macro registered"""
    S.register_macro("vpname", vp_macro)
    S.register_gate("vpname", VpGate, allow_overwrite=True)
    if order == "gate":
        S.unregister_gate("vpname")
        usable("macro", "vpname", 0, Circuit())
    else:
        S.unregister_macro("vpname")
        usable("gate", "vpname", 0, Circuit())

def ob_missing(kind, name):
    before = tables()
    expect(raises(lambda: REG[kind][1](name)) == "ValueError", "unregister_" + kind + " accepts the unregistered name '" + name + "'")
    expect(all_same(before, tables()) is None, "a refused unregistration changes a registry")

def ob_remove_builtin(kind, name):
    """built-in entries can be removed and put back"""
    before = tables()
    v = before[kind][name]
    REG[kind][1](name)
    expect(all_same(before, tables(), kind) is None, "unregistering changes another registry")
    expect(same(table(kind), minus(before[kind], name)), "unregistering does not remove exactly that entry", name)
    absent(kind, name, Circuit())
    call(kind, name, v, "")
    expect(all_same(before, tables()) is None, "registering the removed entry again does not restore the registry", name)

def ob_remove_backend():
    before = tables()
    S.register_backend("vpname", VpBackend)
    S.remove_backend("vpname")
    expect(all_same(before, tables()) is None, "remove_backend does not restore the registry")
    absent("backend", "vpname", Circuit())
    expect(raises(lambda: S.remove_backend("vpname")) == "ValueError", "remove_backend of an unregistered name")

def ob_two(kind):
    """two names do not interfere"""
    before = tables()
    v, w = VAL[kind]
    REG[kind][0]("vpa", v)
    REG[kind][0]("vpb", w)
    c = Circuit()
    usable(kind, "vpa", 0, c)
    usable(kind, "vpb", 1, c)
    usable(kind, "vpa", 0, c)
    REG[kind][1]("vpa")
    absent(kind, "vpa", Circuit())
    usable(kind, "vpb", 1, c)
    expect(same(table(kind), plus(before[kind], "vpb", w)), "the other name was changed")

def ob_class_attribute(form):
    """run_with_<name> defined as a method blocks that backend name"""
    before = tables()
    Circuit.run_with_vpname = vp_macro
    if form in ("True", "kw True"):
        call("backend", "vpname", VpBackend, form)
        expect(same(table("backend"), plus(before["backend"], "vpname", VpBackend)), "register_backend(allow_overwrite=True)")
    else:
        expect(raises(lambda: call("backend", "vpname", VpBackend, form)) == "ValueError", "a backend takes the name of an existing run_with_ method")
        expect(all_same(before, tables()) is None, "a refused registration changes a registry")

def ob_new_attribute(kind, form):
    """an attribute added to the class later is taken too"""
    before = tables()
    Circuit.vpname = vp_macro
    expect(raises(lambda: call(kind, "vpname", VAL[kind][0], form)) == "ValueError", "register_" + kind + " accepts the name of a Circuit attribute")
    expect(all_same(before, tables()) is None, "a refused registration changes a registry")

def ob_macro_forms():
    """the documented ways to define a macro"""
    def f(c, a, b=5):
        return c.rx(a)[b]
    S.register_macro("vpname", f)
    c = Circuit().h[0].vpname(sym("t"), b=2).x[1]
    expect([g.lowername for g in c.ops] == ["h", "rx", "x"] and c.ops[1].targets == 2 and c.ops[1].params[0] == sym("t") and c.n_qubits == 3, "a macro in a chain", c.ops)
    S.register_macro("vplambda", lambda c: c.z[0])
    expect(len(c.vplambda().ops) == 4, "a macro without arguments")

def ob_unknown_gate(name):
    expect(raises(lambda: getattr(Circuit(), name)) == "AttributeError", "an unknown name is found on circuits", name)
'''


def check(ck):
    I = ck.use(new_interp())
    S = Script(ck, I, SRC)
    gates = [k for k, _ in I.attr_path("blueqat.circuit", "GATE_SET").pairs()]
    backs = [k for k, _ in I.attr_path("blueqat.circuit", "BACKENDS").pairs()]
    reg = ("macro", "gate", "backend")
    R = "registry"
    free = ["vpname", "VPName", "X", "_vp", "run_vp", "xrun_with_vp", "mm", "xx2", "Measure"]
    S.run(R, ["ob_new"], [(k, n, f) for k in reg for n in free for f in ("", "False", "kw False", "True", "kw True") if f == "" or n == "vpname"])
    S.run(R, ["ob_new"], [("backend", n, "") for n in ("x", "run", "vp_macro", "run_with_vp", "n_qubits")])
    S.run(R, ["ob_new"], [(k, "numpy", "") for k in ("macro", "gate")])
    taken = ["run", "copy", "dagger", "to_qasm", "to_unitary", "make_cache", "set_default_backend", "get_default_backend_name", "__init__", "__class__",
             "__add__", "ops", "n_qubits", "run_with_vp", "run_with_", "run_with_numpy", "run_with_numba"] + gates
    S.run(R, ["ob_taken"], [(k, n, f) for k in ("macro", "gate") for n in taken for f in ("", "False", "kw False") if f == "" or n in ("run", "ops", "run_with_vp", "x", "cnot")])
    S.run(R, ["ob_taken"], [("backend", n, f) for n in backs for f in ("", "False", "kw False")])
    forced = ["run", "copy", "ops", "run_with_vp", "x", "cnot", "m"]
    S.run(R, ["ob_forced"], [(k, n, f) for k in ("macro", "gate") for n in forced for f in ("True", "kw True")])
    S.run(R, ["ob_forced"], [("backend", n, f) for n in backs for f in ("True", "kw True")])
    S.run(R, ["ob_cross"], [(a, b, f) for a in reg for b in reg if a != b for f in ("", "False", "kw False", "True", "kw True")])
    S.run(R, ["ob_forced_cross"], [("gate",), ("macro",)])
    S.run(R, ["ob_missing"], [(k, n) for k in reg for n in ("vpname", "run", "ops", "")] + [("macro", "x"), ("gate", "numpy"), ("backend", "x"), ("macro", "numpy")])
    S.run(R, ["ob_remove_builtin"], [("gate", n) for n in gates] + [("backend", n) for n in backs])
    S.run(R, ["ob_two"], [(k,) for k in reg])
    S.run(R, ["ob_class_attribute"], [("",), ("kw False",), ("kw True",)])
    S.run(R, ["ob_new_attribute"], [(k, f) for k in ("macro", "gate") for f in ("", "kw False")])
    S.run(R, ["ob_remove_backend", "ob_macro_forms"])
    S.run(R, ["ob_unknown_gate"], [("vpname",), ("run_with_vpname",), ("X",), ("cx2",)])
