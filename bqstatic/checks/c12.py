from ..scen import *
from ..script import Script

RULE = ("Typestate/effect analysis by abstract interpretation of Circuit, _GateWrapper and the gate constructors: for every entry of GATE_SET, from a "
        "circuit of generic width holding generic operations, Circuit.<name>(<generic parameters>)[<generic targets>] must append exactly one "
        "operation of exactly the registered class with those targets, parameters and keyword options, return the same circuit, and set the width "
        "to max(old width, highest index + 1); + and += must concatenate in order with the larger width.")
ASSUME = ["qubit indices are ints (or objects with __index__)"]
HISTORY = True
MIN_OBLIGATIONS = 80

SRC = '''
from blueqat import Circuit
from blueqat.circuit import GATE_SET

def mk(n):
    return Circuit(n, [tok("op1"), tok("op2")])

def params(npar):
    return [sym("p0"), sym("p1"), sym("p2")][:npar]

def ob_append(name, npar, tg):
    n = nat("n")
    c = mk(n)
    ops0 = c.ops
    a, b, d = nat("a"), nat("b"), nat("d")
    targets, top = target(tg, a, b, d)
    ps = params(npar)
    w = getattr(c, name)
    if npar:
        w = w(*ps)
    r = w[targets]
    expect(r is c, "the call does not return the circuit it was made on")
    expect(len(c.ops) == 3, "number of operations after appending one to two", len(c.ops))
    expect(c.ops[0] is tok_at(0) and c.ops[1] is tok_at(1), "earlier operations were moved or replaced")
    g = c.ops[2]
    expect(type(g) is GATE_SET[name], "the appended operation is not of the registered class", type(g))
    expect(type(g) is expected_class(name), "the name is registered for another operation", type(g))
    expect(same_key(g.targets, targets), "the operation does not hold the given targets", g.targets)
    expect(len(g.params) == npar, "number of parameters of the operation", g.params)
    for x, y in zip(g.params, ps):
        expect(x == y, "the operation does not hold the given parameters", g.params)
    expect(len(g.kwargs) == 0, "keyword options that nobody gave", g.kwargs)
    m = n
    for t in top:
        if t + 1 > m:
            m = t + 1
    expect(c.n_qubits == m, "width after appending", c.n_qubits, m)

def target(tg, a, b, d):
    if tg == "q":
        return a, [a]
    if tg == "(q,r)":
        return (a, b), [a, b]
    if tg == "(q,r,s)":
        return (a, b, d), [a, b, d]
    if tg == "pairs":
        return ((a, b), (d, a)), [a, b, d]
    if tg == "neg":
        return -1 - a, []
    if tg == "()":
        return (), []
    if tg == ":":
        return slice(None, None, None), []
    if tg == "a:b":
        return slice(a, b, None), [a, b - 1]
    if tg == "(:b,q)":
        return (slice(None, b), d), [b - 1, d]
    raise ValueError(tg)

def ob_kwargs(name, npar):
    c = Circuit(0)
    v = tok("v")
    getattr(c, name)(*params(npar), option=v)[(0, 1) if name != "ccx" else (0, 1, 2)]
    g = c.ops[0]
    expect(len(c.ops) == 1 and len(g.kwargs) == 1 and g.kwargs["option"] is v, "keyword options are not kept", g.kwargs)

def ob_keyword_params(name, names):
    c = Circuit(0)
    kw = {}
    i = 0
    for k in names:
        kw[k] = params(3)[i]
        i += 1
    getattr(c, name)(**kw)[0, 1]
    g = c.ops[0]
    expect(len(g.params) == len(names) and len(g.kwargs) == 0, "parameters given by name", g.params)
    for x, y in zip(g.params, params(3)):
        expect(x == y, "parameters given by name are mixed up", g.params)

def ob_params_once(name):
    """a wrapper that is called again uses the latest parameters; wrappers do not leak parameters into each other"""
    c = Circuit(2)
    p, q = sym("p0"), sym("p1")
    c.rx(p)[0].x[1].rx(q)[1]
    expect([type(g).lowername for g in c.ops] == ["rx", "x", "rx"], "operations out of order")
    expect(c.ops[0].params[0] == p and len(c.ops[1].params) == 0 and c.ops[2].params[0] == q, "parameters leak between operations")

def ob_indexed_twice():
    c = Circuit(0)
    g = c.x
    g[3]
    g[1]
    expect(len(c.ops) == 2 and c.ops[0].targets == 3 and c.ops[1].targets == 1 and c.n_qubits == 4, "two uses of one wrapper", c.n_qubits)

def ob_add(order):
    n, m = nat("n"), nat("m")
    a = mk(n)
    b = Circuit(m, [tok("op3")])
    if order == "+":
        c = a + b
    elif order == "+=":
        c = a
        c += b
    else:
        c = a.copy()
        c += b
    w = n
    if m > w:
        w = m
    expect(len(c.ops) == 3 and c.ops[0] is tok_at(0) and c.ops[1] is tok_at(1) and c.ops[2] is tok_at(2), "concatenation does not keep the operations in order", c.ops)
    expect(c.n_qubits == w, "width of the concatenation", c.n_qubits)

def ob_add_self():
    a = mk(nat("n"))
    b = a + a
    expect(len(b.ops) == 4 and len(a.ops) == 2 and b.ops[2] is tok_at(0) and b.ops[1] is tok_at(1), "a + a", b.ops)

def ob_add_other():
    try:
        Circuit(1) + 3
    except TypeError:
        pass
    else:
        fail("a circuit plus a number")

def ob_init():
    c = Circuit()
    expect(c.n_qubits == 0 and len(c.ops) == 0, "the empty circuit")
    d = Circuit()
    d.x[0]
    expect(len(c.ops) == 0 and len(Circuit().ops) == 0, "circuits share their operations")
    n = nat("n")
    expect(Circuit(n).n_qubits == n, "the given width")
    e = Circuit(n).x[0]
    if n < 1:
        n = 1
    expect(e.n_qubits == n, "the given width is lost")

def ob_copy_width():
    n = nat("n")
    c = mk(n)
    d = c.copy()
    expect(d.n_qubits == n and len(d.ops) == 2 and d.ops[0] is tok_at(0) and d.ops[1] is tok_at(1), "copy")
'''

NPAR = {"rx": 1, "ry": 1, "rz": 1, "r": 1, "phase": 1, "crx": 1, "cry": 1, "crz": 1, "cr": 1, "cphase": 1, "u1": 1, "u2": 2, "u3": 3,
        "cu1": 1, "cu2": 2, "cu3": 3, "rxx": 1, "ryy": 1, "rzz": 1}
LAMBD = {"u1": ["lambd"], "u2": ["phi", "lambd"], "u3": ["theta", "phi", "lambd"], "cu1": ["lambd"], "cu2": ["phi", "lambd"], "cu3": ["theta", "phi", "lambd"]}
CLASSES = {"i": "i", "x": "x", "y": "y", "z": "z", "h": "h", "t": "t", "tdg": "tdg", "s": "s", "sdg": "sdg", "cz": "cz", "cx": "cx", "cnot": "cx",
           "cy": "cy", "ch": "ch", "rx": "rx", "ry": "ry", "rz": "rz", "r": "phase", "phase": "phase", "crx": "crx", "cry": "cry", "crz": "crz",
           "cr": "cphase", "cphase": "cphase", "u1": "u1", "u2": "u2", "u3": "u3", "cu1": "cu1", "cu2": "cu2", "cu3": "cu3", "swap": "swap",
           "rxx": "rxx", "ryy": "ryy", "rzz": "rzz", "ccx": "ccx", "toffoli": "ccx", "cswap": "cswap", "reset": "reset", "measure": "measure", "m": "measure"}
TWO = {"cz", "cx", "cnot", "cy", "ch", "crx", "cry", "crz", "cr", "cphase", "cu1", "cu2", "cu3", "swap", "rxx", "ryy", "rzz"}
THREE = {"ccx", "toffoli", "cswap"}


def check(ck):
    I = ck.use(new_interp())
    toks = [Opaque("any:op1"), Opaque("any:op2"), Opaque("any:op3")]
    byname = {"op1": 0, "op2": 1, "op3": 2}
    gset = I.attr_path("blueqat.circuit", "GATE_SET")
    names = {k: v for k, v in gset.pairs()}
    for n in CLASSES:
        if n not in names:
            raise AnchorLost(f"gate {n!r} is no longer in the gate set")
    low = {}
    for v in names.values():
        low.setdefault(I.getattr(v, "lowername"), v)
    S = Script(ck, I, SRC, tok=lambda I, a, k: toks[byname[a[0]]] if a[0] in byname else Opaque("any:" + a[0]),
               tok_at=lambda I, a, k: toks[a[0]],
               expected_class=lambda I, a, k: _cls(I, names, CLASSES.get(a[0])))
    for n in names:
        if n not in CLASSES:
            continue
        tgs = ["()", "q", "(q,r)", ":", "a:b", "(:b,q)", "neg"] if n not in TWO | THREE else ["(q,r)", "pairs"] if n in TWO else ["(q,r,s)"]
        S.run("append", ["ob_append"], [(n, NPAR.get(n, 0), t) for t in tgs])
        S.run("append", ["ob_kwargs"], [(n, NPAR.get(n, 0))])
        if NPAR.get(n):
            S.run("append", ["ob_keyword_params"], [(n, ListObj(LAMBD.get(n, ["theta"])))])
    S.run("append", ["ob_params_once"], [("rx",)])
    S.run("append", ["ob_indexed_twice", "ob_init", "ob_copy_width"])
    S.run("concatenate", ["ob_add"], [("+",), ("+=",), ("copy+=",)])
    S.run("concatenate", ["ob_add_self", "ob_add_other"])


def _cls(I, names, low):
    """the class whose own lowername is the one the name stands for"""
    for v in names.values():
        if I.getattr(v, "lowername") == low:
            return v
    raise Finding("append", "GATE_SET:" + str(low), f"no entry of the gate set has lowername {low!r}")
