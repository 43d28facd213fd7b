from ..gatesem import *

RULE = ("Exhaustive product of the gate-set table and the bundled backends: for every name in GATE_SET and every backend (numpy, numba, sympy_unitary, "
        "qasm_output) the dispatch of Circuit.<name>(...)[...].run(backend=...) is interpreted abstractly with generic angles; every path must reach a "
        "result, i.e. each dispatch ends in an implemented gate action after finitely many decompositions and no path raises. Aliases must denote the same class.")
ASSUME = ["sympy and numba are installed when their backends are used"]
HISTORY = True
MIN_OBLIGATIONS = 150
BACK = ["numpy", "numba", "sympy_unitary", "qasm_output"]
ARITY = {}
SRC = '''
from blueqat import Circuit
def run(name, ps, tg, backend, n):
    c = Circuit(n)
    g = getattr(c, name)
    if len(ps) > 0:
        g = g(*ps)
    g[tg]
    return c.run(backend=backend)
def twice(name, ps, tg, backend):
    c = Circuit()
    g = getattr(c, name)
    if len(ps) > 0:
        g = g(*ps)
    g[tg]
    c.run(backend=backend)
    c.h[0]
    return c.run(backend=backend)
'''


def forms(nq):
    if nq == 1:
        return [("q", 1), ("last", -1), ("two", (0, 2)), ("slice", SliceObj(None, None, None)), ("none", ())]
    if nq == 2:
        return [("pair", (2, 0)), ("negative", (-1, 0)), ("pairs", ((0, 1), (1, 2))), ("slices", (SliceObj(None, 2, None), SliceObj(1, None, None)))]
    return [("triple", (2, 0, 1))]


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.backends._numba_backend_impl")))
    m = source(I, SRC)
    gset = I.attr_path("blueqat.circuit", "GATE_SET")
    table = dict(gset.pairs())
    backs = [k for k, _ in I.attr_path("blueqat.circuit", "BACKENDS").pairs()]
    for b in BACK:
        if b not in backs:
            raise AnchorLost(f"backend {b!r} is not registered")
    for a, t in ref.ALIASES.items():
        def go(a=a, t=t):
            if a not in table or t not in table:
                raise Finding("alias", f"GATE_SET:{a}", f"{a if a not in table else t} is missing from the gate set")
            if table[a] is not table[t]:
                raise Finding("alias", f"GATE_SET:{a}", f"{a} does not denote the same operation as {t}")
        ck.oblige(I, f"alias {a} = {t}", go)
    for name, cls in table.items():
        low = I.getattr(cls, "lowername")
        if low in ref.GATES:
            nq, pn, _ = ref.GATES[low]
        elif low in ("measure", "reset"):
            nq, pn = 1, ()
        else:
            nq, pn = guess(I, cls)
            if nq is None:
                ck.notes.append({"unknown_signature": name})
                continue
        ps = tuple(Scalar.sym(x) for x in ("a", "b", "c")[:len(pn)])
        for b in BACK:
            for label, tg in forms(nq):
                def go(name=name, tg=tg, b=b, ps=ps):
                    I.width = 3
                    I.positions = []
                    try:
                        I.call(m.f["run"], [name, ps, tg, b, 3], {})
                    except PyRaise as e:
                        raise Finding("not-executable", f"{b}:{name}", describe(e))
                if name in ref.ALIASES and label != forms(nq)[0][0]:
                    continue
                ck.oblige(I, f"{name} on {b} ({label})", go)

            def go2(name=name, tg=forms(nq)[0][1], b=b, ps=ps, nq=nq):
                I.width = 3
                I.positions = []
                try:
                    I.call(m.f["twice"], [name, ps, tg if nq > 1 else 1, b], {})
                except PyRaise as e:
                    raise Finding("not-executable", f"{b}:{name}", "in a second run: " + describe(e))
            if name not in ref.ALIASES:
                ck.oblige(I, f"{name} on {b} (run, append, run)", go2)


def describe(e):
    from ..check import explain_raise
    return explain_raise(e)


def guess(I, cls):
    """operand and parameter counts of a gate added to the gate set"""
    gm = I.load("blueqat.gate").f
    init = cls.lookup("__init__")
    if init is None or not isinstance(init[1], FuncObj):
        return None, ()
    args = [a.arg for a in init[1].node.args.args][2:]
    nreq = len(args) - len(init[1].defaults)
    if gm.get("OneQubitGate") in cls.mro:
        return 1, args[:nreq]
    if gm.get("TwoQubitGate") in cls.mro:
        return 2, args[:nreq]
    return None, ()
