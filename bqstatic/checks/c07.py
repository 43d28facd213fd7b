"""C07: cached simulator state never changes the result of a run."""
from .. import ref
from ..scen import *
from ..stoch import *
from ..script import deep_key

RULE = ("Typestate analysis of circuits and their simulator caches: all histories up to a bounded length over appending gates (with symbolic angles), measurements and resets, runs with every option, "
        "make_cache, copies, daggers, concatenation, widening, rejected runs and modification of returned arrays are interpreted abstractly on the numpy and numba backends. After each history the "
        "result of a run must be, as an expression in the angles and with fresh random draws, the oracle's result for the operations the circuit then holds, whatever the earlier draws were.")
ASSUME = ["random.random() is uniform on [0, 1) and its values are independent", "arithmetic is exact", "identity testing of the derived expressions at pseudo-random angles",
          "histories of up to three actions after the first gate, four for the actions touching the cache (longer in the thorough run), on circuits of one or two qubits",
          "every circuit uses its own backend objects"]
MIN_OBLIGATIONS = 1000
BATCH = True
BACKENDS = {"numpy": "blueqat.backends.numpy_backend", "numba": "blueqat.backends._numba_backend_impl"}

SRC = '''
from blueqat import Circuit
import numpy as np

def start(kind):
    if kind == "1":
        return Circuit(1).rx(angle())[0]
    if kind == "2":
        return Circuit(2).ry(angle())[1]
    if kind == "m":
        return Circuit(1).rx(angle())[0].m[0]
    return Circuit(1)

def other(b, kind):
    """the circuit another one is concatenated with"""
    o = Circuit(1).rx(angle())[0] if kind == "gate" else Circuit(2).z[1].rx(angle())[1]
    if kind == "ran":
        o.run(backend=b)
    return o

def act(b, env, a):
    c = env[0]
    if a == "rx":
        c.rx(angle())[0]
    elif a == "last":
        c.phase(angle())[c.n_qubits - 1]
    elif a == "z":
        c.z[0]
    elif a == "cx":
        c.cx[0, 1]
    elif a == "toffoli-like":
        c.u2(angle(), angle())[0]
    elif a == "m":
        c.m[0]
    elif a == "r":
        c.reset[0]
    elif a == "run":
        c.run(backend=b)
    elif a == "shots":
        c.run(backend=b, shots=2)
    elif a == "both":
        c.run(backend=b, shots=1, returns="statevector_and_shots")
    elif a == "scribble":
        v = c.run(backend=b)
        v[:] = 7.0
    elif a == "scribble shots":
        v, n = c.run(backend=b, shots=1, returns="statevector_and_shots")
        v[:] = 7.0
        n.clear()
    elif a == "global":
        c.run(backend=b, ignore_global=True)
    elif a == "no cache":
        c.run(backend=b, enable_cache=False)
    elif a == "dtype":
        c.run(backend=b, dtype=np.complex64)
    elif a == "make_cache":
        c.make_cache(b)
    elif a == "copy":
        env.append(c.copy())
    elif a == "go to copy":
        env.insert(0, c.copy())
    elif a == "bare copy":
        env.insert(0, c.copy(copy_backends=False))
    elif a == "switch":
        env.append(env.pop(0))
    elif a == "dagger":
        env.insert(0, c.dagger(ignore_measurement=True))
    elif a == "dagger with backends":
        env.insert(0, c.dagger(ignore_measurement=True, copy_backends=True))
    elif a == "+ gate":
        env.insert(0, c + other(b, "gate"))
    elif a == "+ ran":
        env.insert(0, c + other(b, "ran"))
    elif a == "ran +":
        env.insert(0, other(b, "ran") + c)
    elif a == "+= ran":
        c += other(b, "ran")
    elif a == "+= gate":
        c += other(b, "gate")
    elif a == "widen":
        c.x[1]
    elif a == "widen alone":
        c += Circuit(c.n_qubits + 1)
    elif a == "rejected":
        try:
            c.run(backend=b, returns="vpnone")
        except ValueError:
            pass

def stretched(b, name, ps, two, look):
    """a circuit whose operation covers the whole register, which grows after it was run"""
    c = Circuit(2)
    g = getattr(c, name)
    if len(ps) > 0:
        g = g(*ps)
    if two:
        g[:-1, 1:]
    else:
        g[:]
    for n in (2, 3):
        if look == "run":
            c.run(backend=b)
        elif look == "make_cache":
            c.make_cache(b)
        else:
            c.run(backend=b, shots=1)
        c.h[n]
    return c

def final(b, c, how):
    if how == "plain":
        return c.run(backend=b), None
    return c.run(backend=b, returns="statevector_and_shots", shots=2 if how == "two" else 1)
'''

APPEND = ["rx", "last", "z", "cx", "m", "r", "+= ran", "widen"]
LOOK = ["run", "shots", "make_cache", "scribble", "global", "no cache", "dtype", "scribble shots", "rejected"]
SPLIT = ["copy", "go to copy", "bare copy", "switch", "dagger", "dagger with backends", "+ gate", "+ ran", "ran +", "+= gate", "widen alone"]
CORE = ["rx", "m", "run", "make_cache", "widen", "no cache"]


EVERY = APPEND + LOOK + SPLIT
FRESH = ("+ ran", "ran +", "+= ran")


def sensible(h):
    """histories other than these are the same as shorter ones"""
    return "switch" not in h or any(a in ("copy", "go to copy", "bare copy", "dagger", "dagger with backends", "+ gate", "+ ran", "ran +") for a in h[:h.index("switch")])


def tested(h):
    """something that looks at the state has to come before the final run, else nothing can be cached"""
    return any(a in LOOK or a in FRESH for a in h)


def ops_steps(I, c):
    """the circuit's operations as oracle steps"""
    n = I.getattr(c, "n_qubits")
    out = []
    for g in I.list_values(I.getattr(c, "ops")):
        name = I.getattr(g, "lowername")
        if name in ("measure", "reset"):
            out += [("M" if name == "measure" else "R", q) for q in I.list_values(I.call(I.getattr(g, "target_iter"), [n], {}))]
            continue
        nq, pn, fn = ref.GATES[name]
        U = fn(*[I.to_scalar(x) for x in I.list_values(I.getattr(g, "params"))])
        if nq == 1:
            out += [("U", U, [q]) for q in I.list_values(I.call(I.getattr(g, "target_iter"), [n], {}))]
        else:
            out += [("U", U, list(qs)) for qs in I.list_values(I.call(I.getattr(g, "control_target_iter"), [n], {}))]
    return n, out


def from_zero(P, seed):
    w = World(seed, P)
    w.psi = {b: [1 + 0j if not any(b) else 0j] for b in w.psi}
    return w


def check(ck):
    for which, mod in BACKENDS.items():
        one_backend(ck, which, mod)


def one_backend(ck, which, mod):
    deep = ck.tier == "thorough"
    I = ck.use(new_interp(load=("blueqat", mod)))
    I.single = True
    E = I.E
    names = [k for k, _ in I.attr_path("blueqat.circuit", "GATE_SET").pairs()]
    box = {"n": 0, "merged": 0}

    def angle(I, a, k):
        box["n"] += 1
        return Scalar.sym(f"a{box['n']}")
    m = source(I, SRC, angle=angle)

    def final_runs(env, h, kind):
        """the result of running each circuit now"""
        for c in I.list_values(env)[:2]:
            n, steps = ops_steps(I, c)
            chance = any(s[0] != "U" for s in steps)
            for how in ("plain",) if not chance else ("both", "two") if len(h) == 1 else ("both",):
                pre = facts_of(I)
                known = {(k, repr(d), x) for k, d, x in pre}

                def go():
                    Pos(n, n, tuple(range(n))).enter(I)
                    v, cnt = I.call(m.f["final"], [which, c, how], {})
                    r = Run(I, v, cnt)
                    r.facts = [f for f in r.facts if (f[0], repr(f[1]), f[2]) not in known]
                    return r
                runs_ = [r for r, _ in E.explore(go)]
                judge(runs_, pre, n, steps, 2 if how == "two" else 1, f"{which}:{h[-1]}", f"{which}, from {kind or 'no gate'}, after {', '.join(h)}")
        return True

    def visit(env, h, kind, depth):
        if not sensible(h):
            return
        t = tested(h)
        core = all(a in CORE for a in h)
        key = hash((t, core, box["n"], repr(deep_key(I, env)), repr(globals_key(I))))
        if seen.get(key, -1) >= depth - len(h):
            box["merged"] += 1
            return
        if t and key not in seen:
            final_runs(env, h, kind)
            ck.obligations.append((f"{which} start {kind}; {'; '.join(h)}", "bounded", 1))
        seen[key] = depth - len(h)
        if len(h) < depth:
            for a in EVERY if len(h) < depth - 1 or not core or deep else CORE:
                step(env, h + (a,), kind, depth)

    def step(env, h, kind, depth):
        n0 = box["n"]

        def go():
            box["n"] = n0
            I.positions, I.width = [], 2
            I.call(m.f["act"], [which, env, h[-1]], {})
            visit(env, h, kind, depth)
        E.explore(go)
        box["n"] = n0

    def scenario(kind, first, depth):
        def go():
            box["n"] = 0
            I.positions, I.width = [], 2
            env = ListObj([I.call(m.f["start"], [kind], {})])

            def lead(i):
                if i == len(first) - 1:
                    return step(env, first, kind, depth)
                n0 = box["n"]

                def down():
                    box["n"] = n0
                    I.call(m.f["act"], [which, env, first[i]], {})
                    lead(i + 1)
                E.explore(down)
            lead(0)
        return go
    for name, (nq, pn, fn) in ref.GATES.items():
        if nq > 2 or name not in names:
            continue
        for look in ("run", "make_cache", "shots"):
            def grow(name=name, pn=pn, nq=nq, look=look):
                pre = facts_of(I)

                def go():
                    I.positions, I.width = [], 2
                    c = I.call(m.f["stretched"], [which, name, tuple(Scalar.sym(x) for x in pn), nq == 2, look], {})
                    n, steps = ops_steps(I, c)
                    Pos(n, n, tuple(range(n))).enter(I)
                    v, cnt = I.call(m.f["final"], [which, c, "plain"], {})
                    return Run(I, v, cnt), n, steps
                got = [r for r, _ in E.explore(go)]
                judge([r for r, _, _ in got], pre, got[0][1], got[0][2], 1, f"{which}:{name}", f"{which}, {name} on the whole register, {look}, widened twice")
            ck.run_bounded(I, f"{which} {name} on a growing register ({look})", grow)
    seen = {}
    for kind in ("1", "2", "m", ""):
        D = (4 if kind in ("1", "m") else 3) if deep else 3 if kind == "1" else 2
        for a in EVERY:
            ck.run_bounded(I, f"{which} start {kind}; {a}", scenario(kind, (a,), 1))
            for b in EVERY:
                if sensible((a, b)):
                    D2 = D + 1 if kind == "1" and a in CORE and b in CORE else D
                    ck.run_bounded(I, f"{which} start {kind}; {a}; {b}; ...", scenario(kind, (a, b), D2))


def globals_key(I):
    """structural key of the mutable state kept in modules and classes of the package"""
    out = []
    for name, mod in I.modules.items():
        if not name.startswith("blueqat"):
            continue
        for k, v in mod.f.items():
            if isinstance(v, ClassObj):
                if v.module is not None and v.node is not None:
                    out += [(name, k, q, deep_key(I, x)) for q, x in v.f.items() if mutable(x)]
            elif mutable(v):
                out.append((name, k, deep_key(I, v)))
    return out


def mutable(x):
    return isinstance(x, Obj) and not isinstance(x, (ClassObj, ModuleObj, ExtModule, FuncObj, Native, Opaque)) or isinstance(x, tuple)


def judge(runs_, pre, n, steps, shots, construct, what):
    P = Pos(n, n, tuple(range(n)))
    for seed in (1, 2):
        w = from_zero(P, seed)
        if weight(pre, w) is not None:
            compare_world(runs_, P, [steps] * shots, construct, what, w, "cache")
