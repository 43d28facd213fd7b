"""Scenario support: symbolic qubit positions, probes, and access to the analysed program."""
import ast
import itertools
import os
import sys
import warnings

from .core import *
from .errors import *
from .interp import Interp, Frame, SemanticAlarm
from .scalar import Scalar, Gen, equal as s_equal
from .symint import SymInt
from . import symint as SI
from . import npmodel as NP

sys.setrecursionlimit(20000)
warnings.simplefilter("ignore", SyntaxWarning)
ROOT = os.environ.get("BQ_ROOT", "/repo")


def new_interp(missing=(), load=("blueqat",)):
    I = Interp(ROOT, missing)
    for m in load:
        I.load(m)
    return I


class Finding(Exception):
    def __init__(self, rule, construct, text):
        super().__init__(text)
        self.rule, self.construct, self.text = rule, construct, text


def source(I, src, **natives):
    """execute scenario code as a module of the abstract program"""
    m = ModuleObj("__scenario__", "")
    m.tree = ast.parse(src)
    m.src = src
    m.f["__name__"] = "__scenario__"
    m.f["__package__"] = ""
    for k, f in natives.items():
        m.f[k] = Native(k, f) if callable(f) and not isinstance(f, (Native, ClassObj)) else f
    fr = Frame(None, m, qual="scenario")
    fr.vars = m.f
    I.stack.append((fr, m.tree))
    try:
        I.exec_block(m.tree.body, fr)
    finally:
        I.stack.pop()
    return m


class Pos:
    """k distinct qubit positions; symbolic width unless n is given"""
    def __init__(self, k, n=None, places=None):
        self.k = k
        if n is None:
            self.sym = True
            ps, cur = [], 0
            for j in range(k):
                cur = SI.add(cur, SymInt(0, {f"s{j}": 1}))
                ps.append(cur)
                cur = SI.add(cur, 1)
            self.p = ps
            self.n = SI.add(cur, SymInt(0, {f"s{k}": 1}))
        else:
            self.sym = False
            self.p = list(places)
            self.n = n

    def enter(self, I):
        I.positions = list(self.p) if self.sym else []
        I.width = self.n

    def index(self, q):
        """number of the operand q in the bit tuples of the vectors"""
        return q if self.sym else self.p[q]

    def bits(self):
        return NP.patterns(self.k if self.sym else self.n)

    def generic(self, I, vid="v"):
        return {b: NP.psi(I, vid, b) for b in self.bits()}

    def __repr__(self):
        return f"{self.k} generic positions of a generic width" if self.sym else f"positions {self.p} of {self.n}"


def state_tab(I, v):
    """amplitudes of an array as {bits: Scalar}"""
    if isinstance(v, NP.VecObj):
        return {b: I.E.norm(I.to_scalar(x)) for b, x in v.tab.items()}
    if isinstance(v, NP.NdArr):
        n = len(v.idx).bit_length() - 1
        if len(v.idx) != 1 << n:
            raise Finding("shape", "state", f"the state has {len(v.idx)} entries")
        return {tuple(i >> j & 1 for j in range(n)): I.E.norm(I.to_scalar(c)) for i, c in enumerate(v.cells())}
    raise Undecided(f"not an amplitude array: {v!r}")


def reach(v, seen=None, out=None):
    """all mutable abstract objects reachable from a value"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
            continue
        if isinstance(x, Bound):
            todo += [x.self_, x.func]
            continue
        if isinstance(x, Rep):
            todo += list(x.block)
            continue
        if isinstance(x, Partial):
            todo += list(x.args) + list(x.kwargs.values()) + [x.func]
            continue
        if isinstance(x, FuncObj):
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo += list(x.defaults) + list(x.attrs.values())
            fr = x.closure
            while fr is not None and fr.func is not None:
                todo += list(fr.vars.values())
                fr = fr.parent
            continue
        if not isinstance(x, Obj) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (ModuleObj, ClassObj)):
            continue
        out.append(x)
        if isinstance(x, NP.NdArr):
            if id(x.buf) not in seen:
                seen.add(id(x.buf))
                out.append(x.buf)
            continue
        if isinstance(x, DictObj):
            for k, w in x.pairs():
                todo += [k, w]
            continue
        if isinstance(x, ListObj):
            todo += list(x.items)
            continue
        if isinstance(x, SetObj):
            todo += list(x.f["items"].values())
            continue
        if isinstance(x, InstObj):
            todo += list(x.f.values())
            if x.tup is not None:
                todo += list(x.tup)
            continue
        if isinstance(x, IterObj):
            if x.f.get("items"):
                todo += list(x.f["items"])
            continue
        todo += [w for w in x.f.values() if isinstance(w, (Obj, tuple, Bound, Partial, FuncObj))]
    return out


def is_zero_state(I, v):
    tab = state_tab(I, v)
    z = tuple(0 for _ in next(iter(tab)))
    for b, x in tab.items():
        if b != z:
            if not x.is_zero():
                return False
        else:
            if not (s_equal(x, 1) or s_equal(x, Scalar.gen(NP.E0))):
                return False
    return True


def make_generic(I, ctx, vid="v"):
    """replace the |0...0> state held by the context by a generic state and every other amplitude buffer by garbage"""
    hit = 0
    done = set()
    for o in reach(ctx):
        if isinstance(o, NP.VecObj):
            if is_zero_state(I, o):
                o.put(I, {b: NP.psi(I, vid, b) for b in o.tab})
                hit += 1
            else:
                g = I.fresh("garbage")
                o.put(I, {b: NP.psi(I, g, b) for b in o.tab})
        elif isinstance(o, NP.NdArr) and o.dtype.kind in "cf" and id(o.buf) not in done and not isinstance(I.width, SymInt) \
                and len(o.idx) == 1 << I.width:
            done.add(id(o.buf))
            if is_zero_state(I, o):
                v, hit = vid, hit + 1
            else:
                v = I.fresh("garbage")
            n = I.width
            o.write(I, [(i, NP.psi(I, v, tuple(j >> t & 1 for t in range(n)))) for i, j in zip(o.idx, range(1 << n))])
    if not hit:
        raise Undecided("the initial state was not found in the simulator's context")
    return ctx


PROBE = '''
from blueqat.gate import Gate
class ProbeGate(Gate):
    lowername = "vpprobe"
    def __init__(self):
        self.params = ()
        self.kwargs = {}
        self.targets = ()
class ProbeBackend(BASE):
    def gate_vpprobe(self, gate, ctx):
        return vp_probe(self, gate, ctx)
def build(n):
    from blueqat import Circuit
    return Circuit(n)
def run(backend, gates, n, opts):
    return backend.run([ProbeGate()] + list(gates), n, **opts)
'''


class Sim:
    """a state-vector backend of the analysed tree driven from a generic state"""
    def __init__(self, which, I=None):
        self.which = which
        mod = {"numpy": "blueqat.backends.numpy_backend", "numba": "blueqat.backends._numba_backend_impl"}[which]
        cls = {"numpy": "NumPyBackend", "numba": "NumbaBackend"}[which]
        self.I = I = I or new_interp()
        base = I.attr_path(mod, cls)
        self.m = source(I, PROBE, BASE=base, vp_probe=lambda I, a, k: make_generic(I, a[2]))

    def backend(self):
        return self.I.call(self.m.f["ProbeBackend"], [], {})

    def ops(self, n, name, params, target, kw=None):
        """operations built through the public circuit interface"""
        I = self.I
        c = I.call(self.m.f["build"], [n], {})
        g = I.getattr(c, name)
        if params or kw:
            g = I.call(g, list(params), dict(kw or {}))
        I.getitem(g, target)
        return I.getattr(c, "ops")

    def run(self, ops, n, **opts):
        I = self.I
        d = DictObj(I.bt["dict"])
        for k, v in opts.items():
            I.dict_set(d, k, v)
        return I.call(self.m.f["run"], [self.backend(), ops, n, d], {})
