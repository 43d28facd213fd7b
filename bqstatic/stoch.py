"""Random draws on abstract traces: a trace is taken with the probability that its draws fall into the intervals its branch
facts describe.  Traces, post-states and records are compared with the oracle's trajectories (projection, renormalisation)
by identity testing of the derived expressions at pseudo-random states."""
import cmath
import itertools
import math
import random

from . import ref
from . import symint as SI
from .models import StrT, char_items, Hole
from .scalar import PIT
from .scen import *

REST = 3


class World(PIT):
    """values of all generators for one pseudo-random normalised state of the operand bits and (if symbolic) an unknown rest"""
    def __init__(self, seed, P, vid="v", zero=lambda b: False):
        super().__init__(seed)
        rng = random.Random(seed * 7919 + 17)
        self.vid = vid
        self.ints = {}
        R = REST if P.sym else 1
        self.psi = {b: [0j if zero(b) else complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(R)] for b in P.bits()}
        nrm = math.sqrt(sum(abs(x) ** 2 for v in self.psi.values() for x in v))
        self.psi = {b: [x / nrm for x in v] for b, v in self.psi.items()}

    def __call__(self, g):
        if g.kind == "psi" and g.data[0] == self.vid:
            return self.psi[g.data[1]][0]
        if g.kind == "P" and g.data[0] == self.vid:
            return sum(abs(x) ** 2 for b, v in self.psi.items() if all(b[q] == 0 for q in g.data[1]) for x in v)
        if g.kind == "gram" and g.data[0] == self.vid:
            _, b1, b2 = g.data
            return sum(x * y.conjugate() for x, y in zip(self.psi[b1], self.psi[b2]))
        return super().__call__(g)

    def int(self, n):
        if isinstance(n, int):
            return n
        n = SI.SymInt.lift(n)
        return n.c + sum(k * self.ints.get(v, 1) for v, k in n.t.items())

    def val(self, s):
        try:
            return complex(Scalar.lift(s).evalf(self))
        except (ZeroDivisionError, OverflowError):
            return complex("nan")

    def mat(self, U):
        return [[self.val(x) for x in r] for r in U]


def is_draw(g):
    return g.kind == "sym" and isinstance(g.data, tuple) and g.data and g.data[0] == "U"


def facts_of(I):
    """the branch facts of the current trace as [(kind, scalar, value)]"""
    return [(k[0], I.E.forms[k], v) for k, v in I.E.facts.items() if isinstance(k, tuple) and k[0] in ("lt0", "eq0", "ilt0", "ieq0") and k in I.E.forms]


def weight(facts, w):
    """probability of the trace's branch facts for the state of world w; None when the state itself contradicts them"""
    iv = {}
    for kind, d, v in facts:
        if kind in ("ilt0", "ieq0"):
            x = w.int(d)
            if ((x < 0) if kind == "ilt0" else x == 0) != v:
                return None
            continue
        us = [g for g in d.deep_gens() if is_draw(g)]
        if not us:
            x = w.val(d).real
            ok = (x < 0) if kind == "lt0" else abs(w.val(d)) < 1e-12
            if ok != v:
                return None
            continue
        if kind == "eq0":
            if v:
                return 0.0
            continue
        if len(us) > 1:
            raise Undecided(f"a branch on several random numbers: {d}")
        u = us[0]
        c, k = Scalar({}), Scalar({})
        for (ang, gs), x in d.t.items():
            e = dict(gs)
            if u in e and e[u] == 1:
                c = c + Scalar({(ang, tuple((g, r) for g, r in gs if g is not u)): x})
            else:
                k = k + Scalar({(ang, gs): x})
        if u in k.deep_gens() or u in c.deep_gens():
            raise Undecided(f"a branch that is not linear in a random number: {d}")
        cv, kv = w.val(c).real, w.val(k).real
        if abs(cv) < 1e-12:
            if (kv < 0) != v:
                return None
            continue
        t = -kv / cv
        lo, hi = iv.get(u, (0.0, 1.0))
        if (cv > 0) == v:           # U < t
            hi = min(hi, t)
        else:                       # U >= t
            lo = max(lo, t)
        iv[u] = (lo, hi)
    p = 1.0
    for lo, hi in iv.values():
        p *= max(0.0, hi - lo)
    return p


def trajectories(steps, w):
    """[(outcomes, probability, normalised state, record {bit: value})] of the oracle; steps are ("U", matrix, operand numbers),
    ("M", bit) and ("R", bit); None stands for the state where a new shot starts"""
    start = {b: list(v) for b, v in w.psi.items()}
    out = [((), start, {})]
    for s in steps:
        nxt = []
        for o, st, rec in out:
            if s[0] == "U":
                U, qs = w.mat(s[1]), s[2]
                k = len(qs)
                new = {}
                for b in st:
                    row = sum(b[q] << j for j, q in enumerate(qs))
                    acc = [0j] * len(st[b])
                    for col in range(1 << k):
                        if U[row][col]:
                            c = list(b)
                            for j, q in enumerate(qs):
                                c[q] = col >> j & 1
                            acc = [a + U[row][col] * x for a, x in zip(acc, st[tuple(c)])]
                    new[b] = acc
                nxt.append((o, new, rec))
                continue
            q = s[1]
            for v in (0, 1):
                new = {}
                for b, x in st.items():
                    if s[0] == "M":
                        new[b] = list(x) if b[q] == v else [0j] * len(x)
                    elif b[q] == 0:
                        src = b[:q] + (v,) + b[q + 1:]
                        new[b] = list(st[src])
                    else:
                        new[b] = [0j] * len(x)
                nxt.append((o + (v,), new, {**rec, q: v} if s[0] == "M" else rec))
        out = nxt
    res = []
    for o, st, rec in out:
        p = sum(abs(x) ** 2 for v in st.values() for x in v)
        if p > 1e-12:
            res.append((o, p, {b: [x / math.sqrt(p) for x in v] for b, v in st.items()}, rec))
    return res


def same_vec(got, want):
    """equal up to a phase"""
    piv = max(want, key=lambda b: abs(want[b]))
    if any(cmath.isnan(x) for x in got.values()) or set(got) != set(want):
        return False
    if abs(want[piv]) < 1e-9:
        return all(abs(x) < 1e-7 for x in got.values())
    f = got[piv] / want[piv]
    return abs(abs(f) - 1) < 1e-6 and all(abs(got[b] - f * want[b]) < 1e-6 for b in want)


# ---- records
def runs(I, key):
    """[(character, count)] of a counter's key"""
    if isinstance(key, str):
        items = list(key)
    elif isinstance(key, StrT):
        items = char_items(I, key)
    elif isinstance(key, tuple):
        items = list(key)
    else:
        raise Finding("record", "record", f"the key of a counter is {key!r}")
    out = []
    for x in items:
        blk, n = (list(x.block), x.count) if isinstance(x, Rep) else ([x], 1)
        if any(not isinstance(c, (str, int)) for c in blk):
            raise Undecided(f"characters of the record {key!r}")
        out.append((tuple(blk), n))
    return out


def text(rs, w):
    return tuple(c for blk, n in rs for c in blk * max(0, w.int(n)))


def record(P, rec, w, one="1", zero="0"):
    """the record of width P.n where operand bit number q has value rec[q] and all other qubits read 0"""
    out = [zero] * w.int(P.n)
    for q, v in rec.items():
        if v:
            out[w.int(P.p[q]) if P.sym else q] = one
    return tuple(out)


def assignments(traces, P):
    """values of the integer symbols realising every combination of the integer facts of the traces"""
    forms = {}
    for t in traces:
        for kind, d, v in t.facts:
            if kind in ("ilt0", "ieq0"):
                forms[repr((kind, SI.SymInt.lift(d).key()))] = (kind, SI.SymInt.lift(d))
    names = sorted({n for _, d in forms.values() for n in d.t} | ({n for n in P.n.t} if P.sym else set()))
    if not names:
        return [{}]
    seen = {}
    for vals in sorted(itertools.product((0, 1, 2, 4), repeat=len(names)), key=lambda v: (v.count(2), v)):
        a = dict(zip(names, vals))
        sig = tuple((d.c + sum(k * a[n] for n, k in d.t.items()) < 0) if kind == "ilt0" else d.c + sum(k * a[n] for n, k in d.t.items()) == 0 for kind, d in forms.values())
        seen.setdefault(sig, []).append(a)
    out = []
    for l in seen.values():
        out += [l[0]] + ([l[-1]] if len(l) > 1 else [])
    return out


class Run:
    """what one abstract trace returned"""
    def __init__(self, I, state=None, counter=None, facts=None):
        self.facts = facts_of(I)
        self.state = state_tab(I, state) if state is not None else None
        self.counter = None
        if counter is not None:
            self.counter = [(runs(I, k), v) for k, v in counter.pairs()]


def compare(traces, P, shots, construct, what, worlds=(1, 2, 3), zero=lambda b: False, rule="measurement"):
    """the abstract traces against the oracle trajectories of the given shots (one list of steps per shot); the state is the last shot's"""
    used = set()
    for ints in assignments(traces, P):
        for seed in worlds:
            w = World(seed, P, zero=zero)
            w.ints = ints
            used |= compare_world(traces, P, shots, construct, what, w, rule)
    for i, t in enumerate(traces):
        if i not in used and not any(kind in ("lt0", "eq0") for kind, d, v in t.facts):
            raise Undecided(f"{what}: no state realises the trace {t.facts}")


def compare_world(traces, P, shots, construct, what, w, rule):
    combos = []
    for c in itertools.product(*[trajectories(s, w) for s in shots]):
        p = 1.0
        cnt = {}
        for o, q, st, rec in c:
            p *= q
            k = record(P, rec, w)
            cnt[k] = cnt.get(k, 0) + 1
        combos.append((tuple(t[0] for t in c), p, {b: x[0] for b, x in c[-1][2].items()}, cnt))
    got, used = [], set()
    for i, t in enumerate(traces):
        wt = weight(t.facts, w)
        if wt is not None:
            used.add(i)
        if not wt or wt < 1e-12:
            continue
        have = {b: w.val(x) for b, x in t.state.items()} if t.state is not None else None
        cnt = None
        if t.counter is not None:
            cnt = {}
            for k, v in t.counter:
                cnt[text(k, w)] = cnt.get(text(k, w), 0) + v
        fit = frozenset(j for j, c in enumerate(combos) if cnt is None or c[3] == cnt)
        if not fit:
            raise Finding(rule, construct, f"{what}: the record {show_runs(t.counter)} is none of the possible ones")
        fit = frozenset(j for j in fit if have is None or same_vec(have, combos[j][2]))
        if not fit:
            raise Finding(rule, construct, f"{what}: " + (f"with the record {show_runs(t.counter)} " if t.counter is not None else "")
                          + f"the state becomes {show_state(t.state)}, which is not the renormalised projection of the state before")
        for g in got:
            if g[0] & fit:
                g[0] |= fit
                g[1] += wt
                break
        else:
            got.append([fit, wt, t])
    for fit, g, t in got:
        want = sum(combos[j][1] for j in fit)
        if abs(g - want) > 1e-6:
            raise Finding(rule, construct, f"{what}: for a state where the result {show_runs(t.counter) or show_state(t.state)} has probability {want:.4f} it is produced with probability {g:.4f}")
    tot = sum(g for _, g, _ in got)
    if abs(tot - 1) > 1e-6:
        raise Finding(rule, construct, f"{what}: results of total probability {1 - tot:.4f} are never produced")
    return used


def show_runs(c):
    if c is None:
        return ""
    return ", ".join("".join("".join(map(str, x)) if n == 1 else f"{''.join(map(str, x))}*({n})" for x, n in k) + f": {v}" for k, v in c)


def show_state(tab):
    t = {"".join(map(str, b)): str(x) for b, x in tab.items() if not x.is_zero()}
    s = str(t)
    return s if len(s) < 300 else s[:300] + "..."
