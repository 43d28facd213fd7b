"""C35: simulated quantum annealing makes Metropolis moves of the Trotter system and records its energies."""
import itertools
import math
import random
from ..scen import *
from ..script import Script
from ..stoch import World
from ..models import rand_scalar
from ..scalar import apply_fn
from ..core import unit_interval
from ..errors import Prune
from .. import npmodel as NP

RULE = ("Abstract interpretation of wq.Opt.sqa on QUBO matrices of independent symbols with stand-ins for numpy's generators that return enumerated initial spins and choices of a spin and a slice and a fresh "
        "symbol in [0, 1) for every uniform draw; next to it an oracle replays the same draws under the same path conditions on the classical system of the Suzuki-Trotter decomposition: the energy of `tro` copies, each with the "
        "QUBO divided by `tro`, coupled along the ring with -Tf/2*log(coth(G/Tf/tro)) times the product of equal spins of neighbouring copies. A spin flips exactly when the exact change is negative or "
        "exp(-change/Tf) exceeds the draw, G falls from Gs by the factor R while it is above Gf. On every abstract trace the recorded energies and the returned spins must be the oracle's.")
ASSUME = ["up to three bits, four slices, three moves and three field strengths (the loops treat every move and sweep alike), numeric temperature and field", "at least two slices", "numpy.random.choice/randint/rand return values of their documented ranges", "QUBO matrices are upper triangular"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
import numpy as np
from blueqat import wq

def problem(n, kind):
    rows = [[(entry(i, j) if i <= j else 0) for j in range(n)] for i in range(n)]
    if kind == "array":
        return np.array(rows)
    return rows

def ob_sqa(n, tro, kind, start, xs, ys, ite, T, Gs, R, Gf, how):
    q = problem(n, kind)
    plan(n, tro, start, xs, ys)
    o = wq.Opt()
    if how == "add":
        o.add(q)
    else:
        o.qubo = q
    h = snap(o.qubo)
    o.Tf = T
    o.Gs = Gs
    o.Gf = Gf
    o.R = R
    o.ite = ite
    o.tro = tro
    if how == "after":
        o.E = [[1, 2, 3], [4, 5, 6]]
        o.ep = 7
        o.J = [[1] * n] * n
    if how == "other":
        p = wq.Opt()
        p.E = [1, 2]
        p.qubo = [[5]]
    r = o.sqa()
    replay(r, o.E, n, tro, start, xs, ys, ite, T, Gs, R, Gf)
    expect(unchanged(h, o.qubo), "sqa() modifies the QUBO")
    expect(o.Tf == T and o.Gs == Gs and o.Gf == Gf and o.R == R and o.ite == ite and o.tro == tro, "sqa() changes the settings")
    if how == "twice":
        first = o.E
        plan(n, tro, start, xs, ys)
        r = o.sqa()
        replay(r, o.E, n, tro, start, xs, ys, ite, T, Gs, R, Gf)

def ob_defaults():
    o = wq.Opt()
    expect((o.Gs, o.Gf, o.Tf, o.tro, o.R, o.ite) == (10, 0.02, 0.02, 8, 0.95, 1000), "documented settings of the annealer")
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq")))
    box = {}
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2)]

    def arr(cells, dt="int64"):
        return NP.NdArr(list(cells), (len(cells),), NP.dtype_of(I, dt))

    def plan(I, a, k):
        n, tro, st, xs, ys = a
        box.update(n=n, tro=tro, start=[list(I.list_values(x)) for x in I.list_values(st)], xs=list(I.list_values(xs)), ys=list(I.list_values(ys)), px=0, py=0, begun=False, log=[])

    def shape(v):
        if v is None:
            return None
        return tuple(I.list_values(v)) if isinstance(v, (tuple, ListObj)) else (v,)

    def begin(size, spins):
        if box["begun"]:
            raise Finding("moves", "Opt.sqa", "the spins are drawn more than once")
        box["begun"] = True
        s = shape(size)
        if s not in ((box["n"] * box["tro"],), (box["tro"], box["n"])):
            raise Finding("moves", "Opt.sqa", f"spins of the shape {s} are drawn for {box['n']} bits and {box['tro']} slices")
        cells = [b for row in box["start"] for b in row]
        return NP.NdArr([2 * b - 1 for b in cells] if spins else cells, s, NP.dtype_of(I, "int64"))

    def pick(which, size):
        s = shape(size)
        n = 1
        for x in s or ():
            n *= x
        out = []
        for _ in range(n):
            if box["p" + which] >= len(box[which + "s"]):
                raise Finding("moves", "Opt.sqa", f"more than {len(box[which + 's'])} moves")
            out.append(box[which + "s"][box["p" + which]])
            box["p" + which] += 1
        return out[0] if s is None else NP.NdArr(out, s, NP.dtype_of(I, "int64"))

    def among(n, size):
        if n == box["n"]:
            return pick("x", size)
        if n == box["tro"]:
            return pick("y", size)
        raise Finding("moves", "Opt.sqa", f"one of {n} is chosen; there are {box['n']} bits and {box['tro']} slices")

    def choice(I, a, k):
        a = list(a) + [k[x] for x in ("size",) if x in k]
        cand = I.list_values(a[0]) if not isinstance(a[0], (int, SymInt)) else list(range(a[0]))
        size = a[1] if len(a) > 1 else None
        vals = [I.to_scalar(c) for c in cand]
        if len({repr(v) for v in vals}) == 1 and cand[0] == 1:
            return arr([cand[0]] * size, "float64") if size is not None else cand[0]
        if {round(v.const_value().real) for v in vals} == {-1, 1} and len(vals) == 2:
            return begin(size, True)
        if {round(v.const_value().real) for v in vals} == {0, 1} and not box["begun"]:
            return begin(size, False)
        if [int(c) for c in cand] == list(range(len(cand))):
            return among(len(cand), size)
        raise Undecided("random.choice of other values")

    def randint(I, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 and "high" not in k else (a[0], k.get("high", a[1] if len(a) > 1 else None))
        size = k.get("size", a[2] if len(a) > 2 else None)
        if not box["begun"]:
            if (lo, hi) != (0, 2):
                raise Finding("moves", "Opt.sqa", f"the initial spins are drawn from {lo}..{hi - 1}")
            return begin(size, False)
        if lo != 0:
            raise Finding("moves", "Opt.sqa", f"spins are chosen from {lo}..{hi - 1}")
        return among(hi, size)

    def rand(I, a, k):
        s = shape(a[0]) if len(a) == 1 else tuple(a) if a else shape(k.get("size"))
        n = 1
        for x in s or ():
            n *= x
        u = [rand_scalar(I) for _ in range(n)]
        box["log"] += u
        return u[0] if s is None else NP.NdArr(u, s, NP.dtype_of(I, "float64"))
    for nm, f in (("choice", choice), ("randint", randint), ("rand", rand), ("random", rand), ("random_sample", rand)):
        I.overrides["numpy.random", nm] = Native(nm, f)

    def rnd(I, a, k):
        u = rand_scalar(I)
        box["log"].append(u)
        return u
    I.overrides["random", "random"] = Native("random", rnd)

    def same(x, y):
        d = I.E.norm(I.to_scalar(x) - I.to_scalar(y))
        return d.is_zero() or all(abs(w.val(d)) < 1e-9 for w in worlds)

    def entry(I, a, k):
        return Scalar.sym(f"q{a[0]}{a[1]}")

    def value(bits):
        v = Scalar.const(0)
        for i, b in enumerate(bits):
            for j in range(i, len(bits)):
                if b and bits[j]:
                    v = v + Scalar.sym(f"q{i}{j}")
        return v

    def known(x, y):
        """x < y as the path decided it (the event x == y has measure zero)"""
        for a, b, v in ((x, y, True), (y, x, False)):
            c = I.compare("<", a, b)
            if isinstance(c, bool):
                return c if v else not c
            if c.key in I.E.facts:
                return (I.E.facts[c.key] != c.neg) == v
        return None

    def consistent():
        """no inequality of the path contradicts an equality that was learnt after it"""
        seen = []
        for key, v in list(I.E.facts.items()):
            if isinstance(key, tuple) and key[0] == "lt0" and key in I.E.forms:
                d = I.E.norm(I.E.forms[key])
                if any(v != v2 and (d - d2).is_zero() for d2, v2 in seen):
                    return False
                seen.append((d, v))
                lt = d.const_value().real < -1e-12 if d.is_const() else unit_interval(d)
                if lt is not None and lt != v:
                    return False
        return True

    def energy(spins, n, tro, T, G):
        v = Scalar.const(0)
        for row in spins:
            v = v + value(row) * Scalar.const(1 / tro)
        c = -T / 2 * math.log(1 / math.tanh(G / T / tro))
        for p in range(tro):
            for i in range(n):
                v = v + Scalar.const(c * (2 * spins[p][i] - 1) * (2 * spins[(p + 1) % tro][i] - 1))
        return v

    def replay(I, a, k):
        try:
            one(a, ())
        except Finding as e:
            if not consistent():
                raise Prune()
            # a move that changes nothing may use up a draw or not
            n = 0
            while n < box.get("ties", 0) <= 6:
                n = box["ties"]
                for plan_ in itertools.product((0, 1), repeat=n):
                    try:
                        return one(a, plan_)
                    except Finding:
                        if not consistent():
                            raise Prune()
            raise e

    def one(a, tiedraw):
        ties = 0
        r, E, n, tro, start, xs, ys, ite, T, G, R, Gf = a
        start, xs, ys = box["start"], box["xs"], box["ys"]
        spins = [list(row) for row in start]
        want = [energy(spins, n, tro, T, G)]
        us = box["log"]
        eager = None
        p = used = 0
        while G > Gf:
            for _ in range(ite):
                if p >= len(xs):
                    raise Undecided("plan of moves")
                x, y = xs[p], ys[p]
                p += 1
                new = [list(row) for row in spins]
                new[y][x] = 1 - new[y][x]
                d = energy(new, n, tro, T, G) - energy(spins, n, tro, T, G)
                if eager is None:
                    eager = len(us) == len(xs)
                what = f"the move of spin {x} of slice {y} from {spins} that changes the energy by {I.E.norm(d)}"
                tie = I.compare("==", d, 0) is True
                if tie and not eager:
                    ties += 1
                    box["ties"] = max(ties, box.get("ties", 0))
                    used += tiedraw[ties - 1] if ties <= len(tiedraw) else 0
                    spins = new
                    continue
                down = known(d, 0)
                u = None
                if eager or down is not True and used < len(us):
                    if used >= len(us):
                        raise Finding("moves", "Opt.sqa", f"no random number decides {what}")
                    u = us[used]
                e = apply_fn("exp", [I.E.norm(d * Scalar.const(-1 / T))])
                if down is None and eager and known(u, e) is not None:
                    down = False
                if down is None:
                    down = I.truth(I.compare("<", d, 0))
                if not down and u is None:
                    if not I.truth(I.compare("==", d, 0)):
                        raise Finding("moves", "Opt.sqa", f"no random number decides {what}")
                    down = True
                if eager or not down:
                    used += 1
                flip = down
                if not down:
                    flip = known(u, e)
                    if flip is None:
                        flip = I.truth(I.compare("<", u, e))
                if flip:
                    spins = new
            want.append(energy(spins, n, tro, T, G))
            G = G * R
        if not box["px"] == box["py"] == p == len(xs):
            raise Finding("moves", "Opt.sqa", f"{box['px']} moves are made instead of {p}")
        got = I.list_values(E)
        if len(got) != len(want):
            raise Finding("energy", "Opt.sqa", f"{len(got)} energies are recorded for {len(want) - 1} field strengths")
        for i, (v, w) in enumerate(zip(got, want)):
            if I.to_scalar(v) is None or not same(v, w):
                raise Finding("energy", "Opt.sqa", f"the energy recorded after {i} field strengths is {v!r}, the right moves lead to {I.E.norm(w)} (start {start}, spins {xs}, slices {ys})")
        rows = [I.list_values(row) for row in I.list_values(r)]
        if len(rows) != tro or any(len(row) != n for row in rows) or any(not same(v, 2 * b - 1) for row, bits in zip(rows, spins) for v, b in zip(row, bits)):
            raise Finding("result", "Opt.sqa", f"the spins {rows} are returned, the moves lead to the bits {spins} (start {start}, spins {xs}, slices {ys})")

    S = Script(ck, I, SRC, entry=entry, plan=plan, replay=replay)
    S.on_start = lambda: box.clear()
    deep = ck.tier == "thorough"
    L = ListObj
    rnd_ = random.Random(35)

    def args(n, tro, kind, ite, fields, hows=("plain",), limit=12, T=0.5, Gs=2):
        """fields: number of field strengths, 2, 0.8, 0.32"""
        Gf = {1: 0.75, 2: 0.25, 3: 0.15}[fields] * Gs
        m = ite * fields
        cases = list(itertools.product(itertools.product((0, 1), repeat=n * tro), itertools.product(range(n), repeat=m), itertools.product(range(tro), repeat=m)))
        if len(cases) > limit:
            cases = rnd_.sample(cases, limit)
        for st, xs, ys in cases:
            for how in hows:
                yield (n, tro, kind, L([L(list(st[i * n:(i + 1) * n])) for i in range(tro)]), L(list(xs)), L(list(ys)), ite, T, Gs, 0.4, Gf, how)
    f = 6 if deep else 1
    S.run("settings", ["ob_defaults"], [()])
    S.run("metropolis", ["ob_sqa"], list(args(1, 2, "lists", 1, 1, ("plain", "after", "twice", "add", "other"), 40)) + list(args(1, 3, "lists", 1, 1, limit=40)))
    S.run("metropolis", ["ob_sqa"], list(args(2, 3, "lists", 1, 1, ("plain", "add"), 24 * f)) + list(args(3, 2, "array", 1, 1, limit=24 * f)) + list(args(2, 4, "array", 1, 1, limit=24 * f)))
    S.run("metropolis", ["ob_sqa"], list(args(2, 3, "array", 2, 1, limit=24 * f)) + list(args(1, 2, "lists", 1, 3, ("plain", "after"), limit=12 * f)) + list(args(2, 3, "lists", 1, 2, limit=24 * f)))
    S.run("metropolis", ["ob_sqa"], list(args(1, 4, "lists", 3, 1, limit=10 * f)) + list(args(3, 2, "lists", 1, 2, limit=10 * f)) + list(args(2, 3, "lists", 1, 2, T=0.02, Gs=10, limit=8 * f)))
    S.run("metropolis", ["ob_sqa"], list(args(2, 3, "lists", 1, 3, limit=6 * f)) + list(args(3, 4, "lists", 2, 1, limit=8 * f)))
