"""C32: simulated annealing makes Metropolis moves of the QUBO and records its energies."""
import itertools
from ..scen import *
from ..script import Script
from ..stoch import World
from ..models import rand_scalar
from ..scalar import apply_fn
from ..core import unit_interval
from ..errors import Prune
from .. import npmodel as NP

RULE = ("Abstract interpretation of wq.Opt.run on QUBO matrices of independent symbols with stand-ins for numpy's generators that return every initial assignment and every choice of spins and a fresh symbol in "
        "[0, 1) for every uniform draw; next to it an oracle replays the same draws under the same path conditions: a spin flips exactly when the exact change of the QUBO value is negative or "
        "exp(-change/T) exceeds the draw, T falls from Ts by the factor R while it is above the target. On every abstract trace the recorded energies must be the QUBO values of the oracle's assignments and the "
        "returned bits the final one.")
ASSUME = ["up to three bits, three moves per run and three temperatures (the loops treat every move and sweep alike)", "numpy.random.choice/randint/rand return values of their documented ranges", "QUBO matrices are upper triangular"]
HISTORY = True
MIN_OBLIGATIONS = 60
BATCH = True

SRC = '''
import numpy as np
from blueqat import wq

def problem(n, kind):
    rows = [[(entry(i, j) if i <= j else 0) for j in range(n)] for i in range(n)]
    if kind == "array":
        return np.array(rows)
    return rows

def ob_run(n, kind, start, moves, ite, Ts, R, target, shots, how):
    """start: bits of every shot; moves: spins of every shot, `ite` of them for each temperature"""
    q = problem(n, kind)
    plan(start, moves, ite)
    o = wq.Opt()
    if how == "add":
        o.add(q)
    else:
        o.qubo = q
    h = snap(o.qubo)
    o.Ts = Ts
    o.R = R
    o.ite = ite
    if how == "twice":
        o.qubo = problem(n, kind)
        o.E = [1, 2, 3]
        o.ep = 7
        o.J = [[1] * n] * n
    if how == "default shots":
        r = o.run(targetT=target)
    elif how == "positional":
        r = o.run(shots, "normal", target)
    elif how == "verbose":
        r = o.run(shots=shots, targetT=target, verbose=True)
    else:
        r = o.run(shots=shots, targetT=target)
    if how != "twice":
        expect(unchanged(h, o.qubo), "run() modifies the QUBO")
    replay(r, o.E, n, start, moves, ite, Ts, R, target, shots)

def ob_sa(n, start, moves, ite, shots):
    """sa() runs down to the default target temperature"""
    q = problem(n, "lists")
    plan(start, moves, ite)
    o = wq.Opt()
    o.qubo = q
    o.Ts = 0.03
    o.R = 0.4
    o.ite = ite
    r = o.sa(shots=shots) if shots > 1 else o.sa()
    replay(r, o.E, n, start, moves, ite, 0.03, 0.4, 0.02, shots)

def ob_result_types(n, shots):
    q = problem(n, "lists")
    start = [[(i + s) % 2 for i in range(n)] for s in range(shots)]
    plan(start, [[0]] * shots, 1)
    o = wq.Opt()
    o.qubo = q
    o.Ts = 0.01
    o.ite = 1
    r = o.run(shots=shots)
    rows = [r] if shots == 1 else r
    expect(isinstance(r, list) and len(rows) == shots, "result of run()", r)
    for row, s in zip(rows, start):
        expect(isinstance(row, list) and len(row) == n, "bits of a shot", row)
        for x, y in zip(row, s):
            expect(isinstance(x, int) and not isinstance(x, bool) and x == y, "a bit of the result", row, s)
    E = [o.E] if shots == 1 else o.E
    expect(len(E) == shots, "lists of energies", E)
    for e in E:
        expect(len(e) == 1, "energies recorded without any move", e)
'''


def check(ck):
    I = ck.use(new_interp(load=("blueqat", "blueqat.wq")))
    box = {}
    worlds = [World(s, Pos(1, 1, (0,))) for s in (1, 2)]

    def arr(cells, dt="int64"):
        return NP.NdArr(list(cells), (len(cells),), NP.dtype_of(I, dt))

    def plan(I, a, k):
        st, mv, ite = a
        box.update(start=[list(I.list_values(x)) for x in I.list_values(st)], moves=[list(I.list_values(x)) for x in I.list_values(mv)], ite=ite, shot=-1, pos=0, log=[])

    def shape(v):
        if v is None:
            return None
        return tuple(I.list_values(v)) if isinstance(v, (tuple, ListObj)) else (v,)

    def count(v, what):
        s = shape(v)
        if s is None:
            return None
        if len(s) != 1 or not isinstance(s[0], int):
            raise Undecided(f"shape of {what}")
        return s[0]

    def begin(n):
        box["shot"] += 1
        box["pos"] = 0
        if box["shot"] >= len(box["start"]):
            raise Finding("moves", "Opt.run", f"more than {len(box['start'])} shots are started")
        if n is not None and n != len(box["start"][box["shot"]]):
            raise Finding("moves", "Opt.run", f"a shot starts with {n} spins")
        box["log"].append([])
        return box["start"][box["shot"]]

    def choice(I, a, k):
        a = list(a) + [k[x] for x in ("size",) if x in k]
        cand = I.list_values(a[0]) if not isinstance(a[0], (int, SymInt)) else list(range(a[0]))
        n = count(a[1] if len(a) > 1 else None, "random.choice")
        vals = [I.to_scalar(c) for c in cand]
        if len({repr(v) for v in vals}) == 1:
            return arr([cand[0]] * n, "float64") if n is not None else cand[0]
        if {round(v.const_value().real) for v in vals} == {-1, 1} and len(vals) == 2:
            return arr([2 * b - 1 for b in begin(n)])
        if {round(v.const_value().real) for v in vals} == {0, 1} and len(vals) == 2:
            return arr(begin(n))
        if len(vals) == len(box["start"][0]):
            return moves(n)
        raise Undecided("random.choice of other values")

    def moves(n):
        m = box["moves"][box["shot"]]
        out = []
        for _ in range(1 if n is None else n):
            if box["pos"] >= len(m):
                raise Finding("moves", "Opt.run", f"more than {len(m)} moves")
            out.append(m[box["pos"]])
            box["pos"] += 1
        return out[0] if n is None else arr(out)

    def randint(I, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 and "high" not in k else (a[0], k.get("high", a[1] if len(a) > 1 else None))
        size = k.get("size", a[2] if len(a) > 2 else None)
        n = len(box["start"][0])
        m = count(size, "random.randint")
        if box["shot"] < 0 or box["pos"] >= len(box["moves"][box["shot"]]) and (lo, hi) == (0, 2) and m == n:
            if (lo, hi) != (0, 2):
                raise Finding("moves", "Opt.run", f"the initial assignment is drawn from {lo}..{hi - 1}")
            return arr(begin(m))
        if (lo, hi) != (0, n):
            raise Finding("moves", "Opt.run", f"spins are chosen from {lo}..{hi - 1}, there are {n}")
        return moves(m)

    def rand(I, a, k):
        s = shape(a[0]) if len(a) == 1 else tuple(a) if a else shape(k.get("size"))
        n = 1
        for x in s or ():
            n *= x
        u = [rand_scalar(I) for _ in range(n)]
        box["log"][-1] += u
        return u[0] if s is None else NP.NdArr(u, s, NP.dtype_of(I, "float64"))
    for nm, f in (("choice", choice), ("randint", randint), ("rand", rand), ("random", rand), ("random_sample", rand)):
        I.overrides["numpy.random", nm] = Native(nm, f)

    def rnd(I, a, k):
        u = rand_scalar(I)
        box["log"][-1].append(u)
        return u
    I.overrides["random", "random"] = Native("random", rnd)

    def same(x, y):
        d = I.E.norm(I.to_scalar(x) - I.to_scalar(y))
        return d.is_zero() or all(abs(w.val(d)) < 1e-9 for w in worlds)

    def entry(I, a, k):
        return Scalar.sym(f"q{a[0]}{a[1]}")

    def value(bits):
        v = Scalar.const(0)
        for i, b in enumerate(bits):
            for j in range(i, len(bits)):
                if b and bits[j]:
                    v = v + Scalar.sym(f"q{i}{j}")
        return v

    def known(x, y):
        """x < y as the path decided it (the event x == y has measure zero)"""
        for a, b, v in ((x, y, True), (y, x, False)):
            c = I.compare("<", a, b)
            if isinstance(c, bool):
                return c if v else not c
            if c.key in I.E.facts:
                return (I.E.facts[c.key] != c.neg) == v
        return None

    def consistent():
        """no inequality of the path contradicts an equality that was learnt after it"""
        seen = []
        for key, v in list(I.E.facts.items()):
            if isinstance(key, tuple) and key[0] == "lt0" and key in I.E.forms:
                d = I.E.norm(I.E.forms[key])
                if any(v != v2 and (d - d2).is_zero() for d2, v2 in seen):
                    return False
                seen.append((d, v))
                lt = d.const_value().real < -1e-12 if d.is_const() else unit_interval(d)
                if lt is not None and lt != v:
                    return False
        return True

    def replay(I, a, k):
        r, E, n, start, moves_, ite, Ts, R, target, shots = a
        start = [list(I.list_values(x)) for x in I.list_values(start)]
        moves_ = [list(I.list_values(x)) for x in I.list_values(moves_)]
        if box["shot"] + 1 != shots:
            raise Finding("moves", "Opt.run", f"{box['shot'] + 1} shots are made instead of {shots}")
        rows = [r] if shots == 1 else I.list_values(r)
        Es = [E] if shots == 1 else I.list_values(E)
        if len(rows) != shots or len(Es) != shots:
            raise Finding("result", "Opt.run", f"{len(rows)} results and {len(Es)} lists of energies for {shots} shots")
        for s in range(shots):
            try:
                one(I, r, E, n, start, moves_, ite, Ts, R, target, shots, s, rows, Es, False)
            except Finding as e:
                if not consistent():
                    raise Prune()
                # a move that changes nothing may use up a draw or not
                if not box.pop("tie", False):
                    raise
                try:
                    one(I, r, E, n, start, moves_, ite, Ts, R, target, shots, s, rows, Es, True)
                except Finding:
                    if not consistent():
                        raise Prune()
                    raise e

    def one(I, r, E, n, start, moves_, ite, Ts, R, target, shots, s, rows, Es, tiedraw):
        bits = list(start[s])
        want = [value(bits)]
        T, p, used = Ts, 0, 0
        us = box["log"][s]
        eager = None
        while T > target:
            for _ in range(ite):
                x = moves_[s][p]
                p += 1
                new = list(bits)
                new[x] = 1 - new[x]
                d = value(new) - value(bits)
                # a draw for every move, or for the moves that do not go downhill only
                if eager is None:
                    eager = len(us) == len(moves_[s])
                tie = I.compare("==", d, 0) is True
                if tie and not eager:
                    box["tie"] = True
                    used += tiedraw
                    bits = new
                    continue
                down = known(d, 0)
                u = None
                if eager or down is not True and used < len(us):
                    if used >= len(us):
                        raise Finding("moves", "Opt.run", f"no random number decides the move of spin {x} from {bits} that changes the energy by {I.E.norm(d)}")
                    u = us[used]
                e = apply_fn("exp", [I.E.norm(d * Scalar.const(-1 / T))])
                if down is None and eager and known(u, e) is not None:
                    # exp(-d/T) alone decides: it exceeds every draw when d is negative
                    down = False
                if down is None:
                    down = I.truth(I.compare("<", d, 0))
                if not down and u is None:
                    if not I.truth(I.compare("==", d, 0)):
                        raise Finding("moves", "Opt.run", f"no random number decides the move of spin {x} from {bits} that changes the energy by {I.E.norm(d)}")
                    down = True
                if eager or not down:
                    used += 1
                flip = down
                if not down:
                    flip = known(u, e)
                    if flip is None:
                        flip = I.truth(I.compare("<", u, e))
                if flip:
                    bits = new
            T = T * R
            want.append(value(bits))
        if box["pos"] != len(moves_[s]) and s == shots - 1 or p != len(moves_[s]):
            raise Finding("moves", "Opt.run", f"{box['pos']} moves are made instead of {p}")
        got = I.list_values(Es[s])
        if len(got) != len(want):
            raise Finding("energy", "Opt.run", f"{len(got)} energies are recorded for {len(want) - 1} temperatures")
        for i, (x, y) in enumerate(zip(got, want)):
            if not same(x, y):
                raise Finding("energy", "Opt.run", f"the energy recorded after {i} temperatures is {I.E.norm(I.to_scalar(x))}, the right moves lead to {I.E.norm(y)} (start {start[s]}, spins {moves_[s]})")
        row = I.list_values(rows[s])
        if len(row) != n or any(not same(x, b) for x, b in zip(row, bits)):
            raise Finding("result", "Opt.run", f"the bits {row} are returned, the moves lead to {bits} (start {start[s]}, spins {moves_[s]})")

    S = Script(ck, I, SRC, entry=entry, plan=plan, replay=replay)
    S.on_start = lambda: box.clear()
    deep = ck.tier == "thorough"

    def args(n, kind, ite, temps, hows=("plain",), starts=None, limit=None):
        """temps: number of temperatures, with Ts = 2 and R = 0.4: 2, 0.8, 0.32"""
        target = {1: 1.5, 2: 0.5, 3: 0.3}[temps]
        k = 0
        for st in itertools.product((0, 1), repeat=n) if starts is None else starts:
            for mv in itertools.product(range(n), repeat=ite * temps):
                k += 1
                if limit and k % limit:
                    continue
                for how in hows:
                    yield (n, kind, ListObj([ListObj(list(st))]), ListObj([ListObj(list(mv))]), ite, 2, 0.4, target, 1, how)
    L = ListObj
    S.run("metropolis", ["ob_run"], list(args(1, "lists", 1, 1, ("plain", "positional", "default shots", "verbose", "twice", "add"))))
    S.run("metropolis", ["ob_run"], list(args(1, "array", 3, 1)) + list(args(1, "lists", 1, 3)))
    S.run("metropolis", ["ob_run"], list(args(2, "lists", 1, 1, ("plain", "twice", "add"))) + list(args(2, "array", 1, 2)) + list(args(2, "lists", 2, 1)))
    S.run("metropolis", ["ob_run"], list(args(2, "lists", 1, 3, limit=None if deep else 5)) + list(args(2, "array", 3, 1, limit=None if deep else 5)))
    S.run("metropolis", ["ob_run"], list(args(3, "lists", 1, 1)) + list(args(3, "lists", 1, 2, limit=None if deep else 7)) + list(args(3, "array", 2, 1, limit=None if deep else 7)))
    for shots in (2, 3):
        S.run("shots", ["ob_run"], [(n, "lists", L([L([(s + i) % 2 for i in range(n)]) for s in range(shots)]), L([L([(s * t + 1) % n for t in range(1)]) for s in range(shots)]), 1, 2, 0.4, 1.5, shots, how)
                                    for n in (1, 2) for how in ("plain", "positional", "verbose", "twice")])
    S.run("shots", ["ob_sa"], [(n, L([L([1] * n)] * shots), L([L([n - 1] * 2)] * shots), 2, shots) for n in (1, 2) for shots in (1, 2)])
    S.run("result", ["ob_result_types"], [(n, s) for n in (1, 2, 4) for s in (1, 2, 5)])
