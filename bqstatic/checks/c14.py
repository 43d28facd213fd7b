import itertools
from ..paulisem import *
from .c13 import words

RULE = ("Interpretation of the Pauli objects' ==, != and hash on all pairs of operand types and shapes (Pauli operators, Terms, Exprs in different "
        "representations of equal and of different operators) with symbolic qubit indices and coefficients: on every trace, == must agree with the equality of "
        "the operands' tables from Pauli products to coefficients, in both directions, and != with its negation.")
ASSUME = ["numbers and plain tuples are not compared", "coefficients are exact numbers (no rounding)"]
HISTORY = 300
MIN_OBLIGATIONS = 400
BATCH = True

SRC = '''
from blueqat.pauli import X, Y, Z, I, Term, Expr

a, b = nat("a"), nat("b")
c, d, s = cplx("c"), cplx("d"), real("s")
MK = {
    "I": lambda: I, "I()": lambda: I(), "X": lambda: X[a], "X'": lambda: X(a), "Y": lambda: Y[a], "Z": lambda: Z[a], "Xb": lambda: X[b], "Zb": lambda: Z[b], "X0": lambda: X[0],
    "T0": lambda: Term((), c), "T1": lambda: Term((), 1.0), "T00": lambda: Term((), 0), "T0X": lambda: Term((X[a],), 0.0), "T0Z": lambda: Term((Z[b],), 0),
    "TX": lambda: Term((X[a],), c), "TX1": lambda: Term((X[a],), 1), "TXb": lambda: Term((X[b],), d), "TZ": lambda: Term((Z[a],), c), "TI": lambda: Term((I, X[b]), d), "TII": lambda: Term((I,), 1),
    "TXY": lambda: Term((X[a], Y[a]), c), "TiZ": lambda: Term((Z[a],), 1j * c), "TXZb": lambda: Term((X[a], Z[b]), c), "TZbX": lambda: Term((Z[b], X[a]), c),
    "TXX": lambda: Term((X[a], X[b]), s), "TXXX": lambda: Term((X[a], X[b], X[a]), 1.0), "TYX": lambda: Term((Y[0], X[0]), 1.0), "TmiZ": lambda: Term((Z[0],), -1j),
    "E0": lambda: Expr(()), "EI": lambda: Expr((Term((), c),)), "E1": lambda: Expr((Term((), 1.0),)), "EX": lambda: Expr((Term((X[a],), c),)), "EX1": lambda: Expr((Term((X[b],), 1.0),)),
    "EXX": lambda: Expr((Term((X[a],), c), Term((X[b],), d))), "EXXr": lambda: Expr((Term((X[b],), d), Term((X[a],), c))),
    "EXZ": lambda: Expr((Term((X[a], Z[b]), c), Term((), s))), "EZX": lambda: Expr((Term((), s), Term((Z[b], X[a]), c))),
    "Edup": lambda: Expr((Term((X[a],), 2.0), Term((X[a],), -1.0))), "Ezero": lambda: Expr((Term((X[a],), c), Term((X[a],), -c))), "E00": lambda: Expr((Term((Z[a],), 0.0),)),
    "EXY": lambda: Expr((Term((X[a], Y[a]), c),)), "EiZ": lambda: Expr((Term((Z[a],), 1j * c),)), "Ehalf": lambda: Expr((Term((X[a],), 0.5), Term((X[a],), 0.5))),
}

def check_eq(x, y):
    e, f = x == y, y == x
    expect(e is True or e is False, "== is no bool", x, y, e)
    w = equal_op(x, y)
    expect(e == w, "x == y differs from the equality of the operators", x, y, e)
    expect(f == w, "y == x differs from the equality of the operators", x, y, f)
    expect((x != y) == (not w), "x != y is not the negation of x == y", x, y, x != y)
    expect((y != x) == (not w), "y != x is not the negation of y == x", x, y, y != x)
    return w

def ob_eq(k, l):
    check_eq(MK[k](), MK[l]())

def ob_self(k):
    x = MK[k]()
    expect(x == x and not (x != x), "x == x does not hold", x)
    expect(x == MK[k](), "an equal copy is not equal", x)

def ob_hash(k, l):
    x, y = MK[k](), MK[l]()
    if check_eq(x, y):
        expect(hash(x) == hash(y), "equal Pauli operators have different hashes", x, y)
        expect(len({x: 1, y: 2}) == 1 and y in {x}, "equal Pauli operators are different dict keys", x, y)
    else:
        expect(len({x: 1, y: 2}) == 2 and y not in {x}, "different Pauli operators are the same dict key", x, y)

def ob_pauli_self(k):
    x = MK[k]()
    expect(hash(x) == hash(MK[k]()), "hash of an equal copy differs", x)

P = {"x": X, "y": Y, "z": Z}
def word(w):
    return tuple(I if ch == "i" else P[ch.lower()][1 if ch.isupper() else 0] for ch in w)

def ob_words(w, u, k):
    x, y = Term(word(w), 2.0), Term(word(u), {"1": 2.0, "i": 2j, "-i": -2j, "-1": -2}[k])
    check_eq(x, y)
    check_eq(x, Expr((y,)))
    check_eq(Expr((x, Term((Z[3],), 1.0))), Expr((Term((Z[3],), 1.0), y)))

def ob_unrelated(k):
    x = MK[k]()
    for y in (None, "X", "X[0]", [], {}, object(), print, Term, X, dict, Exception):
        expect((x == y) is False and (y == x) is False, "an unrelated object is equal", x, y)
        expect((x != y) is True and (y != x) is True, "an unrelated object is not different", x, y)
    expect(x in [None, "X", x], "in")
'''
PAU = ["I", "X", "Y", "Z", "Xb", "Zb", "X0"]


def check(ck):
    I = ck.use(new_interp())
    P = PauliSem(I)
    nat = P.natives()
    nat.update(real=lambda I, a, k: Scalar.sym(a[0]), cplx=lambda I, a, k: Scalar.sym(a[0], real=False))
    S = Script(ck, I, SRC, **nat)
    S.on_start = P.start
    keys = [k for k, _ in S.m.f["MK"].pairs()]
    deep = ck.tier == "thorough"
    rule = "pauli-equality"
    S.run(rule, ["ob_eq"], list(itertools.combinations_with_replacement(keys, 2)))
    S.run(rule, ["ob_self", "ob_unrelated"], [(k,) for k in keys])
    S.run(rule, ["ob_hash"], [(k, l) for k in PAU + ["I()", "X'"] for l in PAU + ["I()", "X'"]])
    S.run(rule, ["ob_pauli_self"], [(k,) for k in PAU])
    ws = words("xyzX", 0, 2) + ["xyz", "zyx", "xXx", "Xxy", "xyx", "xyX", "xi", "i"] + (words("xyz", 3, 3) if deep else [])
    S.run(rule, ["ob_words"], [(w, u, k) for w, u in itertools.product(ws, repeat=2) for k in ("1", "i", "-i", "-1") if deep or k in ("1", "-i")])
