import itertools
from ..paulisem import *

RULE = ("Alias and effect analysis by abstract interpretation of blueqat.pauli: every operation is interpreted on operands of every type and shape, and the public "
        "fields of the operands and of earlier results must be unchanged afterwards; every array handed to the caller (.matrix, to_matrix in each format) is "
        "overwritten through all its storage and the same and all other matrices are then computed again and compared with the operator's definition.")
ASSUME = ["private attributes added to an object (caches) are not observed", "numpy and scipy.sparse constructors share or copy their buffers as documented"]
HISTORY = True
MIN_OBLIGATIONS = 300
BATCH = True

SRC = '''
import blueqat.pauli as M
from blueqat import Circuit
from blueqat.pauli import X, Y, Z, I, Term, Expr, commutator, is_commutable, to_term, to_expr, qubo_bit

c, d, s = real("c"), real("d"), real("s")
MK = {
    "I": lambda: I, "X": lambda: X[0], "Y": lambda: Y[1], "Z": lambda: Z[2],
    "T0": lambda: Term((), c), "TX": lambda: Term((X[1],), c), "TYX": lambda: Term((Y[1], X[0]), d), "TXY": lambda: Term((X[0], Y[0]), 2j), "TZZ": lambda: Term((Z[0], Z[0], X[1]), s),
    "E0": lambda: Expr(()), "EI": lambda: Expr((Term((), c),)), "EXY": lambda: Expr((Term((X[0],), c), Term((Y[1],), d))), "Edup": lambda: Expr((Term((X[0],), c), Term((X[0],), d), Term((Z[1], Z[0]), s))),
    "n": lambda: 2.0, "1j": lambda: 1j,
}

def run1(f):
    try:
        return f()
    except (ValueError, TypeError, ZeroDivisionError):
        return None

UN = {
    "neg": lambda x: -x, "pow0": lambda x: x ** 0, "pow3": lambda x: x ** 3, "to_term": lambda x: x.to_term(), "to_expr": lambda x: x.to_expr(), "repr": lambda x: repr(x),
    "hash": lambda x: hash(x), "simplify": lambda x: x.simplify(), "time evolution": lambda x: x.get_time_evolution()(Circuit(), 0.5), "append": lambda x: x.append_to_circuit(Circuit()),
    "append raw": lambda x: x.append_to_circuit(Circuit(), simplify=False), "max_n": lambda x: x.max_n(), "n_qubits": lambda x: x.n_qubits, "n_iter": lambda x: list(x.n_iter()),
    "iter": lambda x: list(x), "coeffs": lambda x: list(x.coeffs()), "identity": lambda x: x.is_identity, "all commutable": lambda x: x.is_all_terms_commutable(),
    "matrix": lambda x: x.matrix, "to_matrix": lambda x: x.to_matrix(), "csr": lambda x: x.to_matrix(sparse="csr"), "csc": lambda x: x.to_matrix(4, sparse="csc"), "lil": lambda x: x.to_matrix(sparse="lil"),
}
BIN = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y,
    "commutator": lambda x, y: commutator(x, y), "is_commutable": lambda x, y: is_commutable(x, y), "method commutator": lambda x, y: x.commutator(y), "is_commutable_with": lambda x, y: x.is_commutable_with(y),
}

def iadd(x, y):
    x += y
    return x
def isub(x, y):
    x -= y
    return x
def imul(x, y):
    x *= y
    return x
def idiv(x, y):
    x /= y
    return x
BIN["+="], BIN["-="], BIN["*="], BIN["/="] = iadd, isub, imul, idiv

def ob_unary(k, op):
    x = MK[k]()
    e = x.to_expr()
    w, we = pub(x), pub(e)
    try:
        r = UN[op](x)
    except (ValueError, TypeError, AttributeError):
        r = None
    expect(pub(x) == w, "the operand was modified by " + op, x)
    wr = pub(r)
    try:
        UN[op](x)
        UN[op](e)
    except (ValueError, TypeError, AttributeError):
        pass
    expect(pub(r) == wr, "an earlier result was modified by " + op, r)
    expect(pub(x) == w and pub(e) == we, "the operand was modified by " + op, x)

def ob_binary(k, l, op):
    x, y = MK[k](), MK[l]()
    wx, wy = pub(x), pub(y)
    try:
        r = BIN[op](x, y)
    except (TypeError, ZeroDivisionError, AttributeError):
        r = None
    expect(pub(x) == wx, "the left operand was modified by " + op, x)
    expect(pub(y) == wy, "the right operand was modified by " + op, y)
    wr = pub(r)
    try:
        q = BIN[op](x, y)
        z = BIN[op](q, x)
        BIN[op](r, q)
    except (TypeError, ZeroDivisionError, AttributeError):
        pass
    expect(pub(r) == wr, "an earlier result was modified by " + op, r)
    expect(pub(x) == wx and pub(y) == wy, "an operand was modified by " + op, x, y)

def get(x, how):
    if how == "matrix":
        return x.matrix
    if how == "dense":
        return x.to_matrix()
    if how == "dense4":
        return x.to_matrix(4)
    if how[-1] == "3":
        return x.to_matrix(3, sparse=how[:3])
    return x.to_matrix(sparse=how)

def ob_fresh(k, how):
    x = MK[k]()
    w = pub(x)
    m = get(x, how)
    first = entries(m)
    m2 = get(x, how)
    expect(entries(m2) == first, "two matrices of one operator differ", x, how)
    scribble(m)
    expect(entries(m2) == first, "modifying a returned matrix changes another returned matrix", x, how)
    expect(entries(get(x, how)) == first, "modifying a returned matrix changes later results", x, how)
    expect(entries(get(MK[k](), how)) == first, "modifying a returned matrix changes later results", x, how)
    expect(pub(x) == w, "computing or modifying a matrix modifies the operator", x)
    check_tables()

def check_tables():
    for ch, ctor in (("I", I), ("X", X), ("Y", Y), ("Z", Z)):
        for v in (ctor, I if ch == "I" else ctor[1]):
            expect(right_matrix(v.matrix, ch), "the matrix is wrong after a returned array was modified", ch)
        p = I if ch == "I" else ctor[0]
        expect(right_matrix(p.to_matrix(1), ch), "to_matrix() is wrong after a returned array was modified", ch)
        for f in ("csr", "csc", "coo"):
            expect(right_matrix(p.to_matrix(1, sparse=f).toarray(), ch), "to_matrix() is wrong after a returned array was modified", ch, f)

def ob_ctor_matrix(ch):
    ctor = {"I": I, "X": X, "Y": Y, "Z": Z}[ch]
    m = ctor.matrix
    n = (I if ch == "I" else ctor[3]).matrix
    m2 = ctor.matrix
    scribble(m)
    expect(right_matrix(m2, ch) and right_matrix(n, ch), "modifying a returned matrix changes another returned matrix", ch)
    scribble(n)
    expect(right_matrix(m2, ch), "modifying a returned matrix changes another returned matrix", ch)
    check_tables()

def ob_tables_ok():
    check_tables()

def ob_qubo_bit():
    q = qubo_bit(1)
    w = pub(q)
    q2 = qubo_bit(1) * 3 + qubo_bit(0)
    q += X[0]
    expect(pub(qubo_bit(1)) == w, "a later result of qubo_bit differs")
'''
PAU = ["I", "X", "Y", "Z"]
TRM = ["T0", "TX", "TYX", "TXY", "TZZ"]
EXP = ["E0", "EI", "EXY", "Edup"]
FMT = ["bsr", "coo", "csc", "csr", "dia", "dok", "lil"]


def natives(I, P):
    from .. import spmodel as SP
    from ..script import deep_key
    mod = P.mod

    def fields(x):
        if isinstance(x, tuple):
            return ("t",) + tuple(fields(y) for y in x)
        if isinstance(x, ListObj):
            return ("l",) + tuple(fields(y) for y in x.items)
        if isinstance(x, InstObj) and mod["Expr"] in x.cls.mro:
            return ("Expr", fields(I.getattr(x, "terms")))
        if isinstance(x, InstObj) and mod["Term"] in x.cls.mro:
            return ("Term", fields(I.getattr(x, "ops")), fields(I.getattr(x, "coeff")))
        if isinstance(x, InstObj) and mod["_PauliImpl"] in x.cls.mro:
            op = I.getattr(x, "op")
            return ("P", op, None if op == "I" else fields(I.getattr(x, "n")))
        if isinstance(x, (NP.NdArr, SP.SpMat)):
            return entries(x)
        if isinstance(x, Obj):
            return ("obj",)
        s = I.to_scalar(x)
        return ("s", s) if s is not None else ("v", repr(x))

    def entries(m):
        if isinstance(m, SP.SpMat):
            m = I.call(I.getattr(m, "toarray"), [], {})
        if not isinstance(m, NP.NdArr):
            raise Finding("pauli-alias", "matrix", f"{m!r} is no matrix")
        return ("m", m.shape) + tuple(I.to_scalar(c) for c in m.cells())

    def scribble(m):
        if isinstance(m, SP.SpMat):
            d = m.data
            d.write(I, [(i, 7) for i in d.idx])
        else:
            m.write(I, [(i, 7) for i in m.idx])

    def right(m, ch):
        w = MAT[ch]
        cells = m.cells()
        return m.shape == (2, 2) and all(s_equal(I.to_scalar(cells[2 * i + j]), Scalar.lift(complex(w.get((i, j), 0)))) for i in (0, 1) for j in (0, 1))
    w = lambda f: (lambda I, a, k: f(*a))
    return {"pub": lambda I, a, k: ("pub", fields(a[0])), "entries": lambda I, a, k: entries(a[0]), "scribble": w(scribble), "right_matrix": w(right),
            "real": lambda I, a, k: Scalar.sym(a[0])}


def check(ck):
    I = ck.use(new_interp())
    P = PauliSem(I)
    S = Script(ck, I, SRC, **natives(I, P))
    S.on_start = P.start
    rule = "pauli-alias"
    deep = ck.tier == "thorough"
    ops = [k for k, _ in S.m.f["UN"].pairs()]
    bops = [k for k, _ in S.m.f["BIN"].pairs()]
    al = PAU + TRM + EXP
    S.run(rule, ["ob_tables_ok", "ob_qubo_bit"])
    S.run(rule, ["ob_unary"], [(k, o) for k in al for o in ops])
    few = ["I", "X", "TX", "TXY", "E0", "Edup"]
    A = al + ["n", "1j"]
    S.run(rule, ["ob_binary"], [(k, l, o) for k in A for l in A if (k in few or l in few or deep) and not (k in ("n", "1j") and l in ("n", "1j")) for o in bops])
    S.run(rule, ["ob_fresh"], [(k, h) for k in al for h in (["matrix"] if k in PAU else []) + ["dense", "dense4", "csr3", "csc3"] + FMT])
    S.run(rule, ["ob_ctor_matrix"], [(c,) for c in "IXYZ"])
