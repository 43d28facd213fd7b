import itertools
from ..paulisem import *

RULE = ("Interpretation of the Pauli operators' arithmetic against the algebra of Pauli products: every operator form (+, -, *, /, unary -, **, commutator) is "
        "interpreted on operands of every type and shape (Pauli operators, Terms with up to three factors, Exprs with up to three terms, numbers) with symbolic "
        "qubit indices and symbolic coefficients, forking where indices or coefficients may coincide; the result, read as a table from Pauli products to "
        "coefficients, must be the combination of the operands' tables. simplify() is decided on all words of letters up to the stated length.")
ASSUME = ["tuples are no Pauli objects although the classes inherit from tuple", "is_commutable() is exact up to its epsilon", "** is defined for Term and Expr"]
HISTORY = True
MIN_OBLIGATIONS = 400
BATCH = True

SRC = '''
from blueqat.pauli import X, Y, Z, I, Term, Expr, commutator, is_commutable, to_term, to_expr, term_from_chars, pauli_from_char, qubo_bit

a, b, e = nat("a"), nat("b"), nat("e")
c, d, s, t = cplx("c"), cplx("d"), real("s"), real("t")

MK = {
    "I": lambda: I, "X": lambda: X[a], "Y": lambda: Y[a], "Z": lambda: Z[a], "Xb": lambda: X[b], "Zb": lambda: Z(b), "Y0": lambda: Y[0],
    "T0": lambda: Term((), c), "TX": lambda: Term((X[a],), c), "TYb": lambda: Term((Y[b],), d), "TZ": lambda: Term((Z[a],), 2.0),
    "TXY": lambda: Term((X[a], Y[a]), c), "TXYb": lambda: Term((X[a], Y[b]), d), "TZbX": lambda: Term((Z[b], X[a]), c), "T00": lambda: Term((), 0),
    "TI": lambda: Term((I, X[b]), d), "TXYZ": lambda: Term((X[a], Y[b], Z[a]), d), "TXX": lambda: Term((X[a], X[a], Z[b]), s),
    "T0X": lambda: Term((X[0],), 0.0), "TZ1X0": lambda: Term((Z[1], X[0]), 2j),
    "E0": lambda: Expr(()), "EI": lambda: Expr((Term((), c),)), "EX": lambda: Expr((Term((X[a],), c),)),
    "EXY": lambda: Expr((Term((X[a],), c), Term((Y[b],), d))), "EXX": lambda: Expr((Term((X[a],), c), Term((X[b],), d))),
    "ErepX": lambda: Expr((Term((X[a],), c), Term((X[a],), d))), "EZ1": lambda: Expr((Term((Z[0],), s), Term((), t))),
    "EXZ": lambda: Expr((Term((X[0], Z[1]), c), Term((Z[1], X[0]), d), Term((), s))),
    "E3": lambda: Expr((Term((Y[0],), 1.5), Term((Z[1], Z[0]), -2), Term((), 1j))),
    "n": lambda: s, "nc": lambda: d, "0": lambda: 0, "0.": lambda: 0.0, "2": lambda: 2, "1.5": lambda: 1.5, "2j": lambda: 2j, "-1": lambda: -1,
    "True": lambda: True,
}

def pauli_type(x):
    return isinstance(x, (Term, Expr)) or hasattr(x, "is_identity") and hasattr(x, "to_term")

def ob_add(k, l):
    x, y = MK[k](), MK[l]()
    r = x + y
    expect(isinstance(r, (Term, Expr)), "x + y is no Pauli expression", r)
    expect(is_op(r, vadd(x, y)), "x + y is not the sum", k, l, r, vadd(x, y))

def ob_sub(k, l):
    x, y = MK[k](), MK[l]()
    r = x - y
    expect(isinstance(r, (Term, Expr)), "x - y is no Pauli expression", r)
    expect(is_op(r, vsub(x, y)), "x - y is not the difference", k, l, r, vsub(x, y))

def ob_mul(k, l):
    x, y = MK[k](), MK[l]()
    r = x * y
    expect(isinstance(r, (Term, Expr)), "x * y is no Pauli expression", r)
    expect(is_op(r, vmul(x, y)), "x * y is not the product", k, l, r, vmul(x, y))

def ob_iadd(k, l):
    x, y = MK[k](), MK[l]()
    w = v(x)
    r = x
    r += y
    expect(is_op(r, vadd(w, y)), "x += y is not the sum", k, l, r)
    r -= y
    expect(is_op(r, w), "x += y; x -= y is not x", k, l, r)
    r *= y
    expect(is_op(r, vmul(w, y)), "x *= y is not the product", k, l, r)

def ob_div(k, l):
    x, n = MK[k](), MK[l]()
    if n == 0:
        expect(raises(lambda: x / n) == "ZeroDivisionError", "division by zero", k, l, raises(lambda: x / n))
        return
    r = x / n
    expect(pauli_type(r), "x / n is no Pauli object", r)
    expect(is_op(r, vdiv(x, n)), "x / n is not the quotient", k, l, r, vdiv(x, n))

def ob_neg(k):
    x = MK[k]()
    expect(pauli_type(-x), "-x is no Pauli object", -x)
    expect(is_op(-x, vneg(x)), "-x is not the negation", k, -x)

def ob_pow(k):
    x = MK[k]()
    for n in range(4):
        r = x ** n
        expect(isinstance(r, type(x)), "x ** n has another type", r)
        expect(is_op(r, vpow(x, n)), "x ** n is not the product of n factors", k, n, r, vpow(x, n))
    expect(raises(lambda: x ** -1) == "ValueError", "x ** -1 has to raise ValueError")

def ob_pow_type(k):
    x = MK[k]()
    for n in (1.5, 2.0, "2", None, 1j):
        expect(raises(lambda: x ** n) == "TypeError", "x ** n of a wrong type has to raise TypeError", k, n, raises(lambda: x ** n))

def ob_commutator(k, l):
    x, y = MK[k](), MK[l]()
    w = vsub(vmul(x, y), vmul(y, x))
    r = commutator(x, y)
    expect(is_op(r, w), "commutator(x, y) is not xy - yx", k, l, r, w)
    if hasattr(x, "commutator"):
        r = x.commutator(y)
        expect(is_op(r, w), "x.commutator(y) is not xy - yx", k, l, r)

def ob_commutable(k, l):
    x, y = MK[k](), MK[l]()
    w = is_op(vmul(x, y), vmul(y, x))
    expect(is_commutable(x, y) == w, "is_commutable differs from a vanishing commutator", x, y, is_commutable(x, y))
    if hasattr(x, "is_commutable_with"):
        expect(x.is_commutable_with(y) == w, "is_commutable_with differs from a vanishing commutator", x, y)

SMALL = [
    X[0] + Z[1], Y[0] + Y[1], X[0] + 1j*Z[1], Y[0] - Y[1], 1j*Y[0] + Y[1], X[0] - Z[0], X[0] + Z[0], X[0]*X[1] + Y[0]*Y[1], Z[0]*Z[1] - X[0], Z[0] + Z[1] + Z[2],
    X[0]*X[1] + Y[1]*Y[2] - Z[0]*Z[2], (1+1j)*X[2] + (1-1j)*Y[2] - 2*Z[2], X[0]*Y[1]*Z[2] + 2, 0.1*X[0] - 0.1*Y[0], X[0] + X[0]*X[1], Z[0]*Z[1]*Z[2] - 1j*X[0]*X[1]]

def ob_small_commutable(i, j):
    x, y = SMALL[i], SMALL[j]
    w = is_op(vmul(x, y), vmul(y, x))
    expect(is_commutable(x, y) == w, "is_commutable differs from a vanishing commutator", x, y, is_commutable(x, y))
    expect(x.is_commutable_with(y) == w, "is_commutable_with differs from a vanishing commutator", x, y)
    expect(Expr(x.terms + y.terms).is_all_terms_commutable() == all(is_op(vmul(p, q), vmul(q, p)) for p in x.terms + y.terms for q in x.terms + y.terms),
           "is_all_terms_commutable differs from pairwise vanishing commutators", x, y)

def ob_all_commutable(*ks):
    ts = tuple(to_term(MK[k]()) for k in ks)
    w = all(is_op(vmul(p, q), vmul(q, p)) for p in ts for q in ts)
    expect(Expr(ts).is_all_terms_commutable() == w, "is_all_terms_commutable differs from pairwise vanishing commutators", ts)

def ob_simplify(k):
    x = MK[k]()
    check_simple(x, x.simplify())

def check_simple(x, r):
    expect(isinstance(r, type(x)), "simplify() changes the type", r)
    expect(is_op(r, v(x)), "simplify() changes the operator", x, r, v(r), v(x))
    terms = r.terms if isinstance(r, Expr) else (r,)
    for u in terms:
        if not isinstance(r, Term):
            expect(u.coeff != 0, "a term with coefficient 0 is kept", x, r)
        last = -1
        for op in u.ops:
            expect(op.op in ("X", "Y", "Z"), "simplify() keeps an identity factor", x, r)
            expect(op.n > last, "the factors are not sorted by distinct qubits", x, r)
            last = op.n
    for i in range(len(terms)):
        for j in range(i):
            expect(terms[i].ops != terms[j].ops, "like terms are not merged", x, r)

P = {"x": X, "y": Y, "z": Z}
def word(w):
    return tuple(I if ch == "i" else P[ch.lower()][1 if ch.isupper() else 0] for ch in w)

def ob_word(w):
    x = Term(word(w), c)
    check_simple(x, x.simplify())

def ob_join(w, u):
    x, y = Term(word(w), c), Term(word(u), d)
    r = x * y
    expect(is_op(r, vmul(x, y)), "Term * Term is not the product", x, y, r)
    if len(u) == 1:
        q = word(u)[0]
        expect(is_op(x * q, vmul(x, q)), "Term * Pauli is not the product", x, q, x * q)
        expect(is_op(q * x, vmul(q, x)), "Pauli * Term is not the product", q, x, q * x)
    if len(w) == 1 and len(u) == 1:
        p, q = word(w)[0], word(u)[0]
        expect(is_op(p * q, vmul(p, q)), "Pauli * Pauli is not the product", p, q, p * q)

def ob_expr_words(*ws):
    cs = (c, d, s)
    x = Expr(tuple(Term(word(w), k) for w, k in zip(ws, cs)))
    check_simple(x, x.simplify())

def ob_zero_words(w, u):
    x = Expr((Term(word(w), c), Term(word(u), -c), Term((), 0.0)))
    check_simple(x, x.simplify())
    x = Expr((Term(word(w), c), Term(word(u), c)))
    check_simple(x, x.simplify())

def ob_types(k):
    x = MK[k]()
    for bad in ("1", None, [1], {}, object(), print):
        for nm, f in (("+", lambda: x + bad), ("r+", lambda: bad + x), ("-", lambda: x - bad), ("r-", lambda: bad - x), ("/", lambda: x / bad), ("r/", lambda: bad / x)):
            expect(raises(f) == "TypeError", "an unsupported operand type has to raise TypeError", nm, k, bad, raises(f))
        if not isinstance(bad, int):
            expect(raises(lambda: x * bad) == "TypeError", "an unsupported operand type has to raise TypeError", "*", k, bad, raises(lambda: x * bad))

def ob_div_types(k, l):
    x, y = MK[k](), MK[l]()
    expect(raises(lambda: y / x) == "TypeError", "division by a Pauli object has to raise TypeError", l, k, raises(lambda: y / x))

def ob_convert(k):
    x = MK[k]()
    if not isinstance(x, Expr):
        expect(isinstance(x.to_term(), Term) and isinstance(to_term(x), Term), "to_term() is no Term")
        expect(is_op(x.to_term(), v(x)) and is_op(to_term(x), v(x)), "to_term() changes the operator", x, x.to_term())
    expect(isinstance(x.to_expr(), Expr) and isinstance(to_expr(x), Expr), "to_expr() is no Expr")
    expect(is_op(x.to_expr(), v(x)) and is_op(to_expr(x), v(x)), "to_expr() changes the operator", x, x.to_expr())

def ob_size(k):
    x = to_term(MK[k]())
    ns = [op.n for op in x.ops]
    expect(list(x.n_iter()) == ns, "n_iter() is not the factors' indices", x)
    m = -1
    for n in ns:
        if n > m:
            m = n
    expect(x.max_n() == m, "max_n() is not the largest index", x, x.max_n())
    expect(x.n_qubits == m + 1, "n_qubits is not the largest index plus one", x, x.n_qubits)
    expect(x.is_identity == (not ns), "is_identity", x)
    y = Expr((x, Term((), 3.0), Term((Z[1],), 2.0)))
    expect(y.max_n() == (m if m > 1 else 1), "max_n() of an Expr is not the largest index", y, y.max_n())
    expect(y.n_qubits == y.max_n() + 1, "n_qubits of an Expr", y)
    expect(Expr((Term((), 3.0),)).max_n() == -1 and Expr(()).max_n() == -1, "max_n() without a factor")
    expect(list(y.coeffs()) == [x.coeff, 3.0, 2.0], "coeffs()", y)
    expect([p for p in y] == list(y.terms), "iteration", y)

def ob_pauli_size(k):
    x = MK[k]()
    if x.is_identity:
        expect(x.n_qubits == 0 and x.op == "I", "n_qubits of I")
    else:
        expect(x.n_qubits == x.n + 1 and x.op == k[0], "n_qubits of a Pauli operator", x)

def ob_chars(w):
    r = term_from_chars(w)
    x = Term(tuple(I if ch == "I" else {"X": X, "Y": Y, "Z": Z}[ch][len(w) - 1 - i] for i, ch in enumerate(w)), 1.0)
    expect(is_op(r, v(x)), "term_from_chars: the last letter is qubit 0", w, r)
    r = Term.from_chars(w)
    x = Term(tuple(I if ch == "I" else {"X": X, "Y": Y, "Z": Z}[ch][i] for i, ch in enumerate(w)), 1.0)
    expect(is_op(r, v(x)), "Term.from_chars: the first letter is qubit 0", w, r)

def ob_bad_chars(w):
    expect(raises(term_from_chars, w) == "ValueError", "an unknown letter has to raise ValueError", w)
    expect(raises(Term.from_chars, w) == "ValueError", "an unknown letter has to raise ValueError", w)

def ob_char(ch):
    r = pauli_from_char(ch, a)
    expect(is_op(r, v(I if ch in "iI" else {"X": X, "Y": Y, "Z": Z}[ch.upper()][a])), "pauli_from_char", ch, r)
    expect(raises(pauli_from_char, "A", a) == "ValueError", "an unknown letter has to raise ValueError")

def ob_qubo_bit():
    expect(is_op(qubo_bit(a), vsub(0.5, vmul(0.5, Z[a]))), "qubo_bit is not (1 - Z) / 2", qubo_bit(a))
'''

PAU = ["I", "X", "Y", "Z", "Xb", "Zb", "Y0"]
TRM = ["T0", "TX", "TYb", "TZ", "TXY", "TXYb", "TZbX", "T00", "TI", "TXYZ", "TXX", "T0X", "TZ1X0"]
EXP = ["E0", "EI", "EX", "EXY", "EXX", "ErepX", "EZ1", "EXZ", "E3"]
NUM_ = ["n", "nc", "0", "0.", "2", "1.5", "2j", "-1", "True"]


def words(alpha, lo, hi):
    return [("".join(w)) for n in range(lo, hi + 1) for w in itertools.product(alpha, repeat=n)]


def check(ck):
    I = ck.use(new_interp())
    P = PauliSem(I)
    nat = P.natives()
    nat.update(real=lambda I, a, k: Scalar.sym(a[0]), cplx=lambda I, a, k: Scalar.sym(a[0], real=False))
    S = Script(ck, I, SRC, **nat)
    S.on_start = P.start
    rule = "pauli-algebra"
    deep = ck.tier == "thorough"
    pe = PAU + TRM + EXP
    # a part of the pairs carries all the interesting combinations of representation; the thorough tier takes every pair
    few = ["I", "X", "Zb", "T0", "TXY", "TZbX", "T0X", "EX", "EXX", "ErepX", "E0", "E3"]
    A = pe if deep else few
    add_pairs = [(x, y) for x in A for y in A] + [(x, y) for x in pe for y in pe if (x in few) != (y in few) and not deep and (x in ("X", "TXY", "EXX") or y in ("X", "TXY", "EXX"))]
    num_pairs = [(x, n) for x in pe for n in (NUM_ if deep or x in few else ["n", "0", "2j"])]
    S.run(rule, ["ob_add", "ob_sub", "ob_mul"], add_pairs + num_pairs + [(n, x) for x, n in num_pairs])
    S.run(rule, ["ob_iadd"], [(x, y) for x in ("X", "TXYb", "EXY") for y in ("Y", "TZ", "EX", "2")])
    S.run(rule, ["ob_div"], [(x, n) for x in pe for n in NUM_])
    S.run(rule, ["ob_neg", "ob_convert"], [(x,) for x in pe])
    S.run(rule, ["ob_size"], [(x,) for x in PAU + TRM if x != "TI"])
    S.run(rule, ["ob_pauli_size"], [(x,) for x in PAU])
    S.run(rule, ["ob_pow", "ob_pow_type"], [(x,) for x in TRM + (EXP if deep else ["E0", "EX", "EXX", "ErepX", "E3"])])
    S.run(rule, ["ob_commutator"], [(x, y) for x in (A if deep else ["I", "X", "TXY", "TZbX", "EXX", "E3"]) for y in (A if deep else ["I", "Zb", "Y", "TYb", "TXYb", "EX", "E3"]) if deep or (x, y) != ("EXX", "E3")])
    S.run(rule, ["ob_commutable"], [(x, y) for x in ["I", "X", "Zb", "Y0", "TZ", "T00", "T0X", "TZ1X0", "E0", "E3"] for y in ["I", "X", "Z", "Xb", "Y0", "TZ", "T0X", "TZ1X0", "E0", "E3"]])
    S.run(rule, ["ob_small_commutable"], [(i, j) for i in range(16) for j in range(16)])
    S.run(rule, ["ob_all_commutable"], [x for n in range(4) for x in itertools.product(["X", "Zb", "TZ1X0"], repeat=n)] + [("I", "Y0", "Z")])
    S.run(rule, ["ob_simplify"], [(x,) for x in TRM + EXP])
    S.run(rule, ["ob_types"], [(x,) for x in ["I", "X", "TXYb", "T0", "EXY", "E0"]])
    S.run(rule, ["ob_div_types"], [(x, y) for x in ["I", "X", "TXYb", "T0", "EXY"] for y in ["2", "n", "X", "TX", "EX"]])
    S.run(rule, ["ob_word"], [(w,) for w in words("xyzXZi", 0, 3 if not deep else 4) + words("xyz", 4, 4 if not deep else 6)])
    ws = words("xyzX", 0, 2) + (words("xyzX", 3, 3) if deep else ["xyx", "xyX", "Xxy", "zzx"])
    S.run(rule, ["ob_join"], [(w, u) for w in ws for u in ws])
    S.run(rule, ["ob_expr_words"], [x for x in itertools.product(["", "x", "yz", "Xx", "xX"], repeat=3)])
    S.run(rule, ["ob_zero_words"], [x for x in itertools.product(["", "x", "zz", "Xx", "xX", "yx", "z"], repeat=2)])
    S.run(rule, ["ob_chars"], [(w,) for w in words("IXYZ", 1, 3) + ["IIXYZ", "ZIIIX"]])
    S.run(rule, ["ob_bad_chars"], [("XAZ",), ("ABC",), ("X1",), (" ",)])
    S.run(rule, ["ob_char"], [(ch,) for ch in "IXYZixyz"])
    S.run(rule, ["ob_qubo_bit"])
