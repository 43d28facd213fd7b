import itertools
from ..paulisem import *

RULE = ("Interpretation of to_matrix() (and of everything it calls: Kronecker data, index arithmetic, scipy.sparse construction) for Pauli operators, Terms and Exprs with "
        "symbolic coefficients: every entry of the result, in the dense and in all sparse formats, must be the entry of the operator's matrix with qubit 0 as the least "
        "significant index bit. All Pauli strings up to the stated width are enumerated, besides words with repeated and permuted factors and sums of terms that share, "
        "miss or cancel entries.")
ASSUME = ["numpy and scipy.sparse constructors and conversions work as documented"]
HISTORY = True
MIN_OBLIGATIONS = 400
BATCH = True

SRC = '''
from blueqat.pauli import X, Y, Z, I, Term, Expr, term_from_chars

c, d, s = cplx("c"), cplx("d"), real("s")
CT = {"X": X, "Y": Y, "Z": Z}

def term(word, coeff):
    """word: letters with qubit digits, e.g. "X0Y2" """
    ops = []
    for i in range(0, len(word), 2):
        ops.append(CT[word[i]][int(word[i + 1])])
    return Term(tuple(ops), coeff)

def chk(x, fmt, n, own):
    w = v(x)
    if n is None:
        m = x.to_matrix(sparse=fmt) if fmt is not None else x.to_matrix()
        k = own
    else:
        m = x.to_matrix(n, sparse=fmt)
        k = n
    p = bad_entry(m, w, k, fmt)
    expect(p is None, "to_matrix() returns a wrong matrix", x, fmt, n, p)

def ob_pauli(ch, q, fmt):
    x = I if ch == "I" else CT[ch][q]
    own = 0 if ch == "I" else q + 1
    for n in (None, own, own + 1, own + 2):
        chk(x, fmt, n, own)
    if fmt is None:
        expect(bad_entry(x.matrix, v(x if ch == "I" else CT[ch][0]), 1, None) is None, ".matrix of a Pauli operator is wrong", x)
        if ch != "I":
            expect(bad_entry(CT[ch].matrix, v(CT[ch][0]), 1, None) is None, ".matrix is wrong", ch)

def ob_string(chars, fmt, n):
    ops = tuple(CT[ch][q] for q, ch in enumerate(chars) if ch != "I")
    own = max([q + 1 for q, ch in enumerate(chars) if ch != "I"], default=0)
    if n is not None and n < own:
        return
    chk(Term(ops, c), fmt, n, own)
    if len(ops) > 1 and len(ops) < 4:
        chk(Term(ops[1:] + ops[:1], d), fmt, n, own)
        chk(Term(ops[::-1], s), fmt, n, own)

def ob_word(word, coeff, fmt, n):
    chk(term(word, {"c": c, "s": s, "0": 0.0, "1": 1, "2j": 2j}[coeff]), fmt, n, max([int(word[i]) + 1 for i in range(1, len(word), 2)], default=0))

COEFFS = [c, d, s, 1.0]
def ob_expr(words, fmt, n):
    e = Expr(tuple(term(w, COEFFS[i]) for i, w in enumerate(words)))
    own = max([int(w[i]) + 1 for w in words for i in range(1, len(w), 2)], default=0)
    chk(e, fmt, n, own)

def ob_cancel(words, fmt, n):
    """terms with opposite coefficients, and more than one copy of each"""
    ts = tuple(term(w, c) for w in words) + tuple(term(w, -c) for w in words) + tuple(term(w, d) for w in words[1:]) + tuple(term(w, 1.0) for w in words[1:])
    own = max([int(w[i]) + 1 for w in words for i in range(1, len(w), 2)], default=0)
    chk(Expr(ts), fmt, n, own)
    chk(Expr(ts[:2 * len(words)]), fmt, n, own)

def ob_format(kind, fmt, n):
    x = {"I": I, "X": X[1], "T": Term((X[0], Y[1]), c), "T0": Term((), c), "E": Expr((Term((X[0],), c), Term((Z[1],), d))), "E0": Expr(()), "EI": Expr((Term((), c),))}[kind]
    r = raises(lambda: x.to_matrix(sparse=fmt)) if n is None else raises(lambda: x.to_matrix(n, sparse=fmt))
    expect(r == "ValueError", "an unknown sparse format has to raise ValueError", x, fmt, r)
'''

FMT = [None, "bsr", "coo", "csc", "csr", "dia", "dok", "lil"]


def natives(I, P):
    from .. import spmodel as SP

    def bad(m, op, n, fmt):
        """None, or the description of the first wrong entry"""
        want = P.matrix(op, n)
        if fmt is None:
            if not isinstance(m, NP.NdArr):
                return f"{m!r} is no array"
        else:
            if not isinstance(m, SP.SpMat) or m.fmt != fmt:
                return f"{m!r} is no sparse matrix of format {fmt}"
            m = I.call(I.getattr(m, "toarray"), [], {})
        N = 1 << n
        if m.shape != (N, N):
            return f"shape {m.shape} instead of {(N, N)}"
        cells = m.cells()
        zero = Scalar.lift(0)
        for r in range(N):
            for q in range(N):
                g, w = I.to_scalar(cells[r * N + q]), want.get((r, q), zero)
                if g is None or not s_equal(I.E.norm(g), I.E.norm(w)):
                    return f"entry ({r}, {q}) is {g!r} instead of {w!r}"
        return None
    return {"cplx": lambda I, a, k: Scalar.sym(a[0], real=False), "real": lambda I, a, k: Scalar.sym(a[0]), "bad_entry": lambda I, a, k: bad(*a)}


def check(ck):
    I = ck.use(new_interp())
    P = PauliSem(I)
    nat = P.natives()
    nat.update(natives(I, P))
    S = Script(ck, I, SRC, **nat)
    S.on_start = P.start
    rule = "pauli-matrix"
    deep = ck.tier == "thorough"
    st = lambda n: ["".join(x) for x in itertools.product("IXYZ", repeat=n)]
    S.run(rule, ["ob_pauli"], [(ch, q, f) for ch in "IXYZ" for q in range(3) for f in FMT])
    S.run(rule, ["ob_string"], [(w, f, n) for k in (1, 2) for w in st(k) for f in FMT for n in (None, k, k + 1)])
    S.run(rule, ["ob_string"], [(w, f, None) for w in st(3) for f in FMT])
    S.run(rule, ["ob_string"], [(w, f, 4) for w in st(4) for f in (FMT if deep else [None])])
    some5 = ["XIIIX", "IIIYI", "YYYYY", "ZZIIZ", "IXYZI", "XYZXY", "YIYIY", "ZIIIZ", "IIIII", "ZZZZZ", "XXXXX", "YZYZX", "IIZYX"]
    S.run(rule, ["ob_string"], [(w, f, 5) for w in (st(5) if deep else some5) for f in ([None, "csr", "csc"] if deep else FMT)])
    S.run(rule, ["ob_string"], [(w, f, 6) for w in ["IYIZIX", "YYYZZZ", "ZIZIZI", "YXYXYX", "IIIIIZ", "ZYZYZY"] for f in (None, "csr", "csc")])
    two = [a + b for a in "XYZ" for b in "01"]
    ws = [""] + ["".join(x) for k in (2, 3) for x in itertools.product(two, repeat=k)]
    S.run(rule, ["ob_word"], [(w, "c", f, n) for w in ws for f, n in [(None, None), ("csr", 2)]])
    S.run(rule, ["ob_word"], [(w, co, f, n) for w in ["", "X0", "X1X1", "Y1Z0Y1", "Z2X0", "X2X0Y2", "Z0Z1Z2Z0"] for co in ("s", "0", "1", "2j") for f in FMT for n in (None, 3)])
    base = ["", "X0", "Y1", "Z1", "X1X0", "Y0Y1", "Z0", "X0Y1X0", "Z2"]
    ex = [()] + [(a,) for a in base] + [(a, b) for a in base for b in base] + [("X0", "Z1", "Y0"), ("Z0", "Z1", "Z0Z1", ""), ("X0", "Y0", "Y1", "X1"), ("X0X1", "Y0Y1", "Z0Z1"), ("Z2", "X0Z2", "Y0", "")]
    S.run(rule, ["ob_expr"], [(w, f, n) for w in ex for f, n in ([(f, n) for f in FMT for n in (None, 3)] if deep or len(w) != 2 else [(None, None), ("csr", 3), ("csc", None)])])
    S.run(rule, ["ob_cancel"], [(w, f, n) for w in [("X0",), ("X0", "Y0"), ("Z0", "Y1"), ("X0X1", "Y0Y1"), ("", "Z0")] for f in FMT for n in (None, 3)])
    S.run(rule, ["ob_format"], [(k, f, n) for k in ["I", "X", "T", "T0", "E", "E0", "EI"] for f in ["dense", "CSR", "", "cs", "array", "ell"] for n in (None, 2)])
