import itertools
from ..gatesem import *
from ..paulisem import PauliSem, MUL

RULE = ("Abstract interpretation of Term.get_time_evolution() and Term.append_to_circuit() with a symbolic real coefficient, symbolic time, symbolic qubit indices in every "
        "order and a circuit of symbolic width: the product of the defining unitaries of the appended gates must be cos(ct) + i sin(ct) P up to a global phase on the "
        "term's qubits and touch no other; all Pauli words up to the stated number of factors are enumerated, with repeated factors whose coefficient stays real or does not.")
ASSUME = ["c and t are real numbers (ValueError is required exactly when the simplified coefficient is not real)"]
HISTORY = True
MIN_OBLIGATIONS = 150
BATCH = True


def word_phase(word):
    """(phase, {position: letter}) of a product"""
    ph, t = 1, {}
    for q, l in word:
        if l == "I":
            continue
        if q not in t:
            t[q] = l
        elif t[q] == l:
            del t[q]
        else:
            k, t[q] = MUL[t[q], l]
            ph = ph * k
    return ph, t


def letter(I, q, l):
    m = I.load("blueqat.pauli").f
    return m["I"] if l == "I" else I.call(m[l], [q], {})


def mk_term(I, P, word, coeff):
    m = I.load("blueqat.pauli").f
    return I.call(m["Term"], [tuple(letter(I, P.p[q], l) for q, l in word), coeff], {})


def mk_circuit(I, P, pre):
    """a circuit of the generic width, which may hold an operation already"""
    c = I.call(I.attr_path("blueqat.circuit", "Circuit"), [P.n], {})
    if pre:
        I.getitem(I.getattr(c, "y"), P.p[0])
    return c


def evolution(theta, letters, k):
    """cos(theta) + i sin(theta) P on k qubits as a matrix"""
    N = 1 << k
    PAULI = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z}
    M = [[Scalar.const(1)]]
    for j in range(k):
        M = ref.kron(PAULI[letters.get(j, "I")], M)
    co, si = ref.apply_fn("cos", [theta]), ref.apply_fn("sin", [theta])
    return [[(co if r == q else Scalar.const(0)) + M[r][q] * si * 1j for q in range(N)] for r in range(N)]


def appended(I, c, n0, con):
    ops = I.list_values(I.getattr(c, "ops"))
    return ops[n0:]


def check(ck):
    I = ck.use(new_interp())
    deep = ck.tier == "thorough"
    rule = "time-evolution"
    con = "Term.get_time_evolution"

    def evo(k, word, pre=0, twice=False):
        P = Pos(k)
        ph, letters = word_phase(word)

        def go():
            P.enter(I)
            s, t, u = Scalar.sym("c"), Scalar.sym("t"), Scalar.sym("u")
            coeff = s if ph == 1 else I.binop("*", s, complex(ph).conjugate())
            term = mk_term(I, P, word, coeff)
            f = I.call(I.getattr(term, "get_time_evolution"), [], {})
            c = mk_circuit(I, P, pre)
            before = I.list_values(I.getattr(c, "ops"))
            I.call(f, [c, t], {})
            if twice:
                I.call(f, [mk_circuit(I, P, pre), u], {})
                I.call(f, [c, u], {})
            ops = I.list_values(I.getattr(c, "ops"))
            if len(ops) < len(before) or any(a is not b for a, b in zip(ops, before)):
                raise Finding(rule, con, "the operations already in the circuit are changed")
            new = ops[len(before):]
            if not letters and new:
                raise Finding(rule, con, f"the evolution of a multiple of the identity appends {len(new)} operations")
            if not I.truth(I.int_cmp("==", I.getattr(c, "n_qubits"), P.n)):
                raise Finding(rule, con, f"the width {P.n} of the circuit becomes {I.getattr(c, 'n_qubits')}")
            if not letters:
                return
            st = steps(I, new, P, con)
            for _, idx, nm in st:
                for q in idx:
                    if q not in letters:
                        raise Finding(rule, con, f"{nm} acts on a qubit that is not in the simplified term")
            theta = I.to_scalar(I.binop("*", s, t if not twice else I.binop("+", t, u)))
            want = [(evolution(theta, letters, k), list(range(k)), "evolution")]
            same_up_to_phase(I, st, want, P, rule, con, "the gates for the evolution of " + name(word) + " are not exp(i c t P)")
        return go

    def nonreal(k, word, coeff):
        P = Pos(k)
        ph, letters = word_phase(word)

        def go():
            P.enter(I)
            c = Scalar.sym("c", real=False) if coeff == "c" else coeff
            term = mk_term(I, P, word, c)
            try:
                f = I.call(I.getattr(term, "get_time_evolution"), [], {})
                circ = mk_circuit(I, P, 0)
                I.call(f, [circ, Scalar.sym("t")], {})
                raised = None
            except PyRaise as e:
                raised = e.exc.cls.name
            eff = I.to_scalar(I.binop("*", ph, c))
            im = I.getattr(eff, "imag")
            real = I.truth(I.compare("==", im, 0))
            if real and raised:
                raise Finding(rule, con, f"raises {raised} for {name(word)} with the real coefficient {eff}")
            if not real and raised != "ValueError":
                raise Finding(rule, con, f"{'raises ' + raised if raised else 'accepts'} the coefficient {eff} of {name(word)}, which is not real")
        return go

    def append(k, word, simplify, pre=0):
        P = Pos(k)

        def go():
            P.enter(I)
            term = mk_term(I, P, word, Scalar.sym("c", real=False))
            c = mk_circuit(I, P, pre)
            before = I.list_values(I.getattr(c, "ops"))
            kw = {} if simplify is None else {"simplify": simplify}
            I.call(I.getattr(term, "append_to_circuit"), [c], kw)
            ops = I.list_values(I.getattr(c, "ops"))
            cn = "Term.append_to_circuit"
            if len(ops) < len(before) or any(a is not b for a, b in zip(ops, before)):
                raise Finding("append-term", cn, "the operations already in the circuit are changed")
            got = []
            for g in ops[len(before):]:
                for qs in operands(I, g, P.n):
                    got.append((pos_of(I, P, qs[0], cn), gate_name(I, g)))
            w = word if simplify is False else sorted(word_phase(word)[1].items())
            want = [(q, l.lower()) for q, l in reversed(list(w)) if l != "I"]
            # the simplified product has its factors on different qubits: they commute, the order is that of the simplified term
            if simplify is not False:
                ts = I.call(I.getattr(term, "simplify"), [], {})
                want = [(pos_of(I, P, I.getattr(p, "n"), cn), I.getattr(p, "op").lower()) for p in reversed(I.list_values(I.getattr(ts, "ops")))]
                if sorted(want) != sorted((q, l.lower()) for q, l in w):
                    raise Finding("append-term", cn, f"simplify() turns {name(word)} into {want}")
            if got != want:
                raise Finding("append-term", cn, f"{name(word)} appends {got} instead of {want}")
        return go

    def name(word):
        return "*".join(f"{l}{q}" for q, l in word) or "1"

    for k in range(0, 5 if not deep else 6):
        perms = list(itertools.permutations(range(k))) if k <= 3 or deep and k == 4 else [tuple(range(k)), tuple(reversed(range(k))), (2, 0, 3, 1)[:k] if k == 4 else (2, 0, 4, 3, 1)]
        for ls in itertools.product("XYZ", repeat=k):
            if k == 5 and sum(map(ord, ls)) % 7:
                continue
            for i, p in enumerate(perms):
                if k == 4 and i and not deep and len(set(ls)) < 3:
                    continue
                word = [(q, ls[q]) for q in p]
                ck.oblige(I, f"evolution of {name(word)}", evo(max(k, 1), word))
    for k, word in [(1, [(0, "X")]), (2, [(1, "Y"), (0, "Z")]), (3, [(2, "X"), (0, "Y"), (1, "Z")]), (1, [])]:
        ck.oblige(I, f"evolution of {name(word)} after other operations", evo(k, word, 1))
        ck.oblige(I, f"evolution of {name(word)} for two times", evo(k, word, 1, True))
    rep = ["XX", "XY", "YX", "ZZ", "XYZ", "XYX", "YZ", "IX", "ZI", "I"]
    for a in rep:
        for b in ["", "X", "Y", "ZX"]:
            word = [(0, l) for l in a] + [(1, l) for l in b]
            ck.oblige(I, f"evolution of {name(word)}", evo(2, word))
            word = [(1, l) for l in b] + [(0, l) for l in a]
            ck.oblige(I, f"evolution of {name(word)}", evo(2, word))
    for word in [[(0, "X"), (2, "Z"), (0, "Y"), (1, "X")], [(1, "Y"), (0, "Y"), (1, "Z"), (0, "Y")], [(2, "Z"), (1, "X"), (2, "Z"), (1, "X")]]:
        ck.oblige(I, f"evolution of {name(word)}", evo(3, word))
    # which coefficients are accepted
    for word in [[], [(0, "X")], [(0, "X"), (0, "Y")], [(0, "Z"), (1, "Y")], [(0, "Y"), (1, "X"), (0, "X")], [(1, "Y"), (1, "Y")], [(0, "X"), (0, "Y"), (0, "Z")], [(0, "X"), (1, "X"), (0, "Y"), (1, "Y")]]:
        for coeff in ["c", 1, 2.5, -1, 1j, 1 + 1j, complex(3, 0), 1e-5j, complex(0.5, -1e-4), 0, 0j]:
            ck.oblige(I, f"coefficient {coeff} of {name(word)}", nonreal(2, word, coeff))
    # Pauli gates of a term
    for k, words in [(1, ["", "X", "Y", "Z", "I", "XY", "XYX", "YYZ"]), (2, ["X0Y1", "Z1X0", "X0X1X0", "Y1I0Z0", "Z0Y1X0Y1"]), (3, ["X2Y0Z1", "Z0X1Y2", "X1X2X1Z0"])]:
        for w in words:
            word = [(0, l) for l in w] if k == 1 else [(int(w[i + 1]), w[i]) for i in range(0, len(w), 2)]
            for s in (None, True, False):
                for pre in (0, 1):
                    ck.oblige(I, f"append_to_circuit {name(word)} simplify={s}{' after y' if pre else ''}", append(k, word, s, pre))
