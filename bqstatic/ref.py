"""Oracle: the defining unitaries of the gate set, written independently of the analysed tree."""
import itertools
import math
from .scalar import Scalar, expi, apply_fn

C = Scalar.const
Z0, ONE_ = C(0j), C(1 + 0j)
R2 = 1 / math.sqrt(2)


def m2(a, b, c, d):
    return [[Scalar.lift(a), Scalar.lift(b)], [Scalar.lift(c), Scalar.lift(d)]]


def rx(t):
    c, s = apply_fn("cos", [t * 0.5]), apply_fn("sin", [t * 0.5])
    return m2(c, s * -1j, s * -1j, c)


def ry(t):
    c, s = apply_fn("cos", [t * 0.5]), apply_fn("sin", [t * 0.5])
    return m2(c, -s, s, c)


def rz(t):
    return m2(expi(t * -0.5), Z0, Z0, expi(t * 0.5))


def phase(t):
    return m2(1, 0, 0, expi(t))


def u3(t, p, l):
    return mul(mul(rz(p), ry(t)), rz(l))


def u2(p, l):
    return u3(C(math.pi / 2), p, l)


def mul(A, B):
    n = len(A)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            s = Scalar({})
            for k in range(n):
                s = s + A[i][k] * B[k][j]
            row.append(s)
        out.append(row)
    return out


def adj(A):
    n = len(A)
    return [[A[j][i].conj() for j in range(n)] for i in range(n)]


def ident(n):
    return [[C(1 if i == j else 0) for j in range(n)] for i in range(n)]


def kron(A, B):
    """A acts on the high bits"""
    n, m = len(A), len(B)
    return [[A[i // m][j // m] * B[i % m][j % m] for j in range(n * m)] for i in range(n * m)]


I2 = ident(2)
X = m2(0, 1, 1, 0)
Y = m2(0, -1j, 1j, 0)
Z = m2(1, 0, 0, -1)
H = m2(R2, R2, R2, -R2)
T = m2(1, 0, 0, complex(R2, R2))
TDG = m2(1, 0, 0, complex(R2, -R2))
S = m2(1, 0, 0, 1j)
SDG = m2(1, 0, 0, -1j)


def ctrl(U):
    """first operand (bit 0) is the control, the remaining ones are U's operands"""
    n = len(U)
    out = [[C(0)] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        out[2 * i][2 * i] = C(1)
        for j in range(n):
            out[2 * i + 1][2 * j + 1] = U[i][j]
    return out


SWAP = [[C(1 if (i == ((j & 1) << 1 | j >> 1)) else 0) for j in range(4)] for i in range(4)]


def pp(P, t):
    """exp(-i t/2 P (x) P)"""
    K = kron(P, P)
    c, s = apply_fn("cos", [t * 0.5]), apply_fn("sin", [t * 0.5])
    return [[(c if i == j else C(0)) + K[i][j] * s * -1j for j in range(4)] for i in range(4)]


# name -> (number of operands, parameter names, unitary, phase-exact in the documented convention)
GATES = {
    "i": (1, (), lambda: I2), "x": (1, (), lambda: X), "y": (1, (), lambda: Y), "z": (1, (), lambda: Z),
    "h": (1, (), lambda: H), "t": (1, (), lambda: T), "tdg": (1, (), lambda: TDG), "s": (1, (), lambda: S),
    "sdg": (1, (), lambda: SDG), "rx": (1, ("theta",), rx), "ry": (1, ("theta",), ry), "rz": (1, ("theta",), rz),
    "phase": (1, ("theta",), phase), "u1": (1, ("lambd",), rz), "u2": (1, ("phi", "lambd"), u2),
    "u3": (1, ("theta", "phi", "lambd"), u3),
    "cx": (2, (), lambda: ctrl(X)), "cy": (2, (), lambda: ctrl(Y)), "cz": (2, (), lambda: ctrl(Z)),
    "ch": (2, (), lambda: ctrl(H)), "crx": (2, ("theta",), lambda t: ctrl(rx(t))), "cry": (2, ("theta",), lambda t: ctrl(ry(t))),
    "crz": (2, ("theta",), lambda t: ctrl(rz(t))), "cphase": (2, ("theta",), lambda t: ctrl(phase(t))),
    "cu1": (2, ("lambd",), lambda l: ctrl(phase(l))), "cu2": (2, ("phi", "lambd"), lambda p, l: ctrl(u2(p, l))),
    "cu3": (2, ("theta", "phi", "lambd"), lambda t, p, l: ctrl(u3(t, p, l))),
    "swap": (2, (), lambda: SWAP), "rxx": (2, ("theta",), lambda t: pp(X, t)), "ryy": (2, ("theta",), lambda t: pp(Y, t)),
    "rzz": (2, ("theta",), lambda t: pp(Z, t)),
    "ccx": (3, (), lambda: ctrl(ctrl(X))), "ccz": (3, (), lambda: ctrl(ctrl(Z))), "cswap": (3, (), lambda: ctrl(SWAP)),
}
ALIASES = {"cnot": "cx", "r": "phase", "cr": "cphase", "toffoli": "ccx", "m": "measure"}
PHASE_FREE = {"cu1", "cu2", "cu3"}


def apply(U, qs, tab):
    """tab: {bits: value}; qs: indices into the bit tuple, first operand = bit 0 of U's index"""
    out = {}
    k = len(qs)
    for b in tab:
        row = sum(b[q] << j for j, q in enumerate(qs))
        s = Scalar({})
        for col in range(1 << k):
            u = U[row][col]
            if u.is_zero():
                continue
            c = list(b)
            for j, q in enumerate(qs):
                c[q] = col >> j & 1
            s = s + u * Scalar.lift(tab[tuple(c)])
        out[b] = s
    return out
