"""OpenQASM 2.0: reader of the emitted text and meaning of the qelib1 gates (expanded to U and CX from their definitions)."""
import cmath
import math
import re

from .scen import Finding

# definitions of qelib1.inc
QELIB1 = """
gate u3(theta,phi,lambda) q { U(theta,phi,lambda) q; }
gate u2(phi,lambda) q { U(pi/2,phi,lambda) q; }
gate u1(lambda) q { U(0,0,lambda) q; }
gate cx c,t { CX c,t; }
gate id a { U(0,0,0) a; }
gate u0(gamma) q { U(0,0,0) q; }
gate u(theta,phi,lambda) q { U(theta,phi,lambda) q; }
gate p(lambda) q { U(0,0,lambda) q; }
gate x a { u3(pi,0,pi) a; }
gate y a { u3(pi,pi/2,pi/2) a; }
gate z a { u1(pi) a; }
gate h a { u2(0,pi) a; }
gate s a { u1(pi/2) a; }
gate sdg a { u1(-pi/2) a; }
gate t a { u1(pi/4) a; }
gate tdg a { u1(-pi/4) a; }
gate rx(theta) a { u3(theta,-pi/2,pi/2) a; }
gate ry(theta) a { u3(theta,0,0) a; }
gate rz(phi) a { u1(phi) a; }
gate sx a { sdg a; h a; sdg a; }
gate sxdg a { s a; h a; s a; }
gate cz a,b { h b; cx a,b; h b; }
gate cy a,b { sdg b; cx a,b; s b; }
gate swap a,b { cx a,b; cx b,a; cx a,b; }
gate ch a,b { h b; sdg b; cx a,b; h b; t b; cx a,b; t b; h b; s b; x b; s a; }
gate ccx a,b,c { h c; cx b,c; tdg c; cx a,c; t c; cx b,c; tdg c; cx a,c; t b; t c; h c; cx a,b; t a; tdg b; cx a,b; }
gate cswap a,b,c { cx c,b; ccx a,b,c; cx c,b; }
gate crx(lambda) a,b { u1(pi/2) b; cx a,b; u3(-lambda/2,0,0) b; cx a,b; u3(lambda/2,-pi/2,0) b; }
gate cry(lambda) a,b { ry(lambda/2) b; cx a,b; ry(-lambda/2) b; cx a,b; }
gate crz(lambda) a,b { rz(lambda/2) b; cx a,b; rz(-lambda/2) b; cx a,b; }
gate cu1(lambda) a,b { u1(lambda/2) a; cx a,b; u1(-lambda/2) b; cx a,b; u1(lambda/2) b; }
gate cp(lambda) a,b { p(lambda/2) a; cx a,b; p(-lambda/2) b; cx a,b; p(lambda/2) b; }
gate cu3(theta,phi,lambda) c,t { u1((lambda+phi)/2) c; u1((lambda-phi)/2) t; cx c,t; u3(-theta/2,0,-(phi+lambda)/2) t; cx c,t; u3(theta/2,phi,0) t; }
gate csx a,b { h b; cu1(pi/2) a,b; h b; }
gate cu(theta,phi,lambda,gamma) c,t { p(gamma) c; p((lambda+phi)/2) c; p((lambda-phi)/2) t; cx c,t; u(-theta/2,0,-(phi+lambda)/2) t; cx c,t; u(theta/2,phi,0) t; }
gate rxx(theta) a,b { u3(pi/2,theta,0) a; h b; cx a,b; u1(-theta) b; cx a,b; h b; u2(-pi,pi-theta) a; }
gate rzz(theta) a,b { cx a,b; u1(theta) b; cx a,b; }
"""

ID = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*$")
TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|(\x01\d+\x02)|([a-zA-Z_]\w*)|([-+*/^(),]))")
FN = {"sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "exp": cmath.exp, "ln": cmath.log, "sqrt": cmath.sqrt}


class Bad(Exception):
    pass


def split_args(s):
    """top-level comma separated parts"""
    out, d, cur = [], 0, ""
    for c in s:
        d += (c == "(") - (c == ")")
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if s.strip() else []


def number(text, env):
    """value of a parameter expression; env: names and placeholders"""
    toks, pos = [], 0
    text = text.strip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Bad(f"parameter {text!r} is no OpenQASM expression")
        toks.append(m)
        pos = m.end()
    i = 0

    def peek():
        return toks[i].group(4) if i < len(toks) else None

    def atom():
        nonlocal i
        if i >= len(toks):
            raise Bad(f"parameter {text!r} is incomplete")
        m = toks[i]
        i += 1
        if m.group(1):
            return complex(float(m.group(1)))
        if m.group(2):
            return complex(env[m.group(2)])
        if m.group(3):
            n = m.group(3)
            if n in env:
                return complex(env[n])
            if n == "pi":
                return complex(math.pi)
            if n in FN and peek() == "(":
                i += 1
                v = expr()
                if peek() != ")":
                    raise Bad(f"parameter {text!r} is incomplete")
                i += 1
                return FN[n](v)
            raise Bad(f"{n} in the parameter {text!r} has no meaning in OpenQASM")
        if m.group(4) == "(":
            v = expr()
            if peek() != ")":
                raise Bad(f"parameter {text!r} is incomplete")
            i += 1
            return v
        raise Bad(f"parameter {text!r} is no OpenQASM expression")

    def unary():
        nonlocal i
        if peek() in ("-", "+"):
            s = peek()
            i += 1
            v = unary()
            return -v if s == "-" else v
        v = atom()
        if peek() == "^":
            i += 1
            v = v ** unary()
        return v

    def term():
        nonlocal i
        v = unary()
        while peek() in ("*", "/"):
            s = peek()
            i += 1
            w = unary()
            v = v * w if s == "*" else v / w
        return v

    def expr():
        nonlocal i
        v = term()
        while peek() in ("-", "+"):
            s = peek()
            i += 1
            w = term()
            v = v + w if s == "+" else v - w
        return v
    v = expr()
    if i != len(toks):
        raise Bad(f"parameter {text!r} is no OpenQASM expression")
    return v


DEFS = {}
for _l in QELIB1.strip().splitlines():
    _m = re.match(r"gate (\w+)(?:\((.*?)\))? ([\w,]+) \{(.*)\}", _l)
    DEFS[_m.group(1)] = ((_m.group(2) or "").split(",") if _m.group(2) else [], _m.group(3).split(","), [x.strip() for x in _m.group(4).split(";") if x.strip()])


def call_of(stmt):
    m = re.match(r"([a-zA-Z_]\w*)\s*(.*)$", stmt, re.S)
    if not m:
        raise Bad(f"{stmt!r} is no OpenQASM statement")
    name, rest = m.group(1), m.group(2).strip()
    ps = []
    if rest.startswith("("):
        d = 0
        for j, c in enumerate(rest):
            d += (c == "(") - (c == ")")
            if d == 0:
                break
        if d:
            raise Bad(f"{stmt!r} is no OpenQASM statement")
        ps, rest = split_args(rest[1:j]), rest[j + 1:]
    return name, ps, [x.strip() for x in rest.split(",")] if rest.strip() else []


def u_matrix(t, p, l):
    c, s = cmath.cos(t / 2), cmath.sin(t / 2)
    return [[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]]


CX = [[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]]      # bit 0 of the index is the control


def expand(name, ps, qs, out):
    """gate call -> [(matrix, operands)] in U and CX"""
    if name == "U":
        out.append((u_matrix(*ps), tuple(qs)))
    elif name == "CX":
        out.append((CX, tuple(qs)))
    else:
        pn, qn, body = DEFS[name]
        env, ops = dict(zip(pn, ps)), dict(zip(qn, qs))
        for st in body:
            n, p, q = call_of(st)
            expand(n, [number(x, env) for x in p], [ops[x] for x in q], out)


ARITY = {**{n: (len(p), len(q)) for n, (p, q, _) in DEFS.items()}, "U": (3, 1), "CX": (0, 2)}


def parse(text, env, prologue, n, extra=()):
    """[("gate", name, params, qubits) | ("measure", q, c) | ("reset", q)] of a program; `extra`: names read without a definition"""
    text = re.sub(r"//[^\n]*", "", text)
    parts = text.split(";")
    if parts[-1].strip():
        raise Bad(f"the last statement {parts[-1].strip()!r} is not terminated")
    stmts = [p.strip() for p in parts[:-1]]
    if any(not s for s in stmts):
        raise Bad("an empty statement")
    regs = {"q": ("qreg", n), "c": ("creg", n)}
    if prologue:
        if not stmts or not re.match(r"OPENQASM\s+2\.0$", stmts[0]):
            raise Bad("the program does not start with OPENQASM 2.0;")
        del stmts[0]
        regs, inc = {}, False
    else:
        inc = True
    out = []

    def ref(x, kind):
        m = re.match(r"([a-zA-Z_]\w*)\s*(?:\[\s*(\d+)\s*\])?$", x)
        if not m:
            raise Bad(f"{x!r} is no register operand")
        if m.group(1) not in regs or regs[m.group(1)][0] != kind:
            raise Bad(f"the operand {x} is in no declared {kind}")
        size = regs[m.group(1)][1]
        if m.group(2) is None:
            return list(range(size))
        if int(m.group(2)) >= size:
            raise Bad(f"the operand {x} is outside of its register of size {size}")
        return [int(m.group(2))]
    for s in stmts:
        m = re.match(r"(qreg|creg)\s+([a-z]\w*)\s*\[\s*(\d+)\s*\]$", s)
        if m:
            if not prologue:
                raise Bad("a register is declared though the header is left out")
            if out:
                raise Bad("a register is declared after the first operation")
            if m.group(2) in regs:
                raise Bad(f"the register {m.group(2)} is declared twice")
            if m.group(1) in [k for k, _ in regs.values()]:
                raise Bad(f"two registers of the kind {m.group(1)}")
            regs[m.group(2)] = (m.group(1), int(m.group(3)))
            if int(m.group(3)) != n:
                raise Bad(f"{s} for a circuit of width {n}")
            continue
        if re.match(r"include\s", s):
            if not prologue or not re.match(r'include\s+"qelib1\.inc"$', s):
                raise Bad(f"unexpected {s}")
            inc = True
            continue
        m = re.match(r"measure\s+(.*?)\s*->\s*(.*)$", s, re.S)
        if m:
            a, b = ref(m.group(1), "qreg"), ref(m.group(2), "creg")
            if len(a) != len(b):
                raise Bad(f"{s}: sizes differ")
            out += [("measure", x, y) for x, y in zip(a, b)]
            continue
        m = re.match(r"reset\s+(.*)$", s, re.S)
        if m:
            out += [("reset", x) for x in ref(m.group(1), "qreg")]
            continue
        if re.match(r"barrier\b", s):
            continue
        name, ps, qs = call_of(s)
        if name not in extra and (name not in ARITY or not inc and name not in ("U", "CX")):
            raise Bad(f"the gate {name} is not defined in qelib1.inc")
        ops = [ref(x, "qreg") for x in qs]
        if name in ARITY and (len(ps), len(ops)) != ARITY[name]:
            raise Bad(f"{s}: {name} takes {ARITY[name][0]} parameters and {ARITY[name][1]} qubits")
        vals = [number(p, env) for p in ps]
        size = max([len(o) for o in ops], default=0)
        for i in range(size):
            q = [o[i] if len(o) > 1 else o[0] for o in ops]
            if len(set(q)) != len(q):
                raise Bad(f"{s}: equal operands")
            out.append(("gate", name, vals, q))
    if prologue:
        if not inc:
            raise Bad("qelib1.inc is not included")
        for kind in ("qreg", "creg"):
            if kind not in [k for k, _ in regs.values()]:
                raise Bad(f"no {kind} is declared")
    return out


def apply_seq(seq, qubits):
    """numeric unitary {(row, col): x} of [(matrix, operands)] on the listed qubits"""
    at = {q: i for i, q in enumerate(qubits)}
    N = 1 << len(qubits)
    cols = []
    for c in range(N):
        v = [0j] * N
        v[c] = 1
        for U, qs in seq:
            k = [at[q] for q in qs]
            new = [0j] * N
            for b in range(N):
                if v[b]:
                    col = sum((b >> p & 1) << j for j, p in enumerate(k))
                    base = b
                    for p in k:
                        base &= ~(1 << p)
                    for row in range(1 << len(k)):
                        if U[row][col]:
                            new[base | sum((row >> j & 1) << p for j, p in enumerate(k))] += U[row][col] * v[b]
            v = new
        cols.append(v)
    return cols


def phase_equal(A, B):
    f = None
    for x, y in zip(A, B):
        for a, b in zip(x, y):
            if abs(b) > 0.3 / math.sqrt(len(B)) and f is None:
                f = a / b
    if f is None or abs(abs(f) - 1) > 1e-7:
        return False
    return all(abs(a - f * b) < 1e-7 for x, y in zip(A, B) for a, b in zip(x, y))


def segments(ops):
    """split at measurements and resets; those on different qubits commute"""
    out, seg, brk = [], [], []
    for o in ops:
        if o[0] == "U":
            if brk:
                out.append((seg, sorted(brk)))
                seg, brk = [], []
            seg.append(o[1:])
        else:
            if any(b[1] == o[1] for b in brk):
                out.append((seg, sorted(brk)))
                seg, brk = [], []
            brk.append((o[0],) + tuple(o[1:]))
    return out + [(seg, sorted(brk))]


def difference(got, want):
    """None, or what the program does differently; both are lists of ("U", matrix, qubits), ("measure", q, c), ("reset", q)"""
    A, B = segments(got), segments(want)
    if [b for _, b in A] != [b for _, b in B]:
        return f"the measurements and resets are {[b for _, b in A]} instead of {[b for _, b in B]}"
    for (a, _), (b, _) in zip(A, B):
        qs = sorted({q for _, k in a + b for q in k})
        if qs and not phase_equal(apply_seq(a, qs), apply_seq(b, qs)):
            return f"the unitary on the qubits {qs} differs"
    return None
