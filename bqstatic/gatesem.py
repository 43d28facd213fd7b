"""Meaning of gate objects of the analysed tree: name + parameters + resolved operands -> oracle unitary."""
from . import ref
from .scen import *
from .checks.gates import mat_phase_equal, targets, instances


def gate_classes(I):
    """{lowername: class} of all concrete gate classes defined in blueqat.gate"""
    m = I.load("blueqat.gate")
    base = m.f.get("Gate")
    if not isinstance(base, ClassObj):
        raise AnchorLost("blueqat.gate.Gate not found")
    out = {}
    for v in m.f.values():
        if isinstance(v, ClassObj) and base in v.mro and v is not base:
            try:
                n = I.getattr(v, "lowername")
            except PyRaise:
                continue
            if isinstance(n, str):
                out[n] = v
    return out


def pos_of(I, P, q, construct):
    for j, p in enumerate(P.p):
        if I.truth(I.int_cmp("==", q, p)):
            return P.index(j)
    raise Finding("operands", construct, f"acts on qubit {q!r}, which is none of the operands {P.p}")


def operands(I, g, n):
    """operand tuples of a gate object, resolved by the tree's own iterators"""
    try:
        it = I.getattr(g, "target_iter")
        return [(q,) for q in I.list_values(I.call(it, [n], {}))]
    except PyRaise as e:
        if e.exc.cls.name != "AttributeError":
            raise
    try:
        it = I.getattr(g, "control_target_iter")
        return [tuple(I.list_values(x)) for x in I.list_values(I.call(it, [n], {}))]
    except PyRaise as e:
        if e.exc.cls.name != "AttributeError":
            raise
    return [tuple(I.list_values(I.getattr(g, "targets")))]


def gate_name(I, g):
    n = I.getattr(g, "lowername")
    return n


def steps(I, gates, P, construct, depth=0):
    """[(unitary, operand bit numbers)] of a list of gate objects"""
    out = []
    for g in gates:
        name = gate_name(I, g)
        if name not in ref.GATES:
            if depth > 8:
                raise Finding("termination", construct, f"the decomposition of {name} does not end")
            out += steps(I, I.list_values(I.call(I.getattr(g, "fallback"), [P.n], {})), P, construct, depth + 1)
            continue
        nq, pn, fn = ref.GATES[name]
        ps = [I.to_scalar(x) for x in I.list_values(I.getattr(g, "params"))]
        if len(ps) != len(pn):
            raise Finding("parameters", construct, f"{name} has {len(ps)} parameters instead of {len(pn)}")
        for qs in operands(I, g, P.n):
            if len(qs) != nq:
                raise Finding("operands", construct, f"{name} has {len(qs)} operands instead of {nq}")
            idx = [pos_of(I, P, q, construct) for q in qs]
            if len(set(idx)) != len(idx):
                raise Finding("operands", construct, f"{name} is applied to equal operands {qs}")
            out.append((fn(*ps), idx, name))
    return out


def unitary(st, bits):
    """{(row bits, column bits): Scalar} of the steps applied in order"""
    cols = {}
    for c in bits:
        tab = {b: Scalar.const(1 if b == c else 0) for b in bits}
        for U, idx, _ in st:
            tab = ref.apply(U, idx, tab)
        for b, x in tab.items():
            if not x.is_zero():
                cols[b, c] = x
    return cols


def show(A, B, E):
    for k in sorted(set(A) | set(B)):
        z = Scalar({})
        if not s_equal(A.get(k, z), B.get(k, z)):
            return f"entry {k} is {A.get(k, z)}, expected {B.get(k, z)}"
    return "the relative phases differ"


def normed(I, M):
    return {k: I.E.norm(x) for k, x in M.items()}


def same_up_to_phase(I, st, want, P, rule, construct, what):
    bits = list(P.bits())
    A, B = normed(I, unitary(st, bits)), normed(I, unitary(want, bits))
    if not mat_phase_equal(A, B):
        raise Finding(rule, construct, f"{what}: {show(A, B, I.E)}")
