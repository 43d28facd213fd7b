import itertools
from ..gatesem import *

RULE = ("Abstract interpretation of every fallback() method with symbolic angles, symbolic operand positions and symbolic width: the product of the oracle "
        "unitaries of the returned gates must equal the oracle unitary of the gate up to a global phase, all returned gates must act on the gate's own "
        "operands, and the graph 'decomposition of a uses b' must be acyclic (call-graph rank).")
ASSUME = ["parameters are real numbers", "three-qubit gates are given distinct non-negative operands"]
HISTORY = True
MIN_OBLIGATIONS = 40


def check(ck):
    I = ck.use(new_interp())
    classes = gate_classes(I)
    for n in ("cy", "ch", "cu3", "swap", "ccx", "rxx", "t"):
        if n not in classes:
            raise AnchorLost(f"gate class {n!r} not found")
    uses = {}
    for name, cls in classes.items():
        if name in ("measure", "reset"):
            continue
        if name not in ref.GATES:
            ck.notes.append({"gate_without_oracle": name})
            continue
        nq, pn, fn = ref.GATES[name]
        params = [Scalar.sym(x) for x in pn]
        if not has_fallback(I, cls, name, nq, params):
            uses.setdefault(name, set())
            continue
        tgs = targets(nq)
        if nq < 3:
            tgs = tgs + [("negative", nq, (lambda p: -1) if nq == 1 else (lambda p: (-1, 0)), None)]
        for label, k, mk, ops_q in tgs:
            for perm in itertools.permutations(range(k)):
                def scenario(P, perm=perm, cls=cls, name=name, params=params, mk=mk, ops_q=ops_q, fn=fn, k=k, nq=nq, label=label):
                    def go():
                        P.enter(I)
                        g = I.call(cls, [mk([P.p[j] for j in perm])] + params, {})
                        lst = I.list_values(I.call(I.getattr(g, "fallback"), [P.n], {}))
                        for h in lst:
                            uses.setdefault(name, set()).add(gate_name(I, h))
                        st = steps(I, lst, P, f"fallback:{name}")
                        oq = ops_q if ops_q is not None else [(k - 1,) if nq == 1 else (k - 1, 0)]
                        want = [(fn(*params), [P.index(perm[q] if ops_q is not None else q) for q in qs], name) for qs in oq]
                        same_up_to_phase(I, st, want, P, "decomposition", f"fallback:{name}", f"the decomposition of {name}{label} differs from the gate")
                    return go
                if label == "negative":
                    if perm == tuple(range(k)):
                        places = (2,) if k == 1 else (0, 2)
                        ck.oblige(I, f"fallback {name} at negative indices, n=3", scenario(Pos(k, 3, places)))
                else:
                    ck.oblige(I, f"fallback {name}{label} operand order {perm}", scenario(Pos(k)),
                              [(f"n={n} at {pl}", scenario(Pos(k, n, pl), tuple(range(k)))) for n, pl in instances(k, 4)])
    # termination: no cycle among gates that have a decomposition

    def go():
        state = {}

        def visit(a, path):
            if state.get(a) == 2:
                return
            if state.get(a) == 1:
                raise Finding("termination", f"fallback:{a}", "the decompositions form a cycle: " + " -> ".join(path + [a]))
            state[a] = 1
            for b in sorted(uses.get(a, ())):
                visit(b, path + [a])
            state[a] = 2
        for a in sorted(uses):
            visit(a, [])
    ck.oblige(I, "decompositions end (acyclic use relation over %d gates)" % len(uses), go)
    ck.notes.append({"decomposition_uses": {a: sorted(b) for a, b in uses.items()}})


def has_fallback(I, cls, name, nq, params):
    mark = len(I.E.log)
    depth = len(I.stack)
    try:
        P = Pos(nq)
        P.enter(I)
        g = I.call(cls, [P.p[0] if nq == 1 else tuple(P.p)] + params, {})
        I.list_values(I.call(I.getattr(g, "fallback"), [P.n], {}))
        return True
    except PyRaise as e:
        return e.exc.cls.name != "NotImplementedError"
    finally:
        del I.stack[depth:]
        I.E.rollback(mark)
