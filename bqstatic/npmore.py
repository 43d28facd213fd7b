"""Further numpy functions on arrays of concrete shape, and the guard that no argument of a modelled function is ignored."""
import functools
import itertools
import math

from .core import *
from .interp import *
from . import models
from . import npmodel as N
from .npmodel import NdArr, DType, VecObj, CompVec, to_arr, cells_dtype, prod, transpose, ND_METHODS, NPF


def arg(I, a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def axis_norm(I, ax, nd):
    if not isinstance(ax, int) or isinstance(ax, bool):
        raise I.undecided("axis of another kind")
    if not -nd <= ax < nd:
        raise I.exc("ValueError", f"axis {ax} is out of bounds for array of dimension {nd}")
    return ax % nd


def arrays(I, v):
    vals = I.list_values(v)
    if any(isinstance(x, (VecObj, CompVec)) for x in vals):
        raise I.undecided("joining vectors of symbolic width")
    return [to_arr(I, x) for x in vals]


def concat(I, arrs, ax):
    if not arrs:
        raise I.exc("ValueError", "need at least one array to concatenate")
    nd = len(arrs[0].shape)
    if nd == 0 or any(len(x.shape) != nd for x in arrs):
        raise I.exc("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
    ax = axis_norm(I, ax, nd)
    rest = {x.shape[:ax] + x.shape[ax + 1:] for x in arrs}
    if len(rest) > 1:
        raise I.exc("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
    outer = prod(arrs[0].shape[:ax])
    cells = []
    parts = [(x.cells(), x.size // outer if outer else 0) for x in arrs]
    for o in range(outer):
        for c, n in parts:
            cells += c[o * n:(o + 1) * n]
    shape = arrs[0].shape[:ax] + (sum(x.shape[ax] for x in arrs),) + arrs[0].shape[ax + 1:]
    dt = cells_dtype(cells) if cells else arrs[0].dtype
    kinds = {x.dtype.name for x in arrs}
    return NdArr(cells, shape, DType(kinds.pop()) if len(kinds) == 1 else dt)


def np_concat(I, a, k):
    arrs = arrays(I, a[0])
    ax = arg(I, a, k, 1, "axis", 0)
    if ax is None:
        arrs, ax = [x.view(x.idx, (x.size,)) for x in arrs], 0
    return concat(I, arrs, ax)


def expand(I, v, ax):
    axes = (ax,) if isinstance(ax, int) else tuple(I.list_values(ax))
    nd = len(v.shape) + len(axes)
    axes = {axis_norm(I, x, nd) for x in axes}
    it = iter(v.shape)
    return v.view(v.idx, tuple(1 if i in axes else next(it) for i in range(nd)))


def np_stack(I, a, k):
    arrs = arrays(I, a[0])
    if not arrs:
        raise I.exc("ValueError", "need at least one array to stack")
    if len({x.shape for x in arrs}) > 1:
        raise I.exc("ValueError", "all input arrays must have the same shape")
    ax = arg(I, a, k, 1, "axis", 0)
    return concat(I, [expand(I, x, ax) for x in arrs], ax)


def at_least(I, v, n):
    return v if len(v.shape) >= n else v.view(v.idx, (1,) * (n - len(v.shape)) + v.shape)


def np_hstack(I, a, k):
    arrs = [at_least(I, x, 1) for x in arrays(I, a[0])]
    return concat(I, arrs, 0 if arrs and len(arrs[0].shape) == 1 else 1)


def np_vstack(I, a, k):
    return concat(I, [at_least(I, x, 2) for x in arrays(I, a[0])], 0)


def np_column_stack(I, a, k):
    return concat(I, [x if len(x.shape) >= 2 else x.view(x.idx, (x.size, 1)) for x in arrays(I, a[0])], 1)


def np_append(I, a, k):
    ax = arg(I, a, k, 2, "axis")
    x, y = to_arr(I, a[0]), to_arr(I, a[1])
    if ax is None:
        return concat(I, [x.view(x.idx, (x.size,)), y.view(y.idx, (y.size,))], 0)
    return concat(I, [x, y], ax)


def moved(I, v, src, dst):
    src = [axis_norm(I, x, len(v.shape)) for x in ([src] if isinstance(src, int) else I.list_values(src))]
    dst = [axis_norm(I, x, len(v.shape)) for x in ([dst] if isinstance(dst, int) else I.list_values(dst))]
    order = [i for i in range(len(v.shape)) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(v, tuple(order)) if len(v.shape) > 1 else v


def swapped(I, v, i, j):
    i, j = axis_norm(I, i, len(v.shape)), axis_norm(I, j, len(v.shape))
    order = list(range(len(v.shape)))
    order[i], order[j] = order[j], order[i]
    return transpose(v, tuple(order)) if len(v.shape) > 1 else v


def m_transpose(I, s, a, k):
    axes = None
    if len(a) == 1 and a[0] is not None:
        axes = tuple(I.list_values(a[0])) if not isinstance(a[0], int) else tuple(a)
    elif len(a) > 1:
        axes = tuple(a)
    if axes is not None:
        axes = tuple(axis_norm(I, x, len(s.shape)) for x in axes)
        if sorted(axes) != list(range(len(s.shape))):
            raise I.exc("ValueError", "axes don't match array")
    return transpose(s, axes)


def np_flip(axes):
    def f(I, a, k):
        v = to_arr(I, a[0])
        ax = axes if axes is not None else arg(I, a, k, 1, "axis")
        ax = range(len(v.shape)) if ax is None else [ax] if isinstance(ax, int) else I.list_values(ax)
        ax = {axis_norm(I, x, len(v.shape)) for x in ax}
        st = N.strides(v.shape)
        idx = [v.idx[sum((n - 1 - x if i in ax else x) * s for i, (x, n, s) in enumerate(zip(t, v.shape, st)))]
               for t in itertools.product(*[range(n) for n in v.shape])]
        return v.view(idx, v.shape)
    return f


def np_roll(I, a, k):
    v, sh, ax = to_arr(I, a[0]), arg(I, a, k, 1, "shift"), arg(I, a, k, 2, "axis")
    if not isinstance(sh, int):
        raise I.undecided("roll by an abstract distance")
    if ax is None:
        c = v.cells()
        n = len(c)
        return NdArr([c[(i - sh) % n] for i in range(n)], v.shape, v.dtype)
    ax = axis_norm(I, ax, len(v.shape))
    st = N.strides(v.shape)
    c = v.cells()
    return NdArr([c[sum(((x - sh) % n if i == ax else x) * s for i, (x, n, s) in enumerate(zip(t, v.shape, st)))]
                  for t in itertools.product(*[range(n) for n in v.shape])], v.shape, v.dtype)


def np_tile(I, a, k):
    v = to_arr(I, a[0])
    reps = arg(I, a, k, 1, "reps")
    reps = (reps,) if isinstance(reps, int) else tuple(I.list_values(reps))
    if not all(isinstance(x, int) for x in reps):
        raise I.undecided("tile of an abstract size")
    nd = max(len(reps), len(v.shape))
    v = at_least(I, v, nd)
    reps = (1,) * (nd - len(reps)) + reps
    st, c = N.strides(v.shape), v.cells()
    shape = tuple(n * r for n, r in zip(v.shape, reps))
    return NdArr([c[sum((x % n) * s for x, n, s in zip(t, v.shape, st))] for t in itertools.product(*[range(n) for n in shape])], shape, v.dtype)


def np_repeat(I, s, a, k):
    n = arg(I, a, k, 0, "repeats")
    ax = arg(I, a, k, 1, "axis")
    if ax is None:
        s, ax = s.view(s.idx, (s.size,)), 0
    ax = axis_norm(I, ax, len(s.shape))
    ln = s.shape[ax]
    ns = [n] * ln if isinstance(n, int) else to_arr(I, n).cells()
    if len(ns) == 1:
        ns = ns * ln
    if not all(isinstance(x, int) for x in ns):
        raise I.undecided("repeat by an abstract number")
    sel = [i for i in range(ln) for _ in range(ns[i])]
    return take(I, s, sel, ax)


def take(I, s, sel, ax):
    st, c = N.strides(s.shape), s.cells()
    shape = s.shape[:ax] + (len(sel),) + s.shape[ax + 1:]
    return NdArr([c[sum((sel[x] if i == ax else x) * q for i, (x, q) in enumerate(zip(t, st)))]
                  for t in itertools.product(*[range(n) for n in shape])], shape, s.dtype)


def np_take(I, a, k):
    v, ind, ax = to_arr(I, a[0]), arg(I, a, k, 1, "indices"), arg(I, a, k, 2, "axis")
    if ax is None:
        v, ax = v.view(v.idx, (v.size,)), 0
    ax = axis_norm(I, ax, len(v.shape))
    return v.getitem(I, (SliceObj(None, None, None),) * ax + (ind,))


def cumulative(op, init):
    def f(I, s, a, k):
        ax = arg(I, a, k, 0, "axis")
        if ax is None:
            s, ax = s.view(s.idx, (s.size,)), 0
        ax = axis_norm(I, ax, len(s.shape))
        st, c = N.strides(s.shape), s.cells()
        out = [None] * s.size
        for j, t in enumerate(itertools.product(*[range(n) for n in s.shape])):
            out[j] = c[j] if t[ax] == 0 else I.binop(op, out[j - st[ax]], c[j])
        return NdArr(out, s.shape, cells_dtype(out) if out else s.dtype)
    return f


def m_mean(I, s, a, k):
    ax = arg(I, a, k, 0, "axis")
    n = s.size if ax is None else s.shape[axis_norm(I, ax, len(s.shape))]
    return I.binop("/", N.reduce_cells(I, s, ax, N.addf(I), 0), n)


def m_best(op):
    def f(I, s, a, k):
        ax = arg(I, a, k, 0, "axis")
        if ax is None:
            return N.argbest(I, s, op)
        ax = axis_norm(I, ax, len(s.shape))
        v = moved(I, s, ax, -1)
        n = v.shape[-1]
        c = v.cells()
        out = [N.argbest(I, NdArr(c[i * n:(i + 1) * n], (n,), s.dtype), op) for i in range(len(c) // n)]
        return out[0] if len(v.shape) == 1 else NdArr(out, v.shape[:-1], DType("int64"))
    return f


def m_sorted(I, s, a, k, arg_):
    ax = arg(I, a, k, 0, "axis", -1)
    if len(s.shape) != 1:
        raise I.undecided("sort of a matrix")
    c = s.cells()
    if arg_:
        return NdArr(models.py_sort(I, list(range(len(c))), Native("key", lambda I, x, kk: c[x[0]])), s.shape, DType("int64"))
    return NdArr(models.py_sort(I, c), s.shape, s.dtype)


def contract(I, A, B, ia, ib):
    """sum over the paired axes ia of A and ib of B; the remaining ones in order"""
    if any(A.shape[x] != B.shape[y] for x, y in zip(ia, ib)):
        raise I.exc("ValueError", "shape-mismatch for sum")
    ra = [i for i in range(len(A.shape)) if i not in ia]
    rb = [i for i in range(len(B.shape)) if i not in ib]
    A2 = transpose(A, tuple(ra + list(ia))) if len(A.shape) > 1 else A
    B2 = transpose(B, tuple(list(ib) + rb)) if len(B.shape) > 1 else B
    inner = prod([A.shape[x] for x in ia])
    n, m = prod([A.shape[i] for i in ra]), prod([B.shape[i] for i in rb])
    if n * m * inner > 1 << 16:
        raise I.undecided("contraction too large")
    ca, cb = A2.cells(), B2.cells()
    out = []
    for i in range(n):
        for j in range(m):
            s = 0
            for x in range(inner):
                s = I.binop("+", s, I.binop("*", ca[i * inner + x], cb[x * m + j]))
            out.append(s)
    shape = tuple(A.shape[i] for i in ra) + tuple(B.shape[i] for i in rb)
    return NdArr(out, shape, cells_dtype(out) if out else A.dtype)


def plain(I, *vs):
    if any(isinstance(v, (VecObj, CompVec)) for v in vs):
        raise I.undecided("tensor operation on a vector of symbolic width")
    return [to_arr(I, v) for v in vs]


def np_tensordot(I, a, k):
    A, B = plain(I, a[0], a[1])
    ax = arg(I, a, k, 2, "axes", 2)
    if isinstance(ax, int):
        ia, ib = list(range(len(A.shape) - ax, len(A.shape))), list(range(ax))
    else:
        p, q = I.list_values(ax)
        ia = [p] if isinstance(p, int) else I.list_values(p)
        ib = [q] if isinstance(q, int) else I.list_values(q)
    if len(ia) != len(ib):
        raise I.exc("ValueError", "shape-mismatch for sum")
    return contract(I, A, B, [axis_norm(I, x, len(A.shape)) for x in ia], [axis_norm(I, x, len(B.shape)) for x in ib])


def np_einsum(I, a, k):
    spec = a[0]
    if not isinstance(spec, str) or "." in spec:
        raise I.undecided("einsum of another form")
    ops = plain(I, *a[1:])
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if len(ins) != len(ops) or any(len(s) != len(o.shape) for s, o in zip(ins, ops)):
        raise I.exc("ValueError", "einstein sum subscripts string does not fit the operands")
    letters = "".join(ins)
    if "->" not in spec:
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise I.undecided("einsum with broadcasting")
    summed = [c for c in dict.fromkeys(letters) if c not in out]
    if prod(dims.values()) > 1 << 14:
        raise I.undecided("contraction too large")
    cs = [o.cells() for o in ops]
    sts = [N.strides(o.shape) for o in ops]
    res = []
    for t in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, t))
        tot = 0
        for u in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, u))
            p = 1
            for s, c, st in zip(ins, cs, sts):
                p = I.binop("*", p, c[sum(env[x] * q for x, q in zip(s, st))])
            tot = I.binop("+", tot, p)
        res.append(tot)
    if not out:
        return res[0]
    return NdArr(res, tuple(dims[c] for c in out), cells_dtype(res) if res else ops[0].dtype)


def np_array_equal(I, a, k):
    if any(isinstance(x, (VecObj, CompVec)) for x in a):
        return NPF["allclose"](I, a, k)
    A, B = to_arr(I, a[0]), to_arr(I, a[1])
    return A.shape == B.shape and all(I.truth(I.compare("==", x, y)) for x, y in zip(A.cells(), B.cells()))


def np_pick(op):
    def f(I, a, k):
        out = a[2] if len(a) > 2 else k.get("out")
        pick = lambda x, y: x if I.truth(I.compare(op, x, y)) else y
        if I.is_num(a[0]) and I.is_num(a[1]):
            return pick(a[0], a[1])
        return N.np_out(I, N.ufunc(I, pick, a[0], a[1]), {"out": out})
    return f


def np_unique(I, a, k):
    v = to_arr(I, a[0])
    c = models.py_sort(I, v.cells())
    out = []
    cnt = []
    for x in c:
        if out and I.truth(I.compare("==", out[-1], x)):
            cnt[-1] += 1
        else:
            out.append(x)
            cnt.append(1)
    r = NdArr(out, (len(out),), v.dtype)
    if k.get("return_counts"):
        return (r, NdArr(cnt, (len(cnt),), DType("int64")))
    return r


def np_bincount(I, a, k):
    v = to_arr(I, a[0]).cells()
    if not all(isinstance(x, int) for x in v):
        raise I.undecided("bincount of abstract numbers")
    w = arg(I, a, k, 1, "weights")
    n = max([x + 1 for x in v] + [arg(I, a, k, 2, "minlength", 0)])
    out = [0] * n
    for x, y in zip(v, [1] * len(v) if w is None else to_arr(I, w).cells()):
        out[x] = I.binop("+", out[x], y)
    return NdArr(out, (n,), cells_dtype(out) if out else DType("int64"))


def np_argwhere(I, a, k):
    v = to_arr(I, a[0])
    cols = N.np_nonzero(I, v)
    n = cols[0].size if cols else 0
    cs = [c.cells() for c in cols]
    return NdArr([c[i] for i in range(n) for c in cs], (n, len(cs)), DType("int64"))


def np_linspace(I, a, k):
    lo, hi, n = a[0], a[1], arg(I, a, k, 2, "num", 50)
    if not isinstance(n, int):
        raise I.undecided("linspace of an abstract size")
    div = n - 1 if arg(I, a, k, 3, "endpoint", True) else n
    step = I.binop("/", I.binop("-", hi, lo), div) if div > 0 else 0.0
    cells = [I.binop("+", lo, I.binop("*", i, step)) for i in range(n)]
    cells = [N.cast_cell(I, c, DType("float64")) for c in cells]
    return NdArr(cells, (n,), DType("float64"))


def np_delete(I, a, k):
    v = to_arr(I, a[0])
    ax = arg(I, a, k, 2, "axis")
    if ax is None:
        v, ax = v.view(v.idx, (v.size,)), 0
    ax = axis_norm(I, ax, len(v.shape))
    o = a[1]
    o = [o] if isinstance(o, int) else to_arr(I, o).cells()
    if not all(isinstance(x, int) for x in o):
        raise I.undecided("delete at an abstract place")
    n = v.shape[ax]
    drop = {x % n for x in o}
    return take(I, v, [i for i in range(n) if i not in drop], ax)


def np_split(I, a, k):
    v = to_arr(I, a[0])
    n = arg(I, a, k, 1, "indices_or_sections")
    ax = axis_norm(I, arg(I, a, k, 2, "axis", 0), len(v.shape))
    ln = v.shape[ax]
    if isinstance(n, int):
        if ln % n:
            raise I.exc("ValueError", "array split does not result in an equal division")
        cuts = [i * (ln // n) for i in range(n + 1)]
    else:
        cuts = [0] + I.list_values(n) + [ln]
    full = SliceObj(None, None, None)
    return ListObj([v.getitem(I, (full,) * ax + (SliceObj(x, y, None),)) for x, y in zip(cuts, cuts[1:])])


def np_binary_repr(I, a, k):
    n, w = a[0], arg(I, a, k, 1, "width")
    if not isinstance(n, int) or not (w is None or isinstance(w, int)):
        raise I.undecided("binary_repr of an abstract number")
    import sys
    if n < 0:
        raise I.undecided("binary_repr of a negative number")
    return format(n, "b").zfill(w or 0)


def np_sign(I, a, k):
    return N.elementwise(I, a[0], lambda c: 1 if I.truth(I.compare(">", c, 0)) else -1 if I.truth(I.compare("<", c, 0)) else 0)


def np_clip(I, a, k):
    lo, hi = a[1], a[2]

    def one(c):
        if lo is not None and I.truth(I.compare("<", c, lo)):
            return lo
        if hi is not None and I.truth(I.compare(">", c, hi)):
            return hi
        return c
    return N.elementwise(I, a[0], one)


UFUNC_UNIT = {"add": ("+", 0), "multiply": ("*", 1), "bitwise_and": ("&", -1), "bitwise_or": ("|", 0), "bitwise_xor": ("^", 0),
              "subtract": ("-", None), "maximum": (None, None), "minimum": (None, None), "logical_and": (None, True), "logical_or": (None, False),
              "logical_xor": (None, False)}


def ufunc_attrs(name):
    """reduce, accumulate and outer of a binary ufunc"""
    if name not in UFUNC_UNIT:
        return None
    f = NPF[name]
    unit = UFUNC_UNIT[name][1]

    def op(I):
        return lambda x, y: f(I, [x, y], {}) if not isinstance(x, bool) or name[:3] != "log" else tr(I, f(I, [x, y], {}))

    def tr(I, v):
        return v.cells()[0] if isinstance(v, NdArr) and not v.shape else v

    def reduce_(I, a, k):
        v = to_arr(I, a[0])
        ax = arg(I, a, k, 1, "axis", 0)
        if set(k) - {"axis"}:
            raise I.undecided(f"np.{name}.reduce with {sorted(k)}")
        if not v.size and unit is None:
            raise I.exc("ValueError", "zero-size array to reduction operation which has no identity")
        g = op(I)
        return N.reduce_cells(I, v, ax, lambda x, y: tr(I, g(x, y)), None if v.size else unit)

    def accumulate(I, a, k):
        v = to_arr(I, a[0])
        if len(v.shape) != 1:
            raise I.undecided("accumulate over a matrix")
        out = []
        for c in v.cells():
            out.append(tr(I, op(I)(out[-1], c)) if out else c)
        return NdArr(out, v.shape, cells_dtype(out) if out else v.dtype)

    def outer(I, a, k):
        x, y = to_arr(I, a[0]), to_arr(I, a[1])
        cells = [tr(I, op(I)(p, q)) for p in x.cells() for q in y.cells()]
        return NdArr(cells, x.shape + y.shape, cells_dtype(cells) if cells else x.dtype)
    return {"reduce": Native(f"np.{name}.reduce", reduce_), "accumulate": Native(f"np.{name}.accumulate", accumulate),
            "outer": Native(f"np.{name}.outer", outer), "__name__": name}


def np_matrix_power(I, a, k):
    v, n = to_arr(I, a[0]), a[1]
    if not isinstance(n, int) or n < 0:
        raise I.undecided("matrix power of an abstract exponent")
    r = N.np_eye(I, [v.shape[0]], {"dtype": v.dtype})
    for _ in range(n):
        r = N.matmul(I, r, v)
    return r


def np_multi_dot(I, a, k):
    vs = [to_arr(I, x) for x in I.list_values(a[0])]
    r = vs[0]
    for v in vs[1:]:
        r = N.np_dot(I, r, v)
    return r


LINALG = {"matrix_power": np_matrix_power, "multi_dot": np_multi_dot}


def ints_of(I, a):
    t = a[0] if len(a) == 1 and isinstance(a[0], (tuple, ListObj)) else tuple(a)
    t = tuple(I.list_values(t)) if isinstance(t, ListObj) else t
    if not all(isinstance(x, int) for x in t):
        raise I.undecided("abstract shape")
    return t


def np_ndindex(I, a, k):
    return IterObj(list(itertools.product(*[range(n) for n in ints_of(I, a)])))


def np_ndenumerate(I, a, k):
    v = to_arr(I, a[0])
    return IterObj(list(zip(itertools.product(*[range(n) for n in v.shape]), v.cells())))


def np_ix(I, a, k):
    vs = [to_arr(I, x) for x in a]
    vs = [N.np_nonzero(I, v)[0] if v.dtype.kind == "b" else v for v in vs]
    return tuple(v.view(v.idx, (1,) * i + (v.size,) + (1,) * (len(vs) - 1 - i)) for i, v in enumerate(vs))


def np_tri_(I, a, k):
    n = a[0]
    m = arg(I, a, k, 1, "M")
    m = n if m is None else m
    d = arg(I, a, k, 2, "k", 0)
    dt = N.dtype_of(I, arg(I, a, k, 3, "dtype"))
    return NdArr([N.cast_cell(I, 1.0 if j - i <= d else 0.0, dt) for i in range(n) for j in range(m)], (n, m), dt)


def np_tri_idx(up):
    def f(I, a, k):
        n, d = a[0], arg(I, a, k, 1, "k", 0)
        m = arg(I, a, k, 2, "m")
        m = n if m is None else m
        t = [(i, j) for i in range(n) for j in range(m) if (j - i >= d if up else j - i <= d)]
        return tuple(NdArr([x[ax] for x in t], (len(t),), DType("int64")) for ax in (0, 1))
    return f


def np_unravel(I, a, k):
    n, shape = a[0], ints_of(I, [a[1]])
    if not isinstance(n, int):
        raise I.undecided("unravel_index of an abstract number")
    if not 0 <= n < prod(shape):
        raise I.exc("ValueError", "index is out of bounds")
    return tuple(n // s % d for s, d in zip(N.strides(shape), shape))


def np_ravel_multi(I, a, k):
    idx, shape = I.list_values(a[0]), ints_of(I, [a[1]])
    r = 0
    for x, s in zip(idx, N.strides(shape)):
        r = I.binop("+", r, I.binop("*", x, s))
    return r


def np_float(name):
    fn = {"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "rint": round, "deg2rad": math.radians, "radians": math.radians,
          "rad2deg": math.degrees, "degrees": math.degrees, "exp2": lambda x: 2.0 ** x, "isnan": None, "isfinite": None, "isinf": None}[name]

    def one(I, c):
        if isinstance(c, (int, float)):
            if name == "isnan":
                return math.isnan(c)
            if name == "isinf":
                return math.isinf(c)
            if name == "isfinite":
                return math.isfinite(c)
            return float(fn(c))
        if name in ("isnan", "isinf") and isinstance(c, Scalar):
            return False
        if name == "isfinite" and isinstance(c, Scalar):
            return True
        if name in ("deg2rad", "radians"):
            return I.binop("*", c, math.pi / 180)
        raise I.undecided(f"np.{name} of {c!r}")
    return lambda I, a, k: N.np_out(I, N.elementwise(I, a[0], lambda c: one(I, c)), k)


def np_average(I, a, k):
    w = arg(I, a, k, 2, "weights")
    ax = arg(I, a, k, 1, "axis")
    if w is None:
        return NPF["mean"](I, [a[0]] + ([ax] if ax is not None else []), {})
    if ax is not None:
        raise I.undecided("weighted average along an axis")
    w = to_arr(I, w)
    return I.binop("/", N.np_sum(I, [I.binop("*", to_arr(I, a[0]), w)], {}), N.np_sum(I, [w], {}))


def np_insert(I, a, k):
    v = to_arr(I, a[0])
    if len(v.shape) != 1 or not isinstance(a[1], int) or len(a) > 3 or k:
        raise I.undecided("np.insert of another form")
    c = v.cells()
    i = a[1] + len(c) if a[1] < 0 else a[1]
    new = [N.cast_cell(I, x, v.dtype) for x in to_arr(I, a[2]).cells()]
    return NdArr(c[:i] + new + c[i:], (len(c) + len(new),), v.dtype)


def np_indices(I, a, k):
    shape = ints_of(I, [a[0]])
    t = list(itertools.product(*[range(n) for n in shape]))
    return NdArr([x[ax] for ax in range(len(shape)) for x in t], (len(shape),) + shape, DType("int64"))


def np_meshgrid(I, a, k):
    vs = [to_arr(I, x) for x in a]
    ij = k.get("indexing", "xy") == "ij"
    if set(k) - {"indexing"}:
        raise I.undecided("np.meshgrid of another form")
    n = len(vs)
    pos = list(range(n))
    if not ij and n > 1:
        pos[0], pos[1] = 1, 0
    shape = [0] * n
    for v, p in zip(vs, pos):
        shape[p] = v.size
    out = []
    for v, p in zip(vs, pos):
        c = v.cells()
        out.append(NdArr([c[t[p]] for t in itertools.product(*[range(x) for x in shape])], tuple(shape), v.dtype))
    return ListObj(out)


def np_vectorize(I, a, k):
    fn = a[0]
    if len(a) > 1 or set(k) - {"otypes", "doc"}:
        raise I.undecided("np.vectorize of another form")

    def g(I, b, kk):
        vs = [to_arr(I, x) for x in b]
        shape = ()
        for v in vs:
            shape = v.shape if len(v.shape) >= len(shape) else shape
        cols = [N.broadcast(I, v, shape) for v in vs]
        cells = [I.call(fn, list(t), kk) for t in zip(*cols)]
        return NdArr(cells, shape, cells_dtype(cells))
    return Native("np.vectorize", g)


class Joiner(AbsVal):
    """np.r_ / np.c_"""
    def __init__(self, cols):
        self.cols = cols

    def getitem(self, I, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(x, (SliceObj, str)) for x in key):
            raise I.undecided("np.r_ of slices")
        return np_column_stack(I, [ListObj(list(key))], {}) if self.cols else np_hstack(I, [ListObj(list(key))], {})


def more(I, name):
    if name in ("r_", "c_"):
        return Joiner(name == "c_")
    return None


def method(name):
    f = ND_METHODS[name]

    def g(I, a, k):
        if isinstance(a[0], (VecObj, CompVec)):
            return I.call(I.getattr(a[0], name), list(a[1:]), k)
        return f(I, to_arr(I, a[0]), list(a[1:]), k)
    return g


def m_round(I, s, a, k):
    n = arg(I, a, k, 0, "decimals", 0)
    return s.elementwise(I, lambda c: c if isinstance(c, int) and n >= 0 else models.py_round(I, [c, n], {}))


def np_round(I, a, k):
    if I.is_num(a[0]):
        n = arg(I, a, k, 1, "decimals", 0)
        return a[0] if isinstance(a[0], int) and n >= 0 else models.py_round(I, [a[0], n], {})
    return method("round")(I, a, k)


def m_astype(I, s, a, k):
    dt = N.dtype_of(I, arg(I, a, k, 0, "dtype"))
    if k.get("copy", True) is False and dt.name == s.dtype.name:
        return s
    return NdArr([N.cast_cell(I, c, dt) for c in s.cells()], s.shape, dt)


ND_METHODS.update({
    "round": m_round, "astype": m_astype,
    "mean": m_mean, "cumsum": cumulative("+", 0), "cumprod": cumulative("*", 1), "repeat": np_repeat,
    "argmax": m_best(">"), "argmin": m_best("<"), "transpose": m_transpose,
    "argsort": lambda I, s, a, k: m_sorted(I, s, a, k, True),
    "swapaxes": lambda I, s, a, k: swapped(I, s, a[0], a[1]),
    "take": lambda I, s, a, k: np_take(I, [s] + list(a), k),
    "ptp": None,
})
del ND_METHODS["ptp"]

NPF.update({
    "concatenate": np_concat, "stack": np_stack, "hstack": np_hstack, "vstack": np_vstack, "row_stack": np_vstack,
    "column_stack": np_column_stack, "append": np_append,
    "moveaxis": lambda I, a, k: moved(I, *plain(I, a[0]), arg(I, a, k, 1, "source"), arg(I, a, k, 2, "destination")),
    "swapaxes": lambda I, a, k: swapped(I, *plain(I, a[0]), arg(I, a, k, 1, "axis1"), arg(I, a, k, 2, "axis2")),
    "transpose": lambda I, a, k: m_transpose(I, *plain(I, a[0]), [arg(I, a, k, 1, "axes")], {}),
    "expand_dims": lambda I, a, k: expand(I, *plain(I, a[0]), arg(I, a, k, 1, "axis")),
    "flip": np_flip(None), "flipud": np_flip(0), "fliplr": np_flip(1), "roll": np_roll, "tile": np_tile,
    "repeat": method("repeat"), "take": np_take, "cumsum": method("cumsum"), "cumprod": method("cumprod"),
    "round": np_round, "around": np_round, "mean": method("mean"), "argmax": method("argmax"), "argmin": method("argmin"),
    "tensordot": np_tensordot, "einsum": np_einsum, "array_equal": np_array_equal,
    "maximum": np_pick(">"), "minimum": np_pick("<"), "fmax": np_pick(">"), "fmin": np_pick("<"),
    "unique": np_unique, "bincount": np_bincount, "argwhere": np_argwhere, "linspace": np_linspace, "delete": np_delete,
    "split": np_split, "array_split": None, "binary_repr": np_binary_repr, "sign": np_sign, "clip": np_clip,
    "full_like": lambda I, a, k: N.like(arg(I, a, k, 1, "fill_value"))(I, a, {x: y for x, y in k.items() if x == "dtype"}),
    "fromiter": lambda I, a, k: to_arr(I, ListObj(I.list_values(a[0])), N.dtype_of(I, arg(I, a, k, 1, "dtype"))),
    "ndindex": np_ndindex, "ndenumerate": np_ndenumerate, "ix_": np_ix, "tri": np_tri_, "triu_indices": np_tri_idx(True), "tril_indices": np_tri_idx(False),
    "unravel_index": np_unravel, "ravel_multi_index": np_ravel_multi, "average": np_average, "insert": np_insert, "indices": np_indices,
    "meshgrid": np_meshgrid, "vectorize": np_vectorize, "diagflat": lambda I, a, k: N.np_diag(I, [to_arr(I, a[0]).view(to_arr(I, a[0]).idx, (to_arr(I, a[0]).size,))] + list(a[1:]), k),
    **{n: np_float(n) for n in ("ceil", "floor", "trunc", "rint", "deg2rad", "radians", "rad2deg", "degrees", "exp2", "isnan", "isfinite", "isinf")},
    "isrealobj": lambda I, a, k: to_arr(I, a[0]).dtype.kind != "c", "iscomplex": lambda I, a, k: N.elementwise(I, a[0], lambda c: I.compare("!=", N.part(I, c, "imag"), 0)),
    "isreal": lambda I, a, k: N.elementwise(I, a[0], lambda c: I.compare("==", N.part(I, c, "imag"), 0)),
    "float_power": N.np_bin("**"), 
})
for _n in [n for n, f in NPF.items() if f is None]:
    del NPF[_n]

# arguments the models take into account: (number of positional ones, keywords); anything else is beyond them
HARMLESS = {"order": ("K", "C", "A", None), "casting": ("same_kind", "unsafe"), "subok": (True, False), "like": (None,), "kind": (None, "quicksort", "stable", "mergesort", "heapsort"),
            "keepdims": (False,), "out": (None,), "dtype": (None,), "where": (True,), "axis": (None,), "equal_nan": (False,), "offset": (0,), "ddof": (0,), "mode": ("raise",), "initial": (None,), "optimize": (True, False)}
UF = (3, {"out"})
SIG = {"zeros": (2, {"shape", "dtype"}), "ones": (2, {"shape", "dtype"}), "empty": (2, {"shape", "dtype"}), "full": (3, {"shape", "fill_value", "dtype"}),
       "eye": (4, {"N", "M", "k", "dtype"}), "identity": (2, {"n", "dtype"}), "array": (2, {"dtype", "copy", "ndmin"}), "asarray": (2, {"dtype"}),
       "ascontiguousarray": (2, {"dtype"}), "asanyarray": (2, {"dtype"}), "arange": (4, {"dtype"}), "copyto": (2, {"where"}), "diag": (2, {"k"}),
       "triu": (2, {"k"}), "tril": (2, {"k"}), "outer": (2, set()), "kron": (2, set()), "sum": (2, {"axis"}), "vdot": (2, set()), "dot": (2, set()),
       "matmul": (2, set()), "inner": (2, set()), "where": (3, set()), "repeat": (3, {"repeats", "axis"}), "sort": (1, set()), "argsort": (1, set()),
       "concatenate": (2, {"axis"}), "stack": (2, {"axis"}), "hstack": (1, set()), "vstack": (1, set()), "row_stack": (1, set()), "column_stack": (1, set()),
       "append": (3, {"axis"}), "allclose": (4, {"rtol", "atol"}), "isclose": (4, {"rtol", "atol"}), "zeros_like": (1, {"dtype"}), "ones_like": (1, {"dtype"}),
       "empty_like": (1, {"dtype"}), "full_like": (2, {"fill_value", "dtype"}), "prod": (2, {"axis"}), "any": (2, {"axis"}), "all": (2, {"axis"}),
       "max": (2, {"axis"}), "min": (2, {"axis"}), "amax": (2, {"axis"}), "amin": (2, {"axis"}), "argmax": (2, {"axis"}), "argmin": (2, {"axis"}),
       "mean": (2, {"axis"}), "cumsum": (2, {"axis"}), "cumprod": (2, {"axis"}), "round": (2, {"decimals"}), "abs": (1, {"out"}), "absolute": (1, set()),
       "negative": (2, {"out"}), "unique": (1, {"return_counts"}), "trace": (1, set()), "diagonal": (1, set()), "squeeze": (1, set()), "around": (2, {"decimals"})}
for _n in ("add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "remainder", "floor_divide", "bitwise_and", "bitwise_or", "bitwise_xor",
           "left_shift", "right_shift", "equal", "not_equal", "less", "greater", "less_equal", "greater_equal", "maximum", "minimum"):
    SIG[_n] = UF
for _n in ("logical_and", "logical_or", "logical_xor"):
    SIG[_n] = (2, set())
for _n in ("real", "imag", "conj", "conjugate", "square", "logical_not", "invert", "bitwise_not", "angle"):
    SIG[_n] = (1, set())
for _n in ("cos", "sin", "exp", "sqrt", "tan", "log"):
    SIG[_n] = (1, {"out"})
MSIG = {"copy": (1, {"order"}), "astype": (1, {"dtype", "copy"}), "sum": (1, {"axis"}), "prod": (1, {"axis"}), "any": (1, {"axis"}), "all": (1, {"axis"}),
        "max": (1, {"axis"}), "min": (1, {"axis"}), "argmax": (1, {"axis"}), "argmin": (1, {"axis"}), "mean": (1, {"axis"}), "cumsum": (1, {"axis"}),
        "cumprod": (1, {"axis"}), "repeat": (2, {"repeats", "axis"}), "sort": (0, set()), "argsort": (0, set()), "trace": (0, set()), "diagonal": (0, set()),
        "squeeze": (0, set()), "view": (0, set()), "reshape": (99, set()), "round": (1, {"decimals"}), "ravel": (0, set()), "flatten": (0, set()),
        "item": (1, set()), "conj": (0, set()), "conjugate": (0, set()), "dot": (1, set())}


def guarded(name, f, sig, what):
    n, kws = sig

    @functools.wraps(f)
    def g(I, *r):
        a, k = r[-2], r[-1]
        if len(a) > n:
            raise I.undecided(f"further positional arguments of {what}.{name}")
        for x, v in k.items():
            if x in kws:
                continue
            if x in HARMLESS and any(v is y or isinstance(v, (str, bool, int)) and v == y and type(v) is type(y) for y in HARMLESS[x]):
                continue
            raise I.undecided(f"argument {x} of {what}.{name}")
        return f(I, *r[:-1], {x: v for x, v in k.items() if x in kws})
    return g


for _n, _s in SIG.items():
    NPF[_n] = guarded(_n, NPF[_n], _s, "numpy")
for _n, _s in MSIG.items():
    ND_METHODS[_n] = guarded(_n, ND_METHODS[_n], _s, "ndarray")
