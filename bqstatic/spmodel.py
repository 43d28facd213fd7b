"""Abstract scipy.sparse: matrices as explicit entry lists over a data array whose buffer may be shared."""
from .core import *
from .errors import *
from .scalar import Scalar
from . import npmodel as NP
from .npmodel import NdArr, DType, to_arr, cells_dtype

FORMATS = ("bsr", "coo", "csc", "csr", "dia", "dok", "lil")


def spcls(I, fmt, arr=False):
    base = I.bt.get("spmatrix")
    if base is None:
        base = I.bt["spmatrix"] = ClassObj("spmatrix", [I.bt["object"]])
        for f in FORMATS:
            I.bt["sp_" + f] = ClassObj(f"{f}_matrix", [base], construct=lambda I, c, a, k, f=f: build(I, f, a, k))
            I.bt["sa_" + f] = ClassObj(f"{f}_array", [base], construct=lambda I, c, a, k, f=f: build(I, f, a, k))
    return I.bt[("sa_" if arr else "sp_") + fmt] if fmt else base


class SpMat(Obj):
    """f: fmt, shape, data (1-d NdArr), pos (tuple of (row, col), one for each data cell; repeated positions add up)"""
    __slots__ = ()

    def __init__(self, fmt, shape, data, pos, idx=()):
        super().__init__({"fmt": fmt, "shape": tuple(shape), "data": data, "pos": tuple(pos), "idx": tuple(idx)})

    fmt = property(lambda s: s.f["fmt"])
    shape = property(lambda s: s.f["shape"])
    data = property(lambda s: s.f["data"])
    pos = property(lambda s: s.f["pos"])

    def pycls(self, I):
        return spcls(I, self.fmt)

    def __repr__(self):
        return f"{self.fmt}_matrix{self.shape}"

    def table(self, I):
        t = {}
        for p, c in zip(self.pos, self.data.cells()):
            t[p] = I.binop("+", t[p], c) if p in t else c
        return t

    def dense(self, I):
        n, m = self.shape
        zero = 0 if self.data.dtype.kind in "iu" else 0.0 if self.data.dtype.kind == "f" else 0j
        t = self.table(I)
        return NdArr([NP.cast_cell(I, t.get((i, j), zero), self.data.dtype) for i in range(n) for j in range(m)], (n, m), self.data.dtype)

    def copy(self, I, fmt=None):
        return SpMat(fmt or self.fmt, self.shape, self.data.deepcopy(I), self.pos)

    deepcopy = copy

    def truth(self, I):
        if self.shape == (1, 1):
            return I.truth(self.table(I).get((0, 0), 0))
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().")

    def length(self, I):
        raise I.exc("TypeError", "sparse array length is ambiguous; use getnnz() or shape[0]")

    def binop(self, I, op, other, refl):
        if isinstance(other, SpMat):
            a, b = (other, self) if refl else (self, other)
            if op in ("+", "-"):
                if a.shape != b.shape:
                    raise I.exc("ValueError", "inconsistent shapes")
                cells = a.data.cells() + [c if op == "+" else I.unop("-", c) for c in b.data.cells()]
                return SpMat("csr" if a.fmt != "csc" else "csc", a.shape, NdArr(cells, (len(cells),), cells_dtype(cells) if cells else a.data.dtype), a.pos + b.pos)
            if op in ("*", "@"):
                d = NP.matmul(I, a.dense(I), b.dense(I))
                return from_dense(I, d, "csr" if a.fmt != "csc" else "csc")
            raise I.undecided(f"sparse {op} sparse")
        if isinstance(other, (NdArr, ListObj, tuple)):
            if op in ("*", "@"):
                return NP.matmul(I, other, self.dense(I)) if refl else NP.matmul(I, self.dense(I), other)
            return I.binop(op, other, self.dense(I)) if refl else I.binop(op, self.dense(I), other)
        if isinstance(other, (NP.VecObj, NP.CompVec)):
            raise I.undecided("sparse matrix times a vector of generic width")
        if op == "*" or op == "/" and not refl:
            d = self.data.elementwise(I, lambda c: I.binop(op, *((other, c) if refl else (c, other))))
            return SpMat(self.fmt, self.shape, d, self.pos)
        raise I.exc("NotImplementedError", "adding a nonzero scalar to a sparse array is not supported")

    def unop(self, I, op):
        return SpMat(self.fmt, self.shape, self.data.unop(I, op), self.pos)

    def inplace(self, I, op, other):
        if op in ("*", "/") and not isinstance(other, (SpMat, NdArr)):
            self.data.inplace(I, op, other)
            return self
        return self.binop(I, op, other, False)

    def compare(self, I, op, other, refl):
        raise I.undecided("comparison of sparse matrices")

    def getitem(self, I, key):
        return self.dense(I).getitem(I, key)

    def setitem(self, I, key, v):
        if isinstance(key, tuple) and all(isinstance(x, int) for x in key):
            key = tuple(x + n if x < 0 else x for x, n in zip(key, self.shape))
            hit = [i for i, p in enumerate(self.pos) if p == key]
            if len(hit) == 1:
                self.data.setitem(I, hit[0], v)
                return
        d = self.dense(I)
        d.setitem(I, key, v)
        r = from_dense(I, d, self.fmt)
        for n in ("data", "pos"):
            I.E.put(self.f, n, r.f[n])

    def to(self, I, fmt, copy=False):
        if fmt not in FORMATS:
            raise I.exc("ValueError", f"Format {fmt} is unknown.")
        if fmt == self.fmt:
            return self.copy(I) if copy else self
        return SpMat(fmt, self.shape, self.data.deepcopy(I), self.pos)

    def getattr(self, I, name):
        if name == "shape":
            return self.shape
        if name == "ndim":
            return 2
        if name == "dtype":
            return self.data.dtype
        if name == "format":
            return self.fmt
        if name == "data":
            return self.data
        if name in ("nnz", "size"):
            return len(set(self.pos)) if self.fmt not in ("csc", "csr", "coo") else len(self.pos)
        if name in ("indices", "indptr", "row", "col") and self.f["idx"]:
            return dict(self.f["idx"]).get(name)
        if name == "T":
            return self.transpose(I)
        if name == "real" or name == "imag":
            return SpMat(self.fmt, self.shape, self.data.getattr(I, name), self.pos)
        if name in ("A",):
            return self.dense(I)
        if name == "H":
            return call(I, call(I, self, "transpose"), "conjugate")
        if name in METHODS:
            return Native("sparse." + name, lambda I, a, k: METHODS[name](I, self, a, k))
        if name[:2] == "to" and name[2:] in FORMATS:
            return Native("sparse." + name, lambda I, a, k: self.to(I, name[2:], k.get("copy", a[0] if a else False)))
        if name.startswith("__") and name.endswith("__"):
            return NotImplemented
        raise I.undecided(f"sparse matrix .{name}")

    def transpose(self, I):
        f = {"csc": "csr", "csr": "csc"}.get(self.fmt, self.fmt)
        return SpMat(f, self.shape[::-1], self.data, tuple((j, i) for i, j in self.pos))


def call(I, m, name, *a):
    return I.call(m.getattr(I, name), list(a), {})


def eliminate(I, s, a, k):
    keep = [i for i, c in enumerate(s.data.cells()) if not zero(I, c)]
    if len(keep) != len(s.pos):
        c = s.data.cells()
        d = NdArr([c[i] for i in keep], (len(keep),), s.data.dtype)
        I.E.put(s.f, "pos", tuple(s.pos[i] for i in keep))
        I.E.put(s.f, "data", d)
        I.E.put(s.f, "idx", ())


def zero(I, c):
    """only cells that are zero on every path are dropped: the entries are the same either way"""
    if isinstance(c, Scalar):
        return I.E.norm(c).is_zero()
    return isinstance(c, (int, float, complex)) and c == 0


def sum_dup(I, s, a, k):
    t = s.table(I)
    I.E.put(s.f, "data", NdArr(list(t.values()), (len(t),), s.data.dtype))
    I.E.put(s.f, "pos", tuple(t))


METHODS = {
    "toarray": lambda I, s, a, k: s.dense(I),
    "todense": lambda I, s, a, k: s.dense(I),
    "copy": lambda I, s, a, k: s.copy(I),
    "asformat": lambda I, s, a, k: s if a[0] is None else s.to(I, a[0], k.get("copy", False)),
    "getformat": lambda I, s, a, k: s.fmt,
    "get_shape": lambda I, s, a, k: s.shape,
    "getnnz": lambda I, s, a, k: len(s.pos),
    "dot": lambda I, s, a, k: s.binop(I, "@", a[0], False) if isinstance(a[0], (SpMat, NdArr, ListObj, tuple, NP.VecObj)) else s.binop(I, "*", a[0], False),
    "multiply": lambda I, s, a, k: s.binop(I, "*", a[0], False) if not isinstance(a[0], (SpMat, NdArr)) else from_dense(I, I.binop("*", s.dense(I), a[0].dense(I) if isinstance(a[0], SpMat) else a[0]), s.fmt),
    "transpose": lambda I, s, a, k: s.transpose(I),
    "conjugate": lambda I, s, a, k: SpMat(s.fmt, s.shape, s.data.elementwise(I, lambda c: NP.conj(I, c)), s.pos),
    "conj": lambda I, s, a, k: SpMat(s.fmt, s.shape, s.data.elementwise(I, lambda c: NP.conj(I, c)), s.pos),
    "getH": lambda I, s, a, k: call(I, s.transpose(I), "conjugate"),
    "diagonal": lambda I, s, a, k: NP.np_diag(I, [s.dense(I)], {}),
    "trace": lambda I, s, a, k: NP.np_sum(I, [NP.np_diag(I, [s.dense(I)], {})], {}),
    "eliminate_zeros": eliminate,
    "sum_duplicates": sum_dup,
    "sort_indices": lambda I, s, a, k: None,
    "sorted_indices": lambda I, s, a, k: s.copy(I),
    "has_sorted_indices": lambda I, s, a, k: True,
    "prune": lambda I, s, a, k: None,
    "check_format": lambda I, s, a, k: None,
    "sum": lambda I, s, a, k: NP.np_sum(I, [s.dense(I)] + list(a), k),
    "astype": lambda I, s, a, k: SpMat(s.fmt, s.shape, to_arr(I, s.data, NP.dtype_of(I, a[0])).deepcopy(I), s.pos),
    "reshape": lambda I, s, a, k: from_dense(I, NP.m_reshape(I, s.dense(I), a, k), s.fmt),
    "items": lambda I, s, a, k: IterObj([(p, c) for p, c in s.table(I).items()]),
}


def from_dense(I, d, fmt):
    d = to_arr(I, d)
    if len(d.shape) == 1:
        d = d.view(d.idx, (1, d.shape[0]))
    if len(d.shape) != 2:
        raise I.exc("TypeError", "expected 2D array or matrix")
    n, m = d.shape
    pos, cells = [], []
    for i, c in enumerate(d.cells()):
        if not zero(I, c):
            pos.append((i // m, i % m))
            cells.append(c)
    return SpMat(fmt, (n, m), NdArr(cells, (len(cells),), d.dtype), pos)


def ints(I, v):
    out = []
    for c in to_arr(I, v).cells():
        if not isinstance(c, int):
            raise I.undecided(f"abstract index {c!r} of a sparse matrix")
        out.append(c)
    return out


def build(I, fmt, a, k):
    a = list(a)
    x = a[0] if a else k["arg1"]
    shape = a[1] if len(a) > 1 else k.get("shape")
    dt = a[2] if len(a) > 2 else k.get("dtype")
    copy = a[3] if len(a) > 3 else k.get("copy", False)
    dt = NP.dtype_of(I, dt) if dt is not None else None
    if isinstance(x, SpMat):
        r = x.to(I, fmt, copy)
        r = SpMat(fmt, r.shape, r.data, r.pos, r.f["idx"])
    elif isinstance(x, tuple) and len(x) == 2 and all(isinstance(t, int) for t in x):
        r = SpMat(fmt, x, NdArr([], (0,), dt or DType("float64")), ())
    elif isinstance(x, tuple) and len(x) == 2 and fmt != "dia":
        data = own(I, x[0], copy)
        row, col = ints(I, I.list_values(x[1])[0]), ints(I, I.list_values(x[1])[1])
        if not len(row) == len(col) == data.size:
            raise I.exc("ValueError", "row, column, and data array must all be the same length")
        if shape is None:
            shape = (max(row) + 1, max(col) + 1)
        pos = list(zip(row, col))
        if fmt != "coo":
            data = data.deepcopy(I)
        r = SpMat(fmt, shape, data, pos, ())
    elif isinstance(x, tuple) and len(x) == 3 and fmt in ("csc", "csr"):
        data = own(I, x[0], copy)
        ind, ptr = ints(I, x[1]), ints(I, x[2])
        major = 0 if fmt == "csr" else 1
        if shape is None:
            mx = max(ind) + 1 if ind else 0
            shape = (len(ptr) - 1, mx) if fmt == "csr" else (mx, len(ptr) - 1)
        if len(ptr) != shape[major] + 1 or ptr[0] != 0 or ptr[-1] > len(ind) or len(ind) != data.size or any(p > q for p, q in zip(ptr, ptr[1:])):
            raise I.exc("ValueError", "index pointer or index arrays do not match the data or the shape")
        pos = []
        for j in range(len(ptr) - 1):
            for t in range(ptr[j], ptr[j + 1]):
                pos.append((j, ind[t]) if major == 0 else (ind[t], j))
        if len(pos) != data.size:
            data = NdArr(data.cells()[:len(pos)], (len(pos),), data.dtype)
        r = SpMat(fmt, shape, data, pos, (("indices", x[1]), ("indptr", x[2])))
    elif isinstance(x, (NdArr, ListObj)):
        r = from_dense(I, x, fmt)
    else:
        raise I.undecided(f"scipy.sparse.{fmt}_matrix of {x!r}")
    sh = r.shape if shape is None else tuple(I.list_values(shape))
    if not all(isinstance(t, int) for t in sh):
        raise I.undecided("sparse matrix of abstract shape")
    if any(i >= sh[0] or j >= sh[1] or i < 0 or j < 0 for i, j in r.pos):
        raise I.exc("ValueError", "index exceeds matrix dimension")
    if sh != r.shape:
        I.E.put(r.f, "shape", sh)
    if dt is not None and dt.name != r.data.dtype.name:
        I.E.put(r.f, "data", to_arr(I, r.data, dt))
    return r


def own(I, v, copy):
    if isinstance(v, NdArr):
        return v.deepcopy(I) if copy else v.view(v.idx, v.shape)
    if isinstance(v, (ListObj, tuple)):
        return to_arr(I, v)
    raise I.undecided(f"sparse matrix data {v!r}")


def sp_kron(I, a, k):
    A, B = (x.dense(I) if isinstance(x, SpMat) else to_arr(I, x) for x in a[:2])
    fmt = a[2] if len(a) > 2 else k.get("format")
    return from_dense(I, NP.np_kron(I, [A, B], {}), fmt or "bsr")


def sp_eye(I, a, k):
    n = a[0] if a else k["n"]
    m = a[1] if len(a) > 1 and not isinstance(a[1], str) and not NP.is_dtype(a[1]) else None
    m = m if m is not None else n
    dt = k.get("dtype")
    dt = NP.dtype_of(I, dt) if dt is not None else DType("float64")
    q = min(n, m)
    return SpMat(k.get("format") or "dia", (n, m), NdArr([NP.cast_cell(I, 1, dt)] * q, (q,), dt), [(i, i) for i in range(q)])


def ext_attr(I, mod, name):
    if name.endswith("_matrix") and name[:-7] in FORMATS:
        return spcls(I, name[:-7])
    if name.endswith("_array") and name[:-6] in FORMATS:
        return spcls(I, name[:-6], True)
    if name in ("spmatrix", "sparray"):
        return spcls(I, "")
    if name in ("issparse", "isspmatrix"):
        return Native(name, lambda I, a, k: isinstance(a[0], SpMat))
    if name == "kron":
        return Native("scipy.sparse.kron", sp_kron)
    if name in ("eye", "identity", "eye_array"):
        return Native("scipy.sparse." + name, sp_eye)
    if name in ("linalg", "csgraph"):
        return I.ext_module(mod + "." + name)
    return Opaque(mod + "." + name)
