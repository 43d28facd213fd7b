"""Abstract semantics of numpy / numba as used by the analysed code.

NdArr   arrays of concrete shape whose cells are abstract scalars (views share a buffer)
VecObj  vectors of 2**N amplitudes with symbolic N: a table  bit pattern of the known qubit positions -> scalar,
        every entry standing for all amplitudes that agree on those bits (the other bits are universally quantified)
"""
import cmath
import itertools
import math
from fractions import Fraction

from .core import *
from .errors import *
from . import symint as SI
from .symint import BitInt, Seg
from .scalar import Scalar, Gen, apply_fn
from . import models
from .models import Native as N_

NUM = (int, float, complex)


class DType(AbsVal):
    KIND = {"uint8": "u", "uint16": "u", "uint32": "u", "uint64": "u", "int8": "i", "int16": "i", "int32": "i", "int64": "i", "intp": "i", "int_": "i",
            "float16": "f", "float32": "f", "float64": "f", "double": "f", "float_": "f", "longdouble": "f", "complex64": "c", "complex128": "c", "complex_": "c", "clongdouble": "c", "bool_": "b", "bool": "b",
            "object": "O", "object_": "O", "bool8": "b", "uintp": "u", "csingle": "c", "cdouble": "c", "single": "f"}
    CANON = {"float_": "float64", "double": "float64", "complex_": "complex128", "cdouble": "complex128", "int_": "int64", "intp": "int64", "bool_": "bool", "bool8": "bool", "object_": "object", "uintp": "uint64", "single": "float32", "csingle": "complex64"}

    def __init__(self, name):
        self.name = self.CANON.get(name, name)
        self.kind = self.KIND.get(name, "?")

    def __repr__(self):
        return f"dtype({self.name})"

    def hkey(self, I):
        return ("dtype", self.name)

    def compare(self, I, op, other, refl):
        if op in ("==", "!="):
            return (dtype_of(I, other).name == self.name if is_dtype(other) else False) == (op == "==")
        return NotImplemented

    def getitem(self, I, k):
        return self

    def call(self, I, a, k):
        # as a numba signature or as a cast
        if not a:
            return {"u": 0, "i": 0, "f": 0.0, "c": 0j, "b": False}.get(self.kind, 0)
        v = a[0]
        if isinstance(v, DType):
            return self
        if self.kind in "ui":
            if isinstance(v, float):
                return int(v)
            return v
        if self.kind == "f":
            return models.to_float(I, v)
        if self.kind == "c":
            return models.to_complex(I, [v])
        if self.kind == "b":
            return I.truth(v)
        return v

    def getattr(self, I, name):
        if name in ("name", "__name__"):
            return self.name
        if name == "kind":
            return self.kind
        if name == "type":
            return self
        if name == "itemsize":
            import re
            m = re.search(r"\d+", self.name)
            return int(m.group()) // 8 if m else 8
        return NotImplemented

    def cls(self, I):
        return I.bt["type"]


def is_dtype(v):
    return isinstance(v, DType) or isinstance(v, ClassObj) and v.name in ("int", "float", "complex", "bool", "object") or isinstance(v, str) and v in DType.KIND


def dtype_of(I, v, default="float64"):
    if v is None:
        return DType(default)
    if isinstance(v, DType):
        return v
    if isinstance(v, ClassObj):
        m = {"int": "int64", "float": "float64", "complex": "complex128", "bool": "bool", "object": "object"}
        if v.name in m:
            return DType(m[v.name])
    if isinstance(v, str):
        m = {"int": "int64", "float": "float64", "complex": "complex128", "c16": "complex128", "f8": "float64", "i8": "int64"}
        return DType(m.get(v, v))
    if isinstance(v, Opaque):
        return v if False else DType("opaque:" + repr(v))
    raise I.undecided(f"dtype {v!r}")


def scalar_kind(v):
    if isinstance(v, bool) or isinstance(v, Cond):
        return "b"
    if isinstance(v, (int, SymInt, BitInt)):
        return "i"
    if isinstance(v, float):
        return "f"
    if isinstance(v, complex):
        return "c"
    if isinstance(v, Scalar):
        return {"int": "i", "float": "f", "complex": "c", "sympy": "O"}[v.ty]
    return "O"


KNAME = {"b": "bool", "i": "int64", "u": "uint64", "f": "float64", "c": "complex128", "O": "object"}


def cells_dtype(cells):
    order = "bufcO".replace("u", "ui")
    k = "b" if cells else "f"
    best = -1
    for c in cells:
        s = scalar_kind(c)
        i = "bifcO".index(s)
        best = max(best, i)
    return DType(KNAME["bifcO"[best]] if best >= 0 else "float64")


ROUND = Gen("sym", "single precision", True, True)


def cast_cell(I, v, dt):
    if dt.kind == "f" and isinstance(v, AbsVal) and hasattr(v, "as_scalar"):
        v = v.to_float(I)
    if I.single and str(dt.name) in ("complex64", "float32", "float16"):
        s = I.to_scalar(v)
        if s is not None and not s.is_const() and ROUND not in s.gens():
            v = s * Scalar.gen(ROUND)
    if dt.kind == "c":
        if isinstance(v, (bool, int, float)):
            return complex(v)
        if isinstance(v, Scalar) and v.ty not in ("complex",):
            return Scalar(v.t, "complex")
        if isinstance(v, (SymInt,)):
            return models.to_complex(I, [v])
        return v
    if dt.kind == "f":
        if isinstance(v, complex):
            I.event("complex_discarded", I.where())
            return v.real
        if isinstance(v, Scalar) and v.ty == "complex" and not v.is_real():
            I.event("complex_discarded", I.where())
            return v.real_part()
        if isinstance(v, (bool, int)):
            return float(v)
        if isinstance(v, Scalar):
            return Scalar(v.t, "float")
        if isinstance(v, (SymInt, Cond)):
            return models.to_float(I, v)
        return v
    if dt.kind in "iu":
        if isinstance(v, float):
            return int(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, complex):
            I.event("complex_discarded", I.where())
            return int(v.real)
        if isinstance(v, Scalar):
            return models.to_int(I, v)
        if isinstance(v, Cond):
            return models.to_int(I, v)
        return v
    if dt.kind == "b":
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, NUM):
            return bool(v)
        r = I.compare("!=", v, 0)
        return r
    return v


# ---------------------------------------------------------------------- arrays of concrete shape
class Buffer(Obj):
    __slots__ = ()

    def __init__(self, cells):
        super().__init__({"cells": list(cells)})


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class NdArr(Obj):
    __slots__ = ("buf", "idx", "shape", "dtype")

    def __init__(self, cells, shape, dtype, buf=None, idx=None):
        super().__init__({})
        self.shape = tuple(shape)
        self.dtype = dtype
        if buf is None:
            buf = Buffer(cells)
            idx = list(range(len(cells)))
        self.buf, self.idx = buf, idx

    def __repr__(self):
        return f"NdArr{self.shape}{self.cells()}"

    def cells(self):
        c = self.buf.f["cells"]
        return [c[i] for i in self.idx]

    def pycls(self, I):
        return ndarray_cls(I)

    @property
    def size(self):
        return len(self.idx)

    def view(self, idx, shape):
        return NdArr(None, shape, self.dtype, self.buf, list(idx))

    def like(self, cells, dtype=None):
        return NdArr(cells, self.shape, dtype or cells_dtype(cells))

    def write(self, I, pairs):
        """pairs: (cell number, value)"""
        c = list(self.buf.f["cells"])
        for i, v in pairs:
            c[i] = cast_cell(I, v, self.dtype)
        I.E.put(self.buf.f, "cells", c)

    def length(self, I):
        if not self.shape:
            raise I.exc("TypeError", "len() of unsized object")
        return self.shape[0]

    def iterate(self, I):
        if not self.shape:
            raise I.exc("TypeError", "iteration over a 0-d array")
        if len(self.shape) == 1:
            c = self.cells()
            for i in self.idx:
                note_access(I, self.buf, i, "r")
            return c
        n = prod(self.shape[1:])
        return [self.view(self.idx[i * n:(i + 1) * n], self.shape[1:]) for i in range(self.shape[0])]

    def truth(self, I):
        if self.size == 1:
            v = self.cells()[0]
            return v if isinstance(v, Cond) else I.truth(v)
        if self.size == 0:
            return False
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def deepcopy(self, I):
        return NdArr(self.cells(), self.shape, self.dtype)

    def binop(self, I, op, other, refl):
        if op == "@":
            return matmul(I, other, self) if refl else matmul(I, self, other)
        if isinstance(other, (str, DictObj)) or other is None:
            return NotImplemented
        if isinstance(other, InstObj):
            if other.cls.lookup("__r%s__" % {"*": "mul", "+": "add", "-": "sub", "/": "truediv"}.get(op, "?")) and not refl:
                return NdArr([I.binop(op, c, other) for c in self.cells()], self.shape, DType("object"))
            return NotImplemented
        return ufunc(I, lambda a, b: I.binop(op, a, b), *((other, self) if refl else (self, other)))

    def compare(self, I, op, other, refl):
        if other is None or isinstance(other, (str, DictObj)):
            return NdArr([op == "!="] * self.size, self.shape, DType("bool"))
        r = ufunc(I, lambda a, b: I.compare(op, a, b), self, other)
        r.dtype = DType("bool")
        return r

    def unop(self, I, op):
        if op == "~":
            return self.like([logical_not(I, c) if self.dtype.kind == "b" else I.unop("~", c) for c in self.cells()], self.dtype)
        return self.like([I.unop(op, c) for c in self.cells()], self.dtype)

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        if r is NotImplemented:
            return r
        if not isinstance(r, NdArr):
            raise I.undecided("in-place operation on an array")
        if r.shape != self.shape:
            raise I.exc("ValueError", "non-broadcastable output operand")
        if self.dtype.kind in "fiu" and r.dtype.kind == "c" or self.dtype.kind in "iu" and r.dtype.kind in "f":
            raise I.exc("TypeError", "Cannot cast ufunc output (UFuncTypeError)")
        self.write(I, list(zip(self.idx, r.cells())))
        return self

    def elementwise(self, I, fn, dtype=None):
        return NdArr([fn(c) for c in self.cells()], self.shape, dtype or cells_dtype([fn(c) for c in self.cells()[:1]]) if self.size else self.dtype)

    def contains(self, I, x):
        for c in self.cells():
            if I.truth(I.compare("==", c, x)):
                return True
        return False

    def to_int(self, I):
        if self.size == 1:
            return models.to_int(I, self.cells()[0])
        raise I.exc("TypeError", "only length-1 arrays can be converted to Python scalars")

    def to_float(self, I):
        if self.size == 1:
            return models.to_float(I, self.cells()[0])
        raise I.exc("TypeError", "only length-1 arrays can be converted to Python scalars")

    # -- indexing
    def resolve(self, I, key):
        """(idx list, shape, is_scalar, is_copy)"""
        if isinstance(key, NdArr) and key.dtype.kind == "b":
            if key.shape != self.shape[:len(key.shape)]:
                raise I.exc("IndexError", "boolean index did not match indexed array")
            inner = self.shape[len(key.shape):]
            n = prod(inner)
            out = []
            cnt = 0
            for j, b in enumerate(key.cells()):
                if I.truth(b):
                    cnt += 1
                    out += self.idx[j * n:(j + 1) * n]
            return out, (cnt,) + inner, False, True
        if isinstance(key, (NdArr, ListObj)):
            karr = to_arr(I, key)
            if karr.dtype.kind == "b":
                return self.resolve(I, karr)
            n = prod(self.shape[1:])
            out = []
            for k in karr.cells():
                k = self.norm_index(I, k, self.shape[0])
                out += self.idx[k * n:(k + 1) * n]
            return out, karr.shape + self.shape[1:], False, True
        keys = list(key) if isinstance(key, tuple) else [key]
        if any(isinstance(k, (NdArr, ListObj, tuple)) for k in keys):
            return self.resolve_mixed(I, keys)
        if Ellipsis in [k for k in keys if not hasattr(k, "f")]:
            i = next(j for j, k in enumerate(keys) if k is Ellipsis)
            real = len([k for k in keys if k is not None and k is not Ellipsis])
            keys = keys[:i] + [SliceObj(None, None, None)] * (len(self.shape) - real) + keys[i + 1:]
        idx = list(self.idx)
        shape = list(self.shape)
        # walk the axes
        cur = [(idx, shape)]
        out_shape = []
        lists = [list(range(len(idx)))]
        axis = 0
        sels = []
        for k in keys:
            if k is None:
                sels.append(None)
                continue
            if axis >= len(self.shape):
                raise I.exc("IndexError", "too many indices for array")
            n = self.shape[axis]
            if isinstance(k, SliceObj):
                sels.append(list(range(n))[models.pyslice(models.norm_slice(I, k, n))])
            else:
                sels.append(self.norm_index(I, k, n))
            axis += 1
        for n in self.shape[axis:]:
            sels.append(list(range(n)))
        st = strides(self.shape)
        offs = [0]
        a = 0
        for s in sels:
            if s is None:
                out_shape.append(1)
                continue
            if isinstance(s, int):
                offs = [o + s * st[a] for o in offs]
            else:
                out_shape.append(len(s))
                offs = [o + x * st[a] for o in offs for x in s]
            a += 1
        scalar = not out_shape and all(isinstance(s, int) for s in sels)
        return [self.idx[o] for o in offs], tuple(out_shape), scalar, False

    def resolve_mixed(self, I, keys):
        """advanced indexing: index arrays (and the integers next to them) are broadcast together"""
        ks = []
        for k in keys:
            if isinstance(k, (NdArr, ListObj, tuple)):
                k = to_arr(I, k)
                if k.dtype.kind == "b":
                    ks += np_nonzero(I, k)
                    continue
            elif isinstance(k, bool):
                raise I.undecided("boolean index")
            ks.append(k)
        real = sum(1 for k in ks if k is not None and k is not Ellipsis)
        if real > len(self.shape):
            raise I.exc("IndexError", "too many indices for array")
        full = SliceObj(None, None, None)
        if any(k is Ellipsis for k in ks):
            i = next(j for j, k in enumerate(ks) if k is Ellipsis)
            ks = ks[:i] + [full] * (len(self.shape) - real) + ks[i + 1:]
        else:
            ks = ks + [full] * (len(self.shape) - real)
        adv = [j for j, k in enumerate(ks) if k is not None and not isinstance(k, SliceObj)]
        arrs = [to_arr(I, ks[j]) for j in adv]
        bshape = ()
        for a in arrs:
            n = max(len(bshape), len(a.shape))
            x, y = (1,) * (n - len(bshape)) + bshape, (1,) * (n - len(a.shape)) + a.shape
            if any(p != q and p != 1 and q != 1 for p, q in zip(x, y)):
                raise I.exc("IndexError", "shape mismatch: indexing arrays could not be broadcast together")
            bshape = tuple(q if p == 1 else p for p, q in zip(x, y))
        st = strides(self.shape)
        place = adv[0] if adv == list(range(adv[0], adv[0] + len(adv))) else None
        dims = []       # (length, [offset of each]) in the order of the result
        axis = 0
        boffs = [0] * prod(bshape)
        for j, k in enumerate(ks):
            if j == place:
                dims.append(None)
            if k is None:
                dims.append(((1,), [0]))
            elif isinstance(k, SliceObj):
                sel = list(range(self.shape[axis]))[models.pyslice(models.norm_slice(I, k, self.shape[axis]))]
                dims.append(((len(sel),), [x * st[axis] for x in sel]))
                axis += 1
            else:
                c = broadcast(I, arrs[adv.index(j)], bshape)
                boffs = [o + self.norm_index(I, x, self.shape[axis]) * st[axis] for o, x in zip(boffs, c)]
                axis += 1
        if place is None:
            dims.insert(0, None)
        offs, shape = [0], ()
        for d in dims:
            sh, o2 = (bshape, boffs) if d is None else d
            shape += sh
            offs = [o + x for o in offs for x in o2]
        return [self.idx[o] for o in offs], shape, False, True

    def norm_index(self, I, k, n):
        k = models.idx_of(I, k)
        if not isinstance(k, int):
            for v in range(n):
                if I.truth(I.int_cmp("==", k, v)):
                    return v
            raise I.undecided(f"array index {k!r}")
        if not -n <= k < n:
            raise I.exc("IndexError", f"index {k} is out of bounds for axis with size {n}")
        return k % n

    def getitem(self, I, key):
        if len(self.shape) == 1 and isinstance(key, int) and not isinstance(key, bool):
            i = self.idx[self.norm_index(I, key, self.shape[0])]
            note_access(I, self.buf, i, "r")
            return self.buf.f["cells"][i]
        idx, shape, scalar, copy_ = self.resolve(I, key)
        if scalar:
            note_access(I, self.buf, idx[0], "r")
            return self.buf.f["cells"][idx[0]]
        if copy_:
            c = self.buf.f["cells"]
            return NdArr([c[i] for i in idx], shape, self.dtype)
        return self.view(idx, shape)

    def setitem(self, I, key, v):
        idx, shape, scalar, copy_ = self.resolve(I, key)
        if scalar:
            if isinstance(v, NdArr):
                if v.size != 1:
                    raise I.exc("ValueError", "setting an array element with a sequence.")
                v = v.cells()[0]
            elif isinstance(v, (ListObj, tuple)) and self.dtype.kind != "O":
                raise I.exc("ValueError", "setting an array element with a sequence.")
            note_access(I, self.buf, idx[0], "w")
            self.write(I, [(idx[0], v)])
            return
        if isinstance(v, (NdArr, ListObj, tuple)):
            arr = broadcast(I, to_arr(I, v), shape)
            self.write(I, list(zip(idx, arr)))
        else:
            self.write(I, [(i, v) for i in idx])

    def getattr(self, I, name):
        if name == "shape":
            return self.shape
        if name == "ndim":
            return len(self.shape)
        if name == "size":
            return self.size
        if name == "dtype":
            return self.dtype
        if name == "nbytes":
            return self.size * 8
        if name == "T":
            return transpose(self)
        if name in ("real", "imag"):
            return self.elementwise(I, lambda c: part(I, c, name))
        if name == "flat":
            return IterObj(self.cells())
        m = ND_METHODS.get(name)
        if m is not None:
            return Native("ndarray." + name, lambda I, a, k: m(I, self, a, k))
        if name.startswith("__") and name.endswith("__"):
            return NotImplemented
        raise I.undecided(f"ndarray.{name}")


def note_access(I, buf, cell, kind):
    log = getattr(I, "par_log", None)
    if log is not None:
        log.append((buf.oid, cell, kind, I.where()))


def strides(shape):
    st = []
    p = 1
    for n in reversed(shape):
        st.append(p)
        p *= n
    return st[::-1]


def transpose(a, axes=None):
    if len(a.shape) < 2:
        return a.view(a.idx, a.shape)
    axes = axes or tuple(range(len(a.shape)))[::-1]
    shape = tuple(a.shape[i] for i in axes)
    st = strides(a.shape)
    idx = []
    for t in itertools.product(*[range(n) for n in shape]):
        idx.append(a.idx[sum(x * st[ax] for x, ax in zip(t, axes))])
    return a.view(idx, shape)


def part(I, c, name):
    r = models.num_attr(I, c, name)
    if r is None:
        raise I.undecided(f"{name} of {c!r}")
    return r[0]


def logical_not(I, c):
    return c.negate() if isinstance(c, Cond) else not I.truth(c)


def to_arr(I, v, dtype=None):
    if isinstance(v, NdArr):
        if dtype is not None and dtype.name != v.dtype.name:
            return NdArr([cast_cell(I, c, dtype) for c in v.cells()], v.shape, dtype)
        return v
    if isinstance(v, (ListObj, tuple)) or isinstance(v, InstObj) and v.tup is not None or isinstance(v, RangeObj):
        items = I.list_values(v)
        subs = [to_arr(I, x) if isinstance(x, (ListObj, tuple, NdArr, RangeObj)) else None for x in items]
        if any(s is not None for s in subs):
            if any(s is None for s in subs):
                raise I.exc("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
            if any(isinstance(x, VecObj) for x in items):
                raise I.undecided("array of vectors")
            if len({s.shape for s in subs}) > 1:
                raise I.exc("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
            cells = [c for s in subs for c in s.cells()]
            shape = (len(items),) + subs[0].shape
        else:
            if any(isinstance(x, VecObj) for x in items):
                raise I.undecided("array of symbolic vectors")
            cells, shape = items, (len(items),)
        dt = dtype or (cells_dtype(cells) if cells else DType("float64"))
        return NdArr([cast_cell(I, c, dt) for c in cells], shape, dt)
    if isinstance(v, IterObj) or isinstance(v, DictObj):
        return NdArr([v], (), DType("object"))
    dt = dtype or DType(KNAME[scalar_kind(v)])
    return NdArr([cast_cell(I, v, dt)], (), dt)


def broadcast(I, a, shape):
    """cells of a broadcast to shape"""
    if a.shape == tuple(shape):
        return a.cells()
    sa = (1,) * (len(shape) - len(a.shape)) + a.shape
    if len(sa) != len(shape) or any(x != y and x != 1 for x, y in zip(sa, shape)):
        if len(sa) > len(shape) and prod(sa[:len(sa) - len(shape)]) == 1 and sa[len(sa) - len(shape):] == tuple(shape):
            return a.cells()
        raise I.exc("ValueError", f"could not broadcast input array from shape {a.shape} into shape {tuple(shape)}")
    st = strides(sa)
    c = a.cells()
    return [c[sum((0 if n == 1 else x) * s for x, n, s in zip(t, sa, st))] for t in itertools.product(*[range(n) for n in shape])]


def ufunc(I, fn, a, b):
    if isinstance(a, (VecObj, CompVec, LoopVal)) or isinstance(b, (VecObj, CompVec, LoopVal)):
        raise I.undecided("mixed array operation")
    A, Bm = to_arr(I, a), to_arr(I, b)
    n = max(len(A.shape), len(Bm.shape))
    sa = (1,) * (n - len(A.shape)) + A.shape
    sb = (1,) * (n - len(Bm.shape)) + Bm.shape
    shape = []
    for x, y in zip(sa, sb):
        if x == y or y == 1:
            shape.append(x)
        elif x == 1:
            shape.append(y)
        else:
            raise I.exc("ValueError", f"operands could not be broadcast together with shapes {A.shape} {Bm.shape}")
    ca, cb = broadcast(I, A, shape), broadcast(I, Bm, shape)
    cells = [fn(x, y) for x, y in zip(ca, cb)]
    dt = cells_dtype(cells) if cells else A.dtype
    # promotion by array dtype
    ks = [x.dtype.kind for x in (A, Bm) if x.shape or True]
    if dt.kind in "fi" and "c" in ks and dt.kind != "b":
        dt = DType("complex128")
        cells = [cast_cell(I, c, dt) for c in cells]
    elif dt.kind == "i" and "f" in ks:
        dt = DType("float64")
        cells = [cast_cell(I, c, dt) for c in cells]
    return NdArr(cells, shape, dt)


def matmul(I, a, b):
    A, Bm = to_arr(I, a), to_arr(I, b)
    if not A.shape or not Bm.shape:
        raise I.exc("ValueError", "matmul: Input operand does not have enough dimensions")
    if len(A.shape) > 2 or len(Bm.shape) > 2:
        raise I.undecided("matmul of stacked matrices")
    n1, m1 = (1, A.shape[0]) if len(A.shape) == 1 else A.shape
    m2, n2 = (Bm.shape[0], 1) if len(Bm.shape) == 1 else Bm.shape
    if m1 != m2:
        raise I.exc("ValueError", "matmul: Input operand 1 has a mismatch in its core dimension")
    ca, cb = A.cells(), Bm.cells()
    out = []
    for i in range(n1):
        for j in range(n2):
            s = 0
            for k in range(m1):
                s = I.binop("+", s, I.binop("*", ca[i * m1 + k], cb[k * n2 + j]))
            out.append(s)
    shape = (() if len(A.shape) == 1 else (n1,)) + (() if len(Bm.shape) == 1 else (n2,))
    if not shape:
        return out[0]
    return NdArr(out, shape, cells_dtype(out))


def reduce_cells(I, a, axis, fn, init):
    if isinstance(axis, (tuple, ListObj)):
        axes = sorted({npmore.axis_norm(I, x, len(a.shape)) for x in I.list_values(axis)})
        for x in axes[::-1]:
            a = reduce_cells(I, a, x, fn, init)
        return a
    if axis is not None:
        npmore.axis_norm(I, axis, len(a.shape))
    if axis is None:
        r = init
        first = True
        for c in a.cells():
            r = c if first and init is None else fn(r, c)
            first = False
        return r
    if axis < 0:
        axis += len(a.shape)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    st = strides(a.shape)
    c = a.cells()
    out = []
    for t in itertools.product(*[range(n) for n in shape]):
        r = init
        full = list(t[:axis]) + [0] + list(t[axis:])
        for x in range(a.shape[axis]):
            full[axis] = x
            v = c[sum(y * s for y, s in zip(full, st))]
            r = v if x == 0 and init is None else fn(r, v)
        out.append(r)
    if not shape:
        return out[0]
    return NdArr(out, shape, cells_dtype(out))


def axis_of(a, k):
    return a[0] if a else k.get("axis")


def m_reshape(I, s, a, k):
    shp = I.list_values(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, ListObj)) else list(a)
    if not all(isinstance(x, int) for x in shp):
        raise I.undecided("reshape to an abstract shape")
    if -1 in shp:
        p = prod([x for x in shp if x != -1])
        if p == 0 or s.size % p:
            raise I.exc("ValueError", "cannot reshape array")
        shp[shp.index(-1)] = s.size // p
    if prod(shp) != s.size:
        raise I.exc("ValueError", f"cannot reshape array of size {s.size} into shape {tuple(shp)}")
    return s.view(s.idx, tuple(shp))


def m_sort(I, s, a, k):
    if len(s.shape) != 1:
        raise I.undecided("sort of a matrix")
    s.write(I, list(zip(s.idx, models.py_sort(I, s.cells()))))


def tolist(I, a):
    if not a.shape:
        return a.cells()[0]
    if len(a.shape) == 1:
        return ListObj(a.cells())
    return ListObj([tolist(I, x) for x in a.iterate(I)])


def addf(I):
    return lambda x, y: I.binop("+", x, y)


def anyall(is_any):
    def f(I, s, a, k):
        ax = axis_of(a, k)
        if ax is not None:
            return reduce_cells(I, s, ax, (lambda x, y: I.truth(x) or I.truth(y)) if is_any else (lambda x, y: I.truth(x) and I.truth(y)), not is_any)
        for c in s.cells():
            if I.truth(c) == is_any:
                return is_any
        return not is_any
    return f


ND_METHODS = {
    "copy": lambda I, s, a, k: NdArr(s.cells(), s.shape, s.dtype),
    "astype": lambda I, s, a, k: NdArr([cast_cell(I, c, dtype_of(I, a[0])) for c in s.cells()], s.shape, dtype_of(I, a[0])),
    "reshape": m_reshape,
    "ravel": lambda I, s, a, k: s.view(s.idx, (s.size,)),
    "flatten": lambda I, s, a, k: NdArr(s.cells(), (s.size,), s.dtype),
    "tolist": lambda I, s, a, k: tolist(I, s),
    "item": lambda I, s, a, k: s.cells()[a[0] if a else 0],
    "fill": lambda I, s, a, k: s.write(I, [(i, a[0]) for i in s.idx]),
    "sum": lambda I, s, a, k: reduce_cells(I, s, axis_of(a, k), addf(I), 0),
    "prod": lambda I, s, a, k: reduce_cells(I, s, axis_of(a, k), lambda x, y: I.binop("*", x, y), 1),
    "dot": lambda I, s, a, k: np_dot(I, s, a[0]),
    "conj": lambda I, s, a, k: s.elementwise(I, lambda c: conj(I, c), s.dtype),
    "conjugate": lambda I, s, a, k: s.elementwise(I, lambda c: conj(I, c), s.dtype),
    "transpose": lambda I, s, a, k: transpose(s, tuple(a[0]) if a and isinstance(a[0], tuple) else tuple(a) if a else None),
    "any": anyall(True), "all": anyall(False),
    "sort": m_sort,
    "max": lambda I, s, a, k: reduce_cells(I, s, axis_of(a, k), lambda x, y: y if I.truth(I.compare(">", y, x)) else x, None),
    "min": lambda I, s, a, k: reduce_cells(I, s, axis_of(a, k), lambda x, y: y if I.truth(I.compare("<", y, x)) else x, None),
    "trace": lambda I, s, a, k: models.py_sum(I, [ListObj([s.cells()[i * s.shape[1] + i] for i in range(min(s.shape))])], {}),
    "diagonal": lambda I, s, a, k: NdArr([s.cells()[i * s.shape[1] + i] for i in range(min(s.shape))], (min(s.shape),), s.dtype),
    "nonzero": lambda I, s, a, k: np_nonzero(I, s),
    "squeeze": lambda I, s, a, k: s.view(s.idx, tuple(n for n in s.shape if n != 1)),
    "__len__": lambda I, s, a, k: s.length(I),
    "__iter__": lambda I, s, a, k: IterObj(s.iterate(I)),
    "__getitem__": lambda I, s, a, k: s.getitem(I, a[0]),
    "__setitem__": lambda I, s, a, k: s.setitem(I, a[0], a[1]),
    "__copy__": lambda I, s, a, k: NdArr(s.cells(), s.shape, s.dtype),
    "__deepcopy__": lambda I, s, a, k: NdArr(s.cells(), s.shape, s.dtype),
    "argmax": lambda I, s, a, k: argbest(I, s, ">"),
    "argmin": lambda I, s, a, k: argbest(I, s, "<"),
    "mean": lambda I, s, a, k: I.binop("/", reduce_cells(I, s, None, addf(I), 0), s.size),
    "view": lambda I, s, a, k: s.view(s.idx, s.shape),
    "round": lambda I, s, a, k: s.elementwise(I, lambda c: models.py_round(I, [c] + list(a), k)),
    "cumsum": lambda I, s, a, k: np_cumsum(I, s),
    "repeat": lambda I, s, a, k: np_repeat(I, [s] + list(a), k),
    "tobytes": lambda I, s, a, k: Opaque("tobytes", tuple(s.cells())),
}


def np_cumsum(I, s):
    out = []
    t = 0
    for c in s.cells():
        t = I.binop("+", t, c)
        out.append(t)
    return NdArr(out, (len(out),), cells_dtype(out))


def argbest(I, s, op):
    c = s.cells()
    b = 0
    for i in range(1, len(c)):
        if I.truth(I.compare(op, c[i], c[b])):
            b = i
    return b


def np_nonzero(I, s):
    out = []
    for t, c in zip(itertools.product(*[range(n) for n in s.shape]), s.cells()):
        if I.truth(c):
            out.append(t)
    return tuple(NdArr([t[ax] for t in out], (len(out),), DType("int64")) for ax in range(len(s.shape)))


def conj(I, c):
    r = models.num_attr(I, c, "conjugate")
    if r is None:
        if isinstance(c, Opaque):
            return Opaque("conj", (c,))
        raise I.undecided(f"conjugate of {c!r}")
    return I.call(r[0], [], {})


def np_dot(I, a, b):
    A, Bm = to_arr(I, a), to_arr(I, b)
    if not A.shape or not Bm.shape:
        return I.binop("*", A.cells()[0] if not A.shape else A, Bm.cells()[0] if not Bm.shape else Bm)
    return matmul(I, A, Bm)


def np_repeat(I, a, k):
    arr = to_arr(I, a[0])
    n = a[1] if len(a) > 1 else k["repeats"]
    if isinstance(n, int):
        cells = [c for c in arr.cells() for _ in range(n)]
    else:
        cells = [c for c, m in zip(arr.cells(), to_arr(I, n).cells()) for _ in range(m)]
    return NdArr(cells, (len(cells),), arr.dtype)


def ndarray_cls(I):
    c = I.bt.get("ndarray")
    if c is None:
        c = I.bt["ndarray"] = ClassObj("ndarray", [I.bt["object"]])
    return c


# ---------------------------------------------------------------------- amplitude vectors of symbolic width
def psi(I, vid, bits):
    return Scalar.gen(Gen("psi", (vid, tuple(bits)), False))


E0 = Gen("e0", (), True, False)


def patterns(n):
    return list(itertools.product((0, 1), repeat=n))


def prob_poly(vid, bits, real_ok=True):
    """Pr[bits] of a normalised state in terms of joint probabilities of zero bits"""
    Z = [i for i, b in enumerate(bits) if b == 0]
    Oo = [i for i, b in enumerate(bits) if b == 1]
    r = Scalar({}, "float")
    for k in range(len(Oo) + 1):
        for S in itertools.combinations(Oo, k):
            zs = tuple(sorted(Z + list(S)))
            t = Scalar.gen(Gen("P", (vid, zs), True, True)) if zs else Scalar.const(1, "float")
            r = r + t * ((-1) ** k)
    return r


def sum_over_rest(I, s, n_rest):
    """sum of s over all assignments of the unknown bits; psi factors become probabilities / Gram entries"""
    s = Scalar.lift(s)
    out = Scalar({}, s.ty)
    for (ang, gs), c in s.t.items():
        ps, cs, e0, other = [], [], 0, []
        for g, r in gs:
            if g.kind == "psi":
                ps.append((g, r))
            elif g.kind == "conj" and g.data.kind == "psi":
                cs.append((g.data, r))
            elif g.kind == "e0":
                e0 += 1
            else:
                other.append((g, r))
        base = Scalar({(ang, tuple(other)): c}, s.ty)
        if e0:
            if ps or cs:
                raise I.undecided("overlap of an initial state and a generic state")
            out = out + base
            continue
        if not ps and not cs:
            if n_rest == 0:
                out = out + base
            else:
                p = SI.power2(n_rest)
                out = out + base * (I.to_scalar(p))
            continue
        if len(ps) == 1 and len(cs) == 1 and ps[0][1] == 1 and cs[0][1] == 1:
            (v1, b1), (v2, b2) = ps[0][0].data, cs[0][0].data
            if v1 == v2:
                if b1 == b2:
                    out = out + base * prob_poly(v1, b1)
                else:
                    if b1 < b2:
                        g = Scalar.gen(Gen("gram", (v1, b1, b2), False))
                    else:
                        g = Scalar.gen(Gen("gram", (v1, b2, b1), False)).conj()
                    out = out + base * g
                continue
        raise I.undecided("sum over amplitudes that is not a quadratic form")
    return out


def rest_width(I):
    return SI.sub(I.width, len(I.positions))


class VecObj(Obj):
    __slots__ = ("N", "P", "dtype")

    def __init__(self, N, P, tab, dtype):
        super().__init__({"tab": dict(tab)})
        self.N, self.P, self.dtype = N, tuple(P), dtype

    def pycls(self, I):
        return ndarray_cls(I)

    @property
    def tab(self):
        return self.f["tab"]

    def __repr__(self):
        return "Vec{" + ", ".join(f"{''.join(map(str, b))}: {v}" for b, v in self.tab.items()) + "}"

    def put(self, I, tab):
        I.E.put(self.f, "tab", {b: cast_cell(I, v, self.dtype) for b, v in tab.items()})

    def clone(self, tab=None):
        return VecObj(self.N, self.P, tab if tab is not None else self.tab, self.dtype)

    def length(self, I):
        return SI.power2(self.N)

    def deepcopy(self, I):
        return self.clone()

    def check_other(self, I, o):
        if o.P != self.P or SI.eq(o.N, self.N) is not True:
            raise I.undecided("vectors of different width")

    def binop(self, I, op, other, refl):
        f = (lambda x, y: I.binop(op, y, x)) if refl else (lambda x, y: I.binop(op, x, y))
        if isinstance(other, VecObj):
            self.check_other(I, other)
            return self.clone({b: f(v, other.tab[b]) for b, v in self.tab.items()})
        if I.is_num(other):
            return self.clone({b: f(v, other) for b, v in self.tab.items()})
        if isinstance(other, BoolVec):
            return self.clone({b: f(v, 1 if other.tab[b] else 0) for b, v in self.tab.items()})
        raise I.undecided(f"vector {op} {other!r}")

    def unop(self, I, op):
        return self.clone({b: I.unop(op, v) for b, v in self.tab.items()})

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        if self.dtype.kind == "f" and any(scalar_kind(v) == "c" for v in r.tab.values()):
            raise I.exc("TypeError", "Cannot cast ufunc output from complex128 to float64")
        self.put(I, r.tab)
        return self

    def elementwise(self, I, fn, dtype=None):
        return VecObj(self.N, self.P, {b: fn(v) for b, v in self.tab.items()}, dtype or self.dtype)

    def compare(self, I, op, other, refl):
        raise I.undecided("comparison of amplitude vectors")

    def truth(self, I):
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous.")

    def iterate(self, I):
        vid = I.fresh("elem")
        return [AbsElems(lambda: Scalar.gen(Gen("sym", ("amp", I.fresh("a")), False)), "amplitudes")]

    def getitem(self, I, key):
        if isinstance(key, BoolVec):
            self.chk_mask(I, key)
            return CompVec(self, frozenset(b for b, t in key.tab.items() if t), {b: v for b, v in self.tab.items() if key.tab[b]})
        if isinstance(key, SliceObj):
            if key.start is None and key.stop is None and key.step is None:
                return self
            raise I.undecided("slice of an amplitude vector")
        if key is Ellipsis:
            return self
        if isinstance(key, IndexVec):
            return self.clone({b: self.tab[key.permuted(I, b)] for b in self.tab})
        if isinstance(key, (int, SymInt, BitInt)):
            ctx = I.loopctx[-1] if I.loopctx else None
            if ctx is not None and isinstance(key, BitInt) and any(s.src is not None and s.src[0] == ctx["var"] for s in key.segs):
                F = self.address(I, key, ctx)
                ctx["acc"].append((self, tuple(self.P[i] for i in sorted(F)), tuple(sorted(F)), "r", I.where()))
                return LoopVal(self.P, frozenset(F), {pat(b, F): v for b, v in self.tab.items() if all(b[i] == x for i, x in F.items())}, ctx)
            return self.single(I, key)
        raise I.undecided(f"amplitude index {key!r}")

    def single(self, I, key):
        """amplitude at one constant index"""
        bits = []
        for p in self.P:
            bits.append(bit_at(I, key, p))
        zero = not isinstance(key, BitInt) and key == 0
        v = self.tab[tuple(bits)]
        if isinstance(v, NUM) and v == 0:
            return v
        raise I.undecided("single amplitude of a vector of symbolic width")

    def chk_mask(self, I, m):
        if m.P != self.P:
            raise I.undecided("mask over other positions")

    def address(self, I, key, ctx):
        """fixed positions {position number: bit} of a loop access; the rest must enumerate all other bits once"""
        L, N = ctx["L"], self.N
        F = {}
        srcs = []
        for s in key.segs:
            if s.src is None:
                # constant ones must be single known positions
                rest = [(s.lo, s.hi)]
                for i, p in enumerate(self.P):
                    new = []
                    for lo, hi in rest:
                        if SI.le(lo, p) is True and SI.lt(p, hi) is True:
                            F[i] = 1
                            if SI.eq(lo, p) is not True:
                                new.append((lo, p))
                            if SI.eq(SI.add(p, 1), hi) is not True:
                                new.append((SI.add(p, 1), hi))
                        else:
                            new.append((lo, hi))
                    rest = new
                if rest:
                    raise I.undecided(f"loop index sets bits {rest} outside the operand positions")
                continue
            if s.src[0] != ctx["var"] or s.src[2]:
                raise I.undecided("loop index with foreign bits")
            srcs.append(s)
        cur, scur = 0, 0

        def skip(cur, upto):
            n = 0
            while SI.eq(cur, upto) is not True:
                for i, p in enumerate(self.P):
                    if SI.eq(p, cur) is True:
                        F.setdefault(i, 0)
                        cur = SI.add(cur, 1)
                        break
                else:
                    raise I.undecided(f"loop index leaves bits [{cur},{upto}) constant")
                n += 1
                if n > 20:
                    raise I.undecided("loop index pattern")
            return cur
        for s in srcs:
            cur = skip(cur, s.lo)
            if SI.eq(SI.sub(s.lo, s.src[1]), scur) is not True:
                raise I.undecided("loop index permutes the counter bits")
            scur = SI.sub(s.hi, s.src[1])
            cur = s.hi
            for i, p in enumerate(self.P):
                if SI.le(s.lo, p) is True and SI.lt(p, s.hi) is True and i in F:
                    raise I.undecided("loop index pattern overlaps")
        skip(cur, N)
        if SI.eq(scur, L) is not True:
            raise I.undecided(f"loop over {L} counter bits addresses {scur}")
        return F

    def setitem(self, I, key, v):
        if isinstance(key, BoolVec):
            self.chk_mask(I, key)
            mask = frozenset(b for b, t in key.tab.items() if t)
            tab = dict(self.tab)
            if isinstance(v, CompVec):
                src = v.aligned(I, mask)
                for b in mask:
                    tab[b] = src[b]
            elif I.is_num(v):
                for b in mask:
                    tab[b] = v
            else:
                raise I.undecided("assignment to masked amplitudes")
            self.put(I, tab)
            return
        if isinstance(key, SliceObj) and key.start is None and key.stop is None or key is Ellipsis:
            if isinstance(v, VecObj):
                self.check_other(I, v)
                self.put(I, dict(v.tab))
            elif I.is_num(v):
                self.put(I, {b: v for b in self.tab})
            else:
                raise I.undecided("assignment to an amplitude vector")
            return
        if isinstance(key, IndexVec):
            inv = {key.permuted(I, b): b for b in self.tab}
            if len(inv) != len(self.tab):
                raise I.undecided("scatter that is no permutation")
            if isinstance(v, VecObj):
                self.put(I, {t: v.tab[b] for t, b in inv.items()})
                return
        if isinstance(key, (int, BitInt, SymInt)):
            ctx = I.loopctx[-1] if I.loopctx else None
            if ctx is not None and isinstance(key, BitInt) and any(s.src is not None and s.src[0] == ctx["var"] for s in key.segs):
                F = self.address(I, key, ctx)
                ctx["acc"].append((self, tuple(self.P[i] for i in sorted(F)), tuple(sorted(F)), "w", I.where()))
                tab = dict(self.tab)
                for b in self.tab:
                    if all(b[i] == x for i, x in F.items()):
                        if isinstance(v, LoopVal):
                            if v.F != frozenset(F):
                                raise I.undecided("loop mixes amplitudes addressed differently")
                            tab[b] = v.tab[pat(b, F)]
                        else:
                            tab[b] = v
                self.put(I, tab)
                return
            bits = tuple(bit_at(I, key, p) for p in self.P)
            only_known = isinstance(key, int) and all(any(SI.eq(j, p) is True for p in self.P) for j in range(key.bit_length()) if key >> j & 1) if isinstance(key, int) else True
            old = self.tab[bits]
            if isinstance(old, NUM) and old == 0 and only_known:
                tab = dict(self.tab)
                tab[bits] = I.binop("*", v, Scalar.gen(E0)) if SI.eq(rest_width_of(self), 0) is not True else v
                self.put(I, tab)
                return
        raise I.undecided(f"amplitude assignment at {key!r}")

    def getattr(self, I, name):
        if name == "dtype":
            return self.dtype
        if name == "size":
            return SI.power2(self.N)
        if name == "shape":
            return (SI.power2(self.N),)
        if name == "ndim":
            return 1
        if name in ("real", "imag"):
            return self.elementwise(I, lambda c: part(I, c, name), DType("float64"))
        f = VEC_METHODS.get(name)
        if f is not None:
            return Native("ndarray." + name, lambda I, a, k: f(I, self, a, k))
        if name.startswith("__"):
            return NotImplemented
        raise I.undecided(f"ndarray.{name} of an amplitude vector")


def rest_width_of(v):
    return SI.sub(v.N, len(v.P))


def bit_at(I, key, p):
    b = SI.lift(key)
    for s in b.segs:
        lo = SI.le(s.lo, p)
        hi = SI.lt(p, s.hi)
        if lo is True and hi is True:
            if s.src is not None:
                raise I.undecided("unknown bit of an index")
            return 1
        if lo is None or hi is None:
            raise I.undecided(f"bit {p} of {key}")
    return 0


def pat(b, F):
    return tuple(None if i in F else x for i, x in enumerate(b))


def vec_sum(I, v):
    tot = Scalar({}, "float")
    n_rest = rest_width_of(v) if isinstance(v, VecObj) else v.n_rest
    for b, x in v.tab.items():
        tot = tot + sum_over_rest(I, I.to_scalar(x), n_rest)
    return tot


VEC_METHODS = {
    "copy": lambda I, s, a, k: s.clone(),
    "fill": lambda I, s, a, k: s.put(I, {b: a[0] for b in s.tab}),
    "conj": lambda I, s, a, k: s.elementwise(I, lambda c: conj(I, c)),
    "conjugate": lambda I, s, a, k: s.elementwise(I, lambda c: conj(I, c)),
    "astype": lambda I, s, a, k: VecObj(s.N, s.P, {b: cast_cell(I, v, dtype_of(I, a[0])) for b, v in s.tab.items()}, dtype_of(I, a[0])),
    "sum": lambda I, s, a, k: vec_sum(I, s),
    "dot": lambda I, s, a, k: vec_inner(I, s, a[0], False),
    "flatten": lambda I, s, a, k: s.clone(),
    "ravel": lambda I, s, a, k: s,
    "view": lambda I, s, a, k: s,
}


def vec_inner(I, a, b, conj_first=True):
    if type(a) is not type(b):
        raise I.undecided("inner product of different vectors")
    tot = Scalar({}, "complex")
    n_rest = rest_width_of(a) if isinstance(a, VecObj) else a.n_rest
    for p in a.tab:
        x, y = I.to_scalar(a.tab[p]), I.to_scalar(b.tab[p])
        tot = tot + sum_over_rest(I, (x.conj() if conj_first else x) * y, n_rest)
    return tot


class CompVec(Obj):
    """amplitudes selected by a mask"""
    __slots__ = ("mask", "P", "N", "dtype", "n_rest")

    def __init__(self, vec, mask, tab):
        super().__init__({"tab": dict(tab)})
        self.mask, self.P, self.N, self.dtype = mask, vec.P, vec.N, vec.dtype
        self.n_rest = SI.sub(vec.N, len(vec.P))

    def pycls(self, I):
        return ndarray_cls(I)

    @property
    def tab(self):
        return self.f["tab"]

    def __repr__(self):
        return f"Comp{self.tab}"

    def mk(self, tab):
        return CompVec(self, self.mask, tab)

    def aligned(self, I, mask):
        """this vector's values placed on `mask` in index order"""
        if mask == self.mask:
            return dict(self.tab)
        if len(mask) != len(self.mask):
            raise I.exc("ValueError", "NumPy boolean array indexing assignment cannot assign input values to the output values of a different length")
        fa, fb = cube(self.mask, len(self.P)), cube(mask, len(self.P))
        if fa is not None and fb is not None and set(fa) == set(fb):
            out = {}
            for b in mask:
                s = tuple(fa.get(i, x) for i, x in enumerate(b))
                out[b] = self.tab[s]
            return out
        return {b: Scalar.gen(Gen("shuf", (repr(sorted(self.mask)), repr(sorted(mask)), repr(sorted((k, Scalar.lift(v).key() if I.is_num(v) and not isinstance(v, (SymInt, BitInt)) else repr(v)) for k, v in self.tab.items())), b), False)) for b in mask}

    def length(self, I):
        raise I.undecided("length of a masked selection")

    def deepcopy(self, I):
        return self.mk(self.tab)

    def binop(self, I, op, other, refl):
        f = (lambda x, y: I.binop(op, y, x)) if refl else (lambda x, y: I.binop(op, x, y))
        if isinstance(other, CompVec):
            if other.mask == self.mask:
                o = other.tab
            else:
                o = other.aligned(I, self.mask)
                if refl:
                    # the result carries the left operand's order, the values are the same
                    pass
            return self.mk({b: f(v, o[b]) for b, v in self.tab.items()})
        if I.is_num(other):
            return self.mk({b: f(v, other) for b, v in self.tab.items()})
        raise I.undecided(f"masked amplitudes {op} {other!r}")

    def unop(self, I, op):
        return self.mk({b: I.unop(op, v) for b, v in self.tab.items()})

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        I.E.put(self.f, "tab", r.tab)
        return self

    def elementwise(self, I, fn, dtype=None):
        return self.mk({b: fn(v) for b, v in self.tab.items()})

    def compare(self, I, op, other, refl):
        raise I.undecided("comparison of amplitudes")

    def truth(self, I):
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous.")

    def iterate(self, I):
        return [AbsElems(lambda: Scalar.gen(Gen("sym", ("amp", I.fresh("a")), False)), "amplitudes")]

    def setitem(self, I, key, v):
        if isinstance(key, SliceObj) and key.start is None and key.stop is None and I.is_num(v):
            I.E.put(self.f, "tab", {b: v for b in self.tab})
            return
        raise I.undecided("item of a masked selection")

    def getattr(self, I, name):
        if name in ("real", "imag"):
            return self.elementwise(I, lambda c: part(I, c, name))
        if name == "dtype":
            return self.dtype
        if name == "copy":
            return Native("copy", lambda I, a, k: self.mk(self.tab))
        if name in ("conj", "conjugate"):
            return Native(name, lambda I, a, k: self.elementwise(I, lambda c: conj(I, c)))
        if name == "sum":
            return Native(name, lambda I, a, k: vec_sum(I, self))
        if name.startswith("__"):
            return NotImplemented
        raise I.undecided(f"ndarray.{name} of masked amplitudes")


def cube(mask, k):
    """{position: bit} if the set of patterns is the cube fixing those bits"""
    if not mask:
        return None
    fixed = {}
    for i in range(k):
        vals = {b[i] for b in mask}
        if len(vals) == 1:
            fixed[i] = vals.pop()
    return fixed if len(mask) == 2 ** (k - len(fixed)) else None


class BoolVec(Obj):
    __slots__ = ("P", "N")

    def __init__(self, P, N, tab):
        super().__init__({"tab": dict(tab)})
        self.P, self.N = P, N

    def pycls(self, I):
        return ndarray_cls(I)

    @property
    def tab(self):
        return self.f["tab"]

    def binop(self, I, op, other, refl):
        if op in ("&", "|", "^", "*", "+"):
            f = {"&": lambda x, y: x and y, "|": lambda x, y: x or y, "^": lambda x, y: x != y, "*": lambda x, y: x and y, "+": lambda x, y: x or y}[op]
            if isinstance(other, BoolVec):
                return BoolVec(self.P, self.N, {b: f(v, other.tab[b]) for b, v in self.tab.items()})
            if isinstance(other, bool):
                return BoolVec(self.P, self.N, {b: f(v, other) for b, v in self.tab.items()})
        if isinstance(other, VecObj):
            return NotImplemented
        raise I.undecided(f"mask {op} {other!r}")

    def unop(self, I, op):
        if op == "~":
            return BoolVec(self.P, self.N, {b: not v for b, v in self.tab.items()})
        return NotImplemented

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        I.E.put(self.f, "tab", r.tab)
        return self

    def compare(self, I, op, other, refl):
        if isinstance(other, (bool, int)) and op in ("==", "!="):
            return BoolVec(self.P, self.N, {b: (v == bool(other)) == (op == "==") for b, v in self.tab.items()})
        if isinstance(other, BoolVec) and op in ("==", "!="):
            return BoolVec(self.P, self.N, {b: (v == other.tab[b]) == (op == "==") for b, v in self.tab.items()})
        return NotImplemented

    def truth(self, I):
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous.")

    def deepcopy(self, I):
        return BoolVec(self.P, self.N, self.tab)

    def getattr(self, I, name):
        if name == "astype":
            return Native(name, lambda I, a, k: self if dtype_of(I, a[0]).kind == "b" else IndexBits(self))
        if name == "copy":
            return Native(name, lambda I, a, k: BoolVec(self.P, self.N, self.tab))
        if name == "dtype":
            return DType("bool")
        if name in ("any", "all"):
            vs = list(self.tab.values())
            return Native(name, lambda I, a, k: any(vs) if name == "any" else all(vs))
        return NotImplemented


def IndexBits(bv):
    raise Undecided("mask converted to numbers")


class IndexVec(Obj):
    """integer function of the amplitude index (np.arange(2**N) and bit operations on it)"""
    __slots__ = ("P", "N", "val")

    def __init__(self, P, N, val):
        super().__init__({})
        self.P, self.N, self.val = P, N, val

    def pycls(self, I):
        return ndarray_cls(I)

    def binop(self, I, op, other, refl):
        if isinstance(other, IndexVec):
            o = other.val
        elif isinstance(other, (int, BitInt, SymInt)):
            o = other
        else:
            raise I.undecided(f"index array {op} {other!r}")
        if refl:
            raise I.undecided("index array as right operand") if op in ("-", "<<", ">>", "//", "%") else None
        return IndexVec(self.P, self.N, I.binop(op, self.val, o))

    def unop(self, I, op):
        return IndexVec(self.P, self.N, I.unop(op, self.val))

    def at(self, I, b):
        """value with the known bits substituted"""
        if isinstance(self.val, int):
            return self.val
        segs = []
        for s in SI.lift(self.val).segs:
            if s.src is None:
                segs.append(s)
                continue
            rest = [s]
            for i, p in enumerate(self.P):
                new = []
                for r in rest:
                    if r.src is None:
                        new.append(r)
                        continue
                    q = SI.add(p, r.src[1])
                    if SI.le(r.lo, q) is True and SI.lt(q, r.hi) is True:
                        new.append(Seg(r.lo, q, r.src))
                        new.append(Seg(SI.add(q, 1), r.hi, r.src))
                        if bool(b[i]) != bool(r.src[2]):
                            new.append(Seg(q, SI.add(q, 1), None))
                    elif SI.lt(q, r.lo) is True or SI.le(r.hi, q) is True:
                        new.append(r)
                    else:
                        raise I.undecided("index bits")
                rest = [x for x in new if SI.le(x.hi, x.lo) is not True]
            segs += rest
        return BitInt(segs)

    def compare(self, I, op, other, refl):
        if op not in ("==", "!=", ">", "<", ">=", "<=") or not isinstance(other, (int, BitInt)):
            return NotImplemented
        tab = {}
        for b in patterns(len(self.P)):
            v = self.at(I, b)
            if op in ("==", "!="):
                r = SI.bcmp_eq(v, other) if not isinstance(other, int) or other >= 0 else False
                if not isinstance(r, bool):
                    raise I.undecided("mask depends on bits of unknown positions")
                tab[b] = r == (op == "==")
            elif other == 0 and op in (">", "<="):
                r = SI.bcmp_eq(v, 0)
                if not isinstance(r, bool):
                    raise I.undecided("mask depends on bits of unknown positions")
                tab[b] = (not r) if op == ">" else r
            else:
                vc = v if isinstance(v, int) else v.const()
                if vc is None or not isinstance(other, int):
                    raise I.undecided("order comparison of amplitude indices")
                tab[b] = {">": vc > other, "<": vc < other, ">=": vc >= other, "<=": vc <= other}[op]
        return BoolVec(self.P, self.N, tab)

    def permuted(self, I, b):
        """index pattern this array selects for pattern b (only flips of known bits)"""
        base = IndexVec(self.P, self.N, SI.var("idx", self.N))
        v = SI.lift(self.at(I, b))
        o = SI.lift(base.at(I, b))
        out = []
        for i, p in enumerate(self.P):
            out.append(bit_at_open(I, v, p))
        # bits elsewhere unchanged
        def strip(x):
            segs = []
            for s in x.segs:
                if s.src is None:
                    rest = [(s.lo, s.hi)]
                    for p in self.P:
                        rest = [r for lo, hi in rest for r in (((lo, p), (SI.add(p, 1), hi)) if SI.le(lo, p) is True and SI.lt(p, hi) is True else ((lo, hi),))]
                    segs += [Seg(lo, hi) for lo, hi in rest if SI.le(hi, lo) is not True]
                else:
                    segs.append(s)
            return BitInt(segs).key()
        if strip(v) != strip(o):
            raise I.undecided("gather that moves bits of unknown positions")
        return tuple(out)

    def getitem(self, I, key):
        if isinstance(key, BoolVec):
            return IndexSel(self, key)
        if isinstance(key, SliceObj) and key.start is None and key.stop is None:
            return self
        raise I.undecided("element of an index array")

    def truth(self, I):
        raise I.exc("ValueError", "The truth value of an array with more than one element is ambiguous.")

    def deepcopy(self, I):
        return IndexVec(self.P, self.N, self.val)

    def length(self, I):
        return SI.power2(self.N)

    def getattr(self, I, name):
        if name == "astype":
            def astype(I, a, k):
                if dtype_of(I, a[0]).kind == "b":
                    return self.compare(I, "!=", 0, False)
                return self
            return Native(name, astype)
        if name == "copy":
            return Native(name, lambda I, a, k: self)
        if name == "dtype":
            return DType("uint32")
        return NotImplemented


class IndexSel:
    def __init__(self, iv, mask):
        raise Undecided("gather by index selection")


def bit_at_open(I, key, p):
    for s in key.segs:
        if SI.le(s.lo, p) is True and SI.lt(p, s.hi) is True:
            if s.src is not None:
                raise I.undecided("unknown bit of an index")
            return 1
        if not (SI.lt(p, s.lo) is True or SI.le(s.hi, p) is True):
            raise I.undecided("bit of an index")
    return 0


class LoopVal(AbsVal):
    """value inside a loop over amplitudes: one scalar per pattern of the positions the loop does not fix"""
    def __init__(self, P, F, tab, ctx):
        self.P, self.F, self.tab, self.ctx = P, F, tab, ctx

    def __repr__(self):
        return f"Loop{self.tab}"

    def mk(self, tab):
        return LoopVal(self.P, self.F, tab, self.ctx)

    def binop(self, I, op, other, refl):
        f = (lambda x, y: I.binop(op, y, x)) if refl else (lambda x, y: I.binop(op, x, y))
        if isinstance(other, LoopVal):
            if other.F != self.F:
                raise I.undecided("loop mixes amplitudes addressed differently")
            return self.mk({b: f(v, other.tab[b]) for b, v in self.tab.items()})
        if I.is_num(other):
            return self.mk({b: f(v, other) for b, v in self.tab.items()})
        return NotImplemented

    def unop(self, I, op):
        return self.mk({b: I.unop(op, v) for b, v in self.tab.items()})

    def elementwise(self, I, fn, dtype=None):
        return self.mk({b: fn(v) for b, v in self.tab.items()})

    def getattr(self, I, name):
        if name in ("real", "imag"):
            return self.elementwise(I, lambda c: part(I, c, name))
        if name in ("conjugate", "conj"):
            return Native(name, lambda I, a, k: self.elementwise(I, lambda c: conj(I, c)))
        return NotImplemented

    def compare(self, I, op, other, refl):
        raise I.undecided("comparison of a loop amplitude")

    def reduce_sum(self, I, pre):
        tot = I.to_scalar(pre)
        if tot is None:
            raise I.undecided("reduction")
        n_rest = SI.sub(self.ctx["N"] if "N" in self.ctx else SI.add(self.ctx["L"], len(self.F)), len(self.P))
        acc = tot
        for b, v in self.tab.items():
            acc = acc + sum_over_rest(I, I.to_scalar(v) - tot, n_rest)
        return acc

    def truth(self, I):
        raise I.undecided("branch on a loop amplitude")

    def cls(self, I):
        return I.bt["complex"]


def norm2(I, v):
    if isinstance(v, (VecObj, CompVec)):
        return Scalar(vec_inner(I, v, v).t, "float")
    if isinstance(v, NdArr):
        t = Scalar({}, "float")
        for c in v.cells():
            s = I.to_scalar(c)
            t = t + sum_over_rest(I, s * s.conj(), 0)
        return Scalar(t.t, "float")
    if isinstance(v, (ListObj, tuple)):
        return norm2(I, to_arr(I, v))
    raise I.undecided(f"norm of {v!r}")


# ---------------------------------------------------------------------- functions
def shape_of(I, v):
    if isinstance(v, (int, SymInt, BitInt)):
        return (v,)
    if isinstance(v, (tuple, ListObj)):
        return tuple(I.list_values(v))
    if isinstance(v, Scalar) and v.is_const():
        return (int(v.const_value().real),)
    raise I.undecided(f"array shape {v!r}")


def np_filled(val, default="float64"):
    def f(I, a, k):
        shp = shape_of(I, a[0] if a else k["shape"])
        dt = dtype_of(I, a[1] if len(a) > 1 else k.get("dtype"), default)
        return filled(I, shp, val, dt)
    return f


def filled(I, shp, val, dt):
    if len(shp) == 1 and isinstance(shp[0], BitInt):
        p = shp[0].pow2()
        if p is not None:
            return VecObj(p, I.positions, {b: cast_cell(I, val, dt) for b in patterns(len(I.positions))}, dt)
    if not all(isinstance(n, int) for n in shp):
        raise I.undecided(f"array of shape {shp}")
    if any(n < 0 for n in shp):
        raise I.exc("ValueError", "negative dimensions are not allowed")
    if prod(shp) > 1 << 14:
        raise I.undecided("array too large")
    return NdArr([cast_cell(I, val, dt)] * prod(shp), shp, dt)


def elementwise(I, v, fn, cond=None):
    if isinstance(v, (VecObj, CompVec, LoopVal)):
        return v.elementwise(I, fn)
    if isinstance(v, NdArr):
        cells = [fn(c) for c in v.cells()]
        return NdArr(cells, v.shape, cells_dtype(cells) if cells else v.dtype)
    if isinstance(v, (ListObj, tuple)):
        return elementwise(I, to_arr(I, v), fn)
    return fn(v)


def np_math(name):
    def one(I, c):
        if isinstance(c, Opaque):
            return Opaque("np." + name, (c,))
        if isinstance(c, NUM):
            try:
                mod = cmath if isinstance(c, complex) else math
                nm = {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(name, name)
                return getattr(mod, nm)(c)
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
        s = I.to_scalar(c)
        if s is None:
            if isinstance(c, InstObj) and c.cls.lookup(name):
                return I.call_method(c, name)
            raise I.exc("TypeError", f"loop of ufunc does not support argument of type {I.type_of(c).name}")
        r = apply_fn({"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(name, name), [s])
        return Scalar(r.t, "complex" if s.ty == "complex" and name != "abs" else "float")
    return lambda I, a, k: np_out(I, elementwise(I, a[0], lambda c: one(I, c)), k)


def np_out(I, r, k):
    out = k.get("out")
    if out is not None:
        if isinstance(out, (NdArr, VecObj)):
            out.setitem(I, SliceObj(None, None, None) if not (isinstance(out, NdArr) and not out.shape) else (), r)
            return out
        raise I.undecided("out= argument")
    return r


def np_bin(op):
    def f(I, a, k):
        x, y = a[0], a[1]
        x = to_arr(I, x) if isinstance(x, (ListObj, tuple)) else x
        y = to_arr(I, y) if isinstance(y, (ListObj, tuple)) else y
        out = k.get("out") if "out" in k else (a[2] if len(a) > 2 else None)
        r = I.compare(op, x, y) if op in ("==", "!=", "<", ">", "<=", ">=") else I.binop(op, x, y)
        return np_out(I, r, {"out": out})
    return f


def np_logical(op):
    def f(I, a, k):
        if all(isinstance(x, BoolVec) for x in a):
            return a[0].binop(I, op, a[1], False)
        return ufunc(I, lambda x, y: (I.truth(x) and I.truth(y)) if op == "&" else (I.truth(x) or I.truth(y)) if op == "|" else I.truth(x) != I.truth(y), a[0], a[1])
    return f


def np_array(copy_):
    def f(I, a, k):
        v = a[0]
        dt = a[1] if len(a) > 1 else k.get("dtype")
        dt = None if dt is None else dtype_of(I, dt)
        if isinstance(v, (VecObj, BoolVec, IndexVec)):
            return v.deepcopy(I) if copy_ else v
        if isinstance(v, CompVec):
            return v.deepcopy(I)
        if isinstance(v, Opaque):
            return Opaque("np.array", (v,))
        if hasattr(v, "to_ndarray"):
            return v.to_ndarray(I, dt)
        if isinstance(v, InstObj) and v.cls.lookup("__array__"):
            v = I.call_method(v, "__array__")
        r = to_arr(I, v, dt)
        if copy_ and r is v and k.get("copy", True) is not False:
            return NdArr(v.cells(), v.shape, v.dtype)
        nd = k.get("ndmin")
        if isinstance(nd, int) and len(r.shape) < nd:
            r = r.view(r.idx, (1,) * (nd - len(r.shape)) + r.shape)
        return r
    return f


INDEX_BITS = {"bool": 1, "int8": 7, "uint8": 8, "int16": 15, "uint16": 16, "float16": 11, "float32": 24}     # dtype -> bits of exact integers


def np_arange(I, a, k):
    dt = k.get("dtype")
    if len(a) == 1 and isinstance(a[0], BitInt) and a[0].pow2() is not None:
        p = a[0].pow2()
        t = dtype_of(I, dt, "int64").name
        if INDEX_BITS.get(t, 64) < 31:
            raise I.violation("index-width", f"np.arange of the amplitude indices with dtype {t} wraps on registers of more than {INDEX_BITS[t]} qubits")
        return IndexVec(tuple(I.positions), p, SI.var("idx", p))
    args = [x for x in a if not is_dtype(x)]
    if not all(isinstance(x, (int, float)) for x in args):
        raise I.undecided("arange with abstract bounds")
    if all(isinstance(x, int) for x in args):
        vals = list(range(*args))
    else:
        st, sp, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        vals = [st + i * step for i in range(max(0, math.ceil((sp - st) / step)))]
    d = dtype_of(I, dt) if dt is not None else cells_dtype(vals) if vals else DType("int64")
    return NdArr([cast_cell(I, v, d) for v in vals], (len(vals),), d)


def np_copyto(I, a, k):
    dst, src = a[0], a[1]
    where = k.get("where")
    if where is not None:
        return dst.setitem(I, where, src.getitem(I, where) if isinstance(src, (VecObj, NdArr)) else src)
    if isinstance(dst, VecObj):
        dst.setitem(I, SliceObj(None, None, None), src)
    elif isinstance(dst, NdArr):
        if isinstance(src, Opaque):
            raise I.undecided("copyto of an unknown array")
        arr = broadcast(I, to_arr(I, src), dst.shape)
        dst.write(I, list(zip(dst.idx, arr)))
    else:
        raise I.undecided("copyto")


def np_diag(I, a, k):
    v = to_arr(I, a[0])
    kk = a[1] if len(a) > 1 else k.get("k", 0)
    if len(v.shape) == 1:
        n = v.shape[0] + abs(kk)
        cells = [0 if v.dtype.kind != "f" else 0.0] * (n * n)
        for i, c in enumerate(v.cells()):
            r, cc = (i, i + kk) if kk >= 0 else (i - kk, i)
            cells[r * n + cc] = c
        return NdArr(cells, (n, n), v.dtype)
    if len(v.shape) != 2:
        raise I.exc("ValueError", "Input must be 1- or 2-d.")
    n, m = v.shape
    out = [v.cells()[i * m + i + kk] for i in range(n) if 0 <= i + kk < m]
    return NdArr(out, (len(out),), v.dtype)


def np_tri(up):
    def f(I, a, k):
        v = to_arr(I, a[0])
        kk = a[1] if len(a) > 1 else k.get("k", 0)
        if len(v.shape) != 2:
            raise I.undecided("triu of a non-matrix")
        n, m = v.shape
        zero = 0.0 if v.dtype.kind == "f" else 0
        cells = [c if ((j - i >= kk) if up else (j - i <= kk)) else zero for (i, j), c in zip(itertools.product(range(n), range(m)), v.cells())]
        return NdArr(cells, v.shape, v.dtype)
    return f


def np_outer(I, a, k):
    x, y = to_arr(I, a[0]).cells(), to_arr(I, a[1]).cells()
    cells = [I.binop("*", p, q) for p in x for q in y]
    return NdArr(cells, (len(x), len(y)), cells_dtype(cells))


def np_kron(I, a, k):
    A, Bm = to_arr(I, a[0]), to_arr(I, a[1])
    if len(A.shape) == 1 and len(Bm.shape) == 1:
        cells = [I.binop("*", p, q) for p in A.cells() for q in Bm.cells()]
        return NdArr(cells, (len(cells),), cells_dtype(cells))
    (n1, m1), (n2, m2) = A.shape, Bm.shape
    ca, cb = A.cells(), Bm.cells()
    cells = [I.binop("*", ca[(i // n2) * m1 + j // m2], cb[(i % n2) * m2 + j % m2]) for i in range(n1 * n2) for j in range(m1 * m2)]
    return NdArr(cells, (n1 * n2, m1 * m2), cells_dtype(cells))


def np_sum(I, a, k):
    v = a[0]
    if isinstance(v, (VecObj, CompVec)):
        return vec_sum(I, v)
    if isinstance(v, IterObj):
        return models.py_sum(I, [v], {})
    return reduce_cells(I, to_arr(I, v), a[1] if len(a) > 1 else k.get("axis"), addf(I), 0)


def np_vdot(conj_first):
    def f(I, a, k):
        if isinstance(a[0], (VecObj, CompVec)):
            return vec_inner(I, a[0], a[1], conj_first)
        A, Bm = to_arr(I, a[0]), to_arr(I, a[1])
        if conj_first:
            A = A.elementwise(I, lambda c: conj(I, c), A.dtype) if A.size else A
            A, Bm = A.view(A.idx, (A.size,)), Bm.view(Bm.idx, (Bm.size,))
        return np_dot(I, A, Bm)
    return f


def np_where(I, a, k):
    if isinstance(a[0], BoolVec):
        if len(a) == 1:
            return (a[0],)
        m = a[0]
        g = lambda x, b: x.tab[b] if isinstance(x, VecObj) else x
        return VecObj(m.N, m.P, {b: g(a[1] if t else a[2], b) for b, t in m.tab.items()}, DType("complex128"))
    c = to_arr(I, a[0])
    if len(a) == 1:
        return np_nonzero(I, c)
    x, y = broadcast(I, to_arr(I, a[1]), c.shape), broadcast(I, to_arr(I, a[2]), c.shape)
    cells = [p if I.truth(t) else q for t, p, q in zip(c.cells(), x, y)]
    return NdArr(cells, c.shape, cells_dtype(cells))


def np_norm(I, a, k):
    if len(a) > 1 or k.get("ord") is not None or k.get("axis") is not None:
        o = a[1] if len(a) > 1 else k.get("ord")
        if o != 2 and o is not None:
            raise I.undecided("norm of another order")
    return norm2(I, a[0]).rpow(Fraction(1, 2))


def np_concat(I, a, k):
    arrs = [to_arr(I, x) for x in I.list_values(a[0])]
    ax = a[1] if len(a) > 1 else k.get("axis", 0)
    if all(len(x.shape) == 1 for x in arrs):
        cells = [c for x in arrs for c in x.cells()]
        return NdArr(cells, (len(cells),), cells_dtype(cells))
    if ax == 0:
        cells = [c for x in arrs for c in x.cells()]
        return NdArr(cells, (sum(x.shape[0] for x in arrs),) + arrs[0].shape[1:], cells_dtype(cells))
    raise I.undecided("concatenate")


def like(val):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, VecObj):
            return VecObj(v.N, v.P, {b: val for b in v.tab}, v.dtype)
        v = to_arr(I, v)
        dt = dtype_of(I, k["dtype"]) if "dtype" in k else v.dtype
        return NdArr([cast_cell(I, val, dt)] * v.size, v.shape, dt)
    return f


def closeness(I, a, k):
    rtol = a[2] if len(a) > 2 else k.get("rtol", 1e-5)
    atol = a[3] if len(a) > 3 else k.get("atol", 1e-8)

    def f(x, y):
        if all(isinstance(v, NUM) for v in (x, y, rtol, atol)):
            return abs(x - y) <= atol + rtol * abs(y)
        return I.compare("==", x, y)
    return f


def np_allclose(I, a, k):
    A = a[0]
    if I.is_num(A) and I.is_num(a[1]):
        return closeness(I, a, k)(A, a[1])
    r = ufunc(I, closeness(I, a, k), A, a[1])
    return all(I.truth(c) for c in r.cells())


def np_eye(I, a, k):
    n = a[0] if a else k["N"]
    m = a[1] if len(a) > 1 else k.get("M")
    m = n if m is None else m
    d = a[2] if len(a) > 2 else k.get("k", 0)
    if not all(isinstance(x, int) for x in (n, m, d)):
        raise I.undecided("identity matrix of symbolic size")
    dt = dtype_of(I, a[3] if len(a) > 3 else k.get("dtype"))
    return NdArr([cast_cell(I, 1.0 if j - i == d else 0.0, dt) for i in range(n) for j in range(m)], (n, m), dt)


def np_identity(I, a, k):
    n = a[0] if a else k["n"]
    return np_eye(I, [n], {"dtype": a[1] if len(a) > 1 else k.get("dtype")})


def np_full(I, a, k):
    v = a[1] if len(a) > 1 else k["fill_value"]
    dt = dtype_of(I, k.get("dtype") if "dtype" in k else (a[2] if len(a) > 2 else None), KNAME[scalar_kind(v)])
    return filled(I, shape_of(I, a[0]), v, dt)


def np_sort(I, a, k):
    v = to_arr(I, a[0])
    if len(v.shape) == 1:
        return NdArr(models.py_sort(I, v.cells()), v.shape, v.dtype)
    raise I.undecided("sort of a matrix")


def np_argsort(I, a, k):
    v = to_arr(I, a[0])
    c = v.cells()
    idx = models.py_sort(I, list(range(len(c))), Native("key", lambda I, x, kk: c[x[0]]))
    return NdArr(idx, v.shape, DType("int64"))


def method_fn(name):
    def f(I, a, k):
        v = a[0]
        v = to_arr(I, v) if not isinstance(v, (VecObj, CompVec)) else v
        return I.call(I.getattr(v, name), list(a[1:]), k)
    return f


def np_isclose(I, a, k):
    if I.is_num(a[0]) and I.is_num(a[1]):
        return closeness(I, a, k)(a[0], a[1])
    if any(isinstance(x, (VecObj, CompVec, LoopVal)) for x in a):
        return elementwise(I, I.binop("-", a[0], a[1]), lambda c: I.compare("==", c, 0))
    return ufunc(I, closeness(I, a, k), a[0], a[1])


NPF = {
    "zeros": np_filled(0), "ones": np_filled(1), "empty": np_filled(0), "full": np_full, "eye": np_eye, "identity": np_identity,
    "array": np_array(True), "asarray": np_array(False), "ascontiguousarray": np_array(False), "asanyarray": np_array(False), "arange": np_arange,
    "copyto": np_copyto, "diag": np_diag, "triu": np_tri(True), "tril": np_tri(False), "outer": np_outer, "kron": np_kron,
    "sum": np_sum, "vdot": np_vdot(True), "dot": np_vdot(False), "matmul": lambda I, a, k: matmul(I, a[0], a[1]), "inner": np_vdot(False),
    "where": np_where, "repeat": np_repeat, "sort": np_sort, "argsort": np_argsort, "concatenate": np_concat,
    "zeros_like": like(0), "ones_like": like(1), "empty_like": like(0), "allclose": np_allclose, "isclose": np_isclose,
    "array_equal": np_allclose, "copy": np_array(True),
    "conj": lambda I, a, k: elementwise(I, a[0], lambda c: conj(I, c)), "conjugate": lambda I, a, k: elementwise(I, a[0], lambda c: conj(I, c)),
    "real": lambda I, a, k: elementwise(I, a[0], lambda c: part(I, c, "real")), "imag": lambda I, a, k: elementwise(I, a[0], lambda c: part(I, c, "imag")),
    "abs": lambda I, a, k: np_out(I, elementwise(I, a[0], lambda c: models.py_abs(I, c)), k), "absolute": lambda I, a, k: elementwise(I, a[0], lambda c: models.py_abs(I, c)),
    "square": lambda I, a, k: elementwise(I, a[0], lambda c: I.binop("*", c, c)),
    "logical_and": np_logical("&"), "logical_or": np_logical("|"), "logical_xor": np_logical("^"),
    "logical_not": lambda I, a, k: a[0].unop(I, "~") if isinstance(a[0], BoolVec) else elementwise(I, a[0], lambda c: logical_not(I, c)),
    "invert": lambda I, a, k: I.unop("~", a[0]), "bitwise_not": lambda I, a, k: I.unop("~", a[0]),
    "negative": lambda I, a, k: np_out(I, I.unop("-", a[0]), k),
    "shape": lambda I, a, k: to_arr(I, a[0]).shape, "ndim": lambda I, a, k: len(to_arr(I, a[0]).shape), "size": lambda I, a, k: to_arr(I, a[0]).size,
    "transpose": lambda I, a, k: transpose(to_arr(I, a[0])), "isscalar": lambda I, a, k: I.is_num(a[0]) or isinstance(a[0], str),
    "nonzero": lambda I, a, k: np_nonzero(I, to_arr(I, a[0])), "flatnonzero": lambda I, a, k: np_nonzero(I, to_arr(I, a[0]))[0],
    "trace": method_fn("trace"), "prod": method_fn("prod"), "any": method_fn("any"), "all": method_fn("all"), "max": method_fn("max"), "min": method_fn("min"),
    "amax": method_fn("max"), "amin": method_fn("min"), "argmax": method_fn("argmax"), "argmin": method_fn("argmin"), "mean": method_fn("mean"), "cumsum": method_fn("cumsum"),
    "reshape": method_fn("reshape"), "ravel": method_fn("ravel"), "squeeze": method_fn("squeeze"), "diagonal": method_fn("diagonal"), "round": method_fn("round"),
    "set_printoptions": lambda I, a, k: None, "seterr": lambda I, a, k: None,
    "iscomplexobj": lambda I, a, k: to_arr(I, a[0]).dtype.kind == "c",
    "count_nonzero": lambda I, a, k: sum(1 for c in to_arr(I, a[0]).cells() if I.truth(I.compare("!=", c, 0))),
    "atleast_1d": lambda I, a, k: (lambda v: v if v.shape else v.view(v.idx, (1,)))(to_arr(I, a[0])),
    "atleast_2d": lambda I, a, k: (lambda v: v if len(v.shape) > 1 else v.view(v.idx, (1, v.size)))(to_arr(I, a[0])),
    "block": None, "fill_diagonal": lambda I, a, k: a[0].write(I, [(a[0].idx[i * a[0].shape[1] + i], to_arr(I, a[1]).cells()[i % to_arr(I, a[1]).size]) for i in range(min(a[0].shape))]),
    "angle": lambda I, a, k: elementwise(I, a[0], lambda c: cmath.phase(c) if isinstance(c, NUM) else apply_fn("angle", [I.to_scalar(c)])),
}
for _n, _o in {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "mod": "%", "remainder": "%", "floor_divide": "//",
               "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^", "left_shift": "<<", "right_shift": ">>",
               "equal": "==", "not_equal": "!=", "less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">="}.items():
    NPF[_n] = np_bin(_o)
for _n in ("cos", "sin", "exp", "sqrt", "tan", "log", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan", "log2", "log10"):
    NPF[_n] = np_math(_n)


def ext_attr(I, mod, name):
    full = mod + "." + name
    top = mod.split(".")[0]
    if top == "numpy":
        if mod == "numpy":
            if name in ("pi", "e", "inf", "nan"):
                return getattr(math, name)
            if name == "newaxis":
                return None
            if name in ("linalg", "random", "testing", "fft", "typing", "char", "lib"):
                return I.ext_module(full)
            if name == "ndarray":
                return ndarray_cls(I)
            if name in ("integer", "floating", "number", "complexfloating", "inexact", "signedinteger", "unsignedinteger", "generic"):
                def chk(I, v):
                    # the abstract domain does not distinguish numpy scalars from python ones: they count as python numbers
                    return False
                return ClassObj(name, [I.bt["object"]], check=chk)
            if name in DType.KIND:
                return DType(name)
            if name == "dtype":
                return Native("np.dtype", lambda I, a, k: dtype_of(I, a[0]))
            if name == "matrix":
                return Native("np.matrix", np_array(True))
            f = NPF.get(name)
            if f is not None:
                return Native("np." + name, f, npmore.ufunc_attrs(name))
            return npmore.more(I, name) or Opaque(full)
        if mod == "numpy.linalg":
            if name == "norm":
                return Native("np.linalg.norm", np_norm)
            f = npmore.LINALG.get(name)
            return Native("np.linalg." + name, f) if f else Opaque(full)
        if mod == "numpy.random":
            def rnd(I, a, k):
                I.event("np.random", name, tuple(a), tuple(sorted(k.items(), key=lambda t: t[0])))
                if name in ("rand", "random", "random_sample") and not a and not k:
                    return models.rand_scalar(I)
                shp = shape_arg(a[0] if len(a) == 1 else tuple(a)) if name in ("rand", "random", "random_sample") and not k else None
                if shp is not None:
                    cells = [models.rand_scalar(I) for _ in range(math.prod(shp))]
                    return NdArr(cells, shp, DType("float64"))
                if name == "choice" and 0 < len(a) <= 2 and not set(k) - {"size"}:
                    shp = a[1] if len(a) == 2 else k.get("size")
                    shp = shape_arg(shp) if shp is not None else ()
                    cand = I.list_values(I.call(I.builtins["range"], [a[0]], {})) if isinstance(a[0], int) else to_arr(I, a[0]).cells()
                    if shp is not None and cand and math.prod(shp) <= 16:
                        uniq = []
                        for c in cand:
                            if not any(I.truth(I.compare("==", c, d)) for d in uniq):
                                uniq.append(c)
                        cells = [uniq[I.E.choose(len(uniq), "random choice")] if len(uniq) > 1 else uniq[0] for _ in range(math.prod(shp))]
                        if not shp and not (len(a) == 2 or k):
                            return cells[0]
                        return NdArr(cells, shp, cells_dtype(cells))
                return Opaque(full, tuple(a), I.fresh("r"))
            return Native(full, rnd)
        return Opaque(full)
    if top == "numba":
        if name in ("njit", "jit", "vectorize", "guvectorize", "generated_jit"):
            def njit(I, a, k):
                k = dict(k.items())
                if len(a) == 1 and isinstance(a[0], (FuncObj, Native)) and not k:
                    return mark_jit(a[0], k)
                return Native("njit", lambda I, b, kk: mark_jit(b[0], k))
            return Native(full, njit)
        if name == "prange":
            def prange(I, a, k):
                a = [models.idx_of(I, x) for x in a]
                if len(a) == 1:
                    return RangeObj(0, a[0], 1, True)
                return RangeObj(a[0], a[1], a[2] if len(a) > 2 else 1, True)
            return Native(full, prange)
        if name in DType.KIND or name in ("boolean", "void", "f8", "c16", "u4", "u8", "i8", "b1"):
            return DType({"boolean": "bool", "f8": "float64", "c16": "complex128", "u4": "uint32", "u8": "uint64", "i8": "int64"}.get(name, name))
        if name in ("types", "typed", "core"):
            return I.ext_module(full)
        return Opaque(full)
    if mod == "scipy.sparse":
        from . import spmodel
        return spmodel.ext_attr(I, mod, name)
    if mod == "scipy" and name in ("sparse", "optimize", "linalg"):
        return I.ext_module(full)
    return Opaque(full)


def shape_arg(v):
    v = (v,) if isinstance(v, int) else v
    return v if isinstance(v, tuple) and all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in v) else None


def mark_jit(f, opts):
    if isinstance(f, FuncObj):
        f.marks["jit"] = {k: v for k, v in opts.items() if isinstance(v, bool)}
    return f


from . import npmore  # noqa: E402,F401
