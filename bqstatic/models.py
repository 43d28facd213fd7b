"""Abstract semantics of the Python builtins and of the standard-library functions the analysed code uses."""
import ast
import cmath
import itertools
import math

from .core import *
from .errors import *
from . import symint as SI
from .scalar import Scalar, Gen, apply_fn

NOARG = object()


# ---------------------------------------------------------------------- template strings
class StrT(AbsVal):
    """string built from literal text and formatted abstract values; parts: str | Hole | RepStr"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrT):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        self.parts = tuple(out)

    def key(self):
        return ("StrT",) + tuple(p if isinstance(p, str) else p.key() for p in self.parts)

    def __repr__(self):
        return "t'" + "".join(p if isinstance(p, str) else "{" + repr(p) + "}" for p in self.parts) + "'"

    def hkey(self, I):
        return self.key()

    def cls(self, I):
        return I.bt["str"]

    def truth(self, I):
        return True

    def binop(self, I, op, other, refl):
        if op == "+" and isinstance(other, (str, StrT)):
            return str_concat([other, self] if refl else [self, other])
        if op == "*" and isinstance(other, int) and not isinstance(other, bool):
            return str_concat([self] * other)
        return NotImplemented

    def compare(self, I, op, other, refl):
        if op in ("==", "!="):
            if isinstance(other, StrT) and other.key() == self.key():
                return op == "=="
            if not isinstance(other, (StrT, str)):
                return op == "!="
            if isinstance(other, str):
                # the literal prefix and suffix must agree
                pre = self.parts[0] if isinstance(self.parts[0], str) else ""
                suf = self.parts[-1] if isinstance(self.parts[-1], str) else ""
                if not other.startswith(pre) or not other.endswith(suf) or len(other) < len(pre) + (len(suf) if len(self.parts) > 1 else 0):
                    return op == "!="
            c = Cond(("streq",) + tuple(sorted([repr(self.key()), repr(other.key() if isinstance(other, StrT) else other)])), f"{self} == {other}")
            return c if op == "==" else c.negate()
        if op in ("<", "<=", ">", ">=") and isinstance(other, (str, StrT)):
            x, y = self, other
            if op in (">", ">="):
                x, y, op = y, x, {">": "<", ">=": "<="}[op]
            return str_order(I, op, x, y)
        return NotImplemented

    def getitem(self, I, key):
        first = self.parts[0]
        if key == 0 and not isinstance(key, bool):
            return first[0] if isinstance(first, str) else StrT([Hole(first, "[0]")]) if isinstance(first, Hole) else super().getitem(I, key)
        if isinstance(key, SliceObj) and key.start == 1 and key.stop is None and key.step in (None, 1):
            if isinstance(first, str):
                return str_concat([first[1:]] + list(self.parts[1:]))
            if isinstance(first, Hole):
                return StrT((Hole(first, "[1:]"),) + self.parts[1:])
        return super().getitem(I, key)

    def iterate(self, I):
        return char_items(I, self)

    def getattr(self, I, name):
        r = str_method(I, self, name)
        return NotImplemented if r is None else r


def str_order(I, op, x, y):
    """x < y (or <=) for strings with unknown parts"""
    p, q = (list(v.parts) if isinstance(v, StrT) else [v] if v else [] for v in (x, y))
    while p and q:
        if isinstance(p[0], str) and isinstance(q[0], str):
            n = 0
            while n < min(len(p[0]), len(q[0])) and p[0][n] == q[0][n]:
                n += 1
            if n < min(len(p[0]), len(q[0])):
                return p[0][n] < q[0][n]
            for v in (p, q):
                v[0] = v[0][n:]
                if not v[0]:
                    del v[0]
        elif not isinstance(p[0], str) and not isinstance(q[0], str) and p[0] == q[0]:
            del p[0], q[0]
        else:
            break
    if not p or not q:
        if not p and not q:
            return op == "<="
        if not p and op == "<=":
            return True
        if not q and op == "<":
            return False
    if len(p) == len(q) and all(isinstance(u, Hole) and isinstance(v, Hole) and I.is_num(u.val) and I.is_num(v.val) or u == v for u, v in zip(p, q)):
        if all(isinstance(u, str) or I.truth(I.compare("==", u.val, v.val)) for u, v in zip(p, q)):
            return op == "<="
    # different strings: a total order that is not known
    kx, ky = (repr(StrT(v).key()) for v in (p, q))
    if kx < ky:
        return Cond(("strlt", kx, ky), f"{StrT(p)} sorts before {StrT(q)}")
    return Cond(("strlt", ky, kx), f"{StrT(q)} sorts before {StrT(p)}", True)


class Hole:
    def __init__(self, val, spec="", conv=-1):
        self.val, self.spec, self.conv = val, spec or "", conv

    def key(self):
        return ("hole", freeze(self.val) if not isinstance(self.val, AbsVal) or isinstance(self.val, Opaque) else self.val.hkey(None) if not hasattr(self.val, "key") else self.val.key(), self.spec, self.conv)

    def __eq__(self, o):
        return isinstance(o, Hole) and self.key() == o.key()

    def __hash__(self):
        return hash(repr(self.key()))

    def __repr__(self):
        return repr(self.val) + (":" + self.spec if self.spec else "")


class RepStr:
    """`count` copies of a part sequence"""
    def __init__(self, parts, count):
        self.parts, self.count = tuple(parts), count

    def key(self):
        return ("rep", tuple(p if isinstance(p, str) else p.key() for p in self.parts), SI.skey(self.count))

    def __eq__(self, o):
        return isinstance(o, RepStr) and self.key() == o.key()

    def __hash__(self):
        return hash(repr(self.key()))

    def __repr__(self):
        return f"({self.parts})x{self.count}"


def str_concat(parts):
    s = StrT(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def char_items(I, s):
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Hole) and is_digit(I, p.val):
            out.append(StrT([p]))
        elif isinstance(p, RepStr) and all(isinstance(q, str) for q in p.parts):
            out.append(Rep(tuple("".join(p.parts)), p.count))
        else:
            raise I.undecided(f"characters of template {s}")
    return out


def is_digit(I, v):
    """a value that prints as one character (a measured bit)"""
    return isinstance(v, AbsVal) and getattr(v, "digit", False)


def to_str(I, v):
    if isinstance(v, (str, StrT)):
        return v
    return py_str(I, v)


def py_str(I, v):
    if isinstance(v, (str, StrT)):
        return v
    if v is None or isinstance(v, (bool, int, float, complex, bytes)):
        return str(v)
    if isinstance(v, InstObj):
        if I.bt["BaseException"] in v.cls.mro and v.cls.lookup("__str__") is None:
            a = v.f.get("args", ())
            return "" if not a else py_str(I, a[0]) if len(a) == 1 else py_repr(I, tuple(a))
        c = v.cls.lookup("__str__")
        if c is not None:
            return I.call(c[1], [v], {})
    return py_repr(I, v)


def py_repr(I, v):
    if isinstance(v, str):
        return repr(v)
    if v is None or isinstance(v, (bool, int, float, complex, bytes)):
        return repr(v)
    if isinstance(v, InstObj):
        c = v.cls.lookup("__repr__")
        if c is not None:
            return I.call(c[1], [v], {})
        if v.tup is not None and v.cls.nt_fields:
            parts = [v.cls.name + "("]
            for i, (n, x) in enumerate(zip(v.cls.nt_fields, v.tup)):
                parts += [", " if i else "", n + "=", py_repr(I, x)]
            return str_concat(parts + [")"])
        return str_concat(["<" + v.cls.name + " object at ", Hole(v), ">"])
    if isinstance(v, tuple) or isinstance(v, ListObj):
        items = I.list_values(v)
        o, c = ("(", ")") if isinstance(v, tuple) else ("[", "]")
        parts = [o]
        for i, x in enumerate(items):
            parts += [", " if i else "", py_repr(I, x)]
        if isinstance(v, tuple) and len(items) == 1:
            parts.append(",")
        return str_concat(parts + [c])
    if isinstance(v, DictObj):
        parts = ["{"]
        for i, (k, x) in enumerate(v.pairs()):
            parts += [", " if i else "", py_repr(I, k), ": ", py_repr(I, x)]
        return str_concat(parts + ["}"])
    if isinstance(v, SliceObj):
        return str_concat(["slice(", py_repr(I, v.start), ", ", py_repr(I, v.stop), ", ", py_repr(I, v.step), ")"])
    if isinstance(v, ClassObj):
        return f"<class '{v.qual}'>"
    if isinstance(v, AbsVal) and hasattr(v, "text"):
        return v.text(I)
    return StrT([Hole(v)])


def fmt_value(I, v, spec, conv):
    if conv == 114:
        v = py_repr(I, v)
    elif conv == 115:
        v = py_str(I, v)
    if isinstance(spec, StrT):
        raise I.undecided("computed format specification")
    if not spec:
        if isinstance(v, InstObj) and v.cls.lookup("__format__"):
            return I.call(v.cls.lookup("__format__")[1], [v, ""], {})
        return py_str(I, v)
    if isinstance(v, CONC_T):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as ex:
            raise I.exc(type(ex).__name__, str(ex))
    return StrT([Hole(v, spec)])


CONC_T = (int, float, complex, str, bytes, bool)
STR_FOLD = {"upper", "lower", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "replace", "startswith", "endswith", "find",
            "rfind", "rindex", "expandtabs", "isnumeric", "isdecimal", "isascii", "isprintable", "istitle", "index", "count", "isdigit", "isalpha", "isalnum", "title", "capitalize", "zfill", "ljust", "rjust", "center", "partition",
            "rpartition", "encode", "isidentifier", "swapcase", "removeprefix", "removesuffix", "isupper", "islower", "isspace", "casefold"}


def lift_py(I, v):
    """python value -> abstract value"""
    if isinstance(v, list):
        return ListObj([lift_py(I, x) for x in v])
    if isinstance(v, tuple):
        return tuple(lift_py(I, x) for x in v)
    return v


def lower_py(v):
    """abstract -> plain python value, or raise"""
    if v is None or isinstance(v, CONC_T):
        return v
    if isinstance(v, tuple):
        return tuple(lower_py(x) for x in v)
    if isinstance(v, ListObj):
        return [lower_py(x) for x in v.items]
    raise TypeError


def number_hole(p):
    return isinstance(p, Hole) and isinstance(p.val, (Scalar, SymInt)) and not p.spec


def str_method(I, s, name):
    if name == "join":
        def join(I, a, k):
            items = I.iter_items(a[0])
            parts = []
            first = True
            for x in items:
                if isinstance(x, Rep):
                    if s == "":
                        blk = []
                        for y in x.block:
                            blk += list(y.parts) if isinstance(y, StrT) else [y]
                        if not all(isinstance(y, (str, StrT)) for y in x.block):
                            raise I.exc("TypeError", "sequence item: expected str instance")
                        parts.append(RepStr(blk, x.count) if isinstance(x.count, SymInt) else "".join(blk) * x.count)
                        first = False
                        continue
                    raise I.undecided("join of a symbolic-length sequence")
                if isinstance(x, AbsElems):
                    raise I.undecided("join of a sequence of unknown length")
                if not isinstance(x, (str, StrT)):
                    raise I.exc("TypeError", f"sequence item: expected str instance, {I.type_of(x).name} found")
                if not first:
                    parts.append(s)
                parts.append(x)
                first = False
            return str_concat(merge_rep(parts))
        return Native("join", join)
    if name == "format":
        def fmt(I, a, k):
            if not isinstance(s, str):
                raise I.undecided("format of a template")
            import string
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if spec and "{" in spec:
                    raise I.undecided("nested format specification")
                import re as _re
                m = _re.match(r"^([^.\[]*)(.*)$", field)
                head, rest = m.group(1), m.group(2)
                if head == "":
                    v = a[auto]
                    auto += 1
                elif head.isdigit():
                    if int(head) >= len(a):
                        raise I.exc("IndexError", "Replacement index out of range")
                    v = a[int(head)]
                else:
                    if head not in k:
                        raise I.exc("KeyError", head)
                    v = k[head]
                for at, ix in _re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
                    v = I.getattr(v, at) if at else I.getitem(v, int(ix) if ix.isdigit() else ix)
                parts.append(fmt_value(I, v, spec, ord(conv) if conv else -1))
            return str_concat(parts)
        return Native("format", fmt)
    if isinstance(s, str):
        if name in STR_FOLD:
            def fold(I, a, k):
                try:
                    aa = [lower_py(x) for x in a]
                    kk = {n: lower_py(x) for n, x in k.items()}
                except TypeError:
                    if any(isinstance(x, StrT) for x in a):
                        raise I.undecided(f"str.{name} with a template argument")
                    raise I.exc("TypeError", f"bad argument of str.{name}")
                try:
                    return lift_py(I, getattr(s, name)(*aa, **kk))
                except (TypeError, ValueError, IndexError, LookupError) as ex:
                    raise I.exc(type(ex).__name__, str(ex))
            return Native("str." + name, fold)
        if name == "translate":
            def tr(I, a, k):
                t = {}
                for x, y in a[0].pairs():
                    t[lower_py(x)] = lower_py(y)
                return s.translate(t)
            return Native("str.translate", tr)
        return None
    if name in ("startswith", "endswith"):
        def sw(I, a, k):
            for x in (a[0] if isinstance(a[0], tuple) else (a[0],)):
                p = s.parts[0] if name == "startswith" else s.parts[-1]
                if isinstance(p, str) and isinstance(x, str):
                    n = min(len(p), len(x))
                    same = (p[:n] == x[:n]) if name == "startswith" else (p[len(p) - n:] == x[len(x) - n:])
                    if not same:
                        continue
                    if len(p) >= len(x):
                        return True
                if name == "startswith" and number_hole(p) and isinstance(x, str) and len(x) == 1:
                    if I.truth(I.compare("==", s.getitem(I, 0), x)):
                        return True
                    continue
                raise I.undecided(f"str.{name} on a template")
            return False
        return Native(name, sw)
    if name in ("lstrip", "removeprefix") and number_hole(s.parts[0]):
        def strip(I, a, k):
            # the text of a number has at most one sign
            if len(a) != 1 or a[0] not in ("+", "-"):
                raise I.undecided(f"str.{name} on a template")
            if I.truth(I.compare("==", s.getitem(I, 0), a[0])):
                return s.getitem(I, SliceObj(1, None, None))
            return s
        return Native(name, strip)
    if name in STR_FOLD:
        raise I.undecided(f"str.{name} on a template")
    return None


def merge_rep(parts):
    return parts


# ---------------------------------------------------------------------- helpers
class HashVal(AbsVal):
    def __init__(self, hk):
        self.hk = hk

    def __repr__(self):
        return f"hash{self.hk}"

    def binop(self, I, op, other, refl):
        o = other.hk if isinstance(other, HashVal) else ("c", other)
        return HashVal((op, o, self.hk) if refl else (op, self.hk, o))

    def compare(self, I, op, other, refl):
        if isinstance(other, HashVal) and op in ("==", "!="):
            same = self.hk == other.hk
            if not same:
                from .interp import unify
                pairs = []
                same = unify(self.hk, other.hk, pairs) and all(I.truth(I.compare("==", x, y)) for x, y in pairs)
            return same == (op == "==")
        if op in ("==", "!=") and I.is_num(other):
            return op == "!="
        return NotImplemented

    def hkey(self, I):
        return ("h", self.hk)

    def cls(self, I):
        return I.bt["int"]


class DView(AbsVal):
    """live view of a dictionary"""
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def iterate(self, I):
        if self.kind == "keys":
            return [k for k, _ in self.d.pairs()]
        if self.kind == "values":
            return [v for _, v in self.d.pairs()]
        return [(k, v) for k, v in self.d.pairs()]

    def truth(self, I):
        return bool(self.d.f["items"])

    def contains(self, I, x):
        if self.kind == "keys":
            return I.dict_get(self.d, x) is not None
        for y in self.iterate(I):
            if I.truth(I.compare("==", y, x)):
                return True
        return False

    def length(self, I):
        return len(self.d.pairs())

    def binop(self, I, op, other, refl):
        if self.kind == "keys" or self.kind == "items":
            return I.binop(op, *((other, mkset(I, self.iterate(I))) if refl else (mkset(I, self.iterate(I)), other)))
        return NotImplemented

    def compare(self, I, op, other, refl):
        if isinstance(other, DView) and op in ("==", "!="):
            return I.compare(op, mkset(I, self.iterate(I)), mkset(I, other.iterate(I)))
        if isinstance(other, SetObj):
            a, b = mkset(I, self.iterate(I)), other
            return I.compare(op, *((b, a) if refl else (a, b)))
        return NotImplemented

    def getattr(self, I, name):
        if name == "mapping":
            return self.d
        return NotImplemented

    def cls(self, I):
        return I.bt["dictview"]


def mkset(I, items, frozen=False):
    s = SetObj(frozen=frozen)
    d = {}
    for x in items:
        if isinstance(x, (Rep, AbsElems)):
            raise I.undecided("set of a symbolic sequence")
        d.setdefault(I.bkey(d, I.hkey(x)), x)
    s.f["items"] = d
    return s


def mkdict(I, d):
    o = DictObj(I.bt["dict"])
    for k, v in d.items():
        I.dict_set(o, k, v)
    return o


def dict_view(I, o):
    return mkdict(I, dict(o.f))


def pyslice(s):
    for x in (s.start, s.stop, s.step):
        if x is not None and not isinstance(x, int):
            raise Undecided(f"slice with abstract bounds {s}")
    return slice(s.start, s.stop, s.step)


def idx_slice(I, s):
    """the slice with its bounds converted by __index__"""
    c = lambda x: x if x is None or isinstance(x, (int, SymInt, BitInt)) else idx_of(I, x)
    return SliceObj(c(s.start), c(s.stop), c(s.step))


def idx_of(I, v):
    """operator.index"""
    if isinstance(v, (int, SymInt, BitInt)):
        return int(v) if isinstance(v, bool) else v
    if isinstance(v, InstObj):
        c = v.cls.lookup("__index__")
        if c is not None:
            return I.call(c[1], [v], {})
    if isinstance(v, AbsVal):
        r = v.getattr(I, "__index__")
        if r is not NotImplemented and not isinstance(r, Opaque):
            return I.call(r, [], {})
        if isinstance(v, Scalar) and v.ty == "int":
            return v
    if isinstance(v, Scalar) and v.ty == "int":
        return v
    raise I.exc("TypeError", f"'{I.type_of(v).name}' object cannot be interpreted as an integer")


# ---------------------------------------------------------------------- segmented lists
def seg_len(items):
    n = 0
    for x in items:
        if isinstance(x, Rep):
            n = SI.add(n, SymInt.lift(x.count).mul(len(x.block)) if isinstance(x.count, SymInt) else x.count * len(x.block))
        elif isinstance(x, AbsElems):
            raise Undecided(f"length of {x.name}")
        else:
            n = SI.add(n, 1)
    return n


def seg_locate(I, items, k):
    """(list index, offset in Rep or None) of element number k; raises IndexError of the program"""
    n = None
    if isinstance(k, int) and k >= 0 and not any(isinstance(x, (Rep, AbsElems)) for x in items[:k + 1]):
        if k < len(items):
            return k, None
        raise I.exc("IndexError", "list index out of range")
    n = seg_len(items)
    if I.truth(I.int_cmp("<", k, 0)):
        k = SI.add(k, n)
    if I.truth(I.int_cmp("<", k, 0)) or I.truth(I.int_cmp(">=", k, n)):
        raise I.exc("IndexError", "list index out of range")
    cur = 0
    for i, x in enumerate(items):
        if isinstance(x, Rep):
            if len(x.block) != 1:
                raise I.undecided("index into a segment with a long block")
            nxt = SI.add(cur, x.count)
            if SI.lt(k, nxt) is True:
                return i, SI.sub(k, cur)
            if SI.le(nxt, k) is not True:
                if I.truth(I.int_cmp("<", k, nxt)):
                    return i, SI.sub(k, cur)
            cur = nxt
        else:
            e = SI.eq(cur, k)
            if e is None:
                e = I.truth(I.int_cmp("==", cur, k))
            if e:
                return i, None
            cur = SI.add(cur, 1)
    raise I.undecided(f"element {k} of a segmented list")


def seg_get(I, items, k):
    i, off = seg_locate(I, items, k)
    x = items[i]
    return x.block[0] if isinstance(x, Rep) else x


def seg_set(I, items, k, v):
    i, off = seg_locate(I, items, k)
    x = items[i]
    if isinstance(x, Rep):
        new = []
        if SI.eq(off, 0) is not True:
            new.append(Rep(x.block, off))
        new.append(v)
        rest = SI.sub(SI.sub(x.count, off), 1)
        if SI.eq(rest, 0) is not True:
            new.append(Rep(x.block, rest))
        return items[:i] + new + items[i + 1:]
    return items[:i] + [v] + items[i + 1:]


def is_seg(items):
    return any(isinstance(x, (Rep, AbsElems)) for x in items)


def getitem(I, o, k):
    if isinstance(o, DictObj):
        r = I.dict_get(o, k)
        if r is not None:
            return r[0]
        if o.factory is not None:
            v = I.call(o.factory, [], {})
            I.dict_set(o, k, v)
            return v
        if I.bt["Counter"] in o.cls.mro:
            return 0
        if "__missing__" in o.cls.f:
            return I.call(o.cls.f["__missing__"], [o, k], {})
        raise I.exc("KeyError", k)
    if isinstance(o, InstObj):
        c = o.cls.lookup("__getitem__")
        if c is not None:
            return I.call(c[1], [o, k], {})
        if o.tup is not None:
            return getitem(I, o.tup, k)
        raise I.exc("TypeError", f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, (tuple, str)):
        if isinstance(k, SliceObj):
            return o[pyslice(idx_slice(I, k))]
        k = idx_of(I, k)
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise I.exc("IndexError", f"{type(o).__name__} index out of range")
        if isinstance(o, tuple):
            n = len(o)
            for i in range(n):
                if I.truth(I.int_cmp("==", k, i)) or I.truth(I.int_cmp("==", k, i - n)):
                    return o[i]
            raise I.exc("IndexError", "tuple index out of range")
        raise I.undecided(f"character number {k}")
    if isinstance(o, ListObj):
        if isinstance(k, SliceObj):
            k = idx_slice(I, k)
            if is_seg(o.items):
                return ListObj(seg_slice(I, o.items, k))
            return ListObj(o.items[pyslice(norm_slice(I, k, len(o.items)))])
        k = idx_of(I, k)
        if isinstance(k, int) and not is_seg(o.items):
            try:
                return o.items[k]
            except IndexError:
                raise I.exc("IndexError", "list index out of range")
        return seg_get(I, o.items, k)
    if isinstance(o, RangeObj):
        if isinstance(k, SliceObj):
            k = idx_slice(I, k)
            if all(isinstance(x, int) for x in (o.start, o.stop, o.step)):
                r = range(o.start, o.stop, o.step)[pyslice(k)]
                return RangeObj(r.start, r.stop, r.step)
            if k.start is None and k.stop is None and k.step in (None, 1):
                return o
            if k.start is None and k.stop is None and k.step == -1 and o.step == 1:
                return RangeObj(SI.sub(o.stop, 1), SI.sub(o.start, 1), -1)
            raise I.undecided("slice of a symbolic range")
        k = idx_of(I, k)
        if all(isinstance(x, int) for x in (o.start, o.stop, o.step, k)):
            try:
                return range(o.start, o.stop, o.step)[k]
            except IndexError:
                raise I.exc("IndexError", "range object index out of range")
        n = range_len(I, o)
        if I.truth(I.int_cmp("<", k, 0)):
            k = SI.add(k, n)
        if I.truth(I.int_cmp("<", k, 0)) or I.truth(I.int_cmp(">=", k, n)):
            raise I.exc("IndexError", "range object index out of range")
        return SI.add(o.start, SymInt.lift(k).mul(o.step))
    if isinstance(o, ClassObj):
        if o.lookup("__class_getitem__"):
            return I.call(o.lookup("__class_getitem__")[1], [o, k], {})
        return o
    if hasattr(o, "getitem"):
        return o.getitem(I, k)
    raise I.exc("TypeError", f"'{I.type_of(o).name}' object is not subscriptable")


def norm_slice(I, s, n):
    """slice bounds that are abstract integers of decidable sign"""
    s = idx_slice(I, s)
    if all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
        return s
    raise I.undecided(f"slice {s}")


def seg_slice(I, items, s):
    if s.start is None and s.stop is None and s.step in (None, 1):
        return list(items)
    if s.start is None and s.stop is None and s.step == -1:
        return [Rep(x.block[::-1], x.count) if isinstance(x, Rep) else x for x in reversed(items)]
    if s.step in (None, 1) and s.stop is None and isinstance(s.start, int) and s.start >= 0 and not is_seg(items[:s.start]):
        return list(items[s.start:])
    if s.step in (None, 1) and s.start in (None, 0) and isinstance(s.stop, int) and s.stop >= 0 and not is_seg(items[:s.stop]):
        return list(items[:s.stop])
    raise I.undecided("slice of a segmented list")


def setitem(I, o, k, v):
    if isinstance(o, DictObj):
        return I.dict_set(o, k, v)
    if isinstance(o, ListObj):
        if isinstance(k, SliceObj):
            items = list(o.items)
            vals = I.iter_items(v)
            if k.start is None and k.stop is None and k.step is None:
                I.E.put(o.f, "items", list(vals))
                return
            if is_seg(items):
                raise I.undecided("slice assignment on a segmented list")
            try:
                items[pyslice(k)] = vals
            except ValueError as ex:
                raise I.exc("ValueError", str(ex))
            I.E.put(o.f, "items", items)
            return
        k = idx_of(I, k)
        if isinstance(k, int) and not is_seg(o.items):
            items = list(o.items)
            try:
                items[k] = v
            except IndexError:
                raise I.exc("IndexError", "list assignment index out of range")
            I.E.put(o.f, "items", items)
            return
        I.E.put(o.f, "items", seg_set(I, list(o.items), k, v))
        return
    if isinstance(o, InstObj):
        c = o.cls.lookup("__setitem__")
        if c is not None:
            return I.call(c[1], [o, k, v], {})
        raise I.exc("TypeError", f"'{o.cls.name}' object does not support item assignment")
    if hasattr(o, "setitem"):
        return o.setitem(I, k, v)
    if isinstance(o, Opaque):
        I.event("opaque_setitem", o.k, k, v)
        return
    raise I.exc("TypeError", f"'{I.type_of(o).name}' object does not support item assignment")


# ---------------------------------------------------------------------- attributes of builtin objects
def M(name):
    def deco(fn):
        fn._m = name
        return fn
    return deco


def need(I, name, a, lo, hi):
    if not lo <= len(a) <= hi:
        raise I.exc("TypeError", f"{name}() takes {lo} to {hi} arguments ({len(a)} given)")


def list_method(I, o, name):
    E = I.E

    def put(items):
        E.put(o.f, "items", items)

    def append(I, a, k):
        need(I, "append", a, 1, 1)
        put(o.items + [a[0]])

    def extend(I, a, k):
        put(o.items + list(I.iter_items(a[0])))

    def insert(I, a, k):
        items = list(o.items)
        if is_seg(items):
            if a[0] == 0:
                put([a[1]] + items)
                return
            raise I.undecided("insert into a segmented list")
        items.insert(idx_of(I, a[0]), a[1])
        put(items)

    def pop(I, a, k):
        items = list(o.items)
        i = a[0] if a else -1
        if not items:
            raise I.exc("IndexError", "pop from empty list")
        if is_seg(items) and not (i == -1 and not isinstance(items[-1], (Rep, AbsElems))):
            raise I.undecided("pop from a segmented list")
        try:
            v = items.pop(idx_of(I, i))
        except IndexError:
            raise I.exc("IndexError", "pop index out of range")
        put(items)
        return v

    def remove(I, a, k):
        items = I.list_values(o)
        for i, x in enumerate(items):
            if x is a[0] or I.truth(I.compare("==", x, a[0])):
                put(items[:i] + items[i + 1:])
                return
        raise I.exc("ValueError", "list.remove(x): x not in list")

    def index(I, a, k):
        for i, x in enumerate(I.list_values(o)):
            if x is a[0] or I.truth(I.compare("==", x, a[0])):
                return i
        raise I.exc("ValueError", "is not in list")

    def count(I, a, k):
        return sum(1 for x in I.list_values(o) if x is a[0] or I.truth(I.compare("==", x, a[0])))

    def sort(I, a, k):
        put(py_sort(I, I.list_values(o), k.get("key"), k.get("reverse", False)))

    def reverse(I, a, k):
        put(rev_items(o.items))

    def copy_(I, a, k):
        return ListObj(o.items)

    def clear(I, a, k):
        put([])
    t = {"append": append, "extend": extend, "insert": insert, "pop": pop, "remove": remove, "index": index, "count": count,
         "sort": sort, "reverse": reverse, "copy": copy_, "clear": clear, "__len__": lambda I, a, k: seg_len(o.items),
         "__getitem__": lambda I, a, k: getitem(I, o, a[0]), "__setitem__": lambda I, a, k: setitem(I, o, a[0], a[1]),
         "__contains__": lambda I, a, k: I.contains(o, a[0]), "__iter__": lambda I, a, k: IterObj(list(o.items)),
         # collections.deque
         "popleft": lambda I, a, k: pop(I, [0], {}), "appendleft": lambda I, a, k: put([a[0]] + o.items),
         "extendleft": lambda I, a, k: put(list(I.iter_items(a[0]))[::-1] + o.items)}
    return t.get(name)


def rev_items(items):
    return [Rep(x.block[::-1], x.count) if isinstance(x, Rep) else x for x in reversed(items)]


def dict_method(I, o, name):
    def get(I, a, k):
        r = I.dict_get(o, a[0])
        return r[0] if r is not None else (a[1] if len(a) > 1 else k.get("default"))

    def setdefault(I, a, k):
        r = I.dict_get(o, a[0])
        if r is not None:
            return r[0]
        v = a[1] if len(a) > 1 else None
        I.dict_set(o, a[0], v)
        return v

    def pop(I, a, k):
        r = I.dict_get(o, a[0])
        if r is None:
            if len(a) > 1:
                return a[1]
            raise I.exc("KeyError", a[0])
        I.dict_del(o, a[0])
        return r[0]

    def popitem(I, a, k):
        p = o.pairs()
        if not p:
            raise I.exc("KeyError", "popitem(): dictionary is empty")
        I.dict_del(o, p[-1][0])
        return p[-1]

    def update(I, a, k):
        counter = I.bt["Counter"] in o.cls.mro
        if a:
            src = a[0]
            if counter:
                counter_add(I, o, src)
            else:
                for kk, vv in pairs_of(I, src):
                    I.dict_set(o, kk, vv)
        for kk, vv in k.items():
            I.dict_set(o, kk, vv)

    def copy_(I, a, k):
        d = DictObj(o.cls, o.factory)
        d.f["items"] = dict(o.f["items"])
        return d

    def clear(I, a, k):
        I.E.put(o.f, "items", {})

    def most_common(I, a, k):
        ps = py_sort(I, o.pairs(), Native("key", lambda I, x, kk: x[0][1]), True)
        return ListObj(ps if not a or a[0] is None else ps[:a[0]])

    def elements(I, a, k):
        out = []
        for kk, vv in o.pairs():
            out += [kk] * vv if isinstance(vv, int) else [Rep((kk,), vv)]
        return IterObj(out)

    def total(I, a, k):
        r = 0
        for _, v in o.pairs():
            r = I.binop("+", r, v)
        return r
    t = {"get": get, "setdefault": setdefault, "pop": pop, "popitem": popitem, "update": update, "copy": copy_, "clear": clear,
         "items": lambda I, a, k: DView(o, "items"), "keys": lambda I, a, k: DView(o, "keys"), "values": lambda I, a, k: DView(o, "values"),
         "__len__": lambda I, a, k: len(o.pairs()), "__contains__": lambda I, a, k: I.contains(o, a[0]),
         "__getitem__": lambda I, a, k: getitem(I, o, a[0]), "__setitem__": lambda I, a, k: setitem(I, o, a[0], a[1]),
         "__iter__": lambda I, a, k: IterObj([x for x, _ in o.pairs()])}
    if I.bt["Counter"] in o.cls.mro:
        t.update({"most_common": most_common, "elements": elements, "total": total})
    return t.get(name)


def counter_add(I, o, src):
    if isinstance(src, DictObj):
        for kk, vv in src.pairs():
            cur = I.dict_get(o, kk)
            I.dict_set(o, kk, vv if cur is None else I.binop("+", cur[0], vv))
    else:
        for x in I.list_values(src):
            cur = I.dict_get(o, x)
            I.dict_set(o, x, 1 if cur is None else I.binop("+", cur[0], 1))


def pairs_of(I, src):
    if isinstance(src, DictObj) or (isinstance(src, InstObj) and src.cls.lookup("keys")):
        return I.mapping_pairs(src)
    out = []
    for x in I.list_values(src):
        kv = I.list_values(x)
        if len(kv) != 2:
            raise I.exc("ValueError", "dictionary update sequence element has wrong length")
        out.append(tuple(kv))
    return out


def set_method(I, o, name):
    def items_of(x):
        if isinstance(x, SetObj):
            return x.f["items"]
        return mkset(I, I.iter_items(x)).f["items"]

    def put(d):
        I.E.put(o.f, "items", d)

    def make(d):
        return SetObj(d, o.frozen)

    def union(I, a, k):
        d = dict(o.f["items"])
        for x in a:
            for h, v in items_of(x).items():
                d.setdefault(I.bkey(d, h), v)
        return make(d)

    def inter(I, a, k):
        d = dict(o.f["items"])
        for x in a:
            ks = items_of(x)
            d = {h: v for h, v in d.items() if I.bkey(ks, h) in ks}
        return make(d)

    def diff(I, a, k):
        d = dict(o.f["items"])
        for x in a:
            ks = items_of(x)
            d = {h: v for h, v in d.items() if I.bkey(ks, h) not in ks}
        return make(d)

    def symdiff(I, a, k):
        x = items_of(a[0])
        d = {h: v for h, v in o.f["items"].items() if I.bkey(x, h) not in x}
        d.update({h: v for h, v in x.items() if I.bkey(o.f["items"], h) not in o.f["items"]})
        return make(d)

    def add(I, a, k):
        I.set_add(o, a[0])

    def discard(I, a, k):
        h = I.bkey(o.f["items"], I.hkey(a[0]))
        put({x: v for x, v in o.f["items"].items() if x != h})

    def remove(I, a, k):
        if I.bkey(o.f["items"], I.hkey(a[0])) not in o.f["items"]:
            raise I.exc("KeyError", a[0])
        discard(I, a, k)

    def update(I, a, k):
        put(union(I, a, k).f["items"])

    def pop(I, a, k):
        if not o.f["items"]:
            raise I.exc("KeyError", "pop from an empty set")
        h = next(iter(o.f["items"]))
        v = o.f["items"][h]
        put({x: y for x, y in o.f["items"].items() if x != h})
        return v
    t = {"union": union, "intersection": inter, "difference": diff, "symmetric_difference": symdiff,
         "issubset": lambda I, a, k: (lambda x: all(I.bkey(x, h) in x for h in o.f["items"]))(items_of(a[0])),
         "issuperset": lambda I, a, k: all(I.bkey(o.f["items"], h) in o.f["items"] for h in items_of(a[0])),
         "isdisjoint": lambda I, a, k: not any(I.bkey(o.f["items"], h) in o.f["items"] for h in items_of(a[0])),
         "copy": lambda I, a, k: make(dict(o.f["items"])), "__len__": lambda I, a, k: len(o.f["items"])}
    if not o.frozen:
        t.update({"add": add, "discard": discard, "remove": remove, "update": update, "pop": pop,
                  "clear": lambda I, a, k: put({}),
                  "difference_update": lambda I, a, k: put(diff(I, a, k).f["items"]),
                  "intersection_update": lambda I, a, k: put(inter(I, a, k).f["items"])})
    return t.get(name)


def tuple_method(I, t, name):
    if name == "index":
        def index(I, a, k):
            for i, x in enumerate(t):
                if x is a[0] or I.truth(I.compare("==", x, a[0])):
                    return i
            raise I.exc("ValueError", "tuple.index(x): x not in tuple")
        return index
    if name == "count":
        return lambda I, a, k: sum(1 for x in t if x is a[0] or I.truth(I.compare("==", x, a[0])))
    if name == "__len__":
        return lambda I, a, k: len(t)
    if name == "__iter__":
        return lambda I, a, k: IterObj(list(t))
    if name == "__getitem__":
        return lambda I, a, k: getitem(I, t, a[0])
    if name == "__contains__":
        return lambda I, a, k: I.contains(t, a[0])
    return None


def tuple_attr(I, o, name):
    """attributes of an instance of a tuple subclass"""
    fs = o.cls.nt_fields
    if fs is not None:
        if name in fs:
            return o.tup[fs.index(name)]
        if name == "_fields":
            return tuple(fs)
        if name == "_asdict":
            return Native("_asdict", lambda I, a, k: mkdict(I, dict(zip(fs, o.tup))))
        if name == "_replace":
            def rep(I, a, k):
                for n in k:
                    if n not in fs:
                        raise I.exc("ValueError", f"Got unexpected field names: ['{n}']")
                return InstObj(o.cls, None, tuple(k.get(n, v) for n, v in zip(fs, o.tup)))
            return Native("_replace", rep)
    m = tuple_method(I, o.tup, name)
    return Native(name, m) if m is not None else None


def object_attr(I, o, name):
    """attributes every object has"""
    if name == "__eq__":
        return Native("object.__eq__", lambda I, a, k: True if o is a[0] else NotImplemented)
    if name == "__ne__":
        return Native("object.__ne__", lambda I, a, k: False if o is a[0] else NotImplemented)
    if name == "__hash__":
        return Native("object.__hash__", lambda I, a, k: HashVal(I.hkey(o) if o.tup is None else ("o", o.oid)))
    if name in ("__repr__", "__str__"):
        return Native(name, lambda I, a, k: StrT([Hole(o)]))
    if name == "__init__":
        return Native("object.__init__", lambda I, a, k: None)
    if name == "__setattr__":
        return Native("object.__setattr__", lambda I, a, k: I.E.put(o.f, a[0], a[1]))
    if name == "__delattr__":
        return Native("object.__delattr__", lambda I, a, k: I.E.rm(o.f, a[0]))
    if name == "__getattribute__":
        return Native("object.__getattribute__", lambda I, a, k: I._getattr(o, a[0]))
    if name == "__module__":
        return o.cls.module.name if o.cls.module is not None else "builtins"
    if name == "__doc__":
        return class_attr(I, o.cls, "__doc__")
    if I.bt["BaseException"] in o.cls.mro:
        if name == "with_traceback":
            return Native(name, lambda I, a, k: o)
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
    if name == "__dir__":
        return None
    if name == "__reduce__" or name == "__reduce_ex__":
        return Native(name, lambda I, a, k: Opaque(name, (o,)))
    return None


def class_attr(I, c, name):
    if name == "__name__":
        return c.name
    if name == "__qualname__":
        return c.qual
    if name == "__module__":
        return c.module.name if c.module is not None else "builtins"
    if name == "__doc__":
        return (ast.get_docstring(c.node) if c.node is not None else "") or ""
    if name == "__mro__":
        return tuple(c.mro)
    if name == "__bases__":
        return tuple(c.bases)
    if name == "__class__":
        return I.bt["type"]
    if name == "__dict__":
        return mkdict(I, dict(c.f))
    if name == "mro":
        return Native("mro", lambda I, a, k: ListObj(c.mro))
    if name == "__subclasses__":
        return Native(name, lambda I, a, k: ListObj([]))
    if c.nt_fields is not None:
        if name == "_fields":
            return tuple(c.nt_fields)
        if name == "_make":
            return Native("_make", lambda I, a, k: InstObj(c, None, tuple(I.list_values(a[0]))))
        if name in c.nt_fields:
            i = c.nt_fields.index(name)
            return PropertyObj(Native("get", lambda I, a, k: a[0].tup[i]))
    if name in TUPLE_METHODS and any(b.pytype is tuple for b in c.mro):
        return Native("tuple." + name, lambda I, a, k: tuple_dunder(I, name, a, k))
    if name in ("__init__", "__eq__", "__hash__", "__repr__", "__str__", "__setattr__", "__getattribute__", "__delattr__", "__ne__"):
        def unbound(I, a, k):
            r = object_attr(I, a[0], name)
            return I.call(r, a[1:], k)
        return Native("object." + name, unbound)
    if name == "maketrans" and c.pytype is str:
        return Native("maketrans", lambda I, a, k: mkdict(I, str.maketrans(*[{lower_py(p): lower_py(q) for p, q in x.pairs()} if isinstance(x, DictObj) else lower_py(x) for x in a])))
    if name == "__new__":
        def new(I, a, k):
            base = next((b for b in a[0].mro if b.construct is not None), None)
            return base.construct(I, a[0], a[1:], k) if base else InstObj(a[0])
        return Native("object.__new__", new)
    if c.pytype is not None:
        # unbound method of a builtin type
        if c.pytype is dict and name == "fromkeys":
            def fromkeys(I, a, k):
                d = DictObj(c)
                for x in I.list_values(a[0]):
                    I.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return Native("fromkeys", fromkeys)
        if hasattr(c.pytype, name):
            return Native(f"{c.name}.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
    if c is I.bt["object"] or True:
        if name in ("__subclasshook__", "__init_subclass__", "__sizeof__", "__reduce__", "__dir__", "__format__", "__lt__", "__le__", "__gt__", "__ge__", "__reduce_ex__"):
            return Native("object." + name, lambda I, a, k: NotImplemented)
    return None


TUPLE_METHODS = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=", "__hash__": None, "__len__": None,
                 "__getitem__": None, "__iter__": None, "__contains__": None, "__add__": None, "__mul__": None, "__rmul__": None, "index": None, "count": None}


def tuple_dunder(I, name, a, k):
    x = a[0].tup if isinstance(a[0], InstObj) else a[0]
    if not isinstance(x, tuple):
        raise I.exc("TypeError", f"descriptor '{name}' requires a 'tuple' object")
    if name == "__hash__":
        return HashVal(I.hkey(tuple(x)))
    if name == "__len__":
        return I.call(I.builtins["len"], [tuple(x)], {})
    if name == "__iter__":
        return I.call(I.builtins["iter"], [tuple(x)], {})
    if name == "__getitem__":
        return I.getitem(tuple(x), a[1])
    if name == "__contains__":
        return I.contains(tuple(x), a[1])
    if name in ("index", "count"):
        return I.call(I.getattr(tuple(x), name), a[1:], k)
    y = a[1].tup if isinstance(a[1], InstObj) else a[1]
    if name in ("__mul__", "__rmul__"):
        return I.binop("*", tuple(x), y) if I.is_int(y) else NotImplemented
    if not isinstance(y, tuple):
        return NotImplemented
    if name == "__add__":
        return I.binop("+", tuple(x), tuple(y))
    return I.compare(TUPLE_METHODS[name], tuple(x), tuple(y))


def num_attr(I, o, name):
    if name == "real":
        return (o.real if isinstance(o, NUMT) else o.real_part() if isinstance(o, Scalar) else o,)
    if name == "imag":
        return (o.imag if isinstance(o, NUMT) else o.imag_part() if isinstance(o, Scalar) else 0,)
    if name in ("conjugate", "conj"):
        if name == "conj" and isinstance(o, NUMT):
            return None
        return (Native("conjugate", lambda I, a, k: o.conjugate() if isinstance(o, NUMT) else o.conj() if isinstance(o, Scalar) else o),)
    if name == "__index__" and (isinstance(o, (int, SymInt, BitInt)) or isinstance(o, Scalar) and o.ty == "int"):
        return (Native("__index__", lambda I, a, k: int(o) if isinstance(o, bool) else o),)
    if name == "is_integer" and isinstance(o, float):
        return (Native("is_integer", lambda I, a, k: o.is_integer()),)
    if name == "bit_length":
        def bl(I, a, k):
            if isinstance(o, int):
                return o.bit_length()
            p = SI.lift(o).pow2() if isinstance(o, BitInt) else None
            if p is not None:
                return SI.add(p, 1)
            raise I.undecided("bit_length")
        return (Native("bit_length", bl),)
    if name == "bit_count" and isinstance(o, int):
        return (Native("bit_count", lambda I, a, k: bin(o).count("1")),)
    if name in ("__add__", "__mul__", "__sub__", "__radd__", "__rmul__", "__eq__", "__lt__", "__float__", "__int__", "__abs__", "__truediv__", "__pow__"):
        def dun(I, a, k):
            ops = {"__add__": "+", "__mul__": "*", "__sub__": "-", "__truediv__": "/", "__pow__": "**"}
            if name in ops:
                return I.binop(ops[name], o, a[0])
            if name in ("__radd__", "__rmul__"):
                return I.binop("+" if name == "__radd__" else "*", a[0], o)
            if name in ("__eq__", "__lt__"):
                return I.compare("==" if name == "__eq__" else "<", o, a[0])
            if name == "__float__":
                return to_float(I, o)
            if name == "__abs__":
                return py_abs(I, o)
            return to_int(I, o)
        return (Native(name, dun),)
    return None


NUMT = (int, float, complex)


def builtin_attr(I, o, name):
    m = None
    if isinstance(o, (int, float, complex, SymInt, BitInt, Scalar)):
        if name == "__class__":
            return (I.type_of(o),)
        if isinstance(o, Scalar) and o.ty == "sympy":
            from . import symodel
            r = symodel.scalar_attr(I, o, name)
            if r is not None:
                return r
        return num_attr(I, o, name)
    if name == "__class__":
        return (I.type_of(o),)
    if isinstance(o, str):
        r = str_method(I, o, name)
        if r is not None:
            return (r,)
        if name == "__len__":
            return (Native(name, lambda I, a, k: len(o)),)
        return None
    if isinstance(o, ListObj):
        m = list_method(I, o, name)
    elif isinstance(o, DictObj):
        m = dict_method(I, o, name)
        if m is None:
            c = o.cls.lookup(name)
            if c is not None:
                return (I.bind_attr(c[1], o, o.cls),)
        if name == "default_factory":
            return (o.factory,)
    elif isinstance(o, SetObj):
        m = set_method(I, o, name)
    elif isinstance(o, tuple):
        m = tuple_method(I, o, name)
    elif isinstance(o, IterObj):
        if name == "__next__":
            m = lambda I, a, k: py_next(I, [o], {})
        elif name == "__iter__":
            m = lambda I, a, k: o
        elif name == "close":
            m = lambda I, a, k: None
    elif isinstance(o, SliceObj):
        if name in ("start", "stop", "step"):
            return (getattr(o, name),)
        if name == "indices":
            m = lambda I, a, k: slice_indices(I, idx_slice(I, o), a[0])
    elif isinstance(o, RangeObj):
        if name in ("start", "stop", "step"):
            return (getattr(o, name),)
        if name == "__len__":
            m = lambda I, a, k: range_len(I, o)
    elif isinstance(o, PropertyObj):
        if name in ("fget", "fset", "fdel"):
            return (getattr(o, name),)
    elif isinstance(o, bytes):
        if name == "decode":
            m = lambda I, a, k: o.decode(*a)
    elif o is None:
        if name == "__bool__":
            m = lambda I, a, k: False
    elif isinstance(o, StaticM) or isinstance(o, ClassM):
        if name == "__func__":
            return (o.func,)
    if m is None:
        if name in ("__eq__", "__ne__"):
            return (Native(name, lambda I, a, k: I.compare("==" if name == "__eq__" else "!=", o, a[0])),)
        if name == "__hash__":
            return (Native(name, lambda I, a, k: HashVal(I.hkey(o))),)
        if name in ("__str__", "__repr__"):
            return (Native(name, lambda I, a, k: py_str(I, o) if name == "__str__" else py_repr(I, o)),)
        if name == "__doc__":
            return (None,)
        return None
    return (Native(name, m),)


def slice_indices(I, s, n):
    """slice.indices with abstract bounds"""
    step = 1 if s.step is None else idx_of(I, s.step)
    if all(x is None or isinstance(x, int) for x in (s.start, s.stop)) and isinstance(n, int) and isinstance(step, int):
        return slice(s.start, s.stop, step).indices(n)
    if not isinstance(step, int):
        raise I.undecided("slice with an abstract step")
    if step == 0:
        raise I.exc("ValueError", "slice step cannot be zero")
    lo, hi = (0, n) if step > 0 else (-1, SI.sub(n, 1))

    def clamp(x, default):
        if x is None:
            return default
        x = idx_of(I, x)
        if I.truth(I.int_cmp("<", x, 0)):
            x = SI.add(x, n)
            if I.truth(I.int_cmp("<", x, lo)):
                return lo
            return x
        if I.truth(I.int_cmp(">", x, hi)):
            return hi
        return x
    start = clamp(s.start, lo if step > 0 else hi)
    stop = clamp(s.stop, hi if step > 0 else lo)
    return (start, stop, step)


def range_len(I, r):
    if all(isinstance(x, int) for x in (r.start, r.stop, r.step)):
        return len(range(r.start, r.stop, r.step))
    if isinstance(r.stop, BitInt) and r.start == 0 and r.step == 1:
        return r.stop
    if r.step == 1:
        d = SI.sub(r.stop, r.start)
    elif r.step == -1:
        d = SI.sub(r.start, r.stop)
    else:
        raise I.undecided("length of a symbolic range")
    return d if I.truth(I.int_cmp(">", d, 0)) else 0


def builtin_binop(I, op, a, b):
    if isinstance(a, str) and isinstance(b, str) and op == "+":
        return a + b
    if isinstance(a, (str, StrT)) and op == "%":
        return percent_format(I, a, b)
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, tuple, bytes)) and isinstance(y, int):
                return x * y
            if isinstance(x, ListObj) and isinstance(y, int):
                return ListObj(x.items * y)
            if isinstance(x, ListObj) and isinstance(y, SymInt):
                if not x.items:
                    return ListObj([])
                return ListObj([Rep(x.items, y)])
            if isinstance(x, str) and isinstance(y, SymInt):
                return StrT([RepStr((x,), y)])
            if isinstance(x, tuple) and isinstance(y, SymInt):
                raise I.undecided("tuple of symbolic length")
    if op == "+":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return ListObj(a.items + b.items)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
    if isinstance(a, SetObj) and isinstance(b, SetObj):
        m = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}.get(op)
        if m:
            return set_method(I, a, m)(I, [b], {})
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        counter = I.bt["Counter"]
        if counter in a.cls.mro and counter in b.cls.mro and op in ("+", "-"):
            d = DictObj(counter)
            keys = [k for k, _ in a.pairs()] + [k for k, _ in b.pairs() if I.dict_get(a, k) is None]
            for k in keys:
                x, y = I.dict_get(a, k), I.dict_get(b, k)
                v = I.binop(op, x[0] if x else 0, y[0] if y else 0)
                if I.truth(I.compare(">", v, 0)):
                    I.dict_set(d, k, v)
            return d
        if op == "|":
            d = DictObj(a.cls, a.factory)
            d.f["items"] = dict(a.f["items"])
            for k, v in b.pairs():
                I.dict_set(d, k, v)
            return d
    if isinstance(a, Cond) or isinstance(b, Cond):
        # bool arithmetic
        if op in ("&", "|", "^", "+", "-", "*"):
            return I.binop(op, I.truth(a) if isinstance(a, Cond) else a, I.truth(b) if isinstance(b, Cond) else b)
    return NotImplemented


def percent_format(I, s, arg):
    if not isinstance(s, str):
        raise I.undecided("% on a template")
    import re
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, pos = [], 0
    for m in re.finditer(r"%(\([^)]*\))?([-#0 +]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        v = getitem(I, arg, m.group(1)[1:-1]) if m.group(1) else args.pop(0)
        spec = m.group(0)
        if isinstance(v, CONC_T):
            out.append(spec % v)
        elif spec in ("%s", "%d"):
            out.append(py_str(I, v))
        elif spec == "%r":
            out.append(py_repr(I, v))
        else:
            out.append(StrT([Hole(v, spec)]))
    out.append(s[pos:])
    return str_concat(out)


# ---------------------------------------------------------------------- conversions and plain functions
def to_int(I, v, base=None):
    if isinstance(v, (int, float, str)):
        try:
            return int(v) if base is None else int(v, base)
        except (ValueError, OverflowError) as ex:
            raise I.exc(type(ex).__name__, str(ex))
    if isinstance(v, (SymInt, BitInt)):
        return v
    if isinstance(v, Cond):
        return 1 if I.truth(v) else 0
    if isinstance(v, Scalar):
        if v.ty == "int":
            return v
        if v.is_const():
            return int(v.const_value().real)
        return Scalar.gen(Gen("fn", ("int", (_fz(v),))), ty="int")
    if isinstance(v, InstObj):
        for n in ("__int__", "__index__"):
            c = v.cls.lookup(n)
            if c is not None:
                return I.call(c[1], [v], {})
    if isinstance(v, StrT):
        if len(v.parts) == 1 and isinstance(v.parts[0], Hole) and (I.is_int(v.parts[0].val) or is_digit(I, v.parts[0].val)):
            return v.parts[0].val
        if base == 2 and all(isinstance(p, str) and set(p) <= {"0", "1"} or isinstance(p, Hole) and is_digit(I, p.val) for p in v.parts):
            items = char_items(I, v)
            tot = 0
            for ch in items:
                x = int(ch) if isinstance(ch, str) else ch.parts[0].val
                tot = I.binop("+", I.binop("*", tot, 2), x)
            return tot
        raise I.undecided(f"int({v})")
    if isinstance(v, AbsVal) and is_digit(I, v):
        return v
    if isinstance(v, Opaque):
        return Opaque("int", (v,))
    if hasattr(v, "to_int"):
        return v.to_int(I)
    if isinstance(v, AbsVal):
        r = v.getattr(I, "__index__")
        if r is not NotImplemented:
            return I.call(r, [], {})
    raise I.exc("TypeError", f"int() argument must be a string or a number, not '{I.type_of(v).name}'")


def _fz(s):
    from .scalar import FrozenS
    return FrozenS(Scalar.lift(s))


def to_float(I, v):
    if isinstance(v, (int, float, str)):
        try:
            return float(v)
        except ValueError as ex:
            raise I.exc("ValueError", str(ex))
    if isinstance(v, complex):
        raise I.exc("TypeError", "can't convert complex to float")
    if isinstance(v, Scalar):
        if v.ty == "complex" and not v.is_real():
            raise I.exc("TypeError", "can't convert complex to float")
        return Scalar(v.t, "float")
    if isinstance(v, (SymInt, BitInt)):
        s = I.to_scalar(v)
        if s is None:
            raise I.undecided(f"float({v})")
        return Scalar(s.t, "float")
    if isinstance(v, InstObj):
        c = v.cls.lookup("__float__")
        if c is not None:
            return I.call(c[1], [v], {})
    if isinstance(v, Opaque):
        return Opaque("float", (v,))
    if isinstance(v, Cond):
        return 1.0 if I.truth(v) else 0.0
    if hasattr(v, "to_float"):
        return v.to_float(I)
    raise I.exc("TypeError", f"float() argument must be a string or a real number, not '{I.type_of(v).name}'")


def to_complex(I, a):
    if not a:
        return 0j
    if len(a) == 1 and isinstance(a[0], (int, float, complex, str)):
        try:
            return complex(a[0])
        except ValueError as ex:
            raise I.exc("ValueError", str(ex))
    if all(isinstance(x, NUMT) for x in a):
        return complex(*a)
    if isinstance(a[0], InstObj):
        c = a[0].cls.lookup("__complex__") or a[0].cls.lookup("__float__")
        if c is None:
            raise I.exc("TypeError", "complex() argument must be a number")
        return to_complex(I, [I.call(c[1], [a[0]], {})] + list(a[1:]))
    if isinstance(a[0], Opaque):
        return Opaque("complex", a)
    ss = [I.to_scalar(x) for x in a]
    if any(s is None for s in ss):
        raise I.exc("TypeError", "complex() argument must be a number")
    r = ss[0] + (ss[1] * 1j if len(ss) > 1 else 0)
    return Scalar(r.t, "complex")


def py_abs(I, v):
    if isinstance(v, NUMT):
        return abs(v)
    if isinstance(v, Scalar):
        return v.absolute()
    if isinstance(v, (SymInt, BitInt)):
        if I.truth(I.int_cmp("<", v, 0)):
            return I.unop("-", v)
        return v
    if isinstance(v, InstObj):
        c = v.cls.lookup("__abs__")
        if c:
            return I.call(c[1], [v], {})
    if isinstance(v, Opaque):
        return Opaque("abs", (v,))
    if hasattr(v, "elementwise"):
        return v.elementwise(I, lambda x: py_abs(I, x))
    raise I.exc("TypeError", f"bad operand type for abs(): '{I.type_of(v).name}'")


def py_len(I, v):
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, ListObj):
        return seg_len(v.items)
    if isinstance(v, DictObj):
        return len(v.pairs())
    if isinstance(v, SetObj):
        return len(v.f["items"])
    if isinstance(v, RangeObj):
        return range_len(I, v)
    if isinstance(v, InstObj):
        c = v.cls.lookup("__len__")
        if c is not None:
            return I.call(c[1], [v], {})
        if v.tup is not None:
            return len(v.tup)
    if hasattr(v, "length"):
        return v.length(I)
    if isinstance(v, Opaque):
        return Opaque("len", (v,))
    if isinstance(v, StrT):
        n = 0
        for p in v.parts:
            if isinstance(p, str):
                n = SI.add(n, len(p))
            elif isinstance(p, Hole) and is_digit(I, p.val):
                n = SI.add(n, 1)
            elif isinstance(p, RepStr) and all(isinstance(q, str) for q in p.parts):
                n = SI.add(n, SymInt.lift(p.count).mul(len("".join(p.parts))))
            else:
                raise I.undecided("length of a template")
        return n
    raise I.exc("TypeError", f"object of type '{I.type_of(v).name}' has no len()")


def py_sort(I, vals, key=None, reverse=False):
    ks = [(v if key is None else I.call(key, [v], {})) for v in vals]
    idx = []
    rev = I.truth(reverse)
    for i in range(len(vals)):
        j = len(idx)
        while j > 0:
            a, b = ks[i], ks[idx[j - 1]]
            lt = I.truth(I.compare("<", b, a)) if rev else I.truth(I.compare("<", a, b))
            if not lt:
                break
            j -= 1
        idx.insert(j, i)
    return [vals[i] for i in idx]


def py_minmax(op):
    def f(I, a, k):
        key = k.get("key")
        default = k.get("default", NOARG)
        vals = list(a) if len(a) > 1 else I.list_values_minmax(a[0]) if hasattr(I, "list_values_minmax") else I.list_values(a[0])
        if not vals:
            if default is not NOARG:
                return default
            raise I.exc("ValueError", f"{'max' if op == '>' else 'min'}() arg is an empty sequence")
        best = vals[0]
        bk = best if key is None else I.call(key, [best], {})
        for v in vals[1:]:
            vk = v if key is None else I.call(key, [v], {})
            if I.truth(I.compare(op, vk, bk)):
                best, bk = v, vk
        return best
    return f


def py_sum(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    r = start
    for x in I.iter_items(a[0]):
        if isinstance(x, Rep):
            for b in x.block:
                if not isinstance(b, (int, SymInt)):
                    raise I.undecided("sum of a symbolic-length sequence")
            tot = 0
            for b in x.block:
                tot = SI.add(tot, b)
            if isinstance(x.count, SymInt) and isinstance(tot, SymInt):
                raise I.undecided("sum of a symbolic-length sequence")
            r = I.binop("+", r, SymInt.lift(x.count).mul(tot) if isinstance(tot, int) else SymInt.lift(tot).mul(x.count))
            continue
        if isinstance(x, AbsElems):
            raise I.undecided("sum of a sequence of unknown length")
        r = I.binop("+", r, x)
    return r


def py_next(I, a, k):
    it = a[0]
    if isinstance(it, InstObj):
        c = it.cls.lookup("__next__")
        if c is None:
            raise I.exc("TypeError", f"'{it.cls.name}' object is not an iterator")
        try:
            return I.call(c[1], [it], {})
        except PyRaise as pr:
            if pr.exc.cls.name == "StopIteration" and len(a) > 1:
                return a[1]
            raise
    if not isinstance(it, IterObj):
        from .stdmore import InfIter
        if isinstance(it, InfIter):
            return it.step(I)
        if isinstance(it, Opaque):
            return Opaque("next", (it,), I.fresh("n"))
        raise I.exc("TypeError", f"'{I.type_of(it).name}' object is not an iterator")
    I.start(it)
    p = it.f["pos"]
    items = it.f["items"]
    if p >= len(items):
        if len(a) > 1:
            return a[1]
        raise I.exc("StopIteration")
    x = items[p]
    if isinstance(x, (Rep, AbsElems)):
        if isinstance(x, Rep):
            if len(x.block) == 1 and SI.lt(0, x.count) is True:
                rest = SI.sub(x.count, 1)
                I.E.put(it.f, "items", items[:p] + [Rep(x.block, rest)] + items[p + 1:])
                return x.block[0]
        raise I.undecided("next() on a symbolic-length iterator")
    I.E.put(it.f, "pos", p + 1)
    return x


def map_items(I, items, fn):
    out = []
    for x in items:
        if isinstance(x, Rep):
            out.append(Rep([fn(y) for y in x.block], x.count))
        elif isinstance(x, AbsElems):
            out.append(AbsElems(lambda x=x: fn(x.make()), "map " + x.name))
        else:
            out.append(fn(x))
    return out


def py_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        src = a[1]
        return IterObj(None, lambda: map_items(I, I.iter_items(src), lambda x: I.call(f, [x], {})), "generator")
    return IterObj(None, lambda: [I.call(f, list(xs), {}) for xs in zip(*[I.list_values(x) for x in a[1:]])], "generator")


def zip_items(I, lists):
    """zip of segmented sequences whose segments have equal counts"""
    lists = [list(l) for l in lists]
    out = []
    while lists and all(lists):
        heads = [l[0] for l in lists]
        if any(isinstance(h, AbsElems) for h in heads):
            raise I.undecided("zip of sequences of unknown length")
        reps = [h for h in heads if isinstance(h, Rep)]
        if not reps:
            out.append(tuple(heads))
            for l in lists:
                l.pop(0)
            continue
        if len(reps) == len(heads) and all(len(h.block) == 1 and SI.eq(h.count, reps[0].count) is True for h in reps):
            out.append(Rep((tuple(h.block[0] for h in reps),), reps[0].count))
            for l in lists:
                l.pop(0)
            continue
        # peel one element off each positive repetition
        vals = []
        for l, h in zip(lists, heads):
            if isinstance(h, Rep):
                if len(h.block) == 1 and SI.lt(0, h.count) is True:
                    vals.append(h.block[0])
                    r = SI.sub(h.count, 1)
                    l[0] = Rep(h.block, r)
                    if SI.eq(r, 0) is True:
                        l.pop(0)
                    continue
                raise I.undecided("zip of segmented sequences")
            vals.append(h)
            l.pop(0)
        out.append(tuple(vals))
        if len(out) > 200:
            raise I.undecided("zip of segmented sequences")
    return out


def py_enumerate(I, a, k):
    src = a[0]
    start = a[1] if len(a) > 1 else k.get("start", 0)

    def thunk():
        out = []
        n = start
        for x in I.iter_items(src):
            if isinstance(x, Rep):
                if len(x.block) != 1:
                    raise I.undecided("enumerate of a segment")
                hi = SI.add(n, x.count)
                from .interp import GapIndex
                out.append(Rep(((GapIndex(n, hi, I.fresh("g")), x.block[0]),), x.count))
                n = hi
                continue
            if isinstance(x, AbsElems):
                raise I.undecided("enumerate of a sequence of unknown length")
            out.append((n, x))
            n = I.binop("+", n, 1)
        return out
    return IterObj(None, thunk, "generator")


def py_reversed(I, a, k):
    v = a[0]
    if isinstance(v, InstObj):
        c = v.cls.lookup("__reversed__")
        if c is not None:
            return I.call(c[1], [v], {})
    if isinstance(v, IterObj) or isinstance(v, SetObj):
        raise I.exc("TypeError", f"'{I.type_of(v).name}' object is not reversible")
    if isinstance(v, RangeObj) and isinstance(v.step, int) and abs(v.step) == 1 and not all(isinstance(x, int) for x in (v.start, v.stop)):
        if v.step == 1:
            return RangeObj(SI.sub(v.stop, 1), SI.sub(v.start, 1), -1)
        return RangeObj(SI.add(v.stop, 1), SI.add(v.start, 1), 1)
    return IterObj(rev_items(I.iter_items(v)))


def py_anyall(is_any):
    def f(I, a, k):
        src = a[0]
        items = I.iter_items(src)
        for x in items:
            if isinstance(x, Rep):
                for y in x.block:
                    if I.truth(y) == is_any:
                        if SI.lt(0, x.count) is True or I.truth(I.int_cmp(">", x.count, 0)):
                            return is_any
                continue
            if isinstance(x, AbsElems):
                if I.E.choose(2, f"{x.name} has an element") == 1:
                    if I.truth(x.make()) == is_any:
                        return is_any
                continue
            if I.truth(x) == is_any:
                return is_any
        return not is_any
    return f


def py_round(I, a, k):
    v = a[0]
    n = a[1] if len(a) > 1 else k.get("ndigits")
    if isinstance(v, (int, float)):
        return round(v) if n is None else round(v, n)
    if isinstance(v, (SymInt, BitInt)):
        return v
    if isinstance(v, Scalar):
        return Scalar.gen(Gen("fn", ("round", (_fz(v),))), ty="int" if n is None else v.ty)
    if isinstance(v, Opaque):
        return Opaque("round", tuple(a))
    raise I.exc("TypeError", "type doesn't define __round__ method")


# ---------------------------------------------------------------------- copy
class Pickled(AbsVal):
    """the bytes of a pickle: the object it was made from, as it was"""
    def __init__(self, v):
        self.v = v


class PickleMemo(dict):
    pass


def by_reference(I, v):
    """classes and functions are pickled as module and name, which must lead back to them"""
    if v.module is None:
        return
    qual = v.qual
    name = qual[len(v.module.name) + 1:] if qual.startswith(v.module.name + ".") else qual
    o = v.module
    for part in name.split("."):
        o = o.f.get(part) if isinstance(o, (ModuleObj, ClassObj)) else None
    o = o.func if isinstance(o, StaticM) else o
    if o is not v:
        local = "." in name or name == "<lambda>"
        raise I.exc("AttributeError", f"Can't pickle {v!r}: {'local object ' if local else 'not the same object as '}{qual}")


def reconstruct(I, v, memo, rec, shallow):
    """copy of an instance by the protocol of copy and pickle"""
    def own(name, cls=True):
        r = v.cls.lookup(name)
        return r[1] if r is not None else None
    for name in ("__reduce_ex__", "__reduce__"):
        f = own(name)
        if f is not None:
            r = I.call(f, [v] + ([4] if name == "__reduce_ex__" else []), {})
            if isinstance(r, str):
                return v
            r = tuple(I.list_values(r)) + (None,) * 5
            o = I.call(r[0], [rec(x) for x in I.list_values(r[1])], {})
            state, state_given = r[2], r[2] is not None
            items, pairs = r[3], r[4]
            break
    else:
        args, kw = [], {}
        f = own("__getnewargs_ex__")
        if f is not None:
            a, k = I.list_values(I.call(f, [v], {}))
            args, kw = list(I.list_values(a)), {x: y for x, y in k.pairs()}
        elif own("__getnewargs__") is not None:
            r = I.call(own("__getnewargs__"), [v], {})
            if not isinstance(r, tuple):
                raise I.exc("TypeError", f"__getnewargs__ should return a tuple, not '{I.type_of(r).name}'")
            args = list(r)
        elif v.tup is not None:
            # namedtuple: tuple(self), by the iteration of the class
            args = list(I.list_values(v))
        if isinstance(memo, PickleMemo):
            by_reference(I, v.cls)
        args = [rec(x) for x in args]
        kw = {x: rec(y) for x, y in kw.items()}
        nw = own("__new__")
        if nw is not None:
            o = I.call(nw.func if isinstance(nw, StaticM) else nw, [v.cls] + args, kw)
        else:
            base = next((b for b in v.cls.mro if b.construct is not None), None) if v.tup is not None else None
            if base is not None:
                o = base.construct(I, v.cls, args, kw)
            else:
                o = InstObj(v.cls)
        g = own("__getstate__")
        state = I.call(g, [v], {}) if g is not None else (mkdict(I, dict(v.f)) if v.f else None)
        state_given, items, pairs = state is not None, None, None
    memo[v.oid] = o
    if state_given:
        if not shallow:
            state = rec(state)
        # an attribute of the new instance, which may be looked up by __getattr__
        try:
            ss = I.getattr(o, "__setstate__")
        except PyRaise as pr:
            if I.builtins["AttributeError"] not in pr.exc.cls.mro:
                raise
            ss = None
        if ss is not None:
            I.call(ss, [state], {})
        else:
            if isinstance(state, tuple) and len(state) == 2 and isinstance(state[1], DictObj):
                state = state[1] if state[0] is None else state[0]
            for x, y in state.pairs():
                o.f[x] = y
    for x in I.list_values(items) if items is not None else ():
        I.call_method(o, "append", rec(x))
    for x in I.list_values(pairs) if pairs is not None else ():
        x = I.list_values(x)
        I.setitem(o, rec(x[0]), rec(x[1]))
    return o


def deepcopy(I, v, memo=None, shallow=False):
    memo = {} if memo is None else memo
    if isinstance(memo, PickleMemo):
        if isinstance(v, (FuncObj, ClassObj)):
            by_reference(I, v)
        if isinstance(v, (ModuleObj, ExtModule)):
            raise I.exc("TypeError", "cannot pickle 'module' object")
    if v is None or isinstance(v, CONC_T) or isinstance(v, (Scalar, SymInt, BitInt, FuncObj, Native, ClassObj, ModuleObj, ExtModule, SliceObj, StrT, RangeObj, MemoFn)):
        return v
    if isinstance(v, tuple):
        return v if shallow else tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, Obj) and v.oid in memo and not shallow:
        return memo[v.oid]
    rec = (lambda x: x) if shallow else (lambda x: deepcopy(I, x, memo))
    if isinstance(v, InstObj):
        c = v.cls.lookup("__copy__" if shallow else "__deepcopy__") if not isinstance(memo, PickleMemo) else None
        if c is not None:
            return I.call(c[1], [v] if shallow else [v, mkdict(I, {})], {})
        return reconstruct(I, v, memo, rec, shallow)
    if isinstance(v, ListObj):
        o = ListObj([])
        memo[v.oid] = o
        o.f["items"] = map_items(I, v.items, rec)
        return o
    if isinstance(v, DictObj):
        o = DictObj(v.cls, v.factory)
        memo[v.oid] = o
        o.f["items"] = {h: [(rec(k), rec(x)) for k, x in b] for h, b in v.f["items"].items()}
        return o
    if isinstance(v, SetObj):
        o = SetObj({h: rec(x) for h, x in v.f["items"].items()}, v.frozen)
        memo[v.oid] = o
        return o
    if isinstance(v, Bound):
        return Bound(v.func, rec(v.self_))
    if isinstance(v, Partial):
        return Partial(v.func, tuple(rec(x) for x in v.args), {k: rec(x) for k, x in v.kwargs.items()})
    if hasattr(v, "deepcopy"):
        o = v.deepcopy(I)
        memo[v.oid] = o
        return o
    if isinstance(v, IterObj):
        raise I.exc("TypeError", "cannot pickle 'generator' object")
    if isinstance(v, AbsVal):
        return v
    raise I.undecided(f"copy of {v!r}")


# ---------------------------------------------------------------------- namedtuple
def make_namedtuple(I, name, fields, defaults):
    fields = tuple(fields)

    def construct(I, c, a, k):
        fs = c.nt_fields
        if len(a) > len(fs):
            raise I.exc("TypeError", f"__new__() takes {len(fs) + 1} positional arguments but {len(a) + 1} were given")
        vals = list(a)
        for n in fs[len(a):]:
            if n in k:
                vals.append(k[n])
            elif n in defaults:
                vals.append(defaults[n])
            else:
                raise I.exc("TypeError", f"__new__() missing 1 required positional argument: '{n}'")
        for n in k:
            if n not in fs or n in fs[:len(a)]:
                raise I.exc("TypeError", f"__new__() got an unexpected keyword argument '{n}'")
        return InstObj(c, None, tuple(vals))
    c = ClassObj(name, [I.bt["tuple_base"]])
    c.nt_fields = fields
    c.construct = construct
    return c


# ---------------------------------------------------------------------- installation
EXC = {"BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
       "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError", "AssertionError": "Exception", "AttributeError": "Exception",
       "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError",
       "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError", "NotImplementedError": "RuntimeError",
       "RuntimeError": "Exception", "RecursionError": "RuntimeError", "StopIteration": "Exception", "TypeError": "Exception",
       "ValueError": "Exception", "UnicodeError": "ValueError", "OSError": "Exception", "IOError": "Exception", "FileNotFoundError": "OSError",
       "Warning": "Exception", "DeprecationWarning": "Warning", "UserWarning": "Warning", "FutureWarning": "Warning",
       "RuntimeWarning": "Warning", "PendingDeprecationWarning": "Warning", "SyntaxWarning": "Warning", "ImportWarning": "Warning", "KeyboardInterrupt": "BaseException",
       "SystemExit": "BaseException", "GeneratorExit": "BaseException", "MemoryError": "Exception", "EOFError": "Exception", "TimeoutError": "OSError",
       "ConnectionError": "OSError", "PermissionError": "OSError", "NotADirectoryError": "OSError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError", "BufferError": "Exception"}


def install(I):
    I.builtins["__import__"] = Native("__import__", lambda I, a, k: import_fn(I, a[:1], {}))
    bt, B = I.bt, I.builtins
    obj = ClassObj("object")
    obj.pytype = object
    bt["object"] = obj
    B["object"] = obj
    obj.construct = None

    def cls(name, py=None, base=obj, construct=None, check=None, builtin=True):
        c = ClassObj(name, [base], pytype=py, check=check, construct=construct)
        bt[name] = c
        if builtin:
            B[name] = c
        return c

    def mkexc(n):
        if n not in bt:
            b = EXC[n]
            if b:
                mkexc(b)
            bt[n] = B[n] = ClassObj(n, [bt[b] if b else obj])
    for n in EXC:
        mkexc(n)

    def exc_construct(I, c, a, k):
        return InstObj(c, {"args": tuple(a)})
    bt["BaseException"].construct = exc_construct
    for n in EXC:
        bt[n].construct = None
    bt["BaseException"].construct = exc_construct

    def base_exc_init(I, a, k):
        I.E.put(a[0].f, "args", tuple(a[1:]))
    bt["BaseException"].f["__init__"] = Native("BaseException.__init__", base_exc_init)
    B["EnvironmentError"] = bt["OSError"]

    def type_construct(I, c, a, k):
        if len(a) == 1:
            return I.type_of(a[0])
        ns = {kk: v for kk, v in a[2].pairs()}
        return I.make_class(a[0], I.list_values(a[1]), ns, None, None)
    cls("type", type, construct=type_construct, check=lambda I, v: isinstance(v, ClassObj))

    integer = cls("int", int, construct=lambda I, c, a, k: 0 if not a else to_int(I, a[0], a[1] if len(a) > 1 else k.get("base")))
    cls("bool", bool, base=integer, construct=lambda I, c, a, k: bool(a) and (a[0] if isinstance(a[0], Cond) else I.truth(a[0])))
    cls("float", float, construct=lambda I, c, a, k: to_float(I, a[0]) if a else 0.0)
    cls("complex", complex, construct=lambda I, c, a, k: to_complex(I, list(a) + ([k["imag"]] if "imag" in k else [])))
    cls("str", str, construct=lambda I, c, a, k: py_str(I, a[0]) if a else "")
    cls("bytes", bytes, construct=lambda I, c, a, k: bytes(*[lower_py(x) for x in a]))

    def tuple_construct(I, c, a, k):
        if not a:
            vals = ()
        elif isinstance(a[0], tuple):
            vals = a[0]
        else:
            items = I.iter_items(a[0])
            if is_seg(items):
                from .interp import Undecided as U
                raise I.undecided("tuple of a symbolic-length sequence")
            vals = tuple(items)
        if c is bt["tuple"]:
            return vals
        return InstObj(c, None, vals)
    cls("tuple", tuple, construct=tuple_construct)
    bt["tuple_base"] = bt["tuple"]
    cls("list", list, construct=lambda I, c, a, k: ListObj(I.iter_items(a[0]) if a else []))

    def dict_construct(I, c, a, k):
        d = DictObj(c)
        if a:
            for kk, vv in pairs_of(I, a[0]):
                I.dict_set(d, kk, vv)
        for kk, vv in k.items():
            I.dict_set(d, kk, vv)
        return d
    dct = cls("dict", dict, construct=dict_construct)

    def counter_construct(I, c, a, k):
        d = DictObj(c)
        if a and a[0] is not None:
            counter_add(I, d, a[0])
        for kk, vv in k.items():
            I.dict_set(d, kk, vv)
        return d
    cls("Counter", None, base=dct, construct=counter_construct, builtin=False)

    def dd_construct(I, c, a, k):
        d = dict_construct(I, c, a[1:], k)
        d.factory = a[0] if a else None
        return d
    cls("defaultdict", None, base=dct, construct=dd_construct, builtin=False)
    cls("OrderedDict", None, base=dct, construct=dict_construct, builtin=False)
    cls("set", set, construct=lambda I, c, a, k: mkset(I, I.iter_items(a[0]) if a else []))
    cls("frozenset", frozenset, construct=lambda I, c, a, k: mkset(I, I.iter_items(a[0]) if a else [], True))
    cls("NoneType", type(None), builtin=False)
    for n in ("function", "method", "generator", "iterator", "module", "dictview"):
        cls(n, builtin=False)
    cls("slice", slice, construct=lambda I, c, a, k: SliceObj(None, a[0], None) if len(a) == 1 else SliceObj(a[0], a[1], a[2] if len(a) > 2 else None))

    def range_construct(I, c, a, k):
        a = [idx_of(I, x) for x in a]
        if len(a) == 1:
            return RangeObj(0, a[0], 1)
        if len(a) == 3 and a[2] == 0:
            raise I.exc("ValueError", "range() arg 3 must not be zero")
        return RangeObj(a[0], a[1], a[2] if len(a) > 2 else 1)
    cls("range", range, construct=range_construct)
    cls("property", property, construct=lambda I, c, a, k: PropertyObj(*(list(a) + [None] * 3)[:3]))
    cls("sympyExpr", builtin=False)
    cls("NamedTuple", builtin=False)
    I.opaque_cls = ClassObj("opaque", [obj])

    # staticmethod / classmethod
    cls("staticmethod", staticmethod, construct=lambda I, c, a, k: StaticM(a[0]))
    cls("classmethod", classmethod, construct=lambda I, c, a, k: ClassM(a[0]))
    cls("enumerate", None, construct=lambda I, c, a, k: py_enumerate(I, a, k))
    cls("map", None, construct=lambda I, c, a, k: py_map(I, a, k))

    def zip_c(I, c, a, k):
        srcs = list(a)
        def thunk():
            from .stdmore import InfIter, steps
            its = [x for x in srcs if isinstance(x, IterObj)]
            if any(isinstance(x, InfIter) for x in srcs) or len({id(x) for x in its}) < len(its):
                # endless iterators, or one iterator in several places: round by round
                its = [x if isinstance(x, (IterObj, InfIter)) else IterObj(I.iter_items(x)) for x in srcs]
                if all(isinstance(x, InfIter) for x in its):
                    raise I.undecided("zip of endless iterators")
                out = []
                while True:
                    row = []
                    for x in its:
                        got = steps(I, x, 1)
                        row += got
                        if not got:
                            break
                    if len(row) < len(its):
                        return out
                    out.append(tuple(row))
            ls = [I.iter_items(x) for x in srcs]
            if k.get("strict") and all(not is_seg(l) for l in ls) and len({len(l) for l in ls}) > 1:
                raise I.exc("ValueError", "zip() arguments have different lengths")
            return zip_items(I, ls)
        return IterObj(None, thunk, "generator")
    cls("zip", None, construct=zip_c)

    def filt(I, c, a, k):
        def thunk():
            out = []
            for x in I.list_values(a[1]):
                if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                    out.append(x)
            return out
        return IterObj(None, thunk, "generator")
    cls("filter", None, construct=filt)
    cls("reversed", None, construct=lambda I, c, a, k: py_reversed(I, a, k))

    def fn(name):
        def deco(f):
            B[name] = Native(name, f)
            return f
        return deco

    B["None"], B["True"], B["False"] = None, True, False
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    fn("len")(lambda I, a, k: py_len(I, a[0]))
    fn("abs")(lambda I, a, k: py_abs(I, a[0]))
    fn("repr")(lambda I, a, k: py_repr(I, a[0]))
    fn("isinstance")(lambda I, a, k: I.isinstance_(a[0], a[1]))
    fn("sorted")(lambda I, a, k: ListObj(py_sort(I, I.list_values(a[0]), k.get("key"), k.get("reverse", False))))
    fn("min")(py_minmax("<"))
    fn("max")(py_minmax(">"))
    fn("sum")(py_sum)
    fn("any")(py_anyall(True))
    fn("all")(py_anyall(False))
    fn("next")(py_next)
    fn("round")(py_round)
    fn("print")(lambda I, a, k: I.event("print"))
    fn("id")(lambda I, a, k: HashVal(("id", I.hkey(a[0]) if not isinstance(a[0], Obj) else a[0].oid)))
    fn("hash")(lambda I, a, k: HashVal(I.hkey(a[0])))
    fn("callable")(lambda I, a, k: callable_(I, a[0]))
    fn("format")(lambda I, a, k: fmt_value(I, a[0], a[1] if len(a) > 1 else "", -1))
    fn("pow")(lambda I, a, k: I.binop("**", a[0], a[1]) if len(a) == 2 else pow(*a))
    fn("divmod")(lambda I, a, k: (I.binop("//", a[0], a[1]), I.binop("%", a[0], a[1])))
    fn("ord")(lambda I, a, k: ord(a[0]))
    fn("chr")(lambda I, a, k: chr(a[0]))
    fn("bin")(lambda I, a, k: bin(a[0]) if isinstance(a[0], int) else StrT([Hole(a[0], "#b")]))
    fn("hex")(lambda I, a, k: hex(a[0]) if isinstance(a[0], int) else StrT([Hole(a[0], "#x")]))
    fn("vars")(lambda I, a, k: dict_view(I, a[0]))
    fn("input")(lambda I, a, k: Opaque("input", (), I.fresh("in")))
    fn("open")(lambda I, a, k: I.opaque_call(Opaque("open"), a, k))

    @fn("iter")
    def _iter(I, a, k):
        v = a[0]
        if isinstance(v, IterObj):
            return v
        if isinstance(v, InstObj) and v.cls.lookup("__iter__"):
            return I.call(v.cls.lookup("__iter__")[1], [v], {})
        return IterObj(I.iter_items(v))

    @fn("getattr")
    def _getattr(I, a, k):
        if not isinstance(a[1], str):
            raise I.undecided("getattr with a computed name")
        return I.getattr(a[0], a[1], a[2]) if len(a) > 2 else I.getattr(a[0], a[1])

    @fn("hasattr")
    def _hasattr(I, a, k):
        if not isinstance(a[1], str):
            raise I.undecided("hasattr with a computed name")
        try:
            I.getattr(a[0], a[1])
            return True
        except PyRaise as pr:
            if B["AttributeError"] in pr.exc.cls.mro:
                return False
            raise

    @fn("setattr")
    def _setattr(I, a, k):
        if not isinstance(a[1], str):
            raise I.undecided("setattr with a computed name")
        I.setattr(a[0], a[1], a[2])

    @fn("delattr")
    def _delattr(I, a, k):
        if isinstance(a[0], Obj) and a[1] in a[0].f:
            I.E.rm(a[0].f, a[1])
        else:
            raise I.exc("AttributeError", a[1])

    @fn("issubclass")
    def _issub(I, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        if not isinstance(a[0], ClassObj):
            raise I.exc("TypeError", "issubclass() arg 1 must be a class")
        return any(c in a[0].mro for c in cs)

    @fn("super")
    def _super(I, a, k):
        from .interp import SuperVal
        return SuperVal(a[0], a[1])

    @fn("dir")
    def _dir(I, a, k):
        o = a[0]
        names = set()
        if isinstance(o, InstObj):
            names |= set(o.f)
            for c in o.cls.mro:
                names |= set(c.f)
        elif isinstance(o, ClassObj):
            for c in o.mro:
                names |= set(c.f)
        elif isinstance(o, ModuleObj):
            names |= set(o.f)
        else:
            raise I.undecided("dir()")
        return ListObj(sorted(names))


def callable_(I, v):
    if isinstance(v, (FuncObj, Native, Bound, Partial, ClassObj, MemoFn)):
        return True
    if isinstance(v, InstObj):
        return v.cls.lookup("__call__") is not None
    if isinstance(v, Opaque):
        return Cond(("callable", v.k), f"callable({v})")
    return hasattr(v, "call") and not isinstance(v, (StrT, HashVal))


# ---------------------------------------------------------------------- standard library
def ext_attr(I, m, name):
    key = (m.name, name)
    cache = I.ext.setdefault("#attrs", {})
    if key in cache:
        return cache[key]
    v = I.overrides[key] if key in I.overrides else _ext_attr(I, m.name, name)
    cache[key] = v
    return v


MATHC = {"pi": math.pi, "e": math.e, "tau": math.tau, "inf": math.inf, "nan": math.nan}


def math_fn(I, name, complexp=False):
    mod = cmath if complexp else math

    def f(I, a, k):
        if all(isinstance(x, NUMT) for x in a):
            try:
                return getattr(mod, name)(*a)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError) as ex:
                raise I.exc(type(ex).__name__, str(ex))
        if any(isinstance(x, Opaque) for x in a):
            return Opaque(f"math.{name}", tuple(a))
        ss = [I.to_scalar(x) for x in a]
        if any(s is None for s in ss):
            raise I.exc("TypeError", "must be real number")
        if not complexp and any(s.ty == "complex" and not s.is_real() for s in ss):
            raise I.exc("TypeError", "must be real number, not complex")
        if name in ("cos", "sin", "exp", "sqrt"):
            r = apply_fn(name, ss)
            return Scalar(r.t, "complex" if complexp else "float")
        if name == "fabs":
            return ss[0].absolute()
        if name == "pow":
            return I.binop("**", a[0], a[1])
        if name in ("floor", "ceil", "trunc") and I.is_int(a[0]):
            return a[0]
        r = apply_fn(name, ss)
        return r
    return f


def rand_scalar(I, tag="U"):
    s = Scalar.gen(Gen("sym", (tag, I.fresh("u")), True, True))
    I.event("random", s, I.where())
    return s


def _ext_attr(I, mod, name):
    bt = I.bt
    full = mod + "." + name
    from . import stdmore
    r = stdmore.ext_more(I, mod, name)
    if r is not None:
        return r
    if mod in ("math", "cmath"):
        if name in MATHC:
            return MATHC[name]
        if name == "phase":
            return Native(full, math_fn(I, "phase", True))
        if mod == "math" and name in ("gcd", "lcm", "factorial", "comb", "isclose", "prod", "perm", "isqrt"):
            def fold(I, a, k):
                if name == "prod":
                    r = k.get("start", 1)
                    for x in I.list_values(a[0]):
                        r = I.binop("*", r, x)
                    return r
                try:
                    return getattr(math, name)(*a, **k)
                except TypeError:
                    return Opaque(full, tuple(a))
            return Native(full, fold)
        if hasattr(cmath if mod == "cmath" else math, name):
            return Native(full, math_fn(I, name, mod == "cmath"))
    if mod == "random":
        if name == "random":
            return Native(full, lambda I, a, k: rand_scalar(I))
        if name == "uniform":
            def uni(I, a, k):
                return I.binop("+", a[0], I.binop("*", I.binop("-", a[1], a[0]), rand_scalar(I)))
            return Native(full, uni)
        return Native(full, lambda I, a, k: I.opaque_random(full, a, k) if hasattr(I, "opaque_random") else Opaque(full, tuple(a), I.fresh("r")))
    if mod == "warnings":
        if name == "warn":
            def warn(I, a, k):
                cat = a[1] if len(a) > 1 else k.get("category")
                I.event("warn", cat.name if isinstance(cat, ClassObj) else "UserWarning", a[0])
            return Native(full, warn)
        if name == "catch_warnings":
            def cw(I, a, k):
                c = ClassObj("catch_warnings", [bt["object"]])
                c.f["__enter__"] = Native("__enter__", lambda I, a, k: None)
                c.f["__exit__"] = Native("__exit__", lambda I, a, k: None)
                return InstObj(c)
            return Native(full, cw)
        return Native(full, lambda I, a, k: None)
    if mod == "collections":
        if name in ("Counter", "defaultdict", "OrderedDict"):
            return bt[name]
        if name == "namedtuple":
            def nt(I, a, k):
                fs = a[1].replace(",", " ").split() if isinstance(a[1], str) else I.list_values(a[1])
                dv = I.list_values(k["defaults"]) if k.get("defaults") is not None else []
                return make_namedtuple(I, a[0], fs, dict(zip(fs[len(fs) - len(dv):], dv)))
            return Native(full, nt)
        if name == "deque":
            def deque(I, a, k):
                l = I.iter_items(a[0]) if a else []
                if (a[1] if len(a) > 1 else k.get("maxlen")) is not None:
                    raise I.undecided("deque with a maximal length")
                return ListObj(l)
            return Native(full, deque)
        if name == "ChainMap":
            pass
        if name == "abc":
            return I.ext_module("collections.abc")
    if mod == "functools":
        if name == "partial":
            def part(I, a, k):
                return Partial(a[0], tuple(a[1:]), dict(k))
            return Native(full, part)
        if name == "reduce":
            def red(I, a, k):
                items = I.iter_items(a[1])
                if is_seg(items):
                    return seg_reduce(I, a[0], items, a[2] if len(a) > 2 else NOARG)
                if len(a) > 2:
                    acc = a[2]
                else:
                    if not items:
                        raise I.exc("TypeError", "reduce() of empty iterable with no initial value")
                    acc, items = items[0], items[1:]
                for x in items:
                    acc = I.call(a[0], [acc, x], {})
                return acc
            return Native(full, red)
        if name in ("wraps", "update_wrapper"):
            return Native(full, lambda I, a, k: Native("wraps", lambda I, b, kk: b[0]) if name == "wraps" else a[0])
        if name in ("lru_cache", "cache"):
            def lru(I, a, k):
                if len(a) == 1 and isinstance(a[0], (FuncObj, Native)):
                    return memo_fn(I, a[0])
                return Native("lru", lambda I, b, kk: memo_fn(I, b[0]))
            return Native(full, lru)
        if name == "total_ordering":
            return Native(full, lambda I, a, k: a[0])
        if name == "cached_property":
            def cprop(I, a, k):
                key = "#cached:" + I.fresh("p")

                def get(I, b, kk):
                    if key not in b[0].f:
                        I.E.put(b[0].f, key, I.call(a[0], [b[0]], {}))
                    return b[0].f[key]
                return PropertyObj(Native("cached_property", get))
            return Native(full, cprop)
    if mod == "operator":
        ops = {"mul": "*", "add": "+", "sub": "-", "truediv": "/", "and_": "&", "or_": "|", "xor": "^", "matmul": "@", "pow": "**", "mod": "%", "floordiv": "//", "lshift": "<<", "rshift": ">>"}
        if name in ops:
            return Native(full, lambda I, a, k: I.binop(ops[name], a[0], a[1]))
        cmps = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
        if name in cmps:
            return Native(full, lambda I, a, k: I.compare(cmps[name], a[0], a[1]))
        if name == "index":
            return Native(full, lambda I, a, k: idx_of(I, a[0]))
        if name == "neg":
            return Native(full, lambda I, a, k: I.unop("-", a[0]))
        if name == "not_":
            return Native(full, lambda I, a, k: not I.truth(a[0]))
        if name == "attrgetter":
            return Native(full, lambda I, a, k: Native("attrgetter", lambda I, b, kk: I.getattr(b[0], a[0]) if len(a) == 1 else tuple(I.getattr(b[0], x) for x in a)))
        if name == "itemgetter":
            return Native(full, lambda I, a, k: Native("itemgetter", lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a)))
    if mod == "itertools" or mod == "itertools.chain":
        r = itertools_fn(I, name)
        if r is not None:
            return r
    if mod == "pickle":
        if name == "dumps":
            def dumps(I, a, k):
                proto = a[1] if len(a) > 1 else k.get("protocol")
                if proto is not None and not (isinstance(proto, int) and proto in (-1, 2, 3, 4, 5)):
                    raise I.undecided("this pickle protocol is not modelled")
                return Pickled(deepcopy(I, a[0], PickleMemo()))
            return Native(full, dumps)
        if name == "loads":
            return Native(full, lambda I, a, k: deepcopy(I, a[0].v, PickleMemo()))
        if name in ("HIGHEST_PROTOCOL", "DEFAULT_PROTOCOL"):
            return 5 if name[0] == "H" else 4
    if mod == "copy":
        if name == "deepcopy":
            return Native(full, lambda I, a, k: deepcopy(I, a[0]))
        if name == "copy":
            return Native(full, lambda I, a, k: deepcopy(I, a[0], None, True))
    if mod == "abc":
        if name == "ABC":
            return ClassObj("ABC", [bt["object"]])
        if name == "ABCMeta":
            return bt["type"]
        return Native(full, lambda I, a, k: a[0])
    if mod == "typing":
        if name == "NamedTuple":
            return bt["NamedTuple"]
        if name == "TYPE_CHECKING":
            return False
        if name in ("cast",):
            return Native(full, lambda I, a, k: a[1])
        if name in ("overload", "no_type_check", "final"):
            return Native(full, lambda I, a, k: a[0])
        return TypingVal(full)
    if mod == "numbers":
        def mk(test):
            return ClassObj(name, [bt["object"]], check=test)

        def is_n(I, v):
            if isinstance(v, Opaque):
                return Cond(("isinst", v.k, name), f"isinstance({v!r}, {name})")
            if isinstance(v, Scalar):
                if v.ty == "sympy":
                    return v.is_const()
                if name == "Integral":
                    return v.ty == "int"
                return True if name in ("Number", "Complex") else v.ty != "complex"
            if isinstance(v, (int, SymInt, BitInt)):
                return True
            if isinstance(v, Cond):
                return True
            from .interp import GapIndex
            if isinstance(v, GapIndex):
                return True
            if isinstance(v, float):
                return name in ("Number", "Complex", "Real")
            if isinstance(v, complex):
                return name in ("Number", "Complex")
            return False
        return mk(is_n)
    if mod == "collections.abc":
        def chk(I, v):
            if isinstance(v, Opaque):
                return Cond(("isinst", v.k, name), f"isinstance({v!r}, {name})")
            if name == "Callable":
                return callable_(I, v)
            if name in ("Iterable", "Container", "Collection", "Sized", "Sequence", "Mapping", "MutableMapping", "MutableSequence", "Set", "Iterator", "Generator", "Hashable"):
                if isinstance(v, (str, tuple, StrT)):
                    return name in ("Iterable", "Container", "Collection", "Sized", "Sequence", "Hashable")
                if isinstance(v, ListObj):
                    return name in ("Iterable", "Container", "Collection", "Sized", "Sequence", "MutableSequence")
                if isinstance(v, DictObj):
                    return name in ("Iterable", "Container", "Collection", "Sized", "Mapping", "MutableMapping")
                if isinstance(v, SetObj):
                    return name in ("Iterable", "Container", "Collection", "Sized", "Set")
                if isinstance(v, RangeObj):
                    return name in ("Iterable", "Container", "Collection", "Sized", "Sequence", "Hashable")
                if isinstance(v, IterObj):
                    return name in ("Iterable", "Iterator", "Hashable") or name == "Generator" and v.kind == "generator"
                if isinstance(v, InstObj):
                    if v.tup is not None and name in ("Sequence", "Iterable", "Sized", "Collection", "Container", "Hashable"):
                        return True
                    need_ = {"Iterable": ["__iter__"], "Container": ["__contains__"], "Sized": ["__len__"], "Iterator": ["__next__", "__iter__"], "Hashable": ["__hash__"], "Collection": ["__iter__", "__len__", "__contains__"]}.get(name)
                    return need_ is not None and all(v.cls.lookup(n) for n in need_)
                if hasattr(v, "iterate") and not isinstance(v, AbsVal):
                    return name in ("Iterable", "Sized")
                return name == "Hashable"
            raise I.undecided(f"isinstance with collections.abc.{name}")
        return ClassObj(name, [bt["object"]], check=chk)
    if mod == "bisect":
        def bis(I, a, k):
            xs, x = I.list_values(a[0]), a[1]
            if "key" in k:
                raise I.undecided("bisect with key")
            i = lo = a[2] if len(a) > 2 else k.get("lo", 0)
            hi = a[3] if len(a) > 3 else k.get("hi")
            if not isinstance(lo, int) or not (hi is None or isinstance(hi, int)):
                raise I.undecided("bisect with abstract bounds")
            left = name.endswith("left")
            for y in xs[lo:hi]:
                if (I.truth(I.compare("<", y, x)) if left else not I.truth(I.compare("<", x, y))):
                    i += 1
                else:
                    break
            return i
        if name in ("bisect_left", "bisect_right", "bisect"):
            return Native(full, bis)
    if mod == "types":
        if name in ("FunctionType", "LambdaType"):
            return bt["function"]
        if name == "MappingProxyType":
            return Native(full, lambda I, a, k: a[0])
    if mod == "importlib":
        if name == "util":
            return I.ext_module("importlib.util")
        if name in ("import_module", "__import__"):
            return Native(full, import_fn)
    if mod == "importlib.util" and name == "find_spec":
        def spec(I, a, k):
            if not isinstance(a[0], str):
                raise I.undecided("find_spec of an unknown name")
            return None if a[0].split(".")[0] in I.missing else Opaque(full, (a[0],))
        return Native(full, spec)
    if mod == "sys" and name == "modules":
        return SysModules("sys.modules")
    if mod == "enum" or mod == "dataclasses":
        raise I.undecided(f"{full}")
    if mod == "builtins":
        return I.builtins[name]
    if mod == "contextlib":
        raise I.undecided(full)
    if mod == "fractions" or mod == "decimal":
        return Opaque(full)
    if mod.split(".")[0] in ("numpy", "numba", "scipy"):
        from . import npmodel
        return npmodel.ext_attr(I, mod, name)
    if mod.split(".")[0] == "sympy":
        from . import symodel
        return symodel.ext_attr(I, mod, name)
    return Opaque(full)


def import_fn(I, a, k):
    if not isinstance(a[0], str):
        raise I.undecided("import of an unknown name")
    name = a[0]
    if name.startswith("."):
        pkg = a[1] if len(a) > 1 else k.get("package")
        n = len(name) - len(name.lstrip("."))
        for _ in range(n - 1):
            pkg = pkg.rpartition(".")[0]
        name = pkg + "." + name.lstrip(".")
    return I.import_module(name)


class SysModules(Opaque):
    def getitem(self, I, key):
        if key in I.modules:
            return I.modules[key]
        if key in I.ext:
            return I.ext[key]
        raise I.exc("KeyError", key)

    def contains(self, I, key):
        return key in I.modules or key in I.ext


class MemoFn(Obj):
    __slots__ = ()
    binds = True
    """functools.lru_cache / cache: remembered results are the same objects"""
    def __init__(self, I, f):
        super().__init__({"cache": DictObj(I.bt["dict"])})
        self.f["func"] = f

    def pycls(self, I):
        return I.bt["function"]

    def __repr__(self):
        return f"<cached {self.f['func']!r}>"

    def call(self, I, a, k):
        key = (tuple(a), tuple((n, k[n]) for n in k))
        d = self.f["cache"]
        r = I.dict_get(d, key)
        if r is not None:
            return r[0]
        v = I.call(self.f["func"], list(a), k)
        if isinstance(v, IterObj):
            I.start(v)
        I.dict_set(d, key, v)
        return v

    def getattr(self, I, name):
        if name == "cache_clear":
            return Native(name, lambda I, a, k: I.E.put(self.f["cache"].f, "items", {}))
        if name in ("__wrapped__", "func"):
            return self.f["func"]
        return I.getattr(self.f["func"], name)


def memo_fn(I, f):
    return MemoFn(I, f)


class TypingVal(Opaque):
    def __init__(self, name):
        super().__init__(name)

    def getitem(self, I, key):
        return self

    def call(self, I, args, kwargs):
        return self

    def getattr(self, I, name):
        return self

    def binop(self, I, op, other, refl):
        return self


def seg_reduce(I, f, items, init):
    """reduce over a segmented sequence: a generic segment must act by a value that absorbs repetition"""
    if init is NOARG:
        if isinstance(items[0], Rep) or isinstance(items[0], AbsElems):
            # the model of the operand decides how a repeated factor combines
            acc = None
        else:
            acc, items = items[0], items[1:]
    else:
        acc = init
    from . import symodel
    return symodel.seg_reduce(I, f, acc, items)


def itertools_fn(I, name):
    def it(fn):
        return Native("itertools." + name, fn)
    if name == "product":
        def prod(I, a, k):
            rep = k.get("repeat", 1)
            ls = [I.list_values(x) for x in a]
            if not isinstance(rep, int):
                raise I.undecided("product(repeat=symbolic)")
            def thunk():
                n = 1
                for l in ls * rep:
                    n *= len(l)
                if n > I.MAXITER:
                    raise I.undecided("itertools.product too long")
                return [tuple(x) for x in itertools.product(*(ls * rep))]
            return IterObj(None, thunk)
        return it(prod)
    if name in ("combinations", "permutations", "combinations_with_replacement"):
        def comb(I, a, k):
            l = I.list_values(a[0])
            return IterObj([tuple(x) for x in getattr(itertools, name)(l, *(a[1:]))])
        return it(comb)
    if name == "chain":
        class Chain(Native):
            pass
        def from_iterable(I, a, k):
            def thunk():
                out = []
                for x in I.list_values(a[0]):
                    out += I.iter_items(x)
                return out
            return IterObj(None, thunk)
        return Native("itertools.chain", lambda I, a, k: IterObj(None, lambda: [y for x in a for y in I.iter_items(x)]),
                      {"from_iterable": Native("from_iterable", from_iterable)})
    if name == "repeat":
        def rep(I, a, k):
            n = a[1] if len(a) > 1 else k.get("times")
            if n is None:
                return InfRepeat(a[0])
            return IterObj([a[0]] * n if isinstance(n, int) else [Rep((a[0],), n)])
        return it(rep)
    if name == "islice":
        def isl(I, a, k):
            args = [x for x in a[1:]]
            if isinstance(a[0], IterObj) and all(isinstance(x, int) or x is None for x in args):
                if len(args) == 1 and isinstance(args[0], int):
                    out = []
                    for _ in range(args[0]):
                        try:
                            out.append(py_next(I, [a[0]], {}))
                        except PyRaise as pr:
                            if pr.exc.cls.name == "StopIteration":
                                break
                            raise
                    return IterObj(out)
            l = I.list_values(a[0])
            return IterObj(list(itertools.islice(l, *args)))
        return it(isl)
    if name == "accumulate":
        def acc(I, a, k):
            out = []
            cur = NOARG
            for x in I.list_values(a[0]):
                cur = x if cur is NOARG else (I.call(a[1], [cur, x], {}) if len(a) > 1 else I.binop("+", cur, x))
                out.append(cur)
            return IterObj(out)
        return it(acc)
    if name == "starmap":
        return it(lambda I, a, k: IterObj([I.call(a[0], I.list_values(x), {}) for x in I.list_values(a[1])]))
    if name == "zip_longest":
        def zl(I, a, k):
            return IterObj([tuple(x) for x in itertools.zip_longest(*[I.list_values(x) for x in a], fillvalue=k.get("fillvalue"))])
        return it(zl)
    if name == "groupby":
        def gb(I, a, k):
            key = a[1] if len(a) > 1 else k.get("key")
            out = []
            ck = NOARG
            for x in I.list_values(a[0]):
                kk = x if key is None else I.call(key, [x], {})
                if ck is not NOARG and I.truth(I.compare("==", kk, ck)):
                    out[-1][1].append(x)
                else:
                    out.append((kk, [x]))
                    ck = kk
            return IterObj([(kk, IterObj(g)) for kk, g in out])
        return it(gb)
    if name == "tee":
        def tee(I, a, k):
            items = I.iter_items(a[0])
            return tuple(IterObj(list(items)) for _ in range(a[1] if len(a) > 1 else 2))
        return it(tee)
    if name == "count":
        return it(lambda I, a, k: InfCount(a[0] if a else 0, a[1] if len(a) > 1 else 1))
    if name in ("takewhile", "dropwhile", "filterfalse"):
        def tw(I, a, k):
            out = []
            l = I.list_values(a[1])
            on = False
            for i, x in enumerate(l):
                t = I.truth(I.call(a[0], [x], {}))
                if name == "filterfalse":
                    if not t:
                        out.append(x)
                elif name == "takewhile":
                    if not t:
                        break
                    out.append(x)
                else:
                    on = on or not t
                    if on:
                        out.append(x)
            return IterObj(out)
        return it(tw)
    return None


class InfRepeat(AbsVal):
    def __init__(self, v):
        self.v = v


class InfCount(AbsVal):
    def __init__(self, start, step):
        self.start, self.step = start, step
