"""Abstract interpreter for Python syntax trees."""
import ast
import operator
import os

from .core import *
from .errors import *
from . import symint as SI
from .scalar import Scalar, Gen

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "<<": "lshift", ">>": "rshift", "&": "and", "|": "or", "^": "xor", "@": "matmul"}
PYOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
        "|": operator.or_, "^": operator.xor}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CMPDUNDER = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
PYCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
NUM = (int, float, complex)
CONC = (int, float, complex, str, bytes, bool, type(None))


class Frame:
    __slots__ = ("vars", "parent", "module", "func", "globals_", "nonlocals", "defcls", "args", "is_class", "yields", "qual", "locals_")

    def __init__(self, parent, module, func=None, qual=""):
        self.vars = {}
        self.parent, self.module, self.func = parent, module, func
        self.globals_, self.nonlocals = (), ()
        self.defcls = parent.defcls if parent is not None else None
        self.args = ()
        self.is_class = False
        self.yields = None
        self.qual = qual
        self.locals_ = None


def scan_locals(node):
    """names bound in a function body, plus its global/nonlocal declarations and whether it is a generator"""
    names, glob, nonl = set(), set(), set()
    gen = [False]

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(ch.name)
                for d in ch.decorator_list:
                    walk(d)
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                walk_comp(ch)
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                names.add(ch.id)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    names.add((a.asname or a.name).split(".")[0])
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                names.add(ch.name)
            if isinstance(ch, ast.Global):
                glob.update(ch.names)
            if isinstance(ch, ast.Nonlocal):
                nonl.update(ch.names)
            if isinstance(ch, (ast.MatchAs, ast.MatchStar)) and ch.name:
                names.add(ch.name)
            walk(ch)

    def walk_comp(n):
        # only walrus targets escape a comprehension; yields are not allowed inside
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                names.add(sub.target.id)

    if isinstance(node, ast.Lambda):
        for sub in ast.walk(node.body):
            if isinstance(sub, ast.NamedExpr):
                names.add(sub.target.id)
    else:
        class _W:
            pass
        for st in node.body:
            holder = ast.Module(body=[st], type_ignores=[])
            walk(holder)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    return names - glob - nonl, glob, nonl, gen[0]


class Interp:
    MAXDEPTH = 120
    MAXITER = 5000

    def __init__(self, root="/repo", missing=()):
        self.root = root
        self.E = Engine()
        self.missing = set(missing)
        self.broken = dict(missing) if isinstance(missing, dict) else {}     # package -> exception its import raises
        self.modules = {}
        self.builtins = {}
        self.bt = {}
        self.ext = {}
        self.single = False         # keep track of values that went through a single precision array
        self.overrides = {}         # (module, name) -> stand-in for an attribute of an external module
        self.events = ListObj([])
        self.counters = {"n": 0}
        self.stack = []
        self.node = None
        self.cover = {}
        self.sites = set()
        self.loopctx = []
        self.import_stack = []
        self.import_log = []
        self.positions = []           # known qubit positions (SymInt/int), ascending
        self.memo_scan = {}
        self.overrides = {}           # qualified name -> Native replacing a function (assume-guarantee)
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ utilities
    def fresh(self, tag=""):
        n = self.counters["n"] + 1
        self.E.put(self.counters, "n", n)
        return f"{tag}{n}"

    def where(self):
        for fr, node in reversed(self.stack):
            if fr.module is not None and fr.module.path:
                return f"{os.path.relpath(fr.module.path, self.root)}:{getattr(self.node, 'lineno', '?')} in {fr.qual}"
        return "?"

    def event(self, *ev):
        self.E.put(self.events.f, "items", self.events.items + [ev])

    def undecided(self, msg):
        raise Undecided(msg, self.where())

    def exc(self, name, *args):
        cls = self.builtins[name] if isinstance(name, str) else name
        e = InstObj(cls, {"args": tuple(args)})
        r = PyRaise(e)
        r.trace.append(self.where())
        return r

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.defcls is not None:
            return "_" + (fr.defcls if isinstance(fr.defcls, str) else fr.defcls.name).lstrip("_") + name
        return name

    # ------------------------------------------------------------------ modules
    def load(self, name):
        """abstractly import a module of the analysed tree"""
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        for path in (os.path.join(self.root, rel, "__init__.py"), os.path.join(self.root, rel + ".py")):
            if os.path.exists(path):
                break
        else:
            raise AnchorLost(f"module {name} not found")
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        m = ModuleObj(name, path)
        m.tree = tree
        m.src = src
        m.f["__name__"] = name
        m.f["__package__"] = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        m.f["__file__"] = path
        self.E.put(self.modules, name, m)
        fr = Frame(None, m, qual=f"{name}")
        fr.vars = m.f
        self.import_stack.append(name)
        self.stack.append((fr, tree))
        try:
            self.exec_block(tree.body, fr)
        except PyRaise:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
            self.import_stack.pop()
        if "." in name:
            pkg, _, leaf = name.rpartition(".")
            self.E.put(self.modules[pkg].f, leaf, m)
        return m

    def ext_module(self, name):
        top = name.split(".")[0]
        self.import_log.append((name, tuple(self.import_stack), self.stack[-1][0].qual if self.stack else "?",
                                len([1 for f, _ in self.stack if f.func is not None])))
        if top in self.missing:
            bad = self.broken.get(top)
            if bad is not None:
                raise self.exc(bad, f"importing {top} failed")
            raise self.exc("ModuleNotFoundError", f"No module named '{top}'")
        if name not in self.ext:
            self.ext[name] = ExtModule(name)
        return self.ext[name]

    def import_module(self, name):
        top = name.split(".")[0]
        if os.path.isdir(os.path.join(self.root, top)) and os.path.exists(os.path.join(self.root, top, "__init__.py")) and top == "blueqat":
            try:
                return self.load(name)
            except AnchorLost:
                raise self.exc("ModuleNotFoundError", f"No module named '{name}'")
        return self.ext_module(name)

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.globals_ and name in f.globals_ and first:
                break
            if (first or not f.is_class) and name in f.vars:
                return f.vars[name]
            if first and f.locals_ is not None and name in f.locals_ and name not in f.nonlocals:
                raise self.exc("UnboundLocalError", f"cannot access local variable '{name}' where it is not associated with a value")
            first = False
            f = f.parent
        m = fr.module
        if m is not None and name in m.f:
            return m.f[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(stdmore.builtins, name):
            raise Undecided(f"builtin {name}", self.where())
        raise self.exc("NameError", f"name '{name}' is not defined")

    def store(self, name, v, fr):
        if name in fr.globals_:
            self.E.put(fr.module.f, name, v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if not f.is_class and (name in f.vars or (f.locals_ is not None and name in f.locals_)):
                    self.E.put(f.vars, name, v)
                    return
                f = f.parent
            raise self.undecided(f"nonlocal {name} not found")
        self.E.put(fr.vars, name, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        self.node = s
        self.E.steps += 1
        if not self.E.steps & 0x3ff:
            self.E.check_time()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}", self.where())
        return m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if fr.is_class or fr.func is None:
            if isinstance(s.target, ast.Name):
                ann = fr.vars.get("__annotations__")
                if ann is None:
                    ann = ()
                self.E.put(fr.vars, "__annotations__", tuple(ann) + (s.target.id,))
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(self.mangle(t.id, fr), fr)
            v = self.inplace(op, cur, self.eval(s.value, fr))
            self.node = s
            self.store(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.getattr(o, name)
            v = self.inplace(op, cur, self.eval(s.value, fr))
            self.setattr(o, name, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.inplace(op, cur, self.eval(s.value, fr))
            self.node = s
            self.setitem(o, k, v)
        else:
            raise Undecided("augmented assignment target", self.where())

    def x_Return(self, s, fr):
        return ("ret", None if s.value is None else self.eval(s.value, fr))

    def x_Break(self, s, fr):
        return ("brk", None)

    def x_Continue(self, s, fr):
        return ("cont", None)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        n = 0
        undec = 0
        while True:
            self.node = s
            before = len(self.E.taken)
            mark = len(self.E.log)
            if not self.truth(self.eval(s.test, fr)):
                return self.exec_block(s.orelse, fr)
            abstract = len(self.E.taken) > before
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
            n += 1
            if abstract:
                undec += 1
                if self.unchanged(mark):
                    raise Prune()
                if undec > 40:
                    raise Undecided("loop with undecided condition does not stabilise", self.where())
            if n > self.MAXITER:
                raise Undecided("loop does not terminate within the analysis bound", self.where())

    def unchanged(self, mark):
        """no observable state change since mark (last written values equal the old ones)"""
        first = {}
        objs = {}
        for d, k, had, old in self.E.log[mark:]:
            if d is self.counters or d is self.E.facts or d is self.E.subst or d is self.E.nzs or d is self.E.monos or d is self.E.lin:
                continue
            if had == "all":
                return False
            if (id(d), k) not in first:
                first[(id(d), k)] = (had, old)
                objs[(id(d), k)] = d
        for (i, k), (had, old) in first.items():
            d = objs[(i, k)]
            if not had:
                if k in d:
                    # a newly created variable is not a change of earlier state if nothing refers to it; be strict
                    return False
            elif k not in d or not self.same(d[k], old):
                return False
        return True

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        try:
            return freeze(a) == freeze(b) and type(a) is type(b)
        except Exception:
            return False

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        r = self.for_loop(it, lambda v: self.assign(s.target, v, fr), lambda: self.exec_block(s.body, fr), s, fr)
        if r == "exhausted":
            return self.exec_block(s.orelse, fr)
        if r == "broken":
            return None
        return r

    def for_loop(self, it, assign, body, s, fr):
        """returns 'exhausted', 'broken' or a return signal"""
        if isinstance(it, RangeObj):
            L = self.range_pow2(it)
            if L is not None:
                return self.vector_loop(it, L, assign, body, s, fr)
        if hasattr(it, "vector_elem"):
            pass
        n = 0
        for item in self.for_items(it):
            self.node = s
            n += 1
            if n > self.MAXITER:
                raise Undecided("loop too long for the analysis bound", self.where())
            if isinstance(item, Rep):
                r = self.generic_block(item, assign, body, s, fr)
                if r is not None:
                    return r
                continue
            if isinstance(item, AbsElems):
                r = self.abs_loop(item, assign, body, s)
                if r is not None:
                    return r
                continue
            assign(item)
            r = body()
            if r is not None:
                if r[0] == "brk":
                    return "broken"
                if r[0] == "ret":
                    return r
        return "exhausted"

    def for_items(self, it):
        if isinstance(it, stdmore.InfIter):
            def gen():
                while True:
                    yield it.step(self)
            return gen()
        if isinstance(it, IterObj):
            def gen():
                # one at a time: what a break leaves stays in the iterator
                self.start(it)
                while it.f["pos"] < len(it.f["items"]):
                    x = it.f["items"][it.f["pos"]]
                    self.E.put(it.f, "pos", it.f["pos"] + 1)
                    yield x
            return gen()
        return self.iter_items(it)

    def abs_loop(self, ab, assign, body, s):
        n = 0
        while True:
            if self.E.choose(2, f"iterate {ab.name}") == 0:
                return None
            mark = len(self.E.log)
            assign(ab.make())
            m2 = len(self.E.log)
            r = body()
            if r is not None:
                if r[0] == "brk":
                    return "broken"
                if r[0] == "ret":
                    return r
            if self.unchanged(m2):
                raise Prune()
            n += 1
            if n >= 3:
                raise Undecided(f"loop over {ab.name} does not stabilise", self.where())

    def generic_block(self, rep, assign, body, s, fr):
        """one generic iteration for each element of the repeated block, summarised `count` times"""
        if SI.le(rep.count, 0) is True:
            return None
        if not isinstance(rep.count, SymInt):
            for _ in range(rep.count):
                for v in rep.block:
                    assign(v)
                    r = body()
                    if r is not None:
                        if r[0] == "brk":
                            return "broken"
                        if r[0] == "ret":
                            return r
            return None
        self.E.stats["loops_summarised"] += 1
        known = SI.lt(0, rep.count) is True
        mark = len(self.E.log)
        if not known:
            r = self.int_cmp("==", rep.count, 0)
            if r is True:
                return None
            known = r is False
        if not known:
            # the summary also describes an empty segment when it only appends `count` copies and sets names that are not read later
            d1 = self.summarise(rep, assign, body)
            if self.covers_empty(d1, s, fr):
                return None
            self.E.rollback(mark)
            if self.truth(self.int_cmp("==", rep.count, 0)):
                return None
        self.summarise(rep, assign, body)
        return None

    def covers_empty(self, d1, s, fr):
        """after summarise(): every change vanishes for count == 0 or cannot be observed"""
        for key, (d, k, had, old) in d1.items():
            new = d.get(k)
            if isinstance(new, list) and isinstance(old, list) and len(new) == len(old) + 1 and isinstance(new[-1], Rep):
                continue
            if key in self._accumulated:
                continue
            if d is fr.vars and isinstance(k, str) and fr.func is not None and getattr(fr.func, "node", None) is not None:
                if k not in self.reads_outside(fr.func.node, s):
                    continue
            return False
        return True

    def reads_outside(self, fn, s):
        key = (id(fn), id(s))
        if key not in self.memo_scan:
            names = set()

            def walk(n, bound=frozenset()):
                if n is s:
                    return
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store) and n.id not in bound:
                    names.add(n.id)
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    walk(n.generators[0].iter, bound)
                    bound = bound | {x for g in n.generators for x in _target_names(g.target)}
                for c in ast.iter_child_nodes(n):
                    walk(c, bound)
            walk(fn)
            # an enclosing loop may come back to the start of this one
            self.memo_scan[key] = names | ({n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                                           if _in_loop(fn, s) else set())
            self.memo_scan[("keep",) + key] = (fn, s)
        return self.memo_scan[key]

    def summarise(self, rep, assign, body):
        mark = len(self.E.log)
        self._accumulated = set()

        def once():
            for v in rep.block:
                assign(v)
                r = body()
                if r is not None and r[0] != "cont":
                    raise Undecided("early exit from a summarised loop", self.where())
        once()
        d1 = self.delta(mark)
        mark2 = len(self.E.log)
        once()
        d2 = self.delta(mark2)
        new2s = self._d2new
        # second iteration must do to the state what the first one did
        self.E.rollback(mark2)
        for key, (d, k, had, old) in d2.items():
            new2 = new2s[key]
            if key not in d1:
                raise Undecided("summarised loop changes different state in later iterations", self.where())
            new1 = d[k] if k in d else None
            if isinstance(new1, list) and isinstance(d1[key][3], list):
                o1 = d1[key][3]
                app1, app2 = new1[len(o1):], new2[len(new1):]
                if [freeze_item(x) for x in o1] != [freeze_item(x) for x in new1[:len(o1)]] or \
                   [freeze_item(x) for x in app1] != [freeze_item(x) for x in app2]:
                    raise Undecided("summarised loop modifies a list other than by appending", self.where())
                self.E.put(d, k, list(o1) + [Rep(app1, rep.count)])
            elif not self.same(new1, new2):
                acc = self.accumulate(d1[key][3], new1, new2, rep.count)
                if acc is None:
                    raise Undecided(f"summarised loop does not stabilise in {k!r}", self.where())
                self.E.put(d, k, acc)
                self._accumulated.add(key)
        for key, (d, k, had, old) in d1.items():
            if key not in d2 and isinstance(old, list) and isinstance(d.get(k), list) and len(d[k]) != len(old):
                raise Undecided("summarised loop appends only once", self.where())
        return d1

    def accumulate(self, v0, v1, v2, count):
        """numeric accumulators with constant increments"""
        try:
            if all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in (v0, v1, v2)):
                i1, i2 = SI.sub(v1, v0), SI.sub(v2, v1)
                if SI.eq(i1, i2) is True and not isinstance(i1, SymInt):
                    return SI.add(v0, SymInt.lift(count).mul(i1))
        except Undecided:
            pass
        return None

    def delta(self, mark):
        """first-old values of the state written since mark: {(id(d),k): (d,k,had,old)}; records current values"""
        out = {}
        for d, k, had, old in self.E.log[mark:]:
            if d is self.counters or d is self.E.facts or d is self.E.subst or d is self.E.nzs or d is self.E.monos or d is self.E.lin or d is self.events.f:
                continue
            if had == "all":
                raise Undecided("deletion inside a summarised loop", self.where())
            out.setdefault((id(d), k), (d, k, had, old))
        self._d2new = {key: (v[0].get(v[1])) for key, v in out.items()}
        return out

    # loops over 2**L indices, analysed as one vectorised generic iteration
    def range_pow2(self, r):
        if isinstance(r.start, int) and r.start == 0 and isinstance(r.step, int) and r.step == 1 and isinstance(r.stop, BitInt):
            return r.stop.pow2()
        return None

    def vector_loop(self, it, L, assign, body, s, fr):
        self.E.stats["loops_summarised"] += 1
        name = self.fresh("i")
        ctx = {"var": name, "L": L, "acc": [], "parallel": it.parallel, "node": s, "mark": len(self.E.log)}
        iv = SI.var(name, L)
        # reduction candidates: numeric variables of the frame are replaced by accumulators
        self.loopctx.append(ctx)
        mark = len(self.E.log)
        pre = dict(fr.vars)
        try:
            assign(iv)
            r = body()
        finally:
            self.loopctx.pop()
        if r is not None and r[0] != "cont":
            raise Undecided("early exit from a loop over amplitudes", self.where())
        self.check_vector_accesses(ctx)
        # loop-carried scalars: only sums over the iterations are allowed
        for d, k, had, old in list(self.delta(mark).values()):
            if d is fr.vars and k in pre:
                new = d[k]
                if self.same(new, pre[k]):
                    continue
                if hasattr(new, "reduce_sum"):
                    self.E.put(d, k, new.reduce_sum(self, pre[k]))
                    self.event("reduction", k, ctx["parallel"])
                elif k in _target_names(s.target):
                    pass
                elif isinstance(new, AbsVal) or isinstance(pre[k], AbsVal) or True:
                    # temporaries assigned before use in every iteration
                    if not _assigned_before_use(s.body, k):
                        raise Undecided(f"loop-carried variable {k}", self.where())
        return "exhausted"

    def check_vector_accesses(self, ctx):
        per = {}
        for vec, P, mapping, kind, where in ctx["acc"]:
            per.setdefault(vec.oid, []).append((P, mapping, kind, where))
        for oid, acc in per.items():
            if not any(k == "w" for _, _, k, _ in acc):
                continue
            pats = {(tuple(SI.skey(p) for p in P), mapping) for P, mapping, _, _ in acc}
            if len(pats) > 1:
                raise self.violation("overlap", "iterations of the amplitude loop address overlapping amplitudes: "
                                     + "; ".join(sorted({f"{k} with fixed bits {list(P)} at {w}" for P, _, k, w in acc})))

    def violation(self, rule, text):
        return SemanticAlarm(rule, text, self.where())

    # ------------------------------------------------------------------
    def x_Try(self, s, fr):
        try:
            try:
                r = self.exec_block(s.body, fr)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None or self.exc_match(pr.exc, self.eval(h.type, fr)):
                        if h.name:
                            self.store(h.name, pr.exc, fr)
                        saved = getattr(self, "cur_exc", None)
                        self.cur_exc = pr
                        try:
                            r = self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc = saved
                        if h.name and h.name in fr.vars:
                            self.E.rm(fr.vars, h.name)
                        break
                else:
                    raise
            else:
                if r is None and s.orelse:
                    r = self.exec_block(s.orelse, fr)
        except PyRaise:
            if s.finalbody:
                r2 = self.exec_block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, ClassObj):
            return t in e.cls.mro
        if isinstance(t, Opaque):
            return self.truth(Cond(("excmatch", e.oid, t.k), f"exception matches {t}"))
        raise Undecided("exception handler type", self.where())

    def x_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, "cur_exc", None) is None:
                raise self.exc("RuntimeError", "No active exception to reraise")
            raise self.cur_exc
        v = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(v, ClassObj):
            v = self.call(v, [], {})
        if not isinstance(v, InstObj):
            raise Undecided(f"raise of {v!r}", self.where())
        pr = PyRaise(v)
        pr.trace.append(self.where())
        raise pr

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise self.exc("AssertionError", *([self.eval(s.msg, fr)] if s.msg else []))

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                n = self.mangle(t.id, fr)
                tgt = fr.module.f if n in fr.globals_ else fr.vars
                if n not in tgt:
                    raise self.exc("NameError", f"name '{n}' is not defined")
                self.E.rm(tgt, n)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                n = self.mangle(t.attr, fr)
                if isinstance(o, Obj) and n in o.f:
                    self.E.rm(o.f, n)
                else:
                    raise self.exc("AttributeError", n)
            else:
                raise Undecided("del target", self.where())

    def x_Global(self, s, fr):
        pass

    def x_Nonlocal(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.modules.get(top) or self.ext_module(top), fr)

    def x_ImportFrom(self, s, fr):
        if s.level:
            pkg = fr.module.f["__package__"]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + s.module if s.module else "")
        else:
            name = s.module
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, ModuleObj):
                    raise Undecided(f"star import from {name}", self.where())
                allv = m.f.get("__all__")
                names = [x for x in self.list_values(allv)] if allv is not None else [n for n in m.f if not n.startswith("_")]
                for n in names:
                    self.store(n, m.f[n], fr)
                continue
            if isinstance(m, ModuleObj):
                if a.name in m.f:
                    v = m.f[a.name]
                else:
                    try:
                        v = self.load(name + "." + a.name)
                    except AnchorLost:
                        raise self.exc("ImportError", f"cannot import name '{a.name}' from '{name}'")
            else:
                v = self.ext_attr(m, a.name)
            self.store(a.asname or a.name, v, fr)

    def x_With(self, s, fr):
        ctxs = []
        for it in s.items:
            c = self.eval(it.context_expr, fr)
            v = self.call_method(c, "__enter__") if isinstance(c, InstObj) else (c if isinstance(c, Opaque) else self.call_method(c, "__enter__"))
            ctxs.append(c)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            r = self.exec_block(s.body, fr)
        except PyRaise as pr:
            for c in reversed(ctxs):
                if isinstance(c, InstObj):
                    if self.truth(self.call_method(c, "__exit__", pr.exc.cls, pr.exc, None)):
                        return None
            raise
        for c in reversed(ctxs):
            if isinstance(c, InstObj):
                self.call_method(c, "__exit__", None, None, None)
        return r

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.store(self.mangle(s.name, fr), f, fr)

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        nfr = Frame(fr, fr.module, func=fr.func, qual=(fr.qual + "." if fr.func or fr.is_class else fr.module.name + ".") + s.name)
        nfr.is_class = True
        nfr.defcls = s.name
        self.stack.append((nfr, s))
        try:
            self.exec_block(s.body, nfr)
        finally:
            self.stack.pop()
        cls = self.make_class(s.name, bases, nfr.vars, fr.module, s)
        cls.qual = nfr.qual
        # the __class__ cell
        for v in list(nfr.vars.values()):
            self._bindcls(v, cls)
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, fr), [cls], {})
        self.store(self.mangle(s.name, fr), cls, fr)

    def _bindcls(self, v, cls):
        if isinstance(v, FuncObj) and (isinstance(v.defcls, str) or v.defcls is None):
            v.defcls = cls
        elif isinstance(v, (StaticM, ClassM)):
            self._bindcls(v.func, cls)
        elif isinstance(v, PropertyObj):
            for g in (v.fget, v.fset):
                if g is not None:
                    self._bindcls(g, cls)
        elif isinstance(v, DictObj):
            for _, x in v.pairs():
                self._bindcls(x, cls)

    def make_class(self, name, bases, ns, module, node):
        from . import models
        rb = []
        for b in bases:
            if isinstance(b, ClassObj):
                rb.append(b)
            elif isinstance(b, Opaque):
                rb.append(self.opaque_base(b))
            else:
                raise Undecided(f"base class {b!r}", self.where())
        if any(b is self.bt.get("NamedTuple") for b in rb):
            fields = tuple(ns.get("__annotations__", ()))
            defaults = {f: ns[f] for f in fields if f in ns}
            base = models.make_namedtuple(self, name, fields, defaults)
            ns2 = {k: v for k, v in ns.items() if k not in fields}
            c = ClassObj(name, [base], ns2, module=module, node=node)
            return c
        if not rb:
            rb = [self.bt["object"]]
        c = ClassObj(name, rb, ns, module=module, node=node)
        if "__eq__" in ns and "__hash__" not in ns:
            c.f["__hash__"] = None
        return c

    def opaque_base(self, b):
        c = ClassObj(b.name, [self.bt["object"]])
        return c

    def make_func(self, s, fr, name):
        key = id(s)
        info = self.memo_scan.get(key)
        if info is None:
            info = self.memo_scan[key] = (s,) + scan_locals(s)
        _, loc, glob, nonl, gen = info
        a = s.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        qual = (fr.qual + "." if fr.qual else "") + name
        f = FuncObj(s, name, fr.module, fr, defaults, kwd, fr.defcls, qual, gen, loc)
        return f

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.list_values(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - 1
                if len(vals) < k:
                    raise self.exc("ValueError", f"not enough values to unpack (expected at least {k}, got {len(vals)})")
                tail = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, ListObj(vals[i:len(vals) - tail]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise self.exc("ValueError", "not enough values to unpack" if len(vals) < len(t.elts) else "too many values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, ListObj(self.list_values(v)), fr)
        else:
            raise Undecided("assignment target", self.where())

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}", self.where())
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        self.node = e
        return self.lookup(self.mangle(e.id, fr), fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.list_values(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return ListObj(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = SetObj()
        for x in self.elts(e.elts, fr):
            self.set_add(s, x)
        return s

    def e_Dict(self, e, fr):
        d = DictObj(self.bt["dict"])
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in self.mapping_pairs(src):
                    self.dict_set(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, Cond) else False
            if not is_and and t:
                return v if not isinstance(v, Cond) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        self.node = e
        if isinstance(e.op, ast.Not):
            if isinstance(v, Cond):
                return v.negate()
            return not self.truth(v)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        return self.unop(op, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        self.node = e
        return self.binop(OPS[type(e.op)], a, b)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, fr)
            self.node = e
            res = self.compare(CMP[type(op)], a, b)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return False
            a = b
        return res

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.qual.endswith("<comp>"):
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        self.node = e
        return self.getattr(o, self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        k = self.eval(e.slice, fr)
        self.node = e
        return self.getitem(o, k)

    def e_Slice(self, e, fr):
        return SliceObj(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, fr):
        raise Undecided("starred expression", self.where())

    def e_JoinedStr(self, e, fr):
        from .models import str_concat, to_str, fmt_value
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                parts.append(fmt_value(self, x, spec, v.conversion))
        return str_concat(parts)

    def e_FormattedValue(self, e, fr):
        from .models import fmt_value
        return fmt_value(self, self.eval(e.value, fr), None, e.conversion)

    def e_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in fr.vars:
            return self.make_super(fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            raise Undecided(f"call of {e.func.id}()", self.where())
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.list_values(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.mapping_pairs(self.eval(k.value, fr)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.node = e
        self.sites.add((fr.module.name if fr.module else "?", e.lineno, e.col_offset))
        return self.call(f, args, kw)

    def make_super(self, fr):
        f = fr
        while f is not None and (f.func is None or not isinstance(f.func.defcls, ClassObj) or not f.args):
            f = f.parent
        if f is None:
            raise Undecided("super() outside a method", self.where())
        return SuperVal(f.func.defcls, f.args[0])

    def e_ListComp(self, e, fr):
        out = ListObj([])
        self.comp(e.generators, 0, fr, lambda f: self.E.put(out.f, "items", out.items + [self.eval(e.elt, f)]), e)
        return out

    def e_GeneratorExp(self, e, fr):
        first = self.eval(e.generators[0].iter, fr)

        def thunk():
            out = ListObj([])
            self.comp(e.generators, 0, fr, lambda f: self.E.put(out.f, "items", out.items + [self.eval(e.elt, f)]), e, first)
            return out.items
        return IterObj(None, thunk, "generator")

    def e_SetComp(self, e, fr):
        s = SetObj()
        self.comp(e.generators, 0, fr, lambda f: self.set_add(s, self.eval(e.elt, f)), e)
        return s

    def e_DictComp(self, e, fr):
        d = DictObj(self.bt["dict"])

        def add(f):
            k = self.eval(e.key, f)
            self.dict_set(d, k, self.eval(e.value, f))
        self.comp(e.generators, 0, fr, add, e)
        return d

    def comp(self, gens, i, fr, emit, node, first=None):
        f = Frame(fr, fr.module, fr.func, fr.qual + ".<comp>")
        f.args = fr.args
        f.defcls = fr.defcls

        def level(i):
            if i == len(gens):
                emit(f)
                return None
            g = gens[i]
            it = first if (i == 0 and first is not None) else self.eval(g.iter, f if i else fr)

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, f)):
                        return None
                return level(i + 1)
            return_ = self.for_loop(it, lambda v: self.assign(g.target, v, f), body, node, f)
            return None
        level(0)

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        self.E.put(f.yields.f, "items", f.yields.items + [v])
        return None

    def e_YieldFrom(self, e, fr):
        it = self.eval(e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        self.E.put(f.yields.f, "items", f.yields.items + list(self.iter_items(it)))
        return None

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, FuncObj):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return stdmore.call_guarded(self, f, args, kw) if kw or len(args) > 1 else f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.func, args, kw)
        if isinstance(f, InstObj):
            c = f.cls.lookup("__call__")
            if c is None:
                raise self.exc("TypeError", f"'{f.cls.name}' object is not callable")
            return self.call(c[1], [f] + list(args), kw)
        if isinstance(f, AbsVal):
            return f.call(self, args, kw)
        if isinstance(f, Obj) and hasattr(f, "call"):
            return f.call(self, args, kw)
        if f is None or isinstance(f, CONC) or isinstance(f, (tuple, ListObj, DictObj)):
            raise self.exc("TypeError", f"'{self.type_of(f).name}' object is not callable")
        raise Undecided(f"call of {f!r}", self.where())

    def opaque_call(self, f, args, kw):
        if not f.args:
            self.note_unmodelled(f.name)
        self.event("opaque_call", f.name, tuple(args), tuple(sorted(kw.items(), key=lambda t: t[0])), self.where())
        return Opaque(f.name + "()", tuple(f.args) + tuple(args) + tuple(x for kv in sorted(kw.items(), key=lambda t: t[0]) for x in kv), None)

    def note_unmodelled(self, name):
        if name.split(".")[0] in LIBS:
            self.E.unmodelled.append(name)

    def bind(self, f, args, kw):
        a = f.node.args
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        fname = f.name
        if len(args) > len(pos) and not a.vararg:
            raise self.exc("TypeError", f"{fname}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            vars_[n] = v
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        ponly = {x.arg for x in a.posonlyargs}
        names = (set(pos) - ponly) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vars_:
                    raise self.exc("TypeError", f"{fname}() got multiple values for argument '{k}'")
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.exc("TypeError", f"{fname}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars_:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                else:
                    raise self.exc("TypeError", f"{fname}() missing required positional argument: '{n}'")
        for x in a.kwonlyargs:
            if x.arg not in vars_:
                if x.arg in f.kwdefaults:
                    vars_[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise self.exc("TypeError", f"{fname}() missing required keyword-only argument: '{x.arg}'")
        if a.kwarg:
            d = DictObj(self.bt["dict"])
            for k, v in extra.items():
                self.dict_set(d, k, v)
            vars_[a.kwarg.arg] = d
        return vars_

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            return ov(self, f, args, kw)
        if len(self.stack) > self.MAXDEPTH:
            raise self.exc("RecursionError", "maximum recursion depth exceeded")
        fr = Frame(f.closure, f.module, f, f.qual)
        fr.defcls = f.defcls
        fr.vars = self.bind(f, args, kw)
        fr.args = tuple(args)
        info = self.memo_scan[id(f.node)]
        fr.locals_, fr.globals_, fr.nonlocals = info[1], info[2], info[3]
        self.cover[f.qual] = self.cover.get(f.qual, 0) + 1
        if f.is_gen:
            def thunk():
                fr.yields = ListObj([])
                self.run_body(f, fr)
                return fr.yields.items
            return IterObj(None, thunk, "generator")
        return self.run_body(f, fr)

    def run_body(self, f, fr):
        saved = self.node
        self.stack.append((fr, f.node))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            r = self.exec_block(f.node.body, fr)
        except PyRaise as pr:
            if len(pr.trace) < 12:
                pr.trace.append(f"{f.qual}")
            raise
        finally:
            self.stack.pop()
            self.node = saved
        return r[1] if r is not None and r[0] == "ret" else None

    def instantiate(self, c, args, kw):
        if c.construct is not None:
            return c.construct(self, c, args, kw)
        nw = c.lookup("__new__")
        if nw is not None:
            fn = nw[1].func if isinstance(nw[1], StaticM) else nw[1]
            o = self.call(fn, [c] + list(args), kw)
            if not (isinstance(o, InstObj) and c in o.cls.mro):
                return o
        else:
            base = next((b for b in c.mro if b.construct is not None), None)
            if base is not None:
                o = base.construct(self, c, args, kw)
            else:
                o = InstObj(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call(init[1], [o] + list(args), kw)
        elif (args or kw) and nw is None and not any(b.construct for b in c.mro):
            raise self.exc("TypeError", f"{c.name}() takes no arguments")
        return o

    def call_method(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        bt = self.bt
        if v is None:
            return bt["NoneType"]
        if isinstance(v, bool):
            return bt["bool"]
        if isinstance(v, (int, SymInt, BitInt)):
            return bt["int"]
        if isinstance(v, float):
            return bt["float"]
        if isinstance(v, complex):
            return bt["complex"]
        if isinstance(v, Scalar):
            return bt["sympyExpr"] if v.ty == "sympy" else bt[v.ty]
        if isinstance(v, str):
            return bt["str"]
        if isinstance(v, bytes):
            return bt["bytes"]
        if isinstance(v, tuple):
            return bt["tuple"]
        if isinstance(v, ListObj):
            return bt["list"]
        if isinstance(v, DictObj):
            return v.cls
        if isinstance(v, SetObj):
            return bt["frozenset"] if v.frozen else bt["set"]
        if isinstance(v, InstObj):
            return v.cls
        if isinstance(v, (FuncObj, Native, Partial)):
            return bt["function"]
        if isinstance(v, Bound):
            return bt["method"]
        if isinstance(v, ClassObj):
            return bt["type"]
        if isinstance(v, SliceObj):
            return bt["slice"]
        if isinstance(v, RangeObj):
            return bt["range"]
        if isinstance(v, IterObj):
            return bt["generator"] if v.kind == "generator" else bt["iterator"]
        if isinstance(v, (ModuleObj, ExtModule)):
            return bt["module"]
        if isinstance(v, AbsVal):
            return v.cls(self)
        if isinstance(v, Obj) and hasattr(v, "pycls"):
            return v.pycls(self)
        if isinstance(v, PropertyObj):
            return bt["property"]
        if isinstance(v, (StaticM, ClassM)):
            return bt["object"]
        if v is Ellipsis:
            return bt["object"]
        raise Undecided(f"type of {v!r}", self.where())

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            for x in c:
                if self.truth(self.isinstance_(v, x)):
                    return True
            return False
        if isinstance(c, ClassObj):
            if c.check is not None:
                return c.check(self, v)
            t = self.type_of(v)
            if t is self.opaque_cls:
                return Cond(("isinst", v.k, c.name), f"isinstance({v!r}, {c.name})")
            return c in t.mro
        if isinstance(c, Opaque):
            if isinstance(v, Opaque):
                return Cond(("isinst", v.k, c.k), f"isinstance({v!r}, {c!r})")
            return False
        raise self.exc("TypeError", "isinstance() arg 2 must be a type")

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=()):
        try:
            return self._getattr(o, name)
        except PyRaise as pr:
            if default != () and self.builtins["AttributeError"] in pr.exc.cls.mro:
                return default
            raise

    def _attr_error(self, o, name):
        if stdmore.real_has(self, o, name):
            return Undecided(f"attribute {name} of {self.type_of(o).name}", self.where())
        return self.exc("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def _getattr(self, o, name):
        from . import models
        if isinstance(o, InstObj):
            c = o.cls.lookup(name)
            if c is not None and isinstance(c[1], PropertyObj):
                if c[1].fget is None:
                    raise self._attr_error(o, name)
                try:
                    return self.call(c[1].fget, [o], {})
                except PyRaise as pr:
                    if self.builtins["AttributeError"] not in pr.exc.cls.mro:
                        raise
                    ga = o.cls.lookup("__getattr__")
                    if ga is None:
                        raise
                    return self.call(ga[1], [o, name], {})
            if name in o.f:
                return o.f[name]
            if c is not None:
                return self.bind_attr(c[1], o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return models.dict_view(self, o)
            if o.tup is not None:
                r = models.tuple_attr(self, o, name)
                if r is not None:
                    return r
            b = models.object_attr(self, o, name)
            if b is not None:
                return b
            ga = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga[1], [o, name], {})
            raise self._attr_error(o, name)
        if isinstance(o, ClassObj):
            c = o.lookup(name)
            if c is not None:
                v = c[1]
                if isinstance(v, StaticM):
                    return v.func
                if isinstance(v, ClassM):
                    return Bound(v.func, o)
                return v
            r = models.class_attr(self, o, name)
            if r is not None:
                return r
            if stdmore.real_has(self, o, name):
                raise Undecided(f"attribute {name} of {o.name}", self.where())
            raise self.exc("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, ModuleObj):
            if name in o.f:
                return o.f[name]
            raise self.exc("AttributeError", f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, ExtModule):
            return self.ext_attr(o, name)
        if isinstance(o, SuperVal):
            return o.getattr(self, name)
        if isinstance(o, AbsVal):
            r = o.getattr(self, name)
            if r is NotImplemented:
                if name == "__class__":
                    return self.type_of(o)
                raise self._attr_error(o, name)
            return r
        if hasattr(o, "getattr"):
            r = o.getattr(self, name)
            if r is not NotImplemented:
                return r
            raise self._attr_error(o, name)
        if isinstance(o, FuncObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return None if isinstance(o.node, ast.Lambda) else ast.get_docstring(o.node)
            if name == "__module__":
                return o.module.name
            if name == "__get__":
                return Native("__get__", lambda I, a, k: Bound(o, a[0]))
            raise self._attr_error(o, name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Native):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
        if isinstance(o, Partial) and name in ("func", "args", "keywords"):
            return o.func if name == "func" else tuple(o.args) if name == "args" else models.mkdict(self, o.kwargs)
        if isinstance(o, PropertyObj) and name in ("setter", "getter"):
            if name == "setter":
                return Native("setter", lambda I, a, k: PropertyObj(o.fget, a[0], o.fdel))
            return Native("getter", lambda I, a, k: PropertyObj(a[0], o.fset, o.fdel))
        r = models.builtin_attr(self, o, name)
        if r is None:
            raise self._attr_error(o, name)
        return r[0]

    def bind_attr(self, v, o, cls):
        if isinstance(v, (FuncObj, Native)) or isinstance(v, Obj) and getattr(v, "binds", False):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, PropertyObj):
            return self.call(v.fget, [o], {})
        return v

    def ext_attr(self, m, name):
        from . import models
        return models.ext_attr(self, m, name)

    def setattr(self, o, name, v):
        if isinstance(o, InstObj):
            c = o.cls.lookup(name)
            if c is not None and isinstance(c[1], PropertyObj):
                if c[1].fset is None:
                    raise self.exc("AttributeError", f"can't set attribute '{name}'")
                self.call(c[1].fset, [o, v], {})
                return
            sa = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa[1], [o, name, v], {})
                return
            if o.cls.nt_fields is not None and name in o.cls.nt_fields:
                raise self.exc("AttributeError", "can't set attribute")
            self.E.put(o.f, name, v)
            return
        if isinstance(o, (ClassObj, ModuleObj)):
            self.E.put(o.f, name, v)
            return
        if isinstance(o, FuncObj):
            o.attrs[name] = v
            return
        if hasattr(o, "setattr"):
            return o.setattr(self, name, v)
        if isinstance(o, Opaque):
            self.event("opaque_setattr", o.k, name, v)
            return
        raise self.exc("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")

    # ------------------------------------------------------------------ truth / operators
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, complex, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Cond):
            return self.E.decide(v)
        if isinstance(v, Scalar):
            r = self.E.scalar_eq(v, 0)
            return not r if isinstance(r, bool) else not self.E.decide(r)
        if isinstance(v, SymInt):
            r = self.int_cmp("!=", v, 0)
            return self.truth(r)
        if isinstance(v, BitInt):
            return self.truth(self.int_cmp("!=", v, 0))
        if isinstance(v, ListObj):
            return self.seq_nonempty(v.items)
        if isinstance(v, DictObj) or isinstance(v, SetObj):
            return bool(v.f["items"])
        if isinstance(v, InstObj):
            for n in ("__bool__", "__len__"):
                c = v.cls.lookup(n)
                if c is not None:
                    return self.truth(self.call(c[1], [v], {}))
            if v.tup is not None:
                return bool(v.tup)
            return True
        if isinstance(v, AbsVal) or hasattr(v, "truth"):
            r = v.truth(self)
            if r is NotImplemented:
                return True
            return self.truth(r) if not isinstance(r, bool) else r
        if isinstance(v, RangeObj):
            return self.truth(self.compare("<", v.start, v.stop))
        return True

    def seq_nonempty(self, items):
        for x in items:
            if isinstance(x, Rep):
                if SI.lt(0, x.count) is True:
                    return True
                if SI.le(x.count, 0) is True:
                    continue
                if self.truth(self.int_cmp(">", x.count, 0)):
                    return True
            elif isinstance(x, AbsElems):
                return self.E.choose(2, f"{x.name} nonempty") == 1
            else:
                return True
        return False

    def int_cmp(self, op, a, b):
        if isinstance(a, BitInt) or isinstance(b, BitInt):
            if op in ("==", "!="):
                pa, pb = SI.lift(a).pow2() if a != 0 else None, SI.lift(b).pow2() if b != 0 else None
                if pa is not None and pb is not None:
                    r = self.int_cmp("==", pa, pb)
                    if op == "==":
                        return r
                    return r.negate() if isinstance(r, Cond) else not r
                r = SI.bcmp_eq(a, b)
                if isinstance(r, tuple):
                    cond = Cond(r[:3], f"bit {r[2]} of {r[1]} is set")
                    # r[3]: required value of the bit for equality
                    c = cond if r[3] == 1 else cond.negate()
                    return c if op == "==" else c.negate()
                if r is None:
                    r = Cond(("bits==", SI.lift(a).key(), SI.lift(b).key()), f"{a} == {b}")
                    return r if op == "==" else r.negate()
                return r if op == "==" else not r
            # order of powers of two / ranges
            pa = SI.lift(a).pow2() if a != 0 else None
            pb = SI.lift(b).pow2() if b != 0 else None
            if pa is not None and pb is not None:
                return self.int_cmp(op, pa, pb)
            if b == 0 and op in ("<", ">="):
                return op == ">="
            if a == 0 and op in (">", "<="):
                return op == "<="
            if b == 0 and op in (">", "<="):
                return self.int_cmp("!=" if op == ">" else "==", a, 0)
            return Cond(("bits" + op, SI.lift(a).key(), SI.lift(b).key()), f"{a} {op} {b}")
        if op in ("==", "!="):
            r = SI.eq(a, b)
            neg = op == "!="
        elif op == "<":
            r, neg = SI.lt(a, b), False
        elif op == ">=":
            r, neg = SI.lt(a, b), True
        elif op == "<=":
            r, neg = SI.le(a, b), False
        elif op == ">":
            r, neg = SI.le(a, b), True
        if r is None:
            d = SI.sub(a, b)
            if op in ("==", "!="):
                c = self.E.int_eq0(d, f"{a} == {b}")
            else:
                if op not in ("<", ">="):
                    d = SI.sub(d, 1)
                c = self.E.int_lt0(d, f"{a} {op if op in ('<', '<=') else {'>=': '<', '>': '<='}[op]} {b}")
            if isinstance(c, bool):
                return (not c) if neg else c
            return c.negate() if neg else c
        return (not r) if neg else r

    def is_int(self, v):
        return isinstance(v, (int, SymInt, BitInt))

    def is_num(self, v):
        return isinstance(v, (int, float, complex, SymInt, BitInt, Scalar))

    def binop(self, op, a, b):
        r = self._binop(op, a, b)
        if r is NotImplemented:
            raise self.exc("TypeError", f"unsupported operand type(s) for {op}: '{self.type_of(a).name}' and '{self.type_of(b).name}'")
        return r

    def _binop(self, op, a, b):
        # plain concrete values
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError as ex:
                raise self.exc("ZeroDivisionError", str(ex))
            except OverflowError as ex:
                raise self.exc("OverflowError", str(ex))
            except (TypeError, ValueError) as ex:
                raise self.exc(type(ex).__name__, str(ex))
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            r = self.inst_binop(op, a, b)
            if r is not NotImplemented:
                return r
        for x, y, refl in ((a, b, False), (b, a, True)):
            if (isinstance(x, AbsVal) or hasattr(x, "binop")) and not isinstance(x, (Scalar, SymInt, BitInt)):
                r = x.binop(self, op, y, refl)
                if r is not NotImplemented:
                    return r
        if self.is_num(a) and self.is_num(b):
            return self.num_binop(op, a, b)
        from . import models
        return models.builtin_binop(self, op, a, b)

    def num_binop(self, op, a, b):
        if self.is_int(a) and self.is_int(b):
            r = self.int_binop(op, a, b)
            if r is not None:
                return r
        sa, sb = self.to_scalar(a), self.to_scalar(b)
        if sa is None or sb is None:
            raise Undecided(f"numeric operation {a!r} {op} {b!r}", self.where())
        if op == "+":
            return simp_s(sa + sb)
        if op == "-":
            return simp_s(sa - sb)
        if op == "*":
            return simp_s(sa * sb)
        if op == "/":
            self.check_zero_div(sb)
            return simp_s(sa / sb)
        if op == "**":
            if isinstance(b, int):
                return simp_s(sa ** b)
            if isinstance(b, float):
                if b == int(b):
                    return simp_s(sa ** int(b))
                return simp_s(sa.rpow(b))
            if isinstance(a, NUM) and isinstance(b, SymInt):
                return Opaque("pow", (a, b))
        from .scalar import apply_fn
        if op in ("%", "//"):
            return Scalar.gen(Gen("fn", ({"%": "mod", "//": "floordiv"}[op], (_fz(sa), _fz(sb)))))
        raise Undecided(f"numeric operation {op}", self.where())

    def check_zero_div(self, s):
        s = self.E.norm(s)
        if s.is_zero():
            raise self.exc("ZeroDivisionError", "division by zero")
        if any(g.kind == "sym" and isinstance(g.data, str) and g.data.startswith("?") for g in s.gens()):
            r = self.E.scalar_eq(s, 0)
            if r is True or (isinstance(r, Cond) and self.E.decide(r)):
                raise self.exc("ZeroDivisionError", "division by zero")

    def to_scalar(self, v):
        if isinstance(v, Scalar):
            return v
        if isinstance(v, NUM):
            return Scalar.lift(v)
        if isinstance(v, SymInt):
            r = Scalar.const(v.c, "int")
            for k, c in v.t.items():
                r = r + Scalar.gen(Gen("sym", "#" + k, True), ty="int") * c
            r.ty = "int"
            return r
        if isinstance(v, BitInt):
            p = v.pow2()
            if p is not None:
                return Scalar.gen(Gen("pow2", SI.skey(p), True, True), ty="int")
        if isinstance(v, AbsVal) and hasattr(v, "as_scalar"):
            return v.as_scalar()
        return None

    def int_binop(self, op, a, b):
        bits = isinstance(a, BitInt) or isinstance(b, BitInt)
        sym = isinstance(a, SymInt) or isinstance(b, SymInt)
        if op == "**" and a == 2 and isinstance(b, SymInt):
            return SI.power2(b)
        if op == "<<":
            if isinstance(a, SymInt):
                if a.simp() == 0:
                    return 0
                raise Undecided(f"shift of {a}", self.where())
            return SI.shl(a, b)
        if op == ">>":
            return SI.shr(a, b)
        if bits:
            if op == "&":
                return SI.band(a, b)
            if op == "|":
                return SI.bor(a, b)
            if op == "^":
                return SI.bxor(a, b)
            if op == "+":
                return SI.badd(a, b)
            if op == "-":
                return SI.bsub(a, b)
            if op in ("*", "//", "%"):
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, (int, BitInt)):
                        p = SI.lift(y).pow2() if y != 0 else None
                        if y == 0 and op == "*":
                            return 0
                        if p is not None:
                            if op == "*":
                                return SI.shl(x, p)
                            if y is b:
                                return SI.shr(x, p) if op == "//" else SI.band(x, SI.bsub(y, 1))
                    if op != "*":
                        break
                raise Undecided(f"{a} {op} {b}", self.where())
            return None
        if sym:
            if op == "+":
                return SI.add(a, b)
            if op == "-":
                return SI.sub(a, b)
            if op == "*":
                if isinstance(a, int):
                    return SymInt.lift(b).mul(a)
                if isinstance(b, int):
                    return SymInt.lift(a).mul(b)
                return None
            if op in ("&", "|", "^"):
                raise Undecided(f"bit operation on a qubit index: {a} {op} {b}", self.where())
            if op == "%" and SI.le(0, a) is True and SI.lt(a, b) is True:
                return a
            if op == "//" and SI.le(0, a) is True and SI.lt(a, b) is True:
                return 0
        return None

    def inst_binop(self, op, a, b):
        d = DUNDER[op]
        ta, tb = self.type_of(a), self.type_of(b)
        la = ta.lookup(f"__{d}__") if isinstance(a, InstObj) else None
        lb = tb.lookup(f"__r{d}__") if isinstance(b, InstObj) else None
        if lb is not None and ta is not tb and ta in tb.mro and (la is None or la[1] is not lb[1]):
            r = self.call(lb[1], [b, a], {})
            if r is not NotImplemented:
                return r
            lb = None
        if la is not None:
            r = self.call(la[1], [a, b], {})
            if r is not NotImplemented:
                return r
        elif isinstance(a, InstObj) and a.tup is not None and ta is not tb:
            r = self.tuple_binop(op, a, b)
            if r is not NotImplemented:
                return r
        elif not isinstance(a, InstObj):
            # builtin left operand: try its own operation first, then the reflected method
            if lb is None and isinstance(b, InstObj) and b.tup is not None:
                return self.tuple_binop(op, a, b)
        if lb is not None and ta is not tb:
            r = self.call(lb[1], [b, a], {})
            if r is not NotImplemented:
                return r
        if isinstance(a, InstObj) and a.tup is not None and la is None:
            return self.tuple_binop(op, a, b)
        return NotImplemented

    def tuple_binop(self, op, a, b):
        ta = a.tup if isinstance(a, InstObj) else a
        tb = b.tup if isinstance(b, InstObj) else b
        if op == "+" and isinstance(ta, tuple) and isinstance(tb, tuple):
            return ta + tb
        if op == "*" and isinstance(ta, tuple) and isinstance(tb, int):
            return ta * tb
        if op == "*" and isinstance(tb, tuple) and isinstance(ta, int):
            return tb * ta
        return NotImplemented

    def inplace(self, op, a, b):
        if isinstance(a, ListObj) and op == "+":
            self.E.put(a.f, "items", a.items + list(self.iter_items(b)))
            return a
        if isinstance(a, ListObj) and op == "*":
            if isinstance(b, int):
                self.E.put(a.f, "items", a.items * b)
                return a
        if isinstance(a, InstObj):
            c = a.cls.lookup(f"__i{DUNDER[op]}__")
            if c is not None:
                r = self.call(c[1], [a, b], {})
                if r is not NotImplemented:
                    return r
        if hasattr(a, "inplace"):
            r = a.inplace(self, op, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, SetObj) and not a.frozen and isinstance(b, SetObj):
            if op == "|":
                for k, v in list(b.f["items"].items()):
                    self.E.put(a.f, "items", {**a.f["items"], k: v})
                return a
        if isinstance(a, DictObj) and op == "|":
            for k, v in self.mapping_pairs(b):
                self.dict_set(a, k, v)
            return a
        if isinstance(a, DictObj) and a.cls.name == "Counter" and op == "+":
            for k, v in self.mapping_pairs(b):
                cur = self.dict_get(a, k)
                self.dict_set(a, k, v if cur is None else self.binop("+", cur[0], v))
            return a
        return self.binop(op, a, b)

    def unop(self, op, v):
        if isinstance(v, InstObj):
            c = v.cls.lookup({"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
            if c is None:
                raise self.exc("TypeError", f"bad operand type for unary {op}: '{v.cls.name}'")
            return self.call(c[1], [v], {})
        if isinstance(v, NUM):
            try:
                return -v if op == "-" else +v if op == "+" else ~v
            except TypeError as ex:
                raise self.exc("TypeError", str(ex))
        if isinstance(v, Scalar):
            return simp_s(-v) if op == "-" else v
        if isinstance(v, SymInt):
            if op == "-":
                return v.mul(-1)
            if op == "~":
                return SI.sub(v.mul(-1), 1)
            return v
        if isinstance(v, BitInt) and op == "~":
            return SI.bnot(v)
        if isinstance(v, BitInt) and op == "+":
            return v
        if isinstance(v, Cond) and op == "~":
            raise Undecided("~ on bool", self.where())
        if isinstance(v, AbsVal) or hasattr(v, "unop"):
            r = v.unop(self, op)
            if r is not NotImplemented:
                return r
        raise self.exc("TypeError", f"bad operand type for unary {op}: '{self.type_of(v).name}'")

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if op in ("is", "is not"):
            r = self.is_(a, b)
            if isinstance(r, Cond):
                return r if op == "is" else r.negate()
            return r if op == "is" else not r
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if op == "in":
                return r
            return r.negate() if isinstance(r, Cond) else not self.truth(r)
        if isinstance(a, (int, float, str, bytes, complex)) and isinstance(b, (int, float, str, bytes, complex)):
            try:
                return PYCMP[op](a, b)
            except TypeError as ex:
                raise self.exc("TypeError", str(ex))
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            r = self.inst_compare(op, a, b)
            if r is not NotImplemented:
                return r
            if op in ("==", "!="):
                same = a is b
                return same if op == "==" else not same
            raise self.exc("TypeError", f"'{op}' not supported between instances of '{self.type_of(a).name}' and '{self.type_of(b).name}'")
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, (AbsVal,)) or (hasattr(x, "compare") and isinstance(x, Obj)):
                r = x.compare(self, op if not refl else SWAP[op], y, refl)
                if r is not NotImplemented:
                    return r
        if self.is_num(a) and self.is_num(b):
            return self.num_compare(op, a, b)
        if op in ("==", "!="):
            r = self.eq_builtin(a, b)
            if op == "==":
                return r
            return r.negate() if isinstance(r, Cond) else not r
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListObj) and isinstance(b, ListObj):
            xs, ys = self.list_values(a), self.list_values(b)
            for x, y in zip(xs, ys):
                if not self.truth(self.compare("==", x, y)):
                    return self.compare(op, x, y)
            return PYCMP[op](len(xs), len(ys))
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            ka, kb = set(a.f["items"]), set(b.f["items"])
            return PYCMP[op](ka, kb)
        raise self.exc("TypeError", f"'{op}' not supported between instances of '{self.type_of(a).name}' and '{self.type_of(b).name}'")

    def num_compare(self, op, a, b):
        if self.is_int(a) and self.is_int(b):
            return self.int_cmp(op, a, b)
        sa, sb = self.to_scalar(a), self.to_scalar(b)
        if sa is None or sb is None:
            return Cond(("cmp", op, freeze(a), freeze(b)), f"{a} {op} {b}")
        if op in ("==", "!="):
            r = self.E.scalar_eq(sa, sb)
            if op == "==":
                return r
            return r.negate() if isinstance(r, Cond) else not r
        if "complex" in (sa.ty, sb.ty) and not (sa.is_real() and sb.is_real()):
            raise self.exc("TypeError", f"'{op}' not supported between instances of 'complex'")
        if op == "<":
            return self.E.scalar_lt(sa, sb)
        if op == ">":
            return self.E.scalar_lt(sb, sa)
        r = self.E.scalar_lt(sb, sa) if op == "<=" else self.E.scalar_lt(sa, sb)
        return r.negate() if isinstance(r, Cond) else not r

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or a is Ellipsis:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o, x = (a, b) if isinstance(a, Opaque) else (b, a)
                return Cond(("is", o.k, x), f"{o} is {x}")
            if isinstance(a, Cond) or isinstance(b, Cond):
                c, x = (a, b) if isinstance(a, Cond) else (b, a)
                if isinstance(x, bool):
                    return c if x else c.negate()
                return False
            return a is b
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) is type(b)
        if a is b:
            return True
        if isinstance(a, (FuncObj, Native, ExtModule)):
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == () and b == ()
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.k == b.k:
            return True
        return False

    def inst_compare(self, op, a, b):
        ta, tb = self.type_of(a), self.type_of(b)
        na, nb = CMPDUNDER[op], CMPDUNDER[SWAP[op]]
        la = ta.lookup(na) if isinstance(a, InstObj) else None
        lb = tb.lookup(nb) if isinstance(b, InstObj) else None
        first, second = ((la, a, b), (lb, b, a))
        if lb is not None and ta is not tb and ta in tb.mro:
            first, second = second, first
        for l, x, y in (first, second):
            if l is not None:
                r = self.call(l[1], [x, y], {})
                if r is not NotImplemented:
                    return r
            elif isinstance(x, InstObj) and op == "!=" and x.cls.lookup("__eq__") is not None:
                r = self.call(x.cls.lookup("__eq__")[1], [x, y], {})
                if r is not NotImplemented:
                    return r.negate() if isinstance(r, Cond) else not self.truth(r)
            elif isinstance(x, InstObj) and x.tup is not None:
                r = self.tuple_compare(op if x is a else SWAP[op], x, y)
                if r is not NotImplemented:
                    return r
        return NotImplemented

    def tuple_compare(self, op, x, y):
        yt = y.tup if isinstance(y, InstObj) else y
        if not isinstance(yt, tuple):
            return NotImplemented
        return self.compare(op, tuple(x.tup), tuple(yt))

    def eq_builtin(self, a, b):
        """== of builtin values, possibly with abstract components"""
        from . import models
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.eq_seq(a, b)
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return self.eq_seq(a.items, b.items)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            pa, pb = a.pairs(), b.pairs()
            if len(pa) != len(pb):
                return False
            for k, v in pa:
                o = self.dict_get(b, k)
                if o is None or not self.truth(self.compare("==", v, o[0])):
                    return False
            return True
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return set(a.f["items"]) == set(b.f["items"])
        if isinstance(a, RangeObj) and isinstance(b, RangeObj):
            return (a.start, a.stop, a.step) == (b.start, b.stop, b.step)
        if isinstance(a, SliceObj) and isinstance(b, SliceObj):
            return a.key() == b.key()
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if a is None or b is None:
            return a is b
        if isinstance(a, Partial) or isinstance(b, Partial):
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        if type(a) is not type(b):
            return False
        return a is b or (isinstance(a, CONC) and a == b)

    def eq_seq(self, xs, ys):
        if any(isinstance(x, (Rep, AbsElems)) for x in list(xs) + list(ys)):
            if len(xs) == len(ys) and all(freeze_item(x) == freeze_item(y) for x, y in zip(xs, ys)):
                return True
            raise Undecided("equality of symbolic-length sequences", self.where())
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if x is y:
                continue
            if not self.truth(self.compare("==", x, y)):
                return False
        return True

    def contains(self, c, x):
        from . import models
        if isinstance(c, InstObj):
            l = c.cls.lookup("__contains__")
            if l is not None:
                return self.call(l[1], [c, x], {})
        if isinstance(c, DictObj):
            return self.dict_get(c, x) is not None
        if isinstance(c, SetObj):
            return self.bkey(c.f["items"], self.hkey(x)) in c.f["items"]
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if hasattr(x, "parts"):
                raise Undecided("substring test on a template", self.where())
            raise self.exc("TypeError", "'in <string>' requires string as left operand")
        if isinstance(c, RangeObj):
            if isinstance(c.step, int) and c.step == 1:
                return self.truth(self.compare("<=", c.start, x)) and self.truth(self.compare("<", x, c.stop))
        if hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, Opaque):
            return Cond(("in", freeze(x), c.k), f"{x!r} in {c!r}")
        for y in self.list_values(c):
            if y is x or self.truth(self.compare("==", y, x)):
                return True
        return False

    # ------------------------------------------------------------------ hashing, dicts, sets
    def hkey(self, v):
        if isinstance(v, bool) or v is None:
            return ("c", v if v is None else int(v))
        if isinstance(v, int):
            return ("c", v)
        if isinstance(v, float):
            return ("c", int(v)) if v == int(v) else ("c", v)
        if isinstance(v, (complex, bytes)):
            return ("c", v)
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, tuple):
            return ("t",) + tuple(self.hkey(x) for x in v)
        if isinstance(v, SymInt):
            w = v.simp()
            if isinstance(w, int):
                return ("c", w)
            self.symkeys = True
            return ("i", v.key())
        if isinstance(v, BitInt):
            return ("b", v.key())
        if isinstance(v, Scalar):
            return ("S", v.key())
        if isinstance(v, InstObj):
            h = v.cls.lookup("__hash__")
            if h is not None:
                if h[1] is None:
                    raise self.exc("TypeError", f"unhashable type: '{v.cls.name}'")
                r = self.call(h[1], [v], {})
                return r.hk if hasattr(r, "hk") else ("c", r)
            if v.tup is not None:
                return ("t",) + tuple(self.hkey(x) for x in v.tup)
            return ("o", v.oid)
        if isinstance(v, (ListObj, DictObj)) or (isinstance(v, SetObj) and not v.frozen):
            raise self.exc("TypeError", f"unhashable type: '{self.type_of(v).name}'")
        if isinstance(v, SetObj):
            return ("fs", frozenset(v.f["items"]))
        if isinstance(v, Obj):
            return ("o", v.oid)
        if isinstance(v, AbsVal):
            return v.hkey(self)
        if isinstance(v, SliceObj):
            raise self.exc("TypeError", "unhashable type: 'slice'")
        return ("id", id(v))

    symkeys = False

    def bkey(self, items, hk):
        """the key among items that equals hk on this path (keys may hold symbolic integers), or hk itself"""
        if not self.symkeys or hk in items:
            return hk
        sym = has_sym(hk)
        for h in items:
            if sym or has_sym(h):
                pairs = []
                if unify(hk, h, pairs) and all(self.truth(self.compare("==", x, y)) for x, y in pairs):
                    return h
        return hk

    def dict_get(self, d, k):
        hk = self.bkey(d.f["items"], self.hkey(k))
        b = d.f["items"].get(hk)
        if b is None:
            return None
        for kk, vv in b:
            if kk is k or isinstance(k, (str, int, float, SymInt)) or self.truth(self.compare("==", kk, k)):
                return (vv,)
        return None

    def dict_set(self, d, k, v):
        items = d.f["items"]
        hk = self.bkey(items, self.hkey(k))
        b = items.get(hk)
        if b is None:
            new = dict(items)
            new[hk] = [(k, v)]
        else:
            nb = []
            done = False
            for kk, vv in b:
                if not done and (kk is k or isinstance(k, (str, int, float, SymInt)) or self.truth(self.compare("==", kk, k))):
                    nb.append((kk, v))
                    done = True
                else:
                    nb.append((kk, vv))
            if not done:
                nb.append((k, v))
            new = dict(items)
            new[hk] = nb
        self.E.put(d.f, "items", new)

    def dict_del(self, d, k):
        hk = self.bkey(d.f["items"], self.hkey(k))
        b = d.f["items"].get(hk)
        if b is not None:
            nb = [(kk, vv) for kk, vv in b if not (kk is k or self.truth(self.compare("==", kk, k)))]
            if len(nb) != len(b):
                new = dict(d.f["items"])
                if nb:
                    new[hk] = nb
                else:
                    del new[hk]
                self.E.put(d.f, "items", new)
                return
        raise self.exc("KeyError", k)

    def set_add(self, s, v):
        hk = self.bkey(s.f["items"], self.hkey(v))
        if hk not in s.f["items"]:
            self.E.put(s.f, "items", {**s.f["items"], hk: v})

    def mapping_pairs(self, v):
        if isinstance(v, DictObj):
            return v.pairs()
        if isinstance(v, InstObj) and v.cls.lookup("keys"):
            ks = self.list_values(self.call_method(v, "keys"))
            return [(k, self.getitem(v, k)) for k in ks]
        raise Undecided(f"mapping {v!r}", self.where())

    # ------------------------------------------------------------------ iteration
    def iter_items(self, v):
        """list of elements (possibly Rep / AbsElems)"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListObj):
            return list(v.items)
        if isinstance(v, IterObj):
            self.start(v)
            items = v.f["items"][v.f["pos"]:]
            self.E.put(v.f, "pos", len(v.f["items"]))
            return items
        if isinstance(v, DictObj):
            return [k for k, _ in v.pairs()]
        if isinstance(v, SetObj):
            return list(v.f["items"].values())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeObj):
            return self.range_items(v)
        if isinstance(v, InstObj):
            c = v.cls.lookup("__iter__")
            if c is not None:
                r = self.call(c[1], [v], {})
                if isinstance(r, InstObj) and r.cls.lookup("__next__"):
                    out = []
                    while True:
                        try:
                            out.append(self.call_method(r, "__next__"))
                        except PyRaise as pr:
                            if pr.exc.cls.name == "StopIteration":
                                return out
                            raise
                        if len(out) > self.MAXITER:
                            raise Undecided("iterator does not stop", self.where())
                return self.iter_items(r)
            if v.tup is not None:
                return list(v.tup)
            if v.cls.lookup("__getitem__"):
                out = []
                while True:
                    try:
                        out.append(self.getitem(v, len(out)))
                    except PyRaise as pr:
                        if pr.exc.cls.name == "IndexError":
                            return out
                        raise
                    if len(out) > self.MAXITER:
                        raise Undecided("iteration by index does not stop", self.where())
        if isinstance(v, AbsVal) or hasattr(v, "iterate"):
            return v.iterate(self)
        raise self.exc("TypeError", f"'{self.type_of(v).name}' object is not iterable")

    def start(self, it):
        if it.f["items"] is None:
            items = it.thunk()
            self.E.put(it.f, "items", list(items))

    def list_values(self, v):
        """elements as plain values; symbolic segments are not allowed"""
        items = self.iter_items(v)
        out = []
        for x in items:
            if isinstance(x, Rep):
                if not isinstance(x.count, SymInt):
                    out += list(x.block) * x.count
                    continue
                raise Undecided("sequence of symbolic length", self.where())
            if isinstance(x, AbsElems):
                raise Undecided(f"sequence of unknown length ({x.name})", self.where())
            out.append(x)
        return out

    def range_items(self, r):
        if all(isinstance(x, int) for x in (r.start, r.stop, r.step)):
            rg = range(r.start, r.stop, r.step)
            if len(rg) > self.MAXITER:
                raise Undecided("range too long for the analysis bound", self.where())
            return list(rg)
        if isinstance(r.step, int) and abs(r.step) == 1 and all(isinstance(x, (int, SymInt)) for x in (r.start, r.stop)):
            lo, hi = (r.start, r.stop) if r.step == 1 else (SI.add(r.stop, 1), SI.add(r.start, 1))
            n = SI.sub(hi, lo)
            if isinstance(n, int):
                vals = [SI.add(lo, k) for k in range(max(n, 0))]
                return vals if r.step == 1 else vals[::-1]
            # segments between the known qubit positions
            out = []
            cur = lo
            for p in self.positions:
                if SI.le(lo, p) is True and SI.lt(p, hi) is True:
                    if SI.eq(cur, p) is not True:
                        out.append(self.gap(cur, p))
                    out.append(p)
                    cur = SI.add(p, 1)
                elif SI.lt(p, lo) is True or SI.le(hi, p) is True:
                    continue
                else:
                    raise Undecided(f"position {p} relative to range({lo},{hi})", self.where())
            if SI.eq(cur, hi) is not True:
                out.append(self.gap(cur, hi))
            return out if r.step == 1 else out[::-1]
        if isinstance(r.stop, BitInt) and SI.eq(r.start, 0) is True if not isinstance(r.start, BitInt) else False:
            p = r.stop.pow2()
            if p is not None:
                return [AbsElems(lambda: SI.var(self.fresh("k"), p), "range")]
        raise Undecided(f"range({r.start},{r.stop},{r.step})", self.where())

    def gap(self, lo, hi):
        """generic indices strictly between known positions"""
        n = SI.sub(hi, lo)
        a = self.fresh("g")
        # k = lo + u with 0 <= u < hi-lo : value modelled by a free slack, order facts to lo/hi by construction
        k = GapIndex(lo, hi, a)
        return Rep((k,), n)

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        from . import models
        return models.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import models
        return models.setitem(self, o, k, v)

    def delitem(self, o, k):
        if isinstance(o, DictObj):
            return self.dict_del(o, k)
        if isinstance(o, ListObj):
            from . import models
            items = list(o.items)
            if isinstance(k, SliceObj) or isinstance(k, int):
                if any(isinstance(x, (Rep, AbsElems)) for x in items):
                    raise Undecided("del on a symbolic list", self.where())
                try:
                    del items[models.pyslice(k) if isinstance(k, SliceObj) else k]
                except IndexError as ex:
                    raise self.exc("IndexError", str(ex))
                self.E.put(o.f, "items", items)
                return
        if isinstance(o, InstObj):
            c = o.cls.lookup("__delitem__")
            if c is not None:
                return self.call(c[1], [o, k], {})
        raise Undecided("del of an item", self.where())

    # ------------------------------------------------------------------ public access for the checks
    def attr_path(self, module, path):
        """resolve a public entity; a missing one is a lost anchor"""
        m = self.load(module)
        o = m
        for p in path.split("."):
            try:
                o = self.getattr(o, p)
            except PyRaise:
                raise AnchorLost(f"{module}.{path}")
        return o


class GapIndex(AbsVal):
    """an index strictly between two neighbouring known positions"""
    def __init__(self, lo, hi, name):
        self.lo, self.hi, self.name = lo, hi, name

    def __repr__(self):
        return f"idx[{self.lo},{self.hi})"

    def compare(self, I, op, other, refl):
        if isinstance(other, (int, SymInt)):
            if SI.lt(other, self.lo) is True:
                r = ">"
            elif SI.le(self.hi, other) is True:
                r = "<"
            else:
                raise Undecided(f"generic index {self} compared with {other}")
            return {"==": False, "!=": True, "<": r == "<", "<=": r == "<", ">": r == ">", ">=": r == ">"}[op]
        if isinstance(other, GapIndex) and other.name == self.name:
            return op in ("==", "<=", ">=")
        return NotImplemented

    def binop(self, I, op, other, refl):
        raise Undecided(f"arithmetic on a generic index {self}")

    def getattr(self, I, name):
        if name == "__index__":
            return Native("__index__", lambda I, a, k: self)
        return NotImplemented

    def hkey(self, I):
        return ("gap", self.name)

    def cls(self, I):
        return I.bt["int"]


class SuperVal:
    def __init__(self, cls, obj):
        self.c, self.obj = cls, obj

    def getattr(self, I, name):
        from . import models
        ocls = self.obj if isinstance(self.obj, ClassObj) else self.obj.cls
        mro = ocls.mro
        i = mro.index(self.c)
        for b in mro[i + 1:]:
            if name in b.f:
                v = b.f[name]
                if isinstance(self.obj, ClassObj) and isinstance(v, FuncObj):
                    return v
                return I.bind_attr(v, self.obj, ocls)
        if name == "__init__":
            return Native("object.__init__", lambda I, a, k: None)
        if name == "__new__":
            def new(I, a, k):
                base = next((b for b in a[0].mro if b.construct is not None), None)
                return base.construct(I, a[0], a[1:], k) if base else InstObj(a[0])
            return Native("object.__new__", new)
        r = models.object_attr(I, self.obj, name)
        if r is not None:
            return r
        raise I.exc("AttributeError", f"'super' object has no attribute '{name}'")


# libraries whose functions are modelled: a call of one that is not leaves its result unknown (Check.run)
LIBS = {"numpy", "scipy", "sympy", "math", "cmath", "itertools", "functools", "collections", "operator", "random", "copy",
        "re", "string", "fractions", "decimal", "statistics", "bisect", "heapq", "array", "struct", "json", "os", "sys",
        "time", "datetime", "types", "inspect", "textwrap", "io", "contextlib", "abc", "numbers", "weakref", "threading"}


class SemanticAlarm(Exception):
    """a rule is violated by the analysed construct itself (e.g. overlapping parallel writes)"""
    def __init__(self, rule, text, where):
        super().__init__(text)
        self.rule, self.text, self.where_ = rule, text, where


def has_sym(hk):
    return isinstance(hk, tuple) and bool(hk) and (hk[0] == "i" or any(has_sym(x) for x in hk if isinstance(x, tuple)))


def unify(a, b, pairs):
    """can two hash keys be equal; collects the integers that have to be"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and (a[0] in ("i", "c") and b[0] in ("i", "c")) and (a[0] == "i" or b[0] == "i"):
        x, y = (SymInt(t[1][0], dict(t[1][1])) if t[0] == "i" else t[1] for t in (a, b))
        if not all(isinstance(t, SymInt) or isinstance(t, int) for t in (x, y)):
            return False
        pairs.append((x, y))
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(unify(x, y, pairs) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def simp_s(s):
    return s


def _fz(s):
    from .scalar import FrozenS
    return FrozenS(Scalar.lift(s))


def freeze_item(x):
    if isinstance(x, Rep):
        return ("rep", tuple(freeze_item(b) for b in x.block), SI.skey(x.count))
    if isinstance(x, AbsElems):
        return ("abs", x.name)
    if isinstance(x, AbsVal) and not isinstance(x, Opaque):
        return ("A", repr(x))
    return freeze(x)


def _in_loop(fn, s):
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)) and n is not s and any(c is s for c in ast.walk(n)):
            return True
    return False


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned_before_use(body, name):
    """the first statement of the loop body that mentions `name` assigns it without reading it"""
    for st in body:
        uses = [n for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == name]
        if not uses:
            continue
        if isinstance(st, ast.Assign):
            reads = [n for n in ast.walk(st.value) if isinstance(n, ast.Name) and n.id == name]
            sub = [n for t in st.targets for n in ast.walk(t) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Store)]
            return not reads and not sub
        if isinstance(st, ast.AugAssign):
            return False
        return False
    return True


from . import stdmore  # noqa: E402
