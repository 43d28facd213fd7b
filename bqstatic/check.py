"""Entry point:  python3 -m bqstatic.check C01 [--explain]

exit 0  the property holds on everything that was explored; obligations the analysis could not decide are listed
        (none on the tree as committed)
exit 1  a construct of the tree violates the property (one VIOLATION line per run)
exit 2  lost anchor, or fewer obligations decided than not: no verdict
"""
import contextlib
import gc
import importlib
import json
import os
import sys
import time
import traceback
import warnings

from .errors import *
from .core import Engine
from .interp import SemanticAlarm
from .scen import Finding

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORKERS = int(os.environ.get("BQ_WORKERS", "0") or 0) or min(8, os.cpu_count() or 1)
KNOWN = os.path.join(VERIF, "known_findings.json")


def explain_raise(e):
    args = e.exc.f.get("args", ())
    return f"{e.exc.cls.name}({', '.join(map(repr, args))}) raised in {' <- '.join(e.trace[:4])}"


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = []       # (name, mode, traces)
        self.findings = []          # dict(rule, construct, text, obligation)
        self.undecided = []         # (name, reason)
        self.interps = []
        self.notes = []
        self.bounded = []
        self.t0 = time.time()
        self.samples = []
        self.queue = None
        self.stated = []            # (interpreter, name, scenario) in the order they were stated
        self.no_history = ()        # obligations that leave a registration behind

    def use(self, I):
        self.interps.append(I)
        return I

    # ---- one obligation = one scenario explored over all its abstract traces
    def run(self, I, name, fn, mode="symbolic"):
        """fn() is executed on every abstract trace; it raises Finding when the obligation fails on that trace.
        returns True when decided"""
        E = I.E
        mark = len(E.log)
        um = len(E.unmodelled)
        saved = (E.prefix, E.pos, E.taken)
        depth = len(I.stack)
        E.deadline = min(time.time() + (150 if self.tier == "quick" else 600), self.t0 + (800 if self.tier == "quick" else 20000))

        def go():
            try:
                return fn()
            except PyRaise as e:
                raise Finding("unexpected-exception", name, explain_raise(e))
        try:
            res = E.explore(go)
            if not res:
                self.undecided.append((name, "every abstract trace was pruned"))
                return False
            if hasattr(fn, "final"):
                fn.final([r for r, _ in res])
            self.obligations.append((name, mode, len(res)))
            if len(self.samples) < 4:
                self.samples.append({"obligation": name, "mode": mode, "traces": len(res),
                                     "decisions": [l for _, l in res[0][1]][:8]})
            return True
        except (Finding, SemanticAlarm) as f:
            if E.unmodelled:
                # the value in question may come from a library function whose result is not modelled
                self._last = (name, f"no model of {', '.join(sorted(set(E.unmodelled)))} ({f.text})")
                return None
            if isinstance(f, SemanticAlarm):
                self.fail(f.rule, f.where_.split(" in ")[-1], f"{f.text} ({f.where_})", name, [])
                return True
            self.fail(f.rule, f.construct, f.text, name, [l if c == 0 else f"not ({l})" for c, n, l in E.taken])
            return True
        except Undecided as u:
            self._last = (name, str(u))
            return None
        except (RecursionError, ZeroDivisionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError,
                AssertionError, NotImplementedError) as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            self._last = (name, f"analyser error {type(ex).__name__}: {ex} at {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno}")
            return None
        finally:
            E.rollback(mark)
            E.prefix, E.pos, E.taken = saved
            if os.environ.get("BQ_UNMODELLED") and len(E.unmodelled) > um:
                print("    unmodelled", name, sorted(set(E.unmodelled[um:])), flush=True)
            del E.unmodelled[um:]
            del I.stack[depth:]
            I.loopctx.clear()

    @contextlib.contextmanager
    def batch(self):
        """obligations stated inside are independent: they are decided by several processes at the end of the block"""
        if self.queue is not None:
            yield
            return
        self.queue = []
        try:
            yield
            jobs, self.queue = self.queue, None
            self.flush(jobs)
        finally:
            self.queue = None

    def one(self, job):
        kind, I, name, fn, fallbacks = job
        t = time.time()
        if kind == "bounded":
            self.run_bounded(I, name, fn)
        elif kind == "history":
            self.run_history(I, name, fn)
        else:
            self.oblige(I, name, fn, fallbacks)
        if os.environ.get("BQ_TIMES") and time.time() - t > 1:
            print(f"    {time.time() - t:.1f}s {name}", flush=True)

    LISTS = ("obligations", "findings", "undecided", "bounded", "samples", "notes")

    def flush(self, jobs):
        W = min(WORKERS, (len(jobs) + 3) // 4)
        if W < 2:
            for j in jobs:
                self.one(j)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        # the job numbers are handed out through a pipe
        jr, jw = os.pipe()
        per = (len(jobs) + 15999) // 16000
        os.write(jw, b"".join(i.to_bytes(4, "little") for i in range(0, len(jobs), per)))
        os.close(jw)
        kids = []
        gc.collect()
        gc.freeze()
        for w in range(W):
            r, wr = os.pipe()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    out = self.work(jobs, jr, per)
                    with os.fdopen(wr, "w") as f:
                        json.dump(out, f, default=str)
                    rc = 0
                finally:
                    os._exit(rc)
            os.close(wr)
            kids.append((pid, r))
        outs = []
        for pid, r in kids:
            with os.fdopen(r) as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            outs.append(json.loads(data) if st == 0 and data else None)
        os.close(jr)
        got = {}
        for o in outs:
            if o is None:
                continue
            for i, res in o["res"]:
                got[i] = res
            for k, (cover, stats) in enumerate(o["interps"]):
                I = self.interps[k]
                for q, n in cover.items():
                    I.cover[q] = I.cover.get(q, 0) + n
                for q, n in stats.items():
                    I.E.stats[q] = I.E.stats.get(q, 0) + n
        for i in range(len(jobs)):
            if i not in got:            # a worker died
                self.one(jobs[i])
        for i in sorted(got):
            if "error" in got[i]:
                raise Undecided(got[i]["error"])
            for l in self.LISTS:
                getattr(self, l).extend([tuple(x) if isinstance(x, list) else x for x in got[i][l]])
        del self.samples[4:]

    def work(self, jobs, jr, per):
        for I in self.interps:
            I.cover.clear()
            I.E.stats = dict.fromkeys(I.E.stats, 0)
        out = []
        while True:
            b = os.read(jr, 4)
            if len(b) < 4:
                break
            first = int.from_bytes(b, "little")
            for i in range(first, min(first + per, len(jobs))):
                for l in self.LISTS:
                    setattr(self, l, [])
                res = {}
                try:
                    self.one(jobs[i])
                except (AnchorLost, Undecided) as e:
                    res["error"] = f"{jobs[i][2]}: {type(e).__name__} {e}"
                except PyRaise as e:
                    res["error"] = f"{jobs[i][2]}: {explain_raise(e)}"
                for l in self.LISTS:
                    res[l] = getattr(self, l)
                out.append((i, res))
        return {"res": out, "interps": [(dict(I.cover), I.E.stats) for I in self.interps]}

    def oblige(self, I, name, fn, fallbacks=()):
        """decide fn symbolically; when that is undecided use the listed bounded instances instead"""
        self.state(I, name, fn)
        if self.queue is not None:
            self.queue.append(("oblige", I, name, fn, fallbacks))
            return True
        n0 = len(self.findings)
        r = self.run(I, name, fn)
        if r is not None:
            return r and len(self.findings) == n0
        reason = self._last[1]
        if fallbacks:
            for sub, f in fallbacks:
                r = self.run(I, f"{name} {sub}", f, "bounded")
                if r is None:
                    self.undecided.append((name, f"{reason}; bounded instance: {self._last[1]}"))
                    return False
                if len(self.findings) > n0:
                    return False
            self.bounded.append((name, reason))
            return True
        self.undecided.append((name, reason))
        return False

    def run_bounded(self, I, name, fn):
        """an obligation stated for a bounded instance only"""
        self.state(I, name, fn)
        if self.queue is not None:
            self.queue.append(("bounded", I, name, fn, ()))
            return
        if self.run(I, name, fn, "bounded") is None:
            self.undecided.append((name, self._last[1]))

    def state(self, I, name, fn):
        if name.split("[")[0] in self.no_history:
            return
        if not self.stated or self.stated[-1][2] is not fn:
            self.stated.append((I, name, fn))

    # ---- the same obligations in a process that has already executed another one
    HISTORIES = {"quick": 1200, "thorough": 20000}

    def histories(self, most=None):
        """every obligation again, after the one stated before it and after the one stated behind it"""
        st = self.stated
        pairs = [(st[i + d], st[i]) for i in range(len(st)) for d in (-1, 1)
                 if 0 <= i + d < len(st) and st[i + d][0] is st[i][0]]
        top = most or self.HISTORIES[self.tier]
        pairs = pairs[::(len(pairs) + top - 1) // top] if len(pairs) > top else pairs
        gc.collect()
        self.flush([("history", I, f"{name}  [after: {before}]", (first, fn), ()) for (_, before, first), (I, name, fn) in pairs])

    def run_history(self, I, name, fns):
        first, fn = fns
        E = I.E
        mark, um = len(E.log), len(E.unmodelled)
        saved = (E.prefix, E.pos, E.taken)
        depth = len(I.stack)
        E.deadline = time.time() + 20
        t0 = time.time()

        def go():
            if time.time() > t0 + 8:
                raise Undecided("time")
            try:
                first()
            except (Finding, SemanticAlarm, PyRaise):
                del I.stack[depth:]
                I.loopctx.clear()
            if len(E.unmodelled) > um:
                raise Undecided("not modelled")
            try:
                return fn()
            except PyRaise as e:
                raise Finding("unexpected-exception", name, explain_raise(e))
        try:
            n = len(E.explore(go, 60))
            if n:
                self.obligations.append((name, "history", n))
        except (Finding, SemanticAlarm) as f:
            if E.unmodelled:
                return
            if isinstance(f, SemanticAlarm):
                self.fail(f.rule, f.where_.split(" in ")[-1], f"{f.text} ({f.where_})", name, [])
            else:
                self.fail(f.rule, f.construct, f.text + "; the result depends on what the process executed before", name,
                          [l if c == 0 else f"not ({l})" for c, n, l in E.taken])
        except (Undecided, RecursionError, ZeroDivisionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError,
                AssertionError, NotImplementedError) as u:
            if os.environ.get("BQ_TIMES"):
                print(f"    no history {name}: {type(u).__name__} {u}", flush=True)
        finally:
            E.rollback(mark)
            E.prefix, E.pos, E.taken = saved
            del E.unmodelled[um:]
            del I.stack[depth:]
            I.loopctx.clear()

    def fail(self, rule, construct, text, name="", path=()):
        self.findings.append({"rule": rule, "construct": construct, "text": text, "obligation": name, "path": list(path)})


def require(cond, rule, construct, text):
    if not cond:
        raise Finding(rule, construct, text)


def load_known():
    try:
        return json.load(open(KNOWN))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def known_for(known, pid, f):
    return next((k for k in known["findings"] if k["property"] == pid and k["rule"] == f["rule"] and k["construct"] == f["construct"]), None)


def new_findings(ck, known):
    return [f for f in ck.findings if not known_for(known, ck.pid, f)]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f".checks.{pid.lower()}", __package__)
    ck = Check(pid, tier, seed)
    ck.no_history = getattr(mod, "NO_HISTORY", ())
    err = None
    try:
        if getattr(mod, "BATCH", False):
            with ck.batch():
                mod.check(ck)
        else:
            mod.check(ck)
        if (getattr(mod, "HISTORY", False) or os.environ.get("BQ_HISTORY")) and not new_findings(ck, load_known()):
            h = getattr(mod, "HISTORY", True)
            ck.histories(h if h is not True and tier == "quick" else None)
    except AnchorLost as e:
        err = f"anchor lost: {e}"
    except PyRaise as e:
        err = "the package cannot be imported: " + explain_raise(e)
        if not any(I.E.unmodelled for I in ck.interps):
            ck.fail("import", "import", err, "import")
            err = None
    except Undecided as e:
        err = f"undecided: {e}"
    except (Finding, SemanticAlarm) as f:
        um = sorted({x for I in ck.interps for x in I.E.unmodelled})
        if um:
            err = f"no model of {', '.join(um)} ({f.text})"
        else:
            ck.fail(f.rule, f.construct if isinstance(f, Finding) else f.where_.split(" in ")[-1], f.text, "setup")
    minimum = getattr(mod, "MIN_OBLIGATIONS", 1)
    if err is None and not ck.findings and not ck.undecided and len(ck.obligations) < minimum:
        err = f"only {len(ck.obligations)} obligations were generated, {minimum} were expected"
    known = load_known()
    new, old = [], []
    for f in ck.findings:
        k = known_for(known, pid, f)
        (old if k else new).append(f)
    seen = set()
    for f in old:
        k = (f["rule"], f["construct"])
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={pid} {f['rule']} {f['construct']}: {f['text'][:300]}")
    functions = {}
    for I in ck.interps:
        for q, n in I.cover.items():
            functions[q] = functions.get(q, 0) + n
    functions = {q: n for q, n in functions.items() if not q.startswith(("__scenario__", "scenario"))}
    stats = {}
    for I in ck.interps:
        for k, v in I.E.stats.items():
            stats[k] = stats.get(k, 0) + v
    wall = time.time() - ck.t0
    unb = [n for n, m, t in ck.obligations if m == "symbolic"]
    expl = (getattr(mod, "RULE", "") + f" This run: {len(ck.obligations)} obligations decided on {sum(t for _, _, t in ck.obligations)} abstract traces "
            f"({len(unb)} for generic widths/values, {len(ck.obligations) - len(unb)} on bounded instances), "
            f"{len(functions)} functions of the tree interpreted.")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": expl, "obligations": len(ck.obligations) + len(ck.undecided),
                       "discharged": len(ck.obligations), "abstract_traces": stats.get("traces", 0),
                       "decisions_forked": stats.get("forks", 0), "loops_summarised": stats.get("loops_summarised", 0),
                       "functions_analysed": sorted(functions), "bounded_instead_of_generic": ck.bounded[:50],
                       "rule": getattr(mod, "RULE", ""), "samples": ck.samples,
                       "undecided": ck.undecided[:50], "notes": ck.notes},
          "assumptions": list(getattr(mod, "ASSUME", ())), "wall_s": round(wall, 3), "violations": len(new)}
    evdir = os.environ.get("BQ_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1, default=str)
    print(f"{pid}: {len(ck.obligations)} obligations decided ({len(ck.bounded)} only on bounded instances), "
          f"{len(functions)} functions analysed, {len(ck.undecided)} undecided, {len(new)} violations, {len(old)} known, {wall:.1f}s")
    if "--list" in argv:
        for n, m, t in ck.obligations:
            print("   ", m, t, n)
    path = os.path.join(evdir, f"{pid}.violation.json")
    if not new and os.path.exists(path):
        os.unlink(path)
    if new:
        path = os.path.join(evdir, f"{pid}.violation.json")
        json.dump(new, open(path, "w"), indent=1, default=str)
        for f in new[:8]:
            print(f"  [{f['rule']}] {f['construct']}: {f['text'][:600]}" + (f"  when {'; '.join(f['path'][:6])}" if f["path"] else ""))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for n, r in ck.undecided[:10]:
        print(f"  undecided {n}: {r[:600]}")
    # the verdict is about what was explored; it is only given when that is the bulk of the property
    if ck.undecided:
        print(f"  {len(ck.undecided)} of {len(ck.undecided) + len(ck.obligations)} obligations are UNDECIDED, the verdict covers the rest")
        if len(ck.undecided) > len(ck.obligations) or 2 * len(ck.obligations) < minimum:
            err = err or "too little was decided"
    if err:
        print("  " + err)
        return 2
    return 0


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def body():
        rc[0] = main(sys.argv[1:])
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
