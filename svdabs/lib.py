"""What a check is made of: obligations, verdicts, and the two-sided comparison of a function of the tree with the
reference semantics of a property."""
from __future__ import annotations

import json
import contextlib
import os
import pickle
import resource
import select
import signal
import time

from .compare import Cmp, Diff, effect_guards, effect_guards_ok, exc_name, raise_guards, wrap_ctx
from .core import *  # noqa: F401,F403
from .core import TooBig
from .interp import Budget, Interp, State
from .program import AnalysisBroken, Program
from . import theory
from .theory import feasible, search, understood

HERE = os.path.dirname(os.path.abspath(__file__))


INSTANCE_SECONDS, INSTANCE_START = 45, 300


class Res:
    """summary of one analysed function"""

    def __init__(self, st, val, log, raised, func):
        self.st, self.val, self.log, self.raised, self.func = st, val, log, raised, func
        self.trace = None

    def raise_all(self):
        r = FALSE
        for o in self.raised:
            r = bor(r, o.st.pc)
        return r


def params(f):
    a = f.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]


_signatures = None


def same_call(f):
    """the function still takes what the references pass it: as many parameters, none of them moved"""
    global _signatures
    if _signatures is None:
        with open(os.path.join(HERE, "signatures.json")) as h:
            _signatures = json.load(h)
    old, new = _signatures.get(f.qual), params(f)
    return old is None or len(old) == len(new) and all(n not in new or new.index(n) == i for i, n in enumerate(old))


def known_call(f):
    """a function of the references, or one the references knew as it is called now"""
    return not f.qual.startswith("svdsuite.") or same_call(f) and f.qual in _signatures


# errors the language raises by itself on certain values
BARE = {"KeyError", "IndexError", "ValueError", "TypeError", "AttributeError", "StopIteration", "ZeroDivisionError", "OverflowError",
        "UnicodeDecodeError", "UnicodeEncodeError", "binascii.Error"}


class Check:
    def __init__(self, pid, root="/repo", tier="quick"):
        self.pid, self.root, self.tier = pid, root, tier
        self.prog = Program(root)
        self.violations: list = []
        self.undecided: list = []
        self.rules: dict = {}
        self.samples: list = []
        self.functions: set = set()
        self.steps = 0
        self.anchors_missing: list = []
        self.anchors_found = 0
        self.jobs = None
        self.small = None
        self.begun = time.time()

    # -- bookkeeping ----------------------------------------------------
    def ok(self, rule, n=1):
        r = self.rules.setdefault(rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += n
        r["discharged"] += n

    def bad(self, rule, construct, loc, detail):
        r = self.rules.setdefault(rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        self.violations.append({"rule": rule, "construct": construct, "loc": loc, "detail": detail})

    def unk(self, rule, construct, why):
        r = self.rules.setdefault(rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        self.undecided.append({"rule": rule, "construct": construct, "why": why[:500]})

    def missing(self, rule, what):
        self.anchors_missing.append(what)
        self.unk(rule, what, "not found in this tree")

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # -- jobs -------------------------------------------------------------
    KEYS = ("violations", "undecided", "rules", "samples", "functions", "steps", "anchors_missing", "anchors_found")

    def _child(self, job, w):
        try:
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            self.jobs = None
            self.violations, self.undecided, self.rules, self.samples = [], [], {}, []
            self.functions, self.anchors_missing, self.steps, self.anchors_found = set(), [], 0, 0
            self._guarded(*job)
            data = pickle.dumps({k: getattr(self, k) for k in self.KEYS})
        except BaseException as e:  # noqa: B902
            data = pickle.dumps({"broken": f"{type(e).__name__} {e}"})
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)

    def run_jobs(self, deadline, width=None):
        """decide the queued obligations, several at a time; what is not decided by the deadline stays undecided"""
        width = width or max(1, min(8, os.cpu_count() or 1))
        jobs, self.jobs = self.jobs or [], None
        results: dict = {}
        live: dict = {}
        nxt = 0
        while live or nxt < len(jobs):
            while nxt < len(jobs) and len(live) < width and time.time() < deadline:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    os.setpgid(0, 0)
                    self._child(jobs[nxt], w)
                os.close(w)
                with contextlib.suppress(OSError):
                    os.setpgid(pid, pid)
                live[r] = (nxt, pid, [])
                nxt += 1
            if not live:
                break
            rd, _, _ = select.select(list(live), [], [], max(0.05, min(5.0, deadline - time.time())))
            for r in rd:
                d = os.read(r, 1 << 20)
                i, pid, buf = live[r]
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    results[i] = pickle.loads(b"".join(buf))
                except Exception:
                    results[i] = {"broken": "analysis process ended"}
            if time.time() >= deadline:
                for r, (i, pid, _) in live.items():
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                break
        for i, (rule, what, _) in enumerate(jobs):
            d = results.get(i, {"broken": "not decided in time"})
            if "broken" in d:
                self.unk(rule, what, d["broken"])
                continue
            self._add(d)

    # -- running --------------------------------------------------------
    def spec(self, name):
        if "specs.drivers" not in self.prog.modules:
            for n in sorted(os.listdir(os.path.join(HERE, "specs"))):
                if n.endswith(".py"):
                    self.prog.add_module("specs." + n[:-3], os.path.join(HERE, "specs", n))

    def func(self, ref):
        """'Class.method' | 'module:function' | 'specs.mod.fn'"""
        if ref.startswith("specs."):
            self.spec(ref.split(".")[1])
            return self.prog.funcs.get(ref)
        if ":" in ref:
            m, n = ref.split(":")
            f = self.prog.funcs.get(f"svdsuite.{m}.{n}")
            if f is not None:
                return f
            c = [f for f in self.prog.funcs.values() if f.name == n and f.cls is None and f.module.name.startswith("svdsuite")]
            return c[0] if len(c) == 1 else None
        c, n = ref.split(".")
        f = self.prog.find_func(c, n)
        if f is not None:
            return f
        k = self.prog.cls(c)
        return self.prog.find_method(k, n) if k is not None else None

    def interp(self, opaque=(), coarse=True):
        I = Interp(self.prog, opaque=[self._qual(o) for o in opaque])
        I.coarse = coarse
        I.small = self.small
        self.recursed = I.recursed
        return I

    def _qual(self, o):
        if o in self.prog.funcs or o in self.prog.classes:
            return o
        f = self.func(o) if ("." in o or ":" in o) else None
        if f is not None:
            return f.qual
        c = self.prog.cls(o)
        return c.qual if c is not None else o

    def run(self, f, args=None, I=None, selfv=None, st=None):
        I = I or self.interp()
        s0 = I.steps
        r = I.run(f, args or {}, st=st, selfv=selfv)
        self.steps += I.steps - s0
        self.functions |= I.funcs_seen
        return Res(*r, f)

    def symself(self, f):
        if f.cls is None or "staticmethod" in f.decorators or "classmethod" in f.decorators:
            return None
        return sym("self", ty(("cls", f.cls.qual)))

    def symbols(self, f):
        """the symbolic arguments of f, in order"""
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        if f.cls is not None and "staticmethod" not in f.decorators:
            ps = ps[1:]
        return [(p.arg, sym(p.arg, self.prog.ann_type(f.module, p.annotation))) for p in ps]

    # -- the comparison ---------------------------------------------------
    def equiv(self, rule, actual, required, *a, **k):
        return self._guarded(rule, actual, lambda: self._equiv(rule, actual, required, *a, **k))

    def closure(self, rule, actual, start, step, **k):
        return self._guarded(rule, actual, lambda: self._closure(rule, actual, start, step, **k))

    def staged(self, rule, whole, parts, proves=False):
        """decide `whole`; where the analysis cannot, decide its `parts` one after the other instead. A part that differs is a
        violation; if all agree and together they make up the whole (`proves`) it is discharged, else it stays undecided."""
        return self._guarded(rule, whole[0], lambda: self._staged(rule, whole, parts, proves))

    def _staged(self, rule, whole, parts, proves):
        def attempt(actual, required, kw):
            """in a process of its own: what an analysis leaves behind does not influence the next one"""
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self._child((rule, actual, lambda: self._equiv(rule, actual, required, **kw)), w)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            got = pickle.loads(data) if data else {"broken": "analysis process ended"}
            if "broken" in got:
                got = dict(dict.fromkeys(("violations", "samples", "anchors_missing"), []), functions=set(), steps=0, anchors_found=0,
                           rules={rule: {"obligations": 1, "discharged": 0}},
                           undecided=[{"rule": rule, "construct": actual, "why": got["broken"]}])
            return got

        first = attempt(*whole)
        if first["violations"] or not first["undecided"]:
            return self._add(first)
        done, short = [], False
        for part in parts:
            got = attempt(*part)
            if got["violations"]:
                return self._add(got)
            short = short or bool(got["undecided"])
            done.append(got)
        for got in done if proves and done and not short else [first]:
            self._add(got)

    def _add(self, d):
        self.violations += d["violations"]
        self.undecided += d["undecided"]
        for k, v in d["rules"].items():
            r = self.rules.setdefault(k, {"obligations": 0, "discharged": 0})
            r["obligations"] += v["obligations"]
            r["discharged"] += v["discharged"]
        for x in d["samples"]:
            self.sample(x)
        self.functions |= d["functions"]
        self.steps += d["steps"]
        self.anchors_missing += d["anchors_missing"]
        self.anchors_found += d["anchors_found"]

    def _guarded(self, rule, what, thunk):
        """one obligation, analysed in a process of its own (jobs) so that none influences another; an analyser that
        gives up on a construct leaves the obligation undecided: that says nothing about the code"""
        if self.jobs is not None:
            self.jobs.append((rule, what, thunk))
            return None
        try:
            return thunk()
        except AnalysisBroken:
            raise
        except (Exception, MemoryError, RecursionError) as e:
            if os.environ.get("SVDABS_DEBUG"):
                raise
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            at = f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}" if tb is not None else "?"
            self.unk(rule, what, f"analysis stopped: {type(e).__name__} {e} at {at}")
            return None

    def _moved(self, rule, names):
        """a function the comparison cuts at takes other parameters than its reference passes"""
        for n in names:
            f = self.prog.funcs.get(self._qual(n))
            if f is not None and not same_call(f):
                self.missing(rule, f"{f.qual} (as called by the reference)")
                return True
        return False

    def _equiv(self, rule, actual, required, **k):
        """Compared for lists of any length; what that leaves undecided is compared again for lists of 1, 2 and 3 elements: a
        difference there is a difference, agreement there leaves the general comparison undecided."""
        diffs = self._equiv_sized(rule, actual, required, **k)
        if (not diffs and not os.environ.get("SVDABS_INSTANCES")) or diffs is None or any(d.kind == "VIOLATED" for d in diffs) \
                or time.time() > self.begun + INSTANCE_START:
            return diffs
        self._instances(lambda: self._equiv_sized(rule, actual, required, **k))
        return diffs

    def _also_sized(self, compare):
        """an obligation of several comparisons, and where they leave anything undecided once more for lists of few elements"""
        v, u = len(self.violations), len(self.undecided)
        compare()
        if (len(self.undecided) > u or os.environ.get("SVDABS_INSTANCES")) and len(self.violations) == v \
                and time.time() < self.begun + INSTANCE_START:
            self._instances(compare)

    def _instances(self, compare):
        """violations of the comparison for lists of 1, 2 and 3 elements, in a process of its own that may take so long"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            found = []
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CPU, (INSTANCE_SECONDS + 5, INSTANCE_SECONDS + 5))
                theory.BOUNDED = True
                theory._und.clear()
                for n in ((1,), (2,), (3,), (1, 2), (2, 1)):
                    self.small, self.violations = n, []
                    compare()
                    if self.violations:
                        found = self.violations
                        break
            except BaseException as e:  # noqa: B036  what cannot be analysed stays undecided
                if os.environ.get("SVDABS_DEBUG"):
                    import traceback

                    traceback.print_exc()
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(found, f)
            finally:
                os._exit(0)
        os.close(w)
        data, end = b"", time.time() + INSTANCE_SECONDS
        while True:
            ready = select.select([r], [], [], max(0.0, end - time.time()))[0]
            part = os.read(r, 1 << 20) if ready else b""
            data += part
            if not part:
                break
        os.close(r)
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        with contextlib.suppress(pickle.UnpicklingError, EOFError):
            for v in pickle.loads(data) if data else []:
                self.bad(v["rule"], v["construct"], v["loc"], v["detail"])

    def _equiv_sized(self, rule, actual, required, opaque=(), observe=("value", "raises", "warns", "store"), coarse=True,
              attrs=None, pre=None, args=None, keep=None, und=None, exc_only=None, warn_only=None, und_raise=None,
              store_attrs=None, hook=None, hook_pair=None, warn_key=None, pathfilter=None, rec=1, max_out=40,
              traced=(), expand_enums=False):
        """compare function `actual` of the tree with reference function `required`.

        Both are summarised over the same symbolic arguments; the named observations must agree in every state that
        `pre` (a guard over the arguments) allows."""
        fa, fb = self.func(actual), self.func(required)
        if fa is None:
            self.missing(rule, actual)
            return None
        if fb is None:
            raise AnalysisBroken(f"reference {required} missing")
        if self._moved(rule, [*opaque, *traced]):
            return None
        self.anchors_found += 1
        I = self.interp(opaque, coarse)
        I.rec_limit = rec
        I.expand_enums = expand_enums
        I.traced = {self._qual(t) for t in traced}
        sy = self.symbols(fb)
        sa = self.symbols(fa)
        sva = self.symself(fa)
        argv = {}
        names = [n for n, _ in sy]
        selfless = sva is not None and names and names[0] in ("self", "self_")
        if selfless:
            sy2 = sy[1:]
        else:
            sy2 = sy
        na = [n for n, _ in sa]
        byname = all(n in na for n, _ in sy2)
        aa, ab = {}, {}
        if args:
            vals = {k: v(I) if callable(v) else v for k, v in args.items()}
        else:
            vals = {}
        for i, (n, t) in enumerate(sy2):
            if byname:
                target = n
            elif i < len(sa):
                target = sa[i][0]
            else:
                self.missing(rule, f"{actual} (parameter {n})")
                return None
            at = dict(sa)[target]
            v = vals.get(n)
            if v is None:
                v = I.sized(sym(n, t.ty if t.ty is not None else at.ty))
            argv[n] = v
            aa[target] = v
            ab[n] = v
        for n, t in sa:
            if n not in aa:
                # parameters the reference does not know: defaults
                d = self._default(fa, n)
                if d is None:
                    self.missing(rule, f"{actual} (extra parameter {n})")
                    return None
                aa[n] = d
        if selfless:
            ab[names[0]] = sva
        try:
            ra = self.run(fa, aa, I, selfv=sva)
            ra.trace = I.trace
            rb = self.run(fb, ab, I)
            rb.trace = I.trace
        except Budget:
            self.unk(rule, actual, "analysis budget exhausted")
            return None
        return self.compare(rule, actual, ra, rb, observe, attrs, pre(argv, sva) if pre else TRUE, keep, und, exc_only,
                            warn_only, store_attrs, hook, hook_pair, warn_key, pathfilter, max_out)

    def _closure(self, rule, *a, **k):
        return self._also_sized(lambda: self._closure_sized(rule, *a, **k))

    def _closure_sized(self, rule, actual, start, step, opaque=()):
        """worklist function `actual`: start set and successors as in the references, seen elements not expanded again"""
        from .worklist import split

        f = self.func(actual)
        if f is None:
            self.missing(rule, actual)
            return
        if self._moved(rule, opaque):
            return
        s = split(f)
        if s is None:
            self.unk(rule, actual, "not a worklist loop of the known shape")
            return
        self.anchors_found += 1
        for g, ref in ((s.init, start), (s.step, step), (s.again, "specs.common.nothing_more" if s.pair else "specs.common.nothing")):
            rf = self.func(ref)
            I = self.interp(opaque)
            sa, sb = self.symbols(g), self.symbols(rf)
            if g is not s.again and len(sa) != len(sb) - (1 if sb and sb[0][0] == "self" else 0):
                self.unk(rule, actual, "other parameters")
                continue
            sb2 = [x for x in sb if x[0] != "self"]
            if len(sb2) == len(sa):
                sa = [(n, I.sized(sym(n, u.ty if u.ty is not None else t.ty))) for (n, t), (_, u) in zip(sa, sb2)]
            sts, pc = (State(), State()), TRUE
            if self.small is not None:
                sa, pc = self.small_dicts(I, sa, sts)
            sy = [t for _, t in sa]
            sv = self.symself(g)
            ra = self.run(g, dict(sa), I, selfv=sv, st=sts[0])
            names = [n for n, _ in sb2]
            ab = dict(zip(names, sy))
            if sb and sb[0][0] == "self":
                ab["self"] = sv
            rb = self.run(rf, ab, I, st=sts[1])
            if g is s.init and not ra.raised:
                self.compare(rule, f"{actual} (start)", ra, rb, ("value",), pc=pc)
            else:
                for e in ra.log:
                    if e.kind == "implicit" and search(e.guard, self.prog, understood, 500) is not None:
                        self.bad(rule, f"{actual} (missing name)", e.loc, f"{e.data[0]} when {showb(e.guard)}")
                self.compare(rule, f"{actual} ({'successors' if g is s.step else 'start' if g is s.init else 'seen element'})", ra, rb, ("value", "raises"), pc=pc)

    def small_dicts(self, I, args, states):
        """dicts by name among the arguments as dicts of few arbitrary objects with names of their own, no two alike"""
        out, pc = [], TRUE
        whose = [mk("attr", t, "name", ty=T_STR) for _, t in args if t.op == "sym" and I.attr_ty(t, "name") == T_STR]
        for n, t in args:
            a = next(iter(t.ty)) if t.op == "sym" and t.ty is not None and len(t.ty) == 1 else None
            if a is None or a[0] != "dict" or a[1] != T_STR or a[2] is None or I.attr_ty(sym("x", a[2]), "name") != T_STR:
                out.append((n, t))
                continue
            vs = [mk("nth", t, i, ty=a[2]) for i in range(self.small[0])]
            ks = [mk("attr", v, "name", ty=T_STR) for v in vs]
            for i, k in enumerate(ks):
                for q in ks[:i]:
                    pc = band(pc, bnot(I.eq(k, q, states[0])))
            # none of them is an argument itself, nor points back to one: whether that is followed makes no difference
            for v, k in zip(vs, ks):
                back = [k] + [mk("attr", v, x, ty=I.attr_ty(v, x)) for x in ("alternate_peripheral", "alternate_cluster", "alternate_register") if I.attr_ty(v, x)]
                for q in whose:
                    for b in back:
                        pc = band(pc, bnot(I.eq(b, q, states[0])))
            its = [mk("kv", bterm(TRUE), gterm(k), gterm(v)) for k, v in zip(ks, vs)]
            rs = [I.new_list(s, its, kind="dict") for s in states]
            for s, r in zip(states, rs):
                h = s.heap[r]
                s.heap[r] = h.with_(extra=t.ty)
            if rs[0] is not rs[1]:
                states[1].heap[rs[0]] = states[1].heap.pop(rs[1])
            out.append((n, rs[0]))
        return out, pc

    def loop(self, rule, actual, before, step, after, **k):
        return self._guarded(rule, actual, lambda: self._loop(rule, actual, before, step, after, **k))

    def _loop(self, rule, *a, **k):
        return self._also_sized(lambda: self._loop_sized(rule, *a, **k))

    def _loop_sized(self, rule, actual, before, step, after, opaque=(), traced=(), observe=("value", "raises", "trace"), exc_only=None):
        """function `actual` made of one while loop: what precedes it, one round of it from an arbitrary state, and
        what follows it, each compared with its reference"""
        from .worklist import cut

        f = self.func(actual)
        if f is None:
            self.missing(rule, actual)
            return
        if self._moved(rule, [*opaque, *traced]):
            return
        s = cut(f)
        if s is None:
            self.unk(rule, actual, "not one while loop")
            return
        self.anchors_found += 1
        for g, ref, what in ((s.before, before, "before"), (s.step, step, "round"), (s.after, after, "after")):
            rf = self.func(ref)
            I = self.interp(opaque)
            I.traced = {self._qual(t) for t in traced}
            sa, sb = self.symbols(g), [x for x in self.symbols(rf) if x[0] != "self"]
            n0 = len(sa) - (0 if g is s.before else len(s.carried))
            extra = sb[n0:]
            if len(s.carried) > 1 and g is not s.before:
                if not {n for n, _ in extra} <= set(s.carried):
                    self.unk(rule, actual, f"other state carried between rounds ({what})")
                    continue
                sb = sb[:n0] + [next((x for x in extra if x[0] == n), (None, sym("unused"))) for n, _ in sa[n0:]]
            else:
                sb = sb + [(None, sym("unused"))] * (len(sa) - len(sb))
            if len(sa) != len(sb):
                self.unk(rule, actual, f"other state carried between rounds ({what})")
                continue
            sa = [(n, I.sized(sym(n, u.ty if u.ty is not None else t.ty))) for (n, t), (_, u) in zip(sa, sb)]
            sv = self.symself(g)
            ra = self.run(g, dict(sa), I, selfv=sv)
            ra.trace = I.trace
            ab = {n: t for (n, _), (_, t) in zip(sb, sa) if n}
            ab["self"] = sv
            rb = self.run(rf, ab, I)
            rb.trace = I.trace
            self.compare(rule, f"{actual} ({what})", ra, rb, observe, exc_only=exc_only)

    def _writers(self, attr):
        """where the analysed functions of the tree assign an attribute"""
        import ast as _ast

        out = []
        for q in sorted(self.functions):
            f = self.prog.funcs.get(q)
            if f is None or q.startswith("specs."):
                continue
            for n in _ast.walk(f.node):
                if isinstance(n, _ast.Attribute) and isinstance(n.ctx, _ast.Store) and n.attr == attr:
                    out.append(f"{f.module.rel}:{n.lineno}")
        return ", ".join(sorted(set(out))[:4]) or None

    def _default(self, f, n):
        import ast as _ast
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg == n and isinstance(d, _ast.Constant):
                return C(d.value)
        return None

    def compare(self, rule, name, ra, rb, observe, attrs=None, pc=TRUE, keep=None, und=None, exc_only=None, warn_only=None,
                store_attrs=None, hook=None, hook_pair=None, warn_key=None, pathfilter=None, max_out=40):
        Ra, Rb = ra.raise_all(), rb.raise_all()
        diffs = []
        n_obl = 0
        loc = ra.func.loc() if callable(getattr(ra.func, "loc", None)) else str(ra.func)

        def mkcmp(p):
            c = Cmp(self.prog, ra.st, rb.st, p, attrs=attrs, hook=hook, und=und)
            c.hook_pair = hook_pair
            c.max_out = max_out
            return c

        if "raises" in observe:
            c = mkcmp(pc)
            if exc_only:
                ga, gb = raise_guards(ra.raised, self.prog), raise_guards(rb.raised, self.prog)
                for k in sorted(set(ga) | set(gb)):
                    if exc_only is True or k.split(".")[-1] in exc_only:
                        n_obl += 1
                        c.bools(ga.get(k, FALSE), gb.get(k, FALSE), f"raises {k.split('.')[-1]}")
            else:
                n_obl += 1
                c.bools(Ra, Rb, "raises")
            for d in c.out:
                d.site = ", ".join(sorted({o.loc for o in ra.raised})[:4])
            diffs += c.out
            if exc_only in (None, True):
                # errors of the language itself (a missing key, an empty maximum, a text that is no number) the reference does not run into
                ga, gb = (effect_guards_ok(r.log, "implicit", lambda e: str(e.data[0]) if str(e.data[0]) in BARE else None, q) for r, q in ((ra, Ra), (rb, Rb)))
                free = FALSE
                for g in gb.values():
                    free = bor(free, g)
                for k in sorted(ga):
                    c = mkcmp(band(pc, bnot(Rb), bnot(free)))
                    n_obl += 1
                    c.bools(ga[k], FALSE, f"raises a bare {k}")
                    for d in c.out:
                        d.site = ", ".join(sorted({e.loc for e in ra.log if e.kind == "implicit" and str(e.data[0]) == k})[:4])
                    diffs += c.out
        ok_pc = band(pc, bnot(Ra), bnot(Rb))
        if "value" in observe:
            c = mkcmp(ok_pc)
            if ra.val is None or rb.val is None:
                if (ra.val is None) != (rb.val is None) and feasible(ok_pc, self.prog):
                    c._add(Diff("UNDECIDED", "value", None, None, None, "no normal return"))
            else:
                c.vals(ra.val, rb.val, "")
            diffs += c.out
            n_obl += max(1, c.n)
            self.compared = c.compared
            self.pairs = c.pairs
        if "store" in observe:
            c = mkcmp(ok_pc)
            sa = {k: (v, k[0]) for k, v in ra.st.store.items()}
            sb = {k: (v, k[0]) for k, v in rb.st.store.items()}
            for k in sorted(set(sa) | set(sb), key=lambda k: (show(k[0]), k[1])):
                if store_attrs is not None and k[1] not in store_attrs:
                    continue
                d0 = mk("attr", k[0], k[1], ty=None)
                va, vb = sa.get(k, (d0,))[0], sb.get(k, (d0,))[0]
                n_obl += 1
                n0 = len(c.out)
                c.vals(va, vb, f"{show(k[0])[-80:]}.{k[1]}")
                for d in c.out[n0:]:
                    d.site = d.site or self._writers(k[1])
            diffs += c.out
        if "trace" in observe:
            # calls on different things commute as far as this comparison goes: one sequence for each
            for k in sorted(_effect_names(ra.st, ra.trace) | _effect_names(rb.st, rb.trace)):
                c = mkcmp(ok_pc)
                c.vals(_effects(ra.st, ra.trace, k), _effects(rb.st, rb.trace, k), f".{k}")
                for d in c.out:
                    d.site = d.site or ra.func.loc()
                    if "recursion" in d.path and d.kind == "VIOLATED" and not all(known_call(f) for f in getattr(self, "recursed", ())):
                        d.kind, d.why = "UNDECIDED", "the recursive function takes other parameters"
                diffs += c.out
                n_obl += max(1, c.n)
        if "warns" in observe:
            c = mkcmp(ok_pc)
            key = warn_key or (lambda e: _warn_cat(e))
            wa, wb = effect_guards_ok(ra.log, "warn", key, Ra), effect_guards_ok(rb.log, "warn", key, Rb)
            for k in sorted(set(wa) | set(wb), key=str):
                if warn_only is not None and k not in warn_only:
                    continue
                n_obl += 1
                c.bools(wa.get(k, FALSE), wb.get(k, FALSE), f"warns {k}")
            for d in c.out:
                d.site = ", ".join(sorted({e.loc for e in ra.log if e.kind == "warn"})[:4])
            diffs += c.out
        if pathfilter:
            diffs = [d for d in diffs if pathfilter(d.path)]
        bad = 0
        for d in diffs:
            if keep and not keep(d):
                continue
            con = f"{name}{d.path if d.path.startswith('.') or not d.path else ': ' + d.path}"
            if d.kind == "VIOLATED":
                self.bad(rule, con, d.site or loc, repr(d) + (f" (with lists of {', '.join(map(str, self.small))} elements)" if self.small is not None else ""))
            elif self.small is None:
                self.unk(rule, con, repr(d))
            bad += 1
        if self.small is not None:
            return [d for d in diffs if not keep or keep(d)]
        r = self.rules.setdefault(rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += max(0, n_obl - bad)
        r["discharged"] += max(0, n_obl - bad)
        self.sample({"rule": rule, "function": name, "at": loc, "values compared": n_obl, "differences": bad})
        return [d for d in diffs if not keep or keep(d)]


def _effect_name(it, st):
    t = it.args[1]
    h = st.heap.get(t) if isinstance(t, T) and t.op == "ref" else None
    if h is not None and h.items and h.items[0].op == "one" and is_const(h.items[0].args[1]):
        return cval(h.items[0].args[1])
    return "other"


def _effect_names(st, trace):
    out = set()

    def go(items):
        for i in items:
            if i.op == "one":
                out.add(_effect_name(i, st))
            elif i.op == "each":
                go(i.args[3])
            else:
                out.add("other")

    go(st.heap[trace].items)
    return out


def _effects(st, trace, name):
    """the recorded calls of one name, in order"""

    def go(items):
        r = []
        for i in items:
            if i.op == "one":
                if _effect_name(i, st) == name:
                    r.append(i)
            elif i.op == "each":
                inner = go(i.args[3])
                if inner:
                    r.append(mk("each", *i.args[:3], tuple(inner)))
            elif name == "other":
                r.append(i)
        return tuple(r)

    r = mk("ref", f"{trace.args[0]}:{name}")
    st.heap[r] = st.heap[trace].with_(items=go(st.heap[trace].items))
    return r


def _warn_cat(e):
    c = e.data[1] if len(e.data) > 1 else None
    if isinstance(c, T):
        return show(c).split(".")[-1].strip("')") if c.op != "cls" else c.args[0].split(".")[-1]
    return str(c)


# ----------------------------------------------------------------------


def load_known(path):
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<rule>|<construct> :: description
                head, _, desc = line[len("finding: "):].partition(" :: ")
                p, _, k = head.partition(" key=")
                out[(p.split("=")[1].strip(), k.strip())] = desc
    return out


def finish(chk: Check, t0, level, explanation, assumptions, seed, tier, verif):
    known = load_known(os.path.join(os.path.dirname(HERE), "known-findings.txt"))
    seen, viol, kf = set(), [], []
    for v in chk.violations:
        k = f"{v['rule']}|{v['construct']}"
        if (chk.pid, k) in known:
            kf.append((k, known[(chk.pid, k)]))
        elif k not in seen:
            seen.add(k)
            viol.append(v)
    obl = sum(r["obligations"] for r in chk.rules.values())
    dis = sum(r["discharged"] for r in chk.rules.values())
    files = sorted({chk.prog.funcs[q].module.rel for q in chk.functions if q in chk.prog.funcs and not q.startswith("specs.")})
    ev = {
        "property": chk.pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "rules": chk.rules,
            "obligations": obl, "discharged": dis,
            "functions_analysed": len([q for q in chk.functions if not q.startswith("specs.")]),
            "files": files,
            "steps": chk.steps,
            "tree": chk.prog.digest.hexdigest()[:16],
            "samples": chk.samples,
            "undecided": chk.undecided[:60],
            "undecided_total": len(chk.undecided),
            "anchors_missing": chk.anchors_missing,
            "known_findings": [k for k, _ in kf],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", chk.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, d in kf:
        print(f"KNOWN-FINDING: property={chk.pid} {k} {d}")
    if viol:
        rp = os.path.join(verif, "evidence", chk.pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(f"{v['loc']}: [{v['rule']}] {v['construct']}\n    {v['detail']}\n")
        for v in viol[:10]:
            print(f"  {v['loc']}: [{v['rule']}] {v['construct']}: {v['detail'][:300]}")
        print(f"VIOLATION property={chk.pid} replay={rp}")
        return 1
    print(f"{chk.pid}: {dis}/{obl} obligations discharged, {len(chk.undecided)} undecided, "
          f"{ev['coverage']['functions_analysed']} functions, {ev['wall_s']} s")
    return 0
