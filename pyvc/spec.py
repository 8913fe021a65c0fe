"""Contracts.  A contract is a Python procedure over a session S: it draws the inputs (requires),
calls the real function through S.call, and states the postconditions with S.check.  The same text is
run in three modes:
  prove     inputs are symbolic and unbounded, the function is interpreted from its current source
  concrete  inputs are random, the real function runs under CPython (contract as run-time check)
  model     inputs come from a solver counter-model, the real function runs under CPython (replay)
"""
import importlib
import json
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, seqs
from .core import CTX, Sym, Unsupported, Infeasible, Budget, mk, term, truth, is_num, I, R, Generic
from .seqs import VList, SArr, it, vlen, vget_raw
from .interp import INTERP, PoisonRead, native, Scope

import os

TOL = 1e-7
DEBUG = bool(os.environ.get('PYVC_DEBUG'))


class Violated(Exception):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class ContractMismatch(Exception):
    """the contract names a function whose signature changed"""


class Reject(Exception):
    """concrete draw does not satisfy the precondition"""


def resolve(q):
    """real object for a dotted name"""
    parts = q.split(".")
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        for p in parts[k:]:
            o = getattr(o, p)
        return o
    raise ImportError(q)


class Ghost:
    """callable with a log, tracked by the loop rule"""
    __pyvc_track__ = True
    __pyvc_native__ = True

    def __init__(self, f, log):
        self.f = f
        self.log = log

    def __call__(self, *a, **k):
        return self.f(self, *a, **k)

    def __deepcopy__(self, memo):
        return self


class Session:
    """operations common to all modes"""

    def And(self, *xs):
        r = True
        for x in xs:
            r = self._and(r, x)
        return r

    def Or(self, *xs):
        r = False
        for x in xs:
            r = self._or(r, x)
        return r

    def _and(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return mk(z3.simplify(z3.And(_b(a), _b(b)))) if False else mk(z3.And(_b(a), _b(b)))
        return bool(a) and bool(b)

    def _or(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return mk(z3.Or(_b(a), _b(b)))
        return bool(a) or bool(b)

    def Not(self, a):
        return mk(z3.Not(_b(a))) if isinstance(a, Sym) else not a

    def implies(self, a, b):
        return self._or(self.Not(a), b)

    def stub(self, q, f):
        pass

    def note(self, **kw):
        pass

    def hint(self, t):
        pass

    def pair_hint(self, points, j):
        pass

    def known(self, fid, cond=True):
        """the current input lies in the class described by a listed finding"""
        pass

    def at(self, x, *ix):
        """element of a list/array result without bounds obligations (prove) / plain indexing (concrete)"""
        if not self.sym:
            for i in ix:
                x = x[i]
            return x
        if isinstance(x, SArr):
            if len(ix) == x.ndim:
                return x.at(*ix)
            for i in ix:
                x = x[i]
            return x
        for q, i in enumerate(ix):
            if isinstance(x, SArr):
                return self.at(x, *ix[q:])
            x = vget_raw(x, i)
        return x

    def len(self, x):
        return vlen(x) if self.sym else len(x)

    def matrix(self, rows):
        """numeric array with the given entries"""
        return seqs.asarr(rows) if self.sym else np.array(rows, dtype=float)

    def ite(self, c, a, b):
        if isinstance(c, Sym):
            return core.ite(c, a, b)
        return a if c else b


def _b(x):
    if isinstance(x, Sym):
        return truth(x)
    return z3.BoolVal(bool(x))


class Prove(Session):
    mode = "prove"
    sym = True

    def __init__(self):
        self.functions = set()
        self.draws = {}

    # draws
    def int(self, name, lo=None, hi=None, rand=None):
        v = z3.Const(name, I)
        CTX.drawn[name] = ("const", v)
        if lo is not None:
            CTX.pc.append(v >= it(lo))
        if hi is not None:
            CTX.pc.append(v <= it(hi))
        return Sym(v)

    def real(self, name, lo=None, hi=None, rand=None):
        v = z3.Const(name, R)
        CTX.drawn[name] = ("const", v)
        if lo is not None:
            CTX.pc.append(v >= term(lo, "real"))
        if hi is not None:
            CTX.pc.append(v <= term(hi, "real"))
        return Sym(v)

    def bool(self, name):
        v = z3.Const(name, z3.BoolSort())
        CTX.drawn[name] = ("const", v)
        return Sym(v)

    def choice(self, name, opts):
        """concrete case split"""
        opts = list(opts)
        for k in range(len(opts) - 1):
            b = z3.Const(f"{name}?{k}", z3.BoolSort())
            CTX.drawn[f"{name}?{k}"] = ("const", b)
            if CTX.branch(b):
                return opts[k]
        return opts[-1]

    def fun(self, name, nargs, kind="real", rand=None, special=()):
        """arbitrary function of nargs ints"""
        f = z3.Function(name, *([I] * nargs), R if kind == "real" else I)
        CTX.drawn[name] = ("fun", f, nargs)
        return lambda *a: mk(f(*[it(x) for x in a]))

    def vec(self, name, n, lo=None, hi=None, rand=None, kind="real", special=()):
        f = self.fun(name, 1, kind)
        v = VList.symbolic(n, lambda i: f(i))
        self.forall(n, lambda i: self.And(*( [f(i) >= lo] if lo is not None else []), *([f(i) <= hi] if hi is not None else [])))
        return v

    def list(self, n, el):
        """list of length n with element function el"""
        return VList.symbolic(n, el)

    def arr(self, name, shape, rand=None):
        f = self.fun(name, len(shape))
        return SArr(tuple(shape), lambda *ix: f(*ix), "real")

    # logic
    def assume(self, c):
        t = _b(c)
        if z3.is_false(z3.simplify(t)):
            raise Infeasible()
        if CTX.generics:
            CTX.fact(t)
        else:
            CTX.pc.append(t)

    def forall(self, n, body, name="a"):
        """assume body(i) for every 0 <= i < n"""
        if isinstance(n, int):
            for k in range(n):
                self.assume(body(k))
            return
        q = z3.Const(CTX.fresh_name(name), I)
        CTX.generics.append(Generic(q, [0 <= q, q < it(n)]))
        try:
            t = _b(body(Sym(q)))
            CTX.fact(t)
        finally:
            CTX.generics.pop()

    def increasing(self, f, name="mono"):
        """assume f(i) < f(j) for all 0 <= i < j"""
        a, b = z3.Const(CTX.fresh_name(name), I), z3.Const(CTX.fresh_name(name), I)
        CTX.fact(z3.Implies(z3.And(0 <= a, a < b), term(f(Sym(a)), "real") < term(f(Sym(b)), "real")), [a, b])

    def each(self, n, lo=0, name="x"):
        """iterate over all indices lo <= i < n (prove: one arbitrary index)"""
        n = seqs.simp(n) if isinstance(n, Sym) else n
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 8:
            yield from range(lo, n)
            return
        v = z3.Const(CTX.fresh_name(name), I)
        CTX.generics.append(Generic(v, [it(lo) <= v, v < it(n)]))
        depth = len(CTX.generics)
        try:
            if CTX.feasible(z3.BoolVal(True)):
                yield Sym(v)
        finally:
            del CTX.generics[depth - 1:]

    def check(self, label, cond, tol=0):
        t = _b(cond)
        CTX.oblige_all(label, t)

    def le(self, a, b, tol=None):
        return a <= b

    def eq(self, a, b, tol=None):
        return a == b

    def lemma(self, label, cond):
        """intermediate assertion, available afterwards"""
        t = _b(cond)
        CTX.oblige_all(label, t)
        if not z3.is_true(z3.simplify(t)):
            CTX.fact(t)

    def rule(self, label, body, *values):
        """a fact of arithmetic: proved for arbitrary numbers, then available for these values"""
        ts = [term(v) for v in values]
        ts = [core.whole(t) for t in ts]
        free = [z3.Const(CTX.fresh_name("any"), t.sort()) for t in ts]
        CTX.oblige_all(label, _b(body(*[Sym(c) for c in free])))
        CTX.fact(_b(body(*[Sym(t) for t in ts])))

    def induct(self, label, n, body, lo=0):
        """prove body(lo) and body(i) -> body(i+1) for lo <= i < n; afterwards body(i) for all lo<=i<=n"""
        b0 = _b(body(lo))
        CTX.oblige_all(label + " (base)", b0)
        v = z3.Const(CTX.fresh_name("ind"), I)
        CTX.generics.append(Generic(v, [it(lo) <= v, v < it(n)]))
        try:
            h = _b(body(Sym(v)))
            s = _b(body(Sym(v + 1)))
            CTX.oblige_all(label + " (step)", z3.Implies(h, s))
        finally:
            CTX.generics.pop()
        q = z3.Const(CTX.fresh_name("ind"), I)
        CTX.generics.append(Generic(q, [it(lo) <= q, q <= it(n)]))
        try:
            CTX.fact(_b(body(Sym(q))))
        finally:
            CTX.generics.pop()

    def hint(self, t):
        """make a term available to quantifier instantiation (names a predicate about which nothing is known)"""
        t = it(t) if not z3.is_expr(t) else t
        b = z3.Const(CTX.fresh_name("hint"), z3.BoolSort())
        f = core.Fact([], z3.Function("hinted", I, z3.BoolSort())(t) == b)
        f.tag = "hint"
        CTX.facts.append(f)

    def pair_hint(self, points, j):
        """instantiate facts about the pair (0, j) of pdist over this many points"""
        from .models import _PI
        self.hint(_PI(it(points), it(j) - 1))

    # running
    def call(self, q, *args, allow=(), **kw):
        f = resolve(q) if isinstance(q, str) else q
        if isinstance(q, str):
            self.functions.add(q)
        try:
            return INTERP.call(f, args, kw)
        except (Unsupported, Infeasible, Budget):
            raise
        except PoisonRead as p:
            raise Unsupported(f"read of an undetermined value {p.loc[-1]}")
        except allow as e:
            return e
        except Exception as e:
            self.exc = e
            if DEBUG:
                traceback.print_exc()
            CTX.oblige_all(f"no exception ({type(e).__name__}: {str(e)[:80]})", z3.BoolVal(False))
            raise Infeasible()

    def run(self, q, *args, **kw):
        """run the real function natively on concrete inputs"""
        self.functions.add(q)
        try:
            return resolve(q)(*args, **kw)
        except Exception as e:
            CTX.oblige_all(f"no exception ({type(e).__name__}: {str(e)[:80]})", z3.BoolVal(False))
            raise Infeasible()

    def native(self, f, *args, **kw):
        """run the real code under CPython on symbolic values; every branch on a symbolic value is explored"""
        try:
            return f(*args, **kw)
        except (Unsupported, Infeasible, Budget):
            raise
        except Exception as e:
            if DEBUG:
                traceback.print_exc()
            CTX.oblige_all(f"no exception ({type(e).__name__}: {str(e)[:80]})", z3.BoolVal(False))
            raise Infeasible()

    def stub(self, q, f):
        INTERP.stubs[q] = f

    def val(self, v):
        return v


class Concrete(Session):
    sym = False
    mode = "concrete"

    def __init__(self, rng, source=None):
        self.rng = rng
        self.source = source
        self.draws = {}
        self.checks = 0
        self.functions = set()
        self.exc = None
        self.known_hit = None

    def _src(self, name):
        if self.source is not None and name in self.source:
            return self.source[name]
        return None

    def int(self, name, lo=None, hi=None, rand=None):
        v = self._src(name)
        if v is None:
            a, b = rand or (lo if lo is not None else 0, (hi if hi is not None else (lo or 0) + 4))
            if lo is not None:
                a = max(a, lo)
            if hi is not None:
                b = min(b, hi)
            v = self.rng.randint(a, max(a, b))
        elif abs(v) > 60:
            raise Reject(f"{name} too large to replay")
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        self.draws[name] = v
        return v

    def draw_int(self, name, a, b):
        return self.int(name, a, b)

    def _real(self, lo, hi, rand):
        a, b = rand or (lo if lo is not None else -3, hi if hi is not None else (lo if lo is not None else 0) + 3)
        r = self.rng.random()
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        if r < 0.35:
            x = self.rng.choice([a, b, (a + b) / 2, round((a + b) / 2), 0.0, 1.0, -1.0, 0.5])
            if a <= x <= b:
                return float(x)
        if r < 0.6:
            return round(self.rng.uniform(a, b) * 4) / 4 if b - a > 0.5 else self.rng.uniform(a, b)
        return self.rng.uniform(a, b)

    def real(self, name, lo=None, hi=None, rand=None):
        v = self._src(name)
        if v is None:
            v = self._real(lo, hi, rand)
        v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            if lo is not None and hi is not None and lo <= hi:
                v = min(max(v, lo), hi)
            else:
                raise Reject(name)
        self.draws[name] = v
        return v

    def bool(self, name):
        v = self._src(name)
        v = self.rng.random() < 0.5 if v is None else bool(v)
        self.draws[name] = v
        return v

    def choice(self, name, opts):
        opts = list(opts)
        if isinstance(self.source, TableSource) and name in self.source:
            self.draws[name] = self.source[name]
            return opts[self.source[name]]
        if self.source is not None and any(f"{name}?{k}" in self.source for k in range(len(opts))):
            for k in range(len(opts) - 1):
                if self._src(f"{name}?{k}"):
                    self.draws[name] = k
                    return opts[k]
            self.draws[name] = len(opts) - 1
            return opts[-1]
        k = self.rng.randrange(len(opts))
        self.draws[name] = k
        return opts[k]

    def fun(self, name, nargs, kind="real", rand=None, special=()):
        table = {}
        src = self._src(name)
        self.draws[name] = table

        def f(*a):
            a = tuple(int(x) for x in a)
            if a not in table:
                if src is not None:
                    table[a] = src(*a)
                elif special and self.rng.random() < 0.3:
                    table[a] = self.rng.choice(list(special))
                elif kind == "real":
                    table[a] = self._real(None, None, rand)
                else:
                    table[a] = self.rng.randint(*(rand or (0, 5)))
            return table[a]
        return f

    def vec(self, name, n, lo=None, hi=None, rand=None, kind="real", special=()):
        f = self.fun(name, 1, kind, special=special, rand=(max(lo, rand[0]) if rand and lo is not None else (lo if lo is not None else (rand[0] if rand else -3)),
                                          min(hi, rand[1]) if rand and hi is not None else (hi if hi is not None else (rand[1] if rand else 3))) if (lo is not None or hi is not None or rand) else None)
        return [f(i) for i in range(n)]

    def list(self, n, el):
        return [el(i) for i in range(n)]

    def arr(self, name, shape, rand=None):
        f = self.fun(name, len(shape), rand=rand)
        a = np.zeros(shape)
        for ix in np.ndindex(*shape):
            a[ix] = f(*ix)
        return a

    def known(self, fid, cond=True):
        if cond:
            self.known_hit = fid

    def assume(self, c):
        if not c:
            raise Reject("assume")

    def increasing(self, f, name=""):
        pass

    def forall(self, n, body, name="a"):
        for k in range(n):
            if not body(k):
                raise Reject("forall")

    def each(self, n, lo=0, name="x"):
        yield from range(lo, n)

    def check(self, label, cond, tol=0):
        self.checks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not cond:
            raise Violated(label)

    lemma = check

    def rule(self, label, body, *values):
        pass

    def induct(self, label, n, body, lo=0):
        for i in range(lo, n + 1):
            self.check(label, body(i))

    def le(self, a, b, tol=TOL):
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def eq(self, a, b, tol=TOL):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def call(self, q, *args, allow=(), **kw):
        f = resolve(q) if isinstance(q, str) else q
        if isinstance(q, str):
            self.functions.add(q)
        try:
            return f(*args, **kw)
        except (Violated, Reject):
            raise
        except allow as e:
            return e
        except TypeError as e:
            if e.__traceback__.tb_next is None:  # the function no longer has this signature: not a violation of the contract
                raise ContractMismatch(str(e))
            self.exc = e
            raise Violated(f"no exception ({type(e).__name__}: {str(e)[:200]})", traceback.format_exc(limit=-4))
        except Exception as e:
            self.exc = e
            raise Violated(f"no exception ({type(e).__name__}: {str(e)[:200]})", traceback.format_exc(limit=-4))

    def val(self, v):
        return v

    run = call
    native = call


# ---------------------------------------------------------------- proving
class ProofResult:
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.failed = []  # (label, status, model source or None)
        self.status = "proved"  # proved | refuted | undecided | unsupported
        self.reason = ""
        self.paths = 0
        self.live_paths = 0
        self.time = 0.0
        self.trusted = set()
        self.inlined = set()
        self.contract_calls = set()
        self.native = set()
        self.loops = set()
        self.solver_time = 0.0
        self.queries = 0


def _oblige_all(self, label, goal):
    """record an obligation at the current (possibly generic) point"""
    g = z3.simplify(goal)
    self.obligations.append((label, goal, list(self.pc), list(self.facts), self.guard_now(), z3.is_true(g)))


core.Ctx.oblige_all = _oblige_all


def _oblige(self, label, goal, keep=True):
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    if z3.is_true(z3.simplify(goal)):
        return
    self.obligations.append((label, goal, list(self.pc), list(self.facts), self.guard_now(), False))
    if keep:
        self.fact(goal)


core.Ctx.oblige = _oblige


def discharge(ob, timeout):
    label, goal, pc, facts, guards, trivial = ob
    if trivial:
        return z3.unsat, None, None
    neg = z3.Not(goal)
    seeds = [goal] + guards
    if z3.is_false(z3.simplify(goal)):
        seeds += pc[-1:]
    rel = core.cone(seeds, facts)
    have = set()
    for g in seeds + [f.body for f in rel]:
        have |= core._symbols(g)
    rpc = [c for c in pc if core._symbols(c) & have]
    last = (z3.unknown, None, None)
    if not label.startswith(("safety:", "no exception")) and not z3.is_false(goal):
        sv = z3.Solver()  # valid on its own, without what is known here?
        sv.set("timeout", 400)
        sv.add(neg)
        try:
            if sv.check() == z3.unsat:
                return z3.unsat, None, 0
        except z3.Z3Exception:
            pass
    plans = [(rel, rpc, 2, 150, 0.1), (rel, rpc, 2, 400, None), (rel, rpc, 4, 800, 0.6), (rel, rpc, 6, 2000, 1.5), (rel, rpc, 8, 3000, 1.0), (facts, pc, 3, 600, 0.5), (facts, pc, 5, 3000, 1.0)]
    for fl, pcs, rounds, cap, share in plans:
        if share is None:  # products taken as unknowns: only a proof counts
            try:
                r, _, fs = core.solve(pcs + guards + [neg], fl, timeout=timeout * 0.1, rounds=rounds, cap=cap, linear=True)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return r, None, fs
            continue
        fs = None
        for seed in range(6):  # nonlinear queries are either quick or hopeless, depending on where the search starts
            left = timeout * (share if rounds not in (4, 6) or fl is facts else 0.12 if rounds == 4 or seed else 0.4)
            r, model, fs = core.solve(pcs + guards + [neg], fl, timeout=left, rounds=rounds, cap=cap, want_model=True, seed=seed, fs=fs)
            if r != z3.unknown or rounds not in (4, 6) or fl is facts:
                break
        if r == z3.unsat:
            return r, None, fs
        last = (r, model, len(fs))
        if CTX.deadline and time.time() > CTX.deadline:
            break
    return last[0], last[1], None


class ModelSource:
    """named draws evaluated in a counter-model"""

    def __init__(self, model, drawn):
        self.m, self.drawn = model, dict(drawn)

    def __contains__(self, name):
        return name in self.drawn

    def _ev(self, t):
        v = self.m.eval(t, model_completion=True)
        c = core.const_value(z3.simplify(v))
        if c is None:
            if z3.is_algebraic_value(v):
                c = Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
            else:
                return 0
        return float(c) if isinstance(c, Fraction) else c

    def __getitem__(self, name):
        d = self.drawn[name]
        if d[0] == "const":
            return self._ev(d[1])
        return lambda *a: self._ev(d[1](*[z3.IntVal(x) for x in a]))


class TableSource:
    """draws of a recorded run"""

    def __init__(self, draws):
        self.d = draws

    def __contains__(self, name):
        return name in self.d

    def __getitem__(self, name):
        v = self.d[name]
        if isinstance(v, dict):
            return lambda *a: v.get(str(tuple(a)), 0)
        return v


def prove(name, fn, deadline=None, timeout=8000, max_paths=400, known=lambda label: False):
    res = ProofResult(name)
    t0 = time.time()
    CTX.reset()
    core.clear_caches()
    CTX.deadline = deadline
    CTX.slow = 0
    core._TOT.update(queries=0, time=0.0, unknown=0)
    pending = [[]]
    S = Prove()
    models = []
    try:
        while pending:
            prefix = pending.pop()
            res.paths += 1
            if res.paths > max_paths:
                raise core.PathLimit(f"more than {max_paths} paths")
            CTX.check_deadline()
            # fresh path state
            CTX.pc, CTX.facts, CTX.generics, CTX.obligations = [], [], [], []
            CTX.name_map = {}
            CTX.birth = {}
            CTX.drawn = {}
            CTX.numpy_div = 0
            INTERP.stubs.clear()
            INTERP.placeholders.clear()
            INTERP.globals_over.clear()
            INTERP.depth = 0
            ex = core.Explorer(prefix)
            CTX.explorers = [ex]
            try:
                fn(S)
                done = True
            except Infeasible:
                done = False
            obs = CTX.obligations
            CTX.explorers = []
            CTX.generics = []
            for k in range(len(prefix), len(ex.trail)):
                taken, other = ex.trail[k]
                if other:
                    pending.append([t for t, _ in ex.trail[:k]] + [not taken])
            for ob in obs:
                res.obligations += 1
                r, model, fs = discharge(ob, timeout)
                if r == z3.unsat:
                    res.discharged += 1
                else:
                    res.failed.append((ob[0], str(r)))
                    if model is not None and len(models) < 12:
                        models.append((ob[0], ModelSource(model, CTX.drawn)))
                    if len(res.failed) >= 6:
                        raise core.PathLimit("many failed obligations")
            if done:
                r, _, _ = core.solve(CTX.pc, CTX.facts, timeout=1500, rounds=1, cap=100)
                if r != z3.unsat:
                    res.live_paths += 1
        if res.failed:
            res.status = "refuted" if any(s == "sat" for _, s in res.failed) else "undecided"
        elif res.live_paths == 0:
            res.status, res.reason = "undecided", "no feasible path reaches the postcondition (vacuous)"
        elif res.obligations == 0:
            res.status, res.reason = "undecided", "no obligations generated"
    except Unsupported as e:
        res.status, res.reason = "unsupported", str(e)
    except Budget as e:
        if res.failed:
            res.status = "refuted" if any(s == "sat" for _, s in res.failed) else "undecided"
        else:
            res.status = "undecided"
        res.reason = str(e)
    except PoisonRead as p:
        res.status, res.reason = "unsupported", f"undetermined value {p.loc[-1]}"
    except RecursionError:
        res.status, res.reason = "unsupported", "recursion"
    except Exception as e:  # verifier fault: never a violation
        res.status, res.reason = "unsupported", "verifier fault: " + "".join(traceback.format_exception_only(e)).strip() + " @ " + " <- ".join(
            f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-5:]))
    res.models = models
    res.time = time.time() - t0
    res.solver_time = core._TOT["time"]
    res.queries = core._TOT["queries"]
    res.trusted, res.inlined, res.contract_calls = set(CTX.trusted), set(CTX.inlined), set(CTX.contract_calls)
    res.native, res.loops = set(CTX.native_calls), set(CTX.loops)
    res.functions = set(S.functions)
    INTERP.stubs.clear()
    return res


def concrete(fn, seed, source=None):
    """one run of the contract against the real code. returns (status, label, session)"""
    rng = random.Random(seed)
    S = Concrete(rng, source)
    try:
        fn(S)
        return "ok", "", S
    except Reject:
        return "reject", "", S
    except Violated as v:
        return "violated", v.label + (("\n" + v.detail) if v.detail else ""), S
