"""Loop rule for `for` over a sequence of symbolic length: no unrolling, no bound.

The body is executed once at an arbitrary iteration k over a start state in which every location the
body modifies is replaced by an uninterpreted trajectory (value at the start of iteration k); the
trajectory is defined by its initial value and the exact recurrence the body computes.  Write-only
array cells and append-only lists get closed forms.  break/return/raise become 'first exiting index'."""
import itertools

import z3

from . import core, seqs
from .core import CTX, Sym, Unsupported, Infeasible, mk, term, truth, ite, is_num, kind_of, I, R
from .seqs import VList, SArr, it, simp, vlen, vget_raw, vmerge, vsubst, generic, eval_paths, filter_index, same_len, is_vsym
from . import interp as P


class NeedPeel(Exception):
    pass


class Template:
    """shape of a value whose scalar leaves become uninterpreted functions of (t, extra indices)"""

    def __init__(self, tk, **kw):
        self.k = tk
        self.__dict__.update(kw)


def mk_template(v, name, nidx=1, real=False):
    if isinstance(v, Sym) or is_num(v):
        kd = v.kind if isinstance(v, Sym) else seqs.guess_kind(v)
        if isinstance(v, float) and v in (float("inf"), float("-inf")):
            raise NeedPeel()
        if real and kd == "int":
            kd = "real"
        if kd not in ("int", "real", "bool"):
            raise Unsupported("loop-carried opaque value")
        return Template("leaf", f=CTX.fresh_fun(name, nidx, kd), kind=kd, nidx=nidx)
    if isinstance(v, VList):
        if v.sym is None:
            return Template("list", items=[mk_template(x, name, nidx, real) for x in list.__iter__(v)])
        n, el = v.sym
        ph = z3.Const(CTX.fresh_name("tp"), I)
        return Template("slist", n=n, el=mk_template(el(Sym(ph)), name, nidx + 1, real))
    if isinstance(v, tuple):
        return Template("tuple", items=[mk_template(x, name, nidx, real) for x in v])
    if isinstance(v, SArr):
        sm = [d for d in v.shape if isinstance(d, int) and d <= 6]
        big = [d for d in v.shape if not (isinstance(d, int) and d <= 6)]
        kd = "real" if (real or v.buf.kind == "real") else v.buf.kind
        tabs = {}
        for ix in itertools.product(*[range(d) for d in sm]):
            tabs[ix] = CTX.fresh_fun(name, nidx + len(big), kd)
        return Template("arr", shape=v.shape, tabs=tabs, kind=kd, nidx=nidx)
    if isinstance(v, (str, type(None))):
        return Template("const", v=v)
    if isinstance(v, dict):
        return Template("dict", items={k: mk_template(x, name, nidx, real) for k, x in v.items()})
    raise Unsupported(f"loop-carried value of type {type(v).__name__}")


def t_inst(T, ix):
    """value of template at index terms ix (list of z3 int terms)"""
    if T.k == "leaf":
        return mk(T.f(*ix))
    if T.k == "list":
        return VList([t_inst(x, ix) for x in T.items])
    if T.k == "tuple":
        return tuple(t_inst(x, ix) for x in T.items)
    if T.k == "slist":
        return VList.symbolic(T.n, lambda i: t_inst(T.el, ix + [it(i)]))
    if T.k == "const":
        return T.v
    if T.k == "dict":
        return {k: t_inst(x, ix) for k, x in T.items.items()}
    if T.k == "arr":
        return SArr(T.shape, arr_el(T, ix), T.kind)
    raise Unsupported("template")


def arr_el(T, ix):
    small = [isinstance(d, int) and d <= 6 for d in T.shape]
    smd = [d for d, s in zip(T.shape, small) if s]

    def el(*idx):
        sm = [i for i, s in zip(idx, small) if s]
        bg = [it(i) for i, s in zip(idx, small) if not s]
        return seqs._select({k: mk(f(*ix, *bg)) for k, f in T.tabs.items()}, tuple(smd), tuple(sm), ())
    return el


class KindClash(Exception):
    pass


def t_eq(T, ix, v, out, qvars):
    """append (z3 equation, extra quantified vars) for template at ix == v"""
    if T.k == "leaf":
        if not (isinstance(v, Sym) or is_num(v)):
            raise NeedPeel()
        t = term(v)
        if kind_of(t) == "real" and T.kind == "int":
            raise KindClash()
        out.append((T.f(*ix) == term(v, T.kind), list(qvars), T, list(ix), term(v, T.kind)))
        return
    if T.k in ("list", "tuple"):
        if not isinstance(v, (VList, tuple)) or is_vsym(v) or len(v) != len(T.items):
            raise NeedPeel()
        for x, y in zip(T.items, v):
            t_eq(x, ix, y, out, qvars)
        return
    if T.k == "slist":
        if not isinstance(v, VList):
            raise NeedPeel()
        if not seqs.definitely(it(vlen(v)) == it(T.n)):
            raise Unsupported("loop-carried list changes length")
        q = z3.Const(CTX.fresh_name("tq"), I)
        with generic(0, T.n, "te") as g:
            x = vget_raw(v, g)
        t_eq(T.el, ix + [g.t], x, out, qvars + [(g.t, z3.And(0 <= g.t, g.t < it(T.n)))])
        return
    if T.k == "const":
        if v != T.v:
            raise NeedPeel()
        return
    if T.k == "dict":
        if not isinstance(v, dict) or list(v) != list(T.items):
            raise NeedPeel()
        for k in T.items:
            t_eq(T.items[k], ix, v[k], out, qvars)
        return
    if T.k == "arr":
        if not isinstance(v, SArr) or v.ndim != len(T.shape):
            raise NeedPeel()
        for a, b in zip(v.shape, T.shape):
            if not seqs.definitely(it(a) == it(b)):
                raise Unsupported("loop-carried array changes shape")
        small = [isinstance(d, int) and d <= 6 for d in T.shape]
        for sm in itertools.product(*[range(d) for d, s in zip(T.shape, small) if s]):
            from contextlib import ExitStack
            with ExitStack() as st:
                idx, bg, qv = [], [], list(qvars)
                k = 0
                for d, s in zip(T.shape, small):
                    if s:
                        idx.append(sm[k])
                        k += 1
                    else:
                        g = st.enter_context(generic(0, d, "ta"))
                        idx.append(g)
                        bg.append(g.t)
                        qv.append((g.t, z3.And(0 <= g.t, g.t < it(d))))
                x = v.at(*idx)
                t = term(x)
            if kind_of(t) == "real" and T.kind == "int":
                raise KindClash()
            f = T.tabs[sm]
            out.append((f(*ix, *bg) == term(t, T.kind), qv, None, [f] + list(ix) + bg, term(t, T.kind)))
        return
    raise Unsupported("template eq")


# ---------------------------------------------------------------- strategies
class Strat:
    def __init__(self, loop, loc):
        self.loop, self.loc = loop, loc


class PoisonS(Strat):
    """temporary: overwritten before it is read in every iteration"""

    def begin(self, k):
        P.set_loc(self.loop.snap, self.loc, P.Poison(self.loc))

    def capture(self, v):
        return v

    def close(self, cases, k):
        self.k = k
        if any(self.loc not in m for _, m in cases):
            # some iterations keep the previous value: it is carried
            init = P.get_loc(self.loop.snap0, self.loc) if False else self.loop.init_of(self.loc)
            if init is P._MISSING:
                self.cases = None
                return
            try:
                mk_template(init, "probe")
                ok = True
            except (Unsupported, NeedPeel):
                ok = False
            if ok:
                raise Upgrade(self.loc)
            self.cases = None
            return
        self.cases = [(c, m[self.loc]) for c, m in cases]

    def after(self, m):
        lo = self.loop.lo
        if CTX.branch(it(m) <= it(lo)):
            return  # no iteration executed: initial value stays
        if self.cases is None:
            P.set_loc(self.loop.snap, self.loc, P.Poison(self.loc))
            return
        last = it(simp(seqs.as_sym_int(m) - 1))
        kt = self.k.t
        try:
            cs = [(z3.substitute(c, (kt, last)), vsubst(v, [(kt, last)])) for c, v in self.cases]
            if any(v is P._MISSING for _, v in cs):
                raise Unsupported("deleted")
            v = vmerge(cs) if cs else P._MISSING
        except Unsupported:
            v = P.Poison(self.loc)
        P.set_loc(self.loop.snap, self.loc, v)


class Upgrade(Exception):
    def __init__(self, loc):
        self.loc = loc


class TrajS(Strat):
    """loop-carried value with its exact recurrence"""

    def __init__(self, loop, loc, real=False):
        super().__init__(loop, loc)
        init = loop.init_of(loc)
        if init is P._MISSING or init is None or isinstance(init, P.Poison):
            raise NeedPeel()
        if loc[0] == "b":
            init = SArr(init.shape, init.el, init.kind)
        self.real = real
        self.T = mk_template(init, "traj", real=real)
        self.init = init
        out = []
        t_eq(self.T, [it(loop.lo)], init, out, [])
        for eq, qv, *_ in out:
            fact_q(eq, qv)

    def _put(self, t):
        v = t_inst(self.T, [t])
        if self.loc[0] == "b":
            self.loop.snap[self.loc[1]][0].el = v.buf.el
        elif self.loc[0] == "l":
            o = self.loop.snap[self.loc[1]][0]
            list.clear(o)
            o.sym = None
            if v.sym is None:
                list.extend(o, list.__iter__(v))
            else:
                o.sym = v.sym
        else:
            P.set_loc(self.loop.snap, self.loc, v)

    def begin(self, k):
        self._put(k.t)

    def capture(self, v):
        if self.loc[0] == "b":
            return P.materialize(SArr(v.shape, v.el, v.kind))
        if self.loc[0] == "l":
            return P.materialize(seqs.vcopy(v))
        return v

    def close(self, cases, k):
        kt = k.t
        cur = t_inst(self.T, [kt])
        rng = [it(self.loop.lo) <= kt, kt < it(self.loop.n)]
        steps = []
        for c, m in cases:
            v = m.get(self.loc, None)
            if self.loc not in m:
                v = cur
            if v is P._MISSING:
                raise Unsupported("loop-carried variable deleted")
            out = []
            CTX.generics.append(core.Generic(kt, rng + [c]))
            try:
                t_eq(self.T, [kt + 1], v, out, [])
            finally:
                CTX.generics.pop()
            for eq, qv, T, ix, rhs in out:
                fact_q(z3.Implies(z3.And(*rng, c), eq), [(kt, z3.BoolVal(True))] + qv)
                steps.append((eq, qv, rng, c, rhs))
        self.lemmas(steps, kt, len(cases))

    def lemmas(self, steps, kt, ncases):
        """inductive facts about the trajectory: constant step, monotonicity (each proved from the recurrence)"""
        groups = {}
        for eq, qv, rng, c, rhs in steps:
            lhs = eq.arg(0)
            groups.setdefault(lhs.decl().name(), []).append((lhs, qv, rng, c, rhs))
        lo = it(self.loop.lo)
        n = it(self.loop.n)
        for name, gs in groups.items():
            lhs = gs[0][0]
            if kind_of(lhs) == "bool":
                continue
            d = lhs.decl()
            args = [lhs.arg(i) for i in range(lhs.num_args())]
            pos = [i for i, a in enumerate(args) if a.eq(kt + 1)]
            if len(pos) != 1:
                continue
            p = pos[0]

            def at(t, ex=None):
                return d(*[t if i == p else a for i, a in enumerate(args)])
            t1 = z3.Const(CTX.fresh_name("t"), I)
            t2 = z3.Const(CTX.fresh_name("t"), I)
            diffs = [z3.simplify(rhs - z3.substitute(lhs, (lhs.arg(p), kt))) if False else z3.simplify(rhs - at(kt)) for lhs_, qv, rng, c, rhs in gs]
            cv = [core.const_value(x) for x in diffs]
            same = cv[0] is not None and all(x == cv[0] for x in cv)
            qv = gs[0][1]
            # align quantified vars: each group member may use different generic vars; lemmas only if identical arity
            if same:
                off = (t1 - lo) if kind_of(lhs) == "int" else z3.ToReal(t1 - lo)
                step = z3.IntVal(cv[0]) if kind_of(lhs) == "int" else z3.RealVal(cv[0])
                fact_q(z3.Implies(z3.And(lo <= t1, t1 <= n), at(t1) == at(lo) + step * off), [(t1, z3.BoolVal(True))] + qv)
                continue
            variants = [(z3.BoolVal(True), "all")]
            for (v, _) in qv:
                variants.append((v % 2 == 0, "even"))
                variants.append((v % 2 == 1, "odd"))
            done = set()
            for cond, tag in variants:
                for sense in ("le", "ge"):
                    if (sense, "all") in done:
                        continue
                    ok = True
                    for lhs_, qv_, rng, c, rhs in gs:
                        sub = [(a, b) for (a, _), (b, _) in zip(qv, qv_)]
                        cc = z3.substitute(cond, *sub) if sub else cond
                        a_ = [lhs_.arg(i) for i in range(lhs_.num_args())]
                        cur = d(*[kt if i == p else a for i, a in enumerate(a_)])
                        goal = rhs <= cur if sense == "le" else rhs >= cur
                        hyp = rng + [c, cc] + [g for _, g in qv_]
                        if not prove_here(hyp, goal, [kt] + [v for v, _ in qv_]):
                            ok = False
                            break
                    if ok:
                        done.add((sense, tag))
                        body = at(t2) <= at(t1) if sense == "le" else at(t2) >= at(t1)
                        fact_q(z3.Implies(z3.And(lo <= t1, t1 <= t2, t2 <= n, cond), body), [(t1, z3.BoolVal(True)), (t2, z3.BoolVal(True))] + qv)
                        fact_q(z3.Implies(z3.And(lo <= t2, t2 <= n, cond), at(t2) <= at(lo) if sense == "le" else at(t2) >= at(lo)), [(t2, z3.BoolVal(True))] + qv)

    def after(self, m):
        self._put(it(m))


def prove_here(hyps, goal, vars_):
    fs = list(CTX.pc) + CTX.guard_now() + list(hyps) + [z3.Not(goal)]
    return core.solve(fs, CTX.facts, timeout=1500, rounds=2, cap=200)[0] == z3.unsat


def fact_q(body, qv):
    gs = [g for _, g in qv if not z3.is_true(g)]
    if gs:
        body = z3.Implies(z3.And(*gs), body)
    CTX.fact(body, [v for v, _ in qv])


class AppendS(Strat):
    """list that is only appended to"""

    def begin(self, k):
        o = self.loop.snap[self.loc[1]][0]
        list.clear(o)
        o.sym = seqs.RecSym(self.loc, [])

    def capture(self, v):
        if not isinstance(v.sym, seqs.RecSym):
            raise Upgrade(self.loc)
        return [P.materialize(x) for x in v.sym.items]

    def close(self, cases, k):
        self.k = k
        self.cases = [(c, m.get(self.loc, [])) for c, m in cases]

    def after(self, m):
        lo, n = self.loop.lo, m
        o = self.loop.snap[self.loc[1]][0]
        init = self.loop.snap[self.loc[1]][1]
        base = VList(init[1]) if init[0] == "l" else VList()
        if init[0] == "s":
            base.sym = init[1]
        counts = {len(x) for _, x in self.cases}
        kt = self.k.t
        add = VList()
        cnt = simp(seqs.as_sym_int(m) - lo)
        if counts and counts != {0}:
            if len(counts) == 1:
                c = counts.pop()
                vals = [vmerge([(cc, x[r]) for cc, x in self.cases]) for r in range(c)]
                if c == 1:
                    v = vals[0]
                    add = VList.symbolic(cnt, lambda i: vsubst(v, [(kt, it(simp(seqs.as_sym_int(i) + lo)))]))
                else:
                    def el(i):
                        i = simp(seqs.as_sym_int(i))
                        q, r = simp(i // c), simp(i % c)
                        vs = [vsubst(v, [(kt, it(simp(seqs.as_sym_int(q) + lo)))]) for v in vals]
                        if isinstance(r, int):
                            return vs[r]
                        return vmerge([(r.t == j, vs[j]) for j in range(c - 1)] + [(r.t == c - 1, vs[c - 1])])
                    add = VList.symbolic(simp(cnt * c), el)
            elif counts == {0, 1}:
                kc = [(cc, x[0]) for cc, x in self.cases if x]
                keep = z3.Or(*[cc for cc, _ in kc])
                v = vmerge(kc)
                g, mm = filter_index(m, lambda t: z3.And(t >= it(lo), z3.substitute(keep, (kt, t))))
                add = VList.symbolic(mm, lambda i: vsubst(v, [(kt, g(it(i)))]))
            else:
                raise Unsupported("variable number of appends per iteration")
        r = seqs.vconcat(base, add)
        list.clear(o)
        o.sym = None
        if r.sym is None:
            list.extend(o, list.__iter__(r))
        else:
            o.sym = r.sym


class GrowS(Strat):
    """list that grows by one element per iteration and is also read"""

    def __init__(self, loop, loc, real=False):
        super().__init__(loop, loc)
        init = loop.snap0[loc[1]][1]
        if init[0] != "l":
            raise Unsupported("growing list with symbolic initial length is read in a loop")
        if not init[1]:
            raise NeedPeel()
        self.items = init[1]
        self.T = mk_template(self.items[-1], "grow", real=real)
        for j, x in enumerate(self.items):
            out = []
            t_eq(self.T, [z3.IntVal(j)], x, out, [])
            for eq, qv, *_ in out:
                fact_q(eq, qv)

    def _sym(self, t):
        n = simp(mk(it(t)) + (len(self.items)) - self.loop.lo) if not isinstance(t, int) else t + len(self.items) - self.loop.lo
        return n, (lambda i: t_inst(self.T, [it(i)]))

    def begin(self, k):
        o = self.loop.snap[self.loc[1]][0]
        list.clear(o)
        o.sym = seqs.GrowSym(self._sym(k), [])

    def capture(self, v):
        if not isinstance(v.sym, seqs.GrowSym) or len(v.sym.items) != 1:
            raise Upgrade(self.loc)
        return P.materialize(v.sym.items[0])

    def close(self, cases, k):
        kt = k.t
        rng = [it(self.loop.lo) <= kt, kt < it(self.loop.n)]
        pos = kt + (len(self.items) - self.loop.lo)
        for c, m in cases:
            if self.loc not in m:
                raise Upgrade(self.loc)
            out = []
            CTX.generics.append(core.Generic(kt, rng + [c]))
            try:
                t_eq(self.T, [pos], m[self.loc], out, [])
            finally:
                CTX.generics.pop()
            for eq, qv, *_ in out:
                fact_q(z3.Implies(z3.And(*rng, c), eq), [(kt, z3.BoolVal(True))] + qv)

    def after(self, m):
        o = self.loop.snap[self.loc[1]][0]
        list.clear(o)
        o.sym = None
        n, el = self._sym(m)
        r = VList.symbolic(n, el)
        if r.sym is None:
            list.extend(o, list.__iter__(r))
        else:
            o.sym = r.sym


class WriteS(Strat):
    """array that is only written, at cells determined by the iteration number"""

    def begin(self, k):
        o = self.loop.snap[self.loc[1]][0]
        o.el = seqs.RecEl(self.loc, [])
        self.buf = o

    def capture(self, b):
        if not isinstance(b.el, seqs.RecEl):
            raise Upgrade(self.loc)
        out = []
        for vm, vsh, val in b.el.writes:
            a = P.materialize(SArr(vsh, val, b.kind)) if vsh else None
            if vsh:
                fr = a.frozen()
                out.append((vm, vsh, fr))
            else:
                x = val()
                out.append((vm, vsh, (lambda y: (lambda: y))(x)))
        return out

    def close(self, cases, k):
        self.k = k
        self.cases = [(c, m.get(self.loc, [])) for c, m in cases]
        kt = k.t
        flat = []
        for c, ws in self.cases:
            for vm, vsh, val in ws:
                pin = None
                for d, m in enumerate(vm):
                    if m[0] == "f":
                        off = z3.simplify(it(m[1]) - kt)
                        if not core.occurs(off, kt):
                            pin = (d, off)
                            break
                if pin is None:
                    raise Upgrade(self.loc)
                flat.append((c, vm, vsh, val, pin))
        if flat:
            # a later iteration overwrites an earlier one: all writes pinned in one dimension, larger offset = earlier
            d0, off0 = flat[0][4]
            keyed = []
            for w in flat:
                d, off = w[4]
                diff = z3.simplify(off - off0)
                if d != d0 or not z3.is_int_value(diff):
                    raise Upgrade(self.loc)
                keyed.append((-diff.as_long(), w))
            keyed.sort(key=lambda x: x[0])
            flat = [w for _, w in keyed]
        self.flat = flat

    def after(self, m):
        lo = self.loop.lo
        o = self.loop.snap[self.loc[1]][0]
        old = self.loop.snap[self.loc[1]][1]
        kt = self.k.t
        flat = self.flat
        mt = it(m)
        if isinstance(old, seqs.RecEl):
            return self.after_rec(o, old, m)

        def el(*bi):
            r = old(*bi)
            for c, vm, vsh, val, (d, off) in flat:
                ks = z3.simplify(it(bi[d]) - off)
                vm2 = tuple(("f", vsubst(x[1], [(kt, ks)])) if x[0] == "f" else ("s", vsubst(x[1], [(kt, ks)]), x[2], x[3]) for x in vm)
                vs2 = tuple(vsubst(x, [(kt, ks)]) for x in vsh)
                cond, vi = seqs.write_cond(o, vm2, vs2)(bi)
                cc = z3.simplify(z3.And(it(lo) <= ks, ks < mt, z3.substitute(c, (kt, ks)), cond))
                if z3.is_false(cc):
                    continue
                v = vsubst(val(*vi), [(kt, ks)])
                r = v if z3.is_true(cc) else ite(mk(cc), v, r)
            return r
        o.el = seqs.memo_el(el)

    def after_rec(self, o, old, m):
        """the enclosing loop only records writes: express this loop's writes as one slice write"""
        if not self.flat:
            o.el = seqs.RecEl(old.loc, list(old.writes))
            return
        lo = self.loop.lo
        kt = self.k.t
        per = [len(ws) for _, ws in self.cases]
        if set(per) != {1}:
            raise Upgrade(self.loc)
        _, vm, vsh, _, (d, off) = self.flat[0]

        def key(x):
            return ("f", it(x[1]).sexpr()) if x[0] == "f" else ("s", it(x[1]).sexpr(), x[2], x[3])
        for _, vm2, vsh2, _, (d2, off2) in self.flat[1:]:
            if [key(x) for x in vm2] != [key(x) for x in vm] or [it(x).sexpr() for x in vsh2] != [it(x).sexpr() for x in vsh]:
                raise Upgrade(self.loc)
        for q, x in enumerate(vm):
            if q != d and core.occurs(it(x[1]), kt):
                raise Upgrade(self.loc)
        for x in vsh:
            if core.occurs(it(x), kt):
                raise Upgrade(self.loc)
        cases = [(c, val) for c, _, _, val, _ in self.flat]
        nv = len(vsh)
        vm3 = tuple(("s", simp(mk(it(lo) + off)), 1, nv) if q == d else x for q, x in enumerate(vm))
        cnt = simp(seqs.as_sym_int(m) - lo)

        def val3(*vi):
            ks = it(simp(seqs.as_sym_int(vi[-1]) + lo))
            vs = [(c, val(*vi[:-1])) for c, val in cases]
            v = vs[0][1] if len(vs) == 1 else vmerge(vs)
            return vsubst(v, [(kt, ks)])
        o.el = seqs.RecEl(old.loc, old.writes + [(vm3, tuple(vsh) + (cnt,), val3)])


# ---------------------------------------------------------------- the loop
class SymLoop:
    def __init__(self, ip, node, sc, n, el):
        self.ip, self.node, self.sc, self.n, self.el = ip, node, sc, simp(n) if isinstance(n, Sym) else n, el

    def run(self):
        CTX.loops.add(f"{self.sc.name}:{self.node.lineno - 0}")
        ip, sc, n = self.ip, self.sc, self.n
        if CTX.branch(it(n) <= 0):
            ip.block(self.node.orelse, sc)
            return
        self.lo = 0
        peels = 0
        while True:
            snap0 = P.walk_state(sc)
            nf, no = len(CTX.facts), len(CTX.obligations)
            try:
                return self.summarize(snap0)
            except NeedPeel:
                P.restore(snap0)
                del CTX.facts[nf:]
                del CTX.obligations[no:]
                peels += 1
                if peels > 2:
                    raise Unsupported("loop-carried state changes type")
                if self.exec_iter(self.lo) == "break":
                    return
                self.lo += 1
                if CTX.branch(it(n) <= self.lo):
                    ip.block(self.node.orelse, sc)
                    return

    def exec_iter(self, k):
        ip, sc = self.ip, self.sc
        ip.assign(self.node.target, self.el(k), sc)
        try:
            ip.block(self.node.body, sc)
        except P._Break:
            return "break"
        except P._Continue:
            pass
        return "next"

    def init_of(self, loc):
        o, c = self.snap0[loc[1]]
        if loc[0] == "v":
            return c.get(loc[2], P._MISSING)
        if loc[0] == "d":
            return c.get(loc[2], P._MISSING)
        if loc[0] == "o":
            return c[1].get(loc[2], P._MISSING)
        if loc[0] == "b":
            b = seqs.Buf(o.shape, c, o.kind)
            return b
        if loc[0] == "l":
            v = VList(c[1]) if c[0] == "l" else VList()
            if c[0] == "s":
                v.sym = c[1]
            return v
        raise Unsupported("loop modifies a container the verifier does not track")

    def first_strat(self, loc):
        if loc[0] in ("v", "o", "d"):
            return PoisonS(self, loc)
        if loc[0] == "l":
            return AppendS(self, loc)
        if loc[0] == "b":
            return WriteS(self, loc)
        raise Unsupported("loop modifies a set/dict/native array of its environment")

    def upgrade(self, strats, loc):
        cur = strats.get(loc)
        if cur is None:
            raise Unsupported(f"read of an undetermined value {loc[-1]}")
        if isinstance(cur, TrajS):
            raise Unsupported("loop-carried state not expressible")
        if isinstance(cur, AppendS):
            return "grow"
        return "traj"

    def summarize(self, snap0):
        ip, sc = self.ip, self.sc
        self.snap0 = self.snap = snap0
        plan = {}  # loc -> strategy name
        nf, no = len(CTX.facts), len(CTX.obligations)
        for attempt in range(30):
            CTX.check_deadline()
            P.restore(snap0)
            del CTX.facts[nf:]
            del CTX.obligations[no:]
            strats = {}
            try:
                for loc, nm in plan.items():
                    strats[loc] = {"traj": lambda l: TrajS(self, l), "trajreal": lambda l: TrajS(self, l, True), "grow": lambda l: GrowS(self, l), "growreal": lambda l: GrowS(self, l, True)}.get(nm, self.first_strat)(loc)
            except KindClash:
                if plan.get(loc) != "grow":
                    raise Unsupported("kind of loop-carried value")
                plan[loc] = "growreal"
                continue
            try:
                with generic(self.lo, self.n, "it") as k:
                    for s in strats.values():
                        s.begin(k)
                    snapk = P.walk_state(sc)
                    for i, (o, c) in snap0.items():
                        if i not in snapk:
                            snapk[i] = (o, _contents(o))
                    results = eval_paths(lambda: self.one(k, snapk, strats))
                P.restore(snap0)
                newlocs = []
                for c, (kind, mods) in results:
                    for loc in mods:
                        if loc not in strats and loc not in newlocs:
                            newlocs.append(loc)
                if newlocs:
                    for loc in newlocs:
                        if loc[1] not in snap0:
                            # modified object was created by a strategy instantiation (elements of carried values)
                            raise Unsupported("mutation of a loop-carried element")
                        plan[loc] = "first"
                    continue
                nexts = [(c, m) for c, (kind, m) in results if kind == "next"]
                exits = [c for c, (kind, m) in results if kind == "exit"]
                for s in strats.values():
                    s.close(nexts, k)
                break
            except P.PoisonRead as p:
                nxt = self.upgrade(strats, p.loc)
                plan[p.loc] = nxt
                P.restore(snap0)
                continue
            except Upgrade as u:
                cur = plan[u.loc]
                if cur == "traj" or cur == "trajreal":
                    raise Unsupported("loop-carried state not expressible")
                plan[u.loc] = "traj"
                P.restore(snap0)
                continue
            except KindClash:
                ch = False
                for loc, nm in plan.items():
                    if nm in ("traj", "grow"):
                        plan[loc] = nm + "real"
                        ch = True
                if not ch:
                    raise Unsupported("kind of loop-carried value")
                P.restore(snap0)
                continue
        else:
            raise Unsupported("loop analysis did not converge")
        P.restore(snap0)
        kt = k.t
        lo, n = it(self.lo), it(self.n)
        j = z3.Const(CTX.fresh_name("j"), I)
        if not exits:
            for s in strats.values():
                s.after(self.n)
            ip.block(self.node.orelse, sc)
            return
        ex = z3.Or(*exits)
        b = CTX.fresh("exits", "bool")
        w = CTX.fresh("wexit", "int")
        if CTX.branch(b.t):
            CTX.fact(z3.And(lo <= w.t, w.t < n))
            CTX.fact(z3.Implies(z3.And(lo <= j, j < w.t), z3.Not(z3.substitute(ex, (kt, j)))), [j])
            CTX.fact(z3.substitute(ex, (kt, w.t)))
            for s in strats.values():
                s.after(w)
            if self.exec_iter(w) == "break":
                return
            raise Infeasible()
        CTX.fact(z3.Implies(z3.And(lo <= j, j < n), z3.Not(z3.substitute(ex, (kt, j)))), [j])
        for s in strats.values():
            s.after(self.n)
        ip.block(self.node.orelse, sc)

    def one(self, k, snapk, strats):
        ip, sc = self.ip, self.sc
        P.restore(snapk)
        try:
            r = self.exec_iter(k)
        except P._Return:
            return ("exit", {})
        except P.INTERNAL:
            raise
        except (Upgrade, NeedPeel, KindClash):
            raise
        except Exception:
            return ("exit", {})
        if r == "break":
            return ("exit", {})
        mods = {}
        for loc, v in P.diff_state(snapk):
            s = strats.get(loc)
            if loc[0] in ("v", "o", "d"):
                mods[loc] = P.materialize(v) if v is not P._MISSING else v
            elif s is not None:
                mods[loc] = s.capture(v)
            else:
                mods[loc] = None
        return ("next", mods)


def _contents(o):
    import collections
    import numpy as np
    if isinstance(o, P.Scope):
        return dict(o.vars)
    if isinstance(o, VList):
        return ("l", list(list.__iter__(o))) if o.sym is None else ("s", o.sym)
    if isinstance(o, seqs.Buf):
        return o.el
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, (list, collections.deque)):
        return list(o)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, set):
        return set(o)
    return ("o", dict(o.__dict__))
