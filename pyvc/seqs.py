"""pyvc sequences: symbolic-length lists, symbolic-shape arrays, and folds over them."""
import z3
import numpy as np
from .core import (CTX, Sym, Unsupported, Generic, is_num, is_sym, mk, term, truth, ite, smin, smax,
                   kind_of, common, explore, I, R, const_value, power, SQRT, COS, SIN, ATAN2, ROUND, Infeasible)
from . import core


def simp(v):
    if isinstance(v, Sym):
        t = z3.simplify(v.t)
        return mk(t)
    return v


def as_int(v):
    """int or Sym(int)"""
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, Sym):
        if v.kind == "bool":
            return mk(term(v, "int"))
        if v.kind != "int":
            raise TypeError("real used as index")
        return v
    if isinstance(v, (float,)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError(f"index of type {type(v).__name__}")


def it(v):
    """z3 int term"""
    return term(v, "int")


def definitely(c):
    """is the z3/py bool provably true on this path (quick)?"""
    if isinstance(c, bool):
        return c
    if isinstance(c, Sym):
        c = c.t
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return not CTX.feasible(z3.Not(c))


def same_len(a, b):
    """do two lengths agree on this path? (branches when undetermined)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = a == b
    if isinstance(r, bool):
        return r
    return CTX.branch(r.t)


def norm_index(i, n, what="list index out of range"):
    """normalise a possibly negative index, branching into IndexError"""
    i = as_int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(what)
        return i
    if isinstance(i, int):
        if i < 0:
            i = n + i
            if CTX.branch(it(i) < 0):
                raise IndexError(what)
        else:
            if CTX.branch(it(i) >= it(n)):
                raise IndexError(what)
        return simp(i)
    if CTX.branch(i.t < 0):
        i = i + n
        if CTX.branch(it(i) < 0):
            raise IndexError(what)
        return simp(i)
    if CTX.branch(it(i) >= it(n)):
        raise IndexError(what)
    return i


def norm_slice(sl, n):
    """(start, step, length) for a slice with constant step over length n"""
    step = 1 if sl.step is None else sl.step
    if isinstance(step, Sym):
        raise Unsupported("symbolic slice step")
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    if isinstance(n, int) and not any(isinstance(x, Sym) for x in (sl.start, sl.stop)):
        st, sp, step = slice(sl.start, sl.stop, step).indices(n)
        ln = len(range(st, sp, step))
        return st, step, ln
    if step < 0:
        if sl.start is None and sl.stop is None and step == -1:
            return simp(n - 1), -1, n
        raise Unsupported("negative slice step on symbolic length")

    def clamp(v, default):
        if v is None:
            return default
        v = as_int(v)
        if isinstance(v, int):
            if v < 0:
                w = n + v
                return simp(ite(w < 0, 0, w)) if not definitely(it(w) >= 0) else simp(w)
            if v == 0:
                return 0
            if definitely(it(n) >= v):
                return v
            return ite(n < v, n, v)
        if CTX.branch(v.t < 0):
            w = simp(v + n)
            return ite(w < 0, 0, w) if not definitely(it(w) >= 0) else w
        if definitely(v.t <= it(n)):
            return v
        return ite(n < v, n, v)

    st = clamp(sl.start, 0)
    sp = clamp(sl.stop, n)
    d = sp - st if not (isinstance(st, int) and st == 0) else sp
    d = simp(d)
    if step == 1:
        ln = d
    else:
        ln = simp((d + (step - 1)) // step)
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not definitely(it(ln) >= 0):
        ln = ite(ln < 0, 0, ln)
    return st, step, ln


# ---------------------------------------------------------------- value substitution (generic index -> index)
def vsubst(v, pairs):
    """substitute z3 constants inside a value structure"""
    if isinstance(v, Sym):
        return mk(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        r = [vsubst(x, pairs) for x in v]
        return type(v)(*r) if hasattr(v, "_fields") else tuple(r)
    if isinstance(v, VList):
        return v.map_subst(pairs)
    if isinstance(v, list):
        return [vsubst(x, pairs) for x in v]
    if isinstance(v, SArr):
        return v.map_subst(pairs)
    if isinstance(v, dict):
        return {k: vsubst(x, pairs) for k, x in v.items()}
    if hasattr(v, "__pyvc_subst__"):
        return v.__pyvc_subst__(pairs)
    import types
    if isinstance(v, types.SimpleNamespace):
        return types.SimpleNamespace(**{k: vsubst(x, pairs) for k, x in v.__dict__.items()})
    return v


def vmerge(cases):
    """merge [(cond z3, value)] (conds exclusive & exhaustive) into one value"""
    if len(cases) == 1:
        return cases[0][1]
    vals = [v for _, v in cases]
    f = vals[0]
    if all(v is f for v in vals):
        return f
    if all(isinstance(v, Sym) or is_num(v) for v in vals):
        r = vals[-1]
        for c, v in reversed(cases[:-1]):
            r = ite(mk(c), v, r)
        return r
    if all(type(v) is type(f) for v in vals):
        if isinstance(f, (str, bytes, type(None))) and all(v == f for v in vals):
            return f
        if isinstance(f, tuple) and all(len(v) == len(f) for v in vals):
            return tuple(vmerge([(c, v[k]) for c, v in cases]) for k in range(len(f)))
        if isinstance(f, (VList, list)) and all(isinstance(v, list) for v in vals):
            ls = [vlen(v) for v in vals]
            if all(isinstance(l, int) and l == ls[0] for l in ls):
                return VList([vmerge([(c, v[k]) for c, v in cases]) for k in range(ls[0])])
            ln = vmerge([(c, l) for (c, _), l in zip(cases, ls)])

            def el(i):
                return vmerge([(c, vget_raw(v, i)) for c, v in cases])
            if all(not isinstance(l, int) or l > 0 for l in ls):
                return VList.symbolic(ln, el)
            raise Unsupported("merge of lists with different concrete lengths")
        if isinstance(f, SArr):
            if all(v.ndim == f.ndim for v in vals):
                shape = tuple(vmerge([(c, v.shape[k]) for c, v in cases]) for k in range(f.ndim))
                els = [v.frozen() for v in vals]
                return SArr(shape, lambda *ix: vmerge([(c, e(*ix)) for (c, _), e in zip(cases, els)]))
        if isinstance(f, dict) and all(list(v.keys()) == list(f.keys()) for v in vals):
            return {k: vmerge([(c, v[k]) for c, v in cases]) for k in f}
        try:
            if all(v == f for v in vals):
                return f
        except Exception:
            pass
    raise Unsupported("merge of unlike values " + ",".join(sorted({type(v).__name__ for v in vals})))


# ---------------------------------------------------------------- lists
class RecSym(tuple):
    """contents of a list at the start of an arbitrary loop iteration: may only be appended to"""

    def __new__(cls, loc, items):
        r = tuple.__new__(cls, ())
        r.loc, r.items = loc, items
        return r

    def _bad(self, *a):
        from .interp import PoisonRead
        raise PoisonRead(self.loc)

    __iter__ = _bad
    __getitem__ = _bad


class GrowSym(tuple):
    """(n, elem) of a list that grows in a loop, with the items appended in this iteration"""

    def __new__(cls, t, items):
        r = tuple.__new__(cls, t)
        r.items = items
        return r


class RecEl:
    """contents of an array at the start of an arbitrary loop iteration: may only be written to"""

    def __init__(self, loc, writes):
        self.loc, self.writes = loc, writes

    def __call__(self, *ix):
        from .interp import PoisonRead
        raise PoisonRead(self.loc)


class VList(list):
    """A Python list whose length may be symbolic.  sym is None for an ordinary list, else (len, elem)
    with elem: index (int or Sym/int term) -> value."""

    __slots__ = ("sym", "frozen_el", "notes")

    def __init__(self, items=()):
        list.__init__(self, items)
        self.sym = None
        self.notes = None

    @staticmethod
    def symbolic(n, elem):
        if isinstance(n, Sym):
            n = simp(n)
        if isinstance(n, int):
            return VList([elem(k) for k in range(max(n, 0))])
        v = VList()
        v.sym = (n, elem)
        return v

    def map_subst(self, pairs):
        if self.sym is None:
            return VList([vsubst(x, pairs) for x in list.__iter__(self)])
        n, el = self.sym
        return VList.symbolic(vsubst(n, pairs), lambda i: subst_except(el, i, pairs))

    # --- protocol
    def _no(self, what):
        if self.sym is not None:
            raise Unsupported(f"native {what} on a list of symbolic length")

    def __len__(self):
        self._no("len")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is None:
            return list.__len__(self) > 0
        return CTX.branch(it(self.sym[0]) > 0)

    def __iter__(self):
        self._no("iteration")
        return list.__iter__(self)

    def __getitem__(self, i):
        return vgetitem(self, i)

    def __setitem__(self, i, v):
        vsetitem(self, i, v)

    def __add__(self, o):
        return vconcat(self, o)

    def __radd__(self, o):
        return vconcat(o, self)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if self.sym is None:
            if isinstance(k, Sym):
                k = simp(k)
            if isinstance(k, Sym):
                if list.__len__(self) == 1:
                    x = list.__getitem__(self, 0)
                    n = k
                    if not definitely(it(n) >= 0):
                        n = ite(n < 0, 0, n)
                    return VList.symbolic(n, lambda i: x)
                raise Unsupported("list * symbolic")
            return VList(list.__mul__(self, k))
        raise Unsupported("symbolic list * n")

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, list):
            return veq(self, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, Sym):
            return mk(z3.Not(r.t))
        return not r

    __hash__ = None

    def append(self, v):
        if self.sym is None:
            list.append(self, v)
            return
        if isinstance(self.sym, RecSym):
            self.sym = RecSym(self.sym.loc, self.sym.items + [v])
            return
        grow = self.sym if isinstance(self.sym, GrowSym) else None
        n, el = self.sym
        nt = it(n)
        old = el

        def new(i, n=n, old=old):
            if isinstance(i, int) and definitely(nt > i):
                return old(i)
            ii = it(i)
            if z3.simplify(ii).eq(z3.simplify(nt)):
                return v
            c = z3.simplify(ii < nt)
            if z3.is_true(c):
                return old(i)
            if z3.is_false(c):
                return v
            return vmerge([(ii < nt, old(i)), (z3.Not(ii < nt), v)])
        self.sym = (simp(n + 1), new)
        if grow is not None:
            self.sym = GrowSym(self.sym, grow.items + [v])

    def extend(self, o):
        if isinstance(self.sym, (RecSym, GrowSym)) and not is_vsym(o) and isinstance(o, (list, tuple)):
            for x in list(o):
                self.append(x)
            return
        if self.sym is None and not (isinstance(o, VList) and o.sym is not None) and not isinstance(o, SArr):
            list.extend(self, list(o))
            return
        r = vconcat(self, o if isinstance(o, list) else tolist_seq(o))
        self._become(r)

    def _become(self, r):
        list.clear(self)
        if r.sym is None:
            list.extend(self, list.__iter__(r))
            self.sym = None
        else:
            self.sym = r.sym

    def copy(self):
        return vcopy(self)

    def pop(self, i=-1):
        if self.sym is None:
            return list.pop(self, i)
        n, el = self.sym
        if CTX.branch(it(n) <= 0):
            raise IndexError("pop from empty list")
        if i == -1:
            v = el(simp(n - 1))
            self.sym = (simp(n - 1), el)
            return v
        if i == 0:
            v = el(0)
            self.sym = (simp(n - 1), lambda k: el(simp(as_sym_int(k) + 1)))
            return v
        raise Unsupported("pop(i) on symbolic list")

    def reverse(self):
        if self.sym is None:
            return list.reverse(self)
        n, el = self.sym
        self.sym = (n, lambda k: el(simp(n - 1 - as_sym_int(k))))

    def sort(self, *, key=None, reverse=False):
        self._no("sort")
        r = sorted(list.__iter__(self), key=key, reverse=reverse)
        list.clear(self)
        list.extend(self, r)

    def index(self, x, *a):
        self._no("index")
        for k, y in enumerate(list.__iter__(self)):
            e = y is x or y == x
            if isinstance(e, Sym):
                e = bool(e)
            if e:
                return k
        raise ValueError("not in list")

    def __contains__(self, x):
        if self.sym is None:
            for y in list.__iter__(self):
                if y is x:
                    return True
                e = y == x
                if isinstance(e, Sym):
                    e = bool(e)
                if isinstance(e, SArr):
                    raise Unsupported("array in list")
                if e:
                    return True
            return False
        return bool(vcontains(self, x))

    def insert(self, i, v):
        if self.sym is None:
            return list.insert(self, i, v)
        if i == 0:
            r = vconcat(VList([v]), vcopy(self))
            return self._become(r)
        raise Unsupported("insert into symbolic list")

    def __deepcopy__(self, memo):
        import copy
        if self.sym is None:
            r = VList()
            memo[id(self)] = r
            list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
            return r
        r = VList()
        r.sym = self.sym
        return r

    def __copy__(self):
        return vcopy(self)

    def __repr__(self):
        if self.sym is None:
            return list.__repr__(self)
        return f"VList[{self.sym[0]}]"


def as_sym_int(k):
    if isinstance(k, (int, Sym)):
        return k
    return mk(k)


_SUB = 0


def subst_except(el, i, pairs):
    """elem function under a substitution: evaluate at a fresh placeholder, substitute, then put i in.
    (i itself must not be rewritten by the substitution)"""
    ph = z3.Const(CTX.fresh_name("ph"), I)
    v = el(Sym(ph))
    v = vsubst(v, pairs)
    return vsubst(v, [(ph, it(i))])


def is_vsym(v):
    return isinstance(v, VList) and v.sym is not None


def vlen(v):
    if isinstance(v, VList):
        return list.__len__(v) if v.sym is None else v.sym[0]
    if isinstance(v, SArr):
        return v.shape[0]
    return len(v)


def vget_raw(v, i):
    """element i without bounds checks"""
    if isinstance(v, VList) and v.sym is not None:
        return v.sym[1](i)
    if isinstance(v, SArr):
        return v.row(i)
    if isinstance(i, Sym):
        i = simp(i)
    if isinstance(i, Sym) or z3.is_expr(i):
        n = len(v)
        if n == 0:
            raise IndexError("list index out of range")
        t = it(i)
        items = list(v)
        cases = [(t == k, items[k]) for k in range(n - 1)] + [(t == n - 1, items[n - 1])]
        return vmerge(cases)
    return list.__getitem__(v, i) if isinstance(v, list) else v[i]


def vgetitem(v, i):
    if isinstance(i, slice):
        if v.sym is None and not any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
            return VList(list.__getitem__(v, i))
        n = vlen(v)
        st, step, ln = norm_slice(i, n)
        src = vcopy(v)
        if isinstance(st, int) and isinstance(ln, int) and src.sym is None:
            return VList([list.__getitem__(src, st + step * k) for k in range(ln)])
        return VList.symbolic(ln, lambda k: vget_raw(src, simp(as_sym_int(k) * step + st)))
    if v.sym is None and not isinstance(i, Sym):
        return list.__getitem__(v, i)
    k = norm_index(i, vlen(v))
    return vget_raw(v, k)


def vsetitem(v, i, x):
    if isinstance(i, slice):
        if v.sym is None and not any(isinstance(q, Sym) for q in (i.start, i.stop)):
            return list.__setitem__(v, i, list(x))
        raise Unsupported("slice assignment on symbolic list")
    if v.sym is None and not isinstance(i, Sym):
        return list.__setitem__(v, i, x)
    k = norm_index(i, vlen(v))
    kt = it(k)
    if v.sym is None:
        items = list(list.__iter__(v))
        for j in range(len(items)):
            list.__setitem__(v, j, vmerge([(kt == j, x), (z3.Not(kt == j), items[j])]))
        return
    n, old = v.sym

    def new(j):
        jt = it(j)
        c = z3.simplify(jt == kt)
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return old(j)
        return vmerge([(jt == kt, x), (z3.Not(jt == kt), old(j))])
    v.sym = (n, new)


def vcopy(v):
    if isinstance(v, VList):
        r = VList()
        if v.sym is None:
            list.extend(r, list.__iter__(v))
        else:
            r.sym = v.sym
        return r
    return VList(v)


def vconcat(a, b):
    if not isinstance(a, list) or not isinstance(b, list):
        raise TypeError("can only concatenate list")
    if not is_vsym(a) and not is_vsym(b):
        return VList(list(a) + list(b)) if not isinstance(a, VList) else VList(list(list.__iter__(a)) + list(list.__iter__(b)))
    na, nb = vlen(a), vlen(b)
    if isinstance(nb, int) and nb == 0:
        return vcopy(a)
    if isinstance(na, int) and na == 0:
        return vcopy(b)
    a, b = vcopy(a), vcopy(b)
    nt = it(na)

    def el(i):
        ii = it(i)
        c = z3.simplify(ii < nt)
        if z3.is_true(c):
            return vget_raw(a, i)
        if z3.is_false(c):
            return vget_raw(b, simp(as_sym_int(i) - na))
        if isinstance(i, int) and not isinstance(na, int) and definitely(nt > i):
            return vget_raw(a, i)
        if isinstance(na, int) and isinstance(i, Sym):
            cases = [(ii == k, vget_raw(a, k)) for k in range(na)]
            cases.append((ii >= na, vget_raw(b, simp(i - na))))
            return vmerge(cases)
        return vmerge([(ii < nt, vget_raw(a, i)), (z3.Not(ii < nt), vget_raw(b, simp(as_sym_int(i) - na)))])
    return VList.symbolic(simp(as_sym_int(na) + nb), el)


def tolist_seq(o):
    if isinstance(o, VList):
        return o
    if isinstance(o, (list, tuple)):
        return VList(o)
    if isinstance(o, SArr):
        return VList.symbolic(o.shape[0], lambda i: o.row(i)) if isinstance(o.shape[0], Sym) else VList([o.row(k) for k in range(o.shape[0])])
    if isinstance(o, (dict,)):
        return VList(list(o))
    if isinstance(o, SRange):
        return o.tolist()
    if isinstance(o, (set, frozenset, str, range)) or hasattr(o, "__iter__") or hasattr(o, "__next__"):
        return VList(list(o))
    raise TypeError(f"'{type(o).__name__}' object is not iterable")


class SRange:
    """range with symbolic bounds"""

    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, as_int(a[0]), 1
        elif len(a) == 2:
            self.start, self.stop, self.step = as_int(a[0]), as_int(a[1]), 1
        else:
            self.start, self.stop, self.step = map(as_int, a)
        n = None
        d = simp(self.stop - self.start) if not (isinstance(self.start, int) and self.start == 0) else self.stop
        if isinstance(self.step, int):
            if self.step == 1:
                n = d
            elif self.step > 0:
                n = simp((d + (self.step - 1)) // self.step)
            else:
                n = simp((d + (self.step + 1)) // self.step)
        else:
            if CTX.branch(it(self.step) <= 0):
                raise Unsupported("non-positive symbolic step")
            n = simp((d + (self.step - 1)) // self.step)
        if not definitely(it(n) >= 0):
            n = ite(n < 0, 0, n)
        self.n = n

    def tolist(self):
        st, sp = self.start, self.step
        return VList.symbolic(self.n, lambda i: simp(as_sym_int(i) * sp + st))


def same_elem(a, b):
    """equality of two values as bool/Sym"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return veq(a, b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise Unsupported("truth of array equality")
    return a == b


def veq(a, b):
    na, nb = vlen(a), vlen(b)
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            return False
        r = True
        for k in range(na):
            e = same_elem(vget_raw(a, k), vget_raw(b, k))
            if e is False:
                return False
            if isinstance(e, Sym):
                r = e if r is True else mk(z3.And(r.t, e.t))
            elif not e:
                return False
        return r
    c = it(na) == it(nb)
    if not CTX.branch(c):
        return False
    return forall_seq(na, lambda i: same_elem(vget_raw(a, i), vget_raw(b, i)))


def vcontains(v, x):
    n = vlen(v)
    return exists_seq(n, lambda i: same_elem(vget_raw(v, i), x))


# ---------------------------------------------------------------- generic evaluation
class generic:
    """context manager: an arbitrary index lo <= k < hi"""

    def __init__(self, lo, hi, base="k", extra=None):
        self.lo, self.hi, self.base, self.extra = lo, hi, base, extra

    def __enter__(self):
        v = z3.Const(CTX.fresh_name(self.base), I)
        gs = [it(self.lo) <= v]
        if self.hi is not None:
            gs.append(v < it(self.hi))
        if self.extra:
            gs.append(self.extra(v))
        CTX.generics.append(Generic(v, gs))
        return Sym(v)

    def __exit__(self, *a):
        CTX.generics.pop()


def eval_paths(fn, max_paths=64):
    """explore fn() inside the current generic context: [(cond, value)], exclusive.
    Facts are kept (they are guarded by the generics' guards)."""
    g = CTX.generics[-1]
    base = len(g.guards)
    pending = [[]]
    out = []
    n = 0
    while pending:
        prefix = pending.pop()
        n += 1
        if n > max_paths:
            raise core.PathLimit("too many paths in a loop/comprehension body")
        ex = core.Explorer(prefix)
        CTX.explorers.append(ex)
        save = list(g.guards)
        try:
            try:
                v = fn()
                conds = g.guards[base:]
                out.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
            except Infeasible:
                pass
            for k in range(len(prefix), len(ex.trail)):
                taken, other = ex.trail[k]
                if other:
                    pending.append([t for t, _ in ex.trail[:k]] + [not taken])
        finally:
            CTX.explorers.pop()
            g.guards[:] = save
    return out


def map_seq(n, body, base="k"):
    """VList of length n whose element at i is body(i).  Evaluated once at a generic index."""
    if isinstance(n, Sym):
        n = simp(n)
    if isinstance(n, int):
        return VList([body(k) for k in range(n)])
    with generic(0, n, base) as k:
        if not CTX.feasible(z3.BoolVal(True)):
            return VList()
        cases = eval_paths(lambda: body(k))
        v = vmerge(cases) if cases else None
    kt = k.t
    return VList.symbolic(n, lambda i: vsubst(v, [(kt, it(i))]))


def filter_map_seq(n, body, base="k"):
    """body(i) -> (keep, value) ; symbolic filter.  Order-preserving subsequence."""
    if isinstance(n, int):
        out = []
        for k in range(n):
            keep, v = body(k)
            if isinstance(keep, Sym):
                keep = bool(keep)
            if keep:
                out.append(v())
        return VList(out)
    with generic(0, n, base) as k:
        def run():
            keep, v = body(k)
            if not (bool(keep) if isinstance(keep, Sym) else keep):
                return (False, None)
            return (True, v())
        cases = eval_paths(run)
    kt = k.t
    keepc = [(c, v[1]) for c, v in cases if v[0]]
    if not keepc:
        return VList()
    keep = z3.Or(*[c for c, _ in keepc])
    if all(v[0] for _, v in cases):
        val = vmerge(keepc)
        return VList.symbolic(n, lambda i: vsubst(val, [(kt, it(i))]))
    val = vmerge(keepc)
    g, m = filter_index(n, lambda t: z3.substitute(keep, (kt, t)))
    return VList.symbolic(m, lambda i: vsubst(val, [(kt, g(it(i)))]))


def filter_index(n, keep):
    """(g, m): g enumerates, increasingly, exactly the indices i < n with keep(i)"""
    m = CTX.fresh("flen", "int")
    g = CTX.fresh_fun("fidx", 1, "int")
    h = CTX.fresh_fun("finv", 1, "int")
    nt = it(n)
    CTX.fact(z3.And(m.t >= 0, m.t <= nt))
    j = z3.Const(CTX.fresh_name("j"), I)
    j2 = z3.Const(CTX.fresh_name("j"), I)
    i = z3.Const(CTX.fresh_name("i"), I)
    CTX.fact(z3.Implies(z3.And(0 <= j, j < m.t), z3.And(g(j) >= 0, g(j) < nt, keep(g(j)), h(g(j)) == j, g(j) >= j)), [j])
    CTX.fact(z3.Implies(z3.And(0 <= j, j < j2, j2 < m.t), g(j) < g(j2)), [j, j2])
    CTX.fact(z3.Implies(z3.And(0 <= i, i < nt, keep(i)), z3.And(h(i) >= 0, h(i) < m.t, g(h(i)) == i)), [i])
    return g, m


def forall_seq(n, body):
    """SBool: body(i) for all 0<=i<n   (body may branch; result merged)"""
    return _quant(n, body, True)


def exists_seq(n, body):
    return _quant(n, body, False)


def _btruth(v):
    if isinstance(v, (Sym,)):
        return truth(v)
    if is_num(v):
        return z3.BoolVal(bool(v))
    if isinstance(v, VList):
        return it(vlen(v)) > 0
    return z3.BoolVal(bool(v))


def _quant(n, body, univ):
    if isinstance(n, Sym):
        n = simp(n)
    if isinstance(n, int):
        r = None
        for k in range(n):
            v = body(k)
            t = _btruth(v)
            t = z3.simplify(t)
            if univ and z3.is_false(t):
                return False
            if not univ and z3.is_true(t):
                return True
            if z3.is_true(t) or z3.is_false(t):
                continue
            r = t if r is None else (z3.And(r, t) if univ else z3.Or(r, t))
        if r is None:
            return univ
        return mk(r)
    with generic(0, n, "q") as k:
        if not CTX.feasible(z3.BoolVal(True)):
            return univ
        cases = eval_paths(lambda: mk(_btruth(body(k))))
        e = term(vmerge(cases), "bool")
    e = z3.simplify(e)
    if univ and z3.is_true(e):
        return True
    if not univ and z3.is_false(e):
        return False
    b = CTX.fresh("all" if univ else "any", "bool")
    w = CTX.fresh("w", "int")
    nt = it(n)
    q = z3.Const(CTX.fresh_name("q"), I)
    eq = z3.substitute(e, (k.t, q))
    ew = z3.substitute(e, (k.t, w.t))
    rng = z3.And(0 <= q, q < nt)
    wr = z3.And(0 <= w.t, w.t < nt)
    if univ:
        CTX.fact(z3.Implies(z3.And(b.t, rng), eq), [q])
        CTX.fact(z3.Implies(z3.Not(b.t), z3.And(wr, z3.Not(ew))))
    else:
        CTX.fact(z3.Implies(z3.And(z3.Not(b.t), rng), z3.Not(eq)), [q])
        CTX.fact(z3.Implies(b.t, z3.And(wr, ew)))
    return b


def fold_minmax(n, body, is_min, empty="raise", key=None):
    """min / max of body(i), 0<=i<n.  (value, witness index)"""
    if isinstance(n, Sym):
        n = simp(n)
    if isinstance(n, int):
        if n == 0:
            raise ValueError("min() arg is an empty sequence")
        r = body(0)
        for k in range(1, n):
            r = smin(r, body(k)) if is_min else smax(r, body(k))
        return r
    if CTX.branch(it(n) <= 0):
        raise ValueError("min() arg is an empty sequence")
    with generic(0, n, "m") as k:
        cases = eval_paths(lambda: body(k))
        e = vmerge(cases)
    if not (isinstance(e, Sym) or is_num(e)):
        raise Unsupported("min/max of non-scalars")
    et = term(e)
    kd = kind_of(et)
    if kd == "bool":
        et = term(e, "int")
        kd = "int"
    r = CTX.fresh("min" if is_min else "max", kd)
    w = CTX.fresh("argm", "int")
    q = z3.Const(CTX.fresh_name("q"), I)
    eq = z3.substitute(et, (k.t, q))
    ew = z3.substitute(et, (k.t, w.t))
    CTX.fact(z3.And(0 <= w.t, w.t < it(n), r.t == ew))
    CTX.fact(z3.Implies(z3.And(0 <= q, q < it(n)), r.t <= eq if is_min else r.t >= eq), [q])
    return r


def fold_sum(n, body, start=0):
    if isinstance(n, Sym):
        n = simp(n)
    if isinstance(n, int):
        r = start
        for k in range(n):
            v = body(k)
            r = r + v
        return r
    with generic(0, n, "s") as k:
        cases = eval_paths(lambda: body(k))
        e = vmerge(cases)
    if not (isinstance(e, Sym) or is_num(e)):
        raise Unsupported("sum of non-scalars")
    et = term(e)
    kd = kind_of(et)
    if kd == "bool":
        et = term(e, "int")
        kd = "int"
    S = CTX.fresh_fun("psum", 1, kd)
    q = z3.Const(CTX.fresh_name("q"), I)
    zero = z3.IntVal(0) if kd == "int" else z3.RealVal(0)
    CTX.fact(S(z3.IntVal(0)) == zero)
    CTX.fact(z3.Implies(z3.And(0 <= q, q < it(n)), S(q + 1) == S(q) + z3.substitute(et, (k.t, q))), [q])
    r = mk(S(it(n)))
    return r if is_num(start) and start == 0 else r + start


# ---------------------------------------------------------------- arrays
class Buf:
    __slots__ = ("shape", "el", "kind")

    def __init__(self, shape, el, kind):
        self.shape, self.el, self.kind = shape, el, kind


def dims(sh):
    return tuple(simp(x) if isinstance(x, Sym) else int(x) for x in sh)


class SArr:
    """numpy array of symbolic shape/contents.  A view shares its Buf with its base.
    vmap: per buffer dim  ('f', c) | ('s', start, step, viewdim)"""

    __array_priority__ = 2000
    __slots__ = ("buf", "vmap", "shape", "ro")
    __array_ufunc__ = None

    def __init__(self, shape, el, kind="real", buf=None, vmap=None, ro=False):
        self.shape = dims(shape)
        if buf is None:
            self.buf = Buf(self.shape, el, kind)
            self.vmap = None
        else:
            self.buf = buf
            self.vmap = vmap
        self.ro = ro

    # -- element access, idx: ints / Syms
    def at(self, *idx):
        if self.vmap is None:
            return self.buf.el(*idx)
        return self.buf.el(*self._bidx(idx))

    def _bidx(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == "f":
                out.append(m[1])
            else:
                _, st, step, vd = m
                x = idx[vd]
                out.append(simp(as_sym_int(x) * step + st) if not (isinstance(st, int) and st == 0 and step == 1) else x)
        return tuple(out)

    def frozen(self):
        """element function of the current contents (unaffected by later writes)"""
        el, vm = self.buf.el, self.vmap
        if vm is None:
            return el
        me = SArr(self.shape, None, buf=Buf(self.buf.shape, el, self.buf.kind), vmap=vm)
        return lambda *ix: me.at(*ix)

    def snapshot(self):
        return SArr(self.shape, self.frozen(), self.buf.kind)

    def map_subst(self, pairs):
        el = self.frozen()
        nd = len(self.shape)

        def new(*ix):
            phs = [z3.Const(CTX.fresh_name("ph"), I) for _ in ix]
            v = el(*[Sym(p) for p in phs])
            v = vsubst(v, pairs)
            return vsubst(v, [(p, it(i)) for p, i in zip(phs, ix)]) if phs else v
        return SArr(tuple(vsubst(s, pairs) for s in self.shape), new, self.buf.kind)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def T(self):
        return transpose(self)

    @property
    def dtype(self):
        return {"real": np.dtype(float), "int": np.dtype(int), "bool": np.dtype(bool)}.get(self.buf.kind, np.dtype(object))

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported("native len of symbolic array")

    def __iter__(self):
        if isinstance(self.shape[0], int):
            return iter([self.row(k) for k in range(self.shape[0])])
        raise Unsupported("native iteration of symbolic array")

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(mk(_btruth(self.at(*([0] * self.ndim)))))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def row(self, i):
        return getitem(self, (i,), checked=True)

    def __getitem__(self, ix):
        return getitem(self, ix if isinstance(ix, tuple) else (ix,))

    def __setitem__(self, ix, v):
        setitem(self, ix if isinstance(ix, tuple) else (ix,), v)

    def __deepcopy__(self, memo):
        r = self.snapshot()
        memo[id(self)] = r
        return r

    def __copy__(self):
        return self.snapshot()

    def copy(self, *a, **k):
        return self.snapshot()

    def tolist(self):
        if self.ndim == 0:
            return self.at()
        n = self.shape[0]
        me = self.snapshot()
        if isinstance(n, int):
            return VList([(me.at(k) if me.ndim == 1 else me.row(k).tolist()) for k in range(n)])
        return VList.symbolic(n, lambda i: me.at(i) if me.ndim == 1 else me.row(i).tolist())

    def astype(self, t, *a, **k):
        if t in (float, np.float64, "float", "float64", np.double):
            el = self.frozen()
            return SArr(self.shape, lambda *ix: mk(term(el(*ix), "real")) if isinstance(el(*ix), Sym) else float(el(*ix)), "real")
        raise Unsupported("astype")

    def flatten(self, *a):
        return ravel(self)

    ravel = flatten

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return reshape(self, sh)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def dot(self, o):
        return matmul(self, o)

    def min(self, axis=None, **k):
        return reduce_arr(self, "min", axis)

    def max(self, axis=None, **k):
        return reduce_arr(self, "max", axis)

    def sum(self, axis=None, **k):
        return reduce_arr(self, "sum", axis)

    def all(self, axis=None, **k):
        return reduce_arr(self, "all", axis)

    def any(self, axis=None, **k):
        return reduce_arr(self, "any", axis)

    def mean(self, axis=None, **k):
        s = reduce_arr(self, "sum", axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def item(self):
        return self.at(*([0] * self.ndim))

    def fill(self, v):
        self[...] = v

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __neg__(self):
        return elementwise(lambda a: -a, self)

    def __abs__(self):
        return elementwise(abs, self)

    def __invert__(self):
        return elementwise(lambda a: mk(z3.Not(_btruth(a))), self)

    def __repr__(self):
        return f"SArr{self.shape}"

    __hash__ = None


def _mkop(name, f):
    def op(self, o):
        if not (isinstance(o, (SArr, Sym, list, np.ndarray)) or is_num(o)):
            return NotImplemented
        return elementwise(f, self, o)

    def rop(self, o):
        if not (isinstance(o, (SArr, Sym, list, np.ndarray)) or is_num(o)):
            return NotImplemented
        return elementwise(f, o, self)

    def iop(self, o):
        r = elementwise(f, self, o)
        self[...] = r
        return self
    setattr(SArr, f"__{name}__", op)
    setattr(SArr, f"__r{name}__", rop)
    setattr(SArr, f"__i{name}__", iop)


def _npdiv(a, b):
    CTX.numpy_div += 1
    try:
        if is_num(b) and b == 0:
            raise Unsupported("numpy division by constant zero")
        return a / b
    finally:
        CTX.numpy_div -= 1


import operator as _op

_mkop("add", _op.add)
_mkop("sub", _op.sub)
_mkop("mul", _op.mul)
_mkop("truediv", _npdiv)
_mkop("floordiv", _op.floordiv)
_mkop("mod", _op.mod)
_mkop("pow", _op.pow)


def _band(a, b):
    return mk(z3.And(_btruth(a), _btruth(b)))


def _bor(a, b):
    return mk(z3.Or(_btruth(a), _btruth(b)))


_mkop("and", _band)
_mkop("or", _bor)


def _mkcmp(name, f):
    def op(self, o):
        if o is None:
            return name == "ne"
        if not (isinstance(o, (SArr, Sym, list, tuple, np.ndarray)) or is_num(o)):
            return NotImplemented
        return elementwise(f, self, o, kind="bool")
    setattr(SArr, f"__{name}__", op)


for _n, _f in (("lt", _op.lt), ("le", _op.le), ("gt", _op.gt), ("ge", _op.ge), ("eq", _op.eq), ("ne", _op.ne)):
    _mkcmp(_n, _f)


def nested_shape(v):
    """shape of a nested list/tuple/array value, or None for scalars"""
    if isinstance(v, (SArr, np.ndarray)):
        return tuple(v.shape)
    if isinstance(v, (list, tuple)):
        n = vlen(v)
        if isinstance(n, int) and n == 0:
            return (0,)
        if isinstance(n, int):
            subs = [nested_shape(vget_raw(v, k)) for k in range(n)]
            s0 = subs[0]
            for s in subs[1:]:
                if len(s) != len(s0) or not all(same_len(a, b) for a, b in zip(s, s0)):
                    raise ValueError("inhomogeneous shape")
            return (n,) + s0
        with generic(0, n, "sh") as k:
            if not CTX.feasible(z3.BoolVal(True)):
                return (n,)
            s = nested_shape(vget_raw(v, k))
        s2 = []
        for d in s:
            if isinstance(d, Sym) and core.occurs(d.t, k.t):
                # homogeneous? prove equal to element 0's dimension
                d0 = vsubst(d, [(k.t, z3.IntVal(0))])
                with generic(0, n, "sh") as kk:
                    dk = vsubst(d, [(k.t, kk.t)])
                    if not definitely(it(dk) == it(d0)):
                        raise Unsupported("possibly ragged nested list")
                d = d0
            s2.append(d)
        return (n,) + tuple(s2)
    return ()


def nested_at(v, idx):
    if not idx:
        return v
    if isinstance(v, SArr):
        return v.at(*idx)
    if isinstance(v, np.ndarray):
        return nested_at(arr(v), idx)
    return nested_at(vget_raw(v, idx[0]), idx[1:])


def snap_nested(v):
    if isinstance(v, VList):
        if v.sym is None:
            return VList([snap_nested(x) for x in list.__iter__(v)])
        return vcopy(v)
    if isinstance(v, (list, tuple)):
        return VList([snap_nested(x) for x in v])
    if isinstance(v, SArr):
        return v.snapshot()
    return v


def guess_kind(v):
    if isinstance(v, Sym):
        return v.kind if v.kind in ("int", "real", "bool") else "obj"
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, (int, np.integer)):
        return "int"
    if is_num(v):
        return "real"
    return "obj"


def arr(v, force_real=False):
    """np.array(v)"""
    if isinstance(v, SArr):
        return v.snapshot()
    if isinstance(v, np.ndarray):
        a = v.copy()
        if a.dtype == object and a.ndim == 0:
            return a
        k = "bool" if a.dtype == bool else ("int" if a.dtype.kind in "iu" else "real")
        return SArr(a.shape, lambda *ix: _conc_at(a, ix), k)
    if isinstance(v, Sym) or is_num(v):
        return SArr((), lambda: v, guess_kind(v))
    sh = nested_shape(v)
    if sh == ():
        raise Unsupported(f"np.array of {type(v).__name__}")
    sv = snap_nested(v)
    kinds = set()
    if all(isinstance(s, int) for s in sh):
        import itertools as _it
        tot = 1
        for s in sh:
            tot *= s
        if tot <= 4000:
            items = {ix: nested_at(sv, ix) for ix in _it.product(*[range(s) for s in sh])}
            kinds = {guess_kind(x) for x in items.values()}
            if kinds & {"obj"}:
                raise Unsupported("array of objects")
            real = "real" in kinds or force_real or not items
            if real:
                items = {k: (mk(term(x, "real")) if isinstance(x, Sym) and x.kind != "real" else (float(x) if isinstance(x, (int, bool)) else x)) for k, x in items.items()}
            kd = "real" if real else ("int" if "int" in kinds else "bool")
            return SArr(sh, dense(items, sh), kd)
    gs = []
    for s in sh:
        gs.append(z3.Const(CTX.fresh_name("gk"), I))
    probe = nested_at(sv, tuple(Sym(x) for x in gs))
    kd = guess_kind(probe)
    if kd == "obj":
        raise Unsupported("array of objects")
    return SArr(sh, lambda *ix: nested_at(sv, ix), kd)


def dense(items, sh):
    """element function over a concrete-shaped table"""
    def el(*ix):
        if all(isinstance(i, int) for i in ix):
            return items[ix]
        return _select(items, sh, ix, ())
    return el


def _select(items, sh, ix, done):
    k = len(done)
    if k == len(sh):
        return items[done]
    i = ix[k]
    if isinstance(i, Sym):
        i = simp(i)
    if isinstance(i, int):
        return _select(items, sh, ix, done + (i,))
    n = sh[k]
    if n == 0:
        return 0.0
    r = _select(items, sh, ix, done + (n - 1,))
    for j in range(n - 2, -1, -1):
        r = ite(mk(it(i) == j), _select(items, sh, ix, done + (j,)), r)
    return r


def _conc_at(a, ix):
    if all(isinstance(i, (int, np.integer)) for i in ix):
        x = a[tuple(ix)]
        return x.item() if isinstance(x, np.generic) else x
    items = {k: (v.item() if isinstance(v, np.generic) else v) for k, v in np.ndenumerate(a)}
    return _select(items, a.shape, ix, ())


def asarr(v):
    if isinstance(v, SArr):
        return v
    return arr(v)


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        ds = []
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0:
                ds.append(s[j])
        d = 1
        for x in ds:
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
            elif not same_len(d, x):
                if isinstance(x, Sym) and CTX.branch(x.t == 1):
                    continue
                if isinstance(d, Sym) and CTX.branch(d.t == 1):
                    d = x
                    continue
                raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bget(fr, sh, nd):
    """index function of a broadcast operand"""
    off = nd - len(sh)
    one = [isinstance(d, int) and d == 1 for d in sh]

    def g(ix):
        return fr(*[0 if one[j] else ix[j + off] for j in range(len(sh))])
    return g


def elementwise(f, *ops, kind=None):
    ops2 = []
    for o in ops:
        if isinstance(o, Sym) or is_num(o):
            ops2.append(((), (lambda v: (lambda: v))(o), guess_kind(o)))
        else:
            a = asarr(o)
            ops2.append((a.shape, a.frozen(), a.buf.kind))
    sh = bshape([s for s, _, _ in ops2])
    if sh == ():
        return f(*[fr() for _, fr, _ in ops2])
    gs = [bget(fr, s, len(sh)) for s, fr, _ in ops2]
    if kind is None:
        kind = "real" if any(k == "real" for _, _, k in ops2) or f is _npdiv else ("int" if any(k == "int" for _, _, k in ops2) else "bool")

    def el(*ix):
        return f(*[g(ix) for g in gs])
    # evaluate once at a generic index so that side obligations (division by zero) are raised
    if f is _npdiv:
        _touch(sh, el)
    return SArr(sh, memo_el(el), kind)


def _touch(sh, el):
    from contextlib import ExitStack
    with ExitStack() as st:
        ix = []
        for s in sh:
            if isinstance(s, int) and s <= 3:
                ix.append(None)
            else:
                ix.append(st.enter_context(generic(0, s, "e")))
        def rec(k, cur):
            if k == len(sh):
                el(*cur)
                return
            if ix[k] is None:
                for j in range(sh[k]):
                    rec(k + 1, cur + [j])
            else:
                rec(k + 1, cur + [ix[k]])
        rec(0, [])


def memo_el(el):
    cache = {}

    def g(*ix):
        key = tuple(i if isinstance(i, int) else ("t", i.t.get_id()) for i in ix)
        r = cache.get(key)
        if r is None:
            r = (el(*ix), ix)  # keep ix alive
            cache[key] = r
        return r[0]
    return g


def getitem(a, ix, checked=False, lazy=False):
    # normalise index tuple
    ix = list(ix)
    if any(x is Ellipsis for x in ix):
        p = [k for k, x in enumerate(ix) if x is Ellipsis][0]
        fill = a.ndim - (len([x for x in ix if x is not None]) - 1)
        ix = ix[:p] + [slice(None)] * fill + ix[p + 1:]
    if any(x is None for x in ix):
        return _getitem_newaxis(a, ix)
    if any(isinstance(x, (SArr, np.ndarray, list)) for x in ix):
        return fancy_get(a, ix)
    if len(ix) > a.ndim:
        raise IndexError("too many indices for array")
    ix = ix + [slice(None)] * (a.ndim - len(ix))
    vm0 = a.vmap or tuple(("s", 0, 1, k) for k in range(a.ndim))
    newdim = {}
    comp = {}
    shape = []
    for d, x in enumerate(ix):
        if isinstance(x, slice):
            st, step, ln = norm_slice(x, a.shape[d])
            comp[d] = ("s", st, step, len(shape))
            shape.append(ln)
        else:
            if checked:
                i = as_int(x)
            else:
                i = norm_index(x, a.shape[d], "index out of bounds")
            comp[d] = ("f", i)
    vm = []
    for m in vm0:
        if m[0] == "f":
            vm.append(m)
        else:
            _, st, step, vd = m
            c = comp[vd]
            if c[0] == "f":
                vm.append(("f", simp(as_sym_int(c[1]) * step + st) if not (isinstance(st, int) and st == 0 and step == 1) else c[1]))
            else:
                _, st2, step2, nd = c
                if isinstance(st, int) and st == 0 and step == 1:
                    vm.append(("s", st2, step2, nd))
                else:
                    vm.append(("s", simp(as_sym_int(st2) * step + st), step * step2, nd))
    r = SArr(tuple(shape), None, buf=a.buf, vmap=tuple(vm), ro=a.ro)
    if not shape and not lazy:
        return r.at()
    return r


def _getitem_newaxis(a, ix):
    base = [x for x in ix if x is not None]
    r = getitem(a, tuple(base)) if base else a
    if not isinstance(r, SArr):
        r = SArr((), (lambda v: (lambda: v))(r), guess_kind(r))
    # positions of new axes in result
    shape, keep = [], []
    j = 0
    for x in ix:
        if x is None:
            shape.append(1)
            keep.append(None)
        elif isinstance(x, slice):
            shape.append(r.shape[j])
            keep.append(j)
            j += 1
    while j < r.ndim:
        shape.append(r.shape[j])
        keep.append(j)
        j += 1
    el = r.frozen()

    def e(*ii):
        return el(*[i for i, k in zip(ii, keep) if k is not None])
    return SArr(tuple(shape), e, a.buf.kind, ro=True)


class MaskIdx:
    """result of np.where(mask)/nonzero on a 1-D mask: used as an index"""

    def __init__(self, mask):
        self.mask = mask  # SArr bool 1-D


def fancy_get(a, ix):
    if len(ix) == 1:
        x = asarr(ix[0])
        if x.buf.kind == "bool" and x.ndim == 1:
            if not same_len(x.shape[0], a.shape[0]):
                raise IndexError("boolean index did not match")
            fr = x.frozen()
            af = a.frozen()
            n = a.shape[0]
            if isinstance(n, int):
                keep = [k for k in range(n) if bool(mk(_btruth(fr(k))))]
                return SArr((len(keep),) + a.shape[1:], lambda i, *r: vget_raw(VList([af(k, *r) for k in keep]), i), a.buf.kind)
            g, m = filter_index(n, lambda t: _btruth(fr(Sym(t))))
            return SArr((m,) + a.shape[1:], lambda i, *r: af(mk(g(it(i))), *r), a.buf.kind)
        if x.buf.kind == "int" and x.ndim == 1:
            fr, af = x.frozen(), a.frozen()
            n = a.shape[0]

            def el(i, *r):
                j = fr(i)
                if isinstance(j, int):
                    j = j if j >= 0 else simp(as_sym_int(n) + j)
                else:
                    j = ite(j < 0, j + n, j)
                return af(j, *r)
            return SArr((x.shape[0],) + a.shape[1:], el, a.buf.kind)
    # [:, intlist]
    pos = [k for k, x in enumerate(ix) if isinstance(x, (SArr, np.ndarray, list))]
    if len(pos) == 1 and all(isinstance(x, slice) for k, x in enumerate(ix) if k != pos[0]):
        p = pos[0]
        rest = [x for x in ix]
        rest[p] = slice(None)
        b = getitem(a, tuple(rest))
        x = asarr(ix[p])
        if x.buf.kind == "int" and x.ndim == 1:
            fr, bf = x.frozen(), b.frozen()
            n = b.shape[p]

            def el(*ii):
                ii = list(ii)
                j = fr(ii[p])
                if isinstance(j, int):
                    j = j if j >= 0 else simp(as_sym_int(n) + j)
                else:
                    j = ite(j < 0, j + n, j)
                ii[p] = j
                return bf(*ii)
            return SArr(b.shape[:p] + (x.shape[0],) + b.shape[p + 1:], el, a.buf.kind)
    raise Unsupported("advanced indexing")


def setitem(a, ix, v):
    if a.ro:
        raise Unsupported("write through a reshaped/expanded view")
    ix = list(ix)
    if any(x is Ellipsis for x in ix):
        p = [k for k, x in enumerate(ix) if x is Ellipsis][0]
        fill = a.ndim - (len(ix) - 1)
        ix = ix[:p] + [slice(None)] * fill + ix[p + 1:]
    mask = None
    # a[np.where(mask)] = v, a[np.where(mask), i, j] = v, a[mask] = v
    if ix and isinstance(ix[0], tuple) and len(ix[0]) == 1 and isinstance(ix[0][0], MaskIdx):
        ix[0] = ix[0][0]
    if ix and isinstance(ix[0], MaskIdx):
        mask = ix[0].mask
    elif ix and isinstance(ix[0], (SArr, np.ndarray)) and asarr(ix[0]).buf.kind == "bool":
        mask = asarr(ix[0])
    if mask is not None:
        if mask.ndim != 1:
            if mask.ndim == a.ndim and len(ix) == 1 and (isinstance(v, Sym) or is_num(v)):
                old, mf = a.frozen(), mask.frozen()
                bshape([a.shape, mask.shape])
                _write(a, [slice(None)] * a.ndim, lambda *ii: ite(mk(_btruth(mf(*ii))), v, old(*ii)), a.shape)
                return
            raise Unsupported("mask assignment")
        if not same_len(mask.shape[0], a.shape[0]):
            raise IndexError("boolean index did not match")
        if not (isinstance(v, Sym) or is_num(v)):
            raise Unsupported("mask assignment of non-scalar")
        rest = ix[1:]
        sub = [slice(None)] + list(rest)
        view = getitem(a, tuple(sub))
        old, mf = view.frozen(), mask.frozen()
        _write(a, sub, lambda i, *r: ite(mk(_btruth(mf(i))), v, old(i, *r)), view.shape)
        return
    if any(isinstance(x, (SArr, np.ndarray, list)) for x in ix):
        raise Unsupported("advanced index assignment")
    if len(ix) > a.ndim:
        raise IndexError("too many indices for array")
    ix = ix + [slice(None)] * (a.ndim - len(ix))
    view = getitem(a, tuple(ix), lazy=True)
    if view.shape == ():
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.at()
        if not (isinstance(v, Sym) or is_num(v)):
            if isinstance(v, (SArr, list)) and all(isinstance(s, int) and s == 1 for s in nested_shape(v)):
                v = nested_at(v, (0,) * len(nested_shape(v)))
            else:
                raise ValueError("setting an array element with a sequence.")
        vv = coerce_kind(v, a.buf.kind)
        _write(a, ix, lambda: vv, ())
        return
    if isinstance(v, Sym) or is_num(v):
        vv = coerce_kind(v, a.buf.kind)
        _write(a, ix, lambda *ii: vv, view.shape)
        return
    src = asarr(v)
    # drop leading 1s
    sh = src.shape
    fr = src.frozen()
    while len(sh) > view.ndim:
        if not (isinstance(sh[0], int) and sh[0] == 1):
            raise ValueError("could not broadcast input array")
        sh = sh[1:]
        fr = (lambda f: (lambda *r: f(0, *r)))(fr)
    full = bshape([view.shape, sh])
    for d, e in zip(full, view.shape):
        if not same_len(d, e):
            raise ValueError("could not broadcast input array")
    g = bget(fr, sh, view.ndim)
    kd = a.buf.kind
    _write(a, ix, lambda *ii: coerce_kind(g(ii), kd), view.shape)


def coerce_kind(v, kind):
    if kind == "real":
        if isinstance(v, Sym) and v.kind != "real":
            return mk(term(v, "real"))
        if isinstance(v, int):
            return float(v)
        return v
    if kind == "int":
        if isinstance(v, Sym) and v.kind == "real":
            raise Unsupported("float stored into int array")
        if isinstance(v, float):
            return int(v)
    return v


def _write(a, ix, val, vshape):
    """write val(view idx) through index ix of array a (a may itself be a view)"""
    view = getitem(a, tuple(ix), lazy=True)
    buf = a.buf
    vm = view.vmap
    old = buf.el
    nview = len(vshape)
    if isinstance(old, RecEl):
        buf.el = RecEl(old.loc, old.writes + [(vm, tuple(vshape), val)])
        return
    cond_of = write_cond(buf, vm, vshape)

    def new(*bi):
        c, vi = cond_of(bi)
        if z3.is_true(c):
            return val(*vi)
        if z3.is_false(c):
            return old(*bi)
        return ite(mk(c), val(*vi), old(*bi))
    buf.el = memo_el(new)


def write_cond(buf, vm, vshape):
    """bi -> (condition that buffer cell bi lies in the view, view index)"""
    nview = len(vshape)

    def cond_of(bi):
        conds, vi = [], [None] * nview
        for b, m in zip(bi, vm):
            bt = it(b)
            if m[0] == "f":
                conds.append(bt == it(m[1]))
            else:
                _, st, step, vd = m
                n = vshape[vd]
                if isinstance(st, int) and st == 0 and step == 1:
                    k = b
                elif step == 1:
                    k = simp(as_sym_int(b) - st)
                elif step == -1:
                    k = simp(-(as_sym_int(b) - st))
                else:
                    if step < 0:
                        raise Unsupported("negative step write")
                    d = simp(as_sym_int(b) - st)
                    conds.append(it(d) % step == 0)
                    k = simp(d // step) if not isinstance(d, int) else d // step
                    # d = step*k
                if not (isinstance(st, int) and st == 0 and step == 1 and full_dim(n, buf, m, bi, b)):
                    kt = it(k)
                    conds.append(kt >= 0)
                    conds.append(kt < it(n))
                vi[vd] = k
        c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        return c, vi
    return cond_of


def full_dim(n, buf, m, bi, b):
    """does the slice cover the whole buffer dimension?"""
    for k, x in enumerate(bi):
        if x is b:
            s = buf.shape[k]
            if isinstance(n, int) and isinstance(s, int):
                return n == s
            if isinstance(n, Sym) and isinstance(s, Sym):
                return n.t.eq(s.t)
    return False


def transpose(a, axes=None):
    a = asarr(a)
    nd = a.ndim
    if axes is None:
        axes = tuple(reversed(range(nd)))
    inv = {old: new for new, old in enumerate(axes)}
    vm0 = a.vmap or tuple(("s", 0, 1, k) for k in range(nd))
    vm = tuple(m if m[0] == "f" else ("s", m[1], m[2], inv[m[3]]) for m in vm0)
    return SArr(tuple(a.shape[k] for k in axes), None, buf=a.buf, vmap=vm, ro=a.ro)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return simp(r) if isinstance(r, Sym) else r


def reshape(a, sh):
    a = asarr(a)
    if isinstance(sh, (int, Sym)):
        sh = (sh,)
    sh = list(sh)
    neg = [k for k, s in enumerate(sh) if isinstance(s, int) and s == -1]
    old_nz = [(k, d) for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    if neg:
        known = [s for k, s in enumerate(sh) if k != neg[0]]
        if all(isinstance(s, int) for s in a.shape) and all(isinstance(s, int) for s in known):
            sh[neg[0]] = prod(a.shape) // max(prod(known), 1)
        elif all(isinstance(s, int) and s == 1 for s in known) and len(old_nz) <= 1:
            sh[neg[0]] = old_nz[0][1] if old_nz else 1
        else:
            raise Unsupported("reshape -1 with symbolic dims")
    new_nz = [(k, d) for k, d in enumerate(sh) if not (isinstance(d, int) and d == 1)]
    fr = a.frozen()
    if len(old_nz) == len(new_nz) and all(same_len(x[1], y[1]) for x, y in zip(old_nz, new_nz)):
        def el(*ix):
            src = [0] * a.ndim
            for (ko, _), (kn, _) in zip(old_nz, new_nz):
                src[ko] = ix[kn]
            return fr(*src)
        return SArr(tuple(sh), el, a.buf.kind, ro=True)
    if all(isinstance(s, int) for s in a.shape) and all(isinstance(s, int) for s in sh):
        if prod(a.shape) != prod(sh):
            raise ValueError("cannot reshape array")
        import itertools as _it
        items = [fr(*ix) for ix in _it.product(*[range(s) for s in a.shape])]
        tab = dict(zip(_it.product(*[range(s) for s in sh]), items))
        return SArr(tuple(sh), dense(tab, tuple(sh)), a.buf.kind, ro=True)
    raise Unsupported("reshape")


def ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        return a.snapshot()
    nz = [(k, d) for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    if len(nz) <= 1:
        return reshape(a, (nz[0][1] if nz else 1,)).snapshot()
    if all(isinstance(s, int) for s in a.shape):
        return reshape(a, (prod(a.shape),)).snapshot()
    raise Unsupported("ravel of symbolic multi-dim array")


def reduce_arr(a, op, axis=None, keepdims=False):
    a = asarr(a)
    fr = a.frozen()
    if axis is None:
        if a.ndim == 0:
            return a.at()
        if a.ndim == 1:
            return _fold(op, a.shape[0], lambda i: fr(i))
        # all dims: fold nested over generic index
        def inner(i):
            return reduce_arr(a.row(i), op)
        return _fold(op, a.shape[0], inner)
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    if axis < 0:
        axis += a.ndim
    rest = tuple(d for k, d in enumerate(a.shape) if k != axis)
    if not rest:
        return _fold(op, a.shape[0], lambda i: fr(i))
    n = a.shape[axis]
    # element at generic rest index
    from contextlib import ExitStack
    if all(isinstance(d, int) for d in rest) and prod(rest) <= 64:
        import itertools as _it
        tab = {}
        for ix in _it.product(*[range(d) for d in rest]):
            tab[ix] = _fold(op, n, lambda i: fr(*(ix[:axis] + (i,) + ix[axis:])))
        return SArr(rest, dense(tab, rest), a.buf.kind if op not in ("all", "any") else "bool")
    # emptiness is decided outside the generic context
    if op in ("min", "max") and not isinstance(n, int):
        if CTX.branch(it(n) <= 0):
            raise ValueError("zero-size array to reduction operation")
    with ExitStack() as st:
        ks = [st.enter_context(generic(0, d, "ax")) for d in rest]
        v = _fold(op, n, lambda i: fr(*(tuple(ks[:axis]) + (i,) + tuple(ks[axis:]))))
    kts = [k.t for k in ks]
    return SArr(rest, lambda *ix: vsubst(v, [(k, it(i)) for k, i in zip(kts, ix)]), a.buf.kind if op not in ("all", "any") else "bool")


def _fold(op, n, body):
    if op == "min":
        return fold_minmax(n, body, True)
    if op == "max":
        return fold_minmax(n, body, False)
    if op == "sum":
        return fold_sum(n, body)
    if op == "all":
        return forall_seq(n, body)
    if op == "any":
        return exists_seq(n, body)
    raise Unsupported(op)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    fa, fb = a.frozen(), b.frozen()
    if a.ndim == 1 and b.ndim == 1:
        if not same_len(a.shape[0], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        return fold_sum(a.shape[0], lambda k: fa(k) * fb(k))
    if a.ndim == 2 and b.ndim == 1:
        if not same_len(a.shape[1], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        return _build((a.shape[0],), lambda i: fold_sum(a.shape[1], lambda k: fa(i, k) * fb(k)))
    if a.ndim == 1 and b.ndim == 2:
        if not same_len(a.shape[0], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        return _build((b.shape[1],), lambda j: fold_sum(a.shape[0], lambda k: fa(k) * fb(k, j)))
    if a.ndim == 2 and b.ndim == 2:
        if not same_len(a.shape[1], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        return _build((a.shape[0], b.shape[1]), lambda i, j: fold_sum(a.shape[1], lambda k: fa(i, k) * fb(k, j)))
    raise Unsupported("matmul ndim")


def _build(sh, f, kind="real"):
    sh = dims(sh)
    if all(isinstance(d, int) for d in sh):
        import itertools as _it
        tab = {ix: f(*ix) for ix in _it.product(*[range(d) for d in sh])}
        return SArr(sh, dense(tab, sh), kind)
    from contextlib import ExitStack
    with ExitStack() as st:
        ks = [st.enter_context(generic(0, d, "b")) for d in sh]
        v = f(*ks)
    kts = [k.t for k in ks]
    return SArr(sh, lambda *ix: vsubst(v, [(k, it(i)) for k, i in zip(kts, ix)]), kind)


def has_sym(v, depth=0, seen=None):
    """does a value contain symbolic parts? (shallow structural walk)"""
    if isinstance(v, (Sym, SArr, SRange)):
        return True
    if isinstance(v, VList) and v.sym is not None:
        return True
    if depth > 6:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x, depth + 1) for x in v.values()) or any(has_sym(x, depth + 1) for x in v.keys() if not isinstance(x, str))
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(has_sym(x, depth + 1) for x in v.flat)
    if hasattr(v, "__pyvc_sym__"):
        return True
    return False
