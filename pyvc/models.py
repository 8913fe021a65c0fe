"""Models of builtins and library functions over symbolic values (the trusted base of the verifier)."""
import builtins
import copy
import functools
import itertools
import math
import operator
import types
import warnings
import pprint

import numpy as np
import z3

from . import core, seqs
from .core import CTX, Sym, Unsupported, mk, term, truth, ite, is_num, smin, smax, I, SQRT, COS, SIN, ATAN2, ROUND, kind_of, const_value
from .seqs import (VList, SArr, SRange, MaskIdx, it, simp, vlen, vget_raw, vcopy, vmerge, vsubst, generic, map_seq, arr, asarr,
                   elementwise, reduce_arr, has_sym, as_int, tolist_seq, forall_seq, exists_seq, fold_minmax, fold_sum, is_vsym, norm_index)
from .interp import INTERP, LazyGen, SymGen, SymGen2, PyFunc, native, to_native, from_native, materialize, freeze, force_gen

M = INTERP.models


def model(*fs):
    def deco(g):
        g.__pyvc_native__ = True
        for f in fs:
            M[id(f)] = g
            _keep.append(f)
        return g
    return deco


_keep = []
_noop = native(lambda *a, **k: None)
for _f in (print, warnings.warn, pprint.pp, pprint.pprint):
    M[id(_f)] = _noop


def or_native(f):
    """fall back to the real function when nothing is symbolic"""
    def deco(g):
        @functools.wraps(g)
        def h(*a, **k):
            if not _symbolic(a) and not _symbolic(tuple(k.values())):
                CTX.native_calls.add(getattr(f, "__module__", "") + "." + getattr(f, "__name__", str(f)))
                return f(*a, **k)
            return g(*a, **k)
        h.__pyvc_native__ = True
        M[id(f)] = h
        _keep.append(f)
        return h
    return deco


def _symbolic(xs):
    return any(isinstance(x, (SymGen, SymGen2, LazyGen, PyFunc)) or has_sym([x]) for x in xs)


def seq(v):
    """tuple/list/VList/SArr/generator -> something with vlen/vget_raw"""
    if isinstance(v, SymGen):
        return v.force()
    if isinstance(v, (VList, list, tuple)):
        return v
    if isinstance(v, LazyGen):
        return VList(list(v))
    if isinstance(v, SRange):
        return v.tolist()
    if isinstance(v, SArr):
        return v
    if isinstance(v, Sym) or is_num(v) or v is None:
        raise TypeError(f"'{type(v).__name__}' object is not iterable")
    return VList(list(v))


# ---------------------------------------------------------------- builtins
@model(len)
def m_len(v):
    if isinstance(v, (VList, SArr)):
        return vlen(v)
    if isinstance(v, SRange):
        return v.n
    if isinstance(v, Sym):
        raise TypeError("object of type 'float' has no len()")
    f = getattr(type(v), "__len__", None)
    from .interp import is_verse
    if isinstance(f, types.FunctionType) and is_verse(f):
        return INTERP.call(f, (v,))
    return len(v)


@model(range)
def m_range(*a):
    if any(isinstance(x, Sym) for x in a):
        return SRange(*a)
    return range(*[int(x) if isinstance(x, np.integer) else x for x in a])


def vlist(n, el):
    return VList.symbolic(n, el)


@model(enumerate)
def m_enumerate(v, start=0):
    s = seq(v)
    n = vlen(s)
    if isinstance(n, int):
        return VList([(k + start, x) for k, x in enumerate(INTERP.concrete_iter(s))])
    s = _snap(s)
    return VList.symbolic(n, lambda i: (simp(seqs.as_sym_int(i) + start), vget_raw(s, i)))


def _snap(s):
    if isinstance(s, VList):
        return vcopy(s)
    if isinstance(s, SArr):
        return s.snapshot()
    return VList(s)


@model(zip)
def m_zip(*vs, strict=False):
    ss = [seq(v) for v in vs]
    if not ss:
        return VList()
    ns = [vlen(s) for s in ss]
    if all(isinstance(n, int) for n in ns):
        n = min(ns)
        return VList([tuple(vget_raw(s, k) for s in ss) for k in range(n)])
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, Sym) and isinstance(m, Sym) and n.t.eq(m.t):
            continue
        if seqs.definitely(it(n) <= it(m)):
            continue
        if seqs.definitely(it(m) <= it(n)):
            n = m
            continue
        n = ite(m < n, m, n)
    if isinstance(n, int):
        return VList([tuple(vget_raw(s, k) for s in ss) for k in range(n)])
    ss = [_snap(s) for s in ss]
    return VList.symbolic(n, lambda i: tuple(vget_raw(s, i) for s in ss))


m_zip.__pyvc_zip__ = True


@model(reversed)
def m_reversed(v):
    s = seq(v)
    n = vlen(s)
    if isinstance(n, int):
        return VList(list(INTERP.concrete_iter(s))[::-1])
    s = _snap(s)
    return VList.symbolic(n, lambda i: vget_raw(s, simp(n - 1 - seqs.as_sym_int(i))))


@model(map)
def m_map(f, *vs):
    if len(vs) == 1:
        s = seq(vs[0])
        n = vlen(s)
        if isinstance(n, int):
            return VList([INTERP.call(f, (x,)) for x in INTERP.concrete_iter(s)])
        s = _snap(s)
        return map_seq(n, lambda i: materialize(INTERP.call(f, (freeze(vget_raw(s, i)),))))
    z = m_zip(*vs)
    if not is_vsym(z):
        return VList([INTERP.call(f, t) for t in z])
    n, el = z.sym
    return map_seq(n, lambda i: materialize(INTERP.call(f, freeze(el(i)))))


@model(filter)
def m_filter(f, v):
    s = seq(v)
    if isinstance(vlen(s), int):
        return VList([x for x in INTERP.concrete_iter(s) if INTERP.truth(INTERP.call(f, (x,)) if f is not None else x)])
    s = _snap(s)

    def body(i):
        x = freeze(vget_raw(s, i))
        return INTERP.truth(INTERP.call(f, (x,))), (lambda: x)
    return seqs.filter_map_seq(vlen(s), body)


@model(sorted)
def m_sorted(v, key=None, reverse=False):
    s = seq(v)
    if not isinstance(vlen(s), int):
        return sorted_sym(s, key, reverse)
    return VList(INTERP.sorted_(INTERP.concrete_iter(s), key=key, reverse=reverse))


def sorted_sym(s, key, reverse):
    raise Unsupported("sort of a symbolic-length sequence")


@model(list)
def m_list(v=()):
    s = seq(v)
    if isinstance(s, SArr):
        return tolist_seq(s)
    return vcopy(s) if isinstance(s, VList) else VList(s)


@model(tuple)
def m_tuple(v=()):
    s = seq(v)
    if isinstance(s, SArr):
        s = tolist_seq(s)
    if is_vsym(s):
        return s  # immutable use only
    return tuple(INTERP.concrete_iter(s))


@model(set)
def m_set(v=()):
    xs = INTERP.concrete_iter(seq(v))
    if has_sym(xs):
        raise Unsupported("set of symbolic values")
    return set(xs)


@model(dict)
def m_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        return dict([tuple(p) for p in INTERP.concrete_iter(seq(a[0]))], **k)
    return dict(*a, **k)


@model(float)
def m_float(v=0.0):
    if isinstance(v, Sym):
        return mk(term(v, "real"))
    if isinstance(v, SArr):
        return mk(term(v.item(), "real"))
    return float(v)


@model(int)
def m_int(v=0, *a):
    if isinstance(v, Sym):
        if v.kind == "int":
            return v
        if v.kind == "bool":
            return mk(term(v, "int"))
        t = v.t
        return simp(mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
    return int(v, *a)


@model(bool)
def m_bool(v=False):
    if isinstance(v, Sym):
        return mk(truth(v))
    return INTERP.truth(v)


@model(str)
def m_str(v=""):
    if isinstance(v, Sym):
        return INTERP.to_str(v)
    if has_sym([v]):
        raise Unsupported("str of a symbolic structure")
    return str(v)


@model(repr)
def m_repr(v):
    return m_str(v) if isinstance(v, Sym) else repr(v)


@model(abs)
def m_abs(v):
    return abs(v)


@model(round)
def m_round(v, nd=None):
    if isinstance(v, Sym):
        return ROUND(v, nd)
    return round(v, nd) if nd is not None else round(v)


@model(divmod)
def m_divmod(a, b):
    return divmod(a, b)


@model(pow)
def m_pow(a, b, *c):
    return a ** b


@model(isinstance)
def m_isinstance(v, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        if isinstance(x, tuple):
            flat.extend(x)
        elif isinstance(x, types.UnionType):
            flat.extend(x.__args__)
        else:
            flat.append(x)
    import collections.abc as cabc
    import typing
    import numbers
    for x in flat:
        if isinstance(v, Sym):
            k = v.kind
            if x is int and k in ("int", "bool"):
                return True
            if x is float and k == "real":
                return True
            if x is bool and k == "bool":
                return True
            if x in (numbers.Number, numbers.Real):
                return True
            if x is np.floating or x is np.float64:
                continue
            if x is object:
                return True
            continue
        if isinstance(v, SArr):
            if x in (np.ndarray, object):
                return True
            continue
        if isinstance(v, SRange):
            if x in (range,):
                return True
            continue
        if isinstance(v, (PyFunc,)) and x is types.FunctionType:
            return True
        if isinstance(x, type) or hasattr(x, "__instancecheck__"):
            if isinstance(v, x):
                return True
    return False


_type = type


@model(type)
def m_type(v, *a):
    if a:
        raise Unsupported("class creation")
    if isinstance(v, VList):
        return list
    if isinstance(v, SArr):
        return np.ndarray
    if isinstance(v, Sym):
        return {"int": int, "real": float, "bool": bool}.get(v.kind, Sym)
    if isinstance(v, SRange):
        return range
    return _type(v)


@model(hasattr)
def m_hasattr(o, n):
    try:
        INTERP.getattr(o, n)
        return True
    except AttributeError:
        return False


@model(getattr)
def m_getattr(o, n, *d):
    try:
        return INTERP.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr)
def m_setattr(o, n, v):
    return INTERP.setattr(o, n, v)


@model(callable)
def m_callable(v):
    return callable(v)


@model(iter)
def m_iter(v):
    if isinstance(v, (LazyGen,)):
        return v.__iter__()
    s = seq(v)
    if is_vsym(s):
        raise Unsupported("iter of symbolic")
    return iter(list(INTERP.concrete_iter(s)))


_STOP = object()


@model(next)
def m_next(v, *d):
    if isinstance(v, LazyGen):
        for x in v:
            return x
        if d:
            return d[0]
        raise StopIteration
    if isinstance(v, SymGen):
        s = v.force()
        n = vlen(s)
        if INTERP.truth(mk(it(n) > 0)):
            return vget_raw(s, 0)
        if d:
            return d[0]
        raise StopIteration
    if isinstance(v, VList):
        # an eagerly evaluated generator
        if v.sym is None:
            if list.__len__(v):
                return list.pop(v, 0)
            if d:
                return d[0]
            raise StopIteration
        raise Unsupported("next on symbolic sequence")
    return next(v, *d)


@model(any)
def m_any(v):
    if isinstance(v, LazyGen):
        # keep as many symbolic disjuncts as possible, with Python's short circuit
        for x in v:
            if INTERP.truth(x):
                return True
        return False
    if isinstance(v, (SymGen, SymGen2)):
        return v.any_all(False)
    s = seq(v)
    n = vlen(s)
    if isinstance(n, int):
        for x in INTERP.concrete_iter(s):
            if INTERP.truth(x):
                return True
        return False
    return exists_seq(n, lambda i: vget_raw(s, i))


@model(all)
def m_all(v):
    if isinstance(v, LazyGen):
        for x in v:
            if not INTERP.truth(x):
                return False
        return True
    if isinstance(v, (SymGen, SymGen2)):
        return v.any_all(True)
    s = seq(v)
    n = vlen(s)
    if isinstance(n, int):
        for x in INTERP.concrete_iter(s):
            if not INTERP.truth(x):
                return False
        return True
    return forall_seq(n, lambda i: vget_raw(s, i))


@model(sum)
def m_sum(v, start=0):
    s = seq(v)
    n = vlen(s)
    if isinstance(n, int):
        r = start
        for x in INTERP.concrete_iter(s):
            r = INTERP.binop(operator.add, r, x)
        return r
    return fold_sum(n, lambda i: vget_raw(s, i), start)


def _minmax(is_min):
    def f(*vs, key=None, default=_STOP):
        if len(vs) == 1:
            s = seq(vs[0])
            n = vlen(s)
            if not isinstance(n, int):
                if key is not None:
                    if INTERP.truth(mk(it(n) <= 0)):
                        if default is not _STOP:
                            return default
                        raise ValueError("min() arg is an empty sequence")
                    return argbest(n, lambda i: INTERP.call(key, (freeze(vget_raw(s, i)),)), is_min, lambda i: vget_raw(s, i))
                if default is not _STOP and INTERP.truth(mk(it(n) <= 0)):
                    return default
                s2 = _snap(s)
                return fold_minmax(n, lambda i: vget_raw(s2, i), is_min)
            xs = list(INTERP.concrete_iter(s))
        else:
            xs = list(vs)
        if not xs:
            if default is not _STOP:
                return default
            raise ValueError("min() arg is an empty sequence")
        if key is None and all(isinstance(x, Sym) or is_num(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                if isinstance(r, Sym) or isinstance(x, Sym):
                    r = smin(r, x) if is_min else smax(r, x)
                else:
                    r = (x if x < r else r) if is_min else (x if x > r else r)
            return r
        ks = [INTERP.call(key, (x,)) if key is not None else x for x in xs]
        best = 0
        for j in range(1, len(xs)):
            if INTERP.truth(lex_lt(ks[j], ks[best]) if is_min else lex_lt(ks[best], ks[j])):
                best = j
        return xs[best]
    return native(f)


def lex_lt(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        for p, q in zip(a, b):
            if INTERP.truth(p == q):
                continue
            return lex_lt(p, q)
        return len(a) < len(b)
    return a < b


def argbest(n, keyf, is_min, get):
    """element with the best key: first index attaining the minimum/maximum"""
    with generic(0, n, "a") as k:
        cases = seqs.eval_paths(lambda: keyf(k))
        e = vmerge(cases)
    if not (isinstance(e, Sym) or is_num(e)):
        raise Unsupported("min(key) with a non-scalar key")
    et = term(e)
    w = CTX.fresh("arg", "int")
    q = z3.Const(CTX.fresh_name("q"), I)
    eq, ew = z3.substitute(et, (k.t, q)), z3.substitute(et, (k.t, w.t))
    CTX.fact(z3.And(0 <= w.t, w.t < it(n)))
    CTX.fact(z3.Implies(z3.And(0 <= q, q < it(n)), ew <= eq if is_min else ew >= eq), [q])
    CTX.fact(z3.Implies(z3.And(0 <= q, q < w.t), ew < eq if is_min else ew > eq), [q])
    return get(w)


M[id(min)] = _minmax(True)
M[id(max)] = _minmax(False)


@model(id)
def m_id(v):
    return id(v)


@model(hash)
def m_hash(v):
    if has_sym([v]):
        raise Unsupported("hash of symbolic")
    return hash(v)


@model(functools.reduce)
def m_reduce(f, v, *init):
    xs = list(INTERP.concrete_iter(seq(v)))
    if init:
        r = init[0]
    else:
        r = xs.pop(0)
    for x in xs:
        r = INTERP.call(f, (r, x))
    return r


# ---------------------------------------------------------------- copy / itertools / math
@model(copy.deepcopy)
def m_deepcopy(v, memo=None):
    return copy.deepcopy(v)


@model(copy.copy)
def m_copy(v):
    if isinstance(v, VList):
        return vcopy(v)
    if isinstance(v, SArr):
        return v.snapshot()
    return copy.copy(v)


@model(itertools.product)
def m_product(*vs, repeat=1):
    ss = [list(INTERP.concrete_iter(seq(v))) for v in vs]
    return VList(list(itertools.product(*ss, repeat=repeat)))


@model(itertools.chain)
def m_chain(*vs):
    r = VList()
    for v in vs:
        r = seqs.vconcat(r, tolist_seq(seq(v)))
    return r


@model(itertools.zip_longest)
def m_zipl(*vs, fillvalue=None):
    ss = [list(INTERP.concrete_iter(seq(v))) for v in vs]
    return VList(list(itertools.zip_longest(*ss, fillvalue=fillvalue)))


@model(itertools.combinations)
def m_comb(v, r):
    return VList(list(itertools.combinations(list(INTERP.concrete_iter(seq(v))), r)))


def _sc(f, g):
    """scalar maths"""
    def h(x, *a):
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in a):
            return g(x, *a)
        return f(x, *a)
    h.__pyvc_native__ = True
    M[id(f)] = h
    _keep.append(f)


def CEIL(x):
    t = term(x, "real")
    return simp(mk(-z3.ToInt(-t)))


def FLOOR(x):
    return simp(mk(z3.ToInt(term(x, "real"))))


def TAN(x):
    return SIN(x) / COS(x)


_sc(math.sqrt, SQRT)
_sc(math.cos, COS)
_sc(math.sin, SIN)
_sc(math.atan2, ATAN2)
_sc(math.ceil, CEIL)
_sc(math.floor, FLOOR)
_sc(math.fabs, abs)
_sc(math.hypot, lambda a, b: SQRT(a * a + b * b))


# ---------------------------------------------------------------- numpy
def _ew(f, g):
    """elementwise numpy function"""
    def h(*xs, **k):
        k.pop("dtype", None)
        if not _symbolic(xs):
            return f(*xs, **k)
        if k:
            raise Unsupported(f"{f.__name__} with keywords")
        if all(isinstance(x, Sym) or is_num(x) for x in xs):
            return g(*xs)
        return elementwise(g, *xs)
    h.__pyvc_native__ = True
    M[id(f)] = h
    _keep.append(f)
    return h


_ew(np.minimum, smin)
_ew(np.maximum, smax)
_ew(np.abs, abs)
_ew(np.sqrt, SQRT)
_ew(np.cos, COS)
_ew(np.sin, SIN)
_ew(np.arctan2, ATAN2)
_ew(np.ceil, lambda x: mk(z3.ToReal(term(CEIL(x)))) if isinstance(x, Sym) else np.ceil(x))
_ew(np.floor, lambda x: mk(z3.ToReal(term(FLOOR(x)))) if isinstance(x, Sym) else np.floor(x))


def m_npround(x, decimals=0, **k):
    if not _symbolic((x,)):
        return np.round(x, decimals, **k)
    return elementwise(lambda v: ROUND(v, int(decimals)), x) if not isinstance(x, Sym) else ROUND(x, int(decimals))


model(np.round, np.around)(m_npround)
_ew(np.square, lambda x: x * x)
_ew(np.add, operator.add)
_ew(np.subtract, operator.sub)
_ew(np.multiply, operator.mul)
_ew(np.negative, operator.neg)
_ew(np.isclose, lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b))
_ew(np.mod, core.pymod)
_ew(np.sign, lambda x: ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)))


def _npdivm(a, b):
    return elementwise(seqs._npdiv, a, b)


_ew(np.divide, seqs._npdiv)
_ew(np.logical_and, seqs._band)
_ew(np.logical_or, seqs._bor)
_ew(np.logical_not, lambda a: mk(z3.Not(seqs._btruth(a))))


def _exp_uf(x):
    raise Unsupported("exp/log of symbolic value")


for _f in (np.exp, np.log, np.tan, np.arctan, np.arccos, np.arcsin, math.exp, math.log, math.tan, math.atan, math.acos, math.asin):
    _ew(_f, _exp_uf)


def _reduce_min(a, axis=0):
    return reduce_arr(arr(a), "min", axis)


def _reduce_max(a, axis=0):
    return reduce_arr(arr(a), "max", axis)


M[(id(np.minimum), "reduce")] = native(_reduce_min)
M[(id(np.maximum), "reduce")] = native(_reduce_max)
M[(id(np.add), "reduce")] = native(lambda a, axis=0: reduce_arr(arr(a), "sum", axis))
M[(id(np.logical_and), "reduce")] = native(lambda a, axis=0: reduce_arr(arr(a), "all", axis))
M[(id(np.logical_or), "reduce")] = native(lambda a, axis=0: reduce_arr(arr(a), "any", axis))


def _red(f, op):
    def h(a, axis=None, **k):
        if isinstance(a, (SymGen, LazyGen)):
            a = seq(a)
        if k and set(k) - {"keepdims"}:
            raise Unsupported("numpy reduction keywords")
        if k.get("keepdims"):
            raise Unsupported("keepdims")
        if isinstance(a, Sym) or is_num(a):
            return a
        return reduce_arr(asarr(a), op, axis)
    or_native(f)(h)


_red(np.min, "min")
_red(np.max, "max")
_red(np.amin, "min")
_red(np.amax, "max")
_red(np.sum, "sum")
_red(np.all, "all")
_red(np.any, "any")


@model(np.array)
def m_array(v, dtype=None, copy=True, **k):
    if isinstance(v, (SymGen, LazyGen)):
        raise Unsupported("np.array of a generator")
    if not _conc_nested(v):
        return from_native(np.array(v, dtype=dtype))
    r = arr(v)
    if isinstance(r, SArr) and dtype in (float, np.float64, np.double, "float") and r.buf.kind != "real":
        return r.astype(float)
    return r


def _conc_nested(v):
    """numeric nested structure (else object arrays of strings etc.)"""
    if isinstance(v, (Sym, SArr)) or is_num(v):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype != object and v.dtype.kind in "biuf"
    if isinstance(v, (list, tuple)):
        if is_vsym(v):
            return True
        return all(_conc_nested(x) for x in list(v))
    return False


@model(np.asarray)
def m_asarray(v, dtype=None):
    if isinstance(v, SArr):
        return v
    return m_array(v, dtype)


def _shape(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


@model(np.zeros)
def m_zeros(shape, dtype=float, **k):
    kd = "real" if dtype in (float, np.float64, np.double) else ("bool" if dtype is bool else "int")
    z = 0.0 if kd == "real" else (False if kd == "bool" else 0)
    return SArr(_shape(shape), lambda *ix: z, kd)


@model(np.ones)
def m_ones(shape, dtype=float, **k):
    kd = "real" if dtype in (float, np.float64, np.double) else "int"
    z = 1.0 if kd == "real" else 1
    return SArr(_shape(shape), lambda *ix: z, kd)


@model(np.full)
def m_full(shape, v, dtype=None, **k):
    return SArr(_shape(shape), lambda *ix: v, seqs.guess_kind(v))


@model(np.empty)
def m_empty(shape, dtype=float, **k):
    f = None
    sh = _shape(shape)
    f = CTX.fresh_fun("empty", len(sh), "real")
    return SArr(sh, lambda *ix: mk(f(*[it(i) for i in ix])), "real")


@model(np.ndarray)
def m_ndarray(shape, dtype=float, **k):
    return m_empty(shape, dtype)


@or_native(np.zeros_like)
def m_zl(a, **k):
    a = asarr(a)
    z = 0.0 if a.buf.kind == "real" else 0
    return SArr(a.shape, lambda *ix: z, a.buf.kind)


@model(np.eye)
def m_eye(n, *a, **k):
    return SArr((n, n), lambda i, j: ite(mk(it(i) == it(j)), 1.0, 0.0) if not (isinstance(i, int) and isinstance(j, int)) else float(i == j), "real")


@or_native(np.reshape)
def m_reshape(a, shape, **k):
    return asarr(a).reshape(*( shape if isinstance(shape, (tuple, list)) else (shape,)))


@or_native(np.transpose)
def m_transpose(a, axes=None):
    return seqs.transpose(a, axes)


@or_native(np.where)
def m_where(c, *xy):
    c = asarr(c)
    if not xy:
        if c.ndim == 1:
            return (MaskIdx(c if c.buf.kind == "bool" else elementwise(lambda a: mk(seqs._btruth(a)), c, kind="bool")),)
        raise Unsupported("np.where of multi-dim condition")
    x, y = xy
    return elementwise(lambda k, a, b: ite(mk(seqs._btruth(k)), a, b), c, x, y, kind=None)


def _concat(vs, axis=0):
    As = [asarr(v) for v in INTERP.concrete_iter(seq(vs))]
    nd = As[0].ndim
    if axis < 0:
        axis += nd
    for a in As[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for d in range(nd):
            if d != axis and not seqs.same_len(a.shape[d], As[0].shape[d]):
                raise ValueError("concatenate: dimensions must match exactly")
    tot = 0
    offs = []
    for a in As:
        offs.append(tot)
        tot = tot + a.shape[axis] if not (isinstance(tot, int) and tot == 0) else a.shape[axis]
        tot = simp(tot)
    frs = [a.frozen() for a in As]
    kind = "real" if any(a.buf.kind == "real" for a in As) else As[0].buf.kind

    def el(*ix):
        i = ix[axis]
        r = None
        for a, off, fr in reversed(list(zip(As, offs, frs))):
            j = simp(seqs.as_sym_int(i) - off) if not (isinstance(off, int) and off == 0) else i
            c = z3.simplify(it(i) < it(simp(seqs.as_sym_int(off) + a.shape[axis])))
            jx = ix[:axis] + (j,) + ix[axis + 1:]
            if r is None:
                if len(As) > 1 and isinstance(j, int) and j < 0:
                    r = 0.0
                else:
                    r = fr(*jx)
            elif z3.is_true(c):
                r = fr(*jx)
            elif z3.is_false(c):
                pass
            else:
                r = ite(mk(c), fr(*jx), r)
        return seqs.coerce_kind(r, kind)
    sh = As[0].shape[:axis] + (tot,) + As[0].shape[axis + 1:]
    return SArr(sh, el, kind)


@or_native(np.concatenate)
def m_concatenate(vs, axis=0, **k):
    return _concat(vs, axis)


def _rows2d(v):
    a = asarr(v)
    return a if a.ndim >= 2 else seqs.reshape(a, (1, a.shape[0]))


@or_native(np.vstack)
def m_vstack(vs, **k):
    return _concat(VList([_rows2d(v) for v in INTERP.concrete_iter(seq(vs))]), 0)


M[id(np.row_stack)] = M[id(np.vstack)]
_keep.append(np.row_stack)


@or_native(np.hstack)
def m_hstack(vs, **k):
    As = [asarr(v) for v in INTERP.concrete_iter(seq(vs))]
    return _concat(VList(As), 0 if As[0].ndim == 1 else 1)


@or_native(np.column_stack)
def m_colstack(vs):
    As = []
    for v in INTERP.concrete_iter(seq(vs)):
        a = asarr(v)
        As.append(a if a.ndim == 2 else seqs.reshape(a, (a.shape[0], 1)))
    return _concat(VList(As), 1)


@or_native(np.append)
def m_append(a, b, axis=None):
    if axis is None:
        raise Unsupported("np.append without axis")
    return _concat(VList([a, b]), axis)


@or_native(np.stack)
def m_stack(vs, axis=0):
    return arr(VList([asarr(v) for v in INTERP.concrete_iter(seq(vs))])) if axis == 0 else _uns("stack axis")


def _uns(s):
    raise Unsupported(s)


@or_native(np.dot)
def m_dot(a, b):
    if (isinstance(a, Sym) or is_num(a)) and (isinstance(b, Sym) or is_num(b)):
        return a * b
    return seqs.matmul(a, b)


@or_native(np.inner)
def m_inner(a, b):
    return seqs.matmul(a, b)


@or_native(np.cross)
def m_cross(a, b):
    a, b = asarr(a), asarr(b)
    x, y = [a.at(k) for k in range(a.shape[0])], [b.at(k) for k in range(b.shape[0])]
    if len(x) == 2:
        return x[0] * y[1] - x[1] * y[0]
    return arr(VList([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]))


@or_native(np.matmul)
def m_matmul(a, b):
    return seqs.matmul(a, b)


@or_native(np.linalg.norm)
def m_norm(v, ord=None, axis=None):
    a = asarr(v)
    if axis is not None or a.ndim != 1:
        raise Unsupported("norm of matrix")
    fr = a.frozen()
    if ord in (None, 2):
        if a.shape[0] == 1:
            return abs(fr(0))
        s = fold_sum(a.shape[0], lambda i: fr(i) * fr(i))
        return SQRT(s)
    if ord == np.inf:
        return fold_minmax(a.shape[0], lambda i: abs(fr(i)), False)
    if ord == 1:
        return fold_sum(a.shape[0], lambda i: abs(fr(i)))
    raise Unsupported("norm order")


@or_native(np.clip)
def m_clip(x, lo, hi):
    f = lambda a, l, h: smin(smax(a, l), h)
    if isinstance(x, Sym) or is_num(x):
        return f(x, lo, hi)
    return elementwise(f, x, lo, hi)


@or_native(np.array_equal)
def m_array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if not seqs.same_len(p, q):
            return False
    return reduce_arr(elementwise(operator.eq, a, b, kind="bool"), "all")


@or_native(np.arange)
def m_arange(*a, **k):
    """numpy's definition: ceil((stop - start) / step) samples start + i * step (real arithmetic)"""
    if k or len(a) not in (1, 2, 3):
        raise Unsupported("arange of symbolic")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)
    if CTX.feasible(z3.Not(truth(step > 0))):
        raise Unsupported("arange with a step that may not be positive")
    span = (stop - start) / step
    n = CEIL(span) if isinstance(span, Sym) else math.ceil(span)
    n = it(n)
    n = simp(mk(z3.If(n > 0, n, z3.IntVal(0))))
    kind = "int" if all(seqs.guess_kind(x) == "int" for x in (start, step)) else "real"
    return SArr((n,), lambda i: start + i * step, kind)


@or_native(np.copy)
def m_npcopy(a):
    return asarr(a).snapshot()


@or_native(np.argmin)
def m_argmin(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("argmin")
    fr = a.frozen()
    if isinstance(a.shape[0], int):
        best = 0
        for j in range(1, a.shape[0]):
            if INTERP.truth(fr(j) < fr(best)):
                best = j
        return best
    return argbest(a.shape[0], lambda i: fr(i), True, lambda i: i)


@or_native(np.argmax)
def m_argmax(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("argmax")
    fr = a.frozen()
    if isinstance(a.shape[0], int):
        best = 0
        for j in range(1, a.shape[0]):
            if INTERP.truth(fr(j) > fr(best)):
                best = j
        return best
    return argbest(a.shape[0], lambda i: fr(i), False, lambda i: i)


@or_native(np.mean)
def m_mean(a, axis=None):
    return asarr(a).mean(axis)


@or_native(np.diff)
def m_diff(a):
    a = asarr(a)
    return a[1:] - a[:-1]


@or_native(np.isnan)
def m_isnan(a):
    return False if isinstance(a, Sym) else elementwise(lambda x: False, a, kind="bool")


# ---------------------------------------------------------------- scipy
def _pdist():
    from scipy import spatial

    def pdist(X, metric="euclidean", **k):
        if not _symbolic((X,)):
            return spatial.distance.pdist(X, metric, **k)
        if metric not in ("chebyshev", "chebychev", "cheby", "cheb", "ch"):
            raise Unsupported("pdist metric")
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError("A 2-dimensional array must be passed.")
        m, d = X.shape
        fr = X.frozen()
        CTX.trust("scipy.spatial.distance.pdist(X,'chebyshev'): entry of pair (i,j), i<j, is max_k |X[i,k]-X[j,k]|; pairs (0,j) come first")

        def pair(i, j):
            return fold_minmax(d, lambda q: abs(fr(i, q) - fr(j, q)), False)
        if isinstance(m, int):
            vals = [pair(i, j) for i in range(m) for j in range(i + 1, m)]
            return SArr((len(vals),), seqs.dense({(k,): v for k, v in enumerate(vals)}, (len(vals),)), "real")
        # pair-index functions shared by every pdist over the same number of points
        key = ("pdist", m.t.get_id())
        pi, pj, P = pdist_fns(m)
        with generic(0, P, "pd") as e:
            v = pair(mk(pi(e.t)), mk(pj(e.t)))
        return SArr((P,), lambda i: vsubst(v, [(e.t, it(i))]), "real")
    pdist.__pyvc_native__ = True
    M[id(spatial.distance.pdist)] = pdist
    _keep.append(spatial.distance.pdist)


_PI = z3.Function("pdist_i", I, I, I)
_PJ = z3.Function("pdist_j", I, I, I)


_PN = z3.Function("pdist_n", I, I)


def pdist_fns(m):
    """PI(m,e), PJ(m,e): the e-th pair of {0..m-1}, e < PN(m); pair (0,j) is entry j-1"""
    mt = it(m)
    if not any(getattr(f, "tag", None) == "pdist" for f in CTX.facts):
        M_, e, j = z3.Int("pd_m"), z3.Int("pd_e"), z3.Int("pd_j")
        for vs, body in (([M_], z3.And(_PN(M_) >= M_ - 1, _PN(M_) >= 0, z3.Implies(M_ <= 1, _PN(M_) == 0))),
                         ([M_, e], z3.Implies(z3.And(0 <= e, e < _PN(M_)), z3.And(0 <= _PI(M_, e), _PI(M_, e) < _PJ(M_, e), _PJ(M_, e) < M_))),
                         ([M_, j], z3.Implies(z3.And(0 <= j, j < M_ - 1), z3.And(_PI(M_, j) == 0, _PJ(M_, j) == j + 1)))):
            f = core.Fact(vs, body)
            f.tag = "pdist"
            CTX.facts.append(f)
    return (lambda x: _PI(mt, x)), (lambda x: _PJ(mt, x)), mk(_PN(mt))


_pdist()


# ---------------------------------------------------------------- random
def _random():
    import random

    def uniform(a, b):
        r = CTX.fresh("u", "real")
        a, b = term(a, "real"), term(b, "real")
        CTX.fact(z3.And(r.t >= z3.If(a <= b, a, b), r.t <= z3.If(a <= b, b, a)))
        CTX.trust("random.uniform(a,b) returns a value between a and b")
        return r

    M[id(random.uniform)] = native(uniform)
    M[id(random.seed)] = _noop
    _keep.extend([random.uniform, random.seed])


_random()
