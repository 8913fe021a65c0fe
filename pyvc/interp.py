"""pyvc interpreter: executes the *current source text* of functions in /repo's `verse` package over
symbolic values (see core.py / seqs.py).  Nothing is transcribed: every function body is obtained by
parsing the module file on each run.  Dropped by the extraction: decorators without effect on the
value (functools caching), type annotations, docstrings, and calls to print/warnings."""
import ast
import builtins
import collections
import copy
import functools
import importlib
import inspect
import itertools
import math
import operator
import os
import sys
import types

import numpy as np
import z3

from . import core, seqs
from .core import CTX, Sym, Unsupported, Infeasible, Budget, mk, term, truth, ite, is_num, smin, smax, I
from .seqs import (VList, SArr, SRange, MaskIdx, it, simp, vlen, vget_raw, vcopy, vmerge, vsubst, generic,
                   eval_paths, map_seq, filter_map_seq, definitely, has_sym, as_int, norm_index, tolist_seq, arr, asarr,
                   veq, vcontains, same_elem, forall_seq, exists_seq, fold_minmax, fold_sum, is_vsym, vconcat)

INTERNAL = (Unsupported, Infeasible, Budget)


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


INTERNAL = INTERNAL + (PoisonRead,)


class Poison:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


CONTROL = (_Break, _Continue, _Return)


# ---------------------------------------------------------------- source access
class ModuleSource:
    def __init__(self, mod):
        self.mod = mod
        with open(mod.__file__) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.by_key = {}
        self._index(self.tree, "")

    def _index(self, node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                self.by_key[(ch.name, ln)] = ch
                self._index(ch, q)
            elif isinstance(ch, ast.Lambda):
                self.by_key.setdefault(("<lambda>", ch.lineno), ch)
                self._index(ch, q)
            else:
                self._index(ch, q)


_SRC = {}


def module_source(modname):
    if modname not in _SRC:
        _SRC[modname] = ModuleSource(importlib.import_module(modname))
    return _SRC[modname]


def func_node(f):
    ms = module_source(f.__module__)
    node = ms.by_key.get((f.__name__, f.__code__.co_firstlineno)) or ms.by_key.get((f.__code__.co_name, f.__code__.co_firstlineno))
    if node is None:
        raise Unsupported(f"source of {f.__module__}.{f.__qualname__} not found")
    return node


def is_verse(f):
    m = getattr(f, "__module__", None) or ""
    return m == "verse" or m.startswith("verse.")


# ---------------------------------------------------------------- scopes & functions
class Scope:
    __slots__ = ("vars", "parent", "globs", "gdecl", "ndecl", "locals", "name")

    def __init__(self, parent, globs, locs, name):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.locals = locs
        self.gdecl = set()
        self.ndecl = set()
        self.name = name


_LOCALS = {}


def local_names(node):
    r = _LOCALS.get(node)
    if r is not None:
        return r
    names, skip = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    tgt(ch.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for ch in ast.iter_child_nodes(n):
            walk(ch)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    _LOCALS[node] = names - skip
    return _LOCALS[node]


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False

        def walk(n):
            nonlocal r
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            for ch in ast.iter_child_nodes(n):
                if not isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    walk(ch)
        if not isinstance(node, ast.Lambda):
            for s in node.body:
                walk(s)
        _GEN[node] = r
    return r


class PyFunc:
    def __init__(self, node, scope, globs, defaults, kwdefaults, qual, modname):
        self.node, self.scope, self.globs = node, scope, globs
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = getattr(node, "name", "<lambda>")
        self.qual = qual
        self.__module__ = modname
        self.attrs = {}

    def __call__(self, *a, **k):
        return INTERP.call_py(self, a, k)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __deepcopy__(self, memo):
        return self


_REALFN = {}


def pyfunc_of(f):
    """PyFunc for a real Python function of the verse package"""
    key = f
    r = _REALFN.get(key)
    if r is not None:
        return r
    node = func_node(f)
    scope = None
    if f.__closure__:
        scope = Scope(None, f.__globals__, set(), "<closure>")
        for n, c in zip(f.__code__.co_freevars, f.__closure__):
            try:
                scope.vars[n] = c.cell_contents
            except ValueError:
                pass
    r = PyFunc(node, scope, f.__globals__, f.__defaults__ or (), f.__kwdefaults__ or {}, f"{f.__module__}.{f.__qualname__}", f.__module__)
    _REALFN[key] = r
    return r


# ---------------------------------------------------------------- state journal
def walk_state(scope, extra=()):
    """mutable objects reachable from a scope chain: {id: (obj, contents)}"""
    snap = {}
    stack = []
    s = scope
    while s is not None:
        snap[id(s)] = (s, dict(s.vars))
        stack.extend(s.vars.values())
        s = s.parent
    stack.extend(extra)
    n = 0
    while stack:
        v = stack.pop()
        n += 1
        if n > 20000:
            raise Unsupported("state too large")
        if v is None or isinstance(v, (Sym, str, int, float, bool, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, np.generic, z3.AstRef, ast.AST)):
            continue
        i = id(v)
        if i in snap:
            continue
        if isinstance(v, VList):
            if v.sym is None:
                items = list(list.__iter__(v))
                snap[i] = (v, ("l", items))
                stack.extend(items)
            else:
                snap[i] = (v, ("s", v.sym))
        elif isinstance(v, SArr):
            b = v.buf
            if id(b) not in snap:
                snap[id(b)] = (b, b.el)
        elif isinstance(v, seqs.Buf):
            if i not in snap:
                snap[i] = (v, v.el)
        elif isinstance(v, np.ndarray):
            snap[i] = (v, v.copy())
        elif isinstance(v, (list, collections.deque)):
            items = list(v)
            snap[i] = (v, items)
            stack.extend(items)
        elif isinstance(v, dict):
            snap[i] = (v, dict(v))
            stack.extend(v.values())
        elif isinstance(v, set):
            snap[i] = (v, set(v))
        elif isinstance(v, (tuple, frozenset)):
            stack.extend(v)
        elif isinstance(v, PyFunc):
            sc = v.scope
            while sc is not None and id(sc) not in snap:
                snap[id(sc)] = (sc, dict(sc.vars))
                stack.extend(sc.vars.values())
                sc = sc.parent
        elif isinstance(v, types.MethodType):
            stack.append(v.__self__)
            stack.append(v.__func__)
        elif isinstance(v, Poison):
            continue
        elif hasattr(v, "__dict__") and (is_verse(type(v)) or isinstance(v, types.SimpleNamespace) or getattr(type(v), "__pyvc_track__", False)):
            d = v.__dict__
            snap[i] = (v, ("o", dict(d)))
            stack.extend(d.values())
    return snap


def restore(snap):
    for o, c in snap.values():
        if isinstance(o, Scope):
            o.vars.clear()
            o.vars.update(c)
        elif isinstance(o, VList):
            list.clear(o)
            o.sym = None
            if c[0] == "l":
                list.extend(o, c[1])
            else:
                o.sym = c[1]
        elif isinstance(o, seqs.Buf):
            o.el = c
        elif isinstance(o, np.ndarray):
            o[...] = c
        elif isinstance(o, (list, collections.deque)):
            o.clear()
            o.extend(c)
        elif isinstance(o, dict):
            o.clear()
            o.update(c)
        elif isinstance(o, set):
            o.clear()
            o.update(c)
        else:
            d = o.__dict__
            d.clear()
            d.update(c[1])


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    return False


def diff_state(snap):
    """modified locations: list of (loc, new value).  loc = ('v', scope_or_obj_id, name) | ('l', id) | ('b', id)"""
    out = []
    for i, (o, c) in snap.items():
        if isinstance(o, Scope):
            _diff_dict(out, "v", i, o.vars, c)
        elif isinstance(o, VList):
            if c[0] == "l":
                if o.sym is not None or list.__len__(o) != len(c[1]) or any(not same_val(x, y) for x, y in zip(list.__iter__(o), c[1])):
                    out.append((("l", i), o))
            else:
                if o.sym is not c[1]:
                    out.append((("l", i), o))
        elif isinstance(o, seqs.Buf):
            if o.el is not c:
                out.append((("b", i), o))
        elif isinstance(o, np.ndarray):
            if not (o.shape == c.shape and np.array_equal(o, c)):
                out.append((("x", i), o))
        elif isinstance(o, (list, collections.deque)):
            if len(o) != len(c) or any(not same_val(x, y) for x, y in zip(o, c)):
                out.append((("x", i), o))
        elif isinstance(o, dict):
            _diff_dict(out, "d", i, o, c)
        elif isinstance(o, set):
            if o != c:
                out.append((("x", i), o))
        else:
            _diff_dict(out, "o", i, o.__dict__, c[1])
    return out


_MISSING = object()


def _diff_dict(out, tag, i, now, old):
    for k, v in now.items():
        w = old.get(k, _MISSING)
        if w is _MISSING or not same_val(v, w):
            out.append(((tag, i, k), v))
    for k in old:
        if k not in now:
            out.append(((tag, i, k), _MISSING))


def get_loc(snap, loc):
    o = snap[loc[1]][0]
    if loc[0] == "v":
        return o.vars.get(loc[2], _MISSING)
    if loc[0] == "d":
        return o.get(loc[2], _MISSING)
    if loc[0] == "o":
        return o.__dict__.get(loc[2], _MISSING)
    return o


def set_loc(snap, loc, v):
    o = snap[loc[1]][0]
    d = o.vars if loc[0] == "v" else (o if loc[0] == "d" else o.__dict__)
    if v is _MISSING:
        d.pop(loc[2], None)
    else:
        d[loc[2]] = v


def freeze(v, depth=0):
    """mark a value read out of a symbolic container: mutating it would be lost, so it is refused"""
    if depth > 5:
        return v
    if isinstance(v, VList):
        v.notes = "frozen"
        if v.sym is None:
            for x in list.__iter__(v):
                freeze(x, depth + 1)
    elif isinstance(v, SArr):
        v.ro = True
    elif isinstance(v, tuple):
        for x in v:
            freeze(x, depth + 1)
    return v


# ---------------------------------------------------------------- the interpreter
class Interp:
    def __init__(self):
        self.stubs = {}  # qualified name -> callable(args, kwargs)
        self.models = {}
        self.depth = 0
        self.max_depth = 60
        self.overrides = {}  # (module, name) -> value for global lookup
        self.on_call = None
        self.steps = 0
        self.unroll_limit = 400
        self.while_limit = 40
        self.trace_calls = None
        self.placeholders = {}
        self.globals_over = {}
        self.invariants = {}

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        CTX.check_deadline()
        if isinstance(f, PyFunc):
            st = self.stubs.get(f.qual)
            if st is not None:
                CTX.contract_calls.add(f.qual)
                return st(*args, **kw)
            return self.call_py(f, args, kw)
        if isinstance(f, types.MethodType):
            m = self.models.get(id(f))
            if m is not None:
                return m(*args, **kw)
            return self.call_method(f, args, kw)
        if isinstance(f, types.FunctionType):
            m = self.models.get(id(f))
            if m is not None:
                return m(*args, **kw)
            q = f"{f.__module__}.{f.__qualname__}"
            st = self.stubs.get(q)
            if st is not None:
                CTX.contract_calls.add(q)
                return st(*args, **kw)
            if is_verse(f):
                if hasattr(f, "__wrapped__"):
                    f = f.__wrapped__
                    if not isinstance(f, types.FunctionType):
                        return f(*args, **kw)
                return self.call_py(pyfunc_of(f), args, kw)
            if getattr(f, "__pyvc_native__", False):
                return f(*args, **kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kw})
        if getattr(f, "__pyvc_native__", False):
            return f(*args, **kw)
        try:
            m = self.models.get(id(f))
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if isinstance(f, types.BuiltinMethodType) and getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
            return self.call_bound_builtin(f, args, kw)
        if hasattr(f, "__call__") and is_verse(type(f)):
            return self.call(type(f).__call__, (f,) + tuple(args), kw)
        return self.native(f, args, kw)

    def call_method(self, f, args, kw):
        fn, self_ = f.__func__, f.__self__
        if isinstance(fn, PyFunc):
            return self.call(fn, (self_,) + tuple(args), kw)
        if isinstance(fn, types.FunctionType):
            if isinstance(self_, (VList, SArr, Sym, SRange)):
                return f(*args, **kw)
            return self.call(fn, (self_,) + tuple(args), kw)
        return self.native(f, args, kw)

    def call_bound_builtin(self, f, args, kw):
        s = f.__self__
        name = f.__name__
        if isinstance(s, list) and name == "sort":
            key = kw.get("key")
            items = self.sorted_(list(s), key=key, reverse=kw.get("reverse", False))
            s[:] = items
            return None
        if isinstance(s, str):
            if name == "join":
                xs = args[0]
                return s.join([x for x in self.concrete_iter(xs)])
            if name == "format":
                return s.format(*[self.to_str(a) if isinstance(a, Sym) else a for a in args], **{k: self.to_str(a) if isinstance(a, Sym) else a for k, a in kw.items()})
            return f(*args, **kw)
        if isinstance(s, (dict, list, set, collections.deque, tuple, frozenset)):
            args = [tolist_native(a) if isinstance(a, SRange) else a for a in args]
            if isinstance(s, (set, frozenset)) and has_sym(args):
                raise Unsupported("symbolic value in a set")
            return f(*args, **kw)
        return self.native(f, args, kw)

    def native(self, f, args, kw):
        args = [to_native(a) for a in args]
        kw = {k: to_native(a) for k, a in kw.items()}
        if has_sym(list(args)) or has_sym(list(kw.values())):
            raise Unsupported(f"external call {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', getattr(f, '__name__', f))} on symbolic arguments")
        CTX.native_calls.add(f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', getattr(f, '__name__', str(type(f))))}")
        r = f(*args, **kw)
        return from_native(r)

    def construct(self, cls, args, kw):
        m = self.models.get(id(cls))
        if m is not None:
            return m(*args, **kw)
        q = f"{cls.__module__}.{cls.__qualname__}"
        st = self.stubs.get(q)
        if st is not None:
            CTX.contract_calls.add(q)
            return st(*args, **kw)
        if is_verse(cls):
            import enum
            if issubclass(cls, (enum.Enum, ast.AST, BaseException)):
                return cls(*args, **kw)
            init = cls.__init__
            if isinstance(init, types.FunctionType) and init.__module__ and is_verse(init):
                try:
                    func_node(init)
                    ok = True
                except Unsupported:
                    ok = False
                if ok:
                    new = cls.__new__
                    o = object.__new__(cls) if new is object.__new__ else new(cls, *args, **kw)
                    self.call(init, (o,) + tuple(args), kw)
                    return o
            return cls(*args, **kw)  # dataclass-generated __init__
        if issubclass(cls, BaseException):
            return cls(*[a if not isinstance(a, (Sym, SArr)) else str(a) for a in args])
        if cls in (types.SimpleNamespace, collections.deque, collections.OrderedDict):
            if args:
                args = tuple(VList(self.concrete_iter(a)) if isinstance(a, (VList, SRange)) else a for a in args)
            return cls(*args, **kw)
        if cls is collections.defaultdict:
            return collections.defaultdict(*args, **kw)
        if getattr(cls, "__pyvc_native__", False):
            return cls(*args, **kw)
        return self.native(cls, args, kw)

    def call_py(self, f, args, kw):
        node = f.node
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported("recursion too deep")
        CTX.inlined.add(f.qual)
        try:
            sc = Scope(f.scope, f.globs, local_names(node), f.qual)
            self.bind(f, sc, node.args, args, kw)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, sc)
            if is_generator(node):
                out = VList()
                sc.vars["__yields__"] = out
                try:
                    self.block(node.body, sc)
                except _Return:
                    pass
                return out
            try:
                self.block(node.body, sc)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, f, sc, a, args, kw):
        kw = dict(kw)
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        vals = list(args)
        for k, n in enumerate(names):
            if k < len(vals):
                if n in kw:
                    raise TypeError(f"{f.qual}() got multiple values for argument '{n}'")
                sc.vars[n] = vals[k]
            elif n in kw:
                sc.vars[n] = kw.pop(n)
            else:
                j = k - (len(names) - nd)
                if j < 0:
                    raise TypeError(f"{f.qual}() missing required argument '{n}'")
                sc.vars[n] = f.defaults[j]
        rest = vals[len(names):]
        if a.vararg:
            sc.vars[a.vararg.arg] = tuple(rest)
        elif rest:
            raise TypeError(f"{f.qual}() takes {len(names)} positional arguments but {len(vals)} were given")
        for x in a.kwonlyargs:
            if x.arg in kw:
                sc.vars[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                sc.vars[x.arg] = f.kwdefaults[x.arg]
            else:
                raise TypeError(f"{f.qual}() missing keyword-only argument '{x.arg}'")
        if a.kwarg:
            sc.vars[a.kwarg.arg] = kw
        elif kw:
            raise TypeError(f"{f.qual}() got an unexpected keyword argument '{list(kw)[0]}'")
        for n in list(sc.vars):
            if n not in sc.locals:
                pass

    # ------------------------------------------------------------ names
    def lookup(self, name, sc):
        s = sc
        while s is not None:
            if name in s.vars and name not in s.gdecl:
                v = s.vars[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            if name in s.gdecl:
                break
            if name in s.locals and s is sc and name not in s.ndecl:
                raise UnboundLocalError(f"cannot access local variable '{name}'")
            s = s.parent
        g = sc.globs
        ov = self.globals_over.get((g.get("__name__"), name), _MISSING)
        if ov is not _MISSING:
            return ov
        if name in g:
            return g[name]
        if name in builtins.__dict__:
            return builtins.__dict__[name]
        if name in self.placeholders:
            return self.placeholders[name]
        raise NameError(f"name '{name}' is not defined")

    def assign_name(self, name, v, sc):
        if name in sc.gdecl:
            raise Unsupported("assignment to a global")
        if name in sc.ndecl:
            s = sc.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
            raise Unsupported("nonlocal target")
        sc.vars[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts, sc):
        for s in stmts:
            self.st(s, sc)

    def st(self, s, sc):
        self.steps += 1
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, sc)

    def s_unsupported(self, s, sc):
        raise Unsupported(f"statement {type(s).__name__}")

    def s_Pass(self, s, sc):
        pass

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, sc)

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        op = _AUG[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            self.assign_name(t.id, self.augop(op, cur, self.ev(s.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, cur, self.ev(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            ix = self.ev_index(t.slice, sc)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.augop(op, cur, self.ev(s.value, sc)))
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, a, b):
        iop, bop = op
        if isinstance(a, (list, set, dict, SArr)) and not isinstance(a, np.ndarray):
            if isinstance(a, list) and not isinstance(a, VList):
                a.extend(self.concrete_iter(b))
                return a
            if isinstance(a, VList) and iop is operator.iadd:
                self.chk_frozen(a)
                a.extend(b if isinstance(b, (list, SArr)) else VList(self.concrete_iter(b)))
                return a
            if isinstance(a, SArr):
                if not isinstance(b, (SArr, Sym)) and not is_num(b):
                    b = asarr(b)
                self.arr_write_guard(a)
                return iop(a, b)
            return iop(a, b)
        return self.binop(bop, a, b)

    def arr_write_guard(self, a):
        pass

    def chk_frozen(self, v):
        if isinstance(v, VList) and v.notes == "frozen":
            raise Unsupported("mutation of an element read from a symbolic sequence")

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            self.setitem(o, self.ev_index(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred")
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, sc):
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            items = tolist_seq(v)
            n = vlen(items)
            k = star[0]
            after = len(elts) - k - 1
            if isinstance(n, int):
                xs = list(self.concrete_iter(items))
                if n < len(elts) - 1:
                    raise ValueError("not enough values to unpack")
                for e, x in zip(elts[:k], xs[:k]):
                    self.assign(e, x, sc)
                self.assign(elts[k].value, VList(xs[k:n - after]), sc)
                for e, x in zip(elts[k + 1:], xs[n - after:] if after else []):
                    self.assign(e, x, sc)
                return
            for j, e in enumerate(elts[:k]):
                self.assign(e, seqs.vgetitem(items, j), sc)
            self.assign(elts[k].value, seqs.vgetitem(items, slice(k, -after if after else None)), sc)
            for j in range(after):
                self.assign(elts[k + 1 + j], seqs.vgetitem(items, j - after), sc)
            return
        if isinstance(v, (tuple,)) or (isinstance(v, list) and not is_vsym(v)):
            xs = list(v)
        elif isinstance(v, VList) or isinstance(v, SArr):
            n = vlen(v)
            if not isinstance(n, int):
                if not CTX.branch(it(n) == len(elts)):
                    raise ValueError("unpack: wrong number of values")
                xs = [self.getitem(v, k) for k in range(len(elts))]
            else:
                xs = [self.getitem(v, k) for k in range(n)]
        else:
            xs = list(self.concrete_iter(v))
        if len(xs) != len(elts):
            raise ValueError(f"unpack: expected {len(elts)} values, got {len(xs)}")
        for e, x in zip(elts, xs):
            self.assign(e, x, sc)

    def s_If(self, s, sc):
        if self.truth(self.ev(s.test, sc)):
            self.block(s.body, sc)
        else:
            self.block(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, sc)):
                self.block(s.orelse, sc)
                return
            n += 1
            if n > self.while_limit:
                raise Unsupported("while loop not unrolled within the limit")
            try:
                self.block(s.body, sc)
            except _Break:
                return
            except _Continue:
                pass

    def s_Break(self, s, sc):
        raise _Break()

    def s_Continue(self, s, sc):
        raise _Continue()

    def s_Return(self, s, sc):
        raise _Return(self.ev(s.value, sc) if s.value is not None else None)

    def s_Raise(self, s, sc):
        if s.exc is None:
            cur = sc.vars.get("__exc__")
            raise cur if cur is not None else RuntimeError("No active exception to reraise")
        e = self.ev(s.exc, sc)
        if isinstance(e, type):
            e = e()
        raise e

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            raise AssertionError(self.ev(s.msg, sc) if s.msg is not None and not isinstance(s.msg, ast.JoinedStr) else f"assert at {sc.name}:{s.lineno}")

    def s_Try(self, s, sc):
        try:
            try:
                self.block(s.body, sc)
            except INTERNAL + CONTROL:
                raise
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, sc)
                        ok = isinstance(e, ty if isinstance(ty, (type, tuple)) else tuple(ty))
                    if ok:
                        if h.name:
                            sc.vars[h.name] = e
                        old = sc.vars.get("__exc__")
                        sc.vars["__exc__"] = e
                        try:
                            self.block(h.body, sc)
                        finally:
                            if old is None:
                                sc.vars.pop("__exc__", None)
                            else:
                                sc.vars["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, sc)
        finally:
            if s.finalbody:
                self.block(s.finalbody, sc)

    def s_With(self, s, sc):
        mgrs = []
        for i in s.items:
            m = self.ev(i.context_expr, sc)
            v = type(m).__enter__(m)
            mgrs.append(m)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, sc)
        try:
            self.block(s.body, sc)
        finally:
            for m in reversed(mgrs):
                type(m).__exit__(m, None, None, None)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del sc.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                ix = self.ev_index(t.slice, sc)
                if is_vsym(o) or isinstance(o, SArr):
                    raise Unsupported("del on symbolic")
                if isinstance(o, VList):
                    self.chk_frozen(o)
                    list.__delitem__(o, ix)
                else:
                    del o[ix]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, sc), t.attr)

    def s_FunctionDef(self, s, sc):
        f = self.make_func(s, sc)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, sc)
            f = self.call(dv, (f,))
        self.assign_name(s.name, f, sc)

    def make_func(self, node, sc):
        defaults = tuple(self.ev(d, sc) for d in node.args.defaults)
        kwd = {a.arg: self.ev(d, sc) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return PyFunc(node, sc, sc.globs, defaults, kwd, f"{sc.name}.<locals>.{getattr(node, 'name', '<lambda>')}", sc.globs.get("__name__"))

    def s_Import(self, s, sc):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m, sc)
            else:
                self.assign_name(a.name.split(".")[0], sys.modules[a.name.split(".")[0]], sc)

    def s_ImportFrom(self, s, sc):
        if s.level:
            raise Unsupported("relative import inside a function")
        m = importlib.import_module(s.module)
        for a in s.names:
            v = getattr(m, a.name)
            self.assign_name(a.asname or a.name, v, sc)

    def s_Global(self, s, sc):
        sc.gdecl.update(s.names)

    def s_Nonlocal(self, s, sc):
        sc.ndecl.update(s.names)

    def s_For(self, s, sc):
        seq = self.ev(s.iter, sc)
        self.loop(s, seq, sc)

    # ------------------------------------------------------------ loops
    def as_seq(self, seq):
        """(concrete list, None) or (None, (n, elem))"""
        if isinstance(seq, SymGen):
            seq = seq.force()
        if isinstance(seq, SRange):
            if isinstance(seq.n, int):
                return [seq.start + seq.step * k for k in range(seq.n)], None
            st, sp = seq.start, seq.step
            return None, (seq.n, lambda i: simp(seqs.as_sym_int(i) * sp + st))
        if isinstance(seq, VList):
            if seq.sym is None:
                return seq, None
            n, el = seq.sym
            return None, (n, lambda i: freeze(el(i)))
        if isinstance(seq, SArr):
            if isinstance(seq.shape[0], int):
                return [seq.row(k) for k in range(seq.shape[0])], None
            return None, (seq.shape[0], lambda i: freeze(seq.row(i)))
        if isinstance(seq, np.ndarray):
            return list(seq), None
        if isinstance(seq, (Sym, int, float)) or seq is None:
            raise TypeError(f"'{type(seq).__name__}' object is not iterable")
        return seq, None

    def concrete_iter(self, seq):
        c, sy = self.as_seq(seq)
        if sy is not None:
            raise Unsupported("symbolic sequence where a concrete one is needed")
        return list(c)

    def loop(self, s, seq, sc):
        conc, sy = self.as_seq(seq)
        if sy is None:
            n = 0
            for x in conc:
                n += 1
                if n > self.unroll_limit:
                    raise Unsupported("concrete loop too long")
                self.assign(s.target, x, sc)
                try:
                    self.block(s.body, sc)
                except _Break:
                    return
                except _Continue:
                    continue
            self.block(s.orelse, sc)
            return
        n, el = sy
        SymLoop(self, s, sc, n, el).run()

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        m = _DISP.get(type(e))
        if m is None:
            m = getattr(self, "e_" + type(e).__name__, None)
            if m is None:
                raise Unsupported(f"expression {type(e).__name__}")
            _DISP[type(e)] = m = m.__func__
        return m(self, e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, sc)
                out.extend(self.concrete_iter(v))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_List(self, e, sc):
        if len(e.elts) >= 1 and any(isinstance(x, ast.Starred) for x in e.elts):
            r = VList()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = vconcat(r, tolist_seq(self.ev(x.value, sc)))
                else:
                    r.append(self.ev(x, sc))
            return r
        return VList([self.ev(x, sc) for x in e.elts])

    def e_Set(self, e, sc):
        vs = self.elts(e.elts, sc)
        if has_sym(vs):
            raise Unsupported("set of symbolic values")
        return set(vs)

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                d[self.ev(k, sc)] = self.ev(v, sc)
        return d

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return self.binop(_BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        sa, sb = isinstance(a, (Sym, SArr)), isinstance(b, (Sym, SArr))
        if sa or sb:
            if op is operator.matmul:
                return seqs.matmul(a, b)
            if isinstance(a, np.ndarray):
                a = arr(a)
            elif isinstance(b, np.ndarray):
                b = arr(b)
            if isinstance(a, np.generic):
                a = a.item()
            if isinstance(b, np.generic):
                b = b.item()
            if isinstance(a, str) and op is operator.mod:
                return a
            if (isinstance(a, SArr) or isinstance(b, SArr)) and op is operator.truediv:
                return seqs.elementwise(seqs._npdiv, a, b)
            r = op(a, b)
            return r
        if isinstance(a, str) and op is operator.mod and has_sym([b] if not isinstance(b, tuple) else list(b)):
            bb = tuple(self.to_str(x) if isinstance(x, Sym) else x for x in (b if isinstance(b, tuple) else (b,)))
            return a.replace("%f", "%s").replace("%d", "%s") % bb
        if isinstance(a, np.ndarray) and isinstance(b, VList) and has_sym(b):
            a = arr(a)
        elif isinstance(b, np.ndarray) and isinstance(a, VList) and has_sym(a):
            b = arr(b)
        return op(a, b)

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym):
                return mk(z3.Not(truth(v)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, sc)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, Sym) and v.kind == "bool" else v
            if not is_and and t:
                return True if isinstance(v, Sym) and v.kind == "bool" else v
        return v

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, sc)
            c = self.compare(op, left, right)
            if k == len(e.ops) - 1 and res is True:
                return c
            if k < len(e.ops) - 1:
                if not self.truth(c):
                    return False
            else:
                return c
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            c = self.contains(b, a)
            return mk(z3.Not(c.t)) if isinstance(c, Sym) else not c
        f = _CMP[t]
        if isinstance(a, np.ndarray) and isinstance(b, (Sym, SArr)):
            a = arr(a)
        if isinstance(b, np.ndarray) and isinstance(a, (Sym, SArr)):
            b = arr(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return t is ast.NotEq
        if isinstance(a, list) and isinstance(b, list) and t in (ast.Eq, ast.NotEq) and (isinstance(a, VList) or isinstance(b, VList)):
            r = veq(a, b)
            if t is ast.NotEq:
                return mk(z3.Not(r.t)) if isinstance(r, Sym) else not r
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and t in (ast.Eq, ast.NotEq) and (has_sym(a) or has_sym(b)):
            r = veq(a, b)
            if t is ast.NotEq:
                return mk(z3.Not(r.t)) if isinstance(r, Sym) else not r
            return r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is not type(b) and t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            pass
        if t in (ast.Eq, ast.NotEq):
            eq = type(a).__dict__.get("__eq__") if is_verse(type(a)) else None
            for kl in (type(a).__mro__ if is_verse(type(a)) else ()):
                if "__eq__" in kl.__dict__:
                    eq = kl.__dict__["__eq__"]
                    break
            if isinstance(eq, types.FunctionType) and is_verse(eq):
                try:
                    func_node(eq)
                    r = self.call(eq, (a, b))
                    if t is ast.NotEq:
                        return mk(z3.Not(r.t)) if isinstance(r, Sym) else not r
                    return r
                except Unsupported as ex:
                    if "source of" not in str(ex):
                        raise
        return f(a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if b is None or a is None:
            return False
        if isinstance(a, Sym) and a.kind == "bool" and isinstance(b, bool):
            return a if b else mk(z3.Not(a.t))
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a is b or (type(a) is type(b) and isinstance(a, str) and a == b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t):
                raise Unsupported("identity of scalars")
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, VList):
            if c.sym is not None:
                return vcontains(c, x)
            r = False
            for y in list.__iter__(c):
                e = True if y is x else same_elem(y, x)
                if e is True:
                    return True
                if isinstance(e, Sym):
                    r = e if r is False else mk(z3.Or(r.t, e.t))
                elif e:
                    return True
            return r
        if isinstance(c, SRange):
            c = c.tolist()
            return vcontains(c, x) if is_vsym(c) else self.contains(c, x)
        if isinstance(c, SArr):
            return reduce_any_eq(c, x)
        if isinstance(x, Sym) and isinstance(c, (list, tuple)):
            return self.contains(VList(c), x)
        if isinstance(x, Sym):
            if isinstance(c, (range,)):
                return self.contains(SRange(c.start, c.stop, c.step), x)
            raise Unsupported("membership of a symbolic value")
        if isinstance(x, (tuple, list)) and has_sym(x) and isinstance(c, (list, tuple)):
            return self.contains(VList(c), x)
        return x in c

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, type(None))):
            return bool(v)
        if isinstance(v, Sym):
            return CTX.branch(truth(v))
        if isinstance(v, VList):
            return bool(v)
        if isinstance(v, SArr):
            return bool(v)
        for kl in type(v).__mro__:
            if "__bool__" in kl.__dict__ or "__len__" in kl.__dict__:
                b = kl.__dict__.get("__bool__") or kl.__dict__.get("__len__")
                if isinstance(b, types.FunctionType) and is_verse(b):
                    return self.truth(self.call(b, (v,)))
                break
        return bool(v)

    def e_IfExp(self, e, sc):
        c = self.ev(e.test, sc)
        return self.ev(e.body, sc) if self.truth(c) else self.ev(e.orelse, sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.name == "<comp>" and s.parent is not None:
            s = s.parent
        self.assign_name(e.target.id, v, s)
        return v

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def e_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value is not None else None
        s = sc
        while "__yields__" not in s.vars:
            s = s.parent
        s.vars["__yields__"].append(v)
        return None

    def e_YieldFrom(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while "__yields__" not in s.vars:
            s = s.parent
        s.vars["__yields__"].extend(tolist_seq(v))
        return None

    def e_Starred(self, e, sc):
        raise Unsupported("starred expression")

    def e_Slice(self, e, sc):
        return slice(*[None if x is None else self.ev(x, sc) for x in (e.lower, e.upper, e.step)])

    def ev_index(self, e, sc):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, sc) for x in e.elts)
        return self.ev(e, sc)

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        return self.getitem(o, self.ev_index(e.slice, sc))

    def getitem(self, o, ix):
        if isinstance(o, VList):
            if isinstance(ix, (slice, Sym)) or o.sym is not None:
                if isinstance(ix, np.integer):
                    ix = int(ix)
                r = seqs.vgetitem(o, ix)
                if o.sym is not None or isinstance(ix, Sym):
                    if not isinstance(ix, slice):
                        freeze(r)
                return r
            return list.__getitem__(o, ix)
        if isinstance(o, SArr):
            return o[ix]
        if isinstance(o, (list, tuple)):
            if isinstance(ix, Sym):
                k = norm_index(ix, len(o), "index out of range")
                return freeze(vget_raw(o, k))
            if isinstance(ix, slice) and any(isinstance(x, Sym) for x in (ix.start, ix.stop, ix.step)):
                r = seqs.vgetitem(VList(o), ix)
                if isinstance(o, tuple) and not is_vsym(r):
                    return tuple(r)
                return r
            return o[ix]
        if isinstance(o, np.ndarray) and has_sym([ix] if not isinstance(ix, tuple) else list(ix)):
            return arr(o)[ix]
        if isinstance(o, dict):
            if isinstance(ix, Sym):
                raise Unsupported("symbolic dict key")
            try:
                v = o[ix]
            except TypeError:
                raise
            if isinstance(v, Poison):
                raise PoisonRead(v.loc)
            return v
        if isinstance(o, SRange):
            return self.getitem(o.tolist(), ix)
        gi = getattr(type(o), "__getitem__", None)
        if isinstance(gi, types.FunctionType) and is_verse(gi):
            return self.call(gi, (o, ix))
        return o[ix]

    def setitem(self, o, ix, v):
        if isinstance(o, VList):
            self.chk_frozen(o)
            if isinstance(ix, np.integer):
                ix = int(ix)
            return seqs.vsetitem(o, ix, v)
        if isinstance(o, SArr):
            if isinstance(v, tuple):
                v = VList(v)
            return o.__setitem__(ix, v)
        if isinstance(o, np.ndarray):
            if has_sym([v]) or has_sym([ix] if not isinstance(ix, tuple) else list(ix)):
                raise Unsupported("symbolic write into a concrete array")
            o[ix] = to_native(v)
            return
        if isinstance(o, list) and isinstance(ix, Sym):
            raise Unsupported("symbolic index write")
        si = getattr(type(o), "__setitem__", None)
        if isinstance(si, types.FunctionType) and is_verse(si):
            return self.call(si, (o, ix, v))
        o[ix] = v

    def getattr(self, o, name):
        if isinstance(o, (VList, SArr, Sym)):
            if isinstance(o, VList):
                if name in ("append", "extend", "pop", "insert", "reverse", "sort", "clear", "remove"):
                    self.chk_frozen(o)
                if name == "sort":
                    return native(lambda key=None, reverse=False: self.list_sort(o, key, reverse))
                if name == "extend":
                    return native(lambda x: o.extend(x if isinstance(x, (list, SArr)) else tolist_seq(x)))
            if isinstance(o, VList) and name in ("index", "count", "remove"):
                m = getattr(o, name)
                return m
            if isinstance(o, SArr) and name == "shape":
                return o.shape
            return getattr(o, name)
        if isinstance(o, np.ufunc):
            m = self.models.get((id(o), name))
            if m is not None:
                return m
        if isinstance(o, types.ModuleType):
            ov = self.globals_over.get((o.__name__, name), _MISSING)
            if ov is not _MISSING:
                return ov
        cls = type(o)
        if is_verse(cls):
            for kl in cls.__mro__:
                if name in kl.__dict__:
                    a = kl.__dict__[name]
                    if isinstance(a, property) and isinstance(a.fget, types.FunctionType) and is_verse(a.fget):
                        return self.call(a.fget, (o,))
                    break
        v = getattr(o, name)
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        return v

    def list_sort(self, o, key, reverse):
        r = self.sorted_(self.concrete_iter(o), key=key, reverse=reverse)
        list.clear(o)
        list.extend(o, r)

    def setattr(self, o, name, v):
        if isinstance(o, (Sym, SArr, VList)):
            raise Unsupported("setattr on a symbolic value")
        cls = type(o)
        for kl in cls.__mro__:
            if name in kl.__dict__:
                a = kl.__dict__[name]
                if isinstance(a, property) and isinstance(a.fset, types.FunctionType) and is_verse(a.fset):
                    return self.call(a.fset, (o, v))
                break
        setattr(o, name, v)

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc)
                if f is builtins.zip or getattr(f, "__pyvc_zip__", False):
                    c, sy = self.as_seq(v)
                    if sy is not None:
                        return zip_star(v)
                args.extend(self.concrete_iter(v))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, sc))
            else:
                kw[k.arg] = self.ev(k.value, sc)
        if f is builtins.super and not args:
            cls = self.find_class(sc)
            selfv = sc
            s = sc
            while s is not None and "self" not in s.vars:
                s = s.parent
            return super(cls, s.vars["self"])
        if f is builtins.locals:
            return dict(sc.vars)
        if f is builtins.eval:
            return self.eval_model(sc, *args)
        if f is builtins.exec:
            raise Unsupported("exec")
        return self.call(f, tuple(args), kw)

    def find_class(self, sc):
        s = sc
        while s.parent is not None:
            s = s.parent
        q = sc.name
        mod = sc.globs["__name__"]
        cl = q[len(mod) + 1:].split(".")[0]
        return sc.globs[cl]

    def eval_model(self, sc, src, globs=None, locs=None):
        if not isinstance(src, str):
            raise Unsupported("eval of non-string")
        tree = ast.parse(src.strip(), mode="eval")
        ns = Scope(None if globs is not None or locs is not None else sc, sc.globs if globs is None else globs, set(), sc.name)
        if locs is not None:
            ns.vars.update(locs)
        return self.ev(tree.body, ns)

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, sc)
                if isinstance(x, (SArr,)) or has_sym(x) and not isinstance(x, Sym):
                    out.append("<sym>")
                elif isinstance(x, Sym):
                    out.append(self.to_str(x))
                else:
                    spec = ""
                    if v.format_spec is not None:
                        spec = self.e_JoinedStr(v.format_spec, sc)
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    out.append(format(x, spec))
        return "".join(out)

    def to_str(self, x):
        """textual form of a number: sign plus an opaque numeral"""
        if not isinstance(x, Sym):
            return str(x)
        if x.kind == "bool":
            return "True" if bool(x) else "False"
        if x.kind not in ("int", "real"):
            raise Unsupported("str of opaque")
        neg = CTX.branch(x.t < 0)
        v = -x if neg else x
        name = f"__num{len(self.placeholders)}__"
        self.placeholders[name] = v
        return ("-" if neg else "") + name

    # comprehensions
    def e_ListComp(self, e, sc):
        return self.comp(e, sc, lambda s: self.ev(e.elt, s))

    def e_GeneratorExp(self, e, sc):
        return self.comp(e, sc, lambda s: self.ev(e.elt, s), lazy=True)

    def e_SetComp(self, e, sc):
        r = self.comp(e, sc, lambda s: self.ev(e.elt, s))
        if has_sym(r):
            raise Unsupported("set comprehension over symbolic values")
        return set(r)

    def e_DictComp(self, e, sc):
        r = self.comp(e, sc, lambda s: (self.ev(e.key, s), self.ev(e.value, s)))
        return {k: v for k, v in self.concrete_iter(r)}

    def comp(self, e, sc, elt, lazy=False):
        gens = e.generators

        def rec(k, s):
            """VList of results from generator k on"""
            if k == len(gens):
                return VList([elt(s)])
            g = gens[k]
            seq = self.ev(g.iter, s)
            conc, sy = self.as_seq(seq)
            if sy is None:
                out = VList()
                n = 0
                for x in conc:
                    n += 1
                    if n > 4000:
                        raise Unsupported("comprehension too long")
                    s2 = Scope(s, sc.globs, set(), "<comp>")
                    self.assign(g.target, x, s2)
                    if all(self.truth(self.ev(c, s2)) for c in g.ifs):
                        if k == len(gens) - 1:
                            out.append(elt(s2))
                        else:
                            out.extend(rec(k + 1, s2))
                return out
            n, el = sy
            if k != len(gens) - 1:
                raise Unsupported("nested comprehension over a symbolic sequence")
            snap = walk_state(s)

            def bind(i):
                s2 = Scope(s, sc.globs, set(), "<comp>")
                self.assign(g.target, el(i), s2)
                return s2

            def chk(v):
                if diff_state(snap):
                    raise Unsupported("comprehension with side effects over a symbolic sequence")
                return materialize(v)
            if not g.ifs:
                return map_seq(n, lambda i: chk(elt(bind(i))))

            def body(i):
                s2 = bind(i)
                keep = all(self.truth(self.ev(c, s2)) for c in g.ifs)
                return keep, (lambda: chk(elt(s2)))
            return filter_map_seq(n, body)
        s0 = Scope(sc, sc.globs, set(), "<comp>")
        if lazy and len(gens) == 1:
            # generators feeding any()/all() short-circuit; keep laziness for concrete iterables
            seq = self.ev(gens[0].iter, s0)
            conc, sy = self.as_seq(seq)
            if sy is None:
                return LazyGen(self, e, conc, s0, sc, elt)
            n, el = sy
            return SymGen(self, e, n, el, s0, sc, elt)
        if lazy and len(gens) == 2:
            seq = self.ev(gens[0].iter, s0)
            conc, sy = self.as_seq(seq)
            if sy is not None:
                return SymGen2(self, e, sy[0], sy[1], s0, sc, elt)
        return rec(0, s0)

    # ------------------------------------------------------------ sorted with possibly symbolic keys
    def sorted_(self, xs, key=None, reverse=False):
        xs = list(xs)
        ks = [self.call(key, (x,)) if key is not None else x for x in xs]

        def lt(a, b):
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                for p, q in zip(a, b):
                    e = p == q
                    if self.truth(e):
                        continue
                    return lt(p, q)
                return len(a) < len(b)
            return self.truth(a < b)
        if not has_sym(ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
            return [xs[i] for i in order]
        out = []
        for i in range(len(xs)):
            j = len(out)
            while j > 0 and (lt(ks[i], ks[out[j - 1]]) if not reverse else lt(ks[out[j - 1]], ks[i])):
                j -= 1
            out.insert(j, i)
        return [xs[i] for i in out]


class LazyGen:
    """generator expression over a concrete iterable; evaluated on demand"""

    def __init__(self, interp, e, conc, s0, sc, elt):
        self.a = (interp, e, conc, s0, sc, elt)

    def __iter__(self):
        interp, e, conc, s0, sc, elt = self.a
        g = e.generators[0]
        for x in conc:
            s2 = Scope(s0, sc.globs, set(), "<comp>")
            interp.assign(g.target, x, s2)
            if all(interp.truth(interp.ev(c, s2)) for c in g.ifs):
                yield elt(s2)


class SymGen:
    """generator expression over a symbolic sequence (materialised unless consumed by any/all)"""

    def __init__(self, interp, e, n, el, s0, sc, elt):
        self.args = (interp, e, n, el, s0, sc, elt)
        g = e.generators[0]
        snap = walk_state(s0)

        def one(i, univ):
            s2 = Scope(s0, sc.globs, set(), "<comp>")
            interp.assign(g.target, el(i), s2)
            if g.ifs and not all(interp.truth(interp.ev(c, s2)) for c in g.ifs):
                return univ
            v = elt(s2)
            if diff_state(snap):
                raise Unsupported("generator with side effects over a symbolic sequence")
            return v
        self._one = one
        self._n = n

    def force(self):
        interp, e, n, el, s0, sc, elt = self.args
        g = e.generators[0]
        if not g.ifs:
            return map_seq(n, lambda i: materialize(self._one(i, None)))

        def body(i):
            s2 = Scope(s0, sc.globs, set(), "<comp>")
            interp.assign(g.target, el(i), s2)
            keep = all(interp.truth(interp.ev(c, s2)) for c in g.ifs)
            return keep, (lambda: materialize(elt(s2)))
        return filter_map_seq(n, body)

    def any_all(self, univ):
        f = forall_seq if univ else exists_seq
        return f(self._n, lambda i: self._one(i, univ))


class SymGen2:
    """two-level generator expression with a symbolic outer sequence; only any()/all()/min()/max() consume it"""

    def __init__(self, interp, e, n, el, s0, sc, elt):
        self.a = (interp, e, n, el, s0, sc, elt)

    def any_all(self, univ):
        interp, e, n, el, s0, sc, elt = self.a
        f = forall_seq if univ else exists_seq
        g0, g1 = e.generators

        def outer(i):
            s1 = Scope(s0, sc.globs, set(), "<comp>")
            interp.assign(g0.target, el(i), s1)
            if g0.ifs and not all(interp.truth(interp.ev(c, s1)) for c in g0.ifs):
                return univ
            seq = interp.ev(g1.iter, s1)
            conc, sy = interp.as_seq(seq)

            def inner(x):
                s2 = Scope(s1, sc.globs, set(), "<comp>")
                interp.assign(g1.target, x, s2)
                if g1.ifs and not all(interp.truth(interp.ev(c, s2)) for c in g1.ifs):
                    return univ
                return elt(s2)
            if sy is None:
                xs = list(conc)
                return f(len(xs), lambda k: inner(xs[k]))
            return f(sy[0], lambda k: inner(sy[1](k)))
        return f(n, outer)


class _LazyEl:
    def __init__(self, mk_):
        self.mk, self.v = mk_, None

    def __call__(self, i):
        if self.v is None:
            self.v = self.mk()
        return vget_raw(self.v, i)


def force_gen(v):
    if isinstance(v, SymGen):
        return v.force()
    return v


def native(f):
    f.__pyvc_native__ = True
    return f


def reduce_any_eq(a, x):
    return seqs.reduce_arr(seqs.elementwise(operator.eq, a, x, kind="bool"), "any")


def tolist_native(a):
    return a.tolist()


def zip_star(v):
    """zip(*rows) where the number of rows is symbolic: rows must have a concrete common length"""
    n, el = v.sym if isinstance(v, VList) else (v.shape[0], lambda i: v.row(i))
    with generic(0, n, "z") as k:
        r0 = el(k)
        m = vlen(r0)
    if not isinstance(m, int):
        if isinstance(m, Sym) and not core.occurs(m.t, k.t):
            return VList.symbolic(m, lambda j: TupSeq(n, lambda i: vget_raw(el(i), j)))
        raise Unsupported("zip(*ragged)")
    return VList([TupSeq(n, (lambda jj: (lambda i: vget_raw(el(i), jj)))(j)) for j in range(m)])


def TupSeq(n, f):
    return VList.symbolic(n, f)


def to_native(v, depth=0):
    if isinstance(v, SArr):
        if all(isinstance(s, int) for s in v.shape):
            items = {ix: v.at(*ix) for ix in itertools.product(*[range(s) for s in v.shape])}
            if not any(isinstance(x, Sym) for x in items.values()):
                out = np.zeros(v.shape, dtype=v.dtype)
                for k, x in items.items():
                    out[k] = x
                return out
        return v
    if isinstance(v, SRange) and not any(isinstance(x, Sym) for x in (v.start, v.stop, v.step)):
        return range(v.start, v.stop, v.step)
    if isinstance(v, VList) and v.sym is None and depth < 6:
        return v
    return v


def from_native(r):
    if type(r) is list:
        return VList([from_native(x) for x in r])
    return r


def materialize(v, depth=0):
    """evaluate lazily-defined array contents at generic indices now, so that side facts and
    obligations are recorded in the current (generic) context"""
    if depth > 6:
        return v
    if isinstance(v, SymGen):
        return materialize(v.force(), depth + 1)
    if isinstance(v, LazyGen):
        return materialize(VList(list(v)), depth + 1)
    if isinstance(v, SArr):
        if all(isinstance(s, int) for s in v.shape):
            tot = 1
            for s in v.shape:
                tot *= s
            if tot <= 200:
                tab = {ix: v.at(*ix) for ix in itertools.product(*[range(s) for s in v.shape])}
                return SArr(v.shape, seqs.dense(tab, v.shape), v.buf.kind)
        fr = v.frozen()
        return seqs._build(v.shape, lambda *ix: fr(*ix), v.buf.kind)
    if isinstance(v, VList):
        if v.sym is None:
            return VList([materialize(x, depth + 1) for x in list.__iter__(v)])
        return v
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(materialize(x, depth + 1) for x in v)
    return v


_DISP = {}
_AUG = {ast.Add: (operator.iadd, operator.add), ast.Sub: (operator.isub, operator.sub), ast.Mult: (operator.imul, operator.mul),
        ast.Div: (operator.itruediv, operator.truediv), ast.FloorDiv: (operator.ifloordiv, operator.floordiv), ast.Mod: (operator.imod, operator.mod),
        ast.Pow: (operator.ipow, operator.pow), ast.BitOr: (operator.ior, operator.or_), ast.BitAnd: (operator.iand, operator.and_), ast.BitXor: (operator.ixor, operator.xor)}
_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
        ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
        ast.MatMult: operator.matmul, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

INTERP = Interp()
from .loops import SymLoop  # noqa: E402
from . import models  # noqa: E402,F401
