"""pyvc core: symbolic scalars, path exploration, facts, quantifier instantiation, solving.

Floats are mathematical reals, ints are mathematical integers (assumption, reported in evidence).
Every fresh symbol created under a "generic index" (an arbitrary loop iteration / comprehension
element / array element) is an uninterpreted function of that index, and every fact recorded there is
a universally quantified fact, so that it can later be instantiated at any index.
"""
import itertools
import random
import time
from fractions import Fraction

import z3

_TOT = {"queries": 0, "time": 0.0, "unknown": 0}


class Unsupported(Exception):
    """the verifier's Python subset does not cover what the code does (never a violation)"""


class Infeasible(Exception):
    """current path condition is contradictory"""


class Budget(Exception):
    """exploration/time budget exhausted (never a violation)"""


class PathLimit(Budget):
    pass


# ---------------------------------------------------------------- scalars
def num_to_z3(v, kind=None):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        if kind == "real":
            return z3.RealVal(v)
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    f = float(v)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("inf/nan in arithmetic")
    return z3.RealVal(Fraction(f))


def is_num(v):
    import numpy as np

    return isinstance(v, (bool, int, float, Fraction, np.integer, np.floating, np.bool_))


def kind_of(t):
    s = t.sort()
    if s == z3.IntSort():
        return "int"
    if s == z3.RealSort():
        return "real"
    if s == z3.BoolSort():
        return "bool"
    return "other"


def is_sym(v):
    return isinstance(v, Sym)


def const_value(t):
    """Python value of a literal z3 term or None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def term(v, kind=None):
    """z3 term of a scalar value, coerced to kind if given"""
    if isinstance(v, Sym):
        t = v.t
    elif z3.is_expr(v):
        t = v
    elif is_num(v):
        import numpy as np

        if isinstance(v, np.generic):
            v = v.item()
        t = num_to_z3(v, kind)
    else:
        raise Unsupported(f"not a scalar: {type(v).__name__}")
    if kind is not None:
        k = kind_of(t)
        if k != kind:
            if k == "bool" and kind in ("int", "real"):
                t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
                k = "int"
            if k == "int" and kind == "real":
                c = const_value(t)
                t = z3.RealVal(c) if c is not None else z3.ToReal(t)
            elif k == "real" and kind == "int":
                raise Unsupported("real used as int")
            elif k != kind:
                raise Unsupported(f"coerce {k} to {kind}")
    return t


def common(a, b):
    """two numeric terms of the same sort"""
    ta, tb = term(a), term(b)
    ka, kb = kind_of(ta), kind_of(tb)
    if "real" in (ka, kb):
        return term(ta, "real"), term(tb, "real"), "real"
    if ka == kb == "bool":
        return ta, tb, "bool"
    if ka == "other" or kb == "other":
        if ta.sort() == tb.sort():
            return ta, tb, "other"
        raise Unsupported("mixed opaque sorts")
    return term(ta, "int"), term(tb, "int"), "int"


def mk(t):
    """wrap a z3 term; literals become Python values (ints/bools); rationals stay symbolic literals"""
    if z3.is_expr(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return Sym(t)
    return t


def inf_cmp(op, a, b):
    """comparison where one side is +-inf (the other finite): Python bool or None"""
    def inf(v):
        return isinstance(v, float) and v in (float("inf"), float("-inf"))
    import numpy as np
    if isinstance(a, np.floating):
        a = float(a)
    if isinstance(b, np.floating):
        b = float(b)
    if inf(a) and not inf(b):
        r = a > 0
        return {"<": not r, "<=": not r, ">": r, ">=": r, "==": False, "!=": True}[op]
    if inf(b) and not inf(a):
        r = b > 0
        return {"<": r, "<=": r, ">": not r, ">=": not r, "==": False, "!=": True}[op]
    return None


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def kind(self):
        return kind_of(self.t)

    def __repr__(self):
        s = str(self.t)
        return f"<{s[:80]}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- arithmetic
    def _bin(self, o, f, rev=False):
        if type(o).__module__ == "numpy" and type(o).__name__ == "ndarray":
            import numpy
            out = numpy.empty(o.shape, dtype=object)
            for i in numpy.ndindex(*o.shape):
                out[i] = Sym._bin(self, o[i], f, rev)
            return out
        if not (isinstance(o, Sym) or is_num(o)):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            raise Unsupported("arithmetic with inf")
        a, b = (o, self) if rev else (self, o)
        ta, tb, k = common(a, b)
        if k == "bool":
            ta, tb = term(ta, "int"), term(tb, "int")
        return mk(z3.simplify(f(ta, tb)) if _lit(ta) and _lit(tb) else f(ta, tb))

    def __add__(self, o):
        if is_num(o) and not isinstance(o, bool) and o == 0 and (self.kind == "real" or isinstance(o, int)):
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_num(o) and not isinstance(o, bool) and o == 0 and (self.kind == "real" or isinstance(o, int)):
            return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if is_num(o) and not isinstance(o, bool) and o == 0 and (self.kind == "real" or isinstance(o, int)):
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        return pymod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), pymod(self, o)

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-term(self, "int" if self.kind == "bool" else None))

    def __pos__(self):
        return self

    def __abs__(self):
        t = term(self, "int" if self.kind == "bool" else None)
        return mk(z3.If(t >= 0, t, -t))

    def __round__(self, nd=None):
        return ROUND(self, nd)

    def __trunc__(self):
        raise Unsupported("trunc of symbolic")

    # ---- comparison
    def _cmp(self, o, op, f):
        if o is None or isinstance(o, str):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if not (isinstance(o, Sym) or is_num(o)):
            return NotImplemented
        r = inf_cmp(op, self, o)
        if r is not None:
            return r
        ta, tb, k = common(self, o)
        if k == "bool" and op not in ("==", "!="):
            ta, tb = term(ta, "int"), term(tb, "int")
        if k == "other" and op not in ("==", "!="):
            raise Unsupported("ordering of opaque values")
        if ta.eq(tb):
            return {"==": True, "!=": False, "<": False, "<=": True, ">": False, ">=": True}[op]
        r = f(ta, tb)
        if _lit(ta) and _lit(tb):
            r = z3.simplify(r)
        return mk(r)

    def __lt__(self, o):
        return self._cmp(o, "<", lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, "==", lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, "!=", lambda a, b: a != b)

    def __hash__(self):
        if CTX.allow_hash:
            return 7
        raise Unsupported("hash of symbolic value")

    def __bool__(self):
        return CTX.branch(truth(self))

    def __invert__(self):
        if self.kind == "bool":
            return mk(z3.Not(self.t))
        raise Unsupported("~int")

    def __and__(self, o):
        return mk(z3.And(term(self, "bool"), term(o, "bool")))

    __rand__ = __and__

    def __or__(self, o):
        return mk(z3.Or(term(self, "bool"), term(o, "bool")))

    __ror__ = __or__

    def __index__(self):
        c = const_value(z3.simplify(self.t))
        if c is not None and not isinstance(c, Fraction):
            return int(c)
        if self.kind == "bool":
            return int(bool(self))
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = const_value(z3.simplify(self.t))
        if c is not None:
            return float(c)
        raise Unsupported("symbolic value converted to machine float")

    # numpy-ish scalar attributes
    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self


def _lit(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)


def truth(v):
    """z3 Bool for the truth value of a scalar"""
    t = term(v)
    k = kind_of(t)
    if k == "bool":
        return t
    if k in ("int", "real"):
        return t != 0
    raise Unsupported("truth of opaque")


def div(a, b):
    if not (isinstance(a, Sym) or is_num(a)) or not (isinstance(b, Sym) or is_num(b)):
        return NotImplemented
    ta, tb = term(a, "real"), term(b, "real")
    c = const_value(tb)
    if c is None:
        if CTX.numpy_div:
            CTX.oblige("no-division-by-zero", tb != 0, False)
        elif CTX.branch(tb == 0):
            raise ZeroDivisionError("division by zero")
    elif c == 0:
        raise ZeroDivisionError("division by zero")
    return mk(ta / tb)


def floordiv(a, b):
    ta, tb, k = common(a, b)
    if k == "bool":
        ta, tb = term(ta, "int"), term(tb, "int")
        k = "int"
    if const_value(tb) == 0:
        raise ZeroDivisionError()
    if const_value(tb) is None and CTX.branch(tb == 0):
        raise ZeroDivisionError()
    if k == "int":
        # z3 div is Euclidean; floor for positive divisor
        c = const_value(tb)
        if c is not None and c > 0:
            return mk(ta / tb)
        return mk(z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    return mk(z3.ToReal(z3.ToInt(ta / tb)))


def pymod(a, b):
    ta, tb, k = common(a, b)
    if k == "bool":
        ta, tb = term(ta, "int"), term(tb, "int")
        k = "int"
    if const_value(tb) == 0:
        raise ZeroDivisionError()
    if const_value(tb) is None and CTX.branch(tb == 0):
        raise ZeroDivisionError()
    if k == "int":
        c = const_value(tb)
        if c is not None and c > 0:
            return mk(ta % tb)
        return mk(ta - tb * z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    return mk(ta - tb * z3.ToReal(z3.ToInt(ta / tb)))


def power(a, b):
    if isinstance(b, Sym):
        c = const_value(z3.simplify(b.t))
        if c is None:
            raise Unsupported("symbolic exponent")
        b = c
    import numpy as np
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(b, (float, Fraction)) and b == int(b):
        r = power(term_as_real(a), int(b))
        return r
    if isinstance(b, int):
        if b == 0:
            return 1
        if 0 < b <= 6:
            r = a
            for _ in range(b - 1):
                r = r * a
            return r
        if b < 0:
            return div(1, power(a, -b))
    if b == 0.5 or b == Fraction(1, 2):
        return SQRT(a)
    raise Unsupported(f"power {b}")


def term_as_real(a):
    return mk(term(a, "real"))


def ite(c, a, b):
    """value-level if-then-else on scalars"""
    ct = term(c, "bool")
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b) and not isinstance(a, float) and not isinstance(b, float) and type(a) == type(b) and a == b:
        return a
    ta, tb, k = common(a, b)
    if ta.eq(tb):
        return mk(ta)
    return mk(z3.If(ct, ta, tb))


def smin(a, b):
    if inf_cmp("<", a, b) is True:
        return a
    if inf_cmp("<", a, b) is False and (not isinstance(a, Sym) or not isinstance(b, Sym)) and inf_cmp("<", b, a) is True:
        return b
    return ite(mk_bool(b < a), b, a)


def smax(a, b):
    if inf_cmp(">", a, b) is True:
        return a
    if inf_cmp(">", b, a) is True:
        return b
    return ite(mk_bool(b > a), b, a)


def mk_bool(v):
    return v


# ---------------------------------------------------------------- uninterpreted maths
def _uf(name, *sorts):
    return z3.Function(name, *sorts)


R = z3.RealSort()
I = z3.IntSort()
_sqrt = _uf("sqrt", R, R)
_cos = _uf("cos", R, R)
_sin = _uf("sin", R, R)
_atan2 = _uf("atan2", R, R, R)


def SQRT(a):
    import math
    if is_num(a):
        return math.sqrt(a)
    t = term(a, "real")
    r = _sqrt(t)
    CTX.oblige("sqrt-argument-nonnegative", t >= 0)
    CTX.fact(z3.And(r >= 0, r * r == t))
    CTX.trust("math.sqrt/np.sqrt: r >= 0 and r*r == x")
    return mk(r)


def COS(a):
    import math
    if is_num(a):
        return math.cos(a)
    t = term(a, "real")
    CTX.fact(_cos(t) * _cos(t) + _sin(t) * _sin(t) == 1)
    CTX.trust("cos/sin: cos^2+sin^2 == 1 (uninterpreted otherwise)")
    return mk(_cos(t))


def SIN(a):
    import math
    if is_num(a):
        return math.sin(a)
    t = term(a, "real")
    CTX.fact(_cos(t) * _cos(t) + _sin(t) * _sin(t) == 1)
    CTX.trust("cos/sin: cos^2+sin^2 == 1 (uninterpreted otherwise)")
    return mk(_sin(t))


PI = Fraction(3.141592653589793)


def ATAN2(y, x):
    import math
    if is_num(y) and is_num(x):
        return math.atan2(y, x)
    ty, tx = term(y, "real"), term(x, "real")
    r = _atan2(ty, tx)
    n = SQRT(mk(tx * tx + ty * ty))
    nt = term(n, "real")
    CTX.fact(z3.And(r > -z3.RealVal(PI), r <= z3.RealVal(PI)))
    CTX.fact(z3.And(nt * _cos(r) == tx, nt * _sin(r) == ty))
    CTX.fact(_cos(r) * _cos(r) + _sin(r) * _sin(r) == 1)
    CTX.trust("np.arctan2: value in (-pi,pi], r*cos == x, r*sin == y")
    return mk(r)


def ROUND(a, nd=None):
    if is_num(a):
        return round(a, nd) if nd is not None else round(a)
    t = term(a)
    if kind_of(t) == "int":
        return a
    if nd is None:
        r = CTX.fresh("round", "int")
        rt = z3.ToReal(term(r))
        CTX.fact(z3.And(rt - t <= z3.RealVal("1/2"), t - rt <= z3.RealVal("1/2")))
        return r
    f = _uf(f"round{int(nd)}", R, R)
    if z3.is_app(t) and t.decl().eq(f):
        return a  # rounding twice is rounding once
    r = f(t)
    eps = z3.RealVal(Fraction(1, 2 * 10 ** int(nd)))
    CTX.fact(z3.And(r - t <= eps, t - r <= eps, z3.Implies(t == 0, r == 0)))
    CTX.trust(f"round(x,{nd}): |round(x)-x| <= 0.5e-{nd}")
    return mk(r)


# ---------------------------------------------------------------- facts & context
class Fact:
    """forall vars. body  (body already includes guards)"""

    __slots__ = ("vars", "body", "pats", "tag", "about")

    def __init__(self, vars, body):
        self.vars = vars
        self.body = body
        self.pats = None
        self.about = None
        self.tag = None


class Generic:
    """an arbitrary index currently in scope"""

    def __init__(self, var, guards):
        self.var = var
        self.guards = guards


class Explorer:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trail = []  # list of (cond, taken, other_open)


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []  # path condition: z3 Bools (local to the current path)
        self.facts = []  # Fact list (local to the current path)
        self.generics = []  # Generic stack
        self.explorers = []
        self.names = itertools.count()
        self.name_map = {}
        self.birth = {}
        self.obligations = []  # raw (label, goal, pc, facts, generics)
        self.allow_hash = False
        self.numpy_div = 0
        self.trusted = set()
        self.query_timeout = 4000
        self.deadline = None
        self.drawn = {}
        self._chk_cache = {}
        self.native_calls = set()
        self.inlined = set()
        self.contract_calls = set()
        self.loops = set()
        self.bounds = set()

    def trust(self, s):
        self.trusted.add(s)

    # ---- fresh symbols
    def fresh_name(self, base):
        n = self.name_map.get(base, 0)
        self.name_map[base] = n + 1
        nm = f"{base}!{n}"
        self.birth[nm] = len(self.birth)
        return nm

    def fresh_term(self, base, sort):
        nm = self.fresh_name(base)
        if self.generics:
            f = z3.Function(nm, *[g.var.sort() for g in self.generics], sort)
            return f(*[g.var for g in self.generics])
        return z3.Const(nm, sort)

    def fresh(self, base, kind):
        sort = {"int": I, "real": R, "bool": z3.BoolSort()}.get(kind, kind)
        return Sym(self.fresh_term(base, sort))

    def fresh_fun(self, base, nargs, kind):
        """UF of nargs extra int arguments (plus generics): returns callable on z3 terms"""
        sort = {"int": I, "real": R, "bool": z3.BoolSort()}.get(kind, kind)
        nm = self.fresh_name(base)
        gens = [g.var for g in self.generics]
        f = z3.Function(nm, *[g.sort() for g in gens], *([I] * nargs), sort)
        if not gens and nargs == 0:
            c = z3.Const(nm, sort)
            return lambda: c
        return lambda *a: f(*gens, *a)

    # ---- facts
    def fact(self, body, vars=()):
        gens = list(self.generics)
        gv = [g.var for g in gens]
        guards = [x for g in gens for x in g.guards]
        allv = gv + list(vars)
        if guards:
            body = z3.Implies(z3.And(*guards), body)
        if z3.is_true(body) or z3.is_true(z3.simplify(body)):
            return
        if allv:
            # keep only the variables that occur
            occ = [v for v in allv if occurs(body, v)]
            self.facts.append(Fact(occ, body))
        else:
            self.facts.append(Fact([], body))

    def guard_now(self):
        return [x for g in self.generics for x in g.guards]

    def assume(self, cond):
        """assume z3 Bool (path-local)"""
        if z3.is_true(cond):
            return
        if self.generics:
            # inside a generic body: a branch condition, part of the generic's guards
            self.generics[-1].guards.append(cond)
        else:
            self.pc.append(cond)

    # ---- branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond) if z3.is_expr(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.explorers:
            raise Unsupported("branch on symbolic value outside exploration")
        ex = self.explorers[-1]
        k = len(ex.trail)
        if k < len(ex.prefix):
            taken = ex.prefix[k]
            ex.trail.append((taken, False))
            self.assume(cond if taken else z3.Not(cond))
            return taken
        self.check_deadline()
        st = self.feasible(cond)
        if not st:
            sf = self.feasible(z3.Not(cond))
            if not sf:
                raise Infeasible()
            ex.trail.append((False, False))
            self.assume(z3.Not(cond))
            return False
        sf = self.feasible(z3.Not(cond))
        ex.trail.append((True, sf))
        self.assume(cond)
        return True

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def feasible(self, cond):
        """quick check; unknown counts as feasible"""
        fs = self.pc + self.guard_now() + [cond]
        slow = getattr(self, "slow", 0)
        r = solve(fs, self.facts, timeout=1500 if slow < 8 else 200, rounds=1, cap=120)
        if r[0] == z3.unknown:
            self.slow = slow + 1
        return r[0] != z3.unsat

    # ---- obligations
    def oblige(self, label, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            return
        self.obligations.append(
            (label, goal, list(self.pc), list(self.facts), self.guard_now())
        )
        # once obliged, it may be relied upon afterwards
        self.fact(goal)


CTX = Ctx()


_occ_cache = {}


def occurs(t, v):
    key = (t.get_id(), v.get_id())
    stack, seen = [t], set()
    vid = v.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


# ---------------------------------------------------------------- quantifier instantiation
_INFO = {}  # id -> (term, name or None, child ids, is int constant)
_APPS = {}  # formula id -> [ids of uninterpreted applications], [ids of int constants]
_SIMP = {}


def clear_caches():
    _INFO.clear()
    _APPS.clear()
    _SYMS.clear()
    _SIMP.clear()


def _info(x):
    i = x.get_id()
    r = _INFO.get(i)
    if r is None:
        name, ch, isint = None, (), False
        if z3.is_app(x):
            cs = x.children()
            ch = tuple(_info(c) for c in cs)
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if cs:
                    name = d.name()
                else:
                    isint = x.sort() == I
        r = _INFO[i] = (x, name, ch, isint)
    return i


def _occurrences(f):
    """(ids of uninterpreted applications, ids of integer constants) of a formula"""
    fi = _info(f)
    r = _APPS.get(fi)
    if r is None:
        apps, ints, seen, stack = [], [], set(), [fi]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            _, name, ch, isint = _INFO[i]
            if name is not None:
                apps.append(i)
                if name == "hinted":
                    ints.append(ch[0])
            elif isint:
                ints.append(i)
            stack.extend(ch)
        r = _APPS[fi] = (apps, ints)
    return r


def _simp(f):
    k = _info(f)
    r = _SIMP.get(k)
    if r is None:
        r = z3.simplify(f, arith_lhs=False)
        _info(r)
        _SIMP[k] = r
    return r


def _patterns(f):
    """list of candidate patterns: each a list of (function name, [(arg position, var index, offset)])
    that together cover the bound vars with simple (var or var+-const) arguments"""
    if f.pats is not None:
        return f.pats
    apps, _ = _occurrences(f.body)
    vids = {v.get_id(): k for k, v in enumerate(f.vars)}
    cands, dup = [], set()
    for i in apps:
        a, name, ch, _ = _INFO[i]
        args = []
        for pos, c in enumerate(ch):
            sh = _shape(_INFO[c][0], vids)
            if sh is not None and sh[0] == "v":
                args.append((pos,) + sh[1:])
        if args:
            key = (name, tuple((p, k, None if o is None else o.get_id(), c) for p, k, o, c in args))
            if key in dup:
                continue
            dup.add(key)
            cands.append((name, args, {x[1] for x in args}))
    full = [[(n, a)] for n, a, cov in cands if len(cov) == len(f.vars)]
    if full:
        f.pats = full[:10]
        return f.pats
    res = []
    for x, y in itertools.combinations(cands, 2):
        if len(x[2] | y[2]) == len(f.vars):
            res.append([x[:2], y[:2]])
            if len(res) > 6:
                break
    if not res and len(f.vars) >= 3:
        for combo in itertools.combinations(cands, 3):
            if len(set().union(*[c[2] for c in combo])) == len(f.vars):
                res.append([c[:2] for c in combo])
                if len(res) > 4:
                    break
    f.pats = res
    return res


def _shape(arg, vids):
    """('v', k, offset, coef) if arg is coef*var + offset with a ground offset ; ('g', arg) if ground ; None otherwise"""
    i = arg.get_id()
    if i in vids:
        return ("v", vids[i], None, 1)
    has = [v for v in vids if _occ_id(arg, v)]
    if not has:
        return ("g", arg)
    if len(has) > 1 or arg.sort() != I:
        return None

    def mono(a):
        """coef if a is coef*var"""
        if a.get_id() in vids:
            return 1
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(1).get_id() in vids:
            return a.arg(0).as_long()
        return None
    m = mono(arg)
    if m is not None:
        return ("v", vids[has[0]], None, m)
    if z3.is_add(arg) or z3.is_sub(arg):
        ch = arg.children()
        rest, coef = [], None
        for n, a in enumerate(ch):
            if _occ_id(a, has[0]):
                m = mono(a)
                if m is None or coef is not None or (z3.is_sub(arg) and n > 0):
                    return None
                coef = m
            else:
                rest.append(-a if (z3.is_sub(arg) and n > 0) else a)
        if coef is not None and rest:
            return ("v", vids[has[0]], z3.simplify(sum(rest[1:], rest[0])), coef)
    return None


def _divide(t, c):
    """t / c for a linear integer term whose coefficients are all multiples of c, else None"""
    t = z3.simplify(t)
    parts = t.children() if z3.is_add(t) else [t]
    res = []
    for a in parts:
        if z3.is_int_value(a):
            if a.as_long() % c:
                return None
            res.append(z3.IntVal(a.as_long() // c))
        elif z3.is_mul(a) and z3.is_int_value(a.arg(0)):
            k = a.arg(0).as_long()
            if k % c:
                return None
            rest = a.children()[1:]
            m = rest[0]
            for x in rest[1:]:
                m = m * x
            res.append(z3.IntVal(k // c) * m)
        else:
            return None
    return z3.simplify(sum(res[1:], res[0]))


def _occ_id(t, vid):
    stack, seen = [_info(t)], set()
    while stack:
        i = stack.pop()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(_INFO[i][2])
    return False


def _match(args, ch, bind):
    """extend bind so that the pattern arguments equal the ground arguments"""
    bind = dict(bind)
    for pos, k, off, coef in args:
        g = _INFO[ch[pos]][0]
        val = _simp(g) if off is None else _simp(g - off)
        if coef != 1:
            val = _divide(val, coef)
            if val is None:
                return None
            val = _simp(val)
        if k in bind:
            if not bind[k].eq(val):
                d = z3.simplify(bind[k] - val) if val.sort() == I else None
                if d is None or not (z3.is_int_value(d) and d.as_long() == 0):
                    return None
        else:
            bind[k] = val
    return bind


def instantiate(base, facts, rounds=3, cap=600):
    """ground instances of the quantified facts relevant to the ground formulas `base`"""
    ground = list(base)
    quant = []
    for f in facts:
        if f.vars:
            quant.append(f)
        else:
            ground.append(f.body)
    out, outids = [], set()
    apps, seen_apps, ints = {}, set(), {}

    def add(g):
        if z3.is_true(g):
            return False
        i = _info(g)
        if i in outids:
            return False
        outids.add(i)
        out.append(g)
        return True

    def register(g):
        aps, its = _occurrences(g)
        for i in aps:
            if i not in seen_apps:
                seen_apps.add(i)
                apps.setdefault(_INFO[i][1], []).append(i)
        for i in its:
            ints.setdefault(i, _INFO[i][0])

    for g in ground:
        g = _simp(g)
        if add(g):
            register(g)
    done = set()
    total = 0
    # matches already tried: per fact and pattern element, number of ground apps consumed
    for r in range(rounds):
        new = []
        for qi, f in enumerate(quant):
            pats = _patterns(f)
            nv = len(f.vars)
            binds = {}
            for pat in pats:
                bs = [{}]
                for name, args in pat:
                    nb = []
                    for b in bs:
                        for gi in apps.get(name, ()):
                            m = _match(args, _INFO[gi][2], b)
                            if m is not None:
                                nb.append(m)
                        if len(nb) > 400:
                            break
                    bs = nb
                for b in bs:
                    if len(b) == nv:
                        binds[tuple(b[k].get_id() for k in range(nv))] = b
            if (not pats) and nv == 1 and r == 0:
                for iv in list(ints.values())[:12]:
                    binds[(iv.get_id(),)] = {0: iv}
            for key, b in binds.items():
                if (qi, key) in done:
                    continue
                done.add((qi, key))
                total += 1
                if total > cap:
                    break
                inst = z3.simplify(z3.substitute(f.body, *[(f.vars[k], b[k]) for k in range(nv)]), arith_lhs=False)
                if add(inst):
                    new.append(inst)
            if total > cap:
                break
        if not new:
            break
        for g in new:
            register(g)
        if total > cap:
            break
    return out


_SYMS = {}


def _symbols(f):
    """names of uninterpreted symbols of a formula"""
    fi = _info(f)
    r = _SYMS.get(fi)
    if r is None:
        r, seen, stack = set(), set(), [fi]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            x, name, ch, _ = _INFO[i]
            if name is not None:
                r.add(name)
            elif not ch and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            stack.extend(ch)
        _SYMS[fi] = r
    return r


def _about(f):
    """the symbols a fact defines or constrains"""
    if f.about is not None:
        return f.about
    body = f.body
    while z3.is_app(body) and body.decl().kind() == z3.Z3_OP_IMPLIES:
        body = body.arg(1)
    out = set()
    for c in (body.children() if z3.is_and(body) else [body]):
        while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_IMPLIES:
            c = c.arg(1)
        if z3.is_not(c):
            c = c.arg(0)
        k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            for h in c.children():
                if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(h.decl().name())
        elif k == z3.Z3_OP_UNINTERPRETED:
            out.add(c.decl().name())
    bound = {v.decl().name() for v in f.vars}
    out -= bound
    syms = _symbols(f.body) - bound
    order = CTX.birth
    fresh = [x for x in syms if x in order]
    if fresh:
        out.add(max(fresh, key=lambda x: order[x]))
    else:
        out |= syms
    f.about = out
    return out


def cone(seeds, facts):
    """facts relevant to the symbols of the seed formulas"""
    have = set()
    for g in seeds:
        have |= _symbols(g)
    rest = list(facts)
    keep = []
    while True:
        nxt = []
        grew = False
        for f in rest:
            if f.tag == "hint" or _about(f) & have:
                keep.append(f)
                have |= _symbols(f.body)
                grew = True
            else:
                nxt.append(f)
        rest = nxt
        if not grew:
            return keep


def whole(t):
    """the integer term a real-sorted sum of whole numbers stands for, or the term itself"""
    if z3.is_int(t):
        return t
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
        first = 1 if k == z3.Z3_OP_ITE else 0
        ch = [whole(c) for c in t.children()[first:]]
        if all(z3.is_int(c) for c in ch):
            if k == z3.Z3_OP_ITE:
                return z3.If(t.arg(0), *ch)
            if k == z3.Z3_OP_ADD:
                return z3.Sum(*ch)
            if k == z3.Z3_OP_UMINUS:
                return -ch[0]
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
    return t


def linearised(fs):
    """the formulas with products and quotients of unknowns replaced by constants (a weaker set of formulas)"""
    memo, table = {}, {}

    def go(x):
        i = x.get_id()
        r = memo.get(i)
        if r is not None:
            return r[1]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            k = x.decl().kind()
            r = None
            if k == z3.Z3_OP_MUL:
                num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                var = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
                if len(var) > 1:
                    key = ("*",) + tuple(sorted(c.get_id() for c in var))
                    if key not in table:
                        table[key] = (z3.FreshConst(x.sort(), "prod"), var)
                    r = table[key][0]
                    for c in num:
                        r = c * r
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                key = (k, ch[0].get_id(), ch[1].get_id())
                if key not in table:
                    table[key] = (z3.FreshConst(x.sort(), "quot"), ch)
                r = table[key][0]
            elif k == z3.Z3_OP_POWER:
                key = (k,) + tuple(c.get_id() for c in ch)
                if key not in table:
                    table[key] = (z3.FreshConst(x.sort(), "pow"), ch)
                r = table[key][0]
            if r is None:
                r = x.decl()(*ch)
        memo[i] = (x, r)
        return r
    out = [go(z3.simplify(f, som=True)) for f in fs]
    # products that differ in one factor: equal or ordered factors give equal or ordered products
    prods = [(p, vs) for k, (p, vs) in table.items() if k[0] == "*" and len(vs) <= 4]
    n = 0
    for i, (p, vs) in enumerate(prods):
        for q, ws in prods[i + 1:]:
            if len(vs) != len(ws) or not p.sort().eq(q.sort()):
                continue
            rest, left = list(ws), []
            for v in vs:
                j = next((j for j, w in enumerate(rest) if w.eq(v)), None)
                if j is None:
                    left.append(v)
                else:
                    rest.pop(j)
            if len(left) != 1 or len(rest) != 1 or n >= 300:
                continue
            n += 1
            a, b = left[0], rest[0]
            out.append(z3.Implies(a == b, p == q))
            if len(vs) == 2:
                x = next(v for v in vs if not v.eq(a)) if not vs[0].eq(vs[1]) else a
                out.append(z3.Implies(z3.And(x >= 0, a <= b), p <= q))
                out.append(z3.Implies(z3.And(x >= 0, a >= b), p >= q))
                out.append(z3.Implies(z3.And(x <= 0, a <= b), p >= q))
                out.append(z3.Implies(z3.And(x <= 0, a >= b), p <= q))
    return out


def solve(formulas, facts, timeout=4000, rounds=3, cap=600, want_model=False, tactics=None, linear=False, seed=0, fs=None):
    """(result, model or None)"""
    if fs is None:
        fs = instantiate(formulas, facts, rounds, cap)
        if linear:
            fs = linearised(fs)
    s = z3.Solver() if tactics is None else tactics
    s.set("timeout", int(timeout))
    if seed:
        s.set("random_seed", seed)
        s.set("arith.nl.branching", False)
        fs = list(fs)
        random.Random(seed).shuffle(fs)
    for f in fs:
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    _TOT["queries"] += 1
    _TOT["time"] += time.time() - t
    if r == z3.unknown:
        _TOT["unknown"] += 1
    return r, (s.model() if r == z3.sat and want_model else None), fs


# ---------------------------------------------------------------- exploration
def explore(run, max_paths=400, on_path=None):
    """run() is re-executed for each decision prefix. Yields (outcome, value) per feasible path by calling
    on_path inside the path context; top-level only (state is rebuilt by run())."""
    pending = [[]]
    n = 0
    results = []
    while pending:
        prefix = pending.pop()
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        ex = Explorer(prefix)
        CTX.explorers.append(ex)
        npc, nf = len(CTX.pc), len(CTX.facts)
        gsave = [list(g.guards) for g in CTX.generics]
        try:
            try:
                results.append(run())
            except Infeasible:
                pass
            for k in range(len(prefix), len(ex.trail)):
                taken, other = ex.trail[k]
                if other:
                    pending.append([t for t, _ in ex.trail[:k]] + [not taken])
        finally:
            CTX.explorers.pop()
            del CTX.pc[npc:]
            del CTX.facts[nf:]
            for g, s in zip(CTX.generics, gsave):
                g.guards[:] = s
    return results
