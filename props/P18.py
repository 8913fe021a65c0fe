"""P18  Star set operations are exact."""
import itertools
from contextlib import contextmanager
from types import SimpleNamespace

import numpy as np
import z3

from pyvc.contract import Contract, Prop
from pyvc.core import CTX, Sym, mk, term, truth

Q = "verse.stars.starset."
TOL = 1e-6


def mod():
    import verse.stars.starset as m
    return m


def star_cls():
    return mod().StarSet


def arr(S, x):
    return np.array(x, dtype=object) if S.sym else np.array(x, dtype=float)


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


class Raw:
    """what a star set is made of"""

    def __init__(self, center, basis, C, g):
        self.center, self.basis, self.C, self.g = center, basis, C, g

    def at(self, alpha):
        return [c + dot(alpha, [v[i] for v in self.basis]) for i, c in enumerate(self.center)]

    def pred(self, S, alpha):
        return S.And(*[S.le(dot(row, alpha), b, TOL) for row, b in zip(self.C, self.g)])

    def make(self, S):
        return star_cls()(arr(S, self.center), arr(S, self.basis), arr(S, self.C), arr(S, self.g))


def raw_of(star):
    return Raw(list(star.center), [list(v) for v in star.basis], [list(r) for r in star.C], list(star.g))


def draw(S, name="", n=None, m=None, rows=None, nonempty=True):
    """any star set; in runs, a box predicate with extra half-spaces through it"""
    n = n or S.choice(name + "n", [2, 1, 3])
    m = m or S.choice(name + "m", [2, 1, 3])
    c = [S.real(f"{name}c{i}", rand=(-3, 3)) for i in range(n)]
    B = [[S.real(f"{name}v{j}{i}", rand=(-2, 2)) for i in range(n)] for j in range(m)]
    if S.sym:
        r = rows or S.choice(name + "rows", [2, 1])
        C = [[S.real(f"{name}C{k}{j}") for j in range(m)] for k in range(r)]
        return Raw(c, B, C, [S.real(f"{name}g{k}") for k in range(r)])
    C, g = [], []
    mid = [S.real(f"{name}mid{j}", rand=(-2, 2)) for j in range(m)]
    for j in range(m):
        e = [1.0 if q == j else 0.0 for q in range(m)]
        w = S.real(f"{name}w{j}", 0.05, 1.5)
        C += [e, [-x for x in e]]
        g += [mid[j] + w, w - mid[j]]
    for k in range(S.choice(name + "more", [0, 1, 2])):
        row = [S.real(f"{name}h{k}{j}", rand=(-1, 1)) for j in range(m)]
        C.append(row)
        g.append(dot(row, mid) + S.real(f"{name}hs{k}", 0, 0.6))
    return Raw(c, B, C, g)


def member(S, raw, name="a", inside=True):
    """coordinates of a member (prove: arbitrary ones, assumed to satisfy the predicate)"""
    m = len(raw.basis)
    if S.sym:
        a = [S.real(f"{name}{j}") for j in range(m)]
        if inside:
            S.assume(raw.pred(S, a))
        return a
    # a point of the box predicate, pulled to its middle until the other half-spaces hold
    lo, hi = [-raw.g[2 * j + 1] for j in range(m)], [raw.g[2 * j] for j in range(m)]
    mid = [(x + y) / 2 for x, y in zip(lo, hi)]
    a = [x + S.real(f"{name}{j}", 0, 1) * (y - x) for j, (x, y) in enumerate(zip(lo, hi))]
    if not inside:
        return [q + S.choice(f"{name}far{j}", [0, 0, 1, -2]) for j, q in enumerate(a)]
    for _ in range(40):
        if all(dot(row, a) <= b for row, b in zip(raw.C, raw.g)):
            return a
        a = [q + 0.5 * (p - q) for q, p in zip(a, mid)]
    return mid


# ------------------------------------------------------------------ contracts of the solvers used
class LP:
    """scipy.optimize.linprog: a feasible optimum, or a proof that there is none (status 2).  Bounded problems only."""

    def __init__(self, S, tests):
        self.S, self.tests, self.k = S, tests, 0

    def __call__(self, c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), **kw):
        S = self.S
        c = list(np.asarray(c, dtype=object).flatten())
        m = len(c)
        rows = []
        for A, b, eq in ((A_ub, b_ub, False), (A_eq, b_eq, True)):
            if A is None:
                continue
            A = np.asarray(A, dtype=object)
            if A.ndim != 2 or A.shape[1] != m or len(b) != len(A):
                raise ValueError("Invalid input for linprog")
            rows += [(list(r), x, eq) for r, x in zip(A, np.asarray(b, dtype=object).flatten())]
        if isinstance(bounds, tuple) and len(bounds) == 2 and not isinstance(bounds[0], (tuple, list)):
            bounds = [bounds] * m
        self.k += 1
        k = self.k

        def ok(x):
            t = True
            for r, b, eq in rows:
                t = S.And(t, S.eq(dot(r, x), b) if eq else S.le(dot(r, x), b))
            for v, (lo, hi) in zip(x, bounds):
                t = S.And(t, lo is None or S.le(lo, v), hi is None or S.le(v, hi))
            return t
        if S.choice(f"lp{k}", [True, False]):
            x = [S.real(f"lp{k}_{j}") for j in range(m)]
            S.assume(ok(x))
            for t in self.tests:
                if len(t) == m:
                    S.assume(S.implies(ok(t), S.le(dot(c, x), dot(c, t))))
            return SimpleNamespace(status=0, success=True, x=np.array(x, dtype=object), fun=dot(c, x))
        for t in self.tests:
            if len(t) == m:
                S.assume(S.Not(ok(t)))
        return SimpleNamespace(status=2, success=False, x=None, fun=None)


class Z3:
    """a solver that decides its constraints: sat with some values of its variables, or unsat for all of them"""

    def __init__(self, S, tests):
        self.S, self.tests, self.vars, self.cs = S, tests, [], []

    def Real(self, name):
        v = self.S.real(f"z3 {name}")
        self.vars.append(v)
        return v

    def RealVector(self, name, n):
        return [self.Real(f"{name}__{i}") for i in range(n)]

    def Solver(self):
        return self

    def add(self, *cs):
        self.cs += cs

    def formula(self, values=None):
        f = z3.And(*[truth(c) if isinstance(c, Sym) else z3.BoolVal(bool(c)) for c in self.cs])
        if values is not None:
            f = z3.substitute(f, *[(v.t, term(x, "real")) for v, x in zip(self.vars, values)])
        return mk(f)

    def check(self):
        if self.S.choice("sat", [True, False]):
            self.S.assume(self.formula())
            return self.sat
        for t in self.tests:
            for p in itertools.permutations(t):
                if len(p) == len(self.vars):
                    self.S.assume(self.S.Not(self.formula(p)))
        return self.unsat
    sat, unsat = z3.sat, z3.unsat


@contextmanager
def solvers(S, tests):
    """stand-ins obeying the contracts above; tests: the points at which 'for all' is needed"""
    m = mod()
    if not S.sym:
        yield None
        return
    z = Z3(S, tests)
    new = {"linprog": LP(S, tests), "Real": z.Real, "RealVector": z.RealVector, "Solver": z.Solver, "sat": z.sat, "print": lambda *a, **k: None}
    old = {k: m.__dict__.get(k) for k in new}
    m.__dict__.update(new)
    try:
        yield z
    finally:
        for k, v in old.items():
            if v is None:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


# ------------------------------------------------------------------ operations
def same_points(S, label, new, old, alpha, image):
    """the member with coordinates alpha of `new` is the image of that of `old`"""
    S.check(label + ": one basis vector per coordinate", len(new.basis) == len(old.basis))
    for x, y in zip(new.at(alpha), image):
        S.check(label + ": a member is the image of a member", S.eq(x, y, 1e-5))
    S.check(label + ": exactly the images of members", iff(S, new.pred(S, alpha), old.pred(S, alpha)))


def iff(S, a, b):
    return S.And(S.implies(a, b), S.implies(b, a))


def affine(S, n):
    M = [[S.real(f"M{i}{j}", rand=(-2, 2)) for j in range(n)] for i in range(n)]
    t = [S.real(f"t{i}", rand=(-2, 2)) for i in range(n)]
    return lambda x: [dot(r, x) + d for r, d in zip(M, t)]


def images(S):
    """affine maps: advancing by an affine flow, resets, new centre and basis"""
    raw = draw(S)
    n, m = len(raw.center), len(raw.basis)
    st, f = raw.make(S), affine(S, n)
    a = member(S, raw, inside=False)
    op = S.choice("op", ["post_cont", "apply_reset", "tube", "superposition", "copy"])
    img = f(raw.at(a))
    if op == "post_cont":
        new = S.native(star_cls().post_cont, st, lambda x, t: arr(S, f(list(x))), 1.0)
    elif op == "apply_reset":
        new = S.native(star_cls().apply_reset, st, lambda x, e, v: arr(S, f(list(x))), ["e"], ["v"])
    elif op == "tube":
        def sim(mode, x, T, h, lane_map=None):
            y = f(list(x))
            return arr(S, [[0.0] + list(x), [0.1] + y, [0.2] + f(y)])
        tube = S.native(star_cls().calc_reach_tube_linear, st, "m", 0.2, 0.1, sim, None)
        S.check("one star set per sample", len(tube) == 3)
        k = S.choice("sample", [0, 1, 2])
        S.check("time stamps of the samples", S.eq(tube[k][0], [0.0, 0.1, 0.2][k]))
        new, img = tube[k][1], [raw.at(a), img, f(img)][k]
    elif op == "superposition":
        o = raw.at([0] * m)
        fc = f(o)
        new = S.native(star_cls().superposition, st, arr(S, fc), arr(S, [[y - x for x, y in zip(fc, f([p + q for p, q in zip(o, v)]))] for v in raw.basis]))
    else:
        new, img = S.native(S.choice("copier", [star_cls().copy, star_cls().starcopy]), st), raw.at(a)
    same_points(S, "image", raw_of(new), raw, a, img)
    same_points(S, "the set itself is left alone", raw_of(st), raw, a, raw.at(a))


def intersections(S):
    raw = draw(S)
    n = len(raw.center)
    st = raw.make(S)
    a = member(S, raw, inside=False)
    k = 1 if S.sym else S.choice("halfspaces", [1, 2])
    op = S.choice("op", ["poly", "halfspace", "new"])
    if op == "poly" and S.sym:
        k = S.choice("halfspaces", [1, 2])
    if op != "poly":
        k = 1
    A = [[S.real(f"A{q}{i}", rand=(-2, 2)) for i in range(n)] for q in range(k)]
    b = [S.real(f"b{q}", rand=(-4, 4)) for q in range(k)]
    x = raw.at(a)
    for r, d in zip(A, b):
        if not S.sym and abs(dot(r, x) - d) < 1e-4:
            return  # on the boundary, up to rounding
    new = st
    if op == "poly":
        S.native(star_cls().intersection_poly, st, arr(S, A), arr(S, b))
    elif op == "halfspace":
        S.native(star_cls().intersection_halfspace, st, arr(S, A[0]), b[0])
    else:
        new = S.native(star_cls().get_halfspace_intersection, st, arr(S, A[0]), b[0])
        same_points(S, "the set itself is left alone", raw_of(st), raw, a, x)
    got = raw_of(new)
    S.check("same coordinates", len(got.basis) == len(raw.basis))
    for u, v in zip(got.at(a), x):
        S.check("points keep their coordinates", S.eq(u, v))
    S.check("exactly the members in the half-spaces", iff(S, got.pred(S, a), S.And(raw.pred(S, a), *[S.le(dot(r, x), d) for r, d in zip(A, b)])))


def bounding(S):
    raw = draw(S)
    n = len(raw.center)
    st, a = raw.make(S), member(S, raw)
    x = raw.at(a)
    with solvers(S, [a]):
        if S.bool("one"):
            i = S.choice("dim", list(range(n)))
            lo, hi = S.native(star_cls().get_max_min, st, i)
            box = {i: (lo, hi)}
        else:
            lo, hi = S.native(star_cls().overapprox_rectangle, st)
            S.check("one range per dimension", len(lo) == n and len(hi) == n)
            box = {i: (lo[i], hi[i]) for i in range(n)}
    for i, (l, h) in box.items():
        S.check("the bounding box contains every member", S.And(S.le(l, x[i], TOL), S.le(x[i], h, TOL)))
    if S.sym:
        w = [[S.real(f"lp{k}_{j}") for j in range(len(raw.basis))] for k in range(1, 2 * len(box) + 1)]
        for i, (l, h) in box.items():  # attained by members
            S.check("the bounding box is tight", S.And(S.Or(*[S.And(raw.pred(S, v), S.eq(raw.at(v)[i], l)) for v in w]), S.Or(*[S.And(raw.pred(S, v), S.eq(raw.at(v)[i], h)) for v in w])))
    else:
        from scipy.optimize import linprog
        for i, (l, h) in box.items():
            d = [v[i] for v in raw.basis]
            r = [linprog(s * np.array(d), A_ub=raw.C, b_ub=raw.g, bounds=(None, None)) for s in (1, -1)]
            S.check("the bounding box is tight", S.And(S.eq(l, raw.center[i] + r[0].fun, TOL), S.eq(h, raw.center[i] - r[1].fun, TOL)))


def emptiness(S):
    raw = draw(S)
    if not S.sym and S.bool("cut"):  # cut away everything, or all but a corner
        k = S.choice("by", [0.5, -0.5])
        raw.C.append([1.0] + [0.0] * (len(raw.basis) - 1))
        raw.g.append(-raw.g[1] - k)
    st, a = raw.make(S), member(S, raw, inside=False)
    with solvers(S, [a]):
        e = S.native(star_cls().is_empty, st)
    if e:
        S.check("a set reported empty has no members", S.Not(raw.pred(S, a)) if S.sym else not feasible(raw))
    elif S.sym:
        S.check("a set not reported empty has a member", raw.pred(S, [S.real(f"lp1_{j}") for j in range(len(raw.basis))]))
    else:
        S.check("a set not reported empty has a member", feasible(raw, 1e-6))


def feasible(raw, slack=-1e-6):
    s = z3.Solver()
    a = [z3.Real(f"a{j}") for j in range(len(raw.basis))]
    for r, b in zip(raw.C, raw.g):
        s.add(z3.Sum([z3.RealVal(repr(float(x))) * y for x, y in zip(r, a)]) <= z3.RealVal(repr(float(b) + slack)))
    return s.check() == z3.sat


def inclusion(S):
    """satisfies: the whole set lies in the half-space"""
    raw = draw(S)
    n = len(raw.center)
    st, a = raw.make(S), member(S, raw)
    v = [S.real(f"A{i}", rand=(-2, 2)) for i in range(n)]
    b = S.real("b", rand=(-6, 6))
    with solvers(S, [a]):
        r = S.native(star_cls().satisfies, st, arr(S, v), b)
    if r:
        S.check("a set said to lie in a half-space has no member outside", S.le(dot(v, raw.at(a)), b, TOL))
    elif S.sym:
        w = [S.real(f"lp1_{j}") for j in range(len(raw.basis))]
        S.check("a set said not to lie inside has a member outside, or on the boundary", S.And(raw.pred(S, w), S.le(b, dot(v, raw.at(w)))))
    else:
        from scipy.optimize import linprog
        c = [dot(v, u) for u in raw.basis]
        top = dot(v, raw.center) - linprog(-np.array(c), A_ub=raw.C, b_ub=raw.g, bounds=(None, None)).fun
        S.check("a set said not to lie inside has a member outside, or on the boundary", S.le(b, top, 1e-5))
    same_points(S, "the set itself is left alone", raw_of(st), raw, a, raw.at(a))


def membership(S):
    raw = draw(S)
    n = len(raw.center)
    st = raw.make(S)
    op = S.choice("op", ["contains_point", "containment_poly", "add_constraints"])
    if S.sym:
        a = [S.real(f"a{j}") for j in range(len(raw.basis))]
        p = [S.real(f"p{i}") for i in range(n)]
        is_member = lambda v: S.And(raw.pred(S, v), *[S.eq(x, y) for x, y in zip(raw.at(v), p)])
        with solvers(S, [a]) as z:
            if op == "add_constraints":
                S.native(star_cls().add_constraints, st, z, list(p), "car")
                S.check("the constraints are membership", S.Or(*[iff(S, z.formula(), is_member(q)) for q in itertools.permutations(z.vars)]))
                return
            r = S.native(star_cls().contains_point, st, arr(S, p)) if op == "contains_point" else S.native(mod().containment_poly, st, arr(S, p))
        if r:
            S.check("a point said to be a member is one", S.Or(*[is_member(q) for q in itertools.permutations(z.vars)]))
        else:
            S.check("a point said not to be a member is not", S.Not(is_member(a)))
        return
    # exact numbers: points whose membership is clear, computed without rounding
    q = lambda x: round(x * 8) / 8
    raw = Raw([q(c) for c in raw.center], [[q(x) for x in v] for v in raw.basis], [[q(x) for x in r] for r in raw.C], [q(x) for x in raw.g])
    st = raw.make(S)
    a = [q(x) for x in member(S, raw, inside=False)]
    p = raw.at(a)
    if S.bool("off"):
        p = [x + S.choice(f"o{i}", [0, 0.5, -1]) for i, x in enumerate(p)]
    s, al = z3.Solver(), [z3.Real(f"al{j}") for j in range(len(raw.basis))]
    num = lambda x: z3.RealVal(repr(float(x)))
    s.add(*[z3.Sum([num(x) * y for x, y in zip(r, al)]) <= num(b) for r, b in zip(raw.C, raw.g)])
    s.add(*[num(c) + z3.Sum([num(v[i]) * y for v, y in zip(raw.basis, al)]) == num(p[i]) for i, c in enumerate(raw.center)])
    want = s.check() == z3.sat
    if op == "add_constraints":
        s2, xs = z3.Solver(), [z3.Real(f"x{i}") for i in range(n)]
        S.call(star_cls().add_constraints, st, s2, xs, "car")
        s2.add(*[x == num(y) for x, y in zip(xs, p)])
        r = s2.check() == z3.sat
    else:
        r = bool(S.call(Q + ("StarSet." if op == "contains_point" else "") + op, st, arr(S, p)))
    S.check("a point said to be a member is one", want or not r)
    S.check("a point said not to be a member is not", r or not want)


def box_poly(d):
    """polytope.box2poly: x <= upper, -x <= -lower"""
    n = len(d)
    I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    return SimpleNamespace(A=np.array(I + [[-x for x in r] for r in I], dtype=object), b=np.array([q[1] for q in d] + [-q[0] for q in d], dtype=object))


@contextmanager
def boxes(S):
    import polytope as pc
    old = pc.box2poly
    if S.sym:
        pc.box2poly = box_poly
    try:
        yield
    finally:
        pc.box2poly = old


def from_box(S):
    n = S.choice("n", [2, 1, 3])
    lo = [S.real(f"lo{i}", rand=(-4, 4)) for i in range(n)]
    hi = [x + S.real(f"w{i}", 0, None, rand=(0, 2)) for i, x in enumerate(lo)]
    with boxes(S):
        if S.bool("poly"):
            st = S.native(star_cls().from_poly, arr(S, box_poly(list(zip(lo, hi))).A), arr(S, box_poly(list(zip(lo, hi))).b))
        else:
            st = S.native(star_cls().rect_to_star, lo, hi)
    raw = raw_of(st)
    S.check("as many coordinates as dimensions", len(raw.basis) == n and len(raw.center) == n)
    a = [S.real(f"a{j}", rand=(-6, 6)) for j in range(n)]
    x = raw.at(a)
    near = not S.sym and any(min(abs(y - l), abs(y - h)) < 1e-6 for y, l, h in zip(x, lo, hi))
    inside = S.And(*[S.And(S.le(l, y), S.le(y, h)) for l, y, h in zip(lo, x, hi)])
    if not near:
        S.check("exactly the points of the box", iff(S, raw.pred(S, a), inside))
    y = [S.real(f"y{j}") for j in range(n)] if S.sym else [l + S.real(f"y{j}", 0, 1) * (h - l) for j, (l, h) in enumerate(zip(lo, hi))]
    if S.sym:  # every point has coordinates: those of the point itself, as the basis is the standard one
        for u, v in zip(raw.at(y), y):
            S.check("every point has coordinates", S.eq(u, v))
    else:
        c = np.linalg.lstsq(np.array(raw.basis).T, np.array(y) - np.array(raw.center), rcond=None)[0]
        S.check("every point has coordinates", bool(np.allclose(raw.at(list(c)), y, atol=1e-6)))
        S.check("every point of the box is a member", raw.pred(S, list(c)))


def combination(S):
    """combine_stars: the box hull of the members of all sets"""
    n = S.choice("n", [2, 1])
    raws = [draw(S, f"s{k}", n=n, m=S.choice(f"m{k}", [2, 1]) if not S.sym else 1 + k % 2, rows=1) for k in range(S.choice("sets", [2, 1]) if S.sym else S.choice("sets", [1, 2, 3]))]
    which = S.choice("of", list(range(len(raws))))
    ms = [member(S, r, f"a{k}") for k, r in enumerate(raws)]  # no set is empty
    a = ms[which]
    with solvers(S, ms), boxes(S):
        st = S.native(star_cls().combine_stars, [r.make(S) for r in raws])
    x = raws[which].at(a)
    got = raw_of(st)
    c = x if S.sym else list(np.linalg.lstsq(np.array(got.basis, dtype=float).T, np.array(x) - np.array(got.center, dtype=float), rcond=None)[0])
    for u, v in zip(got.at(c), x):
        S.check("a member has coordinates in the combination", S.eq(u, v, 1e-5))
    S.check("every member of every set is a member of the combination", got.pred(S, c))
    if not S.sym:
        lo, hi = S.call(star_cls().overapprox_rectangle, st)
        bs = [r.make(S).overapprox_rectangle() for r in raws]
        for i in range(n):
            S.check("the combination is the box around the sets", S.And(S.eq(lo[i], min(b[0][i] for b in bs), TOL), S.eq(hi[i], max(b[1][i] for b in bs), TOL)))


def furthest(S):
    """maximize: a member furthest in the direction"""
    raw = draw(S)
    n = len(raw.center)
    st, a = raw.make(S), member(S, raw)
    d = [S.real(f"d{i}", rand=(-1, 1)) for i in range(n)]
    with solvers(S, [a]):
        p = S.native(star_cls().maximize, st, arr(S, [[x] for x in d]))
    p = list(np.asarray(p).flatten())
    S.check("the furthest point has one value per dimension", len(p) == n)
    S.check("no member is further in the direction", S.le(dot(d, raw.at(a)), dot(d, p), 1e-5))
    if S.sym:
        w = [S.real(f"lp1_{j}") for j in range(len(raw.basis))]
        S.check("the furthest point is a member", S.And(raw.pred(S, w), *[S.eq(x, y) for x, y in zip(raw.at(w), p)]))
    else:
        c, res, *_ = np.linalg.lstsq(np.array(raw.basis).T, np.array(p) - np.array(raw.center), rcond=None)
        if len(raw.basis) <= n and np.linalg.matrix_rank(np.array(raw.basis)) == len(raw.basis):
            S.check("the furthest point is a member", bool(np.allclose(raw.at(list(c)), p, atol=1e-5)) and raw.pred(S, list(c)))


def sampling(S):
    raw = draw(S, m=S.choice("m", [2, 1]), n=S.choice("n", [1, 2]))
    if len(raw.basis) < len(raw.center):
        return
    st = raw.make(S)
    np.random.seed(S.int("seed", 0, 1000))
    N = S.choice("N", [1, 5])
    try:
        pts = mod().sample_star(st, N, tol=1000)
    except Exception:
        return  # too many misses
    S.functions.add(Q + "sample_star")
    S.check("as many samples as asked for", len(pts) == N)
    s = raw.make(S)
    for p in pts:
        S.check("a sample is a member", bool(mod().containment_poly(s, np.array(p))))


def hulls(S):
    """post_cont_pca: a star set with the given basis around all points"""
    n = S.choice("n", [1, 2])
    raw = draw(S, n=n, m=n)
    st = raw.make(S)
    if S.bool("box predicate"):
        st = star_cls()(st.center, st.basis, np.vstack([np.eye(n), -np.eye(n)]), np.ones(2 * n))
    th = S.real("angle", 0, 3)
    B = np.array([[1.0]]) if n == 1 else np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    B = B * S.real("scale", 0.2, 2)
    pts = np.array([[S.real(f"p{k}{i}", rand=(-3, 3)) for i in range(n)] for k in range(S.choice("points", [1, 2, 4]))])
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        new = S.call(Q + "post_cont_pca", st, B, pts)
    got = raw_of(new)
    S.check("the given basis is used", bool(np.allclose(new.basis, B)))
    for p in pts:
        c = np.linalg.solve(B.T, p - new.center)
        S.check("the set contains every point", all(dot(r, c) <= b + 1e-5 for r, b in zip(got.C, got.g)))


PROP = Prop("P18", [
    Contract("images", images, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(200, 1500)),
    Contract("intersections", intersections, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(200, 1500)),
    Contract("bounding", bounding, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(150, 800)),
    Contract("emptiness", emptiness, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(150, 800)),
    Contract("inclusion", inclusion, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(150, 800)),
    Contract("membership", membership, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(150, 800)),
    Contract("from_box", from_box, prove="bounded", bound="up to 3 dimensions, all values", budget=(150, 300), runs=(200, 800)),
    Contract("combination", combination, prove="bounded", bound="up to 2 sets in 2 dimensions, all values", budget=(150, 300), runs=(100, 500)),
    Contract("furthest", furthest, prove="bounded", bound="up to 3 dimensions, 3 basis vectors and 2 constraints, all values", budget=(150, 300), runs=(150, 800)),
    Contract("sampling", sampling, prove=None, runs=(60, 300)),
    Contract("hulls", hulls, prove=None, runs=(60, 300)),
])
