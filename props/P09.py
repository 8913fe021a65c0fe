"""P09  Mixed-monotone tubes contain every trajectory."""
import math

import numpy as np
import z3
from scipy.integrate import solve_ivp

from pyvc.contract import Contract, Prop
from pyvc.core import CTX, mk, term
from pyvc.seqs import VList, arr
from pyvc.spec import Ghost, native
from .P21 import ufun

M = "verse.analysis.mixmonotone."


class Agent:
    """an agent with dynamics, and the pieces of analysis it offers"""

    def __init__(self, **kw):
        self.id = "a"
        self.__dict__.update(kw)


def boxes(S, n, count):
    """initial sets, and their hull"""
    sets = []
    for b in range(count):
        lo = [S.real(f"lo{b}_{i}", rand=(-2, 2)) for i in range(n)]
        sets.append([lo, [x + S.real(f"w{b}_{i}", 0, None, rand=(0, 1)) for i, x in enumerate(lo)]])
    return sets


def inputs(S, m):
    lo = [S.real(f"ulo{j}", rand=(-1, 1)) for j in range(m)]
    return lo, [x + S.real(f"uw{j}", 0, None, rand=(0, 1)) for j, x in enumerate(lo)]


def inside(S, lo, x, hi, tol=None):
    c = True
    for a, b, d in zip(lo, x, hi):
        c = S.And(c, S.And(S.le(a, b), S.le(b, d)) if tol is None else S.And(S.le(a, b, tol), S.le(b, d, tol)))
    return c


def Ode(flow):
    """contract of scipy.integrate.ode: integrate(t) is the solution at t, some function of the initial value, the parameters and t"""
    class Ode:
        __pyvc_track__ = True

        def __init__(self):
            self.t, self.ts = 0, VList()

        @native
        def set_integrator(self, *a, **k):
            return self

        @native
        def set_initial_value(self, y, t=0):
            self.y, self.t = VList([y[i] for i in range(len(flow))]), t
            return self

        @native
        def set_f_params(self, *p):
            self.p = VList(p[0] if p and isinstance(p[0], (list, tuple, VList)) else p)
            return self

        @native
        def integrate(self, t):
            self.t = t
            self.ts.append(t)
            return arr([f(*self.y, *self.p, t) for f in flow])
    return Ode()


def hull(S, sets, n):
    lo, hi = sets[0]
    for a, b in sets[1:]:
        lo = [S.ite(x <= y, x, y) for x, y in zip(lo, a)]
        hi = [S.ite(x >= y, x, y) for x, y in zip(hi, b)]
    return lo, hi


def vl(S, x):
    return VList([vl(S, y) for y in x]) if S.sym and isinstance(x, list) else x


def segments(S, rows, n, h, T, y, tol=None):
    """the tube has one segment per step, with its time stamps, and y(k) is in every segment that ends or starts at sample k"""
    seg = S.len(rows) // 2
    S.check("rows come in lower/upper pairs", S.len(rows) == 2 * seg)
    S.check("the tube covers the horizon", S.And(S.le(T, seg * h), (seg - 1) * h < T + 1e-6 * h))
    for k in S.each(seg):
        if S.sym:
            S.hint(k - 1)
        for e in (0, 1):
            d = S.at(rows, 2 * k + e, 0) - (k + e) * h
            S.check("time stamps of the segment", S.And(d <= 1e-9, -1 * d <= 1e-9))
            p = y(k + e)
            for i in range(n):
                S.check(f"a segment's lower row is below the trajectory at sample i+{e}", S.le(S.at(rows, 2 * k, i + 1), p[i], *([tol] if tol else [])))
                S.check(f"a segment's upper row is above the trajectory at sample i+{e}", S.le(p[i], S.at(rows, 2 * k + 1, i + 1), *([tol] if tol else [])))


# ------------------------------------------------------------------ symbolic: any decomposition, any trajectory
def draw(S):
    n, m = S.choice("n", [1, 2, 3]), S.choice("m", [1, 2, 0])
    h, T = S.real("h", 0.001, None), S.real("T", 0.001, None)
    sets = boxes(S, n, S.choice("sets", [1, 2]))
    which = S.choice("from", list(range(len(sets))))
    f0 = [S.real(f"y{i}") for i in range(n)]
    S.assume(inside(S, sets[which][0], f0, sets[which][1]))
    return n, m, h, T, sets, inputs(S, m), f0


def discrete(S):
    if not S.sym:
        return discrete_run(S)
    n, m, h, T, sets, (ulo, uhi), y0 = draw(S)
    low, high = [ufun(f"dlow{j}", 2 * (n + m) + 1) for j in range(n)], None
    Y = [S.fun(f"Y{j}", 1) for j in range(n)]  # the trajectory
    for i in range(n):
        S.assume(S.eq(Y[i](0), y0[i]))
    log = VList()

    def decomposition(self, x, w, xhat, what, dt):
        a = [x[i] for i in range(n)] + [w[i] for i in range(m)] + [xhat[i] for i in range(n)] + [what[i] for i in range(m)] + [dt]
        r = VList([f(*a) for f in low])
        self.log.append(VList([VList([x[i] for i in range(n)]), VList([xhat[i] for i in range(n)])]))
        return r
    agent = Agent(dynamics=None, decomposition=Ghost(decomposition, log))
    rows = S.call(M + "calculate_bloated_tube_mixmono_disc", None, vl(S, sets), vl(S, [ulo, uhi] if m else []), T, h, agent, None)
    seg = S.len(rows) // 2

    def state(k):
        e = S.at(log, 2 * k)
        return [S.at(e, 0, i) for i in range(n)], [S.at(e, 1, i) for i in range(n)]

    def step(k):
        """the decomposition bounds the dynamics on the box it is given: the next point of the trajectory"""
        x, xh = state(k)
        a, b = [f(*x, *ulo, *xh, *uhi, h) for f in low], [f(*xh, *uhi, *x, *ulo, h) for f in low]
        nxt = [Y[i](k + 1) for i in range(n)]
        return S.implies(inside(S, x, [Y[i](k) for i in range(n)], xh), inside(S, a, nxt, b))
    S.forall(seg, step)
    S.induct("safety: structure of the argument: the embedding encloses the trajectory", seg - 1, lambda k: inside(S, state(k)[0], [Y[i](k) for i in range(n)], state(k)[1]))
    segments(S, rows, n, h, T, lambda k: [Y[i](k) for i in range(n)])


# ------------------------------------------------------------------ runs
def monotone_system(S, n, m, h=None):
    """f = A x + B u + c + q tanh(a neighbour), and its decomposition: decreasing terms are taken from the other end.
    With a step h: of the map x + h f(x) instead of the flow"""
    A = [[S.real(f"A{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
    B = [[S.real(f"B{i}{j}", -1, 1) for j in range(m)] for i in range(n)]
    c = [S.real(f"c{i}", -1, 1) for i in range(n)]
    q = S.choice("nonlinear", [0.0, 0.5, -0.5]) if n > 1 else 0.0
    nb = [(i + 1) % n for i in range(n)]

    def f(x, u):
        return [sum(A[i][j] * x[j] for j in range(n)) + sum(B[i][j] * u[j] for j in range(m)) + c[i] + q * math.tanh(x[nb[i]]) for i in range(n)]

    def pick(s, a, b):
        return s * (a if s >= 0 else b)

    def d(x, w, xh, wh):
        r = []
        for i in range(n):
            v = c[i] + q * math.tanh(x[nb[i]] if q >= 0 else xh[nb[i]])
            v += sum(pick(A[i][j], x[j], xh[j]) for j in range(n) if j != i) + sum(pick(B[i][j], w[j], wh[j]) for j in range(m))
            r.append(v + A[i][i] * x[i] if h is None else pick(1 + h * A[i][i], x[i], xh[i]) + h * v)
        return r
    return f, d


def grid(S):
    h = S.choice("dt", [0.1, 0.5, 0.05, 0.25, 1.0])
    k = S.choice("k", [1, 2, 3, 7, 12])
    return h, (k * h if S.bool("multiple") else (k - 1) * h + S.real("frac", 0.05, 0.95) * h)


def pieces(S, n, m):
    sets = boxes(S, n, S.choice("sets", [1, 1, 2, 3]))
    ulo, uhi = inputs(S, m)
    which = sets[S.choice("from", [0, 1, 2]) % len(sets)]
    corner = S.bool("corner")

    def pick(name, lo, hi):
        a = S.real(name, 0, 1)
        if corner:
            a = round(a)
        return lo + a * (hi - lo)
    y = [pick(f"p{i}", which[0][i], which[1][i]) for i in range(n)]
    return sets, ulo, uhi, y, lambda k: [pick(f"u{k}_{j}", ulo[j], uhi[j]) for j in range(m)]


def discrete_run(S):
    n, m = S.choice("n", [1, 2, 3]), S.choice("m", [0, 1, 2])
    h, T = grid(S)
    f, d = monotone_system(S, n, m, h)
    sets, ulo, uhi, y, u = pieces(S, n, m)
    ys = [y]
    for k in range(int(round(T / h)) + 2):
        ys.append([a + h * b for a, b in zip(ys[-1], f(ys[-1], u(k)))])
    agent = Agent(dynamics=lambda x, a: [p + a[-1] * v for p, v in zip(x, f(x, a[:-1]))], decomposition=lambda x, w, xh, wh, dt: d(x, w, xh, wh))
    rows = S.call(M + "calculate_bloated_tube_mixmono_disc", None, sets, [ulo, uhi] if m else [], T, h, agent, None)
    segments(S, rows, n, h, T, lambda k: ys[k])


def continuous(S):
    if not S.sym:
        return continuous_run(S)
    n, m, h, T, sets, (ulo, uhi), y0 = draw(S)
    dec = [ufun(f"dec{j}", 2 * (n + m)) for j in range(n)]
    flow = [ufun(f"flow{j}", 2 * n + 2 * m + 1) for j in range(2 * n)]  # of the embedding system
    Y = [S.fun(f"Y{j}", 1) for j in range(n)]
    for i in range(n):
        S.assume(S.eq(Y[i](0), y0[i]))
    log = VList()

    def decomposition(x, w, xhat, what):
        return VList([f(*[x[i] for i in range(n)], *[w[i] for i in range(m)], *[xhat[i] for i in range(n)], *[what[i] for i in range(m)]) for f in dec])

    seen = []

    def solver(rhs):
        seen.append((rhs, Ode(flow)))
        return seen[-1][1]
    S.stub("scipy.integrate._ode.ode", native(solver))
    agent = Agent(dynamics=None, decomposition=native(decomposition))
    rows = S.call(M + "calculate_bloated_tube_mixmono_cont", None, vl(S, sets), vl(S, [ulo, uhi] if m else []), T, h, agent, None)
    lo, hi = hull(S, sets, n)

    def bounds(k):  # comparison theorem: the solution of the embedding system from the corners of the box encloses every trajectory
        r = [f(*lo, *hi, *ulo, *uhi, k * h) for f in flow]
        return S.And(inside(S, r[:n], [Y[i](k) for i in range(n)], r[n:]), *[S.implies(S.eq(k, 0), S.And(S.eq(r[i], lo[i]), S.eq(r[n + i], hi[i]))) for i in range(n)])
    S.forall(S.len(rows) // 2 + 1, bounds)
    S.check("safety: structure of the argument: one system is solved", len(seen) == 1)
    ts = seen[0][1].ts
    S.check("safety: structure of the argument: one step of the solver per segment", S.eq(S.len(ts), S.len(rows) // 2))
    S.induct("safety: structure of the argument: the solver is asked for the samples", S.len(ts) - 1, lambda k: S.eq(S.at(ts, k), (k + 1) * h))
    z = [S.real(f"z{i}") for i in range(2 * n)]
    got = S.call(seen[0][0], S.real("t"), arr(z), VList(ulo + uhi))
    for i, f in enumerate(dec):
        S.check("the system solved is the embedding of the dynamics (lower)", S.eq(got[i], f(*z[:n], *ulo, *z[n:], *uhi)))
        S.check("the system solved is the embedding of the dynamics (upper)", S.eq(got[n + i], f(*z[n:], *uhi, *z[:n], *ulo)))
    segments(S, rows, n, h, T, lambda k: [Y[i](k) for i in range(n)])


def continuous_run(S):
    n, m = S.choice("n", [1, 2, 3]), S.choice("m", [0, 1, 2])
    h, T = grid(S)
    f, d = monotone_system(S, n, m)
    sets, ulo, uhi, y, u = pieces(S, n, m)
    ys = [y]
    for k in range(int(round(T / h)) + 2):
        v = u(k)
        ys.append(solve_ivp(lambda t, s: f(s, v), (0, h), ys[-1], rtol=1e-9, atol=1e-9).y[:, -1].tolist())
    agent = Agent(dynamics=f, decomposition=d)
    rows = S.call(M + "calculate_bloated_tube_mixmono_cont", None, sets, [ulo, uhi] if m else [], T, h, agent, None)
    segments(S, rows, n, h, T, lambda k: ys[k], 1e-4)


# ------------------------------------------------------------------ decompositions derived from the dynamics
class Lin:
    """affine, mixed signs"""
    id, n, m = "a", 2, 1

    def dynamics(self, x, args):
        w1, dt = args
        x1, x2 = x
        """Begin Dynamic"""
        x1_plus = x1 + dt * (0.5 * x1 - 0.3 * x2 + w1)
        x2_plus = x2 + dt * (x1 - 2 * w1 - 0.4 * x2 + 1)
        """End Dynamic"""
        return [x1_plus, x2_plus]

    def jac(self, x, args):
        dt = args[-1]
        return np.array([[1 + 0.5 * dt, -0.3 * dt, dt], [dt, 1 - 0.4 * dt, -2 * dt]])


class Three:
    """affine, two inputs, one state that only depends on the others"""
    id, n, m = "a", 3, 2

    def dynamics(self, x, args):
        u, v, dt = args
        p, q, r = x
        """Begin Dynamic"""
        a = p + dt * (q - r + u)
        b = q - dt * (p + v - u)
        c = 2 * p - 3 * q + v
        """End Dynamic"""
        return [a, b, c]

    def jac(self, x, args):
        dt = args[-1]
        return np.array([[1, dt, -dt, dt, 0], [-dt, 1, 0, dt, -dt], [2, -3, 0, 0, 1]])


class Pop:
    """two populations (used where both are positive): monotone in every variable for small steps"""
    id, n, m = "a", 2, 2

    def dynamics(self, x, args):
        w1, w2, dt = args
        x1, x2 = x
        """Begin Dynamic"""
        x1_plus = x1 + dt * (x1 * (1.1 + w1 - x1 - 0.1 * x2))
        x2_plus = x2 + dt * (x2 * (4 + w2 - 3 * x1 - x2))
        """End Dynamic"""
        return [x1_plus, x2_plus]

    def jac(self, x, args):
        w1, w2, dt = args
        x1, x2 = x
        return np.array([[1 + dt * (1.1 + w1 - 2 * x1 - 0.1 * x2), -0.1 * dt * x1, dt * x1, 0], [-3 * dt * x2, 1 + dt * (4 + w2 - 3 * x1 - 2 * x2), 0, dt * x2]])


class Clock:
    """no inputs; one state does not change, one does not depend on anything"""
    id, n, m = "a", 3, 0

    def dynamics(self, x, args):
        dt, = args
        s, k, z = x
        """Begin Dynamic"""
        s_plus = s + dt
        k_plus = k
        z_plus = s - 2 * k
        """End Dynamic"""
        return [s_plus, k_plus, z_plus]

    def jac(self, x, args):
        return np.array([[1, 0, 0], [0, 1, 0], [1, -2, 0]])


class WithJac:
    """the same dynamics with the Jacobian at hand"""

    def __init__(self, a):
        self.id, self.a = a.id, a

    def dynamics(self, x, args):
        return self.a.dynamics(x, args)

    def dynamics_jac(self, x, args):
        return self.a.jac(x, args)


def derived_run(S):
    a = S.choice("dynamics", [Lin, Three, Pop, Clock])()
    n, m = a.n, a.m
    h = S.choice("dt", [0.1, 0.05, 0.2])
    T = h * S.choice("k", [1, 2, 4])
    if isinstance(a, Pop):
        sets, ulo, uhi = [[[0.2, 0.3], [0.3, 0.45]]], [-0.1, -0.1], [0.1, 0.2]
    else:
        sets = boxes(S, n, S.choice("sets", [1, 2]))
        ulo, uhi = inputs(S, m)
    w = sets[S.choice("from", [0, 1]) % len(sets)]
    frac = [[S.choice(f"f{k}_{j}", [0, 1, 0.5]) for j in range(n + m)] for k in range(6)]
    ys = [[l + frac[0][i] * (g - l) for i, (l, g) in enumerate(zip(*w))]]
    for k in range(5):
        u = [l + frac[k][n + j] * (g - l) for j, (l, g) in enumerate(zip(ulo, uhi))]
        ys.append([float(v) for v in a.dynamics(ys[-1], u + [h])])
    agent = WithJac(a) if S.bool("jacobian") else a
    rows = S.call(M + "calculate_bloated_tube_mixmono_disc", None, sets, [ulo, uhi] if m else [], T, h, agent, None)
    segments(S, rows, n, h, T, lambda k: ys[k], 1e-5)


class Any:
    """any dynamics"""
    __pyvc_track__ = True

    def __init__(self, f, log):
        self.id, self.log, self.f = "a", log, f

    @native
    def dynamics(self, x, args):
        a = [x[i] for i in range(len(x))] + [args[i] for i in range(len(args))]
        return VList([g(*a) for g in self.f[0]])

    @native
    def dynamics_jac(self, x, args):
        raise AssertionError("only the minimiser looks at derivatives")


def derived(S):
    """the decomposition computed by minimising the dynamics over the box; the minimiser finds the minimum (assumed)"""
    if not S.sym:
        return derived_run(S)
    n, m = S.choice("n", [1, 2]), S.choice("m", [1, 0])
    h, T = S.real("h", 0.001, None), S.real("T", 0.001, None)
    sets, (ulo, uhi) = boxes(S, n, 1), inputs(S, m)
    f = [ufun(f"f{j}", n + m + 1) for j in range(n)]
    Y, U = [S.fun(f"Y{j}", 1) for j in range(n)], [S.fun(f"U{j}", 1) for j in range(m)]
    S.assume(inside(S, sets[0][0], [Y[i](0) for i in range(n)], sets[0][1]))
    point = lambda k: [g(k) for g in Y + U]
    N = S.int("N", 0)
    S.forall(N, lambda k: S.And(inside(S, ulo, [g(k) for g in U], uhi), *[S.eq(Y[i](k + 1), f[i](*point(k), h)) for i in range(n)]))
    log = VList()

    def minimize(self, fun, x0, args=(), bounds=None, jac=None, method=None, **kw):
        b = VList([VList([bounds[i][0], bounds[i][1]]) for i in range(n + m)])
        self.log.append(b)
        low = CTX.fresh("low", "real")
        S.forall(N, lambda k: S.implies(S.And(*[S.And(b[i][0] <= p, p <= b[i][1]) for i, p in enumerate(point(k))]), S.le(low, S.call(fun, arr(point(k)), *args))))
        S.assume(S.implies(S.And(*[S.eq(b[i][0], b[i][1]) for i in range(n + m)]), S.eq(low, S.call(fun, arr([b[i][0] for i in range(n + m)]), *args))))

        class Result:
            pass
        r = Result()
        r.fun = low
        return r
    S.stub("scipy.optimize._minimize.minimize", Ghost(minimize, log))
    rows = S.call(M + "calculate_bloated_tube_mixmono_disc", None, vl(S, sets), vl(S, [ulo, uhi] if m else []), T, h, Any((f,), log), None, allow=(ValueError,))
    if isinstance(rows, ValueError):  # a box is not ordered: that none arises is left to the runs
        return
    seg = S.len(rows) // 2
    S.assume(S.eq(N, seg))

    def state(k):
        e = S.at(log, 2 * n * k)
        return [S.at(e, i, 0) for i in range(n)], [S.at(e, i, 1) for i in range(n)]
    S.induct("safety: structure of the argument: the boxes enclose the trajectory", seg - 1, lambda k: inside(S, state(k)[0], [Y[i](k) for i in range(n)], state(k)[1]))
    segments(S, rows, n, h, T, lambda k: [Y[i](k) for i in range(n)])


class Square(Lin):
    """a minimum and a maximum inside or at a stationary corner of the box"""
    n, m = 1, 0

    def dynamics(self, x, args):
        dt, = args
        y, = x
        """Begin Dynamic"""
        y_plus = 4 * y * y - 1
        """End Dynamic"""
        return [y_plus]

    def jac(self, x, args):
        return np.array([[8 * x[0]]])


def stationary(S):
    a = Square()
    S.known("P09-local-minimum")
    lo = S.choice("lo", [0.0, -1.0, -0.5])
    hi = S.choice("hi", [1.0, 2.0])
    agent = WithJac(a) if S.bool("jacobian") else a
    y = [S.choice("y", [lo, hi])]
    rows = S.call(M + "calculate_bloated_tube_mixmono_disc", None, [[[lo], [hi]]], [], 0.1, 0.1, agent, None)
    segments(S, rows, 1, 0.1, 0.1, lambda k: y if k == 0 else a.dynamics(y, [0.1]), 1e-5)


def in_scenario(S):
    """the verifier's use of both methods: root node of a scenario"""
    from enum import Enum, auto
    from verse.agents.base_agent import BaseAgent
    from verse.analysis.verifier import ReachabilityMethod
    from verse.parser.parser import ControllerIR
    from verse.scenario import Scenario, ScenarioConfig

    class Mode(Enum):
        Default = auto()
    cont = S.bool("continuous")
    n, m = S.choice("n", [1, 2]), S.choice("m", [0, 1, 2])
    h, T = grid(S)
    T = round(T / h) * h or h
    f, d = monotone_system(S, n, m, None if cont else h)
    sets, ulo, uhi, y, u = pieces(S, n, m)
    which = S.draws["from"] % len(sets)
    ys = [y]
    for k in range(int(round(T / h)) + 2):
        v = u(k)
        if cont:
            ys.append(solve_ivp(lambda t, s: f(s, v), (0, h), ys[-1], rtol=1e-9, atol=1e-9).y[:, -1].tolist())
        else:
            ys.append([a + h * b for a, b in zip(ys[-1], f(ys[-1], v))])

    class A(BaseAgent):
        def __init__(self):
            self.id, self.decision_logic = "a", ControllerIR.empty()

        def dynamics(self, x, args):
            return f(x, args[:-1])

        def decomposition(self, x, w, xh, wh, dt=None):
            return d(x, w, xh, wh)
    sc = Scenario(ScenarioConfig(init_seg_length=1, parallel=False, reachability_method=ReachabilityMethod.MIXMONO_CONT if cont else ReachabilityMethod.MIXMONO_DISC))
    sc.add_agent(A())
    sc.set_init([sets[which]], [(Mode.Default,)], uncertain_param_list=[[ulo, uhi]] if m else [])
    tree = S.call(sc.verify, T, h)
    segments(S, tree.root.trace["a"], n, h, T, lambda k: ys[k], 1e-4 if cont else 1e-6)


PROP = Prop("P09", [
    Contract("discrete", discrete, budget=(200, 500), runs=(150, 1500)),
    Contract("continuous", continuous, budget=(200, 500), runs=(100, 600)),
    Contract("derived", derived, budget=(250, 500), runs=(60, 400)),
    Contract("minimisers", stationary, prove=None, runs=(30, 60), functions=[M + "find_min", M + "find_min_symbolic"]),
    Contract("in_scenario", in_scenario, prove=None, runs=(40, 200), functions=["verse.analysis.verifier.Verifier.compute_full_reachtube_step"]),
])
