"""P21  Runs start in the given initial set, traces keep the time grid, controllers saturate."""
import copy
import math

import numpy as np
import z3
from scipy.integrate import solve_ivp

from pyvc.contract import Contract, Prop
from pyvc.core import mk, term
from pyvc.seqs import SArr, VList, arr
from pyvc.spec import native
from ._kit import World

CAR = "verse.agents.example_agent.car_agent."
MODE_SETS = {"CarAgent": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"],
             "CarAgentDebounced": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"],
             "CarAgentSwitch2": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2", "Brake", "Accel"],
             "NPCAgent": ["Normal"]}
LANES = ["T0", "T1"]


def cls(name):
    import verse.agents.example_agent.car_agent as m
    import verse.agents.example_agent.origin_agent as o
    import verse.agents.example_agent.robot_agent as r
    import verse.agents.example_agent.sign_agent as s
    import verse.agents.example_agent.ball_agent as b
    import verse.agents.example_agent.line_agent as l
    for mod in (m, o, r, s, b, l):
        if hasattr(mod, name):
            return getattr(mod, name)


CODE = """from enum import Enum, auto
import copy
class VM(Enum):
    Normal = auto()
class State:
    x: float
    m: VM
def decisionLogic(ego: State):
    output = copy.deepcopy(ego)
    return output
"""


def car(name, speed=2, accel=1):
    if name == "NPCAgent":
        return cls(name)("c")
    if name == "WeirdCarAgent":
        a = cls(name).__new__(cls(name))
        a.id, a.gain, a.thres, a.speed, a.accel = "c", 0.2, 0.8, speed, accel
        return a
    return cls(name)("c", code=CODE, speed=speed, accel=accel)


class AnyMap:
    """a map about which nothing is known but that it answers"""

    def __init__(self, width, lateral, heading):
        self.w, self.l, self.h = width, lateral, heading

    @native
    def get_lane_width(self, lane):
        return self.w[lane]

    @native
    def get_lateral_distance(self, lane, pos):
        return self.l[lane]

    @native
    def get_lane_heading(self, lane, pos):
        return self.h[lane]


def saturation(S):
    """controllers: steering within +-0.61, acceleration within the vehicle's limits, at the prescribed side"""
    name = S.choice("cls", list(MODE_SETS))
    mode, lane = S.choice("mode", MODE_SETS[name]), S.choice("lane", LANES)
    speed, accel = S.real("speed", 0, None, rand=(0, 8)), S.real("accel", 0, None, rand=(0, 4))
    a = car(name, speed, accel)
    n = 4 + (name in ("CarAgentDebounced", "CarAgentSwitch2"))
    st = [S.real(f"s{i}", -50, 50) if i != 3 else S.real("v", 0, None, rand=(0, 10)) for i in range(n)]
    m = AnyMap({l: S.real("w" + l, 0.5, 10) for l in LANES}, {l: S.real("d" + l, -20, 20) for l in LANES}, {l: S.real("h" + l, -3.2, 3.2) for l in LANES})
    out = S.call(CAR + name + ".action_handler", a, (mode, lane), st, m)
    steer, acc = out[0], out[1]
    S.check("steering is saturated", S.And(S.le(steer, 0.61), S.le(-0.61, steer)))
    v = st[3]
    if mode == "Brake":
        S.check("braking stays within the limit", S.And(S.le(-1 * accel, acc), S.le(acc, 0)))
        S.check("braking does not reverse the car within a second", S.le(0, v + acc))
    elif mode == "Accel":
        S.check("acceleration stays within the limit", S.le(acc, accel))
        S.check("acceleration does not exceed the speed limit", S.le(acc, speed - v))
        S.check("accelerating never brakes below the speed limit", S.implies(S.le(v, speed), S.le(0, acc)))
    else:
        S.check("no acceleration in other modes", S.eq(acc, 0))
    # the steering law: aims at the middle of the lane of the mode
    off = {"SwitchLeft": 1, "SwitchRight": -1, "SwitchLeft2": 2, "SwitchRight2": -2}.get(mode, 0)
    d = off * m.w[lane] - m.l[lane]
    psi = m.h[lane] - st[2]
    if S.sym:
        return
    if name != "NPCAgent":
        psi = math.remainder(float(psi), 2 * math.pi)
    want = min(max(float(psi) + math.atan2(0.45 * float(d), float(v)), -0.61), 0.61)
    S.check("steering follows the lane of the mode", S.eq(steer, want, 1e-6))


def grid(S, trace, T, dt, init):
    """start, time stamps and horizon"""
    tr = np.asarray(trace, dtype=float)
    S.check("a trace has one row per sample", tr.ndim == 2 and len(tr) >= 1 and tr.shape[1] == len(init) + 1)
    S.check("a trace starts at time 0", tr[0, 0] == 0)
    S.check("a trace starts in the given state", bool(np.allclose(tr[0, 1:], np.asarray(init, dtype=float), rtol=0, atol=1e-9)))
    S.check("time stamps are one step apart", bool(np.allclose(np.diff(tr[:, 0]), dt, rtol=0, atol=1e-7)))
    S.check("a trace covers the horizon", T - dt / 2 - 1e-7 <= tr[-1, 0] <= T + dt + 1e-7)
    return tr


def horizon(S):
    dt = S.choice("dt", [0.5, 0.1, 0.05, 0.3, 0.01, 0.25, 0.07, 1.0])
    k = S.choice("k", [1, 2, 3, 7, 10, 11, 23])
    T = round(k * dt, 8) if S.bool("multiple") else (k - 1) * dt + S.real("frac", 0.05, 0.95) * dt
    return float(T), dt


def follow(S, tr, dt, rhs, post=lambda y: y, tol=1e-3):
    """every row is where the dynamics lead from the previous one"""
    for i in range(min(len(tr) - 1, 4)):
        f = rhs(tr[i, 1:])
        y = solve_ivp(f, (0, dt), tr[i, 1:], rtol=1e-9, atol=1e-9).y[:, -1]
        y = post(y)
        S.check("samples follow the agent's own dynamics and controller", bool(np.allclose(y, tr[i + 1, 1:], rtol=tol, atol=tol)))


class Circle:
    """one lane around the origin, counterclockwise"""

    def get_lane_width(self, lane):
        return 3.0

    def get_lateral_distance(self, lane, pos):
        return 12.0 + 3 * LANES.index(lane) - math.hypot(pos[0], pos[1] + 12)

    def get_lane_heading(self, lane, pos):
        return math.atan2(pos[1] + 12, pos[0]) + math.pi / 2


def lane_map(S):
    from verse.map import LaneMap, Lane, StraightLane
    if S.bool("circle"):
        return Circle()
    m = LaneMap()
    a = S.real("angle", -3, 3)
    d = np.array([math.cos(a), math.sin(a)])
    for j, l in enumerate(LANES):
        o = 3.0 * j * np.array([d[1], -d[0]])
        m.add_lanes([Lane(l, [StraightLane(l, o - 200 * d, o + 200 * d, 3)])])
    return m


def car_trace(S):
    name = S.choice("cls", list(MODE_SETS) + ["WeirdCarAgent"])
    a = car(name, S.real("speed", 1, 6), S.real("accel", 0.5, 3))
    mode = (S.choice("mode", MODE_SETS.get(name, MODE_SETS["CarAgent"])), S.choice("lane", LANES))
    n = 4 + (name in ("CarAgentDebounced", "CarAgentSwitch2"))
    init = [S.real(f"s{i}", -5, 5) if i != 3 else S.real("v", 0, 5) for i in range(n)]
    m = lane_map(S)
    T, dt = horizon(S)
    asked = list(init) if S.bool("aslist") else np.array(init)
    tr = grid(S, S.call(CAR + name + ".TC_simulate", a, mode, asked, T, dt, m), T, dt, init)
    S.check("the given state is left alone", list(asked) == init)
    S.check("the speed never becomes negative", bool((tr[:, 4] >= 0).all()))
    fixed = {"CarAgent": 4, "NPCAgent": 4, "WeirdCarAgent": 4}.get(name, 5)

    def rhs(y):
        steer, acc = a.action_handler(mode, y, m)
        steer, acc = float(steer), float(acc)
        # kinematic bicycle with a wheel base of 1.75
        return lambda t, s: [s[3] * math.cos(s[2] + steer), s[3] * math.sin(s[2] + steer), s[3] / 1.75 * math.sin(steer), acc] + [1.0] * (fixed - 4)

    def post(y):
        y[3] = max(y[3], 0)
        return y
    follow(S, tr, dt, rhs, post)


def ufun(name, n):
    """an arbitrary function of n reals"""
    f = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return lambda *a: mk(f(*[term(x, "real") for x in a]))


class GhostOde:
    """contract of scipy.integrate.ode: integrate(h) is some function of the initial value, the parameters and h"""

    def __init__(self, flow):
        self.flow, self.t, self.p = flow, 0, []

    @native
    def set_initial_value(self, y, t=0):
        self.y = [y[i] for i in range(len(self.flow))]
        return self

    @native
    def set_f_params(self, *p):
        self.p = list(p[0]) if p and isinstance(p[0], (list, tuple, VList)) else list(p)
        return self

    @native
    def integrate(self, t):
        return arr([f(*self.y, *self.p, t) for f in self.flow])


def trace_contract(S, tr, init, T, h, step):
    rows = S.len(tr)
    S.check("a trace starts at time 0", S.eq(tr[0, 0], 0))
    for i, x in enumerate(init):
        S.check("a trace starts in the given state", S.eq(tr[0, i + 1], x))
    last = (rows - 1) * h
    S.check("a trace covers the horizon", S.And(T <= last, last < T + h))
    for k in S.each(rows - 1):
        d = tr[k + 1, 0] - (k + 1) * h
        S.check("time stamps are one step apart", S.And(d <= 1e-9, -1 * d <= 1e-9))
        for i, w in enumerate(step([tr[k, i + 1] for i in range(len(init))])):
            S.check("samples follow the agent's own dynamics and controller", S.eq(tr[k + 1, i + 1], w))


def car_loop(S):
    """all horizons, steps, dynamics and controllers: the loop of the vehicles' TC_simulate"""
    if not S.sym:
        return car_trace(S)
    name = S.choice("cls", list(MODE_SETS) + ["WeirdCarAgent"])
    n = 4 + (name in ("CarAgentDebounced", "CarAgentSwitch2"))
    h, T = S.real("h", 0.001, None), S.real("T", 0.001, None)
    a, st = car(name), S.arr("s", (n,))
    init = [st[i] for i in range(n)]
    ctl, flow = [ufun(f"ctl{j}", n) for j in range(2)], [ufun(f"flow{j}", n + 3) for j in range(n)]
    for c in list(MODE_SETS) + ["WeirdCarAgent"]:
        S.stub(CAR + c + ".action_handler", native(lambda self, mode, state, m: tuple(c(*[state[i] for i in range(n)]) for c in ctl)))
    S.stub("scipy.integrate._ode.ode", native(lambda f: GhostOde(flow)))
    tr = S.call(CAR + name + ".TC_simulate", a, ("Normal", "T0"), st, T, h, None)

    def step(y):
        out = [f(*y, *[c(*y) for c in ctl], h) for f in flow]
        out[3] = S.ite(out[3] < 0, 0, out[3])
        return out
    trace_contract(S, tr, init, T, h, step)


PLAIN = {"vanderpol_agent": (2, ["A"]), "thermo_agent": (3, ["ON", "OFF"]), "craft_agent": (6, ["ProxA", "ProxB", "Passive"]), "RobotAgent": (1, ["A"]), "SignAgent": (2, ["A"])}


def plain_loop(S):
    """all horizons, steps and dynamics: the loop of the other agents' TC_simulate"""
    if not S.sym:
        return plain_trace(S)
    name = S.choice("cls", list(PLAIN))
    n, modes = PLAIN[name]
    mode = S.choice("mode", modes)
    h, T = S.real("h", 0.001, None), S.real("T", 0.001, None)
    C = cls(name)
    a = C.__new__(C)
    a.id, a.decision_logic = "a", None
    f0 = S.fun("s", 1)
    init, flows = [f0(i) for i in range(n)], {}

    def flow(key, more=0):
        return flows.setdefault(key, [ufun(f"flow_{key}{j}", n + 1 + more) for j in range(n)])
    rate = [0.1 if mode == "ON" else -0.1] if name == "thermo_agent" else []
    S.stub("scipy.integrate._ode.ode", native(lambda f: GhostOde(flow(getattr(f, "__name__", None) or f.name, len(rate)))))
    tr = S.call(f"{C.__module__}.{name}.TC_simulate", a, (mode,), VList(init), T, h, None)

    def step(y):
        if name == "SignAgent":
            return y
        return [f(*y, *rate, h) for f in flow(mode + "_dynamics" if name == "craft_agent" else "dynamics", len(rate))]
    trace_contract(S, tr, init, T, h, step)


def base_loop(S):
    """all horizons and steps: the base class' integrator (odeint: row 0 is the initial value, row i some function of it and t[i])"""
    if not S.sym:
        return plain_trace(S)
    from verse.agents.base_agent import BaseAgent
    n = S.choice("n", [1, 2, 3])
    h, T = S.real("h", 0.001, None), S.real("T", 0.001, None)
    a = BaseAgent.__new__(BaseAgent)
    a.id, a.decision_logic = "a", None
    f0 = S.fun("s", 1)
    init = [f0(i) for i in range(n)]
    flow = [ufun(f"flow{j}", n + 1) for j in range(n)]

    def pick(v, j):
        if isinstance(j, int):
            return v[j]
        r = v[-1]
        for k in range(len(v) - 1):
            r = S.ite(j == k, v[k], r)
        return r

    def odeint(func, y0, t, tfirst=False, **kw):
        y = [y0[i] for i in range(n)]
        return SArr((S.len(t), n), lambda i, j: S.ite(i == 0, pick(y, j), pick([g(*y, t[i]) for g in flow], j)), "real")
    S.stub("scipy.integrate._odepack_py.odeint", native(odeint))
    tr = S.call("verse.agents.base_agent.BaseAgent.TC_simulate", a, ("A",), VList(init), T, h)
    rows = S.len(tr)
    S.check("a trace starts at time 0", S.eq(tr[0, 0], 0))
    for i in range(n):
        S.check("a trace starts in the given state", S.eq(tr[0, i + 1], init[i]))
    last = (rows - 1) * h
    S.check("a trace covers the horizon", S.And(T - h / 2 <= last, last <= T + h))
    for k in S.each(rows - 1):
        d = tr[k + 1, 0] - (k + 1) * h
        S.check("time stamps are one step apart", S.And(d <= 1e-8, -1 * d <= 1e-8))
        for i in range(n):
            S.check("samples follow the agent's own dynamics", S.eq(tr[k + 1, i + 1], flow[i](*init, tr[k + 1, 0])))


def plain_trace(S):
    """agents without a controller and the base class' own integrator"""
    from verse.agents.base_agent import BaseAgent
    kind = S.choice("kind", ["linear", "time", "vanderpol", "thermo", "robot", "sign", "craft", "ball", "line"])
    T, dt = horizon(S)
    if kind in ("linear", "time"):
        n = S.choice("n", [1, 2, 3])
        A = [[S.real(f"a{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
        c = [S.real(f"c{i}", -2, 2) for i in range(n)]
        w = S.real("w", -1, 1) if kind == "time" else 0.0

        class Lin(BaseAgent):
            def __init__(self):
                self.id, self.decision_logic = "a", None

            @staticmethod
            def dynamics(t, y):
                return [sum(A[i][j] * y[j] for j in range(n)) + c[i] + w * t for i in range(n)]
        a, init, q = Lin(), [S.real(f"x{i}", -5, 5) for i in range(n)], "verse.agents.base_agent.BaseAgent.TC_simulate"
        mode = ("A",)
        tr = grid(S, S.call(q, a, mode, init, T, dt), T, dt, init)
        y = solve_ivp(Lin.dynamics, (0, max(tr[-1, 0], 1e-9)), init, t_eval=tr[:, 0], rtol=1e-9, atol=1e-9).y.T
        S.check("samples follow the agent's own dynamics", bool(np.allclose(y, tr[:, 1:], rtol=1e-3, atol=1e-3)))
        return
    name, n = {"vanderpol": ("vanderpol_agent", 2), "thermo": ("thermo_agent", 3), "robot": ("RobotAgent", 1), "sign": ("SignAgent", 3),
               "craft": ("craft_agent", 6), "ball": ("BallAgent", 4), "line": ("LineAgent", 2)}[kind]
    C = cls(name)
    a = C.__new__(C)
    a.id, a.decision_logic = "a", None
    init = [S.real(f"x{i}", -2, 2) for i in range(n)]
    mode = (S.choice("m", {"thermo": ["ON", "OFF"], "craft": ["ProxA", "ProxB", "Passive"]}.get(kind, ["A"])),)
    tr = grid(S, S.call(f"{C.__module__}.{name}.TC_simulate", a, mode, list(init), T, dt), T, dt, init)
    rhs = {"vanderpol": lambda y: lambda t, s: [s[1], (1 - s[0] ** 2) * s[1] - s[0]],
           "thermo": lambda y: lambda t, s: [s[0] * (0.1 if mode[0] == "ON" else -0.1), 1, 1],
           "robot": lambda y: lambda t, s: [1], "sign": lambda y: lambda t, s: [0] * n,
           "ball": lambda y: lambda t, s: [s[2], s[3], 0, 0], "line": lambda y: lambda t, s: [s[1], 0],
           "craft": lambda y: getattr(C, f"{mode[0]}_dynamics", None)}[kind]
    if kind == "craft":
        return  # only the time grid: the spacecraft's equations are its own definition
    follow(S, tr, dt, rhs)


def sampling(S):
    """a sample of a box lies in the box; a seed fixes it"""
    n = S.choice("n", [1, 2, 3, 5])
    lo = [S.real(f"lo{i}", -100, 100) for i in range(n)]
    hi = [lo[i] if S.bool(f"pt{i}") else lo[i] + S.real(f"w{i}", 0, 50) for i in range(n)]
    seed = S.choice("seed", [None, 0, 1, 7, 2 ** 31])
    rect = [list(lo), list(hi)]
    if S.bool("np"):
        rect = np.array(rect)
    q = "verse.utils.utils.sample_rect"
    x = S.call(q, rect, seed)
    S.check("one value per dimension", len(x) == n)
    for i in range(n):
        S.check("a sample lies in the box", S.And(S.le(lo[i], x[i]), S.le(x[i], hi[i])))
    if seed is not None:
        np.random.seed(12345)
        S.check("the same seed gives the same sample", list(S.call(q, rect, seed)) == list(x))
    elif any(hi[i] > lo[i] for i in range(n)):
        S.check("without a seed samples differ", list(S.call(q, rect, seed)) != list(x) or list(S.call(q, rect, seed)) != list(x))


def sampling_sym(S):
    """the sampler is asked for the box's own bounds"""
    n = S.choice("n", [1, 2, 3])
    lo = [S.real(f"lo{i}", -100, 100) for i in range(n)]
    hi = [lo[i] + S.real(f"w{i}", 0, 50) for i in range(n)]
    seed = S.choice("seed", [None, 3])
    us = [S.real(f"u{i}", 0, 1) for i in range(n)]
    log = []
    old = np.random.uniform, np.random.seed

    class R(list):
        def tolist(self):
            return list(self)

    def uniform(low=0.0, high=1.0, size=None):
        return R(low[i] + us[i] * (high[i] - low[i]) for i in range(n))
    np.random.uniform, np.random.seed = uniform, log.append
    from verse.utils.utils import sample_rect
    S.functions.add("verse.utils.utils.sample_rect")
    try:
        x = S.native(sample_rect, [lo, hi], seed)
    finally:
        np.random.uniform, np.random.seed = old
    S.check("one value per dimension", len(x) == n)
    for i in range(n):
        S.check("a sample lies in the box", S.And(S.le(lo[i], x[i]), S.le(x[i], hi[i])))
    S.check("the seed is used when given", log == ([] if seed is None else [seed]))


def eq_nested(S, got, want):
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            return False
        c = True
        for g, w in zip(got, want):
            c = S.And(c, eq_nested(S, g, w))
        return c
    return S.eq(got, want)


def setting(S):
    """initial sets are stored as given, for the agent they are given for"""
    from verse.scenario import Scenario, ScenarioConfig
    from .P20 import agent
    n = S.choice("n", [1, 2, 3])
    ids = ["b", "a", "c"][:n]
    conts = S.choice("conts", [("x",), ("x", "y")])
    sc = Scenario(ScenarioConfig(parallel=False, print_level=0))
    how = S.choice("how", ["all", "single", "reversed", "own"])
    give, want = [], []
    for k, aid in enumerate(ids):
        lo = [S.real(f"lo{k}{i}", -9, 9) for i in range(len(conts))]
        hi = [lo[i] + S.real(f"w{k}{i}", 0, 5) for i in range(len(conts))]
        point = S.choice(f"point{k}", [False, True])
        give.append([list(lo)] if point else [list(lo), list(hi)])
        want.append([lo, lo] if point else [lo, hi])
    from enum import Enum
    AM = Enum("AgentMode", ["A", "B", "C"])
    modes = [(S.choice(f"m{k}", [AM.A, AM.B]),) for k in range(n)]
    S.functions |= {"verse.scenario.scenario.Scenario." + f for f in ("set_init", "set_init_single", "_get_init_from_agent", "add_agent")}
    for k, aid in enumerate(ids):
        a = agent(aid, conts, ("agent_mode",), False, "ego: State")
        a.init_cont = a.init_disc = a.static_parameters = a.uncertain_parameters = None
        if how == "own" and S.choice(f"before{k}", [True, False]):
            a.set_initial(give[k], modes[k])
        sc.add_agent(a)
        if how == "own" and a.init_cont is None:
            a.set_initial(give[k], modes[k])
    if how == "own":
        want = [g if len(g) == 2 else w for g, w in zip(give, want)]
    if how == "all":
        S.native(sc.set_init, [list(map(list, g)) for g in give], modes)
    elif how != "own":
        for k in (range(n) if how == "single" else reversed(range(n))):
            S.native(sc.set_init_single, ids[k], [list(r) for r in give[k]], modes[k])
    S.native(sc._get_init_from_agent)
    S.native(sc._check_init)
    for k, aid in enumerate(ids):
        if how == "own" and len(give[k]) == 1:
            S.check("a point set on the agent itself is that point", eq_nested(S, list(sc.init_dict[aid]), want[k][:len(sc.init_dict[aid])]))
        else:
            S.check("the initial set is the one given for the agent", eq_nested(S, list(sc.init_dict[aid]), want[k]))
        S.check("the initial mode is the one given for the agent", tuple(sc.init_mode_dict[aid]) == modes[k])


def inside(S, W, root):
    for a in W.ids:
        lo, hi = W.init[a][0], W.init[a][1]
        x = [float(v) for v in root.init[a]]
        S.check("the run starts in the initial set", all(l - 1e-9 <= v <= h + 1e-9 for l, v, h in zip(lo, x, hi)) and len(x) == len(lo))
        tr = root.trace.get(a)
        if tr is not None and len(tr):
            S.check("the first sample is the initial state at time 0", float(tr[0][0]) == 0 and bool(np.allclose([float(v) for v in tr[0][1:]], x, rtol=0, atol=1e-9)))


def starts(S):
    W = World(S, box=True, conts=S.choice("conts", [("x",), ("x", "y")]), nrules=(0, 2), nasserts=(0, 1), p_assert=0.2)
    sc = W.scenario()
    before = copy.deepcopy((sc.init_dict, sc.init_mode_dict))
    kind = S.choice("kind", ["simulate", "simulate_simple", "simulate_multi"])
    seed = S.choice("seed", [None, 0, 5, 11])
    T, dt, mh = 1.0, 0.5, 3
    W.note(S, kind=kind, seed=seed)
    if kind == "simulate_multi":
        n = S.choice("n", [1, 3])
        ts = S.call(sc.simulate_multi, T, dt, None, mh, seed, n)
        S.check("one tree per requested simulation", len(ts) == n)
        for t in ts:
            inside(S, W, t.root)
        if seed is not None:
            again = S.call(sc.simulate_multi, T, dt, None, mh, seed, n)
            S.check("the same seed gives the same starts", [t.root.init for t in ts] == [t.root.init for t in again])
            if n > 1 and any(l < h for a in W.ids for l, h in zip(*W.init[a])):
                S.check("different simulations of one call have different starts", ts[0].root.init != ts[1].root.init)
        pts = [{a: [l + (h - l) * 0.25 * j for l, h in zip(*W.init[a])] for a in W.ids} for j in range(3)]
        ts = S.call(sc.simulate_multi, T, dt, copy.deepcopy(pts), mh, seed)
        S.check("one tree per given start", len(ts) == 3)
        for t, p in zip(ts, pts):
            inside(S, W, t.root)
            S.check("given starts are used", all(np.allclose([float(v) for v in t.root.init[a]], p[a], rtol=0, atol=1e-9) for a in W.ids))
    else:
        run = getattr(sc, kind)
        t = S.call(run, T, dt, mh, seed)
        inside(S, W, t.root)
        np.random.seed(99)
        t2 = S.call(run, T, dt, mh, seed)
        inside(S, W, t2.root)
        if seed is not None:
            S.check("the same seed gives the same start", t.root.init == t2.root.init)
        elif sum(l < h for a in W.ids for l, h in zip(*W.init[a])):
            S.check("without a seed starts vary", t.root.init != t2.root.init)
    for a in W.ids:
        S.check("the run starts in the initial mode", tuple(W.modes[a]) == tuple(t.root.mode[a]) if kind != "simulate_multi" else tuple(W.modes[a]) == tuple(ts[0].root.mode[a]))
    S.check("the scenario's initial sets are left alone", before == (sc.init_dict, sc.init_mode_dict))


def verify_starts(S):
    W = World(S, box=True, conts=("x",), nrules=(0, 2), nasserts=(0, 0))
    sc = W.scenario()
    t = S.call(sc.verify, 1.0, 0.5, 2)
    for a in W.ids:
        got = np.asarray(t.root.init[a], dtype=float).reshape(-1, len(W.conts))
        S.check("verification starts from the initial set", got.shape[0] == 2 and bool(np.allclose(got, np.asarray(W.init[a], dtype=float), rtol=0, atol=1e-9)))
        S.check("verification starts in the initial mode", tuple(t.root.mode[a]) == tuple(W.modes[a]))


PROP = Prop("P21", [
    Contract("saturation", saturation, prove="bounded", runs=(300, 3000), budget=(100, 400), max_paths=3000,
             bound="every vehicle class and mode; all states, speeds, acceleration limits and map answers (reals)",
             assumes=["the map answers arbitrary reals; arctan2 is any real-valued function in (-pi, pi]"], why_bounded="class and mode are enumerated (there are no others)"),
    Contract("car_loop", car_loop, prove="unbounded", runs=(40, 200), budget=(60, 200),
             assumes=["scipy.integrate.ode: the value after one step is some function of the initial value, the parameters and the step", "action_handler is some function of the state (its limits: contract saturation)"]),
    Contract("plain_loop", plain_loop, prove="unbounded", runs=(40, 200), budget=(60, 200),
             assumes=["scipy.integrate.ode: the value after one step is some function of the initial value, the parameters and the step"]),
    Contract("base_loop", base_loop, prove="bounded", runs=(40, 200), budget=(30, 100), bound="1-3 state variables; all horizons, steps, initial states and dynamics (reals, no bound on the number of samples)",
             assumes=["scipy.integrate.odeint: row 0 is the initial value, row i is some function of the initial value and t[i]", "numpy.arange in real arithmetic"], why_bounded="number of state variables fixed"),
    Contract("sampling_sym", sampling_sym, prove="bounded", runs=(60, 300), budget=(20, 60), bound="dimension <= 3, all boxes",
             assumes=["np.random.uniform(lo, hi) returns lo + u (hi - lo) with 0 <= u <= 1, elementwise"], why_bounded="dimension fixed"),
    Contract("setting", setting, prove="bounded", runs=(100, 600), budget=(60, 200), max_paths=4000,
             bound="1-3 agents, 1-2 variables, set together, one by one, in any order, or on the agents; all boxes", why_bounded="number of agents fixed"),
    Contract("sampling", sampling, prove=None, runs=(200, 2000)),
    Contract("car_trace", car_trace, prove=None, runs=(150, 1500)),
    Contract("plain_trace", plain_trace, prove=None, runs=(200, 2000)),
    Contract("starts", starts, prove=None, runs=(150, 1500)),
    Contract("verify_starts", verify_starts, prove=None, runs=(40, 400)),
])
