"""P12  Simulation takes exactly the enabled transitions and reports violated assertions."""
from pyvc.contract import Contract, Prop
from ._kit import World
from ._simtree import check_tree, size
from .P10 import proved, run


def rich(S):
    """many rules, nested conditions, short horizon: what happens at one sample"""
    run(S, depth=2, nrules=(1, 4), nasserts=(0, 2), p_assert=0.3, agents=(1, 3), filt=True, short=True)


def asserting(S):
    run(S, depth=2, nrules=(0, 3), nasserts=(1, 4), p_assert=0.9, agents=(1, 3), filt=True)


def simple(S):
    run(S, simple=True, depth=2, nrules=(1, 5), nasserts=(0, 2), p_assert=0.5, agents=(1, 3), filt=True)


LANES = """from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    Keep = auto()
    Left = auto()
    Right = auto()
class TrackMode(Enum):
    T0 = auto()
    T1 = auto()
    T2 = auto()
    M01 = auto()
    M10 = auto()
    M12 = auto()
    M21 = auto()
class State:
    x: float
    y: float
    agent_mode: AgentMode
    track_mode: TrackMode
def decisionLogic(ego: State, lane_map):
    output = copy.deepcopy(ego)
%s
    return output
"""
AM = ["Keep", "Left", "Right"]
TM = ["T0", "T1", "T2", "M01", "M10", "M12", "M21"]


def lane_change(S):
    """a transition to a lane happens exactly when the map defines it (h), to the lane the map defines"""
    import numpy as np
    from verse import Scenario, ScenarioConfig
    from verse.agents.base_agent import BaseAgent
    from verse.map.lane_map import LaneMap
    rng = S.rng
    table = {(t, a, b): rng.choice(TM) for t in TM for a in AM for b in AM if rng.random() < 0.6}

    class M(LaneMap):
        def __init__(self):
            super().__init__()
            self.h_dict = table
    rules = []
    for _ in range(rng.randint(1, 4)):
        thr = rng.randint(-2, 4) / 2
        op = rng.choice(["<", ">=", ">"])
        src = rng.choice(AM)
        dst = rng.choice([a for a in AM if a != src])
        rules.append((src, op, thr, dst, rng.random() < 0.75))
    body = []
    for src, op, thr, dst, use_map in rules:
        if use_map:
            body += [f"    if ego.agent_mode == AgentMode.{src} and ego.x {op} {thr}:",
                     f"        if lane_map.h_exist(ego.track_mode, ego.agent_mode, AgentMode.{dst}):",
                     f"            output.agent_mode = AgentMode.{dst}",
                     f"            output.track_mode = lane_map.h(ego.track_mode, ego.agent_mode, AgentMode.{dst})"]
        else:
            body += [f"    if ego.agent_mode == AgentMode.{src} and ego.x {op} {thr}:", f"        output.agent_mode = AgentMode.{dst}"]
    for src, op, thr, dst, use_map in rules:
        if not use_map:  # the map must know the lanes of every mode change it is asked about
            for t in TM:
                for a in AM:
                    table.setdefault((t, src, a), rng.choice(TM))
    v = {(a, t): [rng.choice([-1.0, 0.5, 1.0]), 0.0] for a in AM for t in TM}

    class A(BaseAgent):
        def TC_simulate(self, mode, init, horizon, step, lane_map=None):
            n = int(np.floor(horizon / step + 0.5))
            w = v[tuple(mode)]
            return np.array([[k * step] + [float(init[d]) + w[d] * k * step for d in range(2)] for k in range(n + 1)])
    sc = Scenario(ScenarioConfig(parallel=False, print_level=0))
    m = M()
    sc.set_map(m)
    sc.add_agent(A("car", code=LANES % "\n".join(body)))
    x0, mode0 = rng.randint(-4, 6) / 2, (rng.choice(AM), rng.choice(TM))
    sc.set_init_single("car", [[x0, 0.0], [x0, 0.0]], mode0)
    S.draws.update(rules=rules, table={"/".join(k): d for k, d in table.items()}, x0=x0, mode=mode0)
    T, dt = rng.choice([1.0, 2.0, 3.0]), 0.5
    tree = S.call(sc.simulate, T, dt, 3, 0)
    import operator
    O = {"<": operator.lt, ">=": operator.ge, ">": operator.gt}
    q = [tree.root]
    while q:
        n = q.pop()
        if n.height >= 2 or round(T - n.start_time, 10) <= 0:
            continue
        am, tm = n.mode["car"]
        w = v[(am, tm)]
        steps = int(np.floor((T - n.start_time) / dt + 0.5))
        want, idx = None, None
        for k in range(steps + 1):
            x = n.init["car"][0] + w[0] * k * dt
            outs = set()
            opts_a, opts_t, enabled = set(), set(), False
            for src, op, thr, dst, use_map in rules:
                if src == am and O[op](x, thr):
                    if not use_map:
                        enabled = True
                        opts_a.add(dst)
                    elif (tm, am, dst) in table:
                        enabled = True
                        opts_a.add(dst)
                        opts_t.add(table[(tm, am, dst)])
            if enabled:
                idx = k
                for a in opts_a:
                    for t in (opts_t or {tm}):
                        # a lane is only entered through the mode change the map defines it for
                        if t == table.get((tm, am, a)):
                            outs.add((a, t))
                pure = not opts_t
                # when nothing survives the map's filter the node may stop there; only its successors are determined
                want = outs
                break
        got = {tuple(c.mode["car"]) for c in n.child}
        if idx is None:
            S.check("no transition when no guard holds", not got)
            S.check("trace runs to the horizon", len(n.trace["car"]) == steps + 1)
        elif want:
            S.check("lane transitions are exactly those the map defines", got == want)
        else:
            S.check("no transition to a lane the map does not define", not got)
        q += n.child


R1 = dict(conts=("x", "y"), agents=(1, 2), nrules=(2, 4), depth=1, nasserts=(1, 2), filt=True, discs=("agent_mode", "tag_mode"))
R3 = dict(conts=("x",), agents=(3, 3), nrules=(0, 2), depth=1, nasserts=(1, 1), filt=True, discs=("agent_mode",))
PROP = Prop("P12", [
    proved("enabled_all_values_0", [1, 2, 3, 6, 7, 8, 10, 14], False, 1, **R1),
    proved("enabled_all_values_1", [15, 17, 18, 19, 20, 21, 22, 23, 26, 28], False, 1, **R1),
    proved("enabled_all_values_2", [29, 30, 31, 13], False, 1, **R1),
    proved("others_all_values_0", [0, 2, 6, 7, 8, 9, 10, 11, 12], False, 1, **R3),
    proved("others_all_values_1", [13, 14, 15, 16, 17, 19, 20, 21, 22, 23], False, 1, **R3),
    proved("simple_all_values", [1, 2, 3, 6, 7, 10, 14, 15, 18, 19, 21, 23], True, 1, **R1),
    Contract("rich", rich, prove=None, runs=(400, 4000)),
    Contract("asserting", asserting, prove=None, runs=(300, 3000)),
    Contract("simple", simple, prove=None, runs=(250, 2500)),
    Contract("lane_change", lane_change, prove=None, runs=(250, 2500)),
])
