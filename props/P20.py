"""P20  The default sensor reports the agent's own state and, in a fixed order, everybody else's."""
import copy

from pyvc.contract import Contract, Prop
from ._kit import MODES

CODE = """from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()
class TagMode(Enum):
    P = auto()
    Q = auto()
class LaneObjectMode(Enum):
    Vehicle = auto()
    Sign = auto()
class State:
%s
def decisionLogic(%s):
    output = copy.deepcopy(ego)
    if ego.%s >= 1.0:
        output.agent_mode = AgentMode.B
    return output
"""
AGENTS = {}


def agent(aid, conts, discs, static, args):
    from verse.agents.base_agent import BaseAgent
    key = (conts, discs, static, args)
    if key not in AGENTS:
        fields = "\n".join([f"    {c}: float" for c in conts] + [f"    {d}: {MODES[d][0]}" for d in discs] + (["    type: LaneObjectMode"] if static else []))
        AGENTS[key] = BaseAgent("x", code=CODE % (fields, args, conts[0])).decision_logic
    a = BaseAgent.__new__(BaseAgent)
    a.id, a.decision_logic = aid, AGENTS[key]
    return a


ARGS = ["ego: State", "ego: State, others: List[State]", "ego: State, others: List[State], track_map", "ego: State, track_map, others: List[State]", "others: List[State], ego: State"]
CONTS = [("x",), ("x", "y"), ("y", "x", "v")]
DISCS = [("agent_mode",), ("agent_mode", "tag_mode")]


def shape(S, n):
    conts = S.choice("conts", CONTS)
    discs = S.choice("discs", DISCS)
    static = S.choice("static", [False, True])
    args = S.choice("args", ARGS)
    ids = [f"car{(k * 7 + 3) % 10}" for k in range(n)]
    who = S.choice("who", ids)
    return conts, discs, static, args, ids, who


def same(S, got, want):
    """elementwise equality of nested sequences"""
    if isinstance(want, (list, tuple)):
        if not hasattr(got, "__len__") or isinstance(got, str) or len(got) != len(want):
            return False
        return S.And(*[same(S, g, w) for g, w in zip(got, want)])
    if isinstance(want, str):
        return got == want
    return S.eq(got, want)


def expected(conts, discs, static, args, ids, who, value, modes, stat):
    cont, disc = {}, {}
    for c in conts:
        cont["ego." + c] = value(who, c)
    for d in discs:
        disc["ego." + d] = modes[who][discs.index(d)]
    if static:
        disc["ego.type"] = stat[who]
    others = [a for a in ids if a != who]
    if "others" in args and others:
        for c in conts:
            cont["others." + c] = [value(a, c) for a in others]
        for d in discs:
            disc["others." + d] = [modes[a][discs.index(d)] for a in others]
        if static:
            disc["others.type"] = [stat[a] for a in others]
    return cont, disc, {"others": len(others)}


def check(S, res, want):
    cont, disc, length = res
    S.check("the variables reported are the agent's own and the others'", set(cont) == set(want[0]) and set(disc) == set(want[1]))
    S.check("the number of other agents is reported", dict(length) == want[2])
    for k, v in want[0].items():
        S.check("every continuous value is the value of its agent and variable", same(S, cont[k], v))
    for k, v in want[1].items():
        S.check("every mode is the mode of its agent", same(S, disc[k], v))


def sense(simulate, sizes):
    def contract(S):
        from verse.sensor.base_sensor import BaseSensor
        from verse.map.lane_map import LaneMap
        S.functions.add("verse.sensor.base_sensor.BaseSensor.sense")
        n = S.choice("n", sizes)
        conts, discs, static, args, ids, who = shape(S, n)
        modes = {a: tuple(MODES[d][1][(i + j) % len(MODES[d][1])] for j, d in enumerate(discs)) for i, a in enumerate(ids)}
        stat = {a: ("Vehicle", "Sign")[i % 2] for i, a in enumerate(ids)}
        t = S.real("t", rand=(0, 9))
        lo = {(a, c): S.real(f"{a}.{c}", rand=(-5, 5)) for a in ids for c in conts}
        hi = lo if simulate else {(a, c): S.real(f"{a}.{c}!hi", rand=(-5, 5)) for a in ids for c in conts}

        def row(vals, a):
            r = [t] + [vals[a, c] for c in conts]
            if S.sym:
                return r
            import numpy as np
            return np.array(r) if S.rng.random() < 0.5 else r

        def rows(a):
            if simulate:
                return row(lo, a)
            r = [row(lo, a), row(hi, a)]
            if S.sym or S.rng.random() < 0.5:
                return r
            import numpy as np
            return np.array(r)
        state = {a: (rows(a), modes[a], [stat[a]] if static else []) for a in ids}
        ag = agent(who, conts, discs, static, args)
        value = (lambda a, c: lo[a, c]) if simulate else (lambda a, c: [lo[a, c], hi[a, c]])
        want = expected(conts, discs, static, args, ids, who, value, modes, stat)
        res = S.native(BaseSensor().sense, ag, state, LaneMap(), simulate)
        check(S, res, want)
        again = S.native(BaseSensor().sense, ag, state, LaneMap(), simulate)
        check(S, again, want)
    return contract


def in_runs(S):
    """while simulating and verifying, every agent is sensed at one common time, with the states and modes of the node"""
    from ._kit import World
    import numpy as np
    W = World(S, agents=(2, 4), nrules=(1, 2), nasserts=(0, 1), box=True)
    dt, T = 0.5, S.choice("steps", [1, 2, 3]) * 0.5
    W.note(S, dt=dt, T=T)
    sc = W.scenario()
    real, log = sc.sensor.sense, []

    def sense_(ag, state, lane_map, simulate=True):
        res = real(ag, state, lane_map, simulate)
        log.append((ag, {a: (np.array(v[0], dtype=float).tolist(), tuple(v[1]), list(v[2])) for a, v in state.items()}, simulate, copy.deepcopy(res)))
        return res
    sc.sensor.sense = sense_
    kind = S.choice("kind", ["simulate", "verify"])
    tree = S.call(getattr(sc, kind), T, dt, 2)
    S.assume(log)
    S.check("the sensor is asked for points in simulation and for bounds in verification", all(l[2] == (kind == "simulate") for l in log))
    modes = [{a: tuple(n.mode[a]) for a in W.ids} for n in tree.nodes]
    for ag, state, simulate, res in log[:200]:
        S.check("every agent is sensed", set(state) == set(W.ids))
        S.check("modes are those of a node", {a: state[a][1] for a in W.ids} in modes)
        if simulate:
            S.check("all agents are sensed at the same time", len({round(state[a][0][0], 9) for a in W.ids}) == 1)
            value = lambda a, c: state[a][0][1 + W.conts.index(c)]
        else:
            S.check("all agents are sensed at the same time", len({round(r[0][0], 9) for r in [state[a][0] for a in W.ids]}) == 1)
            value = lambda a, c: [r[1 + W.conts.index(c)] for r in state[a][0]]
        L = W.logic[ag.id]
        want = expected(W.conts, W.discs, False, "ego, others" if L.others else "ego", list(state), ag.id, value, {a: state[a][1] for a in W.ids}, {})
        check(S, res, want)


def proved(name, simulate, sizes):
    return Contract(name, sense(simulate, sizes), prove="bounded", runs=(150, 1500), budget=(90, 300), max_paths=20000,
                    bound="up to 5 agents, 3 continuous and 2 discrete variables, with and without static data, 5 signatures; all values",
                    why_bounded="the number of agents and variables is enumerated")


PROP = Prop("P20", [
    proved("points", True, [1, 2, 3, 5]),
    proved("bounds", False, [1, 2, 3, 5]),
    Contract("in_runs", in_runs, prove=None, runs=(150, 1500)),
])
