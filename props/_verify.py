"""Verification runs and single verification steps (P11, P13, P14)."""
import random

import numpy as np

from pyvc.contract import Contract
from ._guard import RecordingSolver
from ._kit import FixedWorld, World
from ._reachtree import Conc, Node, Symb, check_asserts, check_children, check_reach
from ._simtree import size



def run(S, what=("P11", "P13", "P14"), short=False, **kw):
    W = World(S, box=True, **kw)
    dt = S.choice("dt", [0.5, 0.25, 1.0])
    T = S.choice("steps", [1, 2, 3] if short else [1, 2, 3, 5, 8]) * dt
    mh = S.choice("max_height", [2, 3])
    uc = S.rng.random() < 0.15
    W.seg = seg = S.choice("seg", [1000, 1, 2])
    sc = W.scenario(unsafe_continue=uc, init_seg_length=seg)
    W.note(S, dt=dt, T=T, max_height=mh, unsafe_continue=uc)
    tree = S.call(sc.verify, T, dt, mh)
    if size(tree.root) >= 60:
        S.assume(False)
    check_reach(S, W, tree.root, T, dt, mh, what, uc)


class Fixed:
    def __init__(self, seed):
        self.rng = random.Random(seed)


CACHE = {}


def world(seed, **kw):
    key = (seed, tuple(sorted(kw.items())))
    if key not in CACHE:
        W = World(Fixed(seed), **kw)
        W.make_agents()
        CACHE[key] = W
    return CACHE[key]


def step_all_tubes(seeds, nseg, **kw):
    """one step of the verifier on tubes whose bounds are variables"""
    def contract(S):
        import verse.analysis.verifier as V
        import verse.automaton.guard as G_
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse.analysis.verifier import ReachConsts
        from verse import ScenarioConfig
        from verse.analysis import ReachabilityMethod
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        seed = S.choice("seed", seeds)
        W = world(seed, **kw)
        W.seg = 1
        agents = W.make_agents()
        trace, bounds = {}, []
        for a in W.ids:
            rows = []
            for k in range(nseg):
                lo = [S.real(f"lo!{a}!{c}!{k}", rand=(-3, 3)) for c in W.conts]
                wd = [S.real(f"w!{a}!{c}!{k}", lo=0, rand=(0, 3)) for c in W.conts]
                hi = [l + w for l, w in zip(lo, wd)] if not S.sym else [S.real(f"hi!{a}!{c}!{k}") for c in W.conts]
                if S.sym:
                    for l, h in zip(lo, hi):
                        S.assume(l <= h)
                    bounds += [x.t for x in lo + hi]
                rows += [[float(k)] + lo, [float(k + 1)] + hi]
            trace[a] = rows
        node = AnalysisTreeNode.root_from_inits({a: [[trace[a][0][1:], trace[a][1][1:]]] for a in W.ids}, dict(W.modes), {a: [] for a in W.ids}, {a: [] for a in W.ids}, agents, 10, AnalysisTreeNodeType.REACH_TUBE)
        node.trace = {a: [list(r) for r in trace[a]] for a in W.ids}
        sensor, lm = BaseSensor(), LaneMap()
        consts = ReachConsts(1.0, lm, 1, ReachabilityMethod.DRYVR, 0, [], sensor, agents)
        S.functions.update(("verse.analysis.verifier.Verifier.compute_full_reachtube_step", "verse.analysis.verifier.Verifier.get_transition_verify_opt", "verse.analysis.verifier.Verifier.apply_reset"))
        cfg = ScenarioConfig(parallel=False, print_level=0)
        olds = (G_.Solver, V.combine_rect, G_.GuardExpressionAst.evaluate_guard_cont)
        if S.sym:
            G_.Solver = type("Rec", (RecordingSolver,), {"bounds": bounds})
            V.combine_rect = pair_hull
            G_.GuardExpressionAst.evaluate_guard_cont = plain_terms(olds[2])
        try:
            res = S.native(V.Verifier.compute_full_reachtube_step, cfg, {}, {}, node, None, 0, float(nseg), consts, 10)
        finally:
            G_.Solver, V.combine_rect, G_.GuardExpressionAst.evaluate_guard_cont = olds
        check_step(S, W, node, trace, res, nseg, Symb(S, bounds) if S.sym else Conc(S))
    return contract


def pair_hull(rows):
    """contract of combine_rect (P02) for one lower/upper pair"""
    assert len(rows) == 2
    return [list(rows[0]), list(rows[1])]


def plain_terms(f):
    """the guard code builds solver formulas: it gets the terms themselves"""
    from pyvc.core import term

    def g(self, agent, cont, *a):
        conv = lambda v: [conv(x) for x in v] if hasattr(v, "__len__") else term(v, "real")
        return f(self, agent, {k: conv(v) for k, v in cont.items()}, *a)
    return g


def check_step(S, W, node, trace, res, nseg, Q):
    _, _, kids, rows, hits, _, _ = res
    modes = {a: tuple(node.mode[a]) for a in W.ids}
    n = len(rows[W.ids[0]]) // 2
    for a in W.ids:
        S.check("the node keeps its tube up to where exploration ends", len(rows[a]) == 2 * n and all(x is y or S.eq(x, y) is True for r, q in zip(rows[a], trace[a]) for x, y in zip(r, q)))
    segs = [{a: (trace[a][2 * k][1:], trace[a][2 * k + 1][1:]) for a in W.ids} for k in range(nseg)]
    N = Node(W, Q, modes)
    if check_asserts(S, W, N, segs[:n], hits):
        S.check("exploration stops where an assertion is violated", len(kids) == 0)
        return
    children = []
    for c in kids:
        sw = [a for a in W.ids if a not in c.trace]
        S.check("one agent switches per successor, the others continue their tubes", len(sw) == 1)
        who = sw[0]
        k0 = int(round(c.start_time))
        S.check("a successor starts at a segment of its parent, one level deeper", 0 <= k0 < n and c.start_time == k0 and c.height == node.height + 1)
        for a in W.ids:
            if a != who:
                S.check("an agent that does not switch keeps its mode", tuple(c.mode[a]) == modes[a])
                S.check("an agent that does not switch continues its own tube", len(c.trace[a]) == 2 * (nseg - k0) and all(x is y or S.eq(x, y) is True for r, q in zip(c.trace[a], trace[a][2 * k0:]) for x, y in zip(r, q)))
                S.check("its initial set is its own set at the start of the successor", len(c.init[a]) == 1 and all(x is y or S.eq(x, y) is True for r, q in zip(c.init[a][0], segs[k0][a]) for x, y in zip(r, q)))
        children.append((who, tuple(c.mode[who]), c.init[who], k0))
    check_children(S, W, N, segs[:n], None, children)
    if not kids:
        S.check("without a transition the tube runs to the horizon", n == nseg)
    elif n < nseg and not N.all_leave(segs[n - 1]):
        S.check("the tube continues while states can take transitions", not any(N.hit(segs[n], a) for a in W.ids))


SYM = dict(conts=("x",), agents=(1, 2), nrules=(1, 2), depth=0, nasserts=(0, 1), discs=("agent_mode",))
SYM3 = dict(SYM, conts=("x", "y"), depth=1, resets=0.3)


def tubes(name, seeds, nseg, budget=(120, 600), runs=(40, 400), **kw):
    return Contract(name, step_all_tubes(seeds, nseg, **kw), prove="bounded", runs=runs, budget=budget, max_paths=30000,
                    bound=f"{len(seeds)} generated decision logics, tubes of {nseg} segments; all tubes (real bounds)",
                    assumes=["combine_rect is used by its contract (P02)"],
                    why_bounded="whole-program symbolic execution needs a fixed decision logic and number of segments; the solver called by the code is replaced by its mathematical meaning")



METHODS = {"DRYVR": "verse.analysis.verifier.calc_bloated_tube", "DRYVR_DISC": "verse.analysis.dryvr_disc.calc_bloated_tube_dryvr",
           "MIXMONO_CONT": "verse.analysis.mixmonotone.calculate_bloated_tube_mixmono_cont", "MIXMONO_DISC": "verse.analysis.mixmonotone.calculate_bloated_tube_mixmono_disc"}


def step_inits(maxm):
    """one step of the verifier: the tube of a node is computed from a set that contains all its initial sets"""
    def contract(S):
        import importlib
        import verse.analysis.verifier as V
        from verse import ScenarioConfig
        from verse.analysis import ReachabilityMethod
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse.analysis.verifier import ReachConsts
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        name = S.choice("method", sorted(METHODS))
        m = S.choice("m", list(range(1, maxm + 1)))
        late = S.choice("continues", [False, True])
        conts, dt, t0, L = ("x", "y"), 0.5, 2.5, 3
        W = FixedWorld(conts, ("agent_mode",), {a: ([], [], {("A",): [v, 0.5], ("B",): [v, 0.5]}, (mo,), None) for a, mo, v in (("car0", "A", 1.0), ("car1", "B", 2.0))})
        agents = W.make_agents()
        sets = {}
        for a in W.ids:
            sets[a] = []
            for i in range(m if a == "car0" else 1):
                lo = [S.real(f"lo!{a}!{i}!{c}", rand=(-3, 3)) for c in conts]
                hi = [S.real(f"hi!{a}!{i}!{c}", rand=(-3, 3)) for c in conts]
                if S.sym:
                    S.assume(S.And(*[S.And(l <= h, l >= -3, h <= 3) for l, h in zip(lo, hi)]))
                else:
                    lo, hi = [min(p) for p in zip(lo, hi)], [max(p) for p in zip(lo, hi)]
                sets[a].append([lo, hi])
        node = AnalysisTreeNode.root_from_inits({a: list(sets[a]) for a in W.ids}, {"car0": ("A",), "car1": ("B",)}, {a: [] for a in W.ids}, {a: ["u", a] for a in W.ids}, agents, 10, AnalysisTreeNodeType.REACH_TUBE)
        node.start_time = t0
        if late:
            node.trace = {"car1": [[t0 + (k + e) * dt, 0.0, 0.0] for k in range(L) for e in (0, 1)]}
        given = {k: list(v) for k, v in node.trace.items()}
        calls, result = [], {}

        def tube(c):
            calls.append(c)
            return [[(k + e) * dt, float(len(calls)), float(k + e)] for k in range(L) for e in (0, 1)]

        def dryvr(mode, init, horizon, step, sim, *a, **kw):
            return np.array(tube((mode, [init], horizon, step, sim, None)))

        def mixed(mode, inits, unc, horizon, step, agent, lane_map):
            return tube((mode, inits, horizon, step, agent.TC_simulate, unc))
        mod, fn = METHODS[name].rsplit(".", 1)
        mod = importlib.import_module(mod)
        sensor, lm = BaseSensor(), LaneMap()
        consts = ReachConsts(dt, lm, 1000, ReachabilityMethod[name], 0, [], sensor, agents)
        S.functions.update(("verse.analysis.verifier.Verifier.compute_full_reachtube_step", "verse.analysis.verifier.Verifier.calculate_full_bloated_tube_simple"))
        old = getattr(mod, fn)
        setattr(mod, fn, mixed if name.startswith("MIX") else dryvr)
        try:
            res = S.native(V.Verifier.compute_full_reachtube_step, ScenarioConfig(parallel=False, print_level=0), {}, {}, node, None, 0, L * dt, consts, 10)
        finally:
            setattr(mod, fn, old)
        todo = [a for a in W.ids if a not in given]
        S.check("one tube per agent that has none", len(calls) == len(todo))
        for c, (mode, boxes, horizon, step, sim, unc) in enumerate(calls):
            a = next((a for a in todo if tuple(mode) == tuple(node.mode[a])), None)
            S.check("a tube is computed in the mode of an agent without one", a is not None)
            S.check("with the dynamics of that agent", float(sim(mode, [0.0, 0.0], dt, dt, lm)[-1][1]) == W.vel[a][("A",)][0] * dt and (unc is None or unc == ["u", a]))
            S.check("over the remaining time, with the step of the scenario", horizon == L * dt and step == dt)
            for lo, hi in sets[a]:
                S.check("from a set that contains each initial set of the agent", S.Or(*[S.And(*[S.And(l2 <= l, h <= h2) for l, h, l2, h2 in zip(lo, hi, b[0], b[1])]) for b in boxes]))
            got = res[3][a]
            S.check("the tube of the agent is that tube, at the time of the node", len(got) == 2 * L and all([float(v) for v in got[2 * k + e]] == [t0 + (k + e) * dt, float(c + 1), float(k + e)] for k in range(L) for e in (0, 1)))
        for a in given:
            S.check("an agent that has a tube keeps it", [list(map(float, r)) for r in res[3][a]] == given[a])
    return contract
