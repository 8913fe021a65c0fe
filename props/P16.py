"""P16  With incremental mode on, running again gives what running from scratch gives."""
import copy
import random

import numpy as np

from pyvc.contract import Contract, Prop
from ._kit import MODES, Gen, Logic, World, make_agent, rnd
from ._guard import RecordingSolver
from ._simtree import check_tree, size
from ._verify import Conc, Symb, check_step, pair_hull, plain_terms
from .P15 import Interval, TREE, Tree

INC = "verse.analysis.incremental."


class Points(Tree):
    """the interval tree with matching tolerance 0: intervals may be single points"""

    def __setitem__(self, k, data):
        self.items.append(Interval(k.start, k.stop, data))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [i for i in self.items if i.begin <= k.stop and k.start <= i.end]
        return [i for i in self.items if i.begin <= k and k <= i.end]


class session:
    def __init__(self, S):
        self.S = S

    def __enter__(self):
        import verse.analysis.incremental as inc
        self.inc, self.old = inc, (inc.IntervalTree, inc._EPSILON)
        if self.S.sym:
            inc.IntervalTree, inc._EPSILON = Points, 0
        return inc

    def __exit__(self, *a):
        self.inc.IntervalTree, self.inc._EPSILON = self.old


# ------------------------------------------------------------------ changes between runs
def change(rng, W, what=("rules", "init", "modes", "asserts")):
    for a in W.ids:
        L = W.logic[a]
        rules, asserts = list(L.rules), list(L.asserts)
        g = Gen(rng, W.conts, W.discs, L.others, True)
        if "rules" in what and rng.random() < 0.35:
            c = rng.random()
            if c < 0.4 and rules:
                rules[rng.randrange(len(rules))] = g.rules(1)[0]
            elif c < 0.6 and rules:
                rules.pop(rng.randrange(len(rules)))
            elif c < 0.8 or not rules:
                rules.insert(rng.randint(0, len(rules)), g.rules(1)[0])
            else:
                i = rng.randrange(len(rules))
                rules[i] = (rules[i][0], g.rules(1)[0][1])
        if "asserts" in what and rng.random() < 0.12:
            asserts = g.asserts(rng.randint(0, 2))
        W.logic[a] = Logic(L.conts, L.discs, rules, asserts, L.others)
        lo, hi = W.init[a]
        if "init" in what:
            r = rng.random()
            if r < 0.25:
                new = [rnd(rng, -2, 2) for _ in W.conts]
                W.init[a] = [new, [n + (h - l) for n, l, h in zip(new, lo, hi)]]
            elif r < 0.4:
                W.init[a] = [list(lo), [l + (h - l) / 2 for l, h in zip(lo, hi)]]
        if "modes" in what and rng.random() < 0.12:
            W.modes[a] = tuple(rng.choice(MODES[d][1]) for d in W.discs)


def install(W, sc):
    """fresh agents with the current decision logics (dynamics never change)"""
    for a in W.ids:
        sc.add_agent(make_agent(copy.copy(W), a))
        sc.set_init_single(a, copy.deepcopy(W.init[a]), W.modes[a])


def nodes(root):
    out, q = [], [root]
    while q:
        n = q.pop(0)
        out.append(n)
        q += n.child
    return out


def close(a, b):
    a, b = np.array(a, float), np.array(b, float)
    return a.shape == b.shape and np.allclose(a, b, atol=1e-9)


def same_tree(S, a, b):
    q = [(a, b)]
    while q:
        a, b = q.pop()
        S.check("same modes", {k: tuple(v) for k, v in a.mode.items()} == {k: tuple(v) for k, v in b.mode.items()})
        S.check("same initial states", set(a.init) == set(b.init) and all(close(a.init[k], b.init[k]) for k in a.init))
        S.check("same start time", abs(a.start_time - b.start_time) < 1e-9)
        S.check("same traces", set(a.trace) == set(b.trace) and all(close(a.trace[k], b.trace[k]) for k in a.trace))
        S.check("same violated assertions", {k: list(v) for k, v in (a.assert_hits or {}).items()} == {k: list(v) for k, v in (b.assert_hits or {}).items()})
        S.check("same successors", len(a.child) == len(b.child))
        q += zip(a.child, b.child)


def history(S, kind):
    rng = S.rng
    W = World(S, box=kind == "verify", nrules=(1, 3), p_assert=0.3, filt=True, agents=(1, 3))
    uc = rng.random() < 0.2
    cfg = dict(unsafe_continue=uc, init_seg_length=rng.choice([1000, 1, 2]))
    inc = W.scenario(incremental=True, **cfg)
    inplace = rng.random() < 0.3
    log = S.draws["runs"] = []
    dt, T, mh = 0.5, 1.5, 3
    for r in range(rng.randint(2, 4)):
        if r == 0 or rng.random() < 0.3:
            dt = rng.choice([0.5, 0.5, 0.5, 1.0])
            T, mh = rng.choice([2, 3, 3, 3, 5]) * dt, rng.choice([2, 3, 4])
        seed = rng.randint(0, 99)
        W.agents = None
        fresh = W.scenario(**cfg)
        if r and inplace:  # the decision logic of the agent in the scenario is replaced
            for a in W.ids:
                inc.agent_dict[a].decision_logic = fresh.agent_dict[a].decision_logic
                inc.set_init_single(a, copy.deepcopy(W.init[a]), W.modes[a])
        else:
            install(W, inc)
        log.append(dict(codes={a: W.logic[a].code() for a in W.ids}, vel={a: {"/".join(m): v for m, v in W.vel[a].items()} for a in W.ids},
                        init=copy.deepcopy(W.init), modes=dict(W.modes), dt=dt, T=T, max_height=mh, seed=seed, inplace=inplace, **cfg))
        if kind == "simulate":
            t1 = S.call(inc.simulate, T, dt, mh, seed)
            t2 = S.call(fresh.simulate, T, dt, mh, seed)
        else:
            t1, t2 = verify_both(S, inc, fresh, T, dt, mh)
        if len(nodes(t2.root)) > 120:
            S.assume(False)
        same_tree(S, t1.root, t2.root)
        if rng.random() < 0.7:
            change(rng, W)


def verify_both(S, inc, fresh, T, dt, mh):
    """the run from scratch is given the tubes the incremental run used, each of which has to contain its own"""
    import verse.analysis.verifier as V
    orig = V.Verifier.calculate_full_bloated_tube_simple
    log = []

    def rec(*a, **k):
        res = orig(*a, **k)
        log.append((a[0], tuple(a[3]), copy.deepcopy(a[4]), a[5], a[6], copy.deepcopy(res[0])))
        return res

    def rep(*a, **k):
        S.check("no other tubes are needed from scratch", len(log) > 0)
        l = log.pop(0)
        S.check("the same tubes are needed from scratch", l[0] == a[0] and l[1] == tuple(a[3]) and close(l[3:5], a[5:7]) and close(l[2], a[4]))
        own, used = np.array(orig(*a, **k)[0]), np.array(l[5])
        S.check("the tube covers the same time", own.shape == used.shape and close(own[:, 0], used[:, 0]))
        S.check("the tube contains the one computed from scratch", bool((used[0::2, 1:] <= own[0::2, 1:] + 1e-7).all() and (used[1::2, 1:] >= own[1::2, 1:] - 1e-7).all()))
        return l[5], []
    try:
        V.Verifier.calculate_full_bloated_tube_simple = staticmethod(rec)
        t1 = S.call(inc.verify, T, dt, mh)
        V.Verifier.calculate_full_bloated_tube_simple = staticmethod(rep)
        t2 = S.call(fresh.verify, T, dt, mh)
    finally:
        V.Verifier.calculate_full_bloated_tube_simple = staticmethod(orig)
    S.check("no tube is missing", not log)
    return t1, t2


def simulate_histories(S):
    history(S, "simulate")


def verify_histories(S):
    history(S, "verify")


# ------------------------------------------------------------------ all values
class Fixed:
    def __init__(self, seed):
        self.rng = random.Random(seed)


CACHE = {}


def worlds(seed, what, **kw):
    key = (seed, what, tuple(sorted(kw.items())))
    if key not in CACHE:
        W = World(Fixed(seed), **kw)
        W.make_agents()
        W2 = copy.copy(W)
        W2.logic, W2.init, W2.modes, W2.agents = dict(W.logic), dict(W.init), dict(W.modes), None
        if what:
            change(random.Random(seed * 7 + 1), W2, what)
        W2.make_agents()
        CACHE[key] = W, W2
    return CACHE[key]


def simulate_all_values(seeds, what, steps, **kw):
    def contract(S):
        from verse.analysis.simulator import Simulator
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse import ScenarioConfig
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        seed = S.choice("seed", seeds)
        W1, W2 = worlds(seed, what, **kw)
        init = {a: [S.real(f"{a}.{c}", rand=(-3, 4)) for c in W1.conts] for a in W1.ids}
        dt, T, mh = 1.0, float(steps), 3
        S.functions.update({"verse.analysis.simulator.Simulator.simulate", "verse.analysis.simulator.Simulator.simulate_one", "verse.analysis.simulator.Simulator.proc_result",
                            "verse.analysis.simulator.Simulator.get_transition_simulate", INC + "to_simulate", INC + "SimTraceCache.add_segment", INC + "SimTraceCache.check_hit"})
        with session(S):
            sim = Simulator(ScenarioConfig(parallel=False, print_level=0, incremental=True))
            past = []
            for r, W in enumerate([W1, W2]):
                W.sym = S.sym
                W.log.clear()
                W.init = {a: [init[a], init[a]] for a in W.ids}
                root = AnalysisTreeNode.root_from_inits({a: list(v) for a, v in init.items()}, dict(W.modes), {a: [] for a in W.ids}, {a: [] for a in W.ids}, W.make_agents(), 10, AnalysisTreeNodeType.SIM_TRACE)
                past.append(S.native(sim.simulate, root, BaseSensor(), T, dt, mh, LaneMap(), r, past))
        check_tree(S, W2, root, T, dt, mh, False, False)
    return contract


def verify_all_tubes(seeds, what, nseg, **kw):
    def contract(S):
        import verse.analysis.verifier as V
        import verse.automaton.guard as G_
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse import ScenarioConfig
        from verse.analysis import ReachabilityMethod
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        seed = S.choice("seed", seeds)
        W1, W2 = worlds(seed, what, **kw)
        trace, bounds = {}, []
        for a in W1.ids:
            rows = []
            for k in range(nseg):
                lo = [S.real(f"lo!{a}!{c}!{k}", rand=(-3, 3)) for c in W1.conts]
                wd = [S.real(f"w!{a}!{c}!{k}", lo=0, rand=(0, 3)) for c in W1.conts]
                hi = [l + w for l, w in zip(lo, wd)] if not S.sym else [S.real(f"hi!{a}!{c}!{k}") for c in W1.conts]
                if S.sym:
                    for l, h in zip(lo, hi):
                        S.assume(l <= h)
                    bounds += [x.t for x in lo + hi]
                rows += [[float(k)] + lo, [float(k + 1)] + hi]
            trace[a] = rows
        S.functions.update({"verse.analysis.verifier.Verifier.compute_full_reachtube", "verse.analysis.verifier.Verifier.compute_full_reachtube_step", "verse.analysis.verifier.Verifier.proc_result",
                            "verse.analysis.verifier.Verifier.get_transition_verify_opt", INC + "to_simulate", INC + "ReachTubeCache.add_tube", INC + "ReachTubeCache.check_hit"})
        olds = (G_.Solver, V.combine_rect, G_.GuardExpressionAst.evaluate_guard_cont)
        if S.sym:
            G_.Solver = type("Rec", (RecordingSolver,), {"bounds": bounds})
            V.combine_rect = pair_hull
            G_.GuardExpressionAst.evaluate_guard_cont = plain_terms(olds[2])
        try:
            with session(S):
                cfg = ScenarioConfig(parallel=False, print_level=0, incremental=True, init_seg_length=1)
                ver, past = V.Verifier(cfg), []
                for r, W in enumerate([W1, W2]):
                    W.seg = 1
                    root = AnalysisTreeNode.root_from_inits({a: [[trace[a][0][1:], trace[a][1][1:]]] for a in W.ids}, dict(W.modes), {a: [] for a in W.ids}, {a: [] for a in W.ids}, W.make_agents(), 10, AnalysisTreeNodeType.REACH_TUBE)
                    root.trace = {a: [list(x) for x in trace[a]] for a in W.ids}
                    past.append(S.native(ver.compute_full_reachtube, root, BaseSensor(), float(nseg), 1.0, 2, LaneMap(), 1, ReachabilityMethod.DRYVR, r, past))
        finally:
            G_.Solver, V.combine_rect, G_.GuardExpressionAst.evaluate_guard_cont = olds
        check_step(S, W2, root, trace, (0, 0, root.child, root.trace, root.assert_hits, None, None), nseg, Symb(S, bounds) if S.sym else Conc(S))
    return contract


ALL = ("rules", "asserts")
SIM = dict(conts=("x", "y"), agents=(1, 2), nrules=(1, 3), depth=0, nasserts=(0, 1), p_assert=0.3, discs=("agent_mode",))
VER = dict(conts=("x",), agents=(1, 2), nrules=(1, 2), depth=0, nasserts=(0, 1), p_assert=0.3, discs=("agent_mode",))
WHY = "whole-program symbolic execution needs fixed decision logics and a fixed number of samples"


def sim(name, seeds, what, steps=1):
    return Contract(name, simulate_all_values(seeds, what, steps, **SIM), prove="bounded", runs=(30, 300), budget=(150, 600), max_paths=20000, why_bounded=WHY,
                    bound=f"{len(seeds)} generated pairs of decision logics run one after the other, {steps} step(s), depth limit 3, matching tolerance 0; all initial states (reals), all dynamics (uninterpreted)")


def ver(name, seeds, what, nseg=2):
    return Contract(name, verify_all_tubes(seeds, what, nseg, **VER), prove="bounded", runs=(20, 200), budget=(150, 600), max_paths=20000, why_bounded=WHY,
                    bound=f"{len(seeds)} generated pairs of decision logics verified one after the other, one node, {nseg} segments, matching tolerance 0; all tubes (reals)")


PROP = Prop("P16", [
    Contract("simulate_histories", simulate_histories, prove=None, runs=(250, 3000)),
    Contract("verify_histories", verify_histories, prove=None, runs=(70, 1000)),
    sim("simulate_unchanged_0", list(range(4)), ()),
    sim("simulate_unchanged_1", list(range(4, 8)), ()),
    sim("simulate_changed_0", list(range(8, 18)), ALL),
    sim("simulate_changed_1", list(range(18, 28)), ALL),
    ver("verify_unchanged", list(range(8)), ()),
    ver("verify_changed_0", [8, 9, 10, 11, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 28, 29, 30], ALL),
    ver("verify_changed_1", [26, 27, 31, 32, 33, 35, 36, 38], ALL),
    ver("verify_changed_2", [37, 39, 41, 42, 43, 44, 45, 46, 47], ALL),
], assumes=[TREE, "sensor, map and agent dynamics do not change between runs (documented condition); dynamics are a function of mode and state",
            "the tube of the engine used for a set contains the tube it gives for a subset of it (checked on generated inputs)"])
