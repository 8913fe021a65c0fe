"""P10  A simulation tree is one stitched execution per path."""
import random

from pyvc.contract import Contract, Prop
from pyvc.spec import resolve
from ._kit import World
from ._simtree import check_tree, size

CACHE = {}


class Fixed:
    def __init__(self, seed):
        self.rng = random.Random(seed)


def world(seed, **kw):
    key = (seed, tuple(sorted(kw.items())))
    if key not in CACHE:
        W = World(Fixed(seed), **kw)
        W.make_agents()
        CACHE[key] = W
    return CACHE[key]


def run(S, simple=False, short=False, **kw):
    W = World(S, **kw)
    dt = S.choice("dt", [0.5, 0.25, 1.0])
    T = S.choice("steps", [1, 2, 3] if short else [1, 2, 3, 5, 8]) * dt
    mh = S.choice("max_height", [2, 3] if short else [2, 3, 4])
    uc = S.rng.random() < 0.3
    sc = W.scenario(unsafe_continue=uc)
    W.note(S, dt=dt, T=T, max_height=mh)
    tree = S.call(sc.simulate_simple if simple else sc.simulate, T, dt, mh, S.rng.randint(0, 99))
    if size(tree.root) >= 400:
        S.assume(False)
    check_tree(S, W, tree.root, T, dt, mh, uc, simple)


def step_all_values(seeds, simple=False, steps=2, **kw):
    """the whole simulator runs on symbolic states: fixed decision logics, arbitrary dynamics and initial states"""
    def contract(S):
        from verse.analysis.simulator import Simulator
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse import ScenarioConfig
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        seed = S.choice("seed", seeds)
        W = world(seed, **kw)
        W.sym = S.sym
        W.log.clear()
        agents = W.make_agents()
        init = {a: [S.real(f"{a}.{c}", rand=(-3, 4)) for c in W.conts] for a in W.ids}
        W.init = {a: [init[a], init[a]] for a in W.ids}
        dt, T, mh = 1.0, float(steps), 3
        root = AnalysisTreeNode.root_from_inits({a: list(v) for a, v in init.items()}, dict(W.modes), {a: [] for a in W.ids}, {a: [] for a in W.ids}, agents, 10, AnalysisTreeNodeType.SIM_TRACE)
        sim = Simulator(ScenarioConfig(parallel=False, print_level=0))
        S.functions.add("verse.analysis.simulator.Simulator." + ("simulate_simple" if simple else "simulate"))
        args = (root, T, dt, mh, LaneMap(), BaseSensor(), 0, []) if simple else (root, BaseSensor(), T, dt, mh, LaneMap(), 0, [])
        S.native(sim.simulate_simple if simple else sim.simulate, *args)
        check_tree(S, W, root, T, dt, mh, False, simple)
    return contract


def simulate(S):
    run(S)


def simulate_box(S):
    run(S, box=True)


def simulate_simple(S):
    run(S, simple=True)


SYM = dict(conts=("x",), agents=(1, 2), nrules=(1, 2), depth=0, nasserts=(1, 1))
SYM2 = dict(conts=("x", "y"), agents=(2, 2), nrules=(1, 2), depth=1, nasserts=(1, 1), filt=True)
WHY = "whole-program symbolic execution needs a fixed decision logic and a fixed number of samples"


def proved(name, seeds, simple, steps, budget=(90, 600), runs=(30, 300), **kw):
    n = len(seeds)
    return Contract(name, step_all_values(seeds, simple, steps, **kw), prove="bounded", runs=runs, budget=budget, max_paths=20000,
                    bound=f"{n} generated decision logics, {steps} steps, depth limit 3; all initial states (reals) and all dynamics (uninterpreted flow functions)",
                    why_bounded=WHY)


PROP = Prop("P10", [
    Contract("simulate", simulate, prove=None, runs=(400, 4000)),
    Contract("simulate_box", simulate_box, prove=None, runs=(150, 1500)),
    Contract("simulate_simple", simulate_simple, prove=None, runs=(250, 2500)),
    proved("all_values_0", list(range(0, 13)), False, 2, **SYM),
    proved("all_values_1", list(range(13, 30)), False, 2, **SYM),
    proved("all_values_2", [0, 1, 2, 5, 6, 8, 9, 10, 12, 13], False, 2, **SYM2),
    proved("all_values_3", [11, 14, 16, 17, 18, 19, 20], False, 2, **SYM2),
    proved("simple_all_values_0", list(range(0, 15)), True, 2, **SYM),
    proved("simple_all_values_1", [15, 17, 18, 19, 20, 21, 22, 24, 26], True, 2, **SYM),
])
