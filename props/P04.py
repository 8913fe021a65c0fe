"""P04  Reset boxes contain every reset state."""
import itertools
import random

from pyvc.contract import Contract, Prop
from ._kit import MODES, Gen, Logic, ev, rnd, src

NAMES = [("x",), ("x", "y"), ("x", "x2"), ("y", "x2", "x"), ("v", "xv", "x"), ("x", "x2", "x22")]


class G(Gen):
    def affine(self, depth=2):
        r = self.rng.random()
        if depth == 0 or r < 0.4:
            return ("var", "ego", self.rng.choice(self.conts)) if self.rng.random() < 0.75 else ("const", rnd(self.rng))
        if r < 0.55:
            return ("*", ("const", rnd(self.rng, -2, 2, 2)), self.affine(depth - 1))
        if r < 0.62:
            return ("neg", self.affine(depth - 1))
        return (self.rng.choice(["+", "-"]), self.affine(depth - 1), self.affine(depth - 1))


def linear(e, conts):
    """coefficients (constant first) of an affine expression"""
    at = lambda **kw: ev(e, {"ego": {c: kw.get(c, 0.0) for c in conts}})
    k = at()
    return k, [at(**{c: 1.0}) - k for c in conts]


def make(rng):
    conts = rng.choice(NAMES)
    discs = rng.choice([("agent_mode",), ("agent_mode", "tag_mode"), ("tag_mode", "agent_mode")])
    g = G(rng, conts, discs)
    ass = {}
    for d in discs:
        if rng.random() < 0.6:
            ass[d] = rng.choice(MODES[d][1])
    for c in conts:
        if rng.random() < 0.6:
            e = g.affine()
            ass[c] = ("const", 1.25) if e == ("var", "ego", c) else e
    if not ass:
        ass[discs[0]] = "B"
    return conts, discs, ass


def reset(S, rng, box_of, call):
    from verse.agents.base_agent import BaseAgent
    from verse.automaton import ResetExpression
    conts, discs, ass = make(rng)
    L = Logic(conts, discs, [(("cmp", ">=", ("var", "ego", conts[0]), ("const", -100)), ass)], [], False)
    agent = BaseAgent("car", code=L.code())
    modes = tuple(rng.choice(MODES[d][1]) for d in discs)
    lo, hi = box_of(conts)
    S.draws.update(code=L.code(), modes=modes)
    if not S.sym:
        S.draws.update(box=[lo, hi])
    disc = {"ego." + d: m for d, m in zip(discs, modes)}
    cont = {"ego." + c: [l, h] for c, l, h in zip(conts, lo, hi)}
    resets = [(ResetExpression((p.var, p.val_veri)), disc, cont, 0, p) for p in agent.decision_logic.paths]
    S.functions.add("verse.analysis.verifier.Verifier.apply_reset")
    from verse.analysis.verifier import Verifier
    before = (list(lo), list(hi))
    dests, rect = call(Verifier.apply_reset, agent, resets, {"car": ([[0.0, *lo], [1.0, *hi]], modes, [])}, None)
    S.check("destination is exactly what the resets assign", [tuple(d) for d in dests] == [tuple(ass.get(d, m) for d, m in zip(discs, modes))])
    S.check("the box has every variable", len(rect) == 2 and len(rect[0]) == len(rect[1]) == len(conts))
    for i, c in enumerate(conts):
        if c in ass:
            k, cs = linear(ass[c], conts)
            low = k + sum(a * (l if a >= 0 else h) for a, l, h in zip(cs, lo, hi))
            high = k + sum(a * (h if a >= 0 else l) for a, l, h in zip(cs, lo, hi))
            S.check("the reset box contains the reset of every state", S.And(S.le(rect[0][i], low), S.le(high, rect[1][i])))
            S.check("the reset box is tight", S.And(S.le(low, rect[0][i]), S.le(rect[1][i], high)))
        else:
            S.check("a variable without assignment keeps its range", S.And(S.eq(rect[0][i], lo[i]), S.eq(rect[1][i], hi[i])))
    S.check("the state before the reset is not modified", S.And(*[S.eq(a, b) for x, y in zip(before, (lo, hi)) for a, b in zip(x, y)]))


def some_boxes(S):
    rng = S.rng

    def box(conts):
        lo = [rnd(rng, -4, 4) * rng.choice([1, 1, 1, 1e-7, 1e6]) for _ in conts]
        return lo, [l + rng.choice([0, 0.25, 1, 3]) for l in lo]
    reset(S, rng, box, S.call)


def all_boxes(seeds):
    def contract(S):
        rng = random.Random(S.choice("seed", seeds))

        def box(conts):
            lo = [S.real(f"lo.{c}", rand=(-3, 3)) for c in conts]
            w = [S.real(f"w.{c}", rand=(0, 3)) for c in conts]
            for x in w:
                S.assume(x >= 0)
            return lo, [l + x for l, x in zip(lo, w)]
        reset(S, rng, box, S.native)
    return contract


def transition(S):
    """through the verifier: the successor's initial sets are the reset of the whole set that may transition"""
    from verse import Scenario, ScenarioConfig
    import numpy as np
    from verse.agents.base_agent import BaseAgent
    rng = S.rng
    conts, discs, ass = make(rng)
    L = Logic(conts, discs, [(("cmp", ">=", ("var", "ego", conts[0]), ("const", -100)), ass)], [], False)

    class A(BaseAgent):
        def TC_simulate(self, mode, init, horizon, step, lane_map=None):
            n = int(np.floor(horizon / step + 0.5))
            return np.array([[k * step, *init] for k in range(n + 1)])
    sc = Scenario(ScenarioConfig(parallel=False, print_level=0))
    sc.add_agent(A("car", code=L.code()))
    lo = [rnd(rng) for _ in conts]
    hi = [l + rng.choice([0, 0.5, 1]) for l in lo]
    modes = tuple(rng.choice(MODES[d][1]) for d in discs)
    sc.set_init_single("car", [lo, hi], modes)
    S.draws.update(code=L.code(), box=[lo, hi], modes=modes)
    tree = S.call(sc.verify, 1.0, 0.5, 2)
    S.check("the transition is taken", len(tree.root.child) == 1)
    n = tree.root.child[0]
    S.check("destination is exactly what the resets assign", tuple(n.mode["car"]) == tuple(ass.get(d, m) for d, m in zip(discs, modes)))
    rects = n.init["car"]
    for i, c in enumerate(conts):
        k, cs = linear(ass[c], conts) if c in ass else (0.0, [1.0 if j == i else 0.0 for j in range(len(conts))])
        low = k + sum(a * (l if a >= 0 else h) for a, l, h in zip(cs, lo, hi))
        high = k + sum(a * (h if a >= 0 else l) for a, l, h in zip(cs, lo, hi))
        S.check("the successor's initial set contains the reset of every state", S.And(S.le(min(r[0][i] for r in rects), low), S.le(high, max(r[1][i] for r in rects))))


PROP = Prop("P04", [
    Contract("some_boxes", some_boxes, prove=None, runs=(1500, 15000)),
    Contract("transition", transition, prove=None, runs=(100, 1000)),
] + [Contract(f"all_boxes_{k}", all_boxes(list(range(50 * k, 50 * k + 50))), prove="bounded", runs=(50, 500), max_paths=20000,
              bound="50 generated sets of affine resets over at most 3 variables; all boxes (real bounds)", why_bounded="the reset expressions are fixed programs")
     for k in range(3)], assumes=["reset expressions are affine in the agent's own state (the code states the same assumption)"])
