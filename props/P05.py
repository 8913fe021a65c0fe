"""P05  Guard verdicts on boxes of states are exact."""
import random

import z3

from pyvc.contract import Contract, Prop
from pyvc.spec import CTX
from ._guard import RecordingSolver, agent_of, dicts, encode, exact, exists, verdict
from ._kit import MODES, Gen, enc, rnd, src

OPS = ("<", "<=", ">", ">=", "==", "!=")


class G(Gen):
    def cmp(self, who="ego", ops=OPS):
        return super().cmp(who, ops if self.rng.random() < 0.3 else ("<", "<=", ">", ">="))

    def num(self, who="ego", depth=1):
        r = self.rng.random()
        if depth and r < 0.06:
            return ("neg", self.num(who, depth - 1))
        if depth and r < 0.10 and self.poly:
            return ("pow", ("var", who, self.rng.choice(self.conts)), 2)
        return super().num(who, depth)
    poly = False


def has_q(e):
    return isinstance(e, (tuple, list)) and (bool(e) and e[0] in ("any", "all") or any(has_q(x) for x in e))


def random_box(rng, n):
    lo = [rnd(rng, -4, 4) for _ in range(n)]
    return [lo, [x + rng.choice([0, 0.25, 0.5, 1, 2, 4]) for x in lo]]


def make(rng, depth, poly=False, others=0):
    conts = rng.choice([("x",), ("x", "y"), ("x", "x2"), ("y", "x2", "x"), ("v", "xv", "x")])
    discs = rng.choice([("agent_mode",), ("agent_mode", "tag_mode")])
    g = G(rng, conts, discs, others > 0)
    g.poly = poly
    return conts, discs, g.cond(depth)


def some_boxes(depth, poly=False, others=(0, 2)):
    """random guards over the agent's own and the other agents' states, random boxes"""
    def contract(S):
        rng = S.rng
        n = rng.randint(*others)
        conts, discs, cond = make(rng, depth, poly, n)
        ids = ["car"] + [f"o{k}" for k in range(n)]
        L, agent = agent_of(cond, conts, discs, n > 0 or has_q(cond) or rng.random() < 0.3)
        boxes = {a: random_box(rng, len(conts)) for a in ids}
        modes = {a: tuple(rng.choice(MODES[d][1]) for d in discs) for a in ids}
        S.draws.update(guard=src(cond), boxes=boxes, modes=modes)
        paths = agent.decision_logic.paths
        S.assume(len(paths) == 1)
        want = exact(cond, conts, discs, boxes, modes, "car", ids)
        S.assume(want is not None)
        cont, disc, lens = dicts(conts, discs, boxes, modes, "car", ids, L.others)
        got = verdict(S.call, agent, paths[0].cond_veri, cont, disc, lens)
        S.check("a guard some state satisfies is reported satisfiable", not want[0] or got[0])
        S.check("a guard no state satisfies is not reported satisfiable", want[0] or not got[0])
        if want[0]:
            S.check("containment is reported exactly when all states satisfy the guard", got[1] == want[1])
        else:
            S.check("containment is never reported without satisfaction", not got[1])
    return contract


def all_boxes(seeds, depth, others):
    """fixed guards, every box: the bounds are variables"""
    def contract(S):
        import verse.automaton.guard as G_
        seed = S.choice("seed", seeds)
        rng = random.Random(seed)
        n = rng.randint(*others)
        conts, discs, cond = make(rng, depth, False, n)
        ids = ["car"] + [f"o{k}" for k in range(n)]
        L, agent = agent_of(cond, conts, discs, n > 0 or has_q(cond))
        paths = agent.decision_logic.paths
        modes = {a: tuple(rng.choice(MODES[d][1]) for d in discs) for a in ids}
        if len(paths) != 1:
            return
        if not S.sym:
            boxes = {a: random_box(S.rng, len(conts)) for a in ids}
            want = exact(cond, conts, discs, boxes, modes, "car", ids)
            cont, disc, lens = dicts(conts, discs, boxes, modes, "car", ids, L.others)
            S.draws.update(guard=src(cond), boxes=boxes, modes=modes)
            got = verdict(S.call, agent, paths[0].cond_veri, cont, disc, lens)
            S.check("verdict is exact", got == want)
            return
        boxes = {a: [[z3.Real(f"lo!{a}!{v}") for v in conts], [z3.Real(f"hi!{a}!{v}") for v in conts]] for a in ids}
        bounds = [b for a in ids for r in boxes[a] for b in r]
        for a in ids:
            for l, h in zip(*boxes[a]):
                CTX.pc.append(l <= h)
        cont, disc, lens = dicts(conts, discs, boxes, modes, "car", ids, L.others)
        old = G_.Solver
        G_.Solver = type("Rec", (RecordingSolver,), {"bounds": bounds})
        S.functions.update("verse.automaton.guard.GuardExpressionAst." + f for f in ("parse_any_all_new", "evaluate_guard_disc", "evaluate_guard_hybrid", "evaluate_guard_cont"))
        try:
            sat, contained = verdict(S.native, agent, paths[0].cond_veri, cont, disc, lens)
        finally:
            G_.Solver = old
        env, box, vs = encode(conts, discs, boxes, modes, "car", ids)
        f = enc(cond, env)
        some = exists(z3.And(box + [f]), bounds)
        off = exists(z3.And(box + [z3.Not(f)]), bounds)
        CTX.oblige_all("satisfiable exactly when some state satisfies the guard", some if sat else z3.Not(some))
        if sat:
            CTX.oblige_all("contained exactly when all states satisfy the guard", z3.Not(off) if contained else off)
        else:
            S.check("containment is never reported without satisfaction", not contained)
    return contract


PROP = Prop("P05", [
    Contract("own_state", some_boxes(2, others=(0, 0)), prove=None, runs=(700, 6000)),
    Contract("other_agents", some_boxes(2, others=(1, 3)), prove=None, runs=(500, 5000)),
    Contract("deep", some_boxes(3, others=(0, 2)), prove=None, runs=(300, 3000)),
    Contract("polynomial", some_boxes(1, poly=True, others=(0, 1)), prove=None, runs=(200, 2000)),
]+[Contract(f"all_boxes_{k}", all_boxes(list(range(40 * k, 40 * k + 40)), 2, o), prove="bounded", runs=(40, 300), max_paths=20000,
             bound="40 generated guards over at most 3 variables and 2 modes, at most " + str(o[1]) + " other agents; all boxes (real bounds)",
             why_bounded="the guard is a fixed expression; the solver called by the code is replaced by its mathematical meaning")
    for k, o in enumerate([(0, 0), (0, 0), (1, 1), (2, 2)])
])
