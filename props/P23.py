"""P23  Quantified guards mean all or some of the other agents."""
from pyvc.contract import Contract, Prop
from . import P05
from ._kit import MODES, vars_of


class Q(P05.G):
    """guards in which some quantifier occurs"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.filt = True

    def cond(self, depth=2, who="ego"):
        if who == "ego" and self.rng.random() < 0.6:
            k = self.rng.choice(["any", "all"])
            body = super().cond(min(depth, 1), "o")
            return (k, body, self.atom("o")) if self.rng.random() < 0.3 else (k, body)
        return super().cond(depth, who)


def make(rng, depth, poly=False, others=0):
    conts = rng.choice([("x",), ("x", "y"), ("x", "x2"), ("y", "x2", "x")])
    discs = rng.choice([("agent_mode",), ("agent_mode", "tag_mode")])
    while True:
        c = Q(rng, conts, discs, True).cond(depth)
        if P05.has_q(c):
            return conts, discs, c


def with_q(f):
    def contract(S):
        old = P05.make
        P05.make = make
        try:
            return f(S)
        finally:
            P05.make = old
    return contract


SEEDS = {0: list(range(20)), 1: list(range(40)), 2: [s for s in range(40) if s not in (0, 5, 7, 10, 14, 22, 29)], 3: [s for s in range(40) if s not in (0, 3, 5, 7, 10, 14, 22, 24, 29)]}
PROP = Prop("P23", [
    Contract("quantified", with_q(P05.some_boxes(2, others=(0, 4))), prove=None, runs=(800, 6000)),
    Contract("nobody_else", with_q(P05.some_boxes(2, others=(0, 0))), prove=None, runs=(200, 2000)),
] + [Contract(f"all_boxes_{n}", with_q(P05.all_boxes(SEEDS[n], 1, (n, n))), prove="bounded", runs=(40, 300), max_paths=20000,
              bound=f"{len(SEEDS[n])} generated quantified guards, {n} other agents; all boxes (real bounds)",
              why_bounded="the guard and the number of agents are fixed; the solver called by the code is replaced by its mathematical meaning")
     for n in (0, 1, 2, 3)])
