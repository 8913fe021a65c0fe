"""P11  A verification tree is a tree of tubes: successors start from the resets of the states that move, others continue their tubes."""
from pyvc.contract import Contract, Prop
from ._kit import FixedWorld
from ._verify import SYM, SYM3, run, step_inits, tubes
from .P13 import GE, MODE, X, follow

WHAT = ("P11",)


def verify(S):
    run(S, WHAT)


def verify_three(S):
    run(S, WHAT, agents=(3, 3), short=True)


def verify_resets(S):
    """many rules with continuous resets"""
    run(S, WHAT, agents=(1, 2), resets=0.9, nrules=(1, 3), nasserts=(0, 0))


def start_times(S):
    """fixed input of a recorded defect: with the default init_seg_length all initial sets start at the first step"""
    W = FixedWorld(("x",), ("agent_mode",), {"car0": ([(("and", [MODE("A"), GE(X, 1.0)]), {"agent_mode": "B"})], [], {("A",): [1.0], ("B",): [3.0], ("C",): [0.0]}, ("A",), [[0.0], [1.0]])})
    T, dt = 4.0, 0.25
    W.note(S, T=T, dt=dt)
    ver = S.call(W.scenario().verify, T, dt, 4)
    W.agents, W.init["car0"] = None, [[0.0], [0.0]]
    sim = S.call(W.scenario().simulate, T, dt, 4, 0)
    why = follow(W, sim.root, ver.root, 4, 4, T, True)
    S.known("P11-start-times")
    S.check("states are in the tube at their time" + (": " + why if why else ""), why is None)


PROP = Prop("P11", [
    Contract("verify", verify, prove=None, runs=(150, 3000)),
    Contract("verify_three", verify_three, prove=None, runs=(60, 800)),
    Contract("verify_resets", verify_resets, prove=None, runs=(120, 2000)),
    Contract("start_times", start_times, prove=None, runs=(1, 1)),
    Contract("initial_sets", step_inits(3), prove="bounded", max_paths=5000, runs=(60, 600), budget=(60, 300), bound="at most 3 initial sets of two variables, two agents; the reachability methods DRYVR, DRYVR_DISC, MIXMONO_CONT, MIXMONO_DISC; all real values",
             assumes=["the tube computations are used by their contracts (P01, P09)"], why_bounded="symbolic execution of the step needs a fixed number of initial sets and agents"),
    tubes("all_tubes_0", [k for k in range(0, 12)], 2, **SYM),
    tubes("all_tubes_1", [k for k in range(13, 30) if k not in (16, 17, 25)], 2, **SYM),
    tubes("all_tubes_2", list(range(30, 40)), 2, **SYM),
    tubes("all_tubes_3", [1, 2, 3, 4, 5, 7], 3, **SYM3),
    tubes("all_tubes_4", [9, 10, 11, 12, 14, 15, 16, 17, 18], 3, **SYM3),
    tubes("all_tubes_5", [19, 20, 21, 22, 23], 3, **SYM3),
    tubes("all_tubes_6", [24, 25, 26, 28], 3, **SYM3),
])
