"""P22  The fixed-point test is right about the composed reachable states."""
import itertools

import numpy as np
import z3

from pyvc.contract import Contract, Prop
from pyvc.core import term
from .P17 import build, SHAPES, BIG
from ._kit import World

FP = "verse.utils.fixed_points."
NAMES = [("A", "P"), ("B", "P"), ("A", "Q"), ("C", "A")]


def segments(S, small):
    """a tree of tubes: node k starts at the step starts[k] and has lens[k] segments"""
    shape = S.choice("shape", [s for s in SHAPES if len(s) <= small])
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    return shape, agents


def composed(nodes, agents, pick, enum):
    """[(lower, upper)] of the composed states of the picked segments, modes included"""
    out = []
    for n in nodes:
        if any(a not in n.trace for a in agents):
            continue  # not explored
        count = len(n.trace[agents[0]]) // 2
        for i in range(count):
            if not pick(n, i):
                continue
            lo, hi = [], []
            for a in agents:
                lo += list(n.trace[a][2 * i][1:]) + [("mode", a, m) for m in n.mode[a]]
                hi += list(n.trace[a][2 * i + 1][1:]) + [("mode", a, m) for m in n.mode[a]]
            out.append((lo, hi))
    return out


def flat(reached):
    out = []
    for k in reached:
        if reached[k] is not None:
            rows = reached[k]
            out += [(rows[i], rows[i + 1]) for i in range(0, len(rows) - 1, 2)] + ([None] if len(rows) % 2 else [])
    return out


def same_sets(S, got, want):
    """the reported boxes are the expected ones, in any order, and modes are numbered one to one"""
    S.check("one box per segment of the window", len(got) == len(want) and None not in got)
    if len(got) != len(want) or None in got:
        return
    S.check("a box has every variable and mode of every agent", all(len(g[0]) == len(w[0]) == len(g[1]) for g, w in zip(got, want)))
    num = {}
    for (gl, gh), (wl, wh) in zip(got, want):  # both in the order of the nodes and segments
        for g, h, w, x in zip(gl, gh, wl, wh):
            if isinstance(w, tuple):
                S.check("a mode is one number in the lower and the upper corner", g == h)
                num.setdefault(w, g)
                S.check("a mode has one number", num[w] == g)
            else:
                S.check("a box has the bounds of the agents' tubes", S.And(S.eq(g, w), S.eq(h, x)))
    for (k, v), (l, w) in itertools.combinations(num.items(), 2):
        if k[1] == l[1]:
            S.check("different modes have different numbers", v != w)


def window_sym(S):
    from verse.utils.fixed_points import reach_at_fix
    S.functions.add(FP + "reach_at_fix")
    shape = S.choice("shape", [[], [0], [0, 0]])
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    segs = S.choice("segs", [1, 2]) if not shape else 1
    dt = 1.0
    starts = [0.0] + [S.choice(f"s{k}", [0.0, 1.0]) for k in range(1, len(shape) + 1)]
    same = S.choice("modes", [True, False])
    modes = [{a: NAMES[0 if same or k == 0 else (k + j) % 3] for j, a in enumerate(agents)} for k in range(len(shape) + 1)]
    lo, hi = S.real("lower"), S.real("upper")
    last = S.choice("last", [False, True])

    def row(k, a):
        out = []
        for i in range(segs):
            out += [[starts[k] + i * dt, S.real(f"l{k}{i}{a}")], [starts[k] + (i + 1) * dt, S.real(f"h{k}{i}{a}")]]
        return out
    t, nodes = build(S, shape, agents, row, False, starts, modes)
    if last:
        got = S.native(reach_at_fix, t)
        T = max(starts) + segs * dt
        want = composed(nodes, agents, lambda n, i: n.trace[agents[0]][2 * i + 1][0] == T, None)
    else:
        got = S.native(reach_at_fix, t, lo, hi)
        want = composed(nodes, agents, lambda n, i: bool(S.And(n.trace[agents[0]][2 * i][0] >= lo, n.trace[agents[0]][2 * i + 1][0] <= hi)), None)
    same_sets(S, flat(got), want)


class Formula:
    """stands for the solver: records what it is asked"""
    log = []
    answer = None

    def __init__(self):
        self.asked = []
        Formula.log.append(self)

    def add(self, *fs):
        for f in fs:
            self.asked += list(f) if isinstance(f, (list, tuple)) else [f]

    def check(self, *extra):
        self.asked += list(extra)
        return Formula.answer


def contain_sym(S):
    """the question put to the solver is whether a point lies in the first union and not in the second, for all bounds"""
    import verse.utils.fixed_points as fp
    S.functions.add(FP + "contain_all_fix")
    dim = S.choice("dim", [1, 2])
    sizes = [S.choice("n1", [(1,), (2,), (1, 1)]), S.choice("n2", [(1,), (2,), (1, None), (1, 1)])]
    sets, boxes = [], []
    for r, nodes in enumerate(sizes):
        d, bs = {}, []
        for k, n in enumerate(nodes):
            if n is None:
                d[k] = None
                continue
            d[k] = []
            for i in range(n):
                lo = [term(S.real(f"l{r}{k}{i}{j}"), "real") for j in range(dim)]
                hi = [term(S.real(f"h{r}{k}{i}{j}"), "real") for j in range(dim)]
                d[k] += [lo, hi]
                bs.append((lo, hi))
        sets.append(d)
        boxes.append(bs)
    Formula.log, Formula.answer = [], S.choice("answer", [z3.sat, z3.unsat])
    real = fp.Solver
    fp.Solver = Formula
    try:
        res = S.native(fp.contain_all_fix, sets[0], sets[1])
    finally:
        fp.Solver = real
    S.check("the solver is asked once", len(Formula.log) == 1)
    S.check("containment is reported exactly when no counterexample exists", (res is True or res is False) and res == (Formula.answer == z3.unsat))
    P = z3.RealVector("p", dim)
    asked = z3.And(*Formula.log[0].asked) if Formula.log[0].asked else z3.BoolVal(True)
    inside = [z3.Or([z3.And([z3.And(P[j] >= lo[j], P[j] <= hi[j]) for j in range(dim)]) for lo, hi in bs]) for bs in boxes]
    from pyvc.core import CTX
    CTX.oblige_all("the solver is asked for a point of the first set outside of the second", asked == z3.And(inside[0], z3.Not(inside[1])))


# ---- on real inputs

def covered(b, boxes):
    """b is a subset of the union of the closed boxes: what is left of it after cutting them out one by one (exact)"""
    lo, hi = list(b[0]), list(b[1])
    if any(x > y for x, y in zip(lo, hi)):
        return True
    for k, (l, h) in enumerate(boxes):
        if any(x > z or y < w for x, y, w, z in zip(lo, hi, l, h)):
            continue
        for j in range(len(lo)):
            if lo[j] < l[j]:
                if not covered((lo, hi[:j] + [l[j]] + hi[j + 1:]), boxes[k + 1:]):
                    return False
                lo = lo[:j] + [l[j]] + lo[j + 1:]
            if hi[j] > h[j]:
                if not covered((lo[:j] + [h[j]] + lo[j + 1:], hi), boxes[k + 1:]):
                    return False
                hi = hi[:j] + [h[j]] + hi[j + 1:]
        return True
    return False


def contain_run(S):
    from verse.utils.fixed_points import contain_all_fix
    dim = S.choice("dim", [1, 2, 3])

    def union(r):
        d = {}
        for k in range(S.choice(f"nodes{r}", [1, 2, 3])):
            d[k] = []
            for i in range(S.choice(f"n{r}{k}", [1, 2, 3] if dim < 3 else [1, 2])):
                lo = [S.draw_int(f"l{r}{k}{i}{j}", 0, 4) / 2 for j in range(dim)]
                d[k] += [lo, [x + S.draw_int(f"w{r}{k}{i}{j}", 0 if r == 0 else 1, 2 if r == 0 else 5) / 2 for j, x in enumerate(lo)]]
        if S.choice(f"none{r}", [False, True, False]):
            d[len(d)] = None
        return d
    a, b = union(0), union(1)
    S.draws["reach1"], S.draws["reach2"] = a, b
    res = S.run(FP + "contain_all_fix", a, b)
    want = all(covered(x, flat(b)) for x in flat(a))
    S.check("a set of boxes is contained in another exactly when each of its points is", bool(res) == want)


def grid_tree(S, partial=False, ends=False):
    """a tree of tubes the way verification lays them out: node k starts at a step of its parent"""
    shape = S.choice("shape", BIG if not partial else [s for s in SHAPES if s])
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    dt = S.choice("dt", [0.1, 0.01, 0.5, 0.3])
    N = S.choice("N", [2, 3, 5, 10])
    first, count, modes = [0], [N], [{a: S.choice(f"m0{a}", NAMES) for a in agents}]
    for k in range(1, len(shape) + 1):
        p = shape[k - 1]
        s = first[p] + S.draw_int(f"s{k}", 0, max(0, N - first[p] - 1))
        first.append(s)
        count.append(N - s)
        modes.append({a: S.choice(f"m{k}{a}", NAMES) for a in agents})
    inner = sorted(set(shape))
    for k in inner:  # a node may end before the horizon when every state has taken a transition
        if S.choice(f"cut{k}", [False, True]):
            count[k] = max(1, max(first[j + 1] for j, p in enumerate(shape) if p == k) - first[k])
    if ends:  # a leaf ends before the horizon at a violated assertion
        leaf = [k for k in range(len(shape) + 1) if k not in inner]
        if len(leaf) > 1:
            k = S.choice("unsafe", leaf)
            count[k] = max(1, count[k] - S.draw_int("early", 1, 3))
    starts = [round(f * dt, 10) for f in first]
    top = 3

    def row(k, a):
        out = []
        for i in range(count[k]):
            lo = [S.draw_int(f"l{k}{i}{a}{j}", 0, top) for j in range(2 if len(agents) == 1 else 1)]
            hi = [x + S.draw_int(f"w{k}{i}{a}{j}", 0, 2) for j, x in enumerate(lo)]
            out += [[starts[k] + i * dt] + [float(x) for x in lo], [starts[k] + (i + 1) * dt] + [float(x) for x in hi]]
        return out
    t, nodes = build(S, shape, agents, row, False, starts, modes)
    if partial:
        k = S.choice("partial", [k for k in range(1, len(shape) + 1) if k not in inner])
        gone = S.choice("gone", agents)
        del nodes[k].trace[gone]
    at = {id(n): f for n, f in zip(nodes, first)}
    return t, t.nodes, agents, dt, N, [at[id(n)] for n in t.nodes]


def windows(S):
    t, nodes, agents, dt, N, first = grid_tree(S, partial=S.choice("part", [False, False, True]))
    a = S.draw_int("from", 0, N - 1)
    b = S.draw_int("to", a + 1, N)
    eps = S.choice("eps", [0.05, 0.2]) * dt
    got = S.run(FP + "reach_at_fix", t, a * dt - eps, b * dt + eps)
    at = {id(n): f for n, f in zip(nodes, first)}
    want = composed(nodes, agents, lambda n, i: a <= at[id(n)] + i and at[id(n)] + i + 1 <= b, None)
    same_sets(S, flat(got), want)


def points(boxes):
    """modes as numbers, agent by agent"""
    num = {}
    return [tuple([num.setdefault((j, x), float(len(num))) if isinstance(x, tuple) else float(x) for j, x in enumerate(c)] for c in b) for b in boxes]


def last_step(S):
    t, nodes, agents, dt, N, first = grid_tree(S, partial=S.choice("part", [False, False, True]), ends=S.choice("ends", [False, True]))
    end = max(f + len(n.trace[a]) // 2 for n, f in zip(nodes, first) for a in n.trace)
    at = {id(n): f for n, f in zip(nodes, first)}
    full = [n for n in nodes if all(a in n.trace for a in agents)]
    if not any(at[id(n)] + len(n.trace[agents[0]]) // 2 == end for n in full):
        return
    got = S.run(FP + "reach_at_fix", t)
    want = composed(nodes, agents, lambda n, i: at[id(n)] + i + 1 == end, None)
    same_sets(S, flat(got), want)
    if end != N:
        return
    res = S.run(FP + "fixed_points_fix", t, N * dt, dt)
    before = composed(nodes, agents, lambda n, i: at[id(n)] + i + 1 < end, None)
    boxes = points(want + before)
    ok = all(covered(x, boxes[len(want):]) for x in boxes[:len(want)])
    S.check("the fixed-point test reports convergence exactly when the last step adds nothing", bool(res) == ok)


def on_runs(S):
    """the same on trees that verification produced"""
    W = World(S, agents=(1, 2), nrules=(0, 1), nasserts=(0, 0), box=True, discs=("agent_mode",))
    dt = S.choice("dt", [0.5, 0.1])
    N = S.choice("steps", [2, 3])
    W.note(S, dt=dt, T=N * dt)
    sc = W.scenario()
    try:
        t = sc.verify(N * dt, dt, max_height=S.choice("height", [2, 3]))
    except Exception as e:  # decided by P11
        return
    nodes, agents = t.nodes, list(t.nodes[0].agent.keys())
    if len(nodes) > 12:
        return
    at = lambda n, i: round(n.trace[agents[0]][2 * i][0] / dt)
    end = max(round(r[-1][0] / dt) for n in nodes for r in n.trace.values())
    if end != N:  # depth limit
        return
    got = S.run(FP + "reach_at_fix", t)
    want = composed(nodes, agents, lambda n, i: at(n, i) + 1 == N, None)
    same_sets(S, flat(got), want)
    got = S.run(FP + "reach_at_fix", t, -0.1 * dt, (N - 1) * dt + 0.1 * dt)
    before = composed(nodes, agents, lambda n, i: at(n, i) + 1 < N, None)
    same_sets(S, flat(got), before)
    if len(before) > 20 or not want:
        return
    boxes = points(want + before)
    ok = all(covered(x, boxes[len(want):]) for x in boxes[:len(want)])
    S.check("the fixed-point test reports convergence exactly when the last step adds nothing", bool(S.run(FP + "fixed_points_fix", t, N * dt, dt)) == ok)


FNS = [FP + f for f in ("reach_at_fix", "contain_all_fix", "fixed_points_fix")]
BOUND = "at most 3 nodes, 2 agents, 2 segments"
PROP = Prop("P22", [
    Contract("reach_at_a_time", window_sym, prove="bounded", bound=BOUND + ", one variable", runs=(0, 0), functions=[FP + "reach_at_fix"], max_paths=4000, budget=(120, 600)),
    Contract("containment_question", contain_sym, prove="bounded", bound="at most 2 boxes in each set, 2 variables; the solver is trusted", runs=(0, 0), functions=[FP + "contain_all_fix"], assumes=["z3 decides linear real arithmetic correctly"], max_paths=400),
    Contract("containment_run", contain_run, prove=None, bound="generated unions of boxes", runs=(120, 800), functions=[FP + "contain_all_fix"]),
    Contract("windows_run", windows, prove=None, bound="generated trees", runs=(300, 3000), functions=[FP + "reach_at_fix"]),
    Contract("fixed_point_run", last_step, prove=None, bound="generated trees", runs=(250, 2000), functions=FNS),
    Contract("verified_run", on_runs, prove=None, bound="generated worlds", runs=(80, 500), functions=FNS),
])
