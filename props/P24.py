"""P24  Guards and resets on star sets: verdicts are exact, the reset of every member is a member of the reset set."""
import copy
import itertools
import random
from types import SimpleNamespace

import numpy as np
import z3

from pyvc.contract import Contract, Prop
from pyvc.spec import CTX
from ._guard import RecordingSolver, agent_of, exists
from ._kit import MODES, Logic, World, enc, ev, make_agent, rnd, src
from ._reachtree import check_reach
from ._simtree import size
from .P04 import make as make_reset
from .P05 import has_q, make


def random_star(rng, n):
    m = rng.choice([n, n, 1, n + 1])
    center = [rnd(rng, -4, 4) for _ in range(n)]
    basis = [[rng.choice([0, 0, 0.25, 0.5, 1, -1, 2]) for _ in range(n)] for _ in range(m)]
    if rng.random() < 0.7 and m == n:
        basis = [[basis[i][i] if i == j else 0.0 for j in range(n)] for i in range(m)]
    C = [[s * float(i == j) for j in range(m)] for i in range(m) for s in (1, -1)]
    g = [1.0] * (2 * m)
    if rng.random() < 0.4:
        C.append([rng.choice([1.0, -1.0, 0.5]) for _ in range(m)])
        g.append(rng.choice([0.0, 0.5, 1.0]))
    if rng.random() < 0.2:
        center, basis = [int(x) for x in center], [[int(x) for x in b] for b in basis]
    return center, basis, C, g


def star_of(parts):
    from verse.stars.starset import StarSet
    return StarSet(*[np.array(p, dtype=object if any(z3.is_expr(x) for x in np.ravel(np.array(p, dtype=object))) else None) for p in parts])


def dicts(conts, discs, stars, modes, me, ids, others):
    """what the sensor reports for star sets"""
    cont, disc = {"ego." + v: stars[me] for v in conts}, {"ego." + d: m for d, m in zip(discs, modes[me])}
    rest = [a for a in ids if a != me]
    if others and rest:
        cont.update({"others." + v: [stars[a] for a in rest] for v in conts})
        disc.update({"others." + d: [modes[a][i] for a in rest] for i, d in enumerate(discs)})
    return cont, disc, {"others": len(rest)}


def verdict(call, agent, cond, cont, disc, lens):
    from verse.automaton.guard import GuardExpressionAst
    from verse.analysis.verifier import Verifier
    ge = call(GuardExpressionAst, [copy.deepcopy(cond)])
    cont, disc = dict(cont), dict(disc)
    up = call(ge.parse_any_all_new, cont, disc, lens)
    call(Verifier.apply_cont_var_updater, cont, up)
    if not call(ge.evaluate_guard_disc, agent, disc, cont, None):
        return False, False
    if not call(ge.evaluate_guard_hybrid, agent, disc, cont, None, True):
        return False, False
    s, c = call(ge.evaluate_guard_cont, agent, cont, None, True)
    return bool(s), bool(c)


def num(v):
    return v if z3.is_expr(v) else z3.RealVal(repr(float(v)))


def encode(conts, discs, parts, modes, me, ids):
    env, where = {"others": []}, []
    for a in ids:
        c, b, C, g = parts[a]
        al = [z3.Real(f"{a}!alpha{j}") for j in range(len(b))]
        where += [z3.Sum([num(C[i][j]) * al[j] for j in range(len(al))]) <= num(g[i]) for i in range(len(C))]
        d = {}
        for i, v in enumerate(conts):
            d[v] = num(c[i]) + z3.Sum([al[j] * num(b[j][i]) for j in range(len(al))])
        d.update(zip(discs, modes[a]))
        if a == me:
            env["ego"] = d
        else:
            env["others"].append(d)
    return env, where


def some(where, f):
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(where + [f])
    return s.check()


def some_stars(others, poly=False):
    def contract(S):
        rng = S.rng
        n = rng.randint(*others)
        conts, discs, cond = make(rng, 2, poly, n)
        ids = ["car"] + [f"o{k}" for k in range(n)]
        L, agent = agent_of(cond, conts, discs, n > 0 or has_q(cond))
        parts = {a: random_star(rng, len(conts)) for a in ids}
        modes = {a: tuple(rng.choice(MODES[d][1]) for d in discs) for a in ids}
        paths = agent.decision_logic.paths
        S.assume(len(paths) == 1)
        S.draws.update(guard=src(cond), stars=parts, modes=modes)
        env, where = encode(conts, discs, parts, modes, "car", ids)
        S.assume(some(where, z3.BoolVal(True)) == z3.sat)
        f = enc(cond, env)
        hit, out = some(where, f), some(where, z3.Not(f))
        S.assume(z3.unknown not in (hit, out))
        cont, disc, lens = dicts(conts, discs, {a: star_of(p) for a, p in parts.items()}, modes, "car", ids, L.others)
        got = verdict(S.call, agent, paths[0].cond_veri, cont, disc, lens)
        S.check("a guard some member satisfies is reported satisfiable", hit != z3.sat or got[0])
        S.check("a guard no member satisfies is not reported satisfiable", hit == z3.sat or not got[0])
        S.check("containment is reported only when all members satisfy the guard", not got[1] or out == z3.unsat)
        S.check("containment is reported when all members satisfy the guard", got[1] or out == z3.sat or hit != z3.sat)
    return contract


def all_centers(seeds, others, depth=2):
    """fixed guards and shapes of sets, every centre"""
    def contract(S):
        import verse.automaton.guard as G_
        rng = random.Random(S.choice("seed", seeds))
        n = rng.randint(*others)
        conts, discs, cond = make(rng, depth, False, n)
        ids = ["car"] + [f"o{k}" for k in range(n)]
        L, agent = agent_of(cond, conts, discs, n > 0 or has_q(cond))
        paths = agent.decision_logic.paths
        parts = {a: random_star(rng, len(conts)) for a in ids}
        modes = {a: tuple(rng.choice(MODES[d][1]) for d in discs) for a in ids}
        if len(paths) != 1:
            return
        centers = []
        for a in ids:
            c = [S.real(f"c!{a}!{v}", rand=(-4, 4)) for v in conts]
            centers += c
            parts[a] = ([x.t for x in c] if S.sym else c, *parts[a][1:])
        env, where = encode(conts, discs, parts, modes, "car", ids)
        if some(where, z3.BoolVal(True)) != z3.sat:
            return
        f = enc(cond, env)
        cont, disc, lens = dicts(conts, discs, {a: star_of(p) for a, p in parts.items()}, modes, "car", ids, L.others)
        S.functions.update(("verse.automaton.guard.GuardExpressionAst.evaluate_guard_cont", "verse.automaton.guard.GuardExpressionAst.get_agent_dictionaries", "verse.stars.starset.StarSet.add_constraints"))
        if not S.sym:
            S.draws.update(guard=src(cond), stars=parts, modes=modes)
            want = some(where, f) == z3.sat, some(where, z3.Not(f)) == z3.unsat
            got = verdict(S.call, agent, paths[0].cond_veri, cont, disc, lens)
            S.check("verdict is exact", got == (want[0], want[0] and want[1]))
            return
        bounds = [c.t for c in centers]
        old = G_.Solver
        G_.Solver = type("Rec", (RecordingSolver,), {"bounds": bounds})
        try:
            sat, contained = verdict(S.native, agent, paths[0].cond_veri, cont, disc, lens)
        finally:
            G_.Solver = old
        hit, out = exists(z3.And(where + [f]), bounds), exists(z3.And(where + [z3.Not(f)]), bounds)
        CTX.oblige_all("satisfiable exactly when some member satisfies the guard", hit if sat else z3.Not(hit))
        if sat:
            CTX.oblige_all("contained exactly when all members satisfy the guard", z3.Not(out) if contained else out)
        else:
            S.check("containment is never reported without satisfaction", not contained)
    return contract


def reset(S, rng, star, call, alphas):
    from verse.agents.base_agent import BaseAgent
    from verse.analysis.verifier import Verifier
    from verse.automaton import ResetExpression
    conts, discs, ass = make_reset(rng)
    L = Logic(conts, discs, [(("cmp", ">=", ("var", "ego", conts[0]), ("const", -100)), ass)], [], False)
    agent = BaseAgent("car", code=L.code())
    modes = tuple(rng.choice(MODES[d][1]) for d in discs)
    parts = star(conts)
    st = parts[-1]
    center, basis = [list(np.array(p, dtype=object).tolist()) for p in parts[:2]]
    S.draws.update(code=L.code(), modes=modes)
    if not S.sym:
        S.draws.update(star=parts[:4])
    disc = {"ego." + d: m for d, m in zip(discs, modes)}
    cont = {"ego." + c: st for c in conts}
    resets = [(ResetExpression((p.var, p.val_veri)), disc, cont, 0, p) for p in agent.decision_logic.paths]
    S.functions.update(("verse.analysis.verifier.Verifier.apply_reset_stars", "verse.stars.starset.StarSet.apply_reset", "verse.stars.starset.StarSet.superposition"))
    dests, new = call(Verifier.apply_reset_stars, agent, resets, {"car": ([0.0, st], modes, [])}, None)
    S.check("destination is exactly what the resets assign", [tuple(d) for d in dests] == [tuple(ass.get(d, m) for d, m in zip(discs, modes))])
    S.check("the set has every variable and basis vector", len(new.center) == len(conts) and len(new.basis) == len(basis) and all(len(b) == len(conts) for b in new.basis))
    S.check("the predicate is kept", np.array_equal(np.array(new.C, dtype=float), np.array(parts[2], dtype=float)) and np.array_equal(np.array(new.g, dtype=float), np.array(parts[3], dtype=float)))
    for al in alphas(len(basis)):
        old = [c + sum(a * b[i] for a, b in zip(al, basis)) for i, c in enumerate(center)]
        got = [c + sum(a * b[i] for a, b in zip(al, new.basis)) for i, c in enumerate(new.center)]
        env = {"ego": dict(zip(conts, old))}
        for i, c in enumerate(conts):
            S.check("the reset of every member is the member of the new set with the same coefficients", S.eq(got[i], ev(ass[c], env) if c in ass else old[i]))
    S.check("the set before the reset is not modified", all(S.eq(x, y) is not False for p, q in ((center, st.center), (sum(basis, []), np.ravel(st.basis))) for x, y in zip(p, list(q))))


def some_resets(S):
    rng = S.rng

    def star(conts):
        p = random_star(rng, len(conts))
        return (*p, star_of(p))
    reset(S, rng, star, S.call, lambda m: [[0.0] * m] + [[rng.choice([1.0, -1.0, 0.5, 0.0]) for _ in range(m)] for _ in range(3)])


def all_resets(seeds):
    """fixed resets, every set of their dimension with up to three basis vectors"""
    def contract(S):
        from verse.stars.starset import StarSet
        rng = random.Random(S.choice("seed", seeds))

        def star(conts):
            m = rng.choice([1, 2, 3])
            mk = lambda nm: [S.real(f"{nm}.{c}", rand=(-3, 3)) for c in conts]
            c, b = mk("c"), [mk(f"b{j}") for j in range(m)]
            C = [[s * float(i == j) for j in range(m)] for i in range(m) for s in (1, -1)]
            g = [1.0] * (2 * m)
            dt = object if S.sym else float
            return c, b, C, g, StarSet(np.array(c, dtype=dt), np.array(b, dtype=dt), np.array(C), np.array(g))
        reset(S, rng, star, S.native, lambda m: [[S.real(f"alpha{j}", rand=(-1, 1)) for j in range(m)]])
    return contract


def box_star(lo, hi):
    """the box as a star set"""
    n = len(lo)
    C = np.array([[s * float(i == j) for j in range(n)] for i in range(n) for s in (1, -1)])
    return star_of(([(l + h) / 2 for l, h in zip(lo, hi)], [[(hi[i] - lo[i]) / 2 if i == j else 0.0 for j in range(n)] for i in range(n)], C, np.ones(2 * n)))


def rect(star):
    lo, hi = star.overapprox_rectangle()
    return [[float(x) for x in lo], [float(x) for x in hi]]


def as_boxes(node, dt):
    """the tree with every star replaced by its bounding box (tubes that are not learnt by PCA consist of boxes)"""
    trace = {}
    for a, rows in node.trace.items():
        trace[a] = []
        for t, st in rows:
            r = rect(st)
            trace[a] += [[float(t)] + r[0], [float(t) + dt] + r[1]]

    def stars(x):
        return [x] if hasattr(x, "overapprox_rectangle") else [s for y in x for s in stars(y)]
    return SimpleNamespace(id=node.id, start_time=node.start_time, height=node.height, mode=node.mode, agent=node.agent, assert_hits=node.assert_hits, trace=trace,
                           init={a: [rect(s) for s in stars(i)] for a, i in node.init.items()}, child=[as_boxes(c, dt) for c in node.child])


def runs(S):
    """whole verification runs with star sets"""
    from enum import Enum
    from verse import Scenario, ScenarioConfig
    from verse.analysis.verifier import ReachabilityMethod
    from verse.sensor.base_sensor_stars import BaseStarSensor
    W = World(S, box=True, conts=("x", "y"), agents=(1, 2), nrules=(1, 2), depth=1, resets=0.4)
    dt = S.choice("dt", [0.5, 1.0])
    T = S.choice("steps", [1, 2, 3, 4]) * dt
    mh = S.choice("max_height", [2, 3])
    W.seg = seg = S.choice("seg", [1000, 1])
    sc = Scenario(ScenarioConfig(parallel=False, print_level=0, init_seg_length=seg, pca=False))
    sc.config.reachability_method = ReachabilityMethod.STAR_SETS
    for a in W.ids:
        ag = make_agent(W, a)
        ag.set_initial(box_star(*W.init[a]), tuple(Enum(MODES[d][0], MODES[d][1])[m] for d, m in zip(W.discs, W.modes[a])))
        sc.add_agent(ag)
    sc.set_sensor(BaseStarSensor())
    W.note(S, dt=dt, T=T, max_height=mh)
    tree = S.call(sc.verify, T, dt, mh)
    if size(tree.root) >= 25:
        S.assume(False)
    check_reach(S, W, as_boxes(tree.root, dt), T, dt, mh, ("P11", "P13", "P14"))


PROP = Prop("P24", [
    Contract("own_state", some_stars((0, 0)), prove=None, runs=(300, 3000)),
    Contract("other_agents", some_stars((1, 2)), prove=None, runs=(200, 2000)),
    Contract("runs", runs, prove=None, runs=(60, 600), run_limit=20),
    Contract("some_resets", some_resets, prove=None, runs=(300, 3000)),
] + [Contract(f"all_centers_{k}", all_centers(list(range(60 * k, 60 * k + 60)), *(((0, 0), 2) if k < 2 else ((1, 1), 1))), prove="bounded", runs=(40, 400), max_paths=20000, budget=(200, 600),
              bound="60 generated guards on generated sets; all centres (real values)", why_bounded="the guard and the shape of the set are fixed programs; the solver called by the code is replaced by its mathematical meaning") for k in range(3)]
  + [Contract(f"all_resets_{k}", all_resets(list(range(50 * k, 50 * k + 50))), prove="bounded", runs=(50, 500), max_paths=20000,
              bound="50 generated sets of affine resets over at most 3 variables; all sets with at most 3 basis vectors (real values)", why_bounded="the reset expressions are fixed programs") for k in range(2)],
    assumes=["reset expressions are affine in the agent's own state (the code states the same assumption)"])
