"""P13  Verification misses no transition and no assertion violation of any state."""
from pyvc.contract import Contract, Prop
from ._kit import FixedWorld, Logic, World, rnd
from ._simtree import size
from ._verify import SYM, SYM3, run, tubes

WHAT = ("P13",)


def verify(S):
    run(S, WHAT)


def verify_three(S):
    run(S, WHAT, agents=(3, 3), short=True)


def verify_guards(S):
    """larger guards, one or two agents"""
    run(S, WHAT, short=True, agents=(1, 2), depth=2, nrules=(1, 4), nasserts=(1, 3), p_assert=0.6)


def inside_at(ver, a, t, x, tol=1e-6):
    """t None: at any time"""
    rows = ver.trace[a]
    return any((t is None or lo[0] - tol <= t <= hi[0] + tol) and all(l - tol <= v <= h + tol for l, v, h in zip(lo[1:], x, hi[1:])) for lo, hi in zip(rows[::2], rows[1::2]))


def follow(W, sim, ver, limit, max_height, T, timed):
    """None when every state of the simulation from this node on lies in the verification tree; otherwise what is missing"""
    if ver.height >= max_height - 1 or sim.height >= limit - 1 or round(T - sim.start_time, 10) <= 0:
        return None
    if ver.assert_hits:
        return None  # exploration ends at the first violation
    for a in W.ids:
        for row in sim.trace[a]:
            if not inside_at(ver, a, float(row[0]) if timed else None, [float(v) for v in row[1:]]):
                return f"state {[float(v) for v in row]} of {a} in mode {sim.mode[a]} is not in the tube"
    if sim.assert_hits:
        return f"violated assertions {sim.assert_hits} are not reported"
    for c in sim.child:
        want = {a: tuple(c.mode[a]) for a in W.ids}
        changed = sorted(a for a in W.ids if want[a] != tuple(ver.mode[a]))
        level, between = [ver], []
        for _ in changed:
            level = [k for v in level for k in v.child
                     if all(tuple(k.mode[a]) in (want[a], tuple(ver.mode[a])) for a in W.ids) and sum(tuple(k.mode[a]) != tuple(v.mode[a]) for a in W.ids) == 1]
            between += level
        if any(v.assert_hits for v in between) or ver.height + len(changed) >= max_height - 1:
            continue
        cand = [v for v in level if {a: tuple(v.mode[a]) for a in W.ids} == want and v.start_time <= c.start_time + 1e-9]
        why = [follow(W, c, v, limit, max_height, T, timed) for v in cand]
        if None not in why:
            return why[0] if why else f"no successor in mode {want} at {c.start_time}"
    return None


def monotone(rng, logic_conts, others, depth=1):
    """a condition that stays true once it is true, when all variables grow"""
    def atom(who):
        return ("cmp", rng.choice([">=", ">"]), ("var", who, rng.choice(logic_conts)), ("const", rnd(rng, -1, 4)))
    r = rng.random()
    if others and r < 0.35:
        return (rng.choice(["any", "all"]), atom("o"))
    if depth and r < 0.6:
        return (rng.choice(["and", "or"]), [monotone(rng, logic_conts, others, 0), monotone(rng, logic_conts, others, 0)])
    return atom("ego")


def end_to_end(S, agents=(1, 1), timed=False):
    """simulations of a scenario stay in its verification tree. Guards are about the own state and monotone, and rules assign the mode only: the
    situations of the known findings (a second window, partially enabled combinations) do not arise. timed: sets start at the step they arise at,
    otherwise together, so that times do not match. Modes are final once entered, except for a single agent whose sets start together: later initial
    sets are lost when an earlier one leaves at once (known finding), and joint states do not match when sets start together (known finding)"""
    rng = S.rng
    W = World(S, agents=agents, conts=rng.choice([("x",), ("x", "y")]), discs=("agent_mode",), box=True)
    for a in W.ids:
        rules, asserts = [], []
        for _ in range(rng.randint(1, 3)):
            m, d = (W.modes[a][0], rng.choice([x for x in "ABC" if x != W.modes[a][0]])) if timed or len(W.ids) > 1 else rng.sample(["A", "B", "C"], 2)
            rules.append((("and", [("mode", "ego", "agent_mode", m, True), monotone(rng, list(W.conts), False)]), {"agent_mode": d}))
        for k in range(rng.randint(0, 2) if rng.random() < 0.5 else 0):
            asserts.append((("mode", "ego", "agent_mode", rng.choice("ABC"), True) if rng.random() < 0.5 else None, ("not", monotone(rng, list(W.conts), False)), f"l{k}"))
        W.logic[a] = Logic(W.conts, W.discs, rules, asserts, False)
        W.vel[a] = {m: [max(abs(v), 0.25) for v in vs] for m, vs in W.vel[a].items()}
    W.vel = {a: {(m,): (W.vel[a][(m,)] if (m,) in W.vel[a] else [1.0] * len(W.conts)) for m in "ABC"} for a in W.ids}
    dt = S.choice("dt", [0.5, 0.25])
    T = S.choice("steps", [2, 4, 6]) * dt
    mh = 3 if len(W.ids) == 1 else 4
    W.note(S, dt=dt, T=T)
    deep = mh + len(W.ids)
    ver = S.call(W.scenario(init_seg_length=1 if timed else 1000).verify, T, dt, deep)
    if size(ver.root) >= 200:
        S.assume(False)
    for j in range(6):
        W.agents = None
        sim = S.call(W.scenario().simulate, T, dt, mh, rng.randint(0, 10 ** 6))
        why = follow(W, sim.root, ver.root, mh, deep, T, timed)
        S.check("every state, mode and violated assertion of a simulation is in the verification tree" + (": " + why if why else ""), why is None)


def end_to_end_two(S):
    end_to_end(S, (2, 3))


def end_to_end_timed(S):
    end_to_end(S, (1, 3), True)


X, Y, MODE = ("var", "ego", "x"), ("var", "ego", "y"), lambda m: ("mode", "ego", "agent_mode", m, True)
GE = lambda v, c: ("cmp", ">=", v, ("const", c))
LE = lambda v, c: ("cmp", "<=", v, ("const", c))


def finding(fid, label, conts, rules, vel, init, point, seg=1000, T=6.0, dt=0.25, limit=5):
    """fixed input of a recorded defect: the state the given simulation reaches is missing from the tree"""
    def contract(S):
        W = FixedWorld(conts, ("agent_mode",), {"car0": (rules, [], {(m,): v for m, v in vel.items()}, ("A",), init)})
        W.note(S, T=T, dt=dt)
        ver = S.call(W.scenario(init_seg_length=seg).verify, T, dt, limit)
        W.agents, W.init["car0"] = None, [list(point), list(point)]
        sim = S.call(W.scenario().simulate, T, dt, limit, 0)
        why = follow(W, sim.root, ver.root, limit, limit, T, False)
        S.known(fid)
        S.check(label + (": " + why if why else ""), why is None)
    return contract


later_window = finding("P13-later-window", "states that do not move in the first window are explored further", ("x", "y"),
                       [(("and", [MODE("A"), GE(X, 1.0), LE(X, 1.2), GE(Y, 0.5)]), {"agent_mode": "B"}), (("and", [MODE("A"), GE(X, 3.0)]), {"agent_mode": "C"})],
                       {m: [1.0, 0.0] for m in "ABC"}, [[0.0, 0.0], [0.0, 1.0]], [0.0, 0.25])
partial_combination = finding("P13-partial-combination", "states that enable only some of the assignments are explored", ("x", "y"),
                              [(("and", [MODE("A"), GE(X, 1.0)]), {"agent_mode": "B"}), (("and", [MODE("A"), GE(X, 1.0), GE(Y, 0.5)]), {"y": ("const", 5.0)})],
                              {m: [1.0, 0.0] for m in "ABC"}, [[0.0, 0.0], [0.0, 1.0]], [0.0, 0.25])
later_sets = finding("P13-later-sets", "initial sets that start later are explored", ("x", "y"),
                     [(("and", [MODE("A"), GE(X, 1.0)]), {"agent_mode": "B"}), (("and", [MODE("B"), GE(X, -5.0)]), {"agent_mode": "C"})],
                     {"A": [1.0, 1.0], "B": [0.0, 0.0], "C": [0.0, 0.0]}, [[0.0, 0.0], [0.75, 0.0]], [0.0, 0.0], seg=1)


PROP = Prop("P13", [
    Contract("verify", verify, prove=None, runs=(150, 3000)),
    Contract("verify_three", verify_three, prove=None, runs=(60, 800)),
    Contract("verify_guards", verify_guards, prove=None, runs=(120, 2000)),
    Contract("end_to_end", end_to_end, prove=None, runs=(120, 2000)),
    Contract("end_to_end_two", end_to_end_two, prove=None, runs=(120, 2000)),
    Contract("end_to_end_timed", end_to_end_timed, prove=None, runs=(120, 2000)),
    Contract("later_window", later_window, prove=None, runs=(1, 1)),
    Contract("partial_combination", partial_combination, prove=None, runs=(1, 1)),
    Contract("later_sets", later_sets, prove=None, runs=(1, 1)),
    tubes("all_tubes_0", [k for k in range(0, 12)], 2, **SYM),
    tubes("all_tubes_1", [k for k in range(13, 30) if k not in (16, 17, 25)], 2, **SYM),
    tubes("all_tubes_2", list(range(30, 40)), 2, **SYM),
    tubes("all_tubes_3", [1, 2, 3, 4, 5, 7], 3, **SYM3),
    tubes("all_tubes_4", [9, 10, 11, 12, 14, 15, 16, 17, 18], 3, **SYM3),
    tubes("all_tubes_5", [19, 20, 21, 22, 23], 3, **SYM3),
    tubes("all_tubes_6", [24, 25, 26, 28], 3, **SYM3),
])
