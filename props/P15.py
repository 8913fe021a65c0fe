"""P15  A stored trace or tube is used only when it covers the request, and is found again."""
from types import SimpleNamespace

import numpy as np

from pyvc.contract import Contract, Prop

Q = "verse.analysis.incremental."
EPS = 1e-6


class Interval:
    def __init__(self, begin, end, data):
        self.begin, self.end, self.data = begin, end, data

    def __iter__(self):
        return iter((self.begin, self.end, self.data))


class Tree:
    """what the interval tree is assumed to do: return exactly the stored intervals that overlap a range or contain a point"""

    def __init__(self, *a):
        self.items = []

    def __setitem__(self, k, data):
        if not k.start < k.stop:
            raise ValueError("null interval")
        self.items.append(Interval(k.start, k.stop, data))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [i for i in self.items if i.begin < k.stop and i.end > k.start]
        return [i for i in self.items if i.begin <= k and k < i.end]

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)


class session:
    """in the proof the interval tree is its contract, in the runs it is the real one"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        import verse.analysis.incremental as inc
        self.inc, self.old = inc, inc.IntervalTree
        if self.S.sym:
            inc.IntervalTree = Tree
        return inc

    def __exit__(self, *a):
        self.inc.IntervalTree = self.old


AGENTS, MODES = ["car1", "car2"], [("A",), ("A", "T0"), ("B",)]
SPANS = [(2.0, 0.5), (1.5, 0.5)]


def who(S, tag, vary):
    if not vary:
        return "car1", ("A",), SPANS[0]
    return S.choice(tag + "agent", AGENTS), S.choice(tag + "mode", MODES), S.choice(tag + "span", SPANS)


def grid(S, name):
    """values on a small grid, so that boxes often nest or touch"""
    return S.real(name, rand=(-2, 2)) if S.sym or S.rng.random() < 0.15 else S.real(name, rand=(-2, 2)).__class__(S.choice(name + "#", [-1.0, -0.5, 0.0, 0.25, 0.5, 1.0]))


def box(S, tag, d):
    lo = [grid(S, f"{tag}lo{k}") for k in range(d)]
    hi = []
    for k in range(d):
        w = S.real(f"{tag}w{k}", lo=0, rand=(0, 2)) if S.sym else S.choice(f"{tag}w{k}", [0.0, 0.0, 0.25, 0.5, 1.0])
        hi.append(lo[k] + w)
    return [lo, hi]


def covers(S, big, small):
    return S.And(*[S.And(S.le(big[0][k], small[0][k], 0), S.le(small[1][k], big[1][k], 0)) for k in range(len(small[0]))])


def node(mode, init, i, aid):
    return SimpleNamespace(mode={aid: mode}, init={aid: init}, assert_hits=None, id=i, start_time=0.0)


def tubes(kind, ks, ds, vary):
    def contract(S):
        with session(S) as inc:
            cache = inc.TubeCache() if kind == "tube" else inc.ReachTubeCache()
            name = "TubeCache" if kind == "tube" else "ReachTubeCache"
            S.functions.update({Q + name + ".add_tube", Q + name + ".check_hit", Q + name + ".query_cont"})
            d = S.choice("dims", ds)
            k = S.choice("entries", ks)
            stored = []
            for i in range(k):
                a, m, sp = who(S, f"e{i}", vary)
                b = box(S, f"e{i}", d)
                if i and S.choice(f"e{i}same", [False, True] if not S.sym else [False]):
                    b = [list(stored[0][3][0]), b[1]]
                    b[1] = [S.ite(h >= l, h, l) for l, h in zip(*b)]
                if kind == "tube":
                    e = S.native(cache.add_tube, a, m, b, np.zeros((2, d + 1)), sp)
                else:
                    e = S.native(cache.add_tube, a, {a: b}, node(m, [b], i, a), [], [], 0, 0, [])
                    sp = None
                stored.append((a, m, sp, b, e))
            a, m, sp = who(S, "q", vary)
            if kind != "tube":
                sp = None
            b = box(S, "q", d)
            if not S.sym and stored and S.rng.random() < 0.3:
                b = [list(x) for x in stored[S.rng.randrange(k)][3]]
                S.draws["request"] = b
            got = S.native(cache.check_hit, a, m, b, sp) if kind == "tube" else S.native(cache.check_hit, a, m, b, {a: [b]})
        mine = [s for s in stored if (s[0], s[1], s[2]) == (a, m, sp)]
        if got is None:
            for s in mine:
                S.check("a set covered by a stored one is found", S.Not(covers(S, s[3], b)))
        else:
            hit = [s for s in stored if s[4] is got]
            S.check("what is returned was stored", len(hit) == 1)
            S.check("for the same agent, modes and horizon", hit[0] in mine)
            S.check("the stored set covers the requested one", covers(S, hit[0][3], b))
    return contract


def traces(ks, ds, vary):
    def contract(S):
        with session(S) as inc:
            cache = inc.SimTraceCache()
            S.functions.update({Q + "SimTraceCache.add_segment", Q + "SimTraceCache.check_hit", Q + "SimTraceCache.query_cont"})
            d = S.choice("dims", ds)
            k = S.choice("entries", ks)
            stored = []
            for i in range(k):
                a, m, sp = who(S, f"e{i}", vary)
                x = [grid(S, f"e{i}x{j}") for j in range(d)]
                e = S.native(cache.add_segment, a, node(m, x, i, a), [], np.zeros((2, d + 1)), [], 0, 0, sp)
                stored.append((a, m, sp, x, e))
            a, m, sp = who(S, "q", vary)
            x = [grid(S, f"qx{j}") for j in range(d)]
            got = S.native(cache.check_hit, a, m, x, {a: x}, sp)
        mine = [s for s in stored if (s[0], s[1], s[2]) == (a, m, sp)]
        if got is None:
            for s in mine:
                S.check("a stored initial state is found", S.Not(S.And(*[S.eq(p, q, 0) for p, q in zip(s[3], x)])))
        else:
            hit = [s for s in stored if s[4] is got]
            S.check("what is returned was stored", len(hit) == 1)
            S.check("for the same agent, modes and horizon", hit[0] in mine)
            S.check("the stored initial state is the requested one, to the matching tolerance",
                    S.And(*[S.And(S.le(p - q, EPS * (1 if S.sym else 1.001), 0), S.le(q - p, EPS * (1 if S.sym else 1.001), 0)) for p, q in zip(hit[0][3], x)]))
    return contract


def again(S):
    """growing histories, with the real interval tree: whatever was stored is found by the same request"""
    import verse.analysis.incremental as inc
    d = S.rng.randint(1, 4)
    n = S.rng.randint(1, 25)
    tc, rc, sc = inc.TubeCache(), inc.ReachTubeCache(), inc.SimTraceCache()
    log = []
    S.draws["history"] = log

    def rb():
        lo = [S.rng.choice([-1.0, -0.5, 0.0, 0.1, 0.2, 0.3, 1e6, 0.7]) for _ in range(d)]
        return [lo, [l + S.rng.choice([0.0, 0.0, 0.1, 0.5, 2.0]) for l in lo]]
    kept = []
    for i in range(n):
        a, m, sp = S.rng.choice(AGENTS), S.rng.choice(MODES), S.rng.choice(SPANS)
        b = rb() if not kept or S.rng.random() < 0.7 else S.rng.choice(kept)[3]
        log.append((a, m, sp, b))
        e1 = S.call(tc.add_tube, a, m, b, np.zeros((2 * S.rng.randint(1, 3), d + 1)), sp)
        e2 = S.call(rc.add_tube, a, {a: b}, node(m, [b], i, a), [a], [(a, m, m, [b], [0], [])], 0, 0, [])
        e3 = S.call(sc.add_segment, a, node(m, b[0], i, a), [a], np.zeros((S.rng.randint(1, 3), d + 1)), [(a, m, b[0], [])], 0, 0, sp)
        kept.append((a, m, sp, b, e1, e2, e3))
    S.call(tc.check_hit, "nobody", ("A",), rb(), SPANS[0])
    S.check("nothing is found for an agent without entries", tc.check_hit("nobody", ("A",), rb(), SPANS[0]) is None)
    reqs = [k[:4] for k in kept] + [(S.rng.choice(AGENTS), S.rng.choice(MODES), S.rng.choice(SPANS), rb()) for _ in range(6)]
    for a, m, sp, b in reqs:
        log.append(("request", a, m, sp, b))

        def cov(k):
            return all(k[3][0][j] <= b[0][j] and b[1][j] <= k[3][1][j] for j in range(d))
        g1 = S.call(tc.check_hit, a, m, b, sp)
        c1 = [k for k in kept if k[:3] == (a, m, sp)]
        S.check("tube found exactly when one covers", (g1 is not None) == any(cov(k) for k in c1))
        S.check("tube of a covering set", g1 is None or any(k[4] is g1 and cov(k) for k in c1))
        if g1 is not None and any(k[3] == b for k in c1):
            S.check("the tube of the very set is preferred", any(k[4] is g1 and k[3] == b for k in c1))
        g2 = S.call(rc.check_hit, a, m, b, {a: [b]})
        c2 = [k for k in kept if k[:2] == (a, m)]
        S.check("transitions found exactly when a set covers", (g2 is not None) == any(cov(k) for k in c2))
        S.check("transitions of a covering set", g2 is None or any(k[5] is g2 and cov(k) for k in c2))
        g3 = S.call(sc.check_hit, a, m, b[0], {a: b[0]}, sp)
        S.check("trace found exactly when its initial state was stored", (g3 is not None) == any(k[3][0] == b[0] for k in c1))
        S.check("trace of that initial state", g3 is None or any(k[6] is g3 and k[3][0] == b[0] for k in c1))


WHY = "the trie of interval trees is explored entry by entry; the number of stored entries and of state variables has to be fixed"
TREE = "the interval tree (package intervaltree) returns exactly the stored intervals that overlap a range or contain a point"
PROP = Prop("P15", [
    Contract("tubes", tubes("tube", [0, 1, 2, 3], [1, 2], False), prove="bounded", bound="up to 3 stored tubes, up to 2 state variables; all boxes (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("tubes_more_variables", tubes("tube", [2], [3], False), prove="bounded", bound="2 stored tubes, 3 state variables; all boxes (reals)", why_bounded=WHY, runs=(200, 2000), budget=(200, 700), max_paths=20000),
    Contract("tubes_keys", tubes("tube", [2], [1], True), prove="bounded", bound="2 stored tubes of 2 agents, 3 modes and 2 horizons, 1 state variable; all boxes (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("transitions", tubes("reach", [0, 1, 2, 3], [1, 2], False), prove="bounded", bound="up to 3 stored sets, up to 2 state variables; all boxes (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("transitions_keys", tubes("reach", [2], [1], True), prove="bounded", bound="2 stored sets of 2 agents and 3 modes, 1 state variable; all boxes (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("traces", traces([0, 1, 2, 3], [1, 2], False), prove="bounded", bound="up to 3 stored traces, up to 2 state variables; all initial states (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("traces_keys", traces([2], [1], True), prove="bounded", bound="2 stored traces of 2 agents, 3 modes and 2 horizons, 1 state variable; all initial states (reals)", why_bounded=WHY, runs=(400, 4000), budget=(200, 700), max_paths=20000),
    Contract("again", again, prove=None, runs=(300, 3000)),
], assumes=[TREE])
