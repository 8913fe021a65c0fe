"""P17  Trees survive being saved; comparisons and queries are right."""
import copy
import itertools
import json
import os
import tempfile

import numpy as np

from pyvc.contract import Contract, Prop
from ._kit import World

AT = "verse.analysis.analysis_tree."
TOL = 1e-6
SHAPES = [[], [0], [0, 0], [0, 1], [0, 0, 1], [0, 1, 1], [0, 0, 0], [0, 1, 2], [0, 0, 2]]  # parent of node 1, 2, ...
BIG = SHAPES + [[0, 0, 1, 1, 2], [0, 1, 2, 3, 0], [0, 0, 1, 2, 2, 3], [0, 1, 1, 2, 2, 3, 3]]


class Agent:
    def __init__(self, i):
        self.id = i


def build(S, shape, agents, row, sim, starts=None, modes=None, empty=(), hits=None):
    """a tree whose k-th node's parent is shape[k-1]; row(k, agent) is its trace"""
    from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType as T
    objs = {a: Agent(a) for a in agents}
    nodes, static, unc = [], {a: [] for a in agents}, {a: [] for a in agents}
    for k in range(len(shape) + 1):
        trace = {} if k in empty else {a: row(k, a) for a in agents}
        init = {a: ([0.5 * k] if sim else [[0.5 * k], [0.5 * k + 1]]) for a in agents}
        m = {a: modes[k][a] if modes else ("A",) for a in agents}
        st = starts[k] if starts else 0.0
        h = 0 if k == 0 else nodes[shape[k - 1]].height + 1
        n = AnalysisTreeNode(trace, init, m, static, unc, objs, h, (hits or {}).get(k, {}), [], st, 10, T.SIM_TRACE if sim else T.REACH_TUBE, k)
        nodes.append(n)
        if k:
            nodes[shape[k - 1]].child.append(n)
    return AnalysisTree(nodes[0]), nodes


# ---- queries

def queries(S):
    from verse.analysis.analysis_tree import first_transitions
    shape = S.choice("shape", [s for s in SHAPES if len(s) < 3] if S.sym else BIG)
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    starts = [0.0] + [S.choice(f"st{k}", [0.5, 1.0, 1.5, 2.0, 7.0]) if not S.sym else S.real(f"st{k}", 0, 10) for k in range(1, len(shape) + 1)]
    names = [("A",), ("B",)]
    modes = [{a: S.choice(f"m{k}{a}", names) for a in agents} for k in range(len(shape) + 1)]
    t, nodes = build(S, shape, agents, lambda k, a: np.zeros((2, 2)), True, starts, modes)
    kids = {k: [j + 1 for j, p in enumerate(shape) if p == k] for k in range(len(nodes))}
    S.functions |= {AT + "AnalysisTree." + f for f in ("_get_all_nodes", "leaves", "get_leaf_nodes", "collect_leaf_nodes", "height")} | {AT + "first_transitions"}
    S.check("the tree lists each of its nodes once", sorted(n.id for n in t.nodes) == list(range(len(nodes))) and t.root is nodes[0] and t.type == nodes[0].type)
    leaf = [k for k in kids if not kids[k]]
    S.check("leaves counts the nodes without successors", S.native(t.leaves) == len(leaf))

    def below(k):
        return [k] + [x for c in kids[k] for x in below(c)]

    def levels(k):
        return 1 + max([levels(c) for c in kids[k]], default=0)
    for k in range(len(nodes)):
        got = S.native(t.get_leaf_nodes, nodes[k])
        S.check("the leaves below a node are found", sorted(n.id for n in got) == sorted(x for x in below(k) if x in leaf))
        S.check("the height of a node counts the levels below it", S.native(t.height, nodes[k]) == levels(k))
    d = S.native(first_transitions, t)
    for a in agents:
        ts = [nodes[c].start_time for k in kids for c in kids[k] if modes[k][a] != modes[c][a]]
        if not ts:
            S.check("an agent that never switches has no first transition", a not in d)
            continue
        S.check("an agent that switches has a first transition", a in d)
        if a in d:
            S.check("the first transition is one of the tree's", any_eq(S, d[a], ts))
            for x in ts:
                S.check("no transition is earlier than the first", d[a] <= x)
    S.check("only agents of the tree have first transitions", set(d) <= set(agents))


def any_eq(S, x, ts):
    c = False
    for t in ts:
        c = S.Or(c, S.eq(x, t))
    return c


# ---- save and load

def plain(x):
    """JSON-like reading of a value"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(S, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys()):
            return False
        c = True
        for k in a:
            c = S.And(c, same(S, a[k], b[k]))
        return c
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            return False
        c = True
        for x, y in zip(a, b):
            c = S.And(c, same(S, x, y))
        return c
    if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
        return a == b
    return S.eq(a, b) if S.sym else a == b


def picture(node, parent=None):
    """everything a node says, as plain data"""
    out = {"id": node.id, "parent": parent, "type": str(node.type), "agents": sorted(node.agent)}
    for f in ("height", "start_time", "mode", "init", "static", "trace", "assert_hits", "uncertain_param", "ndigits"):
        out[f] = plain(getattr(node, f))
    out["trace"] = {a: t for a, t in out["trace"].items()}
    return out


def pictures(root):
    out, queue = {}, [(root, None)]
    while queue:
        n, p = queue.pop(0)
        out[n.id] = picture(n, p)
        queue += [(c, n.id) for c in n.child]
    return out


def compare(S, t, before, loaded):
    after = pictures(loaded.root)
    S.check("the loaded tree has the saved tree's nodes", before.keys() == after.keys())
    for k in before:
        if k in after:
            for f in before[k]:
                S.check(f"{f} of a node survives saving", same(S, before[k][f], after[k][f]))
    order = lambda r: [[c.id for c in n.child] for n in sorted(nodes_of(r), key=lambda n: n.id)]
    S.check("successors keep their order", order(t.root) == order(loaded.root))
    S.check("the loaded tree lists all its nodes", sorted(n.id for n in loaded.nodes) == sorted(before) and loaded.type == t.type)
    S.check("saving leaves the tree alone", same(S, before, pictures(t.root)))


def nodes_of(root):
    out, queue = [], [root]
    while queue:
        n = queue.pop(0)
        out.append(n)
        queue += n.child
    return out


def in_json(x):
    """what json.dump and json.load make of a value (numbers stay exact)"""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): in_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [in_json(v) for v in x]
    if isinstance(x, np.ndarray):
        raise TypeError("Object of type ndarray is not JSON serializable")
    return x


def saved(S):
    """save and load of hand-made trees, all trace values"""
    import verse.analysis.analysis_tree as m
    sim = S.choice("sim", [True, False])
    shape = S.choice("shape", SHAPES if S.sym else BIG)
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    empty = [k for k in range(1, len(shape) + 1) if k not in shape and S.choice(f"empty{k}", [False, True])]
    n = S.choice("rows", [2, 4])
    cells = {}

    def row(k, a):
        r = [[cells.setdefault((k, a, i, j), S.real(f"t{k}{a}{i}{j}", -9, 9)) for j in range(2)] for i in range(n)]
        return np.array(r) if sim else r
    hits = {len(shape): {agents[0]: ["crash", "off road"]}} if S.choice("hit", [False, True]) else None
    starts = [0.0] + [S.real(f"st{k}", 0, 10) if S.sym else round(S.real(f"st{k}", 0, 10), 3) for k in range(1, len(shape) + 1)]
    modes = [{a: (["A", "B", "C"][(k + len(a)) % 3],) for a in agents} for k in range(len(shape) + 1)]
    t, nodes = build(S, shape, agents, row, sim, starts, modes, empty, hits)
    before = pictures(t.root)
    S.functions |= {AT + f for f in ("AnalysisTree.dump", "AnalysisTree.load", "AnalysisTreeNode._to_dict", "AnalysisTreeNode._from_dict")}
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "tree.json")
        if S.sym:
            disk = {}
            old = m.json

            class Json:
                @staticmethod
                def dump(x, f, **kw):
                    disk["x"] = in_json(x)

                @staticmethod
                def load(f, **kw):
                    return copy.deepcopy(disk["x"])
            m.json = Json
            try:
                S.native(t.dump, fn)
                loaded = S.native(m.AnalysisTree.load, fn)
            finally:
                m.json = old
        else:
            S.call(t.dump, fn)
            loaded = S.call(m.AnalysisTree.load, fn)
    compare(S, t, before, loaded)


def real_tree(S, kinds=("simulate", "simulate_simple", "verify"), nested=False):
    W = World(S, box=True, nrules=(1, 3), nasserts=(0, 2), p_assert=0.4)
    kind = S.choice("kind", list(kinds))
    mh = S.choice("max_height", [1, 2, 3])
    T = S.choice("T", [0.5, 1.0, 2.0])
    W.note(S, kind=kind, T=T, max_height=mh)
    sc = W.scenario(**({"unsafe_continue": True} if S.bool("unsafe_continue") and kind == "verify" else {}))
    t = getattr(sc, kind)(T, 0.5, mh)
    if len(nodes_of(t.root)) > 120:
        S.assume(False)
    return W, kind, t


def saved_real(S):
    from verse.analysis.analysis_tree import AnalysisTree
    W, kind, t = real_tree(S)
    before = pictures(t.root)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "tree.json")
        S.call(t.dump, fn)
        json.load(open(fn))
        loaded = S.call(AnalysisTree.load, fn)
    compare(S, t, before, loaded)
    S.check("a saved tree contains the original", S.call(loaded.contains, t))
    S.check("a saved tree is contained in the original", S.call(t.contains, loaded))
    S.check("a saved tree is equal to the original", S.call(t.is_equal, loaded))


# ---- comparison of simulations

def close(a, b, agents, tol):
    """reference: node-by-node correspondence with traces within tol"""
    for x in agents:
        p, q = a.trace.get(x), b.trace.get(x)
        if (p is None) != (q is None):
            return False
        if p is None:
            continue
        p, q = np.asarray(p), np.asarray(q)
        if len(p) != len(q):
            return False
        if len(p) and (p.shape != q.shape or not np.all(np.abs(p[:, 1:].astype(float) - q[:, 1:].astype(float)) < tol)):
            return False
    if len(a.child) != len(b.child):
        return False
    return any(all(close(c, d, agents, tol) for c, d in zip(a.child, perm)) for perm in itertools.permutations(b.child))


def perturb(S, t, sim):
    """a changed copy of a tree"""
    u = copy.deepcopy(t)
    nodes = nodes_of(u.root)
    for n in S.rng.sample(nodes, min(len(nodes), S.choice("touched", [0, 1, 2]))):
        what = S.rng.choice(["nudge", "push", "push", "cut", "shuffle", "drop", "wide"])
        for a in (S.rng.sample(sorted(n.trace), 1) if n.trace else []):
            tr = np.array(n.trace[a], dtype=float)
            if len(tr) == 0 or tr.ndim < 2:
                continue
            i, j = S.rng.randrange(len(tr)), S.rng.randrange(1, tr.shape[1])
            if what == "nudge":
                tr[i, j] += S.rng.choice([-0.3, 0.3, 0.9]) * TOL
            elif what == "push":
                tr[i, j] += S.rng.choice([-1, 1]) * S.rng.choice([3 * TOL, 0.1, 5])
                if not sim:
                    q = i // 2 * 2
                    tr[q, j], tr[q + 1, j] = sorted([tr[q, j], tr[q + 1, j]])
            elif what == "wide":
                q = i // 2 * 2
                if not sim:
                    tr[q, j] -= 0.2
                    tr[q + 1, j] += 0.2
            elif what == "cut" and sim and not n.child and len(tr) > 1:
                tr = tr[:-1]
            n.trace[a] = tr if sim else tr.tolist()
        if what == "shuffle":
            S.rng.shuffle(n.child)
        if what == "drop" and n.child and sim:
            n.child.pop(S.rng.randrange(len(n.child)))
    from verse.analysis.analysis_tree import AnalysisTree
    return AnalysisTree(u.root)


def compare_sim(S):
    W, kind, t = real_tree(S, ("simulate", "simulate_simple"))
    S.check("a tree contains itself", S.call(t.contains, t))
    S.check("a tree is equal to itself", S.call(t.is_equal, copy.deepcopy(t)))
    u = perturb(S, t, True)
    for a, b, name in ((t, u, "changed"), (u, t, "original")):
        got, want = S.call(a.contains, b), close(a.root, b.root, W.ids, TOL)
        S.check("a tree that is not close is not reported as contained", want or not got)
        if a is t:
            S.draws["want"] = bool(want)
        if len(nodes_of(t.root)) <= 3:
            S.check("a tree that is close is reported as contained", got or not want or ambiguous(t, u, W.ids))
    S.check("equality means containment both ways", S.call(t.is_equal, u) == (t.contains(u) and u.contains(t)))


def ambiguous(t, u, agents):
    return any(len(n.child) > 1 for n in nodes_of(t.root))


def sim_sym(S):
    """comparison of simulations, all values"""
    from verse.analysis.analysis_tree import AnalysisTree
    shape = S.choice("shape", [[], [0], [0, 0]])
    mine, theirs = S.choice("agents", [(["a"], ["a"]), (["a", "b"], ["a", "b"]), (["a", "b"], ["a"]), (["a"], ["a", "b"])])
    strict = S.choice("strict", [True, False])
    n = S.choice("n", [1, 2]) if len(shape) < 2 and len(mine) + len(theirs) < 4 else 1
    tol = S.choice("tol", [None, 0.5])

    def tree(who, agents, m):
        return build(S, shape, agents, lambda k, a: np.array([[0.5 * i, val(f"{who}{k}{a}{i}")] for i in range(m)], dtype=object if S.sym else float), True)

    def val(name):
        if S.sym:
            return S.real(name, -9, 9)
        return S.choice("v" + name, [0.0, 0.4, 0.4 + 3e-7, 0.8, 1.0])
    (t, tn), (u, un) = tree("t", mine, n), tree("u", theirs, n)
    S.functions.add(AT + "AnalysisTree.contains")
    got = bool(S.native(t.contains, u, strict, tol))
    e = TOL if tol is None else tol
    if set(mine) != set(theirs) if strict else not set(mine) >= set(theirs):
        S.check("trees with other agents are not contained", not got)
        return

    def near(i, j):
        c = True
        for a in theirs:
            for p, q in zip(tn[i].trace[a], un[j].trace[a]):
                c = S.And(c, p[1] - q[1] < e, q[1] - p[1] < e)
        return c
    if len(shape) < 2:
        want = S.And(*[near(i, i) for i in range(len(shape) + 1)])
        S.check("containment of simulations means closeness", want if got else S.Not(want))
    else:
        want = S.And(near(0, 0), S.Or(S.And(near(1, 1), near(2, 2)), S.And(near(1, 2), near(2, 1))))
        if got:
            S.check("a tree that is not close is not reported as contained", want)
        else:
            S.check("a tree with the same traces is contained", S.Not(S.And(*[S.eq(p[1], q[1]) for k in range(3) for a in theirs for p, q in zip(tn[k].trace[a], un[k].trace[a])])))


# ---- comparison of reachable sets

def ranges(root, agents, dt):
    """reference: {(step, agent, dim): [(lo, hi)]} over the whole tree"""
    out, n = {}, 0
    for node in nodes_of(root):
        for a in agents:
            tr = node.trace.get(a, []) if all(x in node.trace for x in agents) else []
            for i in range(0, len(tr) - 1, 2):
                k = round(float(tr[i][0]) / dt)
                n = max(n, k + 1)
                for j in range(1, len(tr[i])):
                    out.setdefault((k, a, j), []).append((float(tr[i][j]), float(tr[i + 1][j])))
    return out, n


def covered(lo, hi, iv, tol):
    """[lo, hi] is inside the union of the bloated intervals"""
    x = lo
    for l, h in sorted(iv):
        if l - tol <= x <= h + tol:
            if h + tol >= hi:
                return True
            x = max(x, h + tol)
    return False


def includes(t, u, agents, dt, tol=TOL):
    a, _ = ranges(t.root, agents, dt)
    b, _ = ranges(u.root, agents, dt)
    return all(key in a and all(covered(lo, hi, a[key], tol) for lo, hi in iv) for key, iv in b.items())


def compare_reach(S):
    W, kind, t = real_tree(S, ("verify",))
    S.check("a tree contains itself", S.call(t.contains, t))
    S.check("a tree is equal to itself", S.call(t.is_equal, copy.deepcopy(t)))
    u = perturb(S, t, False)
    for a, b in ((t, u), (u, t)):
        got, want = S.call(a.contains, b), includes(a, b, W.ids, 0.5)
        S.check("a tree whose sets are not all covered is not reported as contained", want or not got)
        S.check("a tree whose sets are all covered is reported as contained", got or not want)
    sub = S.rng.sample(W.ids, S.rng.randint(1, len(W.ids)))
    v = copy.deepcopy(t)
    for n in nodes_of(v.root):
        n.agent = {a: n.agent[a] for a in sub}
        n.trace = {a: x for a, x in n.trace.items() if a in sub}
    if len(sub) < len(W.ids):
        S.check("strict comparison needs the same agents", not S.call(t.contains, v, True) and not S.call(v.contains, t, True))
        S.check("a tree with fewer agents is contained when not strict", S.call(t.contains, v, False))
        S.check("missing agents are not contained", not S.call(v.contains, t, False))


def horizons(S):
    """trees of different length"""
    W = World(S, box=True, nrules=(0, 2), nasserts=(0, 0))
    sc = W.scenario()
    T = S.choice("T", [1.0, 1.5])
    short, long = S.call(sc.verify, T, 0.5, 2), S.call(sc.verify, T + 1, 0.5, 2)
    W.note(S, T=T)
    for a, b in ((short, long), (long, short)):
        got, want = S.call(a.contains, b), includes(a, b, W.ids, 0.5)
        S.check("a tree whose sets are not all covered is not reported as contained", want or not got)
        S.check("a tree whose sets are all covered is reported as contained", got or not want)


def reach_shapes(S):
    """hand-made trees of reachable sets: successors that start at different times or end early, agents with different numbers of variables"""
    from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
    agents = ["b", "a"][:S.choice("agents", [1, 2])]
    dims = {a: S.choice(f"dim{a}", [1, 2, 3]) for a in agents}
    N, dt = S.choice("N", [3, 4, 5]), 0.5

    def tube(first, n):
        r = {a: [] for a in agents}
        for i in range(n):
            for a in agents:
                lo = [S.rng.choice([0.0, 1.0, 2.0, 3.0]) for _ in range(dims[a])]
                hi = [x + S.rng.choice([0.0, 1.0, 1.5]) for x in lo]
                r[a] += [[(first + i) * dt] + lo, [(first + i + 1) * dt] + hi]
        return r

    def grow(first, depth):
        """a node covering steps first..N, with successors from inside"""
        n = S.rng.randint(1, N - first)
        kids = []
        if depth and S.rng.random() < 0.75:
            s0 = S.rng.randint(first, first + n - 1)
            for _ in range(S.rng.choice([1, 1, 2, 3])):
                kids.append(grow(S.rng.randint(s0, first + n - 1), depth - 1))
        return first, n, kids

    def make(spec):
        cnt = itertools.count()

        def node(sp, h):
            first, n, kids = sp
            from verse.analysis.analysis_tree import AnalysisTreeNodeType as T
            hidden = not kids and h and S.rng.random() < 0.15
            x = AnalysisTreeNode({} if hidden else tube(first, n), {a: [[0], [0]] for a in agents}, {a: ("A",) for a in agents}, {}, {}, {a: Agent(a) for a in agents}, h, {}, [], first * dt, 10, T.REACH_TUBE, next(cnt))
            x.child = [node(k, h + 1) for k in kids]
            return x
        return AnalysisTree(node(spec, 0))
    spec = grow(0, 2)
    t = make(spec)
    S.check("a tree contains itself", S.call(t.contains, t))
    u = make(spec) if S.bool("other") else make(grow(0, 1))
    if S.bool("shrink"):  # a copy with smaller sets
        u = copy.deepcopy(t)
        for n in nodes_of(u.root):
            for a in n.trace:
                for i in range(0, len(n.trace[a]), 2):
                    for j in range(1, dims[a] + 1):
                        n.trace[a][i][j] = n.trace[a][i + 1][j] = S.rng.choice([n.trace[a][i][j], n.trace[a][i + 1][j]])
    for a, b in ((t, u), (u, t)):
        got, want = S.call(a.contains, b), includes(a, b, agents, dt)
        S.check("a tree whose sets are not all covered is not reported as contained", want or not got)
        S.check("a tree whose sets are all covered is reported as contained", got or not want)


PROP = Prop("P17", [
    Contract("queries", queries, prove="bounded", runs=(200, 2000), budget=(60, 300), max_paths=20000,
             bound="all trees of up to 3 nodes, 1-2 agents with two modes; all start times", why_bounded="number of nodes fixed"),
    Contract("saved", saved, prove="bounded", runs=(150, 1500), budget=(60, 300), max_paths=8000,
             bound="all trees of up to 4 nodes, 1-2 agents, 2 or 4 samples; all values",
             assumes=["json.load(json.dump(x)) is x with string keys and lists for tuples, numbers exact (the run-time contracts use json itself)"], why_bounded="number of nodes and samples fixed"),
    Contract("sim_sym", sim_sym, prove="bounded", runs=(200, 2000), budget=(60, 300), max_paths=20000,
             bound="trees of up to 3 nodes, 1-2 agents, up to 2 samples; all values", why_bounded="number of nodes and samples fixed"),
    Contract("saved_real", saved_real, prove=None, runs=(80, 800)),
    Contract("compare_sim", compare_sim, prove=None, runs=(150, 1500)),
    Contract("compare_reach", compare_reach, prove=None, runs=(80, 800)),
    Contract("horizons", horizons, prove=None, runs=(40, 400)),
    Contract("reach_shapes", reach_shapes, prove=None, runs=(300, 3000)),
])
