"""P14  Exploration bookkeeping: ids, heights, start times, limits."""
from pyvc.contract import Contract, Prop
from ._kit import World
from ._simtree import size
from ._verify import run


EPS = 1e-9


def near(S, a, b):
    return S.And(a - b <= EPS, b - a <= EPS)


class Agent:
    """an agent whose motion is an arbitrary trace of two samples"""

    def __init__(self, S, aid):
        self.S, self.id, self.n = S, aid, 0

    def TC_simulate(self, mode, init, horizon, step, lane_map=None):
        import numpy as np
        self.n += 1
        rows = np.empty((2, 2), dtype=object)
        d = self.S.real(f"{self.id}!step{self.n}", lo=0, rand=(0, 2))
        rows[0, 0], rows[1, 0] = 0, d
        rows[0, 1] = rows[1, 1] = 0.0
        return rows


def worklist(kind):
    """the exploration loops for every shape of tree: how many successors a node has and when they start is arbitrary"""
    def contract(S):
        from verse.analysis.simulator import Simulator
        from verse.analysis.verifier import Verifier
        from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTreeNodeType
        from verse.analysis import ReachabilityMethod
        from verse import ScenarioConfig
        from verse.map.lane_map import LaneMap
        from verse.sensor.base_sensor import BaseSensor
        mh = S.choice("max_height", [1, 2, 3])
        T = S.real("T", rand=(-1, 6))
        few = (0, 1, 2) if mh < 3 else (0, 2)
        agents = {"a": Agent(S, "a")}
        root = AnalysisTreeNode.root_from_inits({"a": [[[0.0], [0.0]]] if kind == "verify" else [0.0]}, {"a": ("A",)}, {"a": []}, {"a": []}, agents, 10,
                                                AnalysisTreeNodeType.REACH_TUBE if kind == "verify" else AnalysisTreeNodeType.SIM_TRACE)
        seen, starts, kids = [], {}, {}

        def expand(node):
            k = len(seen)
            seen.append(node)
            out = []
            for j in range(S.choice(f"n{k}", few)):
                t = node.start_time + S.real(f"d{k}.{j}", lo=0, rand=(0, 3))
                c = node.new_child(init=dict(node.init), mode={"a": ("AB"[j],)}, trace={}, start_time=t, id=-1)
                starts[id(c)] = t
                out.append(c)
            kids[id(node)] = out
            return out

        def node_of(args):
            return next(x for x in args if isinstance(x, AnalysisTreeNode))

        def sim_step(*args, **kw):
            node = node_of(args + tuple(kw.values()))
            return node.id, 0, expand(node), {"a": []}, []

        def ver_step(*args, **kw):
            node = node_of(args + tuple(kw.values()))
            return node.id, 0, expand(node), {"a": []}, None, [], []

        def simple_step(*args, **kw):
            node = node_of(args + tuple(kw.values()))
            k = len(seen)
            seen.append(node)
            n = S.choice(f"n{k}", few)
            kids[id(node)] = n
            starts[id(node)] = [r[0] for r in node.trace["a"]][1]
            return None, ({"a": [("a", ("AB"[j],), [0.0], []) for j in range(n)]} if n else {}), 1

        cfg = ScenarioConfig(parallel=False, print_level=0)
        cls, name, stub = {"simulate": (Simulator, "simulate_one", sim_step), "verify": (Verifier, "compute_full_reachtube_step", ver_step),
                           "simulate_simple": (Simulator, "get_transition_simulate_simple", simple_step)}[kind]
        old = cls.__dict__[name]
        setattr(cls, name, staticmethod(stub))
        S.functions.add(f"verse.analysis.{'verifier.Verifier.compute_full_reachtube' if kind == 'verify' else 'simulator.Simulator.' + kind}")
        if kind != "simulate_simple":
            S.functions.add(f"verse.analysis.{'verifier.Verifier' if kind == 'verify' else 'simulator.Simulator'}.proc_result")
        try:
            if kind == "simulate":
                tree = S.native(Simulator(cfg).simulate, root, BaseSensor(), T, 1.0, mh, LaneMap(), 0, [])
            elif kind == "verify":
                tree = S.native(Verifier(cfg).compute_full_reachtube, root, BaseSensor(), T, 1.0, mh, LaneMap(), 1000, ReachabilityMethod.DRYVR, 0, [])
            else:
                tree = S.native(Simulator(cfg).simulate_simple, root, T, 1.0, mh, LaneMap(), BaseSensor(), 0, [])
        finally:
            setattr(cls, name, old)
        queue, ids, n = [(root, 0)], [], 0
        while queue:
            node, h = queue.pop(0)
            ids.append(node.id)
            S.check("heights count the transitions from the root", node.height == h)
            explored = [s for s in seen if s is node]
            S.check("a node is explored at most once", len(explored) <= 1)
            left = T - node.start_time  # times are rounded to 10 digits
            if h >= mh - 1:
                S.check("nothing is explored beyond the depth limit", not explored and not node.child)
            elif explored:
                S.check("nothing is explored beyond the horizon", left >= -EPS)
            else:
                S.check("every node within the limits is explored", left <= EPS)
                S.check("an unexplored node has no successors", not node.child)
            if explored:
                n += 1
                if kind == "simulate_simple":
                    S.check("the node has all its successors", len(node.child) == kids[id(node)])
                    for c in node.child:
                        S.check("a successor starts when its transition is taken", near(S, c.start_time, starts[id(node)]))
                else:
                    S.check("the node has all its successors", len(node.child) == len(kids[id(node)]) and all(x is y for x, y in zip(node.child, kids[id(node)])))
                    for c in node.child:
                        S.check("a successor starts when its transition is taken", near(S, c.start_time, starts[id(c)]))
                for c in node.child:
                    S.check("start times never decrease along a path", c.start_time >= node.start_time - EPS)
            queue += [(c, h + 1) for c in node.child]
        S.check("only nodes of the tree are explored", n == len(seen))
        S.check("node ids are unique", len(set(ids)) == len(ids))
        S.check("the root has id 0 and starts at time 0", root.id == 0 and root.start_time == 0)
        S.check("the tree lists all its nodes", tree.root is root and sorted(x.id for x in tree.nodes) == sorted(ids))
    return contract


def limits(S, W, root, T, dt, mh):
    """bookkeeping of a tree made by a real run"""
    queue, ids = [(root, 0)], []
    S.check("the root has id 0 and starts at time 0", root.id == 0 and root.start_time == 0)
    while queue:
        node, h = queue.pop(0)
        ids.append(node.id)
        S.check("heights count the transitions from the root", node.height == h)
        remain = round(T - node.start_time, 10)
        if (mh is not None and h >= mh - 1) or remain <= 0:
            S.check("nothing is explored beyond the depth limit or the horizon", not node.child)
        else:
            S.check("every node within the limits is explored", any((node.assert_hits or {}).values()) or all(len(node.trace.get(a, ())) > 0 for a in W.ids))
        for c in node.child:
            S.check("start times never decrease along a path", c.start_time >= node.start_time - 1e-9)
            S.check("successors start within the horizon", c.start_time <= T + 1e-9)
        for a in node.trace:
            if len(node.trace[a]):
                S.check("traces do not run past the horizon", float(node.trace[a][-1][0]) <= T + 1e-6)
        queue += [(c, h + 1) for c in node.child]
    S.check("node ids are unique", len(set(ids)) == len(ids))


def trees(kind):
    def contract(S):
        W = World(S, box=True, conts=("x",), nrules=(1, 3), nasserts=(0, 1), p_assert=0.2)
        dt = S.choice("dt", [0.5, 0.1, 0.3, 1.0])
        T = S.choice("steps", [1, 2, 3, 4, 7]) * dt
        mh = S.choice("max_height", [1, 2, 3, 4])
        if all(not r for L in W.logic.values() for r in L.rules):
            mh = None
        W.note(S, T=T, dt=dt, max_height=mh)
        sc = W.scenario(**({"unsafe_continue": True} if S.rng.random() < 0.2 else {}))
        if kind == "verify":
            tree = S.call(sc.verify, T, dt, min(mh, 3))
            mh = min(mh, 3)
        elif kind == "partitioned":
            mh = min(mh, 3)
            tree = S.call(sc.verify_partitioned, T, dt, S.choice("n", [1, 2]), mh)
        elif kind == "multi":
            forest = S.call(sc.simulate_multi, T, dt, None, mh, 1, 3)
            S.check("one tree per simulation", len(forest) == 3)
            for t in forest:
                limits(S, W, t.root, T, dt, mh)
            return
        else:
            tree = S.call(getattr(sc, kind), T, dt, mh, S.rng.randint(0, 99))
        if size(tree.root) >= 400:
            S.assume(False)
        limits(S, W, tree.root, T, dt, mh)
        S.check("the tree lists all its nodes", sorted(n.id for n in tree.nodes) == list(range(len(tree.nodes))) and len(tree.nodes) == size(tree.root))
    return contract


def verify(S):
    run(S, ("P14",))


def loop(kind):
    return Contract("loop_" + kind, worklist(kind), prove="bounded", runs=(150, 1500), budget=(120, 600), max_paths=20000,
                    bound="trees of up to 3 levels with up to 2 successors per node; all start times and horizons (reals)",
                    assumes=["the step functions are replaced by arbitrary results: any number of successors with any later start times"],
                    why_bounded="the number of nodes is fixed")


PROP = Prop("P14", [
    loop("simulate"), loop("verify"), loop("simulate_simple"),
    Contract("simulate", trees("simulate"), prove=None, runs=(250, 2500)),
    Contract("simulate_simple", trees("simulate_simple"), prove=None, runs=(150, 1500)),
    Contract("simulate_multi", trees("multi"), prove=None, runs=(80, 800)),
    Contract("verify_limits", trees("verify"), prove=None, runs=(150, 1500)),
    Contract("verify_partitioned", trees("partitioned"), prove=None, runs=(80, 800)),
    Contract("verify", verify, prove=None, runs=(100, 1000)),
])
