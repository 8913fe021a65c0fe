"""Independent reading of a simulation tree (used by P10, P12, P14, P16)."""
import itertools

from ._kit import env_of


def rows_eq(S, a, b):
    """two traces (or states) have the same entries"""
    if len(a) != len(b):
        return False
    c = True
    for x, y in zip(a, b):
        c = S.And(c, rows_eq(S, x, y) if hasattr(x, "__len__") else S.eq(x, y, 1e-9))
        if c is False:
            return False
    return c


def first_event(W, modes, traces):
    """(index, {agent: failed labels}, {agent: [(dest, state)]}) at the first sample where something happens"""
    n = min(len(t) for t in traces.values())
    for i in range(n):
        states = {a: list(traces[a][i][1:]) for a in W.ids}
        failed, trans = {}, {}
        for a in W.ids:
            env = env_of(W.logic[a], a, states, modes, W.logic)
            f = W.logic[a].failed(env)
            if f:
                failed[a] = f
                continue
            o = W.logic[a].outcomes(env)
            if o:
                trans[a] = o
        if failed:
            return i, failed, trans
        if trans:
            return i, {}, trans
    return None, {}, {}


def first_event_simple(W, modes, traces):
    n = min(len(t) for t in traces.values())
    for i in range(n):
        states = {a: list(traces[a][i][1:]) for a in W.ids}
        failed, trans = {}, {}
        for a in W.ids:
            env = env_of(W.logic[a], a, states, modes, W.logic)
            lab, dest, new = W.logic[a].execute(env)
            if lab is not None:
                failed[a] = lab
                continue
            if list(dest) != list(modes[a]) or list(new) != states[a]:
                trans[a] = [(dest, new)]
        if failed:
            return i, failed, trans
        if trans:
            return i, {}, trans
    return None, {}, {}


def size(node, lim=400):
    n, q = 0, [node]
    while q and n < lim:
        x = q.pop()
        n += 1
        q += x.child
    return n


def check_tree(S, W, root, T, dt, max_height, unsafe_continue=False, simple=False):
    """compare every node with the independent semantics; returns the number of nodes"""
    S.check("root starts at time 0", root.start_time == 0 and root.height == 0)
    for a in W.ids:
        S.check("root state lies in the initial set", S.And(*[S.And(l <= v, v <= h) for l, v, h in zip(W.init[a][0], root.init[a], W.init[a][1])]))
        S.check("root mode is the initial mode", tuple(root.mode[a]) == tuple(W.modes[a]))
    count = 0
    ids = []
    queue = [(root, {})]
    while queue:
        node, carried = queue.pop(0)
        count += 1
        ids.append(node.id)
        st = node.start_time
        remain = round(T - st, 10)
        S.check("every node knows all agents", set(node.mode) == set(node.init) == set(node.agent) == set(W.ids))
        if (max_height is not None and node.height >= max_height - 1) or remain <= 0:
            S.check("nothing is explored beyond the depth limit or the horizon", len(node.child) == 0)
            continue
        modes = {a: tuple(node.mode[a]) for a in W.ids}
        full = {}
        for a in W.ids:
            if a in carried and not simple:
                full[a] = carried[a]
            else:
                t = W.flow(a, modes[a], node.init[a], remain, dt)
                t[:, 0] += st
                full[a] = t
        idx, failed, trans = (first_event_simple if simple else first_event)(W, modes, full)
        if not simple:
            failed = {a: sorted(v) for a, v in failed.items()}
            got = {a: sorted(v) for a, v in (node.assert_hits or {}).items()}
        else:
            got = node.assert_hits or {}
        S.check("violated assertions are reported, and only those", got == failed)
        if failed:
            S.check("exploration stops where an assertion is violated", len(node.child) == 0)
            for a in W.ids:
                k = len(node.trace[a])
                S.check("trace follows the dynamics up to the violation", S.And(k >= idx, k <= idx + 1 or unsafe_continue, rows_eq(S, node.trace[a], full[a][:k])))
            continue
        if idx is None:
            S.check("no transition without an enabled guard", len(node.child) == 0)
            for a in W.ids:
                S.check("trace runs to the horizon", rows_eq(S, node.trace[a], full[a]))
            continue
        for a in W.ids:
            S.check("trace ends at the sample where the transition is taken", rows_eq(S, node.trace[a], full[a][:idx + 1]))
        when = round(float(list(full.values())[0][idx][0]), 10)
        agents = list(trans)
        want = []
        for combo in itertools.product(*[trans[a] for a in agents]):
            m, x = dict(modes), {a: list(full[a][idx][1:]) for a in W.ids}
            for a, (dest, new) in zip(agents, combo):
                m[a], x[a] = tuple(dest), list(new)
            want.append((m, x))
        S.check("one successor per combination of enabled transitions", len(node.child) == len(want))
        same = [[S.And(*[S.And(tuple(c.mode[a]) == m[a], rows_eq(S, list(c.init[a]), x[a])) for a in W.ids]) for m, x in want] for c in node.child]
        for r, c in zip(same, node.child):
            S.check("successor starts at the transition time", abs(c.start_time - when) <= 1e-9)
            S.check("successor is one level deeper", c.height == node.height + 1)
            S.check("successor states are outcomes of the enabled transitions", S.Or(*r))
            queue.append((c, {a: full[a][idx:] for a in W.ids if a not in trans}))
        for j in range(len(want)):
            S.check("every outcome of the enabled transitions has a successor", S.Or(*[r[j] for r in same]))
    S.check("node ids are unique", len(set(ids)) == len(ids))
    S.check("the root has id 0", ids[0] == 0)
    return count
