"""Independent reading of a verification tree (P11, P13, P14): one node at a time, states by exact reasoning.

Works on numbers (z3 decides) and on symbolic tubes (bounds are variables; decisions split the path)."""
import itertools

import z3

from pyvc.core import CTX as _C  # noqa: F401
from pyvc.spec import CTX
from ._guard import encode, exists
from ._kit import enc


class Conc:
    """questions about the states of boxes with number bounds"""
    sym = False

    def __init__(self, S):
        self.S = S

    def some(self, f):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(f)
        r = s.check()
        return None if r == z3.unknown else r == z3.sat

    def none(self, label, f):
        self.S.check(label, self.some(f) is not True)

    def holds(self, label, f):
        self.S.check(label, self.some(f) is not False)

    def num(self, v):
        return z3.RealVal(repr(float(v)))


class Symb:
    """the same questions about boxes whose bounds are variables"""
    sym = True

    def __init__(self, S, bounds):
        self.S, self.bounds = S, bounds

    def some(self, f):
        return CTX.branch(exists(f, self.bounds))

    def none(self, label, f):
        CTX.oblige_all(label, z3.Not(exists(f, self.bounds)))

    def holds(self, label, f):
        CTX.oblige_all(label, exists(f, self.bounds))

    def num(self, v):
        from pyvc.core import term
        return term(v, "real")


def options(L):
    """{var: [(cond, value)]} of all rules"""
    o = {}
    for c, ass in L.rules:
        for v, e in ass.items():
            o.setdefault(v, []).append((c, e))
    return o


class Node:
    """logic of one node's agents over recorded boxes"""

    def __init__(self, W, Q, modes):
        self.W, self.Q, self.modes = W, Q, modes

    def env(self, seg, a):
        boxes = {b: ([x for x in lo], [x for x in hi]) for b, (lo, hi) in seg.items()}
        e, box, vs = encode(self.W.conts, self.W.discs, boxes, self.modes, a, self.W.ids, self.Q.num)
        return e, box

    def violated(self, seg, a):
        """labels of assertions some state of the boxes violates"""
        L = self.W.logic[a]
        e, box = self.env(seg, a)
        return [lab for pre, c, lab in L.asserts if self.Q.some(z3.And(box + ([enc(pre, e)] if pre is not None else []) + [z3.Not(enc(c, e))]))]

    def moving(self, seg, eps):
        """some state of the boxes enables a rule, by a margin"""
        for a in self.W.ids:
            e, box = self.env(seg, a)
            for c, _ in self.W.logic[a].rules:
                if self.Q.some(z3.And(box + [enc(c, e, eps)])):
                    return True
        return False

    def hit(self, seg, a):
        """{var: [(cond, value)]} enabled for some state"""
        e, box = self.env(seg, a)
        out = {}
        for v, opts in options(self.W.logic[a]).items():
            for c, x in opts:
                if self.Q.some(z3.And(box + [enc(c, e)])):
                    out.setdefault(v, []).append((c, x))
        return out

    def all_leave(self, seg):
        """every joint state enables some rule of some agent"""
        terms, box = [], None
        for a in self.W.ids:
            e, box = self.env(seg, a)
            terms += [enc(c, e) for c, _ in self.W.logic[a].rules]
        return not self.Q.some(z3.And(box + [z3.Not(z3.Or(terms))])) if terms else False

    def moves(self, seg, a):
        """[(dest modes, formula of the states that make the move, {var: term} state after, box)]: one rule per hit variable"""
        L = self.W.logic[a]
        h = self.hit(seg, a)
        if not h:
            return []
        e, box = self.env(seg, a)
        out = []
        for combo in itertools.product(*h.values()):
            new = {d: m for d, m in zip(L.discs, self.modes[a])}
            post = {c: e["ego"][c] for c in L.conts}
            for v, (c, x) in zip(h, combo):
                if v in new:
                    new[v] = x
                else:
                    post[v] = enc(x, e)
            out.append((tuple(new[d] for d in L.discs), z3.And(box + [enc(c, e) for c, _ in combo]), [post[c] for c in L.conts]))
        return out


def inside(Q, post, rects):
    return z3.Or([z3.And([z3.And(Q.num(l) - TOL <= p, p <= Q.num(h) + TOL) for l, p, h in zip(r[0], post, r[1])]) for r in rects] or [z3.BoolVal(False)])


TOL = z3.Q(1, 10 ** 7)


def segments(W, trace):
    n = min(len(trace[a]) for a in W.ids) // 2
    return [{a: (list(trace[a][2 * k][1:]), list(trace[a][2 * k + 1][1:])) for a in W.ids} for k in range(n)]


def check_asserts(S, W, N, segs, hits, what=True):
    """assertions: reported exactly when some state of the last recorded segment violates them, none earlier"""
    for k, seg in enumerate(segs):
        bad = {a: sorted(f) for a in W.ids for f in [N.violated(seg, a)] if f}
        last = k == len(segs) - 1
        if bad:
            S.check("a violated assertion ends the node at that segment", last)
            S.check("an assertion some state violates is reported", all(set(bad[a]) <= set((hits or {}).get(a, [])) for a in bad))
            S.check("only violated assertions are reported", all(set((hits or {})[a]) <= set(bad.get(a, [])) for a in (hits or {}) if (hits or {})[a]))
            return True
    S.check("only violated assertions are reported", not any((hits or {}).values()))
    return False


def check_children(S, W, N, segs, times, children):
    """children: [(agent, dest, rects, index of the first segment)]; the k-th rect is that of the k-th step; every state that can move in a recorded segment has a child that contains it"""
    Q = N.Q
    some = False
    just = [False] * len(children)
    for k, seg in enumerate(segs):
        for a in W.ids:
            for dest, f, post in N.moves(seg, a):
                some = True
                rects = [r for c in children if c[0] == a and c[1] == dest and c[3] <= k for j, r in enumerate(c[2]) if j // W.seg == (k - c[3]) // W.seg]
                Q.none("every state that may take a transition continues in a successor that contains it", z3.And(f, z3.Not(inside(Q, post, rects))))
                for j, c in enumerate(children):
                    if c[0] == a and c[1] == dest and c[3] == k and not just[j]:
                        just[j] = True
    S.check("every successor starts at a segment where some state takes its transition", all(just))
    return some


def hull(vel, motion, mode, t0, t1):
    """states during [t0, t1] under constant velocities: one (lo, hi) per initial rectangle (lo, hi, start)"""
    v = vel[tuple(mode)]
    out = []
    for lo, hi, s in motion:
        if t0 - s > -1e-9:
            a, b = t0 - s, t1 - s
            out.append(([min(l + x * a, l + x * b) for l, x in zip(lo, v)], [max(h + x * a, h + x * b) for h, x in zip(hi, v)]))
    return out


def covers(row_lo, row_hi, box, tol=1e-6):
    return all(a <= l + tol and h <= b + tol for a, b, l, h in zip(row_lo, row_hi, box[0], box[1]))


def check_reach(S, W, root, T, dt, max_height, what=("P11", "P13", "P14"), unsafe_continue=False):
    Q = Conc(S)
    P11, P13, P14 = (p in what for p in ("P11", "P13", "P14"))
    if P14:
        S.check("root starts at time 0", root.start_time == 0 and root.height == 0)
    ids, count = [], 0
    queue = [(root, {}, {})]  # node, rows carried over from the parent, origin of each carried agent's motion
    while queue:
        node, carried, origin = queue.pop(0)
        count += 1
        ids.append(node.id)
        st = node.start_time
        remain = round(T - st, 10)
        modes = {a: tuple(node.mode[a]) for a in W.ids}
        if P14:
            S.check("every node knows all agents", set(node.mode) == set(node.init) == set(node.agent) == set(W.ids))
        if (max_height is not None and node.height >= max_height - 1) or remain <= 0:
            S.check("nothing is explored beyond the depth limit or the horizon", len(node.child) == 0)
            continue
        S.check("a node within the limits is explored", all(a in node.trace and len(node.trace[a]) >= 2 for a in W.ids))
        n = min(len(node.trace[a]) for a in W.ids) // 2
        full = int(round(remain / dt))
        motion = {}
        times = [float(node.trace[W.ids[0]][2 * k][0]) for k in range(n)]
        for a in W.ids:
            rows = node.trace[a]
            rects = [(list(r[0]), list(r[1])) for r in (node.init[a] if hasattr(node.init[a][0][0], "__len__") else [node.init[a]])]
            # the k-th initial set is the one of the k-th step; sets are propagated in groups of W.seg
            motion[a] = origin[a] if a in carried else [(r[0], r[1], st + (k // W.seg) * W.seg * dt) for k, r in enumerate(rects)]
            if not P11:
                continue
            S.check("tubes of all agents are equally long", len(rows) == 2 * n)
            if a in carried:
                S.check("an agent that does not switch continues its own tube", all(
                    abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(y))) for r, q in zip(rows, carried[a]) for x, y in zip(r, q)))
                S.check("its initial set is its own set at the start of the successor", any(covers(r[0], r[1], (carried[a][0][1:], carried[a][1][1:])) for r in rects))
            for k in range(n):
                lo, hi = rows[2 * k], rows[2 * k + 1]
                S.check("rows carry the time grid", abs(float(lo[0]) - (st + k * dt)) <= 1e-6 and abs(float(hi[0]) - (st + (k + 1) * dt)) <= 1e-6)
                for h in hull(W.vel[a], motion[a], modes[a], st + k * dt, st + (k + 1) * dt):
                    S.check("tubes contain every state reachable from the initial sets", covers(lo[1:], hi[1:], h))
        segs = segments(W, node.trace)
        N = Node(W, Q, modes)
        children = []
        for c in node.child:
            ch = [a for a in W.ids if tuple(c.mode[a]) != modes[a]]
            children.append((ch, c))
        # which agent switched: the one whose mode changed, or (mode kept) the one whose tube is not the parent's
        kids = []
        for ch, c in children:
            S.check("one agent switches per successor", len(ch) <= 1)
            k0 = min(range(len(times)), key=lambda k: abs(times[k] - c.start_time))
            if P11 or P14:
                S.check("a successor starts at a segment of its parent", abs(times[k0] - c.start_time) <= 1e-6)
                S.check("a successor is one level deeper", c.height == node.height + 1)
            if ch:
                who = ch[0]
            else:
                def isbox(a):
                    i = c.init[a]
                    return len(i) == 1 and covers(i[0][0], i[0][1], segs[k0][a], 1e-9) and covers(segs[k0][a][0], segs[k0][a][1], i[0], 1e-9)
                cand = [a for a in W.ids if not isbox(a)]
                if not cand and len(W.ids) > 1:
                    cand = [a for a in W.ids if a in c.trace and not all(abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(y)))
                                                                        for r, q in zip(c.trace[a], node.trace[a][2 * k0:]) for x, y in zip(r, q))]
                who = cand[0] if cand else (W.ids[0] if len(W.ids) == 1 else None)
            kids.append((who, tuple(c.mode[who]) if who else None, [(list(r[0]), list(r[1])) for r in c.init[who]] if who else [], k0))
            rest = [a for a in W.ids if a != who]
            queue.append((c, {a: [list(r) for r in node.trace[a][2 * k0:]] for a in rest}, {a: motion[a] for a in rest}))
        if any(k[0] is None for k in kids):
            continue
        failed = False
        if P13:
            failed = check_asserts(S, W, N, segs, node.assert_hits) if not unsafe_continue else False
            if failed:
                S.check("exploration stops where an assertion is violated", len(node.child) == 0)
                continue
            if unsafe_continue:
                bad = {}
                for seg in segs:
                    for a in W.ids:
                        bad.setdefault(a, set()).update(N.violated(seg, a))
                S.check("violated assertions are reported", all(f <= set((node.assert_hits or {}).get(a, [])) for a, f in bad.items()))
            check_children(S, W, N, segs, times, kids)
        elif node.assert_hits and not unsafe_continue:
            continue
        if P11 or P13:
            if not node.child:
                S.check("without a transition the tube runs to the horizon", n == full)
            elif n < full and not N.all_leave(segs[-1]):
                # the states that have not left: none of them can move in the next segment
                nxt = {a: hull(W.vel[a], motion[a], modes[a], st + n * dt, st + (n + 1) * dt) for a in W.ids}
                for combo in itertools.islice(itertools.product(*[nxt[a] for a in W.ids]), 4):
                    seg = dict(zip(W.ids, combo))
                    S.check("the tube continues while states can take transitions", not N.moving(seg, TOL))
    if P14:
        S.check("node ids are unique", len(set(ids)) == len(ids))
        S.check("the root has id 0", ids[0] == 0)
    return count
