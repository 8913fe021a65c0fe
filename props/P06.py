"""P06  Lane-relative ranges of a box contain the value of every state."""
import ast
import math

import numpy as np

from pyvc import core
from pyvc.contract import Contract, Prop
from .P07 import straight_lane, circular_lane, PI, LS

GE = "verse.automaton.guard.GuardExpressionAst."


def guard(*exprs):
    from verse.automaton.guard import GuardExpressionAst
    return GuardExpressionAst(list(exprs))


def le(S, a, b):
    return a <= b if S.sym else a <= b + 1e-7 * max(1.0, abs(a), abs(b))


def box(S, near=None):
    """a box of positions and a position in it"""
    lx, ly = S.real("lx", rand=(-45, 45)), S.real("ly", rand=(-45, 45))
    dx, dy = S.real("dx", rand=(0, 30)), S.real("dy", rand=(0, 30))
    S.assume(S.And(dx >= 0, dy >= 0))
    if not S.sym:
        dx, dy = S.choice("flat", [(dx, dy), (dx, dy), (dx, 0.0), (0.0, dy), (dx / 20, dy / 20), (dx / 20, dy / 20)])
        if near is not None and S.choice("near", [True, True, False]):
            lx, ly = near[0] - dx * S.real("fx", rand=(0, 1)), near[1] - dy * S.real("fy", rand=(0, 1))
    hx, hy = lx + dx, ly + dy
    x, y = S.real("x", rand=(0, 1)), S.real("y", rand=(0, 1))
    if not S.sym:
        x, y = S.choice("corner", [(x, y), (x, y), (0, 0), (1, 1), (0, 1), (1, 0), (x, 0), (1, y)])
        x, y = lx + x * dx, ly + y * dy
        x, y = min(max(x, lx), hx), min(max(y, ly), hy)
    S.assume(S.And(lx <= x, x <= hx, ly <= y, y <= hy))
    return (lx, ly, hx, hy), (x, y)


def mono(S, label, d, l, x, h):
    """d*x lies between d*l and d*h"""
    S.rule(label, lambda d, l, x, h: S.implies(S.And(l <= x, x <= h), S.And(
        S.implies(d >= 0, S.And(d * l <= d * x, d * x <= d * h)), S.implies(d <= 0, S.And(d * h <= d * x, d * x <= d * l)))), d, l, x, h)


def straight(S):
    lane, (sx, sy, ex, ey, w) = straight_lane(S)
    t, o = S.real("t", rand=(0, 1)), S.real("o", rand=(-4, 4))
    (lx, ly, hx, hy), (x, y) = box(S, None if S.sym else lane.position(t * lane.length, o))
    st = S.real("start", rand=(0, 100))
    lane.longitudinal_start = st
    pos, B = S.matrix([x, y]), S.matrix([[lx, ly], [hx, hy]])
    lo, la = S.call(LS + "StraightLane.local_coordinates", lane, pos)
    for q, dd, v in (("longitudinal", lane.direction, lo + st), ("lateral", lane.direction_lateral, la)):
        d0, d1 = S.at(dd, 0), S.at(dd, 1)
        mono(S, q + " x", d0, lx - sx, x - sx, hx - sx)
        mono(S, q + " y", d1, ly - sy, y - sy, hy - sy)
        a, b = S.call(GE + f"_handle_{q}_set", guard(), lane, B)
        S.check(f"the {q} range of a box on a straight lane contains the value of every position", S.And(le(S, a, v), le(S, v, b)))


def lateral_circular(S):
    lane, (cx, cy, r, start, end, arc, dr, w) = circular_lane(S)
    (lx, ly, hx, hy), (x, y) = box(S, None if S.sym else S.choice("where", [(cx, cy), tuple(lane.position(S.real("t", rand=(0, 1)) * lane.length, S.real("o", rand=(-4, 4))))]))
    pos, B = S.matrix([x, y]), S.matrix([[lx, ly], [hx, hy]])
    lo, la = S.call(LS + "CircularLane.local_coordinates", lane, pos)
    a, b = S.call(GE + "_handle_lateral_set", guard(), lane, B)
    if S.sym:
        n = core.SQRT((x - cx) * (x - cx) + (y - cy) * (y - cy))
        S.lemma("offset", la == dr * (r - n))
        # what the code computes: the nearest and the farthest distance
        mx = lambda *v: v[0] if len(v) == 1 else S.ite(v[0] >= mx(*v[1:]), v[0], mx(*v[1:]))
        ab = lambda v: S.ite(v >= 0, v, -v)
        nx, ny = mx(lx - cx, 0, cx - hx), mx(ly - cy, 0, cy - hy)
        fx, fy = mx(ab(lx - cx), ab(hx - cx)), mx(ab(ly - cy), ab(hy - cy))
        ux, uy = ab(x - cx), ab(y - cy)
        S.lemma("between (x)", S.And(0 <= nx, nx <= ux, ux <= fx))
        S.lemma("between (y)", S.And(0 <= ny, ny <= uy, uy <= fy))
        sq = lambda l, u: S.And(l * l <= u * u)
        S.lemma("squares", S.And(sq(nx, ux), sq(ux, fx), sq(ny, uy), sq(uy, fy)))
        S.lemma("absolute values", S.And(ux * ux == (x - cx) * (x - cx), uy * uy == (y - cy) * (y - cy)))
        rl, rh = core.SQRT(nx * nx + ny * ny), core.SQRT(fx * fx + fy * fy)
        S.lemma("squared distances", S.And(rl * rl <= n * n, n * n <= rh * rh, rl >= 0, n >= 0, rh >= 0))
        S.lemma("distances", S.And(rl <= n, n <= rh))
    S.check("the lateral range of a box on an arc contains the value of every position", S.And(le(S, a, la), le(S, la, b)))


def longitudinal_circular(S, cw):
    lane, (cx, cy, r, start, end, arc, dr, w) = circular_lane(S, cw)
    (lx, ly, hx, hy), (x, y) = box(S, None if S.sym else S.choice("where", [(cx, cy), (cx - r, cy), tuple(lane.position(S.real("t", rand=(0, 1)) * lane.length, S.real("o", rand=(-4, 4))))]))
    st = S.real("start", rand=(0, 100))
    lane.longitudinal_start = st
    pos, B = S.matrix([x, y]), S.matrix([[lx, ly], [hx, hy]])
    lo, la = S.call(LS + "CircularLane.local_coordinates", lane, pos)
    if S.sym:
        px, py = x - cx, y - cy
        lx, hx, ly, hy = lx - cx, hx - cx, ly - cy, hy - cy
        th = core.ATAN2(py, px)
        mid = (lane.start_phase + lane.end_phase) / 2
        turn = 2 * PI
        half = lambda a: S.ite(a >= 0, a, a + turn)
        cs = [(u, v) for v in (ly, hy) for u in (lx, hx)]
        ang = [core.ATAN2(v, u) for u, v in cs]
        # assumed: within a half plane, angles are ordered like the sign of the cross product says
        cross = [u * py - v * px for u, v in cs]
        for (u, v), a, c in zip(cs, ang, cross):
            for cond, f in ((S.And(u > 0, px > 0), lambda z: z), (S.And(v > 0, py > 0), lambda z: z), (S.And(v < 0, py < 0), lambda z: z), (S.And(u < 0, px < 0), half)):
                S.assume(S.implies(cond, S.And(S.implies(c >= 0, f(a) <= f(th)), S.implies(c <= 0, f(a) >= f(th)))))
        # a corner on either side of the position: by the signs of its coordinates
        mono(S, "products (x)", py, lx, px, hx)
        mono(S, "products (y)", px, ly, py, hy)
        S.lemma("a corner to the right", S.Or(*[c >= 0 for c in cross]))
        S.lemma("a corner to the left", S.Or(*[c <= 0 for c in cross]))
        center = S.And(lx <= 0, ly <= 0, hx >= 0, hy >= 0)
        left = S.And(hx <= 0, ly <= 0, hy >= 0)
        for name, f, cond in (("plain", lambda z: z, S.Not(left)), ("left", half, left)):
            fs = [f(a) for a in ang]
            for side, k in (("lower", 1), ("upper", -1)):
                S.lemma(f"the angle is between those of the corners ({name}, {side})", S.implies(S.And(S.Not(center), cond), S.Or(*[k * z <= k * f(th) for z in fs])))
        unroll(S, "position", th, mid, lo, dr, r, st, lane)
    a, b = S.call(GE + "_handle_longitudinal_set", guard(), lane, B)
    v = lo + st
    if S.sym:
        F, t = ang, th
        if left:
            for z in ang:
                S.lemma("angles on the left", core.floordiv(z, turn) == S.ite(z >= 0, 0, -1))
            F, t = [z % turn for z in ang], half(th)
            for z, q in zip(F, ang):
                S.lemma("angles on the left in a full turn", z == half(q))
        m, M = S.call(np.min, S.matrix(F)), S.call(np.max, S.matrix(F))
        for z in F:
            S.lemma("least and greatest", S.And(m <= z, z <= M))
        S.lemma("between the corners", S.Or(center, S.And(m <= t, t <= M)))
        J, j = core.floordiv(m - mid + PI, turn), core.floordiv(th - mid + PI, turn)
        p0 = m - turn * J
        p1, pp = p0 + M - m, th - turn * j
        S.lemma("the least angle unrolled", S.And(mid - PI <= p0, p0 < mid + PI))
        k = S.ite(S.And(left, th < 0), 1, 0) - J + j
        S.lemma("whole turns apart", S.And(pp == t - turn * J - turn * k))
        S.rule("within one turn", lambda k: S.implies(S.And(-turn < turn * k, turn * k < turn), k == 0), k)
        S.rule("between", lambda m, t, M, J, hi: S.implies(S.And(m <= t, t <= M, m - turn * J + M - m < hi), S.And(m - turn * J <= t - turn * J, t - turn * J <= m - turn * J + M - m, t - turn * J < hi)), m, t, M, J, mid + PI)
        S.lemma("unrolled alike", S.Or(center, p1 >= mid + PI, pp == t - turn * J))
        S.lemma("between the unrolled", S.Or(center, p1 >= mid + PI, S.And(p0 <= pp, pp <= p1)))
        q = lane.start_phase
        S.lemma("lengths", S.Or(center, p1 >= mid + PI, S.And(r * (p0 - q) <= r * (pp - q), r * (pp - q) <= r * (p1 - q))))
        mono(S, "whole lengths", r, mid - PI - q, pp - q, mid + PI - q)
        S.lemma("along the lane", lo == dr * (r * (pp - q)))
    S.check("the longitudinal range of a box on an arc contains the value of every position", S.And(le(S, a, v), le(S, v, b)))


def unroll(S, name, th, mid, lo, dr, r, st, lane):
    j = core.floordiv(th - mid + PI, 2 * PI)
    S.lemma("unrolled", S.And(lo == dr * (th - 2 * PI * j - lane.start_phase) * r))
    S.lemma("unrolled within half a turn of the middle", S.And(mid - PI <= th - 2 * PI * j, th - 2 * PI * j < mid + PI))


class GSeg:
    """a segment given by its coordinates of the position considered and by its ranges over the box (contracts of the range functions)"""

    def __init__(self, i, lon, lat, length):
        self.i, self.lon, self.lat, self.length, self.width = i, lon, lat, length, 3.0

    def local_coordinates(self, position):
        return self.lon, self.lat


FORMS = [
    "{long}", "{lat}", "{long} > 3.0", "{long} - {lat} > 2.0", "not {lat} < 1.0", "{lat} >= 1.0 and 2.0 < {long}", "{long} > 1.0 or {lat} <= 2.0", "-{long} < {other}", "{other} - {long} > 5.0",
]
LONG = "track_map.get_longitudinal_position(ego.track_mode, [ego.x, ego.y])"
LAT = "track_map.get_lateral_distance(ego.track_mode, [ego.x, ego.y])"
OTHER = "track_map.get_longitudinal_position(T7, [other.x, other.y])"


def queries(S):
    from verse.map.lane import Lane
    from verse.map.lane_map import LaneMap
    from .P08 import pick
    S.functions.update({GE + "_evaluate_guard_hybrid", GE + "evaluate_guard_hybrid"})
    n = S.choice("segments", [1, 2, 3, 4])
    segs, rng = [], {}
    for i in range(n):
        L, lon, lat = S.real(f"L{i}", rand=(1, 30)), S.real(f"lon{i}", rand=(-10, 35)), S.real(f"lat{i}", rand=(-6, 6))
        S.assume(L > 0)
        segs.append(GSeg(i, lon, lat, L))
    on, best = pick(S, segs)
    if S.sym:
        used = S.choice("used", list(range(n)))
        S.assume(best[used])
    elif any(best):
        used = best.index(True)
    else:
        return
    lane = S.native(Lane, "T0", segs)
    other = S.native(Lane, "T7", [o := GSeg("o", S.real("olon", rand=(0, 5)), 0.0, 10.0)])
    S.assume(S.And(o.lon >= 0, o.lon < 10))
    for s in segs + [o]:
        s.longitudinal_start = S.real(f"st{s.i}", rand=(0, 20))  # a segment may belong to several lanes
        up, dn, lu, ld = (S.real(f"{q}{s.i}", rand=(0, 9)) for q in ("up", "dn", "lu", "ld"))
        S.assume(S.And(up >= 0, dn >= 0, lu >= 0, ld >= 0))
        rng[s.i] = ((s.lon + s.longitudinal_start - dn, s.lon + s.longitudinal_start + up), (s.lat - ld, s.lat + lu))
    m = S.native(LaneMap, [lane, other])
    text = S.choice("form", FORMS if not S.sym or n < 4 else FORMS[:4])
    expr = ast.parse(text.format(long=LONG, lat=LAT, other=OTHER)).body[0].value
    old = ast.parse(text.format(long=LONG, lat=LAT, other=OTHER)).body[0].value
    g = guard(expr)
    g._handle_longitudinal_set = lambda seg, position: rng[seg.i][0]
    g._handle_lateral_set = lambda seg, position: rng[seg.i][1]
    cont = {"ego.x": [0.0, 1.0], "ego.y": [0.0, 2.0], "other.x": [5.0, 6.0], "other.y": [0.0, 1.0]}
    S.call(g.evaluate_guard_hybrid, None, {"ego.track_mode": S.choice("mode", ["T0", "M01"])}, cont, m, False)
    val = {LONG: segs[used].lon + sum((s.length for s in segs[:used]), 0), LAT: segs[used].lat, OTHER: o.lon}
    pairs, seen = [], set()

    def walk(a, b):
        if isinstance(a, ast.Call):
            pairs.append((ast.unparse(a), b))
            return
        S.check("the rest of the guard is unchanged", type(a) == type(b))
        for x, y in zip(ast.iter_child_nodes(a), ast.iter_child_nodes(b)):
            walk(x, y)
    walk(old, g.ast_list[0])
    for call, name in pairs:
        S.check("a query is replaced by a variable of its own", isinstance(name, ast.Name) and name.id in cont and name.id not in seen)
        seen.add(name.id)
        lo, hi = cont[name.id]
        S.check("the range of the variable contains the value of the query at every position of the box", S.And(le(S, lo, val[call]), le(S, val[call], hi)))


def maps():
    from verse.map.example_map.map_tacas import M2, M3
    from verse.map.example_map.simple_map2 import SimpleMap6
    from verse.map.example_map.intersection import Intersection
    return [("M2", M2), ("M3", M3), ("SimpleMap6", SimpleMap6), ("Intersection", lambda: Intersection(3, 12, 40, 2)), ("long arcs", long_arcs)]


def long_arcs():
    """lanes with arcs longer than half a circle, and closely spaced short segments"""
    from verse.map.lane import Lane
    from verse.map.lane_map import LaneMap
    from verse.map.lane_segment import CircularLane, StraightLane
    return LaneMap([
        Lane("T0", [StraightLane("s", [-30, -10], [0, -10], 3), CircularLane("c", [0, 0], 10, -math.pi / 2, math.pi, False, 3), StraightLane("e", [-10, 0], [-10, -60], 3)]),
        Lane("T1", [CircularLane("c", [50, 0], 8, 6.0, 1.0, True, 3)]),
        Lane("T2", [StraightLane(f"s{i}", [4 * i, 100 + i * i], [4 * i + 4, 100 + (i + 1) ** 2], 3) for i in range(6)]),
    ])


def end_to_end(S):
    """guards over the real maps: a verdict never misses a position of the box, and 'always' holds at every position"""
    from verse.automaton.guard import GuardExpressionAst
    name, make = S.choice("map", maps())
    m = make()
    lid = S.choice("lane", sorted(m.lane_dict))
    lane = m.lane_dict[lid]
    seg = S.choice("seg", lane.segment_list)
    at = seg.position(S.real("t", rand=(0, 1)) * seg.length, S.real("o", rand=(-2, 2)))
    (lx, ly, hx, hy), (x, y) = box(S, at)
    p = np.array([x, y])
    if lane.get_lane_segment(p)[1] is None:
        p = np.array(at, float)
        lx, ly, hx, hy = min(lx, p[0]), min(ly, p[1]), max(hx, p[0]), max(hy, p[1])
    if lane.get_lane_segment(p)[1] is None:
        return
    v = {LONG: m.get_longitudinal_position(lid, p), LAT: m.get_lateral_distance(lid, p)}
    q = S.choice("query", [LONG, LAT])
    lon = [s.local_coordinates(p)[0] for s in lane.segment_list]
    if any(min(abs(a + 3), abs(a - s.length)) < 1e-6 for a, s in zip(lon, lane.segment_list)):
        return  # on a boundary up to rounding
    c = v[q] + S.choice("gap", [-1.0, -1e-3, 1e-3, 1.0, 5.0, -5.0])
    op = S.choice("op", ["<", ">", "<=", ">="])
    g = guard(ast.parse(f"{q} {op} {c!r}").body[0].value)
    cont = {"ego.x": [lx, hx], "ego.y": [ly, hy]}
    disc = {"ego.track_mode": lid}
    S.native(g.evaluate_guard_hybrid, None, disc, cont, m, False)
    (var,) = [k for k in cont if not k.startswith("ego.")]
    S.check(f"the range of a query contains its value at every position of the box ({name})", le(S, cont[var][0], v[q]) and le(S, v[q], cont[var][1]))
    sat, always = S.native(g.evaluate_guard_cont, None, cont, m, False)
    holds = eval(f"{v[q]!r} {op} {c!r}")
    if abs(v[q] - c) > 1e-6:
        S.check(f"a guard that holds at a position of the box is satisfiable ({name})", bool(sat) or not holds)
        S.check(f"a guard that always holds, holds at every position of the box ({name})", holds or not always)
    pre = S.choice("repeat", [False, True])
    if pre and name == "M2" and q == LAT:
        S.check("the range on a straight lane is the tightest", abs(cont[var][0] - (ly - lane.segment_list[0].start[1])) < 1e-6 and abs(cont[var][1] - (hy - lane.segment_list[0].start[1])) < 1e-6)


NUM = ["machine arithmetic treated as real arithmetic"]
PROP = Prop("P06", [
    Contract("straight", straight, prove="unbounded", runs=(400, 4000), assumes=NUM, functions=[GE + "_handle_longitudinal_set", GE + "_handle_lateral_set"], timeout=20000),
    Contract("lateral_circular", lateral_circular, prove="unbounded", runs=(400, 4000), assumes=NUM, functions=[GE + "_handle_lateral_set"], timeout=20000),
] + [
    Contract(f"longitudinal_circular_{n}", lambda S, cw=cw: longitudinal_circular(S, cw), prove="unbounded", runs=(500, 5000), assumes=NUM + ["within a half plane angles are ordered as the sign of the cross product says"],
             functions=[GE + "_handle_longitudinal_set"], timeout=20000, budget=(250, 900)) for n, cw in (("clockwise", True), ("counterclockwise", False))
] + [
    Contract("queries", queries, prove="bounded", bound="lanes of up to four segments, nine forms of guards", why_bounded="segments and guards are unrolled", runs=(300, 3000), budget=(200, 600), max_paths=3000,
             assumes=NUM + ["the ranges of a segment contain the values of the positions in the box (the contracts above)", "the segment used is the nearest sideways (P08)"]),
    Contract("end_to_end", end_to_end, prove=None, runs=(400, 4000)),
])
