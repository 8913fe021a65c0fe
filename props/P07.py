"""P07  Lane coordinates and world positions are inverse to each other."""
import math

import numpy as np

from pyvc import core
from pyvc.contract import Contract, Prop

LS = "verse.map.lane_segment."
PI = float(np.pi)


def wrap(x):
    return (x + PI) % (2 * PI) - PI


def near(S, a, b, scale=1.0):
    """equality; floating point: up to rounding"""
    if S.sym:
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(scale))


def iff(S, a, b):
    return S.And(S.implies(a, b), S.implies(b, a)) if S.sym else bool(a) == bool(b)


def straight_lane(S):
    sx, sy, ex, ey = (S.real(n, rand=(-50, 50)) for n in ("sx", "sy", "ex", "ey"))
    w = S.real("width", rand=(1, 6))
    if S.sym:
        S.assume(S.Or(sx != ex, sy != ey))
    elif math.hypot(ex - sx, ey - sy) < 1e-3:
        ex = sx + 5.0
    lane = S.call(LS + "StraightLane", "lane", [sx, sy], [ex, ey], w)
    dx, dy, L = ex - sx, ey - sy, lane.length
    S.lemma("the length of a straight lane is the distance of its ends", S.And(L > 0, near(S, L * L, dx * dx + dy * dy, 1e4)))
    d, p = lane.direction, lane.direction_lateral
    S.lemma("the direction of a straight lane points along it", S.And(near(S, L * S.at(d, 0), dx, 1e2), near(S, L * S.at(d, 1), dy, 1e2)))
    if S.sym:
        a, b = S.at(d, 0), S.at(d, 1)
        S.lemma("scaled", L * L * (a * a + b * b) == L * L)
    S.lemma("the direction is a unit vector", near(S, S.at(d, 0) * S.at(d, 0) + S.at(d, 1) * S.at(d, 1), 1.0))
    S.lemma("left of a lane is its direction turned by a quarter", S.And(near(S, S.at(p, 0), -S.at(d, 1)), near(S, S.at(p, 1), S.at(d, 0))))
    return lane, (sx, sy, ex, ey, w)


def straight_back(S):
    lane, _ = straight_lane(S)
    lon, lat = S.real("lon", rand=(-20, 100)), S.real("lat", rand=(-8, 8))
    p = S.call(LS + "StraightLane.position", lane, lon, lat)
    if S.sym:
        d, q = lane.direction, lane.direction_lateral
        a, b = S.at(d, 0), S.at(d, 1)
        S.lemma("displacement", S.And(S.at(p, 0) - S.at(lane.start, 0) == lon * a - lat * b, S.at(p, 1) - S.at(lane.start, 1) == lon * b + lat * a))
    lo, la = S.call(LS + "StraightLane.local_coordinates", lane, p)
    S.check("the position of lane coordinates has these coordinates (along)", near(S, lo, lon, 1e3))
    S.check("the position of lane coordinates has these coordinates (across)", near(S, la, lat, 1e3))


def straight_forth(S):
    lane, _ = straight_lane(S)
    x, y = S.real("x", rand=(-60, 60)), S.real("y", rand=(-60, 60))
    pos = S.matrix([x, y])
    lo, la = S.call(LS + "StraightLane.local_coordinates", lane, pos)
    if S.sym:
        a, b = S.at(lane.direction, 0), S.at(lane.direction, 1)
        u, v = x - S.at(lane.start, 0), y - S.at(lane.start, 1)
        S.lemma("coordinates", S.And(lo == u * a + v * b, la == v * a - u * b))
        S.lemma("rotated back", S.And(lo * a - la * b == u * (a * a + b * b), lo * b + la * a == v * (a * a + b * b)))
    p = S.call(LS + "StraightLane.position", lane, lo, la)
    S.check("the coordinates of a position lead back to it (x)", near(S, S.at(p, 0), x, 1e3))
    S.check("the coordinates of a position lead back to it (y)", near(S, S.at(p, 1), y, 1e3))


def straight_shape(S):
    lane, (sx, sy, ex, ey, w) = straight_lane(S)
    lon = S.real("lon", rand=(-20, 100))
    h = S.call(LS + "StraightLane.heading_at", lane, lon)
    S.check("the width of a lane is the given one", S.call(LS + "StraightLane.width_at", lane, lon) == w)
    c, s = (core.COS(h), core.SIN(h)) if S.sym else (math.cos(h), math.sin(h))
    L = lane.length
    if S.sym:
        n = core.SQRT((ex - sx) * (ex - sx) + (ey - sy) * (ey - sy))
        S.lemma("norms", S.And(n >= 0, n * n == L * L))
        S.lemma("norm", n == L)
    S.check("the heading is the direction of the lane (x)", near(S, L * c, ex - sx, 1e3))
    S.check("the heading is the direction of the lane (y)", near(S, L * s, ey - sy, 1e3))
    z = S.call(LS + "StraightLane.position", lane, 0.0, 0.0)
    e = S.call(LS + "StraightLane.position", lane, L, 0.0)
    S.check("a lane starts at its start", S.And(near(S, S.at(z, 0), sx, 1e3), near(S, S.at(z, 1), sy, 1e3)))
    S.check("a lane ends at its end", S.And(near(S, S.at(e, 0), ex, 1e3), near(S, S.at(e, 1), ey, 1e3)))


def circular_lane(S, cw=None):
    cx, cy = S.real("cx", rand=(-30, 30)), S.real("cy", rand=(-30, 30))
    r = S.real("r", rand=(1, 40))
    if S.sym:
        S.assume(r > 0)
    start = S.real("start", rand=(-7, 7))
    arc = S.real("arc", rand=(0.05, 6.25))
    cw = S.choice("clockwise", [True, False]) if cw is None else cw
    S.assume(S.And(arc > 0, arc < 2 * PI))
    end = start - arc if cw else start + arc
    w = S.real("width", rand=(1, 6))
    lane = S.call(LS + "CircularLane", "lane", [cx, cy], r, start, end, cw, w)
    return lane, (cx, cy, r, start, end, arc, -1 if cw else 1, w)


def trig(S, x, op=None):
    return (core.COS(x), core.SIN(x)) if S.sym else (math.cos(x), math.sin(x))


def circular_back(S):
    lane, (cx, cy, r, start, end, arc, dr, w) = circular_lane(S)
    a = S.real("a") if S.sym else arc * S.real("fraction", 0, 1)  # the angle along the arc
    S.assume(S.And(a >= 0, a <= arc))
    lat = S.real("lat", rand=(-8, 8))
    rho = r - lat * dr
    if S.sym:
        S.assume(rho > 0)
        lon = a * r
        S.lemma("angle", dr * lon / r == dr * a)
    else:
        if rho < 1e-2:
            lat = 0.0
            rho = r
        a = min(a, arc - 1e-6)
        lon = a * r
    S.check("the length of an arc is its angle times its radius", near(S, lane.length, arc * r, 1e3))
    p = S.call(LS + "CircularLane.position", lane, lon, lat)
    phi = dr * a + start
    c, s = trig(S, dr * lon / r + start)
    S.check("a position lies on the circle around the center", S.And(near(S, S.at(p, 0), cx + rho * c, 1e3), near(S, S.at(p, 1), cy + rho * s, 1e3)))
    if S.sym:
        # the angle the code will compute is phi up to whole turns
        ux, uy = S.at(p, 0) - S.at(lane.center, 0), S.at(p, 1) - S.at(lane.center, 1)
        S.lemma("displacement", S.And(ux == rho * c, uy == rho * s))
        S.lemma("square", ux * ux + uy * uy == rho * rho * (c * c + s * s))
        S.lemma("square of the distance", ux * ux + uy * uy == rho * rho)
        th = core.ATAN2(uy, ux)
        n = core.SQRT(ux * ux + uy * uy)
        S.lemma("distance", S.And(n >= 0, n * n == rho * rho))
        S.lemma("distance from the center", n == rho)
        ct, st = core.COS(th), core.SIN(th)
        S.lemma("same angle", S.And(rho * ct == rho * c, rho * st == rho * s))
        S.lemma("same angle up to turns", S.And(ct == c, st == s))
        k = S.int("turns")
        S.assume(th == phi + 2 * PI * k)
    lo, la = S.call(LS + "CircularLane.local_coordinates", lane, p)
    S.check("the position of lane coordinates has these coordinates (across)", near(S, la, lat, 1e3))
    if S.sym:
        mid = (start + end) / 2
        j = core.floordiv(th - mid + PI, 2 * PI)
        S.lemma("seen from the middle of the arc", S.And(th - mid + PI > 2 * PI * k, th - mid + PI < 2 * PI * (k + 1)))
        S.lemma("turns", j == k)
        S.lemma("unrolled", lo == dr * (th - 2 * PI * j - start) * r)
        S.lemma("angle along the arc", th - 2 * PI * j - start == dr * a)
        S.lemma("the angle along the lane", lo == a * r)
    S.check("the position of lane coordinates has these coordinates (along)", near(S, lo, lon, 1e3))


def circular_forth(S):
    lane, (cx, cy, r, start, end, arc, dr, w) = circular_lane(S)
    x, y = S.real("x", rand=(-60, 60)), S.real("y", rand=(-60, 60))
    pos = S.matrix([x, y])
    lo, la = S.call(LS + "CircularLane.local_coordinates", lane, pos)
    if S.sym:
        ux, uy = x - cx, y - cy
        th, n = core.ATAN2(uy, ux), core.SQRT(ux * ux + uy * uy)
        S.lemma("distance", r - la * dr == n)
        k = S.int("turns")
        # the code's angle differs from the angle of the position by whole turns
        psi = dr * lo / r + start
        S.lemma("some angle", S.Or(*[True]))
        j = core.floordiv(th - (start + end) / 2 + PI, 2 * PI)
        S.lemma("unrolled", dr * lo == (th - 2 * PI * j - start) * r)
        S.lemma("whole turns", psi == th - 2 * PI * j)
        S.assume(S.And(core.COS(psi) == core.COS(th), core.SIN(psi) == core.SIN(th)))
    p = S.call(LS + "CircularLane.position", lane, lo, la)
    S.check("the coordinates of a position lead back to it (x)", near(S, S.at(p, 0), x, 1e3))
    S.check("the coordinates of a position lead back to it (y)", near(S, S.at(p, 1), y, 1e3))


def circular_shape(S):
    lane, (cx, cy, r, start, end, arc, dr, w) = circular_lane(S)
    lon = S.real("lon", rand=(0, 60))
    S.check("the width of a lane is the given one", S.call(LS + "CircularLane.width_at", lane, lon) == w)
    h = S.call(LS + "CircularLane.heading_at", lane, lon)
    phi = dr * lon / r + start
    c, s = trig(S, phi)
    if S.sym:
        q = phi + PI / 2 * dr
        cq, sq = trig(S, q)
        S.assume(S.And(cq == -dr * s, sq == dr * c))  # a quarter turn
        j = core.floordiv(q + PI, 2 * PI)
        S.lemma("whole turns", h == q - 2 * PI * j)
        ch, sh = trig(S, h)
        S.assume(S.And(ch == cq, sh == sq))
    ch, sh = trig(S, h)
    S.check("the heading is tangent to the circle, in the direction of travel", S.And(near(S, ch, -dr * s), near(S, sh, dr * c)))
    S.check("headings lie between -pi and pi", S.And(S.le(-PI, h), S.le(h, PI)))


def base_queries(S):
    """what the base class derives from the coordinates: on the lane, reachable, past the end, distance"""
    if S.choice("kind", ["straight", "circular"]) == "straight":
        lane, _ = straight_lane(S)
        kind = "StraightLane"
    else:
        lane, _ = circular_lane(S)
        kind = "CircularLane"
    x, y = S.real("x", rand=(-60, 60)), S.real("y", rand=(-60, 60))
    if not S.sym and S.rng.random() < 0.7:
        p = lane.position(S.real("plon", rand=(-8, 80)), S.real("plat", rand=(-6, 6)))
        x, y = float(p[0]), float(p[1])
    pos = S.matrix([x, y])
    lo, la = S.call(LS + kind + ".local_coordinates", lane, pos)
    margin = S.real("margin", rand=(0, 2))
    w, L, V = lane.width_at(0), lane.length, 5
    absla = S.ite(la >= 0, la, -la)
    edge = not S.sym and (min(abs(absla - w / 2 - margin), abs(lo + V), abs(lo - L - V), abs(absla - 2 * w), abs(lo), abs(lo - L + V / 2)) < 1e-6)
    if edge:
        return
    on = S.call(LS + "AbstractLane.on_lane", lane, pos, None, None, margin)
    S.check("on the lane: across within the width and margin, along within the length plus a vehicle", iff(S, on, S.And(absla <= w / 2 + margin, -V <= lo, lo < L + V)))
    d = S.call(LS + "AbstractLane.distance", lane, pos)
    over = S.ite(lo - L > 0, lo - L, 0) + S.ite(-lo > 0, -lo, 0)
    S.check("the distance adds the offsets across and beyond the ends", near(S, d, absla + over, 1e3))
    e = S.call(LS + "AbstractLane.after_end", lane, pos)
    S.check("after the end: less than half a vehicle before it", iff(S, e, lo > L - V / 2))
    rch = S.call(LS + "AbstractLane.is_reachable_from", lane, pos)
    S.check("reachable: within two widths and along the lane", iff(S, rch, S.And(absla <= 2 * w, 0 <= lo, lo < L + V)))


TR = ["cos and sin determine an angle up to whole turns, are periodic, and a quarter turn maps (cos, sin) to (-sin, cos); pi is the floating-point constant"]
NUM = ["machine arithmetic treated as real arithmetic"]


def C(name, fn, fns, runs=(150, 1500), assumes=()):
    return Contract(name, fn, prove="unbounded", runs=runs, functions=[LS + f for f in fns], assumes=NUM + list(assumes), timeout=20000, budget=(120, 400))


PROP = Prop("P07", [
    C("straight_and_back", straight_back, ["StraightLane.__init__", "StraightLane.position", "StraightLane.local_coordinates"]),
    C("straight_forth", straight_forth, ["StraightLane.__init__", "StraightLane.position", "StraightLane.local_coordinates"]),
    C("straight_shape", straight_shape, ["StraightLane.heading_at", "StraightLane.width_at", "StraightLane.position"]),
    C("circular_and_back", circular_back, ["CircularLane.__init__", "CircularLane.position", "CircularLane.local_coordinates"], assumes=TR),
    C("circular_forth", circular_forth, ["CircularLane.__init__", "CircularLane.position", "CircularLane.local_coordinates"], assumes=TR),
    C("circular_shape", circular_shape, ["CircularLane.heading_at", "CircularLane.width_at"], assumes=TR),
    C("derived_queries", base_queries, ["AbstractLane.on_lane", "AbstractLane.distance", "AbstractLane.after_end", "AbstractLane.is_reachable_from"]),
])
