"""P08  Positions along multi-segment lanes accumulate and modes map to lanes."""
import enum
import itertools
import math

import numpy as np

from pyvc import core
from pyvc.contract import Contract, Prop
from pyvc.core import term

LN = "verse.map.lane.Lane."
LM = "verse.map.lane_map.LaneMap."
MAPS = "verse.map.example_map."


class Seg:
    """a segment given by what it answers: the coordinates of the position asked for, its heading, length and width"""

    def __init__(self, name, lon, lat, length, width, heading):
        self.name, self.lon, self.lat, self.length, self.width, self.heading = name, lon, lat, length, width, heading

    def local_coordinates(self, position):
        return self.lon, self.lat

    def heading_at(self, lon):
        self.asked = lon
        return self.heading

    def width_at(self, lon):
        return self.width

    def position(self, lon, lat):
        raise AssertionError("positions are not needed")


def lane_of(S, n):
    """a lane of n segments; returns the lane, its segments, and for each the condition under which the code must use it"""
    segs = []
    for i in range(n):
        L = S.real(f"L{i}", rand=(1, 30))
        S.assume(L > 0)
        lon = S.real(f"lon{i}", rand=(-40, 40))
        if not S.sym:
            lon = S.choice(f"near{i}", [lon, -3.0, 0.0, -3.000001, L, L - 1e-6, L + 1e-6, -1.0, L / 2])
        lat = S.real(f"lat{i}", rand=(-6, 6))
        if not S.sym:
            lat = S.choice(f"tie{i}", [lat, lat, 1.5, -1.5, 0.0])
        segs.append(Seg(i, lon, lat, L, S.real(f"w{i}", rand=(1, 5)), S.real(f"h{i}", rand=(-3, 3))))
    return segs


def pick(S, segs):
    """(found, index condition): the segment alongside which the position lies, nearest sideways, the first of them"""
    mag = lambda x: S.ite(x >= 0, x, -x)
    on = [S.And(-3 <= s.lon, s.lon < s.length) for s in segs]
    best = []
    for i, s in enumerate(segs):
        c = [on[i]]
        for j, t in enumerate(segs):
            if j != i:
                c.append(S.implies(on[j], mag(s.lat) < mag(t.lat) if j < i else mag(s.lat) <= mag(t.lat)))
        best.append(S.And(*c))
    return on, best


def lookup(S):
    from verse.map.lane import Lane
    from verse.map.lane_map import LaneMap
    n = S.choice("segments", [1, 2, 3, 4] if not S.sym else [1, 2, 3])
    segs = lane_of(S, n)
    on, best = pick(S, segs)
    S.functions.update({LN + "get_lane_segment", LN + "get_longitudinal_position", LN + "get_lateral_distance", LN + "get_heading", LN + "_set_longitudinal_start", LN + "get_lane_width"})
    name = S.choice("lane", ["T0", "T1"])
    lane = S.native(Lane, name, segs, 25)
    tot = 0
    for s in segs:
        S.check("a segment starts where the earlier ones end", S.eq(s.longitudinal_start, tot))
        tot = tot + s.length
    S.check("the width of a lane is that of its segments", S.eq(lane.get_lane_width(), segs[0].width))
    pos = np.array([0.0, 0.0])
    idx, seg = S.native(lane.get_lane_segment, pos)
    if seg is None:
        S.check("no segment is found only off the lane", S.Not(S.Or(*on)))
        return
    S.check("the segment found is the one of its index", any(seg is x for x in segs) and segs[idx] is seg)
    i = seg.name
    S.check("the segment used is one alongside which the position lies", on[i])
    S.check("the segment used is the nearest sideways", best[i])
    add = sum((s.length for s in segs[:i]), 0)
    M = S.choice("asked", [name, f"M{name[1]}1"])
    other = S.native(Lane, "T7", [Seg("o", 0.0, 0.0, 10.0, 3.0, 0.0)], 30)
    lm = S.native(LaneMap, [other, lane])
    ask = S.choice("by", ["map", "lane"])
    if ask == "map":
        get = lambda q, *a: S.native(getattr(lm, q), M, *a)
    else:
        get = lambda q, *a: S.native(getattr(lane, {"get_lane_heading": "get_heading"}.get(q, q)), *a)
    S.check("the position along the lane adds the lengths of the earlier segments", S.eq(get("get_longitudinal_position", pos), segs[i].lon + add))
    S.check("the offset across is the one in the segment", S.eq(get("get_lateral_distance", pos), segs[i].lat))
    S.check("the heading is the segment's at this position", S.And(S.eq(get("get_lane_heading", pos), segs[i].heading), S.eq(segs[i].asked, segs[i].lon)))
    S.check("the speed limit is the lane's", get("get_speed_limit") == 25)
    S.check("the width is the lane's", S.eq(get("get_lane_width"), segs[0].width))
    if ask == "map":
        S.check("the map finds the same segment", get("get_lane_segment", [0.0, 0.0]) is seg)


def offsets(S):
    """the sum over the earlier segments, for any number of segments: against the contract of get_lane_segment"""
    n = S.int("n", 1, 6)
    L = S.fun("L", 1, rand=(1, 30))
    T = S.fun("T", 1, rand=(1, 30))
    idx = S.int("idx", 0, 5)
    S.assume(S.And(n >= 1, idx >= 0, idx < n))
    lon, lat = S.real("lon", rand=(-3, 30)), S.real("lat", rand=(-3, 3))
    from verse.map.lane import Lane
    lane = object.__new__(Lane)
    found = Seg("found", lon, lat, L(0), 3.0, 0.0)

    class Len:
        def __init__(self, length):
            self.length = length
    if S.sym:
        lane.segment_list = S.list(n, lambda i: Len(L(i)))
        S.stub(LN + "get_lane_segment", lambda self, position: (idx, found))
    else:
        lane.segment_list = [Len(L(i)) for i in range(n)]
        lane.get_lane_segment = lambda position: (idx, found)
    got = S.call(LN + "get_longitudinal_position", lane, S.matrix([0.0, 0.0]))
    if S.sym:
        S.assume(T(0) == 0)
        S.forall(n, lambda i: T(i + 1) == T(i) + L(i))
        S.check("the position along the lane is the coordinate in the segment plus the lengths of all earlier segments", got == lon + T(idx))
    else:
        S.check("the position along the lane is the coordinate in the segment plus the lengths of all earlier segments",
                abs(got - lon - sum(L(i) for i in range(idx))) < 1e-9)


class Mode(enum.Enum):
    T0 = 0
    M01 = 1
    M10 = 2
    Normal = 3
    SwitchLeft = 4
    NS_1 = 5
    NS_1_0 = 6


def names(S):
    """which physical lane a lane mode stands for: every transitional mode of up to ten lanes, and intersection modes"""
    from verse.map.lane_map import LaneMap
    S.functions.add(LM + "get_phys_lane")
    f = LaneMap.get_phys_lane
    bad = []
    for i, j in itertools.product(range(10), repeat=2):
        if S.native(f, f"M{i}{j}") != f"T{i}":
            bad.append(f"M{i}{j}")
    for i in range(12):
        if f(f"T{i}") != f"T{i}":
            bad.append(f"T{i}")
    for a in ("NS", "EW", "WNE", "A"):
        for i, j in itertools.product((0, 1, 9, 10, 12), repeat=2):
            if f(f"{a}_{i}") != f"{a}_{i}" or f(f"{a}_{i}_{j}") != f"{a}_{i}":
                bad.append((a, i, j))
    for lane in ("Lane1", "none", "m01", "SR0", "road 3"):
        if f(lane) != lane:
            bad.append(lane)
    for m, p in ((Mode.T0, "T0"), (Mode.M01, "T0"), (Mode.M10, "T1"), (Mode.NS_1, "NS_1"), (Mode.NS_1_0, "NS_1")):
        if f(m) != p:
            bad.append(m)
    S.check("a lane mode stands for its physical lane" + (f": {bad[:3]}" if bad and not S.sym else ""), not bad)


def destinations(S):
    """h and h_exist of a map with arbitrary definitions"""
    from verse.map.lane_map import LaneMap
    S.functions.update({LM + "h", LM + "h_exist"})
    lanes, modes = ["T0", "T1", "M01"], ["Normal", "SwitchLeft"]
    keys = [(a, b, c) for a in lanes for b in modes for c in modes]
    entries = {}
    if S.sym:
        k1, k2 = S.choice("k1", keys[:6] + [None]), S.choice("k2", keys[5:9] + [None])
        for k, d in ((k1, "T1"), (k2, "M01")):
            if k is not None:
                entries[k] = d
        ask = S.choice("ask", keys[::2] + [("M01", "SwitchLeft", "Normal")])
    else:
        for j in range(S.draw_int("n", 0, 8)):
            entries[keys[S.draw_int(f"k{j}", 0, len(keys) - 1)]] = lanes[S.draw_int(f"d{j}", 0, 2)]
        ask = keys[S.draw_int("ask", 0, len(keys) - 1)]
    form = S.choice("form", ["strings", "enums"])
    q = ask if form == "strings" else tuple(Mode[x] if x in Mode.__members__ else x for x in ask)
    m = S.native(LaneMap)
    m.h_dict = dict(entries)
    ex = S.native(m.h_exist, *q)
    S.check("a destination exists exactly when the map defines it", bool(ex) == (ask in entries))
    try:
        d = m.h(*q)
    except KeyError:
        d = None
    S.check("the destination is the one the map defines", d == entries.get(ask))


def same_point(a, b):
    return max(abs(np.asarray(a, float) - np.asarray(b, float))) < 1e-6


def bundled(S):
    """the maps that come with the library: segments join, positions accumulate, lane changes lead to the neighbouring lane"""
    import importlib
    which = S.choice("map", ["map_tacas.M1", "map_tacas.M2", "map_tacas.M3", "simple_map2.SimpleMap2", "simple_map2.SimpleMap3", "simple_map2.SimpleMap4",
                             "simple_map2.SimpleMap4Switch2", "simple_map2.SimpleMap5", "simple_map2.SimpleMap6", "intersection.Intersection"])
    mod, cls = which.split(".")
    M = getattr(importlib.import_module(MAPS + mod), cls)
    if cls == "Intersection":
        lanes, width = S.draw_int("lanes", 1, 4), S.real("width", rand=(1, 6))
        m = M(width, (1 + lanes) * width + S.real("extra", rand=(0, 30)), S.real("length", rand=(5, 300)), lanes)
    else:
        m = M()
    S.functions.add(MAPS + which)
    straightish = cls != "SimpleMap5"  # its corners are sharp: positions are ambiguous there
    for lid, lane in m.lane_dict.items():
        add = 0.0
        for k, s in enumerate(lane.segment_list):
            S.check(f"segments of a lane join ({cls})", k == 0 or same_point(lane.segment_list[k - 1].position(lane.segment_list[k - 1].length, 0), s.position(0, 0)))
            if k and straightish:
                p = lane.segment_list[k - 1]
                S.check(f"a lane does not turn sharply where segments join ({cls})", abs(math.remainder(p.heading_at(p.length) - s.heading_at(0), 2 * math.pi)) < 1e-6)
            lo = S.real(f"at {lid} {k}", 0, 1)
            x = lo * max(0.0, s.length - Lane_COMP)  # before the overlap with the next segment
            lat = S.real(f"off {lid} {k}", -1, 1) * (s.width_at(0) / 2 if straightish else 0.0)
            if straightish or 8 < x < s.length - 8:
                pos = s.position(x, lat)
                S.check(f"positions along a lane accumulate ({cls})", abs(m.get_longitudinal_position(lid, pos) - add - x) < 1e-6)
                S.check(f"the offset across is the one in the segment ({cls})", abs(m.get_lateral_distance(lid, pos) - lat) < 1e-6)
                S.check(f"the heading is the segment's ({cls})", abs(m.get_lane_heading(lid, pos) - s.heading_at(x)) < 1e-6)
            add += s.length
    changes(S, m, cls)


Lane_COMP = 3.0


def neighbour(m, lane, side):
    """the lane next to this one on the given side (1: left), from the geometry alone"""
    s = m.lane_dict[lane].segment_list[0]
    w = s.width_at(0)
    out = []
    for o, l in m.lane_dict.items():
        t = l.segment_list[0]
        e, g = l.segment_list[-1], m.lane_dict[lane].segment_list[-1]
        if o == lane or abs(math.remainder(s.heading_at(0) - t.heading_at(0), 2 * math.pi)) > 1e-6 or abs(math.remainder(e.heading_at(e.length) - g.heading_at(g.length), 2 * math.pi)) > 1e-6:
            continue
        lon, lat = s.local_coordinates(np.array(t.position(0, 0), float))
        if abs(lat - side * w) < 1e-6 and abs(lon) < 6:
            out.append(o)
    return out


def changes(S, m, cls):
    by_name = cls in ("SimpleMap4Switch2", "Intersection")
    if not by_name:
        for (lane, src, dst), to in m.h_dict.items():
            S.check(f"a destination exists exactly when the map defines it ({cls})", m.h_exist(lane, src, dst) is True and m.h(lane, src, dst) == to)
            here = m.get_phys_lane(lane)
            S.check(f"lane changes start on lanes of the map ({cls})", here in m.lane_dict and m.get_phys_lane(to) in m.lane_dict)
            if dst in ("SwitchLeft", "SwitchRight"):
                S.check(f"a change begins on the lane it leaves ({cls})", m.get_phys_lane(to) == here)
                end = m.h_dict.get((to, dst, "Normal"))
                S.check(f"a change ends on the neighbouring lane ({cls})", neighbour(m, here, 1 if dst == "SwitchLeft" else -1) == [end])
            S.check(f"no destination is defined for a mode the map does not know ({cls})", not m.h_exist(lane, src, "Nowhere"))
        return
    step = {"SwitchLeft": (1, 1), "SwitchRight": (-1, 1)}
    if cls == "SimpleMap4Switch2":
        step.update({"SwitchLeft2": (1, 2), "SwitchRight2": (-1, 2)})
    for lane in m.lane_dict:
        S.check(f"staying in the lane keeps it ({cls})", m.h(lane, "Normal", "Normal") == lane)
        for mode, (side, count) in step.items():
            end = lane
            for _ in range(count):
                end = (neighbour(m, end, side) + [None])[0] if end is not None else None
            to = m.h(lane, "Normal", mode)
            S.check(f"a lane change is possible exactly when there is a lane on this side ({cls}, {mode})", (to is None) == (end is None))
            if to is not None:
                S.check(f"a change begins on the lane it leaves ({cls})", m.get_phys_lane(to) == lane)
                S.check(f"a change ends on the lane on this side ({cls}, {mode})" if cls != "Intersection" else f"a change ends on a lane of the map ({cls})",
                        m.h(to, mode, "Normal") == end if cls != "Intersection" else m.h(to, mode, "Normal") in m.lane_dict)
                S.check(f"no change within a change ({cls})", m.h(to, mode, mode) is None)


NUM = ["machine arithmetic treated as real arithmetic"]
PROP = Prop("P08", [
    Contract("lookup", lookup, prove="bounded", bound="lanes of up to three segments (four in the runs); any lengths, coordinates, headings and widths", runs=(300, 3000), assumes=NUM,
             why_bounded="the segment found is carried through the loop as an object"),
    Contract("offsets", offsets, prove="unbounded", runs=(100, 1000), assumes=NUM + ["get_lane_segment answers a segment of the lane with its index (the contract 'lookup')"], functions=[LN + "get_longitudinal_position"]),
    Contract("lane_names", names, prove="bounded", bound="all transitional modes of maps with up to ten lanes, intersection modes with the listed numbers", why_bounded="names are strings, matched by regular expressions", runs=(1, 1)),
    Contract("destinations", destinations, prove="bounded", bound="maps with up to two definitions (eight in the runs)", why_bounded="the definitions are a dictionary of strings", runs=(200, 2000), max_paths=2000),
    Contract("bundled_maps", bundled, prove=None, runs=(60, 600)),
])
