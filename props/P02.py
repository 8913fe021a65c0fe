"""P02  Combining boxes and tubes loses nothing: hulls, unions and shifted unions cover every member."""
from pyvc.contract import Contract, Prop
from pyvc.spec import VList, seqs, Ghost, it, mk, Sym, CTX, SArr

V = "verse.analysis.verifier."


def box_list(S, name, m, n, order=True):
    """m boxes [lower, upper] of dimension n"""
    lo = S.fun(name + "_lo", 2, rand=(-4, 4))
    w = S.fun(name + "_w", 2, rand=(0, 3), special=[0.0])
    hi = lambda i, d: lo(i, d) + w(i, d)
    boxes = S.list(m, lambda i: S.list(2, lambda e: S.list(n, lambda d: (lo(i, d) if e == 0 else hi(i, d)) if isinstance(e, int) else S.ite(e == 0, lo(i, d), hi(i, d)))))
    return boxes, lo, hi


def tube_of(S, name, k, n):
    """2k rows: lower/upper alternating"""
    f = S.fun(name, 2, rand=(-4, 4))
    return S.list(2 * k, lambda r: S.list(n, lambda d: f(r, d))), f


def tight_lo(S, label, val, vals):
    """the bound is attained (run-time part only)"""
    if not S.sym:
        S.check(label, val == vals)


def combine_rect(S):
    k, n = S.int("k", 1, rand=(1, 6)), S.int("n", 1, rand=(1, 4))
    tube, f = tube_of(S, "t", k, n)
    r = S.call(V + "combine_rect", tube)
    S.check("a box has two corners", S.len(r) == 2)
    S.check("dimension kept", S.And(S.len(S.at(r, 0)) == n, S.len(S.at(r, 1)) == n))
    for d in S.each(n):
        for i in S.each(k):
            S.check("lower corner is below every lower row", S.at(r, 0, d) <= f(2 * i, d))
            S.check("upper corner is above every upper row", f(2 * i + 1, d) <= S.at(r, 1, d))
        if not S.sym:
            S.check("corners are attained", r[0][d] == min(f(2 * i, d) for i in range(k)) and r[1][d] == max(f(2 * i + 1, d) for i in range(k)))


def combine_all(S):
    m, n = S.int("m", 1, rand=(1, 6)), S.int("n", 1, rand=(1, 4))
    f = S.fun("b", 3, rand=(-4, 4))
    boxes = S.list(m, lambda i: S.list(2, lambda e: S.list(n, lambda d: f(i, e, d))))
    r = S.call("verse.analysis.incremental.combine_all", boxes)
    S.check("a box has two corners", S.len(r) == 2)
    S.check("dimension kept", S.And(S.len(S.at(r, 0)) == n, S.len(S.at(r, 1)) == n))
    for d in S.each(n):
        for i in S.each(m):
            S.check("lower corner is below every member", S.at(r, 0, d) <= f(i, 0, d))
            S.check("upper corner is above every member", f(i, 1, d) <= S.at(r, 1, d))
        if not S.sym:
            S.check("corners are attained", r[0][d] == min(f(i, 0, d) for i in range(m)) and r[1][d] == max(f(i, 1, d) for i in range(m)))
    if not S.sym:
        S.check("members unchanged", boxes == [[[f(i, e, d) for d in range(n)] for e in range(2)] for i in range(m)])


def union_traces(S):
    m, k, n = S.int("m", 1, rand=(1, 5)), S.int("k", 1, rand=(1, 5)), S.int("n", 1, rand=(1, 4))
    f = S.fun("t", 3, rand=(-4, 4))
    traces = S.list(m, lambda j: S.list(2 * k, lambda r: S.list(n, lambda d: f(j, r, d))))
    u = S.call(V + "Verifier._union_traces", traces, None)
    S.check("one segment per input segment", S.len(u) == 2 * k)
    for j in S.each(m):
        for i in S.each(k):
            for d in S.each(n):
                S.check("lower row of the union is below every tube", S.at(u, 2 * i, d) <= f(j, 2 * i, d))
                S.check("upper row of the union is above every tube", f(j, 2 * i + 1, d) <= S.at(u, 2 * i + 1, d))
    if not S.sym:
        for i in range(k):
            for d in range(n):
                S.check("rows of the union are attained", u[2 * i][d] == min(f(j, 2 * i, d) for j in range(m)) and u[2 * i + 1][d] == max(f(j, 2 * i + 1, d) for j in range(m)))


def segments(maxm):
    def contract(S):
        """initial boxes are grouped, a tube is computed per group and joined at the group's offset"""
        m = S.choice("m", list(range(1, maxm + 1)))
        n = S.choice("n", [1, 2])
        seg = S.choice("seg", [1, 2, 1000])
        groups = -(-m // seg)
        L = S.choice("L", [1, 2, 3, 5])
        f = S.fun("c", 2, rand=(-2, 2))
        w = S.fun("w", 2, rand=(0, 1), special=[0.0])
        S.forall(m, lambda i: S.And(*[S.And(w(i, d) >= 0, f(i, d) >= -2, f(i, d) <= 2, w(i, d) <= 1) for d in range(n)]))
        lo = lambda i, d: f(i, d) + 10 * i
        boxes = [[[lo(i, d) for d in range(n)], [lo(i, d) + w(i, d) for d in range(n)]] for i in range(m)]
        if not S.sym and S.choice("ints", [False, True]):
            boxes[0] = [[int(v) for v in boxes[0][e]] for e in (0, 1)]
        g = S.fun("x", 3, rand=(-6, 6))
        dt = 0.5
        horizon = dt * L
        calls = []

        def tube(mode, init, time_horizon, time_step, sim, method, kvalue, num, **kw):
            c = len(calls)
            calls.append(init)
            rows = []
            for i in range(L):
                for e in (0, 1):
                    rows.append([(i + e) * dt] + [g(c, 2 * i + e, d) for d in range(n)])
            for d in range(n):
                S.assume(rows[0][1 + d] <= S.at(init, 0, d))
                S.assume(S.at(init, 1, d) <= rows[1][1 + d])
            return S.matrix(rows)

        log = []

        def sim(mode, init, hz, step, lane_map=None):
            rows = [[0.0] + [float(v) for v in init]]
            for i in range(L):
                rows.append([(i + 1) * dt] + [v + g(len(log), i, d) for d, v in enumerate(init)])
            log.append(rows)
            return rows
        S.stub("verse.analysis.dryvr.calc_bloated_tube", tube)
        res = S.call(V + "Verifier.calculate_full_bloated_tube_simple", "a", None, False, ["m"], boxes, horizon, dt, sim, {}, 100, 2, seg, lane_map=None)
        tb = S.at(res, 0)
        S.check("tube keeps the length of the first group", S.len(tb) == 2 * L)
        S.check("nothing is cached when caching is off", S.len(S.at(res, 1)) == 0)
        for c in range(groups):
            if c * seg >= L:
                continue
            for i in range(c * seg, min(m, (c + 1) * seg)):
                for d in range(n):
                    S.check("each initial box is inside the tube at its group's offset",
                            S.And(S.le(S.at(tb, 2 * c * seg, 1 + d), boxes[i][0][d]), S.le(boxes[i][1][d], S.at(tb, 2 * c * seg + 1, 1 + d))))
            if S.sym:
                for r in range(L - c * seg):
                    for d in range(n):
                        S.check("each group's tube is inside the joined tube", S.And(S.at(tb, 2 * (r + c * seg), 1 + d) <= g(c, 2 * r, d),
                                                                                     g(c, 2 * r + 1, d) <= S.at(tb, 2 * (r + c * seg) + 1, 1 + d)))
        if not S.sym:
            for tr in log:
                c = min(groups - 1, int((tr[0][1] + 3) // 10) // seg)
                S.check("simulated state belongs to its group", all(c * seg * 10 - 3 <= v <= ((c + 1) * seg) * 10 for v in tr[0][1:]))
                for r in range(L - c * seg):
                    for e in (0, 1):
                        for d in range(n):
                            S.check("every simulation of a group is inside the joined tube at the group's offset",
                                    S.And(S.le(tb[2 * (r + c * seg)][1 + d], tr[r + e][1 + d]), S.le(tr[r + e][1 + d], tb[2 * (r + c * seg) + 1][1 + d])))
        for r in range(L):
            S.check("time stamps are those of the first group", S.And(S.eq(S.at(tb, 2 * r, 0), r * dt), S.eq(S.at(tb, 2 * r + 1, 0), (r + 1) * dt)))
    return contract


PROP = Prop("P02", [
    Contract("combine_rect", combine_rect, runs=(150, 2000)),
    Contract("combine_all", combine_all, runs=(150, 2000)),
    Contract("union_traces", union_traces, runs=(150, 2000)),
    Contract("segments", segments(4), prove="bounded", bound="at most 4 initial boxes, 2 dimensions, 5 segments, group sizes 1, 2 and 1000; all real values",
             why_bounded="list sizes are enumerated", budget=(100, 400), max_paths=2000, runs=(300, 3000)),
], assumes=["calc_bloated_tube is used through its contract (P01): a tube of fixed length whose first segment encloses the combined box"])
