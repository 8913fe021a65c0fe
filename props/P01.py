"""P01  A reachable tube built from simulations contains those simulations and the initial set."""
import z3
from pyvc.contract import Contract, Prop
from pyvc.spec import Ghost, it, VList, Sym, mk, I, term, core, CTX, vget_raw, seqs, native
from pyvc.spec import resolve


def time_row(S, T, step):
    """common time stamps of all simulations"""
    if S.sym:
        S.increasing(T)
        return T
    return lambda i: i * step


def simulator(S, n, T, log, minlen=2):
    """black-box simulator: returns an arbitrary trace that starts in the given state; the traces of one
    tube share their time stamps but may differ in length"""
    count = [0]

    def sim(self, mode, init, horizon, step, lane_map=None):
        c = count[0]
        count[0] += 1
        if S.sym:
            L = CTX.fresh("L", "int")
            CTX.fact(L.t >= 2)
            f = CTX.fresh_fun("tr", 2, "real")

            def cell(i, d):
                b = mk(it(d) == 0)
                v = mk(f(it(i), z3.simplify(it(d) - 1)))
                if isinstance(b, bool):
                    return T(i) if b else v
                return core.ite(b, T(i), v)
            tr = VList.symbolic(L, lambda i: VList.symbolic(n + 1, lambda d: cell(i, d)))
            q = z3.Const(CTX.fresh_name("d"), I)
            CTX.fact(z3.Implies(z3.And(0 <= q, q < it(n)), f(z3.IntVal(0), q) == term(vget_raw(init, Sym(q)), "real")), [q])
        else:
            L = minlen + S.draw_int(f"len{c}", 0, 4)
            g = S.fun(f"tr{c}", 2, rand=(-4, 4))
            tr = [[T(i)] + [(init[d] if i == 0 else float(g(i, d))) for d in range(n)] for i in range(L)]
        self.log.append(tr)
        return tr
    return Ghost(sim, log)


def draw(S):
    n = S.int("n", 1, rand=(1, 3))
    m = S.int("m", 1, rand=(1, 4))
    lo = S.vec("lo", n, rand=(-3, 3))
    w = S.vec("w", n, lo=0, rand=(0, 2), special=[0.0, 1e-10, 1e-7])
    hi = S.list(n, lambda i: lo[i] + w[i])
    step = S.real("step", lo=0.01, hi=1.0)
    T = time_row(S, S.fun("T", 1), step)
    init = VList([lo, hi]) if S.sym else [list(lo), list(hi)]
    return n, m, lo, hi, step, T, init


def tube_contract(qual, method, closed, disc=False):
    """closed: rows 2i/2i+1 enclose samples i and i+1 (continuous-time tube); otherwise sample i only"""
    def contract(S):
        n, m, lo, hi, step, T, init = draw(S)
        log = VList() if S.sym else []
        g = simulator(S, n, T, log, 3 if method == "GLOBAL" else 2)
        tube = S.call(qual, "m", init, S.real("horizon", lo=1, hi=10), step, g, method, None, m)
        rows = S.len(tube)
        seg = rows // 2
        S.check("tube rows come in lower/upper pairs", rows == 2 * seg)
        last = 1 if closed else 0
        c = S.at(log, 0)
        for j in S.each(S.len(log)):
            tr = S.at(log, j)
            S.check("no segment beyond the shortest simulation", seg <= S.len(tr) - last)
        for d in S.each(n + 1, lo=1):
            S.check("first segment encloses the initial set (lower)", S.le(S.at(tube, 0, d), lo[d - 1]))
            S.check("first segment encloses the initial set (upper)", S.le(hi[d - 1], S.at(tube, 1, d)))
        for j in S.each(S.len(log)):
            S.pair_hint(m + 1, j)
            tr = S.at(log, j)
            for i in S.each(seg):
                if method == "PW":
                    S.check("time stamps of the segment", S.And(S.eq(S.at(tube, 2 * i, 0), T(i)), S.eq(S.at(tube, 2 * i + 1, 0), T(i + last))))
                else:
                    S.check("time stamps of the segment", S.And(S.eq(S.at(tube, 2 * i, 0), T(i)), S.eq(S.at(tube, 2 * i + 1, 0), T(i + last))))
                for d in S.each(n + 1, lo=1):
                    for e in range(last + 1):
                        x, x0 = S.at(tr, i + e, d), S.at(c, i + e, d)
                        slack = 1e-10 * abs(x - x0)
                        S.check(f"lower row is below the simulation at sample i+{e}", S.le(S.at(tube, 2 * i, d), x + slack))
                        S.check(f"upper row is above the simulation at sample i+{e}", S.le(x, S.at(tube, 2 * i + 1, d) + slack))
    return contract


def length_contract(qual, closed):
    """the tube is as long as the shortest simulation"""
    def contract(S):
        n, m, lo, hi, step, T, init = draw(S)
        log = VList() if S.sym else []
        g = simulator(S, n, T, log)
        tube = S.call(qual, "m", init, S.real("horizon", lo=1, hi=10), step, g, "PW", None, m)
        last = 1 if closed else 0
        shortest = min(len(t) for t in log) if not S.sym else seqs.fold_minmax(S.len(log), lambda j: S.len(S.at(log, j)), True)
        S.check("tube covers the shortest simulation", S.len(tube) == 2 * (shortest - last))
    return contract


def centre(S):
    n = S.int("n", 1, rand=(1, 4))
    lo = S.vec("lo", n, rand=(-3, 3))
    w = S.vec("w", n, lo=0, rand=(0, 2), special=[0.0, 1e-10, 1e-7])
    hi = S.list(n, lambda i: lo[i] + w[i])
    mod = S.choice("mod", ["verse.analysis.dryvr", "verse.analysis.dryvr_disc"])
    c = S.call(mod + ".calcCenterPoint", lo, hi)
    dl = S.call(mod + ".calcDelta", lo, hi)
    p = S.call(mod + ".randomPoint", lo, hi, S.int("seed", 0, 20))
    for i in S.each(n):
        S.check("centre minus delta is the lower corner", S.eq(c[i] - dl[i], lo[i]))
        S.check("centre plus delta is the upper corner", S.eq(c[i] + dl[i], hi[i]))
        S.check("sampled point lies in the box", S.And(S.le(lo[i], p[i]), S.le(p[i], hi[i])))
    S.check("lengths", S.And(S.len(c) == n, S.len(dl) == n, S.len(p) == n))


D = "verse.analysis.dryvr.calc_bloated_tube"
DD = "verse.analysis.dryvr_disc.calc_bloated_tube_dryvr"
ASSUME = ["the simulator is a black box: every call returns an arbitrary finite trace starting in the requested state; all traces of one tube share strictly increasing time stamps",
          "distances below 1e-10 of a trace's distance from the centre trace are ignored (the code adds 1e-10 to a divisor)"]

PROP = Prop("P01", [
    Contract("dryvr_pw", tube_contract(D, "PW", True), budget=(150, 500), runs=(150, 1500)),
    Contract("dryvr_disc_pw", tube_contract(DD, "PW", False), budget=(150, 500), runs=(150, 1500)),
    Contract("dryvr_length", length_contract(D, True), budget=(100, 300), runs=(40, 400)),
    Contract("dryvr_disc_length", length_contract(DD, False), budget=(100, 300), runs=(40, 400)),
    Contract("centre", centre, budget=(60, 100), runs=(60, 300)),
    Contract("dryvr_global", tube_contract(D, "GLOBAL", True), prove=None, bound="n<=3, 1..4 traces of <=6 samples", runs=(250, 3000),
             functions=[D], why_bounded="convex hull of the logarithmic sensitivities (scipy.spatial.ConvexHull) and exp/log"),
], assumes=ASSUME)
