"""P03  Partitioning a box covers it."""
from pyvc.contract import Contract, Prop

Q = "verse.analysis.verifier.Verifier._partition_rect"


def partition(maxn, maxd):
    def contract(S):
        d = S.choice("d", list(range(1, maxd + 1)))
        n = S.choice("n", list(range(1, maxn + 1)))
        dims = S.choice("dims", [None] + [list(x) for x in ([], [0], [1], [0, 1], [1, 2], [2, 1], [0, 2], [1, 2, 3], [3]) if all(k < d for k in x)])
        lo = [S.real(f"lo{k}", rand=(-5, 5)) for k in range(d)]
        w = [S.real(f"w{k}", lo=0, rand=(0, 4)) for k in range(d)]
        if not S.sym:
            w = [S.choice(f"z{k}", [0, 1, 1, 1]) * w[k] for k in range(d)]
        hi = [lo[k] + w[k] for k in range(d)]
        parts = S.call(Q, [list(lo), list(hi)], n, dims)
        k = S.len(parts)
        S.check("at least one part", k >= 1)
        use = [x for x in (range(1, d) if dims is None else dims) if x != 0]
        for p in range(k):
            for x in range(d):
                a, b = S.at(parts, p, 0, x), S.at(parts, p, 1, x)
                S.check("parts are boxes inside the original", S.And(S.le(lo[x], a), S.le(a, b), S.le(b, hi[x])))
                if x not in use:
                    S.check("other dimensions keep their range", S.And(S.eq(a, lo[x]), S.eq(b, hi[x])))
                else:
                    S.check("parts have equal width", S.eq((b - a) * n, w[x]))
        # every point of the box lies in a part
        pts = [[S.real(f"p{x}", rand=(-6, 9)) for x in range(d)]] if S.sym else [
            [lo[x] + w[x] * S.real(f"u{j}_{x}", lo=0, hi=1) for x in range(d)] for j in range(20)]
        for pt in pts:
            inside = S.And(*[S.And(lo[x] <= pt[x], pt[x] <= hi[x]) for x in range(d)])
            covered = S.Or(*[S.And(*[S.And(S.le(S.at(parts, p, 0, x), pt[x]), S.le(pt[x], S.at(parts, p, 1, x))) for x in range(d)]) for p in range(k)])
            S.check("every point of the box lies in a part", S.implies(inside, covered))
        # parts do not overlap in their interiors (no duplicated work)
        if not S.sym:
            for i in range(k):
                for j in range(i):
                    S.check("parts do not overlap", any(parts[i][1][x] <= parts[j][0][x] + 1e-9 or parts[j][1][x] <= parts[i][0][x] + 1e-9 for x in range(d)))
    return contract


PROP = Prop("P03", [
    Contract("partition", partition(3, 3), prove="bounded", bound="dimension <= 3 and at most 3 parts per dimension, all dimension selections, all real bounds",
             why_bounded="the product over split dimensions is enumerated", budget=(150, 400), max_paths=3000, runs=(400, 4000)),
    Contract("partition_wide", partition(7, 4), prove=None, bound="dimension <= 4 and at most 7 parts per dimension, generated bounds", functions=[Q], runs=(400, 4000)),
])
