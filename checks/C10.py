import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp_common import *
from C09 import nest, flatten, validation, rejected
import itertools


def check(c):
    c.rule = ("abstract interpretation of the nearest-node grid (boost::multi_array included) on symbolic strictly increasing axes, data and query: the index returned on each axis is compared, on every feasible region, with the "
              "set of minimisers of the distance (ties either way) resp. with the bounds of the enclosing cell; coordinate and datum must be those of that index")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["real arithmetic up to rounding", "grids of the listed shapes in 1 to 3 dimensions"]
    m = c.unit("grid.cpp")
    W = "RegularGridNearest.h "

    def setup(I, shape):
        D = len(shape)
        axs = [knots("xyzt"[i], n) for i, n in enumerate(shape)]
        data = nest(shape)
        q = [sym("q" + "xyzt"[i]) for i in range(D)]
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        z = fconst(0)
        b = [al([0] * (8 * D)), al([z] * max(8 * D, sum(shape))), al([z] * 9), al([z] * 12)]
        return axs, data, q, [al(sum(axs, [])), al(list(shape), 4), al(flatten(data)), al(q)], b

    def is_(I, v, k):
        return A.tobdd(I.icmp("eq", "i64", v, k))

    def pick(I, idx, data):
        """datum at the returned indices"""
        if not idx:
            return data
        r = pick(I, idx[1:], data[-1])
        for k in range(len(data) - 2, -1, -1):
            r = ite(is_(I, idx[0], k), pick(I, idx[1:], data[k]), r)
        return r

    def only(c, name, where, I, bad, msg):
        w = T.feasible_cube(bad, I.feas_extra)
        c.require(name, w is None, where, msg + (" when [%s]" % " & ".join(T.lits_str(w)) if w else ""))

    def node(c, t, where, I, r, axs, data, idx, coord, val):
        for i, xs in enumerate(axs):
            inr = FALSE
            for k in range(len(xs)):
                inr = T.bor(inr, is_(I, idx[i], k))
            only(c, "%s index in range, axis %d" % (t, i), where, I, T.band(r.pc, T.bnot(inr)), "the index is not that of a node")
            c.eq("%s coordinate of the index, axis %d" % (t, i), coord[i], pick(I, [idx[i]], xs), m, where, pc=r.pc)
        c.eq("%s datum of the index" % t, val, pick(I, idx, data), m, where, pc=r.pc)

    def nearest(c, shape):
        I = c.interp(m)
        D = len(shape)
        axs, data, q, a, b = setup(I, shape)
        t = "nearest[%s]" % "x".join(map(str, shape))
        r = c.run(t, I, "vp_n%d" % D, a + [0] + b)
        if not r:
            return
        idx = [r.rd(b[0], i, "i64") for i in range(D)]
        for i, xs in enumerate(axs):
            for k in range(len(xs)):
                bad = FALSE
                if k > 0:
                    bad = T.bor(bad, lt(2 * q[i], xs[k] + xs[k - 1]))
                if k < len(xs) - 1:
                    bad = T.bor(bad, gt(2 * q[i], xs[k] + xs[k + 1]))
                only(c, "%s axis %d node %d only where it is closest" % (t, i, k), W + "Nearest", I, T.band(r.pc, T.band(is_(I, idx[i], k), bad)), "node %d of axis %d is returned although another one is closer" % (k, i))
        node(c, t, W + "Nearest", I, r, axs, data, idx, r.arr(b[1], D), r.rd(b[2], 0))
        c.eq(t + " GetData", r.rd(b[2], 1), r.rd(b[2], 0), m, W + "GetData", pc=r.pc)

    def surround(c, shape):
        I = c.interp(m)
        D = len(shape)
        axs, data, q, a, b = setup(I, shape)
        t = "surrounding[%s]" % "x".join(map(str, shape))
        r = c.run(t, I, "vp_n%d" % D, a + [1] + b)
        if not r:
            return
        idx = [[r.rd(b[0], v * D + i, "i64") for i in range(D)] for v in range(1 << D)]
        for i, xs in enumerate(axs):
            n = len(xs)
            bit = 1 << (D - i - 1)
            for s in (0, 1):
                vs = [v for v in range(1 << D) if bool(v & bit) == bool(s)]
                d = FALSE
                for v in vs[1:]:
                    for k in range(n):
                        d = T.bor(d, T.bxor(is_(I, idx[v][i], k), is_(I, idx[vs[0]][i], k)))
                only(c, "%s axis %d corners on side %d aligned" % (t, i, s), W + "GetSurroundingGridNodes", I, T.band(r.pc, d), "corners on the same side of axis %d have different indices" % i)
            lo, hi = idx[0][i], idx[bit][i]
            x0, xn = lt(q[i], xs[0]), gt(q[i], xs[-1])
            for k in range(n):
                for l in range(n):
                    if l == k + 1:
                        bad = T.bor(lt(q[i], xs[k]), gt(q[i], xs[l]))
                    elif l == k == 0:
                        bad = T.bnot(le(q[i], xs[0])) if n > 1 else FALSE
                    elif l == k == n - 1:
                        bad = T.bnot(ge(q[i], xs[-1]))
                    else:
                        bad = TRUE
                    only(c, "%s axis %d bounds (%d,%d)" % (t, i, k, l), W + "GetSurroundingGridNodes", I, T.band(r.pc, T.band(T.band(is_(I, lo, k), is_(I, hi, l)), bad)),
                         "nodes %d and %d of axis %d are returned for a point they do not enclose" % (k, l, i))
        for v in range(1 << D):
            node(c, "%s corner %d" % (t, v), W + "GetNode", I, r, axs, data, idx[v], r.arr(A.Ptr(b[1].r, b[1].o + 8 * v * D), D), r.rd(b[2], v))

    def access(c, shape):
        I = c.interp(m)
        D = len(shape)
        axs, data, q, a, b = setup(I, shape)
        t = "access[%s]" % "x".join(map(str, shape))
        r = c.run(t, I, "vp_n%d" % D, a + [2] + b)
        if not r:
            return
        for i, (v, nm) in enumerate(((0, "IsValid empty"), (0, "IsValid without data"), (1, "IsValid"), (D, "GetDimension"))):
            c.eq("%s %s" % (t, nm), r.rd(b[3], i), v, m, W + nm)
        k = 0
        for i in range(D):
            c.eq("%s GetCoordMinVal %d" % (t, i), r.rd(b[3], 4 + 2 * i), axs[i][0], m, W + "GetCoordMinVal")
            c.eq("%s GetCoordMaxVal %d" % (t, i), r.rd(b[3], 5 + 2 * i), axs[i][-1], m, W + "GetCoordMaxVal")
            for j in range(shape[i]):
                c.eq("%s GetCoord %d %d" % (t, i, j), r.rd(b[1], k), axs[i][j], m, W + "GetCoord")
                k += 1

    s1 = [(1,), (2,), (3,), (4,), (5,), (7,)] + [(n,) for n in c.cutoffs(2, 12) if n > 7]
    s2 = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)] + ([(2, 4), (3, 4), (4, 4)] if c.thorough else [])
    s3 = [(2, 2, 2), (3, 2, 2), (2, 2, 3)] + ([(2, 3, 2), (3, 3, 2)] if c.thorough else [])
    work = [(f, s) for s in s1 + s2 + s3 for f in (nearest, surround, access)]
    work.sort(key=lambda w: -len(w[1]))
    c.pmap(lambda c, it: it[0](c, it[1]), work)
    extra = [n for n in c.cutoffs(2, 12) if n > 7]
    c.pmap(lambda c, it: it[0](c, it[1]), [(f, (n,)) for n in extra for f in (nearest, surround)])

    def long(c, it):
        """grids of many nodes: given axes and queries, any data"""
        shape, part = it
        D = len(shape)
        axs = [steps(n, -7.5 + 3 * i) for i, n in enumerate(shape)]
        data = nest(shape)
        pr = [[x[0] - 2.0] + [v + d for v in probes(x, 24) for d in (0.0, 0.0625)] + [x[-1] + 2.0] for x in axs]
        f = lambda v: [fconst(x) for x in v]
        at = lambda idx: at_(data, idx)

        def at_(d, idx):
            return d if not idx else at_(d[idx[0]], idx[1:])
        for i in range(part, max(map(len, pr)), 4):
            q = [p[(i * (1, 7, 5)[j]) % len(p)] for j, p in enumerate(pr)]
            for mode in (0, 1):
                t = "long %s[%s] at %s" % ("surrounding" if mode else "nearest", "x".join(map(str, shape)), q)
                where = W + ("GetSurroundingGridNodes" if mode else "Nearest")
                I = c.interp(m)
                _, _, _, a, b = setup(I, shape)
                a[0], a[3] = I.alloc_array(I.st0, f(sum(axs, []))), I.alloc_array(I.st0, f(q))
                r = c.run(t, I, "vp_n%d" % D, a + [mode] + b)
                if not r:
                    continue
                for v in range(1 << D if mode else 1):
                    idx = [r.rd(b[0], v * D + j, "i64") for j in range(D)]
                    ok = all(isinstance(k, int) and 0 <= k < n for k, n in zip(idx, shape))
                    c.require("%s corner %d: indices of nodes" % (t, v), ok, where, "indices are %s" % (idx,))
                    if not ok:
                        continue
                    for j, k in enumerate(idx):
                        x = axs[j]
                        if mode:
                            hi = v >> (D - j - 1) & 1
                            if q[j] <= x[0] and k == 0 or q[j] >= x[-1] and k == len(x) - 1:
                                good = True
                            elif hi:
                                good = k > 0 and x[k - 1] <= q[j] <= x[k]
                            else:
                                good = k + 1 < len(x) and x[k] <= q[j] <= x[k + 1]
                        else:
                            good = abs(x[k] - q[j]) == min(abs(y - q[j]) for y in x)
                        c.require("%s corner %d axis %d" % (t, v, j), good, where, "node %d (%g) is returned for %g" % (k, x[k], q[j]))
                        c.eq("%s corner %d coordinate %d" % (t, v, j), r.rd(b[1], v * D + j), fconst(x[k]), m, where, pc=r.pc)
                    c.eq("%s corner %d datum" % (t, v), r.rd(b[2], v), at(idx), m, where, pc=r.pc)

    big = [(33,), (130,), (9, 14), (40, 3), (3, 40), (5, 4, 6)] + [x for n in c.cutoffs(13, 520) for x in ((n,), (n, 2), (2, n))]
    c.pmap(long, [(x, p) for x in big for p in range(4)])
    c.extra_cov["shapes with given axes"] = big
    validation(c, m, "vp_nbad", W)
    rejected(c, m, "vp_nrej", W)
