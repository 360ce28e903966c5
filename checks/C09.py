import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp_common import *
import itertools


def clamp(q, xs):
    return ite(lt(q, xs[0]), xs[0], ite(gt(q, xs[-1]), xs[-1], q))


def multi(axs, data, q):
    """multilinear blend, axes clamped; data: nested lists"""
    if len(axs) == 0:
        return data
    rows = [multi(axs[1:], d, q[1:]) for d in data]
    if len(axs[0]) == 1:
        return rows[0]
    xs, v = axs[0], q[0]
    return ite(lt(v, xs[0]), rows[0], ite(ge(v, xs[-1]), rows[-1], pw(xs, rows, v)))


def blend(axs, data, q):
    """multilinear blend at a given point, clamped"""
    if not axs:
        return data
    xs, v = axs[0], min(max(q[0], axs[0][0]), axs[0][-1])
    k = min(max([j for j in range(len(xs)) if xs[j] <= v]), len(xs) - 2)
    return lin(xs[k:k + 2], [blend(axs[1:], data[k], q[1:]), blend(axs[1:], data[k + 1], q[1:])], v)


def nest(shape, pre="d"):
    if not shape:
        return sym(pre)
    return [nest(shape[1:], "%s_%d" % (pre, i)) for i in range(shape[0])]


def flatten(d):
    return [d] if isinstance(d, FNode) else [v for x in d for v in flatten(x)]


def check(c):
    c.rule = ("abstract interpretation of the regular-grid interpolator (boost::multi_array and linterp included) on symbolic strictly increasing axes, data and query: value on every feasible region must be the multilinear "
              "blend of the clamped point; with bound checking an exception exactly outside; invalid axes, counts and shapes must be rejected")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["real arithmetic up to rounding", "grids of the listed shapes in 1 to 4 dimensions"]
    m = c.unit("grid.cpp")
    W = "RegularGridInterpolator.h "

    def setup(I, shape, es=8):
        D = len(shape)
        axs = [knots("xyzt"[i], n) for i, n in enumerate(shape)]
        data = nest(shape)
        q = [sym("q" + "xyzt"[i]) for i in range(D)]
        al = lambda v, e=es: I.alloc_array(I.st0, v, e)
        n = 1
        for s in shape:
            n *= s
        z = fconst(0)
        bufs = [al([z]), al([z] * 12), al([z] * sum(shape)), al([z] * n)]
        return axs, data, q, [al(sum(axs, [])), al(list(shape), 4), al(flatten(data)), al(q)], bufs

    def value(c, it):
        shape, bound, kind = it
        I = c.interp(m)
        es, ty = (4, "f") if kind == "float" else (8, "d")
        axs, data, q, a, b = setup(I, shape, es)
        t = "interp %s[%s,%s]" % (kind, "x".join(map(str, shape)), {-1: "default", 0: "clamped", 1: "bound check"}[bound])
        out = FALSE
        for x, v in zip(axs, q):
            out = T.bor(out, outside(x, v))
        e = "vp_g2f" if kind == "float" else "vp_g%d" % len(shape)
        args = a + [bound & 0xffffffff, 0] + b
        if bound == 1:
            r = c.refuse(t + " rejects outside", I, e, args, W + "Interp", cond=out, kinds=("throw",))
        else:
            r = c.run(t, I, e, args)
        if r:
            got = r.rd(b[0], 0, ty, es)
            c.eq(t, unfloat(got) if es == 4 else got, multi(axs, data, q), m, W + "Interp", pc=r.pc, tol=T.TOL if es == 8 else 1e-6)

    def access(c, shape):
        I = c.interp(m)
        axs, data, q, a, b = setup(I, shape)
        t = "access[%s]" % "x".join(map(str, shape))
        r = c.run(t, I, "vp_g%d" % len(shape), a + [0, 1] + b)
        if not r:
            return
        D = len(shape)
        for i, (v, nm) in enumerate(((0, "IsValid empty"), (0, "IsValid without data"), (1, "IsValid"), (D, "GetDimension"))):
            c.eq("%s %s" % (t, nm), r.rd(b[1], i), v, m, W + nm)
        k = 0
        for i in range(D):
            c.eq("%s GetCoordMinVal %d" % (t, i), r.rd(b[1], 4 + 2 * i), axs[i][0], m, W + "GetCoordMinVal")
            c.eq("%s GetCoordMaxVal %d" % (t, i), r.rd(b[1], 5 + 2 * i), axs[i][-1], m, W + "GetCoordMaxVal")
            for j in range(shape[i]):
                c.eq("%s GetCoord %d %d" % (t, i, j), r.rd(b[2], k), axs[i][j], m, W + "GetCoord")
                k += 1
        for i, v in enumerate(flatten(data)):
            c.eq("%s EvalAtIndice %d" % (t, i), r.rd(b[3], i), v, m, W + "EvalAtIndice")

    def at_nodes(c, shape):
        axs = [knots("xyzt"[i], n) for i, n in enumerate(shape)]
        data = nest(shape)
        for idx in itertools.product(*[range(n) for n in shape]):
            for bound in (0, 1):
                I = c.interp(m)
                _, _, _, a, b = setup(I, shape)
                a[3] = I.alloc_array(I.st0, [axs[i][k] for i, k in enumerate(idx)])
                t = "node value[%s,%s,%s]" % ("x".join(map(str, shape)), idx, "bound check" if bound else "clamped")
                r = c.run(t, I, "vp_g%d" % len(shape), a + [bound, 0] + b)
                if r:
                    w = data
                    for k in idx:
                        w = w[k]
                    c.eq(t, r.rd(b[0], 0), w, m, W + "Interp", pc=r.pc)

    shapes1 = [(1,), (2,), (3,), (4,), (5,), (7,)]
    shapes2 = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)] + ([(3, 4), (4, 3), (5, 3)] if c.thorough else [])
    shapes3 = [(2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3)] + ([(3, 3, 2), (2, 3, 3)] if c.thorough else [])
    work = [(value, (s, b, "double")) for s in shapes1 + shapes2 + shapes3 for b in ((-1, 0, 1) if len(s) < 3 else (0, 1))]
    work += [(value, ((2, 3), 0, "float")), (value, ((2, 2, 2, 2), 0, "double"))]
    work += [(access, s) for s in shapes1 + shapes2 + shapes3 + [(1, 3), (3, 1, 2), (2, 2, 2, 2)]]
    work += [(at_nodes, s) for s in ((2,), (3,), (4,), (2, 2), (3, 2), (2, 3), (2, 2, 2), (3, 2, 2))]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
    extra = [n for n in c.cutoffs(2, 12) if n > 7]
    c.pmap(value, [((n,), b, "double") for n in extra for b in (0, 1)])

    def long(c, it):
        """grids of many nodes: given axes and queries, any data"""
        shape, bound, part = it
        D = len(shape)
        axs = [steps(n, -7.5 + 3 * i) for i, n in enumerate(shape)]
        data = nest(shape)
        t = "long[%s,%s]" % ("x".join(map(str, shape)), "bound check" if bound else "clamped")
        pr = [probes(x, 24) for x in axs]
        if not bound:
            pr = [[x[0] - 2.0] + p + [x[-1] + 2.0] for x, p in zip(axs, pr)]
        n = max(map(len, pr))
        f = lambda v: [fconst(x) for x in v]
        for i in range(part, n, 3):
            q = [p[(i * (1, 7, 5)[j]) % len(p)] for j, p in enumerate(pr)]
            I = c.interp(m)
            _, _, _, a, b = setup(I, shape)
            a[0], a[3] = I.alloc_array(I.st0, f(sum(axs, []))), I.alloc_array(I.st0, f(q))
            r = c.run("%s at %s" % (t, q), I, "vp_g%d" % D, a + [bound, 0] + b)
            if r:
                c.eq("%s at %s" % (t, q), r.rd(b[0], 0), blend(axs, data, q), m, W + "Interp", pc=r.pc)

    big = [(33,), (130,), (9, 14), (14, 9), (40, 3), (3, 40), (5, 4, 6)] + [x for n in c.cutoffs(13, 520) for x in ((n,), (n, 2), (2, n))]
    c.pmap(long, [(x, b, p) for x in big for b in (0, 1) for p in range(3)])
    c.extra_cov["shapes with given axes"] = big
    validation(c, m, "vp_gbad", W)
    rejected(c, m, "vp_grej", W)


def validation(c, m, pre, W):
    """axes, number of axes and shape of the data are validated"""
    z = fconst(0)

    def one(c, it):
        D, what, sizes, dshape, label = it
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        ax = [syms("axis%d_" % i, n) for i, n in enumerate(sizes)]
        n = 1
        for s in dshape:
            n *= s
        cond = TRUE
        pc = TRUE
        ok = FALSE
        for a in ax:
            for i in range(1, len(a)):
                ok = T.bor(ok, le(a[i], a[i - 1]))
        if what == 3:
            cond = ok
        else:
            pc = T.bnot(ok)
            if what == 0 and list(dshape) == list(sizes):
                cond = FALSE
        c.refuse("%s[%dd,%s]" % ("unordered axis rejected" if what == 3 else label, D, "x".join(map(str, sizes)) + (" data " + "x".join(map(str, dshape)) if what == 0 else "")), I, "%s%d" % (pre, D),
                 [0 if what == 3 else what, al(sum(ax, [])), al(list(sizes), 4), al(list(dshape), 4), al([sym("v%d" % i) for i in range(n)])], W + ("AddCoord" if what in (1, 3) else "AddVar"), cond=cond, pc=pc)

    items = []
    for D, base in ((1, (3,)), (2, (2, 3)), (3, (2, 3, 2))):
        items.append((D, 3, base, base, ""))
        items.append((D, 1, base + (2,), base, "too many axes rejected"))
        items.append((D, 2, base[:-1] if D > 1 else (), base, "missing axis rejected"))
        items.append((D, 4, base, base, "axis index out of range rejected (GetCoord)"))
        items.append((D, 5, base, base, "axis index out of range rejected (GetCoordMinVal)"))
        items.append((D, 6, base, base, "axis index out of range rejected (GetCoordMaxVal)"))
        items.append((D, 0, base, base, "data of the grid's shape accepted"))
        for i in range(D):
            for dlt in (-1, 1):
                b = list(base)
                b[i] += dlt
                items.append((D, 0, base, tuple(b), "data of another shape rejected"))
    items += [(2, 0, (2, 3), (3, 2), "data of another shape rejected"), (2, 0, (2, 6), (3, 4), "data of another shape rejected"), (3, 0, (2, 3, 2), (3, 2, 2), "data of another shape rejected"),
              (3, 0, (2, 3, 2), (2, 2, 3), "data of another shape rejected"), (1, 3, (2,), (2,), ""), (1, 3, (5,), (5,), "")]
    c.pmap(one, items)


def rejected(c, m, e, W):
    """a rejected axis or data set leaves the grid as it was"""
    def one(c, shape):
        I = c.interp(m)
        al = lambda v, z=8: I.alloc_array(I.st0, v, z)
        xs, ys = knots("x", shape[0]), knots("y", shape[1])
        n = shape[0] * shape[1]
        o = al([fconst(0)] * 7)
        t = "rejected axes and data[%dx%d]" % shape
        r = c.run(t, I, e, [al(xs + ys), al(list(shape), 4), al(syms("d", n)), al(syms("e", n + shape[0])), al(syms("q", 2)), o])
        if r:
            c.require(t + " all rejected", r.ret == 5, W + "AddCoord/AddVar", "%r of the 5 invalid axes and data sets are rejected" % (r.ret,))
            c.eq(t + " not valid before data", r.rd(o, 0), 0, m, W + "IsValid")
            for i, nm in ((1, "before"), (2, "after data with more columns"), (3, "after data with fewer rows")):
                c.eq("%s value %s" % (t, nm), r.rd(o, i), r.rd(o, 6), m, W + "AddVar", pc=r.pc)
            c.eq(t + " bound", r.rd(o, 4), ys[-1], m, W + "AddCoord")
            c.eq(t + " number of nodes", r.rd(o, 5), shape[0], m, W + "AddCoord")
    c.pmap(one, [(2, 2), (2, 3), (3, 2)])
