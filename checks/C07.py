import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp_common import *


def check(c):
    c.rule = ("abstract interpretation of the 2-D interpolator on symbolic strictly increasing abscissae, symbolic data and query: in every feasible region the value must be the bilinear function of the cell that contains the "
              "query, and queries outside the grid must fail")
    c.level = "proof"
    c.floor = 60
    c.assumptions = ["real arithmetic up to rounding", "assertions enabled (as the project builds)", "grids of the listed shapes"]
    m = c.unit("interp.cpp")
    W = "Interp2d.h "

    def go(c, it):
        nx, ny, how, form, kind = it[:5]
        xs, ys = knots("x", nx), knots("y", ny)
        d = [[sym("d%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)]
        flat = sum(d, [])
        t = "%s[%dx%d,%s,form %d]" % (kind, nx, ny, "factory" if how else "class", form)
        I = c.interp(m)
        es = 4 if kind == "float" else 8
        al = lambda v: I.alloc_array(I.st0, v, es)
        k = it[5] if len(it) > 5 else 2 if form >= 2 and nx == ny == 2 else 1
        qs = [(sym("qx"), sym("qy")), (sym("rx"), sym("ry")), (sym("sx"), sym("sy"))][:k]
        if len(it) > 5:
            t += " %d points" % k
        bad = FALSE
        for a, b in qs:
            bad = T.bor(bad, T.bor(outside(xs, a), outside(ys, b)))
        if kind == "float":
            o = al([fconst(0)])
            r = c.refuse(t + " refuses outside", I, "vp_i2f", [al(xs), nx, al(ys), ny, al(flat), qs[0][0], qs[0][1], o], W + "Eval", cond=bad)
            if r:
                c.eq(t, unfloat(r.rd(o, 0, "f", 4)), spec2(xs, ys, d, *qs[0]), m, W + "Eval", pc=r.pc, tol=1e-6)
            return
        o, acc = al([fconst(0)] * max(k, 1)), al([fconst(0)] * 4)
        r = c.refuse(t + " refuses outside", I, "vp_i2", [how, form, al(xs), nx, al(ys), ny, al(flat), nx * ny, al([v for p in qs for v in p] or [fconst(0)]), k, o, acc], W + "Eval", cond=bad)
        if not r:
            return
        for i, (a, b) in enumerate(qs):
            c.eq("%s value %d" % (t, i), r.rd(o, i), spec2(xs, ys, d, a, b), m, W + "Eval", pc=r.pc)
        for i, v in enumerate((xs[0], xs[-1], ys[0], ys[-1])):
            c.eq("%s bound %d" % (t, i), r.rd(acc, i), v, m, W + "GetXmin/Xmax/Ymin/Ymax", pc=r.pc)

    shapes = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (4, 3), (3, 5)] + ([(4, 4), (5, 3), (2, 7), (7, 2)] if c.thorough else [])
    items = [(a, b, 0, 0, "real") for a, b in shapes]
    items += [(a, b, h, f, "real") for a, b in ((2, 2), (2, 3), (3, 2)) for h in (0, 1) for f in range(4) if (h, f) != (0, 0)]
    items += [(2, 3, 0, 0, "float"), (3, 2, 0, 0, "float")]
    items += [(2, 2, h, f, "real", k) for h, f in ((0, 2), (1, 3)) for k in (0, 3)] + [(2, 3, 0, 2, "real", 2)]
    c.pmap(go, items)
    extra = [n for n in c.cutoffs(2, 16) if n > 4]
    c.pmap(go, [x for n in extra for x in ((n, 2, 0, 0, "real"), (2, n, 0, 0, "real"))])

    def long(c, it):
        """grids of many points: given abscissae and queries, any data"""
        nx, ny, form = it
        xs, ys = steps(nx), steps(ny, 2.0)
        d = [[sym("d%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)]
        t = "long[%dx%d,form %d]" % (nx, ny, form)
        px, py = probes(xs, 60), probes(ys, 60)
        qs = [(px[i % len(px)], py[i * 7 % len(py)]) for i in range(max(len(px), len(py)))] + [(a, b) for a in (xs[0], xs[-1]) for b in (ys[0], ys[-1])]
        I = c.interp(m)
        al = lambda v: I.alloc_array(I.st0, v)
        o, acc = al([fconst(0)] * len(qs)), al([fconst(0)] * 4)
        f = lambda v: [fconst(x) for x in v]
        r = c.run(t, I, "vp_i2", [0, form, al(f(xs)), nx, al(f(ys)), ny, al(sum(d, [])), nx * ny, al(f([v for p in qs for v in p])), len(qs), o, acc])
        if not r:
            return
        for i, (a, b) in enumerate(qs):
            k = max(j for j in range(nx - 1) if xs[j] <= a or j == 0)
            want = lin(xs[k:k + 2], [lin(ys, d[k], b), lin(ys, d[k + 1], b)], a)
            c.eq("%s at (%g, %g)" % (t, a, b), r.rd(o, i), want, m, W + "Eval", pc=r.pc)

    big = [(9, 14), (14, 9), (40, 3), (3, 40), (21, 20)] + [x for n in c.cutoffs(17, 260) for x in ((n, 3), (3, n))]
    c.pmap(long, [x + (0,) for x in big] + [(9, 14, 2)])
    c.extra_cov["shapes with given abscissae"] = big
