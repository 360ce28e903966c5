from vp import *
import itertools, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from series_common import *

WH = {1: "ChebyshevSeries1d.h", 2: "ChebyshevSeries2d.h", 3: "ChebyshevSeries3d.h"}
UF = [(r"^vp_user1", "f"), (r"^vp_user2", "f"), (r"^vp_user3", "f")]


def user(pts):
    return f_call("f", [_p for _p in pts])


def coeffs(ax, orders):
    """a_{i..}: discrete Chebyshev transform of the function at the nodes"""
    nd = [nodes(n) for n in orders]
    vals = {r: user([a.at(nd[q][r[q]]) for q, a in enumerate(ax)]) for r in itertools.product(*[range(n + 1) for n in orders])}
    out = {}
    for i in itertools.product(*[range(n + 1) for n in orders]):
        s = fconst(0)
        for r, v in vals.items():
            k = 1.
            for q, n in enumerate(orders):
                k *= tval(i[q], r[q], n) * 2. / (n + 1.) * (0.5 if i[q] == 0 else 1.)
            s = s + v * k
        out[i] = s
    return vals, out


def series(a, ax, orders, w):
    s = fconst(0)
    for i, v in a.items():
        t = v
        for q, x in enumerate(ax):
            co = cheb(i[q])
            t = t * poly(dpoly(co) if w == q + 1 else co, x.u)
        s = s + t
    if w:
        s = s * ax[w - 1].dcoef
    return s


def check(c):
    c.rule = ("abstract interpretation of the coefficient computation and of the evaluations for an uninterpreted function: at every Chebyshev node the value must be the function's value there, at a symbolic "
              "point it must be the Chebyshev sum of the discrete Chebyshev transform, and the derivatives the exact derivatives of that sum in physical coordinates")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding", "evaluation points inside the domain; domain of positive length; half-open domains start at a positive abscissa", "orders within the listed bounds"]
    m = c.unit("series.cpp")
    KD = {1: (KINDS1, KN1), 2: (KINDS2, KN2), 3: (KINDS3, KN3)}

    def one(c, it):
        dim, kind, orders, mode = it
        ax = axes(KD[dim][0][kind])
        W = WH[dim]
        t = "chebyshev %dd[%s,orders %s" % (dim, KD[dim][1][kind], " ".join(map(str, orders)))
        vals, a = coeffs(ax, orders)
        if mode == "nodes":
            I = c.interp(m, uninterpreted=UF)
            n = 1
            for o in orders:
                n *= o + 1
            o = I.alloc_array(I.st0, [fconst(0)] * n)
            pts = [I.alloc_array(I.st0, [x.at(v) for v in nodes(k)]) for x, k in zip(ax, orders)]
            if dim == 1:
                args = [I.alloc_array(I.st0, dom(ax)), kind, orders[0], pts[0], orders[0] + 1, o]
            else:
                args = [I.alloc_array(I.st0, dom(ax)), kind] + list(orders) + pts + [o]
            r = c.run(t + "] nodes", I, "vp_cs%d_at" % dim, args)
            if r:
                for q, i in enumerate(itertools.product(*[range(k + 1) for k in orders])):
                    c.eq("%s] node %s" % (t, i), r.rd(o, q), vals[i], m, W + " Evaluate")
            return
        pc = TRUE
        for x in ax:
            pc = T.band(pc, T.band(le(x.u, 1), ge(x.u, -1) if x.closed else ge(x.u, -1)))
        for w in range(dim + 1):
            nm = ["value", "d/dx", "d/dy", "d/dz"][w]
            I = c.interp(m, uninterpreted=UF)
            r = c.run("%s] %s" % (t, nm), I, "vp_cs%d" % dim, [I.alloc_array(I.st0, dom(ax)), kind] + list(orders) + [x.x for x in ax] + [w, 1], pc=pc)
            if r:
                c.eq("%s] %s" % (t, nm), r.ret, series(a, ax, orders, w), m, W, pc=r.pc)

    items = []
    o1 = list(range(0, 9)) + ([12, 18, 25] if c.thorough else [12])
    o2 = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 3), (4, 1), (1, 5)] + ([(5, 5), (6, 3), (3, 6)] if c.thorough else [])
    o3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 0), (0, 2, 3)] + ([(2, 2, 2), (3, 2, 1), (1, 3, 2), (2, 1, 3)] if c.thorough else [(1, 2, 3)])
    for mode in ("nodes", "sum"):
        items += [(1, kd, (n,), mode) for kd in KINDS1 for n in o1]
        items += [(2, kd, o, mode) for kd in KINDS2 for o in o2]
        items += [(3, kd, o, mode) for kd in KINDS3 for o in o3]
    c.pmap(one, items)
    items = []
    for mode in ("nodes", "sum"):
        items += [(1, kd, (n,), mode) for kd in KINDS1 for n in c.cutoffs(1, 30) if n not in o1]
        items += [(2, kd, o, mode) for kd in KINDS2 for n in c.cutoffs(1, 26) for o in ((n, 1), (1, n)) if o not in o2]
        items += [(3, kd, o, mode) for kd in KINDS3 for n in c.cutoffs(1, 22) for o in ((n, 0, 1), (1, n, 0), (0, 1, n)) if o not in o3]
    c.pmap(one, items)
