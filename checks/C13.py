from vp import *
import itertools, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from series_common import *
import importlib.util
_s = importlib.util.spec_from_file_location("c12h", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C12.py"))
_h = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_h)
UF, WH, coeffs, series = _h.UF, _h.WH, _h.coeffs, _h.series


def check(c):
    c.rule = ("abstract interpretation of the Chebyshev to power-series conversion for an uninterpreted function: each power-series coefficient must be the coefficient of that monomial in the Chebyshev sum, "
              "for every order up to the supported maximum; above it the conversion must end with a failure status")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding (coefficients compared relative to the size of the exact conversion)"]
    m = c.unit("series.cpp")
    KD = {1: (KINDS1, KN1), 2: (KINDS2, KN2), 3: (KINDS3, KN3)}
    KDX = KD

    def monos(a, orders):
        """coefficient of each monomial of the Chebyshev sum"""
        out = {}
        C = [[cheb(i) for i in range(n + 1)] for n in orders]
        for i, v in a.items():
            for e in itertools.product(*[range(k + 1) for k in i]):
                k = 1
                for q in range(len(orders)):
                    k *= C[q][i[q]][e[q]]
                if k:
                    out[e] = out.get(e, fconst(0)) + k * v
        return out

    def coef(c, it):
        dim, orders = it
        ax = axes(KDX[dim][0][0])
        W = WH[dim] + " Compute_b"
        t = "conversion %dd[orders %s]" % (dim, " ".join(map(str, orders)))
        _, a = coeffs(ax, orders)
        n = 1
        for o in orders:
            n *= o + 1
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * n)
        r = c.run(t, I, "vp_b%d" % dim, [I.alloc_array(I.st0, dom(ax))] + list(orders) + [o])
        if not r:
            return
        c.require(t + " shape", r.ret == (n if dim == 1 else 0), W, "the converted coefficients do not have the shape of the series")
        want = monos(a, orders)
        order = itertools.product(*[range(k + 1) for k in orders])
        if dim == 3:
            order = ((i, j, k) for k in range(orders[2] + 1) for i in range(orders[0] + 1) for j in range(orders[1] + 1))
        for q, e in enumerate(order):
            c.eq("%s coefficient %s" % (t, e), r.rd(o, q), want.get(e, fconst(0)), m, W)

    def evalps(c, it):
        dim, kind, orders = it
        ax = axes(KDX[dim][0][kind])
        t = "power series from chebyshev %dd[%s,orders %s]" % (dim, KDX[dim][1][kind], " ".join(map(str, orders)))
        _, a = coeffs(ax, orders)
        I = c.interp(m, uninterpreted=UF)
        r = c.run(t, I, "vp_bps%d" % dim, [I.alloc_array(I.st0, dom(ax)), kind] + list(orders) + [x.x for x in ax])
        if r:
            c.eq(t, r.ret, series(a, ax, orders, 0), m, WH[dim])

    def refused(c, it):
        dim, orders = it
        ax = axes(KDX[dim][0][0])
        t = "order above maximum refused %dd[%s]" % (dim, " ".join(map(str, orders)))
        n = 1
        for o in orders:
            n *= o + 1
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * n)
        c.refuse(t, I, "vp_b%d" % dim, [I.alloc_array(I.st0, dom(ax))] + list(orders) + [o], WH[dim] + " Compute_b")

    work = []
    work += [(coef, (1, (n,))) for n in range(0, 19)]
    for n in range(0, 19):
        work += [(coef, (2, (n, 1))), (coef, (2, (1, n))), (coef, (3, (n, 0, 1))), (coef, (3, (1, n, 0))), (coef, (3, (0, 1, n)))]
    work += [(coef, (2, o)) for o in itertools.product(range(5), range(5))]
    work += [(coef, (3, o)) for o in itertools.product(range(3), range(3), range(3))] + [(coef, (3, (2, 3, 4)))] * c.thorough
    if c.thorough:
        work += [(coef, (2, o)) for o in ((6, 6), (10, 4), (4, 10), (8, 7))]
    work += [(evalps, (1, k, (n,))) for k in KINDS1 for n in range(0, 7)]
    work += [(evalps, (2, k, o)) for k in KINDS2 for o in ((0, 0), (1, 1), (2, 1), (1, 2), (3, 2), (2, 4))]
    work += [(evalps, (3, k, o)) for k in KINDS3 for o in ((0, 0, 0), (1, 1, 1), (2, 1, 0), (0, 2, 1), (1, 0, 2))]
    work += [(refused, (1, (n,))) for n in (19, 20, 25)]
    work += [(refused, (2, o)) for o in ((19, 0), (0, 19), (19, 2), (25, 1))]
    work += [(refused, (3, o)) for o in ((19, 0, 0), (0, 19, 0), (0, 0, 19), (0, 22, 1))]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
