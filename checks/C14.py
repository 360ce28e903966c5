from vp import *
import itertools
from math import factorial

UF = [(r"^vp_user3", "f"), (r"^vp_userk", "g")]
TOLQ = 1e-12


def check(c):
    c.rule = ("abstract interpretation of the quadrature for an uninterpreted integrand: on the reference triangle the rule's points and weights are read off the value graph and their moments compared with the exact ones; "
              "on a triangle with symbolic vertices the value must be the area times the weighted sum at the same barycentric points, which extends exactness to every triangle")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["tabulated constants have 14 digits: moments are compared within 1e-12", "real arithmetic up to rounding"]
    m = c.unit("integ.cpp")
    W = "Integration2dTriangle.h "
    ref = [fconst(v) for v in (0, 0, 0, 1, 0, 0, 0, 1, 0)]

    def offered(n):
        I = c.interp(m, uninterpreted=UF)
        r = c.refuse("order %d %s" % (n, "accepted" if 1 <= n <= 8 else "refused"), I, "vp_tri", [n & 0xffffffff, I.alloc_array(I.st0, ref)], W + "Integration2dTriangle",
                     cond=FALSE if 1 <= n <= 8 else TRUE)

    for n in list(range(-3, 14)) + [100, 2147483647, -2147483648]:
        offered(n)

    def rule(c, n):
        I = c.interp(m, uninterpreted=UF)
        r = c.run("rule[order %d]" % n, I, "vp_tri", [n, I.alloc_array(I.st0, ref)])
        if not r:
            return
        nf = T.norm(r.ret)
        where = c.node_loc(m, r.ret, W)
        pts = []
        if not isinstance(nf, T.Leaf) or nf.r[1] != ():
            c.bad("rule[order %d]" % n, where, "the result is not a weighted sum of integrand values: %s" % T.fstr(r.ret))
            return
        for mono, k in nf.r[0].items():
            a = T.Atom.all[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else None
            if a is None or a.fn != "f":
                c.bad("rule[order %d]" % n, where, "the result is not a weighted sum of integrand values: %s" % T.fstr(r.ret))
                return
            p = [T.as_const(x) for x in a.args]
            if any(x is None for x in p) or abs(float(p[2])) > TOLQ:
                c.bad("rule[order %d]" % n, where, "the integrand is evaluated outside the plane of the triangle")
                return
            pts.append((float(p[0]), float(p[1]), 2 * float(k)))     # area of the reference triangle: 1/2
        c.ok("rule[order %d]" % n)
        c.extra_cov.setdefault("points", []).append("order %d: %d points" % (n, len(pts)))
        for a in range(0, n + 1):
            for b in range(0, n + 1 - a):
                got = sum(w * x ** a * y ** b for x, y, w in pts)
                want = 2. * factorial(a) * factorial(b) / factorial(a + b + 2)
                c.require("moment[order %d] x^%d y^%d" % (n, a, b), abs(got - want) <= TOLQ, W + "Integration2dTriangle (table of order %d)" % n,
                          "the rule of order %d gives %.16g instead of %.16g for the mean of x^%d y^%d over the reference triangle" % (n, got, want, a, b))
        # any triangle: symbolic vertices
        v = [syms("p%d_" % i, 3) for i in range(3)]
        flat = sum(v, [])
        e1 = [v[0][i] - v[2][i] for i in range(3)]
        e2 = [v[1][i] - v[2][i] for i in range(3)]
        cr = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
        area = sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) * 0.5

        def want(f, v=v, area=area):
            s = fconst(0)
            for x, y, w in pts:
                p = [(1 - x - y) * v[0][i] + x * v[1][i] + y * v[2][i] for i in range(3)]
                s = s + f(p) * w
            return s * area

        f = lambda p: fn("f", *p)
        I = c.interp(m, uninterpreted=UF)
        r = c.run("any triangle[order %d]" % n, I, "vp_tri", [n, I.alloc_array(I.st0, flat)])
        if r:
            c.eq("any triangle[order %d]" % n, r.ret, want(f), m, W + "Compute")
        g = lambda k: (lambda p: f_call("g", [fconst(k)] + p))
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * 3)
        r = c.run("Vector3d integrand[order %d]" % n, I, "vp_triv", [n, I.alloc_array(I.st0, flat), o])
        if r:
            for k in range(3):
                c.eq("Vector3d integrand[order %d] %d" % (n, k), r.rd(o, k), want(g(k)), m, W + "Compute")
        for q in (1, 2, 5):
            I = c.interp(m, uninterpreted=UF)
            o = I.alloc_array(I.st0, [fconst(0)] * q)
            r = c.run("VectorN integrand[order %d,size %d]" % (n, q), I, "vp_trin", [n, I.alloc_array(I.st0, flat), q, o])
            if r:
                c.require("VectorN integrand[order %d,size %d] size" % (n, q), r.ret == q, W + "Compute", "the result has another size than the integrand")
                for k in range(q):
                    c.eq("VectorN integrand[order %d,size %d] %d" % (n, q, k), r.rd(o, k), want(g(k)), m, W + "Compute")
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * 2)
        r = c.run("complex integrand[order %d]" % n, I, "vp_tric", [n, I.alloc_array(I.st0, flat), o])
        if r:
            for k in range(2):
                c.eq("complex integrand[order %d] %d" % (n, k), r.rd(o, k), want(g(k)), m, W + "Compute")
        # one rule object used for several triangles
        w_ = [[t * 1 for t in p] for p in ([[sym("q%d" % (3 * i + j)) for j in range(3)] for i in range(3)])]
        wf = sum(w_, [])
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * 3)
        r = c.run("successive triangles[order %d]" % n, I, "vp_tri2", [n, I.alloc_array(I.st0, flat), I.alloc_array(I.st0, wf), o])
        if r:
            e1 = [w_[0][i] - w_[2][i] for i in range(3)]
            e2 = [w_[1][i] - w_[2][i] for i in range(3)]
            cr = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
            a2 = sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) * 0.5
            for k, (vv, aa) in enumerate(((v, area), (w_, a2), (v, area))):
                c.eq("successive triangles[order %d] %d" % (n, k), r.rd(o, k), want(f, vv, aa), m, W + "Compute")

    c.pmap(rule, range(1, 9))
