from vp import *
import itertools, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from series_common import *


def check(c):
    c.rule = ("abstract interpretation of the polynomial and power-series evaluations with symbolic coefficients, domains and point; every result's normal form is compared with the defining "
              "sum of coefficient times powers of the unit coordinate, and derivatives with its exact derivative by the chain rule")
    c.level = "proof"
    c.floor = 400
    c.assumptions = ["real arithmetic up to rounding", "domain of positive length; half-open domains start at a positive abscissa"]
    m = c.unit("series.cpp")

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    def horner(n):
        a, x = syms("a", n), sym("x")
        for e, nm in (("vp_horner", "Horner"), ("vp_hornerd", "Horner_derivative")):
            I = c.interp(m)
            k = out(I, n)
            r = c.run("%s[n=%d]" % (nm, n), I, e, [I.alloc_array(I.st0, a), n, x, k])
            if r:
                co = a if nm == "Horner" else [i * a[i] for i in range(1, n)] or [fconst(0)]
                c.eq("%s[n=%d]" % (nm, n), r.ret, poly(co, x), m, "Polynomial.h " + nm)
                for i in range(n):
                    c.eq("%s[n=%d] coefficients kept" % (nm, n), r.rd(k, i), a[i], m, "Polynomial.h " + nm)
        y = sym("y")
        I = c.interp(m)
        o = out(I, 2)
        r = c.run("Horner complex[n=%d]" % n, I, "vp_hornerc", [I.alloc_array(I.st0, a), n, x, y, o])
        if r:
            re, im = fconst(0), fconst(0)
            for k in reversed(a):
                re, im = re * x - im * y + k, re * y + im * x
            c.eq("Horner complex[n=%d] re" % n, r.rd(o, 0), re, m, "Polynomial.h Horner")
            c.eq("Horner complex[n=%d] im" % n, r.rd(o, 1), im, m, "Polynomial.h Horner")

    c.grow(horner, [1, 2, 3, 6, 20], 1, 60)

    def ps1(n):
        for kind in KINDS1:
            (X,) = axes(KINDS1[kind])
            b = syms("b", n)
            for w in (0, 1):
                I = c.interp(m)
                t = "power series 1d[%s,order %d,%s]" % (KN1[kind], n - 1, ["value", "d/dx"][w])
                r = c.run(t, I, "vp_ps1", [I.alloc_array(I.st0, b), n, I.alloc_array(I.st0, dom([X])), kind, X.x, w])
                if r:
                    want = poly(b, X.u) if w == 0 else X.dcoef * poly([i * b[i] for i in range(1, n)] or [fconst(0)], X.u)
                    c.eq(t, r.ret, want, m, "PowerSeries1d.h")

    c.grow(ps1, [1, 2, 3, 5], 1, 30)

    def ps2(c, it):
        kind, n, k = it
        ax = axes(KINDS2[kind])
        X, Y = ax
        b = [[sym("b%d_%d" % (i, j)) for j in range(k)] for i in range(n)]
        for w in range(3):
            I = c.interp(m)
            t = "power series 2d[%s,orders %d %d,%s]" % (KN2[kind], n - 1, k - 1, ["value", "d/dx", "d/dy"][w])
            r = c.run(t, I, "vp_ps2", [I.alloc_array(I.st0, sum(b, [])), n, k, I.alloc_array(I.st0, dom(ax)), kind, X.x, Y.x, w])
            if r:
                c.eq(t, r.ret, sum2(b, X, Y, w), m, "PowerSeries2d.h")

    base2 = [(n, k) for n in range(1, 5) for k in range(1, 5)] + [(1, 7), (7, 1), (2, 6), (6, 2)]
    c.pmap(ps2, [(kd, n, k) for kd in KINDS2 for n, k in base2])
    c.pmap(ps2, [(kd, n, k) for kd in KINDS2 for n, k in [(q, 2) for q in c.cutoffs(5, 24)] + [(2, q) for q in c.cutoffs(5, 24)]])

    def ps3(c, it):
        kind, n, k, l = it
        ax = axes(KINDS3[kind])
        X, Y, Z = ax
        b = [[[sym("b%d_%d_%d" % (i, j, q)) for j in range(k)] for i in range(n)] for q in range(l)]
        flat = [v for q in b for row in q for v in row]
        nm = ["f", "fx", "fy", "fz"]
        for w in (0, 1):
            I = c.interp(m)
            o, acc = out(I, 13), out(I, 9)
            t = "power series 3d[%s,orders %d %d %d%s]" % (KN3[kind], n - 1, k - 1, l - 1, ",infinity" if w else "")
            r = c.run(t, I, "vp_ps3", [I.alloc_array(I.st0, flat), n, k, l, I.alloc_array(I.st0, dom(ax)), kind, X.x, Y.x, Z.x, w, o, acc])
            if not r:
                continue
            uz = Z.u if w == 0 else fconst(1)
            S = [sum2(b[q], X, Y, 0) for q in range(l)], [sum2(b[q], X, Y, 1) for q in range(l)], [sum2(b[q], X, Y, 2) for q in range(l)]
            f, fx, fy = (poly(s, uz) for s in S)
            if w == 0:
                fz = Z.dcoef * poly([i * S[0][i] for i in range(1, l)] or [fconst(0)], uz)
                want = [f, fx, fy, fz, f, fx, fy, f, fx, fy, f, fx, fy]
                lab = ["Evaluate", "Evaluate_derivative_x", "Evaluate_derivative_y", "Evaluate_derivative_z"] + ["Evaluate_f_dfdx_dfdy"] * 3 + \
                      ["Evaluate_z_predefined", "Evaluate_derivative_x_z_predefined", "Evaluate_derivative_y_z_predefined"] + ["Evaluate_f_dfdx_dfdy_z_predefined"] * 3
            else:
                want = [f, fx, fy] * 3
                lab = ["Evaluate_zinf", "Evaluate_derivative_x_zinf", "Evaluate_derivative_y_zinf"] + ["Compute_cij_zinf"] * 6
            for i, v in enumerate(want):
                c.eq("%s %s(%d)" % (t, lab[i], i), r.rd(o, i), v, m, "PowerSeries3d.h " + lab[i])
            if w == 0:
                ea = [X.lo, Y.lo, Z.lo, fconst(n - 1), fconst(k - 1), fconst(l - 1)] + [a.hi for a in ax if a.closed]
                for i, v in enumerate(ea):
                    c.eq("%s accessor %d" % (t, i), r.rd(acc, i), v, m, "PowerSeries3d.h")

    base3 = list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))) + [(1, 1, 5), (1, 5, 2), (5, 2, 1), (2, 4, 3), (4, 3, 2)]
    c.pmap(ps3, [(kd,) + t for kd in KINDS3 for t in base3])
    more = [t for q in c.cutoffs(4, 22) for t in ((q, 1, 2), (2, q, 1), (1, 2, q)) if t not in base3]
    c.pmap(ps3, [(kd,) + t for kd in KINDS3 for t in more])


def sum2(b, X, Y, w):
    rows = [poly(r if w != 2 else [i * r[i] for i in range(1, len(r))] or [fconst(0)], Y.u) for r in b]
    if w == 1:
        return X.dcoef * poly([i * rows[i] for i in range(1, len(rows))] or [fconst(0)], X.u)
    if w == 2:
        return Y.dcoef * poly(rows, X.u)
    return poly(rows, X.u)
