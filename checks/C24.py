import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state_common import *


def check(c):
    c.rule = ("relational abstract interpretation of histories: an object is filled with one symbolic data set, evaluated or not, filled, computed or configured again, evaluated again; every output on a symbolic query must have the normal form of the same "
              "output of a fresh object given the final data; output vectors that already hold something must end up as fresh ones do")
    c.level = "proof"
    c.floor = 350
    c.assumptions = ["data sets of the listed sizes, histories of up to the listed number of steps", "a lookup table whose abscissae are replaced after a series was added keeps that series on its own abscissae (not claimed either way)"]
    m = c.unit("state.cpp")
    jobs = []
    A = lambda name, where, fn, mk, n: jobs.append((name, where, fn, mk, n))
    dd = lambda al: al([0, al([fconst(v) for v in D1]), al([fconst(v) for v in D2])])
    for h, hn in RE.items():
        h += 20
        for meth in range(3):
            for n in ((2, 3), (3, 2), (4, 4)):
                if 1 in n and meth < 2:
                    continue
                A("Interp1d %s n=%d,%d: %s" % (MN[meth], n[0], n[1], hn), "Interp1d.h", "vp_k_i1", lambda I, al, h=h, meth=meth, n=n: [h, meth, al([0, al(knots("x", n[0])), al(knots("u", n[1]))]), al([0, al(syms("y", n[0])), al(syms("w", n[1]))]), al([0, n[0], n[1]], 4), sym("q")], 5)
            # same abscissae, other ordinates; same ordinates, other abscissae
            A("Interp1d %s, other ordinates: %s" % (MN[meth], hn), "Interp1d.h", "vp_k_i1", lambda I, al, h=h, meth=meth: [h, meth, al([0] + [al(knots("x", 3))] * 2), al([0, al(syms("y", 3)), al(syms("w", 3))]), al([0, 3, 3], 4), sym("q")], 5)
            A("Interp1d %s, other abscissae: %s" % (MN[meth], hn), "Interp1d.h", "vp_k_i1", lambda I, al, h=h, meth=meth: [h, meth, al([0, al(knots("x", 3)), al(knots("u", 3))]), al([0] + [al(syms("y", 3))] * 2), al([0, 3, 3], 4), sym("q")], 5)
        for a, b in (((2, 2), (3, 2)), ((3, 2), (2, 2)), ((2, 3), (2, 3)), ((2, 3), (3, 2))):
            A("Interp2d %dx%d,%dx%d: %s" % (a + b + (hn,)), "Interp2d.h", "vp_k_i2", lambda I, al, h=h, a=a, b=b: [h, al([0, al(knots("x", a[0])), al(knots("u", b[0]))]), al([0, al(knots("y", a[1])), al(knots("v", b[1]))]), al([0, al(syms("z", a[0] * a[1])), al(syms("w", b[0] * b[1]))]), al([0, a[0], b[0]], 4), al([0, a[1], b[1]], 4), al(syms("q", 2))], 6)
        for d, s in ((1, (3,)), (2, (2, 2)), (2, (3, 2)), (3, (2, 2, 2))):
            def mk(I, al, h=h, d=d, s=s):
                tot = eval("*".join(map(str, s)))
                ax, nn = al(sum([knots("xyz"[i], k) for i, k in enumerate(s)], [])), al(list(s), 4)
                return [h, al([0, ax, ax]), al([0, nn, nn]), al([0, al(syms("z", tot)), al(syms("w", tot))]), al(syms("q", d))]
            A("RegularGridInterpolator %s: %s" % ("x".join(map(str, s)), hn), "RegularGridInterpolator.h", "vp_k_g%d" % d, mk, 4)
            if d < 3:
                A("RegularGridNearest %s: %s" % ("x".join(map(str, s)), hn), "RegularGridNearest.h", "vp_k_n%d" % d, mk, 4)
        for t, fn, n in (("Vector2d", "v2", 2), ("Vector3d", "v3", 3), ("Vector6d", "v6", 6), ("Matrix33", "m33", 9), ("Matrix66", "m66", 36), ("MatrixMN", "mn", 6)):
            A("%s: %s" % (t, hn), ("Matrix.h" if t == "MatrixMN" else t + ".h"), "vp_k_" + fn, lambda I, al, h=h, n=n: [h, al([0, al(syms("a", n)), al(syms("b", n))])], n)
        for d in (1, 2, 3):
            for kind in range(2 if d == 1 else 3):
                n = (3, 2) if d < 3 else (2, 1)
                A("PowerSeries%dd kind %d: %s" % (d, kind, hn), "PowerSeries%dd.h" % d, "vp_k_ps%d" % d, lambda I, al, h=h, kind=kind, n=n, d=d: [h, kind, al([0, al(syms("b", n[0] ** d)), al(syms("c", n[1] ** d))]), al([0, n[0], n[1]], 4), dd(al), al(syms("q", 3))], (2, 3, 6)[d - 1])
        for src in (0, 1):
            for st in range(5):
                A("Integrate1d source %d: %s (%s)" % (src, hn, ("method", "lower limit", "upper limit", "upper, lower limit", "lower, upper limit")[st]), "Integration1d.h", "vp_k_int",
                  lambda I, al, h=h, src=src, st=st: [h, src, st, al([0, al(syms("y", 3)), al(syms("w", 3))]), al([0, 3, 3], 4), al([0, al(syms("a", 2)), al([sym("b0") if st in (1, 3, 4) else sym("a0"), sym("b1") if st > 1 else sym("a1")])])], 3)
    for d in (1, 2, 3):
        for kind in range(2 if d == 1 else 3):
            nout = ((4, 2), (5, 3, 3), (5, 4, 4))[d - 1][kind]
            for n in (((2, 1), (0, 2), (3, 3)) if d < 3 else ((1, 1), (0, 1))):
                for h, hn in [(20, "replaced"), (21, "replaced, computed again")] + [(30 + k, "coefficients computed %d times" % (k + 2)) for k in range(3 if d < 3 else 2)]:
                    A("ChebyshevSeries%dd kind %d order %d: %s" % (d, kind, n[0], hn), "ChebyshevSeries%dd.h" % d, "vp_k_cs%d" % d, lambda I, al, h=h, kind=kind, n=n: [h, kind, al([0, n[0], n[1]], 4), dd(al), al(syms("q", 3))], nout)
    for order in range(1, 9):
        A("Integration2dTriangle order %d: two triangles in turn" % order, "Integration2dTriangle.h", "vp_k_tri2", lambda I, al, order=order: [order, al([0, al(syms("t", 9)), al(syms("u", 9))])], 3)
    for meth in range(3):
        for h in (0, 1, 3, 4, 8, 12, 15, 16, 20, 31):
            for n, n2 in ((2, 3), (3, 2)):
                A("LookupTable1D %s n=%d after n=%d, history %d" % (MN[meth], n, n2, h), "LookupTable1D.h", "vp_k_l1r", lambda I, al, h=h, meth=meth, n=n, n2=n2: [h, meth, al(knots("x", n)), n, al(knots("u", n2)), n2, al(syms("y", n)), al(syms("w", max(n, n2))), sym("q")], 4)
    for h in (0, 1, 3, 4, 8, 12, 15, 16, 20, 31, 32, 35, 63):
        for a, b in (((2, 2), (2, 3)), ((3, 2), (2, 2))):
            A("LookupTable2d %dx%d after %dx%d, history %d" % (a + b + (h,)), "LookupTable2D.h", "vp_k_l2r", lambda I, al, h=h, a=a, b=b: [h, al(knots("x", a[0])), a[0], al(knots("y", a[1])), a[1], al(knots("u", b[0])), b[0], al(knots("v", b[1])), b[1], al(syms("z", a[0] * a[1])), al(syms("w", max(a[0] * a[1], b[0] * b[1]))), al(syms("q", 2))], 2)

    def fft(c, it):
        name, how, n, k, ops, fin = it
        I = c.interp(m, uninterpreted=UF)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        cap = n + 2
        o, sz = al([fconst(0)] * (8 * cap)), al([0] * 6, 4)
        r = c.run(name, I, "vp_k_fft", [how, al(syms("x", n)), n, al(syms("y", k)), k, al(list(ops) or [0], 4), len(ops), al(list(fin) or [0], 4), len(fin), sym("fs", "pos"), o, cap, sz])
        if not r:
            return
        s = [r.rd(sz, i, "i32", 4) for i in range(6)]
        if c.require(name + " lengths", s[:3] == s[3:], "FFT.h", "lengths %s instead of %s" % (s[:3], s[3:])):
            for i in range(4 * cap):
                c.eq("%s, output %d" % (name, i), r.rd(o, i), r.rd(o, 4 * cap + i), m, "FFT.h")

    def outs(c, it):
        n, k = it
        name = "output vectors, %d values into %d" % (n, k)
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, sz = al([fconst(0)] * (10 * n + 1)), al([0] * 10, 4)
        r = c.run(name, I, "vp_k_out", [al(syms("x", n)), n, k, o, sz])
        if r:
            for i in range(5):
                a, b = r.rd(sz, 2 * i, "i32", 4), r.rd(sz, 2 * i + 1, "i32", 4)
                if c.require("%s, call %d, lengths" % (name, i), a == b, ("Unit.h", "Unit.h", "Unit.h", "StdVector.h", "StdVector.h")[i], "%s values instead of %s" % (a, b)):
                    for j in range(n):
                        c.eq("%s, call %d, value %d" % (name, i, j), r.rd(o, 2 * n * i + j), r.rd(o, 2 * n * i + n + j), m, ("Unit.h", "Unit.h", "Unit.h", "StdVector.h", "StdVector.h")[i])

    def job(c, it):
        if it[0] == "fft":
            fft(c, it[1:])
        elif it[0] == "out":
            outs(c, it[1:])
        else:
            halves(c, *it, m)
    # switches: every final setting after every earlier one
    for n, k in ((4, 2), (4, 6), (2, 4), (3, 4)):
        for ops in ((), (1,), (4,), (1, 4)):
            for fin in ((2, 3), (1, 3), (2, 4), (1, 4)):
                if fin[0] == 1 and n % 2:
                    continue
                jobs.append(("fft", "FFT n=%d after n=%d, switches %s then %s" % (n, k, list(ops), list(fin)), 1, n, k, ops, fin))
    for n in (0, 1, 2, 3):
        for k in (0, 1, 2, 5):
            jobs.append(("out", n, k))
    c.pmap(job, jobs)
