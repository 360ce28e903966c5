import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state_common import *


def check(c):
    c.rule = ("relational abstract interpretation: a copy, assignment or move is made of an object holding symbolic data, its source (or itself) is then changed, destroyed or reassigned, and every output on a symbolic query must have the normal form of the "
              "same output of a fresh object with the same data; each read of released or foreign memory is reported where it happens")
    c.level = "proof"
    c.floor = 500
    c.assumptions = ["data sets of the listed sizes", "user functions passed by pointer stay alive and are not copied (documented by the raw pointer)", "LookupTable1D is move-only, LookupTable2d and the quadratures cannot be copied: what is not copyable by type is not claimed"]
    m = c.unit("state.cpp")
    jobs = []
    A = lambda name, where, fn, mk, n: jobs.append((name, where, fn, mk, n))
    for h, hn in HOW.items():
        for meth in range(3):
            for n in ((2, 3), (3, 2), (4, 4)):
                if n[0] == 1 and meth < 2:
                    continue
                A("Interp1d %s n=%d,%d: %s" % (MN[meth], n[0], n[1], hn), "Interp1d.h", "vp_k_i1", lambda I, al, h=h, meth=meth, n=n: [h, meth, al([0, al(knots("x", n[0])), al(knots("u", n[1]))]), al([0, al(syms("y", n[0])), al(syms("w", n[1]))]), al([0, n[0], n[1]], 4), sym("q")], 5)
        for a, b in (((2, 2), (3, 2)), ((2, 3), (2, 3))):
            A("Interp2d %dx%d: %s" % (a + (hn,)), "Interp2d.h", "vp_k_i2", lambda I, al, h=h, a=a, b=b: [h, al([0, al(knots("x", a[0])), al(knots("u", b[0]))]), al([0, al(knots("y", a[1])), al(knots("v", b[1]))]), al([0, al(syms("z", a[0] * a[1])), al(syms("w", b[0] * b[1]))]), al([0, a[0], b[0]], 4), al([0, a[1], b[1]], 4), al(syms("q", 2))], 6)
        for d, s1, s2 in ((1, (3,), (2,)), (2, (2, 2), (2, 3)), (2, (3, 2), (3, 2)), (3, (2, 2, 2), (2, 2, 2))):
            def mk(I, al, h=h, d=d, s1=s1, s2=s2):
                ax = [al(sum([knots(p + "xyz"[i], s) for i, s in enumerate(sh)], [])) for p, sh in (("", s1), ("b", s2))]
                z = [al(syms(p, eval("*".join(map(str, sh))))) for p, sh in (("z", s1), ("w", s2))]
                return [h, al([0] + ax), al([0, al(list(s1), 4), al(list(s2), 4)]), al([0] + z), al(syms("q", d))]
            A("RegularGridInterpolator %s: %s" % ("x".join(map(str, s1)), hn), "RegularGridInterpolator.h", "vp_k_g%d" % d, mk, 4)
            if d < 3:
                A("RegularGridNearest %s: %s" % ("x".join(map(str, s1)), hn), "RegularGridNearest.h", "vp_k_n%d" % d, mk, 4)
        for t, fn, n in (("Vector2d", "v2", 2), ("Vector3d", "v3", 3), ("Vector6d", "v6", 6), ("Matrix33", "m33", 9), ("Matrix66", "m66", 36), ("MatrixMN", "mn", 6)):
            A("%s: %s" % (t, hn), ("Matrix.h" if t == "MatrixMN" else t + ".h"), "vp_k_" + fn, lambda I, al, h=h, n=n: [h, al([0, al(syms("a", n)), al(syms("b", n))])], n)
        A("VectorN: %s" % hn, "VectorN.h", "vp_k_vn", lambda I, al, h=h: [h, al([0, al(syms("a", 4)), al(syms("b", 4))]), 4], 4)
        A("GridNode: %s" % hn, "RegularGridNearest.h", "vp_k_node", lambda I, al, h=h: [h, al([0, al(syms("a", 3)), al(syms("b", 3))])], 5)
        dd = lambda al: al([0, al([fconst(v) for v in D1]), al([fconst(v) for v in D2])])
        for d in (1, 2, 3):
            for kind in range(2 if d == 1 else 3):
                for n in (((2, 3), (3, 2), (1, 1)) if d < 3 else ((2, 1), (1, 2))):
                    A("PowerSeries%dd kind %d order %d: %s" % (d, kind, n[0] - 1, hn), "PowerSeries%dd.h" % d, "vp_k_ps%d" % d, lambda I, al, h=h, kind=kind, n=n, d=d, dd=dd: [h, kind, al([0, al(syms("b", n[0] ** d)), al(syms("c", n[1] ** d))]), al([0, n[0], n[1]], 4), dd(al), al(syms("q", 3))], (2, 3, 6)[d - 1])
                for n in (((2, 1), (1, 2), (0, 1)) if d < 3 else ((1, 1), (0, 1))):
                    A("ChebyshevSeries%dd kind %d order %d: %s" % (d, kind, n[0], hn), "ChebyshevSeries%dd.h" % d, "vp_k_cs%d" % d, lambda I, al, h=h, kind=kind, n=n, d=d, dd=dd: [h, kind, al([0, n[0], n[1]], 4), dd(al), al(syms("q", 3))], ((4, 2), (5, 3, 3), (5, 4, 4))[d - 1][kind])
        for src in (0, 1):
            A("Integrate1d source %d: %s" % (src, hn), "Integration1d.h", "vp_k_int", lambda I, al, h=h, src=src: [h, src, 3, al([0, al(syms("y", 3)), al(syms("w", 4))]), al([0, 3, 4], 4), al([0, al(syms("a", 2)), al(syms("b", 2))])], 3)
        A("Integration2dTriangle: %s" % hn, "Integration2dTriangle.h", "vp_k_tri", lambda I, al, h=h: [h, al([0, 3, 2], 4), al([0, al(syms("t", 9)), al(syms("u", 9))])], 1)
        A("Spline: %s" % hn, "Spline.h", "vp_k_spl", lambda I, al, h=h: [h, al([0, al([fconst(v) for v in (0., 1., 2.5, 4., 5.)]), al([fconst(v) for v in (0., 1., 2., 3.)])]), al([0, al(syms("y", 5)), al(syms("w", 4))]), al([0, 5, 4], 4), fconst(.3)], 1)
    for near in range(4):
        for k in (0, 1, 2):
            A("%s %s with %d axes set" % (("RegularGridInterpolator", "RegularGridNearest")[near & 1], "assigned over a filled one" if near > 1 else "copied", k), ("RegularGridInterpolator.h", "RegularGridNearest.h")[near & 1], "vp_k_gpart", lambda I, al, near=near, k=k: [near, k, al(knots("x", 2) + knots("y", 3)), al([2, 3], 4), al(syms("z", 6)), al(syms("q", 2))], 4)
    for meth in range(3):
        for h, hn in enumerate(("constructed by move", "move-assigned over other data", "move-assigned over another method", "moved twice", "moved to itself", "move-assigned over an empty table")):
            for n, n2 in ((2, 3), (3, 2)):
                A("LookupTable1D %s n=%d: %s" % (MN[meth], n, hn), "LookupTable1D.h", "vp_k_l1", lambda I, al, h=h, meth=meth, n=n, n2=n2: [h, meth, al(knots("x", n)), n, al(knots("u", n2)), n2, al(syms("y", n)), al(syms("w", n)), al(syms("v", max(n, n2))), sym("q")], 10)

    # transforms: an object copied carries its switches
    def fft(c, it):
        name, how, n, k, ops, fin = it
        I = c.interp(m, uninterpreted=UF)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        cap = n + 2
        o, sz = al([fconst(0)] * (8 * cap)), al([0] * 6, 4)
        r = c.run(name, I, "vp_k_fft", [how, al(syms("x", n)), n, al(syms("y", k)), k, al(list(ops) or [0], 4), len(ops), al(list(fin) or [0], 4), len(fin), sym("fs", "pos"), o, cap, sz])
        if not r:
            return
        s = [r.rd(sz, i, "i32", 4) for i in range(6)]
        if c.require(name + " lengths", s[:3] == s[3:], "FFT.h", "lengths %s instead of %s" % (s[:3], s[3:])):
            for i in range(4 * cap):
                a, b = r.rd(o, i), r.rd(o, 4 * cap + i)
                c.eq("%s, output %d" % (name, i), a, b, m, "FFT.h")

    def job(c, it):
        if it[0] == "fft":
            fft(c, it[1:])
        else:
            halves(c, *it, m)
    for how in (2, 3, 4, 5):
        for ops, fin in (((), ()), ((1,), (1,)), ((4,), (4,)), ((1, 4), (1, 4))):
            jobs.append(("fft", "FFT %s%s, switches %s" % ("used, " if how & 1 else "", "assigned" if how & 2 else "copied", list(fin)), how, 4, 2, ops, fin))
    c.pmap(job, jobs)
