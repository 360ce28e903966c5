from vp import *
import math


def check(c):
    c.rule = ("abstract interpretation of every element-wise operation on symbolic sequences: each output element's normal form must be the scalar operation on the matching "
              "elements, operands of const references unchanged, and operands of different lengths refused on every path")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding", "divisors non-zero"]
    m = c.unit("seq.cpp")
    W = "StdVector.h "

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    def vec(n):
        a, b, k = syms("a", n), syms("b", n), sym("k")
        for op, (nm, f) in enumerate([("Add", lambda x, y: x + y), ("Minus", lambda x, y: x - y), ("Mult", lambda x, y: x * y), ("Divide", lambda x, y: x / y)]):
            I = c.interp(m)
            pa, pb, o, ka, kb = I.alloc_array(I.st0, a), I.alloc_array(I.st0, b), out(I, n), out(I, n), out(I, n)
            t = "%s[n=%d]" % (nm, n)
            r = c.run(t, I, "vp_bin", [pa, n, pb, n, op, o, n, ka, kb])
            if r:
                c.require(t + " size", r.ret == n, W + nm, "%r elements" % (r.ret,))
                for i in range(n):
                    c.eq("%s %d" % (t, i), r.rd(o, i), f(a[i], b[i]), m, W + nm)
                    c.eq("%s kept %d" % (t, i), r.rd(ka, i), a[i], m, W + nm)
                    c.eq("%s kept %d" % (t, i), r.rd(kb, i), b[i], m, W + nm)
            for d in (-1, 1, 3):
                n2 = n + d
                if n2 < 0:
                    continue
                I = c.interp(m)
                pa, pb, o, ka, kb = I.alloc_array(I.st0, a), I.alloc_array(I.st0, syms("b", n2)), out(I, n + 3), out(I, n), out(I, n2)
                c.refuse("%s lengths[%d,%d]" % (nm, n, n2), I, "vp_bin", [pa, n, pb, n2, op, o, n + 3, ka, kb], W + nm)
            if op < 3:
                I = c.interp(m)
                ac, bc = syms("ac", 2 * n), syms("bc", 2 * n)
                pa, pb, o = I.alloc_array(I.st0, ac), I.alloc_array(I.st0, bc), out(I, 2 * n)
                t = "%s complex[n=%d]" % (nm, n)
                r = c.run(t, I, "vp_binc", [pa, n, pb, n, op, o, n])
                if r:
                    for i in range(n):
                        x, y, u, v = ac[2 * i], ac[2 * i + 1], bc[2 * i], bc[2 * i + 1]
                        wr, wi = (x * u - y * v, x * v + y * u) if op == 2 else (f(x, u), f(y, v))
                        c.eq("%s re %d" % (t, i), r.rd(o, 2 * i), wr, m, W + nm)
                        c.eq("%s im %d" % (t, i), r.rd(o, 2 * i + 1), wi, m, W + nm)
        I = c.interp(m)
        o, kp = out(I, n), out(I, n)
        t = "AddScalar[n=%d]" % n
        r = c.run(t, I, "vp_addscalar", [I.alloc_array(I.st0, a), n, k, o, kp])
        if r:
            c.require(t + " size", r.ret == n, W + "AddScalar", "%r elements" % (r.ret,))
            for i in range(n):
                c.eq("%s %d" % (t, i), r.rd(o, i), a[i] + k, m, W + "AddScalar")
                c.eq("%s kept %d" % (t, i), r.rd(kp, i), a[i], m, W + "AddScalar")
        I = c.interp(m)
        kp = out(I, n)
        r = c.run("Sum[n=%d]" % n, I, "vp_sum", [I.alloc_array(I.st0, a), n, kp])
        if r:
            c.eq("Sum[n=%d]" % n, r.ret, sum(a, fconst(0)), m, W + "Sum")
            for i in range(n):
                c.eq("Sum[n=%d] kept %d" % (n, i), r.rd(kp, i), a[i], m, W + "Sum")
        p = syms("p", n, "pos")
        for op, nm, f, src in ((0, "Scale", lambda x: x * k, a), (1, "Pow", lambda x: fn("pow", x, k), p), (2, "Negate", lambda x: -x, a)):
            I = c.interp(m)
            o = out(I, n)
            t = "%s[n=%d]" % (nm, n)
            r = c.run(t, I, "vp_inplace", [I.alloc_array(I.st0, src), n, k, op, o])
            if r:
                c.require(t + " size", r.ret == n, W + nm, "%r elements" % (r.ret,))
                for i in range(n):
                    c.eq("%s %d" % (t, i), r.rd(o, i), f(src[i]), m, W + nm)
        for j in sorted({0, n // 2, n - 1} if 0 < n < 9 else ()):
            for op, nm, f in ((0, "Scale", lambda x: x * p[j]), (1, "Pow", lambda x: fn("pow", x, p[j])), (2, "AddScalar", lambda x: x + p[j]), (3, "Add", lambda x: x + x), (4, "Minus", lambda x: fconst(0)), (5, "Mult", lambda x: x * x), (6, "Divide", lambda x: fconst(1))):
                if op > 2 and j:
                    continue
                I = c.interp(m)
                o = out(I, n)
                t = "%s[n=%d,%s]" % (nm, n, "by its element %d" % j if op < 3 else "by itself")
                r = c.run(t, I, "vp_alias", [I.alloc_array(I.st0, p), n, j, op, o])
                if r:
                    for i in range(n):
                        c.eq("%s %d" % (t, i), r.rd(o, i), f(p[i]), m, W + nm)
        for e in (0, 1, 2, 3, -1):
            I = c.interp(m)
            o = out(I, n)
            t = "Pow[n=%d,p=%d]" % (n, e)
            r = c.run(t, I, "vp_inplace", [I.alloc_array(I.st0, a), n, fconst(e), 1, o])
            if r:
                for i in range(n):
                    c.eq("%s %d" % (t, i), r.rd(o, i), a[i] ** e if e >= 0 else 1 / a[i], m, W + "Pow")
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * n, esz=4)
        r = c.run("Negate float[n=%d]" % n, I, "vp_negf", [I.alloc_array(I.st0, a, esz=4), n, o])
        if r:
            for i in range(n):
                c.eq("Negate float[n=%d] %d" % (n, i), unfloat(r.rd(o, i, "f", 4)), -a[i], m, W + "Negate", tol=1e-6)
        re, im = syms("re", n), syms("im", n)
        cz = [v for t in zip(re, im) for v in t]
        D = 180 / math.pi
        for op, (nm, f) in enumerate([("Real", lambda x, y: x), ("Imag", lambda x, y: y), ("Amplitude", lambda x, y: sqrt(x * x + y * y)), ("Phase default", lambda x, y: fn("atan2", y, x)),
                                      ("Phase rad", lambda x, y: fn("atan2", y, x)), ("Phase deg", lambda x, y: fn("atan2", y, x) * D)]):
            I = c.interp(m)
            o, kp = out(I, n), out(I, 2 * n)
            t = "%s[n=%d]" % (nm, n)
            r = c.run(t, I, "vp_cplx", [I.alloc_array(I.st0, cz), n, op, o, kp])
            if r:
                c.require(t + " size", r.ret == n, "Complex.h " + nm, "%r elements" % (r.ret,))
                for i in range(n):
                    c.eq("%s %d" % (t, i), r.rd(o, i), f(re[i], im[i]), m, "Complex.h " + nm)
                    c.eq("%s kept %d" % (t, i), r.rd(kp, 2 * i), re[i], m, "Complex.h " + nm)
                    c.eq("%s kept %d" % (t, i), r.rd(kp, 2 * i + 1), im[i], m, "Complex.h " + nm)

    c.grow(vec, [0, 1, 2, 3, 7], 0, 1100)
