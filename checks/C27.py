from vp import *


def check(c):
    c.rule = ("abstract interpretation of the signal shapes and scalar helpers on symbolic samples and parameters: the piecewise value of each output element (conditions as BDDs over polynomial "
              "signs) must coincide with the definition on every feasible region, breakpoints included; the input sequence must be unchanged")
    c.level = "proof"
    c.floor = 120
    c.assumptions = ["real arithmetic up to rounding", "impulse: at least two samples, increasing; ramp: breakpoints inside the samples"]
    m = c.unit("seq.cpp")
    W = "Functions.h "

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    s, h, a, b = sym("s"), sym("h"), sym("lo"), sym("hi")

    def heav(x, s):
        return ite(lt(x, s), 0, ite(gt(x, s), 1, 0.5))

    def go(t, e, args, n, x, f, where, pc=TRUE, allow=()):
        I = c.interp(m)
        o, kp = out(I, n), out(I, n)
        r = c.run(t, I, e, [I.alloc_array(I.st0, x), n] + args + [o, kp], pc=pc, allow=allow)
        if r:
            c.require(t + " size", r.ret == n, where, "%r elements instead of %d" % (r.ret, n))
            for i in range(n):
                c.eq("%s %d" % (t, i), r.rd(o, i), f(x[i]), m, where, pc=r.pc)
                c.eq("%s input kept %d" % (t, i), r.rd(kp, i), x[i], m, where)
        return r

    def vec(n):
        x = syms("x", n)
        go("Sinc[n=%d]" % n, "vp_sinc", [], n, x, lambda v: ite(eq(v, 0), 1, sin(v) / v), W + "Sinc")
        go("Heaviside[n=%d]" % n, "vp_heav", [s], n, x, lambda v: heav(v, s), W + "Heaviside")
        w = sym("w", "nn")
        for df in (0, 1):
            H = fconst(1) if df else h
            go("Door[n=%d,%s]" % (n, "default height" if df else "height"), "vp_door", [a, a + w, h, df], n, x, lambda v: (heav(v, a) - heav(v, a + w)) * H, W + "Door")
        if n >= 2:
            gaps = [sym("d%d" % i, "pos") for i in range(n - 1)]
            xs = [sym("x0")]
            for d in gaps:
                xs.append(xs[-1] + d)
            for df in (0, 1):
                H = fconst(1) if df else h
                hd = gaps[0] * 0.5
                go("Dirac[n=%d,%s]" % (n, "default height" if df else "height"), "vp_dirac", [s, h, df], n, xs,
                   lambda v: ite(T.band(lt(v - s, hd), gt(v - s, -hd)), H, 0), W + "Dirac")

    c.grow(vec, [0, 1, 2, 3], 0, 260)

    def ramp(n):
        # breakpoints inside [x0, x_{n-1}]
        xs = [sym("x0")]
        for i in range(n - 1):
            xs.append(xs[-1] + sym("d%d" % i, "pos"))
        yl, yr = sym("yl"), sym("yr")
        mn, ww = xs[0] + sym("e0", "nn"), sym("ww", "pos")
        mx = mn + ww
        t = "Ramp[n=%d]" % n
        inside = le(mx, xs[-1])
        go(t, "vp_ramp", [mn, mx, yl, yr], n, xs,
           lambda v: ite(le(v, mn), yl, ite(le(v, mx), yl + (yr - yl) * (v - mn) / ww, yr)), W + "Ramp", pc=inside)
        # degenerate ramp: a step from yl to yr
        go("Ramp degenerate[n=%d]" % n, "vp_ramp", [mn, mn, yl, yr], n, xs, lambda v: ite(le(v, mn), yl, yr), W + "Ramp", pc=le(mn, xs[-1]))
        for nm, args, cond in (("reversed", [mx, mn, yl, yr], le(mx, xs[-1])), ("right of samples", [mn, mx, yl, yr], gt(mx, xs[-1])), ("left of samples", [xs[0] - ww, mn, yl, yr], le(mn, xs[-1]))):
            I = c.interp(m)
            c.refuse("Ramp refused[n=%d,%s]" % (n, nm), I, "vp_ramp", [I.alloc_array(I.st0, xs), n] + args + [out(I, n), out(I, n)], W + "Ramp", pc=cond)

    c.grow(ramp, [2, 3], 2, 12)
    for n in (2, 3, 5):
        I = c.interp(m)
        o = out(I, n)
        w = sym("w", "nn")
        r = c.run("Sinc range[n=%d]" % n, I, "vp_sinc_r", [a, a + w, n, o, n])
        if r:
            for i in range(n):
                v = a + w * i / (n - 1)
                c.eq("Sinc range[n=%d] %d" % (n, i), r.rd(o, i), ite(eq(v, 0), 1, sin(v) / v), m, W + "Sinc")
    x = sym("x")
    for e in ("vp_sgn", "vp_sgnf"):
        I = c.interp(m)
        r = c.run("sgn[%s]" % e, I, e, [x])
        if r:
            c.eq("sgn[%s]" % e, signed(r.ret), ite(gt(x, 0), 1, ite(lt(x, 0), -1, 0)), m, "Maths.h sgn")
    I = c.interp(m)
    r = c.run("sgn[int]", I, "vp_sgni", [A.IntF(sym("int:k"))])
    if r:
        k = sym("int:k")
        c.eq("sgn[int]", signed(r.ret), ite(gt(k, 0), 1, ite(lt(k, 0), -1, 0)), m, "Maths.h sgn")
    I = c.interp(m)
    w = sym("w", "nn")
    r = c.run("Saturate", I, "vp_sat", [x, a, a + w])
    if r:
        c.eq("Saturate", r.ret, ite(gt(x, a + w), a + w, ite(lt(x, a), a, x)), m, "Maths.h Saturate")
    I = c.interp(m)
    r = c.run("SgnSqrt", I, "vp_ssq", [x])
    if r:
        c.eq("SgnSqrt", r.ret, ite(gt(x, 0), sqrt(x), ite(lt(x, 0), -sqrt(-x), 0)), m, "Maths.h SgnSqrt")


def signed(v, w=32):
    if isinstance(v, int):
        return v - (1 << w) if v >> (w - 1) else v
    if isinstance(v, A.ITE):
        return A.ITE(v.c, signed(v.a, w), signed(v.b, w))
    return v
