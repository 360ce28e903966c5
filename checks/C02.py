from vp import *
import math
PI = math.pi


def check(c):
    c.rule = ("abstract interpretation of every entry point with an angle-unit selector: the value computed for degrees is compared, as a normal form in the "
              "symbolic angle, with the definition applied to angle*pi/180 (inputs) or scaled by 180/pi (outputs); conversions of sequences element by element")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["real arithmetic up to rounding (coefficients compared to 1e-9 relative)"]
    m = c.unit("vec2.cpp")
    x, y, z, a = sym("x"), sym("y"), sym("z"), sym("a")
    K = {0: PI / 180, 1: 1.0}
    N = {0: "deg", 1: "rad"}

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    for u in (0, 1, 2):
        I = c.interp(m)
        o = out(I, 2)
        nm = "trigo[%s]" % ("default" if u == 2 else N[u])
        r = c.run(nm, I, "vp_trigo_def" if u == 2 else "vp_trigo", [a, o] if u == 2 else [a, u, o])
        k = K.get(u, 1.0)
        if r:
            c.eq(nm + " cos", r.rd(o, 0), cos(a * k), m, "Angles.h _GetTrigo")
            c.eq(nm + " sin", r.rd(o, 1), sin(a * k), m, "Angles.h _GetTrigo")
    for u in (0, 1):
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * 2, esz=4)
        r = c.run("trigof[%s]" % N[u], I, "vp_trigof", [a, u, o])
        if r:
            c.eq("trigof[%s] cos" % N[u], unfloat(r.rd(o, 0, "f", 4)), cos(a * K[u]), m, "Angles.h _GetTrigo<float>", tol=1e-6)
            c.eq("trigof[%s] sin" % N[u], unfloat(r.rd(o, 1, "f", 4)), sin(a * K[u]), m, "Angles.h _GetTrigo<float>", tol=1e-6)
    for d in (0, 1):
        for form in range(9):
            if form >= 7 and d:
                continue
            for u in ((1,) if form in (4, 5, 6, 8) else (0, 1)):
                I = c.interp(m)
                o, k = out(I, 2), out(I, 2)
                nm = "projection[%s,form %d,%s]" % (["local->NED", "NED->local"][d], form, N[u] if form not in (4, 5, 6, 8) else "default")
                r = c.run(nm, I, "vp_proj", [x, y, a, u, d, form, o, k])
                if r:
                    C, S = cos(a * K[u]), sin(a * K[u])
                    if d:
                        S = -S
                    c.eq(nm + " x", r.rd(o, 0), C * x - S * y, m, "Vector2d.h")
                    c.eq(nm + " y", r.rd(o, 1), S * x + C * y, m, "Vector2d.h")
    for w in range(4):
        for form in range(4):
            for u in ((0, 1) if form < 2 else (1,)):
                I = c.interp(m)
                k = out(I, 2)
                nm = "component[%s,form %d,%s]" % (["North", "East", "LocalX", "LocalY"][w], form, N[u] if form < 2 else "default")
                r = c.run(nm, I, "vp_comp", [x, y, a, u, w, form, k])
                if r:
                    C, S = cos(a * K[u]), sin(a * K[u])
                    c.eq(nm, r.ret, [C * x - S * y, S * x + C * y, C * x + S * y, C * y - S * x][w], m, "Vector2d.h")
    for w, want in enumerate([fn("atan2", z, y), fn("atan2", x, z), fn("atan2", y, x)]):
        for u in (0, 1):
            I = c.interp(m)
            nm = "projected angle[%s,%s]" % ("XYZ"[w], N[u])
            r = c.run(nm, I, "vp_ang3", [x, y, z, w, u])
            if r:
                c.eq(nm, r.ret, want / K[u], m, "Vector3d.h")
    for form in range(4):
        for u in ((0, 1) if form < 3 else (1,)):
            I = c.interp(m)
            o = out(I, 2)
            nm = "NED velocity[form %d,%s]" % (form, N[u])
            r = c.run(nm, I, "vp_nedvel", [x, y, a, u, 0, 0, form, o] if form == 0 else [x, y, a, u, 1, 0, form, o])
            if r:
                kn = 1.0 if form == 0 else 1852.0 / 3600
                C, S = cos(a * K[u]), sin(a * K[u])
                c.eq(nm + " x", r.rd(o, 0), (C * x - S * y) * kn, m, "Vector2d.h GetNEDVelocityVector")
                c.eq(nm + " y", r.rd(o, 1), (S * x + C * y) * kn, m, "Vector2d.h GetNEDVelocityVector")

    def vec(n):
        s = syms("v", n)
        for u, df in ((0, 0), (1, 0), (1, 1)):
            I = c.interp(m)
            re, im = syms("re", n), syms("im", n)
            p = I.alloc_array(I.st0, [v for t in zip(re, im) for v in t])
            o, k = out(I, n), out(I, 2 * n)
            nm = "phase[n=%d,%s]" % (n, "default" if df else N[u])
            r = c.run(nm, I, "vp_phase", [p, n, u, df, o, k])
            if r:
                for i in range(n):
                    c.eq(nm + "[%d]" % i, r.rd(o, i), fn("atan2", im[i], re[i]) / K[u], m, "Complex.h Phase")
                    c.eq(nm + " kept[%d]" % i, r.rd(k, 2 * i), re[i], m, "Complex.h Phase")
                    c.eq(nm + " kept[%d]" % i, r.rd(k, 2 * i + 1), im[i], m, "Complex.h Phase")
        for d2r in (0, 1):
            f = PI / 180 if d2r else 180 / PI
            fnm = "deg2rad" if d2r else "rad2deg"
            I = c.interp(m)
            p = I.alloc_array(I.st0, s)
            o = out(I, n)
            r = c.run("%s[n=%d]" % (fnm, n), I, "vp_conv", [p, n, d2r, o])
            if r:
                c.require("%s[n=%d] size" % (fnm, n), r.ret == n, "Unit.h " + fnm, "%r elements instead of %d" % (r.ret, n))
                for i in range(n):
                    c.eq("%s[n=%d,%d]" % (fnm, n, i), r.rd(o, i), s[i] * f, m, "Unit.h " + fnm)
            I = c.interp(m)
            p = I.alloc_array(I.st0, s)
            nm = "%s onto itself[n=%d]" % (fnm, n)
            r = c.run(nm, I, "vp_conv_self", [p, n, d2r])
            if r:
                c.require(nm + " size", r.ret == n, "Unit.h " + fnm, "%r elements instead of %d" % (r.ret, n))
                for i in range(n):
                    c.eq(nm + "[%d]" % i, r.rd(p, i), s[i] * f, m, "Unit.h " + fnm)
            for no in sorted({0, n, n + 2}):
                I = c.interp(m)
                p = I.alloc_array(I.st0, s)
                o, k = out(I, n), out(I, n)
                nm = "%s copy[n=%d,out=%d]" % (fnm, n, no)
                r = c.run(nm, I, "vp_conv_cp", [p, n, d2r, o, k, no])
                if r:
                    c.require(nm + " size", r.ret == n, "Unit.h " + fnm, "%r elements instead of %d" % (r.ret, n))
                    for i in range(n):
                        c.eq(nm + "[%d]" % i, r.rd(o, i), s[i] * f, m, "Unit.h " + fnm)
                        c.eq(nm + " source kept[%d]" % i, r.rd(k, i), s[i], m, "Unit.h " + fnm)

    c.grow(vec, [0, 1, 2, 5], 0, 520)
    for e, want in (("vp_str_deg", 0), ("vp_str_rad", 1)):
        I = c.interp(m)
        r = c.run(e, I, e, [])
        if r:
            c.require("unit name[%s]" % e[-3:], r.ret == want, "Angles.h STRING2ANGLE", "unit name maps to %r" % (r.ret,))
    for e in ("vp_str_bad", "vp_str_bad2", "vp_str_bad3"):
        I = c.interp(m)
        r = c.run(e, I, e, [], allow=("exit", "throw", "assert"))
        if r:
            c.require("unknown unit name refused[%s]" % e, r.pc is FALSE, "Angles.h STRING2ANGLE", "an unknown unit name is accepted")
