from vp import *
import math
PI = math.pi
KN = 1852.0 / 3600.0
KM = 1000.0 / 3600.0


def check(c):
    c.rule = ("abstract interpretation of the conversion entry points over the algebraic domain: for each ordered pair of unit enumerators the result is "
              "a single rational function of the symbolic input, compared coefficient-wise with the SI definition of the two units")
    c.level = "proof"
    c.floor = 110
    c.assumptions = ["real arithmetic up to rounding (coefficients compared to 1e-9 relative)", "input non-zero when a period is involved"]
    m = c.unit("units.cpp")

    def val(fname, *args):
        I = c.interp(m)
        return I, c.run(fname, I, fname, list(args))

    en = {}
    for i, n in enumerate("MS KNOT KMH HERTZ RADS DEGS DEGM S RPM DEG RAD".split()):
        I, r = val("vp_enum", i)
        en[n] = r.ret
    x = sym("x", "pos")
    y = sym("y")
    # value in SI of one unit
    sp = {"MS": 1.0, "KNOT": KN, "KMH": KM}
    for a in sp:
        for b in sp:
            I = c.interp(m)
            r = c.run("speed[%s->%s]" % (a, b), I, "vp_speed", [y, en[a], en[b]])
            if r:
                c.eq("speed[%s->%s]" % (a, b), r.ret, y * (sp[a] / sp[b]), m, "Unit.h convert_velocity_unit")
            I = c.interp(m)
            r = c.run("speedf[%s->%s]" % (a, b), I, "vp_speedf", [y, en[a], en[b]])
            if r:
                c.eq("speedf[%s->%s]" % (a, b), unfloat(r.ret), y * (sp[a] / sp[b]), m, "Unit.h convert_velocity_unit<float>", tol=1e-6)
        I = c.interp(m)
        r = c.run("speed[%s->default]" % a, I, "vp_speed_def", [y, en[a]])
        if r:
            c.eq("speed[%s->default]" % a, r.ret, y * sp[a], m, "Unit.h convert_velocity_unit")
    # frequency: value in Hz
    fr = {"HERTZ": 1.0, "RADS": 1 / (2 * PI), "DEGS": 1 / 360.0, "DEGM": 1 / 21600.0, "RPM": 1 / 60.0}

    def fspec(v, a, b):
        if a == b:
            return v
        hz = fconst(1) / v if a == "S" else v * fr[a]
        return fconst(1) / hz if b == "S" else hz / fr[b]

    for a in list(fr) + ["S"]:
        for b in list(fr) + ["S"]:
            v = y
            for fnm, tol, g in (("vp_freq", 1e-9, lambda z: z), ("vp_freqf", 1e-6, unfloat)):
                nm = "%s[%s->%s]" % (fnm[3:], a, b)
                I = c.interp(m)
                r = c.run(nm, I, fnm, [v, en[a], en[b]])
                if r:
                    c.eq(nm, g(r.ret), fspec(v, a, b), m, "Unit.h convert_frequency", tol=tol)
            # the limits: no frequency is an infinite period and conversely
            for w, v0 in (("zero", fconst(0)), ("infinite", fconst(math.inf))):
                nm = "freq[%s->%s,%s]" % (a, b, w)
                I = c.interp(m)
                r = c.run(nm, I, "vp_freq", [v0, en[a], en[b]])
                if r:
                    inv = (a == "S") != (b == "S")
                    want = (math.inf if w == "zero" else 0.0) if inv else v0.args[0]
                    c.require(nm + " value", r.ret.op == "const" and r.ret.args[0] == want, "Unit.h convert_frequency", "the result is %r instead of %r" % (r.ret, want))
    single = {"KNOT2MS": y * KN, "MS2KNOT": y / KN, "KMH2MS": y * KM, "MS2KMH": y / KM, "KMH2KNOT": y * (KM / KN), "KNOT2KMH": y * (KN / KM),
              "DEGS2RADS": y * (PI / 180), "RADS2DEGS": y * (180 / PI), "HZ2RADS": y * (2 * PI), "RADS2HZ": y / (2 * PI),
              "HZ2S": 1 / x, "S2HZ": 1 / x, "RADS2S": 2 * PI / x, "S2RADS": 2 * PI / x, "RPM2RADS": y * (2 * PI / 60), "RADS2RPM": y * (60 / (2 * PI)),
              "DEGM2RADS": y * (PI / 180 / 60), "RADS2DEGM": y * (180 / PI * 60)}
    for n, want in single.items():
        I = c.interp(m)
        r = c.run(n, I, "vp_f_" + n, [x if n in ("HZ2S", "S2HZ", "RADS2S", "S2RADS") else y])
        if r:
            c.eq(n, r.ret, want, m, "Unit.h " + n)
    consts = [KN, KM, PI, PI / 180, PI / 180, 180 / PI, 180 / PI, 2 * PI, PI / 2, 2 / PI, 4 * PI, PI / 4, 1 / (4 * PI), 2 * PI / 60, 60, 3600, 86400, 1852, 1000, math.sqrt(2), math.sqrt(2) / 2]
    for i, w in enumerate(consts):
        I = c.interp(m)
        r = c.run("const[%d]" % i, I, "vp_const", [i])
        if r:
            c.eq("const[%d]" % i, r.ret, fconst(w), m, "Constants.h")

    def vec(n):
        s = syms("v", n)
        I = c.interp(m)
        p = I.alloc_array(I.st0, s)
        r = c.run("kt2ms_in[n=%d]" % n, I, "vp_kt2ms_in", [p, n])
        if r:
            for i in range(n):
                c.eq("kt2ms_in[n=%d,%d]" % (n, i), r.rd(p, i), s[i] * KN, m, "Unit.h kt2ms")
        I = c.interp(m)
        p = I.alloc_array(I.st0, s)
        r = c.run("kt2ms onto itself[n=%d]" % n, I, "vp_kt2ms_self", [p, n])
        if r:
            c.require("kt2ms onto itself[n=%d] size" % n, r.ret == n, "Unit.h kt2ms", "output has %r elements" % (r.ret,))
            for i in range(n):
                c.eq("kt2ms onto itself[n=%d,%d]" % (n, i), r.rd(p, i), s[i] * KN, m, "Unit.h kt2ms")
        for no in (0, n, n + 2):
            I = c.interp(m)
            p = I.alloc_array(I.st0, s)
            o = I.alloc_array(I.st0, syms("o", n + 2))
            q = I.alloc_array(I.st0, syms("q", n))
            r = c.run("kt2ms_cp[n=%d,out=%d]" % (n, no), I, "vp_kt2ms_cp", [p, n, o, q, no])
            if r:
                c.require("kt2ms_cp[n=%d,out=%d] size" % (n, no), r.ret == n, "Unit.h kt2ms", "output has %r elements" % (r.ret,))
                for i in range(n):
                    c.eq("kt2ms_cp[n=%d,out=%d,%d]" % (n, no, i), r.rd(o, i), s[i] * KN, m, "Unit.h kt2ms")
                    c.eq("kt2ms_cp input kept[n=%d,out=%d,%d]" % (n, no, i), r.rd(q, i), s[i], m, "Unit.h kt2ms")

    c.grow(vec, [0, 1, 2, 5], 0, 200)
