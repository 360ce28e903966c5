from vp import *


def check(c):
    c.rule = ("abstract interpretation of the range generators with symbolic bounds, base and step: element i must normalise to start+i*(stop-start)/(n-1), base^that, or start+i*step, "
              "the last element of a linear range is the very value stop, and refused arguments must fail on every path")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["real arithmetic up to rounding; (stop-start)/step is taken as k-1+f for the fractions f given in the evidence"]
    m = c.unit("seq.cpp")
    a, g, base, h = sym("a"), sym("g", "nn"), sym("base", "pos"), sym("h", "pos")
    W = "VectorGeneration.h "

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    def lin(n):
        I = c.interp(m)
        b = a + g
        o = out(I, n)
        t = "linspace[n=%d]" % n
        r = c.run(t, I, "vp_lin", [a, b, n, o, n])
        if r:
            c.require(t + " count", r.ret == n, W + "linspace", "%r values instead of %d" % (r.ret, n))
            for i in range(n):
                c.eq("%s %d" % (t, i), r.rd(o, i), a + g * i / (n - 1), m, W + "linspace")
            # exactly the requested bounds: no rounding, so the very same value must be returned
            for i, want, nm in ((0, a, "first"), (n - 1, b, "last")):
                got = r.rd(o, i)
                if not c.require("%s %s value is the bound itself" % (t, nm), exact(got, want, g), c.node_loc(m, got, W + "linspace"), "the %s value is %r, a rounded computation of the bound" % (nm, got)):
                    break
        I = c.interp(m)
        of = I.alloc_array(I.st0, [fconst(0)] * n, esz=4)
        r = c.run("linspace float[n=%d]" % n, I, "vp_linf", [a, b, n, of, n])
        if r:
            c.require("linspace float[n=%d] count" % n, r.ret == n, W + "linspace", "%r values instead of %d" % (r.ret, n))
            for i in range(n):
                c.eq("linspace float[n=%d] %d" % (n, i), unfloat(r.rd(of, i, "f", 4)), a + g * i / (n - 1), m, W + "linspace", tol=1e-6)
        for df in (0, 1):
            I = c.interp(m)
            o = out(I, n)
            t = "logspace[n=%d,%s]" % (n, "base 10" if df else "any base")
            r = c.run(t, I, "vp_log", [a, b, n, base, df, o, n])
            if r:
                c.require(t + " count", r.ret == n, W + "logspace", "%r values instead of %d" % (r.ret, n))
                for i in range(n):
                    c.eq("%s %d" % (t, i), r.rd(o, i), fn("pow", fconst(10) if df else base, a + g * i / (n - 1)), m, W + "logspace")

    c.grow(lin, [2, 3, 5, 10], 2, 1100)

    def ar(k):
        for fr in (2.0 ** -40, 1.0 / 1024, 0.5, 1.0, 1 - 2.0 ** -20):
            for df in (0, 1):
                I = c.interp(m)
                st = fconst(1) if df else h
                b = a + st * (k - 1 + fr)
                o = out(I, k + 2)
                t = "arange[k=%d,f=%g%s]" % (k, fr, ",default step" if df else "")
                r = c.run(t, I, "vp_arange", [a, b, st, df, o, k + 2])
                if r:
                    c.require(t + " count", r.ret == k, W + "arange", "%r values instead of %d" % (r.ret, k))
                    for i in range(k):
                        c.eq("%s %d" % (t, i), r.rd(o, i), a + st * i, m, W + "arange")

    c.grow(ar, [1, 2, 3, 8], 1, 1100)
    c.extra_cov["fractions"] = [1.0 / 1024, 0.5, 1.0]
    gp = sym("gp", "pos")
    for n in (0, 1):
        I = c.interp(m)
        c.refuse("linspace refused[n=%d]" % n, I, "vp_lin", [a, a + g, n, out(I, 4), 4], W + "linspace")
        I = c.interp(m)
        c.refuse("logspace refused[n=%d]" % n, I, "vp_log", [a, a + g, n, base, 0, out(I, 4), 4], W + "logspace")
    I = c.interp(m)
    c.refuse("linspace refused[reversed]", I, "vp_lin", [a, a - gp, 4, out(I, 4), 4], W + "linspace")
    I = c.interp(m)
    c.refuse("logspace refused[reversed]", I, "vp_log", [a, a - gp, 4, base, 0, out(I, 4), 4], W + "logspace")
    for nm, args in (("reversed", [a, a - gp, h, 0]), ("empty", [a, a, h, 0]), ("reversed both", [a, a - 3 * h, -h, 0]), ("negative step", [a, a + 3 * h, -h, 0]), ("zero step", [a, a + gp, fconst(0), 0])):
        I = c.interp(m)
        c.refuse("arange refused[%s]" % nm, I, "vp_arange", args + [out(I, 8), 8], W + "arange")


def exact(got, want, g):
    """got is the same floating-point value as want: identical value graph up to additions of exact zero"""
    if got is want:
        return True
    if isinstance(got, FNode) and got.op == "ite":
        return exact(got.args[1], want, g) and exact(got.args[2], want, g)
    if isinstance(got, FNode) and got.op == "add":
        x, y = got.args
        return exact(x, want, g) and zero(y) or exact(y, want, g) and zero(x)
    return False


def zero(f):
    """a finite-operand expression that is exactly zero in floating point: a product with a literal zero"""
    if f.op == "const":
        return f.args[0] == 0
    if f.op == "mul":
        return zero(f.args[0]) or zero(f.args[1])
    return False
