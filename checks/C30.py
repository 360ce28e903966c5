from vp import *
import math


def tob(v):
    return A.tobdd(v) if not isinstance(v, int) else (TRUE if v else FALSE)


def check(c):
    c.rule = ("abstract interpretation of the closeness and parity predicates: the condition under which true is returned (a BDD over polynomial signs) must coincide with the definition, "
              "asserting forms abort exactly on its negation, NaN constants give false, lengths that differ are refused; parity is decided in a congruence domain on each sign class of the integer")
    c.level = "proof"
    c.floor = 60
    c.assumptions = ["real arithmetic up to rounding", "tolerances non-negative"]
    m = c.unit("seq.cpp")
    W = "Check.h "
    x, y = sym("x"), sym("y")
    rt, at = sym("rtol", "nn"), sym("atol", "nn")

    def ab(v):
        return ite(lt(v, 0), -v, v)

    def close(p, q, r, t):
        return le(ab(p - q), t + r * ab(q))

    for nm, e, args, r_, t_ in (("all tolerances", "vp_close", [x, y, rt, at], rt, at), ("default", "vp_close_d", [x, y], fconst(1e-5), fconst(1e-8)), ("default atol", "vp_close_r", [x, y, rt], rt, fconst(1e-8))):
        I = c.interp(m)
        r = c.run("IsClose[%s]" % nm, I, e, args)
        if r:
            c.cond_eq("IsClose[%s]" % nm, tob(r.ret), close(x, y, r_, t_), W + "IsClose")
    for nm, e, args, r_, t_ in (("all tolerances", "vp_aclose", [x, y, rt, at], rt, at), ("default", "vp_aclose_d", [x, y], fconst(1e-5), fconst(1e-8))):
        I = c.interp(m)
        c.refuse("AssertIsClose[%s]" % nm, I, e, args, W + "AssertIsClose", cond=T.bnot(close(x, y, r_, t_)))
    nan = fconst(math.nan)
    for nm, args in (("first NaN", [nan, y, rt, at]), ("second NaN", [x, nan, rt, at]), ("both NaN", [nan, nan, rt, at])):
        I = c.interp(m)
        r = c.run("IsClose[%s]" % nm, I, "vp_close", args)
        if r:
            c.require("IsClose[%s]" % nm, tob(r.ret) is FALSE, W + "IsClose", "not-a-number is reported close")
        I = c.interp(m)
        c.refuse("AssertIsClose[%s]" % nm, I, "vp_aclose", args, W + "AssertIsClose")
        # in a sequence
        I = c.interp(m)
        r = c.run("IsClose sequence[%s]" % nm, I, "vp_closev", [I.alloc_array(I.st0, [fconst(1), args[0]]), 2, I.alloc_array(I.st0, [fconst(1), args[1]]), 2, rt, at])
        if r:
            c.require("IsClose sequence[%s]" % nm, tob(r.ret) is FALSE, W + "IsClose", "not-a-number is reported close")

    def vec(n):
        a, b = syms("a", n), syms("b", n)

        def all_(r_, t_):
            k = TRUE
            for p, q in zip(a, b):
                k = T.band(k, close(p, q, r_, t_))
            return k

        for df in (0, 1):
            r_, t_ = (fconst(1e-5), fconst(1e-8)) if df else (rt, at)
            I = c.interp(m)
            args = [I.alloc_array(I.st0, a), n, I.alloc_array(I.st0, b), n] + ([] if df else [rt, at])
            t = "IsClose sequence[n=%d%s]" % (n, ",default" if df else "")
            r = c.run(t, I, "vp_closev_d" if df else "vp_closev", args)
            if r:
                c.cond_eq(t, tob(r.ret), all_(r_, t_), W + "IsClose")
            I = c.interp(m)
            args = [I.alloc_array(I.st0, a), n, I.alloc_array(I.st0, b), n] + ([] if df else [rt, at])
            c.refuse("AssertIsClose sequence[n=%d%s]" % (n, ",default" if df else ""), I, "vp_aclosev_d" if df else "vp_aclosev", args, W + "AssertIsClose", cond=T.bnot(all_(r_, t_)))
        for n2 in (n + 1, n - 1, 0):
            if n2 >= 0 and n2 != n:
                I = c.interp(m)
                c.refuse("lengths[%d,%d]" % (n, n2), I, "vp_closev", [I.alloc_array(I.st0, a), n, I.alloc_array(I.st0, syms("b", n2)), n2, rt, at], W + "IsClose")

    c.grow(vec, [0, 1, 2, 3], 0, 9)
    # long sequences: constants everywhere but one element
    for n in (17, 40) if not c.thorough else (17, 40, 130, 300):
        for j in sorted({0, 1, n // 2, n - 2, n - 1}):
            I = c.interp(m)
            av, bv = [fconst(1)] * n, [fconst(1)] * n
            av[j], bv[j] = x, y
            t = "IsClose long[n=%d,%d]" % (n, j)
            r = c.run(t, I, "vp_closev", [I.alloc_array(I.st0, av), n, I.alloc_array(I.st0, bv), n, rt, at])
            if r:
                c.cond_eq(t, tob(r.ret), close(x, y, rt, at), W + "IsClose")
    k = sym("int:k", "nn")
    for ty, signed in (("i", 1), ("l", 1), ("s", 1), ("u", 0)):
        for nm, f, odd in (("non-negative even", 2 * k, 0), ("non-negative odd", 2 * k + 1, 1), ("negative even", -2 * k - 2, 0), ("negative odd", -2 * k - 1, 1)):
            if not signed and nm.startswith("neg"):
                continue
            for e, want in (("vp_odd_" + ty, odd), ("vp_even_" + ty, 1 - odd)):
                I = c.interp(m)
                r = c.run("%s[%s]" % (e[3:], nm), I, e, [A.IntF(f)])
                if r:
                    c.require("%s[%s]" % (e[3:], nm), tob(r.ret) is (TRUE if want else FALSE), W + e[3:-2], "answers %r" % (r.ret,))
