import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp_common import *


def check(c):
    c.rule = ("abstract interpretation of the 1-D interpolators on symbolic strictly increasing abscissae, ordinates and query: the piecewise value of every calling form must be the chord of the segment that contains the "
              "query, and outside the range the policy of the method (failure exit, end ordinate, continued end chord), on every feasible region")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["real arithmetic up to rounding", "at least two strictly increasing abscissae, finite query", "numbers of points: the listed sizes and every size around an integer constant of the analysed code"]
    m = c.unit("interp.cpp")
    W = "Interp1d.h "
    q = sym("q")

    def go(c, it):
        n, method, how, form, kind = it[:5]
        xs = knots("x", n)
        t = "%s[%s,n=%d,%s,form %d]" % (kind, MN[method], n, "factory" if how else "class", form)
        I = c.interp(m)
        es = 4 if kind == "float" else 8
        al = lambda v: I.alloc_array(I.st0, v, es)
        z = fconst(0)
        k = it[5] if len(it) > 5 else 1 if form < 2 or n > 3 else 2
        qs = ([q] + [sym("q%d" % i) for i in range(2, k + 1)])[:k]
        if len(it) > 5:
            t += " %d queries" % k
        acc = al([z, z])
        if kind == "complex":
            re, im = syms("yr", n), syms("yi", n)
            y = al([v for p in zip(re, im) for v in p])
            comp = [re, im]
        else:
            re = syms("y", n)
            y = al(re)
            comp = [re]
        o = al([z] * max(k * len(comp), 1))
        args = [method, how, form, al(xs), y, n, al(qs or [z]), k, o, acc]
        e = {"real": "vp_i1", "float": "vp_i1f", "complex": "vp_i1c"}[kind]
        if method == 0:
            bad = FALSE
            for v in qs:
                bad = T.bor(bad, outside(xs, v))
            r = c.refuse(t + " refuses outside", I, e, args, W + "Interp1dLinear::PrivEval", cond=bad, kinds=("exit", "assert", "throw", "abort"))
        else:
            r = c.run(t, I, e, args)
        if not r:
            return
        for i, v in enumerate(qs):
            for j, ys in enumerate(comp):
                got = r.rd(o, i * len(comp) + j, "d" if es == 8 else "f", es)
                c.eq("%s value %d%s" % (t, i, " im" if j else ""), unfloat(got) if es == 4 else got, spec1(method, xs, ys, v), m, W + "PrivEval", pc=r.pc, tol=T.TOL if es == 8 else 1e-6)
        c.eq(t + " Xmin", r.rd(acc, 0, "d" if es == 8 else "f", es), xs[0], m, W + "GetXmin", pc=r.pc)
        c.eq(t + " Xmax", r.rd(acc, 1, "d" if es == 8 else "f", es), xs[-1], m, W + "GetXmax", pc=r.pc)

    items = []
    for n in (2, 3, 4, 5, 6, 8):
        for method in range(3):
            items.append((n, method, 0, 0, "real"))
            if n <= 4:
                items += [(n, method, h, f, "real") for h in (0, 1) for f in range(4) if (h, f) != (0, 0)]
                items += [(n, method, 0, f, "complex") for f in ((0, 2) if n < 4 else (0,))]
            if n <= 3:
                items.append((n, method, 1, 1, "complex"))
                items.append((n, method, 0, 0, "float"))
    items += [(2, method, h, f, "real", k) for method in range(3) for h, f in ((0, 2), (1, 3)) for k in (0, 3)] + [(2, 1, 0, 2, "real", 4), (2, 1, 0, 2, "complex", 3)]
    c.pmap(go, items)
    done = {i[0] for i in items}
    extra = [n for n in c.cutoffs(2, 40 if c.thorough else 24) if n not in done]
    c.pmap(go, [(n, mt, 0, 0, "real") for n in extra for mt in range(3)])
    c.extra_cov["sizes"] = sorted(done | set(extra))

    def long(c, it):
        """tables of many points: every kind of cell, given abscissae and queries, any ordinates"""
        n, method, form = it
        xs, ys = steps(n), syms("y", n)
        t = "long[%s,n=%d,form %d]" % (MN[method], n, form)
        ps = probes(xs)
        if method:
            ps = [xs[0] - 1e6, xs[0] - 0.5] + ps + [xs[-1] + 0.5, xs[-1] + 1e6]
        I = c.interp(m)
        al = lambda v: I.alloc_array(I.st0, v)
        o, acc = al([fconst(0)] * len(ps)), al([fconst(0)] * 2)
        r = c.run(t, I, "vp_i1", [method, 0, form, al([fconst(v) for v in xs]), al(ys), n, al([fconst(v) for v in ps]), len(ps), o, acc])
        if not r:
            return
        for i, v in enumerate(ps):
            want = lin(xs, ys, min(max(v, xs[0]), xs[-1]) if method == 2 else v)
            c.eq("%s at %g" % (t, v), r.rd(o, i), want, m, W + "PrivEval", pc=r.pc)
        c.eq(t + " Xmax", r.rd(acc, 1), fconst(xs[-1]), m, W + "GetXmax", pc=r.pc)

    many = sorted({33, 100, 260} | set(c.cutoffs(25, 1100)))
    c.pmap(long, [(n, mt, f) for n in many for mt in range(3) for f in (0, 2)])
    c.extra_cov["sizes with given abscissae"] = many
    for n, k in ((2, 3), (3, 2), (4, 1), (1, 4)):
        for mt in range(3):
            I = c.interp(m)
            c.refuse("different lengths refused[%s,%d,%d]" % (MN[mt], n, k), I, "vp_i1_len", [mt, I.alloc_array(I.st0, knots("x", n)), n, I.alloc_array(I.st0, syms("y", k)), k], W + "Initialize")
