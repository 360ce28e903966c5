import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp_common import *
import itertools

# names used by the analysed unit: prefixes of one another, the empty string, a long one, case variants
NAMES = ["cx", "c", "", "long", "cy", "C", "cx ", "cz"] + ["t%d" % i for i in range(8, 40)]


def check(c):
    c.rule = ("abstract interpretation of lookup tables holding several series with symbolic data: each name must evaluate to the interpolant of exactly its own data in every calling form; repeated, failing and unknown "
              "registrations and queries are analysed as call sequences and the table state compared before and after")
    c.level = "proof"
    c.floor = 200
    c.assumptions = ["real arithmetic up to rounding", "the listed sets of names (prefixes, empty, long, case variants) and numbers of series; std::unordered_map keys by content"]
    m = c.unit("interp.cpp")
    W1, W2 = "LookupTable1D.h ", "LookupTable2D.h "
    q, qx, qy = sym("q"), sym("qx"), sym("qy")
    z = fconst(0)
    sets = [(0,), (3,), (2, 0), (0, 1), (0, 6, 1), (3, 2, 5, 1), (4, 0, 7), (1, 0, 6, 4, 7)]
    if c.thorough:
        sets += [tuple(range(8)), (7, 6, 5, 4, 3, 2, 1, 0)] + list(itertools.permutations((0, 1, 2, 3), 3))

    def t1(c, it):
        S, method, n = it
        k = len(S)
        xs = knots("x", n)
        ys = [syms("y%d_" % s, n) for s in range(k)]
        pc = T.bnot(outside(xs, q))
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, ov, oa, acc, ox = al([z] * k), al([z] * 2 * k), al([z] * k), al([z] * 6), al([z] * n)
        t = "table 1d[%s,n=%d,%s]" % (MN[method], n, "|".join(NAMES[i] for i in S))
        r = c.run(t, I, "vp_l1", [method, al(xs), n, al(sum(ys, [])), k, al(list(S), 4), q, o, ov, oa, acc, ox], pc=pc)
        if r:
            for s in range(k):
                w = spec1(method, xs, ys[s], q)
                c.eq("%s Eval %d" % (t, s), r.rd(o, s), w, m, W1 + "Eval", pc=r.pc)
                c.eq("%s Eval vector %d" % (t, s), r.rd(ov, 2 * s), w, m, W1 + "Eval", pc=r.pc)
                c.eq("%s Eval vector %d'" % (t, s), r.rd(ov, 2 * s + 1), w, m, W1 + "Eval", pc=r.pc)
                c.eq("%s Eval all %d" % (t, s), r.rd(oa, s), w, m, W1 + "Eval", pc=r.pc)
            for i, (v, nm) in enumerate(((k, "GetNbSeries"), (n, "GetNbSample"), (n, "GetX size"), (k, "Eval all size"), (xs[0], "GetXmin"), (xs[-1], "GetXmax"))):
                c.eq("%s %s" % (t, nm), r.rd(acc, i), v, m, W1 + nm, pc=r.pc)
            for i in range(n):
                c.eq("%s GetX %d" % (t, i), r.rd(ox, i), xs[i], m, W1 + "GetX", pc=r.pc)
        if n == 3 or k == 1:
            # outside: the policy of the method applies through the table
            if method:
                I = c.interp(m)
                o, ov, oa, acc, ox = al([z] * k), al([z] * 2 * k), al([z] * k), al([z] * 6), al([z] * n)
                r = c.run(t + " outside", I, "vp_l1", [method, al(xs), n, al(sum(ys, [])), k, al(list(S), 4), q, o, ov, oa, acc, ox])
                if r:
                    for s in range(k):
                        c.eq("%s outside Eval %d" % (t, s), r.rd(o, s), spec1(method, xs, ys[s], q), m, W1 + "Eval", pc=r.pc)
                        c.eq("%s outside Eval all %d" % (t, s), r.rd(oa, s), spec1(method, xs, ys[s], q), m, W1 + "Eval", pc=r.pc)

    def dup1(c, it):
        S, method, dup = it
        k, n = len(S), 3
        xs = knots("x", n)
        ys = [syms("y%d_" % s, n) for s in range(k + 1)]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, acc = al([z] * k), al([z] * 2)
        t = "table 1d name twice[%s,%s,%d]" % (MN[method], "|".join(NAMES[i] for i in S), dup)
        r = c.run(t, I, "vp_l1_dup", [method, al(xs), n, al(sum(ys, [])), k, al(list(S), 4), dup, q, o, acc], pc=T.bnot(outside(xs, q)))
        if r:
            c.require(t + " refused", r.ret == 0, W1 + "AddY", "a name already registered is accepted again")
            for s in range(k):
                c.eq("%s series %d kept" % (t, s), r.rd(o, s), spec1(method, xs, ys[s], q), m, W1 + "AddY", pc=r.pc)
            c.eq(t + " number of series", r.rd(acc, 0), k, m, W1 + "AddY")
            c.eq(t + " names", r.rd(acc, 1), k, m, W1 + "AddY")

    def unk1(c, it):
        S, unk, form = it
        k, n = len(S), 2
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        t = "table 1d unknown name[%s,%s,form %d]" % ("|".join(NAMES[i] for i in S), NAMES[unk], form)
        c.refuse(t, I, "vp_l1_unknown", [1, al(knots("x", n)), n, al(syms("y", n * max(k, 1))), k, al(list(S) or [0], 4), unk, q, form], W1 + "Eval")

    def cplx(c, it):
        S, method = it
        k, n = len(S), 3
        xs = knots("x", n)
        re, im = [syms("r%d_" % s, n) for s in range(k)], [syms("i%d_" % s, n) for s in range(k)]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, oa = al([z] * 2 * k), al([z] * 2 * k)
        t = "table 1d complex[%s,%s]" % (MN[method], "|".join(NAMES[i] for i in S))
        fl = [v for s in range(k) for i in range(n) for v in (re[s][i], im[s][i])]
        r = c.run(t, I, "vp_l1c", [method, al(xs), n, al(fl), k, al(list(S), 4), q, o, oa], pc=T.bnot(outside(xs, q)))
        if r:
            for s in range(k):
                for p, (nm, b) in enumerate((("Eval", o), ("Eval all", oa))):
                    c.eq("%s %s %d re" % (t, nm, s), r.rd(b, 2 * s), spec1(method, xs, re[s], q), m, W1 + "Eval", pc=r.pc)
                    c.eq("%s %s %d im" % (t, nm, s), r.rd(b, 2 * s + 1), spec1(method, xs, im[s], q), m, W1 + "Eval", pc=r.pc)

    def t2(c, it):
        S, nx, ny = it
        k, n = len(S), nx * ny
        xs, ys = knots("x", nx), knots("y", ny)
        d = [[[sym("d%d_%d_%d" % (s, i, j)) for j in range(ny)] for i in range(nx)] for s in range(k)]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, ov, ol, acc, ox, oy = al([z] * k), al([z] * k), al([z] * 2 * k), al([z] * 12), al([z] * nx), al([z] * ny)
        t = "table 2d[%dx%d,%s]" % (nx, ny, "|".join(NAMES[i] for i in S))
        pc = T.bnot(T.bor(outside(xs, qx), outside(ys, qy)))
        r = c.run(t, I, "vp_l2", [al(xs), nx, al(ys), ny, al([v for a in d for b in a for v in b]), k, al(list(S), 4), qx, qy, o, ov, ol, acc, ox, oy], pc=pc)
        if r:
            for s in range(k):
                w = spec2(xs, ys, d[s], qx, qy)
                for nm, b, i in (("Eval", o, s), ("Eval vector", ov, s), ("Eval list", ol, 2 * s), ("Eval list'", ol, 2 * s + 1)):
                    c.eq("%s %s %d" % (t, nm, s), r.rd(b, i), w, m, W2 + "Eval", pc=r.pc)
            for i, (v, nm) in enumerate(((k, "GetNbSeries"), (n, "GetNbSample"), (nx, "GetX size"), (ny, "GetY size"))):
                c.eq("%s %s" % (t, nm), r.rd(acc, i), v, m, W2 + nm)
            for i in range(8):
                c.eq("%s HasSerie %s" % (t, NAMES[i]), r.rd(acc, 4 + i), int(i in S), m, W2 + "HasSerie")
            for i in range(nx):
                c.eq("%s GetX %d" % (t, i), r.rd(ox, i), xs[i], m, W2 + "GetX")
            for i in range(ny):
                c.eq("%s GetY %d" % (t, i), r.rd(oy, i), ys[i], m, W2 + "GetY")

    def d2(c, it):
        S, why, short = it
        k, nx, ny = len(S), 2, 3
        n = nx * ny
        xs, ys = knots("x", nx), knots("y", ny)
        d = [[[sym("d%d_%d_%d" % (s, i, j)) for j in range(ny)] for i in range(nx)] for s in range(k + 1)]
        flat = [v for a in d for b in a for v in b]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, acc = al([z] * k), al([z] * 4)
        pc = T.bnot(T.bor(outside(xs, qx), outside(ys, qy)))
        if why == "dup":
            t = "table 2d name twice[%s,%d]" % ("|".join(NAMES[i] for i in S), short)
            r = c.run(t, I, "vp_l2_dup", [al(xs), nx, al(ys), ny, al(flat), k, al(list(S), 4), short, qx, qy, o, acc], pc=pc)
            if r:
                c.require(t + " refused", r.ret == 0, W2 + "AddData", "a name already registered is accepted again")
                c.eq(t + " number of series", r.rd(acc, 0), k, m, W2 + "AddData")
        else:
            t = "table 2d failed registration[%s,%s]" % ("|".join(NAMES[i] for i in S), "unknown method" if why == 0 else "%d values missing" % short)
            r = c.run(t, I, "vp_l2_fail", [al(xs), nx, al(ys), ny, al(flat), k, al(list(S), 4), why, short, qx, qy, o, acc], pc=pc)
            if r:
                c.require(t + " reported", r.ret == 1, W2 + "AddData", "the registration does not report its failure")
                for i, (v, nm) in enumerate(((k - 1, "number of series kept"), (0, "name not registered"), (1, "name still available"), (k, "number of series after"))):
                    c.eq("%s %s" % (t, nm), r.rd(acc, i), v, m, W2 + "AddData")
        if r:
            for s in range(k):
                c.eq("%s series %d" % (t, s), r.rd(o, s), spec2(xs, ys, d[s], qx, qy), m, W2 + "AddData", pc=r.pc)

    def unk2(c, it):
        S, unk, form = it
        k = len(S)
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        t = "table 2d unknown name[%s,%s,form %d]" % ("|".join(NAMES[i] for i in S), NAMES[unk], form)
        c.refuse(t, I, "vp_l2_unknown", [al(knots("x", 2)), 2, al(knots("y", 2)), 2, al(syms("d", 4 * max(k, 1))), k, al(list(S) or [0], 4), unk, qx, qy, form], W2 + "Eval")

    def len1(c, it):
        n, k, mt = it
        I = c.interp(m)
        c.refuse("table 1d data of another length[%s,%d for %d]" % (MN[mt], k, n), I, "vp_l1_len", [mt, I.alloc_array(I.st0, knots("x", n)), n, I.alloc_array(I.st0, syms("y", k)), k], W1 + "AddY")

    def setx1(c, it):
        n, n2, mt, btw = it
        xs, us, ys, vs = knots("x", n), knots("u", n2), syms("y", n), syms("v", n2)
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, acc = al([z] * 4), al([z] * 6)
        t = "table 1d abscissae given again[%s,%d,%d%s]" % (MN[mt], n, n2, ", evaluated between" if btw else "")
        r = c.run(t, I, "vp_l1_setx", [mt, al(xs), n, al(us), n2, al(ys), al(vs), btw, q, o, acc], pc=T.bnot(T.bor(outside(xs, q), outside(us, q))))
        if r:
            a = spec1(mt, xs, ys, q)
            for i, (w, nm) in enumerate(((a, "first series, before the second"), (spec1(mt, us, vs, q), "second series"), (a, "first series"), (a, "first series, all at once"))):
                c.eq("%s %s" % (t, nm), r.rd(o, i), w, m, W1 + "Eval", pc=r.pc)
            for i, (w, nm) in enumerate(((xs[0], "GetXmin of the first"), (xs[-1], "GetXmax of the first"), (us[0], "GetXmin of the second"), (us[-1], "GetXmax of the second"), (n2, "GetNbSample"), (us[1], "GetX"))):
                c.eq("%s %s" % (t, nm), r.rd(acc, i), w, m, W1 + "SetX", pc=r.pc)

    def setx2(c, it):
        nx, ny, nx2, ny2 = it
        xs, us, ys, vs = knots("x", nx), knots("u", nx2), knots("y", ny), knots("v", ny2)
        d, e = [[sym("d%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)], [[sym("e%d_%d" % (i, j)) for j in range(ny2)] for i in range(nx2)]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, acc = al([z] * 2), al([z] * 3)
        t = "table 2d abscissae given again[%dx%d,%dx%d]" % it
        pc = T.bnot(T.bor(T.bor(outside(xs, qx), outside(ys, qy)), T.bor(outside(us, qx), outside(vs, qy))))
        r = c.run(t, I, "vp_l2_setx", [al(xs), nx, al(ys), ny, al(sum(d, [])), al(us), nx2, al(vs), ny2, al(sum(e, [])), qx, qy, o, acc], pc=pc)
        if r:
            c.eq(t + " first series", r.rd(o, 0), spec2(xs, ys, d, qx, qy), m, W2 + "Eval", pc=r.pc)
            c.eq(t + " second series", r.rd(o, 1), spec2(us, vs, e, qx, qy), m, W2 + "Eval", pc=r.pc)
            for i, (w, nm) in enumerate(((nx2 * ny2, "GetNbSample"), (us[1], "GetX"), (vs[1], "GetY"))):
                c.eq("%s %s" % (t, nm), r.rd(acc, i), w, m, W2 + nm, pc=r.pc)

    def fail1(c, it):
        n, mt, before = it
        xs, ys, vs = knots("x", n), syms("y", n), syms("v", n)
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, acc = al([z] * 2), al([z] * 4)
        t = "table 1d failed registration[%s,n=%d%s]" % (MN[mt], n, ", after another series" if before else "")
        r = c.run(t, I, "vp_l1_fail", [mt, al(xs), n, al(ys), al(vs), before, q, o, acc], pc=T.bnot(outside(xs, q)))
        if r:
            c.require(t + " reported", r.ret == 1, W1 + "AddY", "the registration does not report its failure")
            for i, (v, nm) in enumerate(((before, "number of series kept"), (1, "name still available"), (before + 1, "number of series after"), (before, "names kept"))):
                c.eq("%s %s" % (t, nm), r.rd(acc, i), v, m, W1 + "AddY")
            c.eq(t + " series", r.rd(o, 0), spec1(mt, xs, ys, q), m, W1 + "AddY", pc=r.pc)
            if before:
                c.eq(t + " other series", r.rd(o, 1), spec1(mt, xs, vs, q), m, W1 + "AddY", pc=r.pc)

    def vec1(c, it):
        n, mt, k = it
        xs, ys, vs, qs = knots("x", n), syms("y", n), syms("v", n), syms("q", k)
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, oa = al([z] * max(k, 1)), al([z] * max(k, 1))
        t = "table 1d vector of queries[%s,n=%d,%d queries]" % (MN[mt], n, k)
        pc = TRUE
        for v in qs if mt == 0 else []:
            pc = T.band(pc, T.bnot(outside(xs, v)))
        r = c.run(t, I, "vp_l1_vec", [mt, al(xs), n, al(ys + vs), al(qs or [z]), k, o, oa], pc=pc)
        if r:
            for i, v in enumerate(qs):
                c.eq("%s %d" % (t, i), r.rd(o, i), spec1(mt, xs, ys, v), m, W1 + "Eval", pc=r.pc)
                c.eq("%s all series %d" % (t, i), r.rd(oa, i), spec1(mt, xs, ys, v), m, W1 + "Eval", pc=r.pc)

    def vec2(c, it):
        nx, ny, k = it
        xs, ys = knots("x", nx), knots("y", ny)
        d = [[sym("d%d_%d" % (i, j)) for j in range(ny)] for i in range(nx)]
        qs = [(sym("qx%d" % i), sym("qy%d" % i)) for i in range(k)]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o = al([z] * max(k, 1))
        t = "table 2d list of points[%dx%d,%d points]" % it
        pc = TRUE
        for a, b in qs:
            pc = T.band(pc, T.bnot(T.bor(outside(xs, a), outside(ys, b))))
        r = c.run(t, I, "vp_l2_vec", [al(xs), nx, al(ys), ny, al(sum(d, [])), al([v for p in qs for v in p] or [z]), k, o], pc=pc)
        if r:
            for i, (a, b) in enumerate(qs):
                c.eq("%s %d" % (t, i), r.rd(o, i), spec2(xs, ys, d, a, b), m, W2 + "Eval", pc=r.pc)

    many = [tuple(range(20)), tuple(range(39, -1, -1))]
    work = [(t1, (S, mt, 2)) for S in many for mt in range(3)] + [(t2, (S, 2, 2)) for S in many[:1]]
    work += [(t1, (S, mt, 3)) for S in sets for mt in range(3)] + [(t1, ((0,), mt, n)) for mt in range(3) for n in (2, 5)]
    work += [(dup1, (S, mt, dp)) for S in ((0,), (0, 1), (2, 0, 3)) for mt in range(3) for dp in range(len(S))]
    work += [(unk1, (S, u, f)) for S, u in (((), 0), ((), 2), ((0,), 1), ((1,), 0), ((0,), 2), ((0, 1), 6), ((3,), 5), ((1,), 5)) for f in range(4)]
    work += [(cplx, (S, mt)) for S in ((0,), (0, 1), (3, 2, 5)) for mt in range(3)]
    work += [(t2, (S, a, b)) for S in sets for a, b in (((2, 2), (2, 3), (3, 2)) if len(S) < 3 else ((2, 3),))]
    work += [(d2, (S, "dup", dp)) for S in ((0,), (0, 1), (2, 0, 3)) for dp in range(len(S))]
    work += [(d2, (S, 0, 0)) for S in ((0,), (0, 1), (2, 0, 3))] + [(d2, (S, 1, k)) for S in ((0,), (0, 1), (2, 0, 3)) for k in (1, 3, 6)]
    work += [(unk2, (S, u, f)) for S, u in (((), 0), ((), 2), ((0,), 1), ((1,), 0), ((0,), 2), ((0, 1), 6)) for f in range(3)]
    work += [(len1, (n, k, mt)) for n, k in ((2, 3), (3, 2), (3, 0)) for mt in range(3)]
    work += [(setx1, (n, n2, mt, b)) for n, n2 in ((2, 2), (2, 3), (3, 2)) for mt in range(3) for b in (0, 1)] + [(setx2, s) for s in ((2, 2, 2, 2), (2, 3, 3, 2), (3, 2, 2, 2))]
    work += [(fail1, (n, mt, b)) for n in (2, 3) for mt in range(3) for b in (0, 1)]
    work += [(vec1, (2, mt, k)) for mt in range(3) for k in (0, 1, 3)] + [(vec1, (3, mt, 2)) for mt in range(3)]
    work += [(vec2, a) for a in ((2, 2, 0), (2, 2, 3), (2, 3, 2), (3, 2, 1))]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
