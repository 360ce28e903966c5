import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import random, math


def sq(v):
    r = fconst(0)
    for x in v:
        r = r + x * x
    return r


def absf(x):
    return ite(lt(x, 0), -x, x)


def mx(v):
    r = v[0]
    for x in v[1:]:
        r = ite(gt(x, r), x, r)
    return r


def mn(a, b):
    return ite(lt(a, b), a, b)


def approx(a, b, e):
    """|a-b| <= e min(|a|,|b|), Frobenius norms"""
    d = sq([x - y for x, y in zip(a, b)])
    return T.bite(lt(sq(b), sq(a)), le(d, e * e * sq(b)), le(d, e * e * sq(a)))


def flag(v):
    """the condition under which a 0/1 result is 1"""
    if isinstance(v, FNode):
        return T.fcmp("gt", v, fconst(0.5))
    raise Undecided("not a flag: %r" % (v,))


def check(c):
    c.rule = ("abstract interpretation of the vector classes (Eigen included) on symbolic components: every component of every result must equal its definition on all feasible regions, predicates must coincide with their "
              "defining inequality, operands must be left unchanged")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding; no overflow", "sizes 2, 3, 6 and dynamic sizes 1 to 9 (sorting: all orders up to 4 elements, sampled orders of 5 to 40)"]
    m = c.unit("vecmat.cpp")
    z = fconst(0)
    eps = sym("eps", "pos")

    def fixed(c, it):
        n, mode, sg = it
        W = "Vector%dd.h " % n
        I = c.interp(m)
        a, b = syms("a", n), syms("b", n)
        if sg is not None:
            a = [p if s else -p for s, p in zip(sg, syms("p", n, "pos"))]
        al = lambda v: I.alloc_array(I.st0, v)
        o = al([z] * 20)
        t = "Vector%dd mode %d" % (n, mode)
        names = {0: "default constructor", 1: "constructor", 2: "at const", 3: "at", 4: "SetNull", 5: "Set", 6: "infNorm", 7: "IsEqual", 8: "IsEqual default", 9: "from expression", 10: "assign expression", 11: "copy", 12: "linear combination", 13: "dot and norms"}
        t = "Vector%dd %s%s" % (n, names[mode], "" if sg is None else " signs " + "".join("-+"[s] for s in sg))
        r = c.run(t, I, "vp_v%d" % n, [mode, al(a), al(b), eps, o])
        if not r:
            return
        g = lambda i: r.rd(o, i)
        want = {0: [0] * n, 1: a, 2: a, 3: b, 4: [0] * n, 5: b, 9: [x + 2 * y for x, y in zip(a, b)], 10: [x - y for x, y in zip(a, b)] + a, 11: a + a,
                12: [3 * x + y for x, y in zip(a, b)] + [4 * x - y for x, y in zip(a, b)]}
        if mode in want:
            for i, v in enumerate(want[mode]):
                c.eq("%s [%d]" % (t, i), g(i), v, m, W + names[mode], pc=r.pc)
        if mode == 6:
            c.eq(t, g(0), mx([absf(x) for x in a]), m, W + "infNorm", pc=r.pc)
        if mode in (7, 8):
            c.cond_eq(t, flag(g(0)), approx(a, b, eps if mode == 7 else fconst(1e-12)), W + "IsEqual")
        if mode in (6, 7, 8):
            for i, v in enumerate(b if mode == 8 else a):
                c.eq("%s leaves the operand [%d]" % (t, i), g(1 + i), v, m, W + names[mode], pc=r.pc)
        if mode == 13:
            d = z
            for x, y in zip(a, b):
                d = d + x * y
            c.eq(t + " dot", g(0), d, m, W, pc=r.pc)
            c.eq(t + " norm", g(1), sqrt(sq(a)), m, W, pc=r.pc)
            c.eq(t + " squaredNorm", g(2), sq(a), m, W, pc=r.pc)

    def extra(c, it):
        n, mode = it
        W = "Vector%dd.h " % n
        I = c.interp(m)
        a, b = syms("a", n), syms("b", n)
        al = lambda v: I.alloc_array(I.st0, v)
        o = al([z] * 40)
        nm = ["Normalize", "IsUnit", "inner", "outer", "outer with itself", "cross", "projected angles"][mode]
        t = "Vector%dd %s" % (n, nm)
        pc = TRUE
        if mode == 0:
            pc = gt(sq(a), 0)
        r = c.run(t, I, "vp_v%dx" % n, [mode, al(a), al(b), o], pc=pc)
        if not r:
            return
        g = lambda i: r.rd(o, i)
        if mode == 0:
            for i in range(n):
                c.eq("%s [%d]" % (t, i), g(i), a[i] / sqrt(sq(a)), m, W + nm, pc=r.pc)
        if mode == 1:
            d = sqrt(sq(a)) - 1
            tol = T.fcmp("le", absf(d), fconst(1e-8) + fconst(1e-5))
            c.cond_eq(t, flag(g(0)), tol, W + nm)
        if mode == 2:
            d = z
            for x, y in zip(a, b):
                d = d + x * y
            c.eq(t, g(0), d, m, W + nm, pc=r.pc)
        if mode in (3, 4):
            w = b if mode == 3 else a
            for i in range(n):
                for j in range(n):
                    c.eq("%s (%d,%d)" % (t, i, j), g(i * n + j), a[i] * w[j], m, W + nm, pc=r.pc)
        if mode == 5:
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                c.eq("%s [%d]" % (t, i), g(i), a[j] * b[k] - a[k] * b[j], m, W + nm, pc=r.pc)
        if mode == 6:
            for i, (p, q) in enumerate(((2, 1), (0, 2), (1, 0))):
                ang = fn("atan2", a[p], a[q])
                c.eq("%s around %s" % (t, "XYZ"[i]), g(i), ang, m, W + nm, pc=r.pc)
                c.eq("%s around %s, degrees" % (t, "XYZ"[i]), g(3 + i), ang * (180 / math.pi), m, W + nm, pc=r.pc)

    def flt(c, n):
        I = c.interp(m)
        a = syms("a", n)
        o = I.alloc_array(I.st0, [z, z], 4)
        r = c.run("Vector%df" % n, I, "vp_vf", [n, I.alloc_array(I.st0, a, 4), o])
        if r:
            c.eq("Vector%dd<float> infNorm" % n, unfloat(r.rd(o, 0, "f", 4)), mx([absf(x) for x in a]), m, "Vector%dd.h infNorm" % n, pc=r.pc, tol=1e-6)
            if n != 2:
                c.eq("Vector%dd<float> inner" % n, unfloat(r.rd(o, 1, "f", 4)), sq(a), m, "Vector%dd.h inner" % n, pc=r.pc, tol=1e-6)

    VNN = {0: "size constructor", 1: "default constructor", 2: "at const", 3: "at", 4: "SetNull", 5: "SetOnes", 6: "infNorm", 7: "IsEqual", 8: "IsEqual default", 9: "Eigen expressions", 13: "Reverse", 14: "GetMatrixSquare",
           15: "GetMatrixSquare (free)", 16: "GetDiagonalMatrix", 17: "GetDiagonalMatrix (free)", 18: "Transpose (free)", 19: "copy", 20: "dot and norms"}

    def dyn(c, it):
        n, mode, sg = it
        W = "VectorN.h " + VNN[mode]
        I = c.interp(m)
        a, b = syms("a", n), syms("b", n)
        if sg is not None:
            a = [p if s else -p for s, p in zip(sg, syms("p", n, "pos"))]
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o = al([z] * (n * n + 2 * n + 3))
        sh = al([0, 0], 4)
        t = "VectorN %s[%d%s]" % (VNN[mode], n, "" if sg is None else ", signs " + "".join("-+"[s] for s in sg))
        r = c.run(t, I, "vp_vn", [mode, al(a), al(b), n, eps, o, sh])
        if not r:
            return
        g = lambda i: r.rd(o, i)
        dims = lambda: (r.rd(sh, 0, "i32", 4), r.rd(sh, 1, "i32", 4))
        want = {2: a, 3: b, 4: [0] * n, 5: [1] * n, 9: [x + 2 * y for x, y in zip(a, b)] + [x - y for x, y in zip(a, b)], 13: a[::-1], 18: a, 19: a + a}
        if mode in (0, 4, 5, 9, 19):
            c.require(t + " size", r.ret == n, W, "size %r instead of %d" % (r.ret, n))
        if mode == 1:
            c.require(t, r.ret == 0, W, "an empty vector has %r elements" % (r.ret,))
        if mode in (14, 15, 16, 17):
            c.require(t + " shape", dims() == (n, n), W, "shape %r" % (dims(),))
        if mode == 18:
            c.require(t + " shape", dims() == (1, n), W, "shape %r" % (dims(),))
        for i, v in enumerate(want.get(mode, [])):
            c.eq("%s [%d]" % (t, i), g(i), v, m, W, pc=r.pc)
        if mode == 6:
            c.eq(t, g(0), mx([absf(x) for x in a]), m, W, pc=r.pc)
        if mode in (7, 8):
            c.cond_eq(t, flag(g(0)), approx(a, b, eps if mode == 7 else fconst(1e-12)), W)
        if mode in (14, 15, 16, 17):
            for i in range(n):
                for j in range(n):
                    c.eq("%s (%d,%d)" % (t, i, j), g(i * n + j), a[i] * a[j] if mode < 16 else a[i] if i == j else 0, m, W, pc=r.pc)
        if mode == 20:
            d = z
            for x, y in zip(a, b):
                d = d + x * y
            c.eq(t + " dot", g(0), d, m, W, pc=r.pc)
            c.eq(t + " norm", g(1), sqrt(sq(a)), m, W, pc=r.pc)
            c.eq(t + " squaredNorm", g(2), sq(a), m, W, pc=r.pc)

    def sorted_spec(a):
        """order statistics by a sorting network of min/max"""
        a = list(a)
        for i in range(len(a)):
            for j in range(len(a) - 1 - i):
                x, y = a[j], a[j + 1]
                a[j], a[j + 1] = ite(le(x, y), x, y), ite(le(x, y), y, x)
        return a

    def sort(c, it):
        n, mode, perm, ties = it
        W = "VectorN.h Sort"
        I = c.interp(m)
        if perm is None:
            a = syms("a", n)
            want = sorted_spec(a)
        else:
            k = [sym("k0")]
            for i in range(1, n):
                k.append(k[-1] + sym("d%d" % i, "pos") if i % 7 != 5 or not ties else k[-1])
            a = [k[i] for i in perm]
            want = k
        if mode == 12:
            want = want[::-1]
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o = al([z] * n)
        t = "VectorN Sort[%d,%s%s]" % (n, {10: "default", 11: "ascending", 12: "descending"}[mode], "" if perm is None else (",ties," if ties else ",") + hashlib.md5(str(perm).encode()).hexdigest()[:4])
        r = c.run(t, I, "vp_vn", [mode, al(a), al([z] * n), n, eps, o, al([0, 0], 4)])
        if r:
            for i in range(n):
                c.eq("%s [%d]" % (t, i), r.rd(o, i), want[i], m, W, pc=r.pc)

    pats = lambda n: [[1] * n, [0] * n, [i % 2 for i in range(n)]] + [[int(i != k) for i in range(n)] for k in range(n)]
    work = [(fixed, (n, k, None)) for n in (2, 3, 6) for k in range(14) if (n, k) != (6, 6)] + [(fixed, (6, 6, p)) for p in pats(6)]
    work += [(extra, (3, k)) for k in range(7)] + [(extra, (6, k)) for k in (2, 3, 4)] + [(flt, n) for n in (2, 3)]
    sizes = [1, 2, 3, 4, 5, 8, 9]
    work += [(dyn, (n, k, None)) for n in sizes for k in sorted(VNN) if not (k == 6 and n > 3)] + [(dyn, (n, 6, p)) for n in (4, 5, 6) for p in pats(n)]
    work += [(dyn, (0, k, None)) for k in (0, 1, 4, 13)]
    rnd = random.Random(1)
    perms = []
    for n in (5, 8, 16, 17, 24, 40) if not c.thorough else (5, 6, 7, 8, 12, 15, 16, 17, 18, 24, 33, 40):
        p = list(range(n))
        perms += [p[:], p[::-1], p[n // 2:] + p[:n // 2]]
        for _ in range(2):
            rnd.shuffle(p)
            perms.append(p[:])
    work += [(sort, (n, k, None, False)) for n in (1, 2, 3, 4) for k in (10, 11, 12)] + [(sort, (len(p), k, p, tie)) for p in perms for k in (11, 12) for tie in (False, True)]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
    ex = [n for n in c.cutoffs(1, 40) if n not in sizes][:8]
    c.extra_cov["sizes next to code constants"] = ex
    c.pmap(lambda c, it: it[0](c, it[1]), [(dyn, (n, k, None)) for n in ex for k in (2, 3, 4, 5, 13, 18, 16)])
