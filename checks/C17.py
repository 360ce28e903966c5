import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
from C16 import sq, absf, approx, flag


def check(c):
    c.rule = ("abstract interpretation of the matrix classes (Eigen included) on symbolic elements: every element of every result must equal its definition on all feasible regions, predicates must coincide with their "
              "defining inequalities, by-copy forms must leave their operand unchanged")
    c.level = "proof"
    c.floor = 800
    c.assumptions = ["real arithmetic up to rounding; no overflow", "3x3, 6x6 and general shapes 1x1 to 4x5"]
    m = c.unit("vecmat.cpp")
    z = fconst(0)
    eps = sym("eps", "pos")
    NM = ["at const", "at", "SetIdentity", "SetNull", "GetColumn", "GetRow", "GetDiag", "Transpose", "Transpose (free)", "MakeSymmetricFromUpper", "MakeSymmetricFromLower", "IsSymmetric", "IsIdentity", "IsSquare", "IsOrthogonal",
          "IsEqual", "IsEqual default", "Inverse", "GetInverse", "copy", "expressions", "product", "self assignment"]
    FILE = {"33": "Matrix33.h ", "66": "Matrix66.h ", "n": "Matrix.h "}

    def run(c, kind, R, C, mode, i=0, A_=None, B_=None, pc=TRUE, allow=()):
        I = c.interp(m)
        a = A_ or [sym("a%d_%d" % (p, q)) for p in range(R) for q in range(C)]
        b = B_ or [sym("b%d_%d" % (p, q)) for p in range(R) for q in range(C)]
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        o, sh = al([z] * (2 * R * C + 4)), al([99, 99], 4)
        nm = {"33": "Matrix33", "66": "Matrix66", "n": "MatrixMN[%dx%d]" % (R, C)}[kind]
        t = "%s %s" % (nm, NM[mode]) + (" %d" % i if mode in (4, 5) else "")
        args = [mode, al(a), al(b)] + ([] if kind != "n" else [R, C]) + [i, eps, o, sh]
        r = c.run(t, I, "vp_m" + kind, args, pc=pc, allow=allow)
        return t, r, a, b, o, sh

    def one(c, it):
        kind, R, C, mode, i = it
        W = FILE[kind] + NM[mode]
        t, r, a, b, o, sh = run(c, kind, R, C, mode, i)
        if not r:
            return
        at = lambda M, p, q: M[p * C + q]
        idx = [(p, q) for p in range(R) for q in range(C)]
        want, shape = None, None
        tr = [at(a, p, q) for q in range(C) for p in range(R)]
        if mode == 0:
            want, shape = a, (R, C)
        elif mode == 1:
            want = b
        elif mode == 2:
            want, shape = [1 if p == q else 0 for p, q in idx], (R, C)
        elif mode == 3:
            want, shape = [0] * (R * C), (R, C)
        elif mode == 4:
            want, shape = [at(a, p, i) for p in range(R)], (R, 1)
        elif mode == 5:
            want, shape = [at(a, i, q) for q in range(C)], (1, C)
        elif mode == 6:
            want, shape = [at(a, p, p) for p in range(min(R, C))], (min(R, C), 1)
        elif mode == 7:
            want, shape = tr, (C, R)
        elif mode == 8:
            want, shape = tr + a, (C, R)
        elif mode == 9:
            want, shape = [at(a, min(p, q), max(p, q)) for p, q in idx] + a, (R, C)
        elif mode == 10:
            want, shape = [at(a, max(p, q), min(p, q)) for p, q in idx] + a, (R, C)
        elif mode == 13:
            want = [1 if R == C else 0]
        elif mode == 19:
            want, shape = a + a, (R, C)
        elif mode == 20:
            want, shape = [2 * x - y for x, y in zip(a, b)] + [x + y for x, y in zip(a, b)], (R, C)
        elif mode == 21:
            want = []
            for p, q in idx:
                s = z
                for k in range(C):
                    s = s + at(a, p, k) * at(b, k, q)
                want.append(s)
            shape = (R, C)
        elif mode == 22:
            want, shape = a, (R, C)
        if shape is not None:
            got = (r.rd(sh, 0, "i32", 4), r.rd(sh, 1, "i32", 4))
            c.require(t + " shape", got == shape, W, "shape %r instead of %r" % (got, shape))
        if want is not None:
            for k, w in enumerate(want):
                c.eq("%s [%d]" % (t, k), r.rd(o, k), w, m, W, pc=r.pc)
            return
        f = flag(r.rd(o, 0))
        if mode in (11, 14) and R != C:
            c.cond_eq(t + " of a non-square matrix", f, FALSE, W)
        elif mode == 11:
            c.cond_eq(t, f, approx(a, [at(a, q, p) for p, q in idx], fconst(1e-12)), W)
        elif mode == 12:
            w = TRUE
            e = fconst(1e-12)
            for p, q in idx:
                x = at(a, p, q)
                w = T.band(w, T.band(le(absf(x - 1), e), le(absf(x - 1), e * absf(x))) if p == q else le(absf(x), e))
            c.cond_eq(t, f, w, W)
        elif mode == 15:
            c.cond_eq(t, f, approx(a, b, eps), W)
        elif mode == 16:
            c.cond_eq(t, f, approx(a, b, fconst(1e-12)), W)

    def ortho(c, it):
        """the answer follows the Gram matrix of the columns: exact orthogonal families accepted, unit-determinant or row-scaled families refused"""
        kind, n, variant = it
        W = FILE[kind] + "IsOrthogonal"
        cs, sn = sym("cos_t"), sym("sin_t")
        th = sym("t")
        co, si = cos(th), sin(th)
        M = [[fconst(1 if p == q else 0) for q in range(n)] for p in range(n)]
        k = sym("k", "pos")
        if variant[0] == "rot":
            p, q = variant[1:]
            M[p][p], M[p][q], M[q][p], M[q][q] = co, -si, si, co
            want = TRUE
        elif variant[0] == "perm":
            M = M[1:] + M[:1]
            want = TRUE
        elif variant[0] == "refl":
            M[variant[1]][variant[1]] = fconst(-1)
            want = TRUE
        elif variant[0] == "shear":
            M[variant[1]][variant[2]] = k + 0.1
            want = FALSE
        elif variant[0] == "scale":
            M[variant[1]][variant[1]] = 1.1 + k
            want = FALSE
        elif variant[0] == "det1":
            M[0][0], M[1][1] = fconst(2), fconst(0.5)
            want = FALSE
        else:
            M = [[fconst(0)] * n for _ in range(n)]
            want = FALSE
        t, r, *_, o, sh = run(c, kind, n, n, 14, 0, A_=[x for row in M for x in row])
        t += " %s" % (variant,)
        if r:
            c.cond_eq(t, flag(r.rd(o, 0)), want, W)

    def preds(c, it):
        """specific families: identity and symmetry"""
        kind, n, what, p, q = it
        k = sym("k", "pos")
        if what == "id":
            M = [[fconst(1 if i == j else 0) for j in range(n)] for i in range(n)]
            want = TRUE
            if p is not None:
                M[p][q] = M[p][q] + k + 1e-3
                want = FALSE
            mode = 12
        else:
            S = [[sym("s%d_%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
            M, want, mode = S, TRUE, 11
            if p is not None:
                M = [[fconst(0)] * n for i in range(n)]
                M[p][q] = k
                want = FALSE
        t, r, *_, o, sh = run(c, kind, n, n, mode, 0, A_=[x for row in M for x in row])
        t += " %s %s" % ("exact" if p is None else "broken at (%d,%d)" % (p, q), what)
        if r:
            c.cond_eq(t, flag(r.rd(o, 0)), want, FILE[kind] + NM[mode])

    def inverse(c, it):
        kind, n, mode, pq = it
        W = FILE[kind] + NM[mode]
        a = [[sym("a%d_%d" % (p, q)) for q in range(n)] for p in range(n)]
        if pq is not None:
            # a diagonal of arbitrary positive values and one arbitrary element off it
            a = [[sym("d%d" % p, "pos") if p == q else sym("e") if (p, q) == pq else fconst(0) for q in range(n)] for p in range(n)]
        flat = [x for row in a for x in row]

        def det(M):
            if len(M) == 1:
                return M[0][0]
            s = z
            for j in range(len(M)):
                x = M[0][j]
                if isinstance(x, FNode) and x.op == "const" and x.args[0] == 0:
                    continue
                mm = det([row[:j] + row[j + 1:] for row in M[1:]]) * x
                s = s + (mm if j % 2 == 0 else -mm)
            return s

        d = det(a) if pq is None else None
        pc = T.fcmp("ne", d, z) if d is not None else TRUE
        t, r, _, _, o, sh = run(c, kind, n, n, mode, 0, A_=flat, pc=pc)
        if pq is not None:
            t += " element %d,%d" % pq
        if not r:
            return
        X = [[r.rd(o, p * n + q) for q in range(n)] for p in range(n)]
        for p in range(n):
            for q in range(n):
                s = z
                for k in range(n):
                    s = s + a[p][k] * X[k][q]
                c.eq("%s A*X (%d,%d)" % (t, p, q), s, 1 if p == q else 0, m, W, pc=r.pc)
        if mode == 18:
            for k, v in enumerate(flat):
                c.eq("%s leaves the operand [%d]" % (t, k), r.rd(o, n * n + k), v, m, W, pc=r.pc)

    def products(c, it):
        what = it[0]
        I = c.interp(m)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        if what == "mv":
            _, kind, R, C = it
            a = [sym("a%d_%d" % (p, q)) for p in range(R) for q in range(C)]
            x = syms("x", C)
            o = al([z] * R)
            t = "matrix-vector product %s[%dx%d]" % (kind, R, C)
            r = c.run(t, I, "vp_mv" + kind, [al(a)] + ([R, C] if kind == "n" else []) + [al(x), o])
            if r:
                for p in range(R):
                    s = z
                    for q in range(C):
                        s = s + a[p * C + q] * x[q]
                    c.eq("%s [%d]" % (t, p), r.rd(o, p), s, m, FILE[kind] + "operator*", pc=r.pc)
        elif what == "mm":
            _, R, K, C = it
            a = [sym("a%d_%d" % (p, q)) for p in range(R) for q in range(K)]
            b = [sym("b%d_%d" % (p, q)) for p in range(K) for q in range(C)]
            o, sh = al([z] * (R * C)), al([0, 0], 4)
            t = "matrix product [%dx%d]*[%dx%d]" % (R, K, K, C)
            r = c.run(t, I, "vp_mmn", [al(a), R, K, al(b), C, o, sh])
            if r:
                for p in range(R):
                    for q in range(C):
                        s = z
                        for k in range(K):
                            s = s + a[p * K + k] * b[k * C + q]
                        c.eq("%s (%d,%d)" % (t, p, q), r.rd(o, p * C + q), s, m, "Matrix.h operator*", pc=r.pc)
        elif what == "dim":
            _, R, C = it
            sh = al([0, 0], 4)
            r = c.run("MatrixMN(%d,%d)" % (R, C), I, "vp_mn_dim", [R, C, sh])
            if r:
                g = (r.rd(sh, 0, "i32", 4), r.rd(sh, 1, "i32", 4))
                c.require("MatrixMN(%d,%d) shape" % (R, C), g == (R, C) and r.ret == 0, "Matrix.h constructor", "shape %r, empty size %r" % (g, r.ret))
        else:
            _, n = it
            a = [sym("a%d_%d" % (p, q)) for p in range(n) for q in range(n)]
            o = al([z])
            t = "MatrixMN[%dx%d] IsIdentity(eps)" % (n, n)
            r = c.run(t, I, "vp_mn_ideps", [al(a), n, n, eps, o])
            if r:
                w = TRUE
                for p in range(n):
                    for q in range(n):
                        x = a[p * n + q]
                        w = T.band(w, T.bite(lt(absf(x), 1), le(absf(x - 1), eps * absf(x)), le(absf(x - 1), eps)) if p == q else le(absf(x), eps))
                c.cond_eq(t, flag(r.rd(o, 0)), w, "Matrix.h IsIdentity")

    shapes = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (4, 5)]
    work = []
    for kind, R, C in [("33", 3, 3), ("66", 6, 6)] + [("n", r, q) for r, q in shapes]:
        for mode in (0, 1, 2, 3, 7, 8, 6, 13, 19, 20, 22):
            if not (mode in (6,) and False):
                work.append((one, (kind, R, C, mode, 0)))
        work += [(one, (kind, R, C, 4, i)) for i in range(C)] + [(one, (kind, R, C, 5, i)) for i in range(R)]
        if R == C:
            work += [(one, (kind, R, C, mode, 0)) for mode in (9, 10, 21)]
        else:
            work += [(one, (kind, R, C, mode, 0)) for mode in (11, 14)]
        if R * C <= 9:
            work += [(one, (kind, R, C, mode, 0)) for mode in (15, 16)]
            if R == C:
                work += [(one, (kind, R, C, 11, 0))]
        if R == C:
            n = R
            work += [(ortho, (kind, n, v)) for v in [("scale", i) for i in range(n)] + [("null",)] + [("refl", i) for i in range(n)]]
            if n > 1:
                work += [(ortho, (kind, n, v)) for v in [("rot", 0, 1), ("rot", n - 2, n - 1), ("rot", 0, n - 1), ("perm",), ("det1",), ("shear", 0, 1), ("shear", n - 1, 0), ("shear", 0, n - 1)]]
            work += [(preds, (kind, n, "id", None, None)), (preds, (kind, n, "sym", None, None))]
            work += [(preds, (kind, n, "id", p, q)) for p in range(n) for q in range(n)] + [(preds, (kind, n, "sym", p, q)) for p in range(n) for q in range(n) if p != q]
    work += [(inverse, (k, n, md, pq)) for k, n, pq in (("33", 3, None), ("n", 1, None), ("n", 2, None), ("n", 3, (0, 2)), ("n", 3, (1, 0)), ("n", 4, (3, 0)), ("n", 4, (1, 2)), ("n", 5, (0, 4)), ("n", 6, (2, 3)), ("66", 6, (0, 5)), ("66", 6, (4, 1)), ("66", 6, (2, 3))) for md in (17, 18)]
    work += [(products, x) for x in [("mv", "33", 3, 3), ("mv", "66", 6, 6), ("mv", "n", 2, 3), ("mv", "n", 1, 4), ("mv", "n", 5, 2), ("mm", 2, 3, 4), ("mm", 1, 2, 3), ("mm", 3, 1, 2), ("mm", 3, 3, 1), ("dim", 3, 2), ("dim", 1, 5), ("dim", 0, 0), ("id", 1), ("id", 2)]]
    for R, C in ((7, 7), (9, 9), (8, 10), (10, 3)):
        work += [(one, ("n", R, C, mode, 0)) for mode in (0, 1, 2, 3, 7, 8, 6, 13, 19, 20, 22)] + [(one, ("n", R, C, 4, i)) for i in (0, C // 2, C - 1)] + [(one, ("n", R, C, 5, i)) for i in (0, R // 2, R - 1)]
        if R == C:
            work += [(one, ("n", R, C, mode, 0)) for mode in (9, 10, 21)]
    work += [(products, x) for x in (("dim", 0, 70000), ("dim", 70000, 0), ("mv", "n", 9, 8), ("mm", 9, 2, 2), ("mm", 2, 9, 2), ("mm", 2, 2, 9))]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
