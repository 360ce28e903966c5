import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
from C16 import flag

FILE = {"33": "Matrix33.h ", "66": "Matrix66.h ", "n": "Matrix.h "}


def mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def ident(n):
    return [[fconst(1 if i == j else 0) for j in range(n)] for i in range(n)]


def reflect(F, tau, k, c):
    """applies the k-th Householder reflector I - tau v v^T, v = (1, F[k+1:,k]), to the rows k.. of c"""
    v = [fconst(1)] + [F[i][k] for i in range(k + 1, len(F))]
    for j in range(len(c[0])):
        s = sum((v[i] * c[k + i][j] for i in range(1, len(v))), c[k][j])
        for i in range(len(v)):
            c[k + i][j] = c[k + i][j] - tau[k] * v[i] * s


def Qof(F, tau, K):
    q = ident(len(F))
    for k in reversed(range(K)):
        reflect(F, tau, k, q)
    return q


def check(c):
    c.rule = ("abstract interpretation of the solver and decomposition wrappers with the numerical kernels of Eigen (SVD, eigenvalue, Householder, LU and Cholesky factorisations) replaced by their contract: arbitrary symbolic factors of the "
              "matrix the kernel is given. The matrix handed over and every element of every result must follow from those factors for all values")
    c.level = "proof"
    c.floor = 400
    c.assumptions = ["the factorisation kernels of Eigen satisfy their contract (their factors multiply to the matrix they were given)", "real arithmetic up to rounding", "3x3, 6x6 and general shapes up to 6x6"]
    m = c.unit("decomp.cpp", extra=["-fno-access-control"])
    z = fconst(0)

    def setup(given, idx=None):
        I = c_interp[0](m)
        g = [z] * 168
        off = {"U": 0, "V": 36, "S": 72, "ER": 78, "EI": 84, "F": 90, "tau": 126, "L2": 132}
        for k, v in given.items():
            o = off[k]
            if isinstance(v[0], list):
                for i, row in enumerate(v):
                    for j, x in enumerate(row):
                        g[o + i * 6 + j] = x
            else:
                for i, x in enumerate(v):
                    g[o + i] = x
        ix = [0] * 20
        for k, v in (idx or {}).items():
            for i, x in enumerate(v):
                ix[k + i] = x
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        return I, al, [al(g), al(ix, 4), al([z] * 240)], al([z] * 130), al([99] * 8, 4)

    c_interp = [c.interp]

    def shapes(r, sh, k):
        return [(r.rd(sh, 2 * i, "i32", 4), r.rd(sh, 2 * i + 1, "i32", 4)) for i in range(k)]

    def mats(c, t, r, o, sh, want, W):
        """the output matrices, after checking their shapes"""
        got = shapes(r, sh, len(want))
        if not all(g in w if isinstance(w, list) else g == w for g, w in zip(got, want)):
            c.require(t + " shape", False, W, "shapes %r instead of %r" % (got, want))
            return None
        c.require(t + " shape", True, W, "")
        out, k = [], 0
        for R, C in got:
            out.append([[r.rd(o, k + i * C + j) for j in range(C)] for i in range(R)])
            k += R * C
        return out

    def calls(c, t, r, inp, n, W):
        """what the kernels were given: (kernel, matrix)"""
        n = r.ret
        if not isinstance(n, int):
            lv = leaves(n)
            if not lv or not all(isinstance(x, int) for x in lv):
                c.und(t, "the number of factorisations depends on the values")
                return None
            n = min(lv)
        out = []
        for q in range(n):
            h = [r.rd(inp, 40 * q + j) for j in range(3)]
            h = [int(x.args[0]) if isinstance(x, FNode) and x.op == "const" else None for x in h]
            if None in h:
                c.und(t, "the factorisation used depends on the values")
                return None
            out.append((h[0], [[r.rd(inp, 40 * q + 3 + i * h[2] + j) for j in range(h[2])] for i in range(h[1])], 40 * q))
        if not out:
            c.und(t, "no factorisation kernel is used")
            return None
        return out

    def leaves(v):
        if isinstance(v, int):
            return [v]
        if isinstance(v, A.ITE):
            return leaves(v.a) + leaves(v.b)
        return [None]

    def meq(c, t, A, B, W, pc, only=None):
        if len(A) != len(B) or len(A[0]) != len(B[0]):
            c.require(t, False, W, "%dx%d instead of %dx%d" % (len(A), len(A[0]), len(B), len(B[0])))
            return
        for i in range(len(A)):
            for j in range(len(A[0])):
                if only is None or only(i, j):
                    c.eq("%s (%d,%d)" % (t, i, j), A[i][j], B[i][j], m, W, pc=pc)

    def generic(R, C, p="a"):
        return [[sym("%s%d_%d" % (p, i, j)) for j in range(C)] for i in range(R)]

    def flat(A):
        return [x for r in A for x in r]

    def name(kind, R, C):
        return {"33": "Matrix33", "66": "Matrix66", "n": "MatrixMN[%dx%d]" % (R, C)}[kind]

    def dims(kind, R, C):
        return [R, C] if kind == "n" else []

    def svd(c, it):
        kind, R, C, mode = it
        c_interp[0] = c.interp
        k = min(R, C)
        nm = ["GetSVDDecomposition", "GetPseudoInverse", "GetPseudoInverse", "Pinv", "Pinv", "Eigenvalues", "IsPositiveSemiDefinite", "IsPositiveSemiDefinite"][mode]
        W = FILE[kind] + nm
        t = "%s %s%s" % (name(kind, R, C), nm, " (default tolerance)" if mode in (2, 4, 7) else "")
        A = generic(R, C)
        U, V = generic(R, R, "u"), generic(C, C, "v")
        S = [sym("s%d" % i, "pos") for i in range(k)]
        ER, EI = syms("er", k), syms("ei", k)
        tol = sym("tol", "pos")
        I, al, G, o, sh = setup({"U": U, "V": V, "S": S, "ER": ER, "EI": EI})
        pc = TRUE
        if mode in (2, 4):
            tol_ = fconst(1e-6)
        elif mode == 7:
            tol_ = fconst(1e-7)
        else:
            tol_ = tol
        r = c.run(t, I, "vp_svd" + kind, [al(flat(A))] + dims(kind, R, C) + [mode, tol] + G + [o, sh], pc=pc)
        if not r:
            return
        if mode in (6, 7) and R != C:
            c.cond_eq(t + " of a non-square matrix", flag(r.rd(o, 0)), FALSE, W)
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        kern, X, _ = K[-1]
        if mode >= 5:
            if kern != 2:
                return c.und(t, "computed by another kernel")
            meq(c, t + ": eigenvalues of this matrix", X, A, W, r.pc)
            if mode == 5:
                got = shapes(r, sh, 1)[0]
                c.require(t + " shape", got[0] * got[1] == R, W, "shape %r" % (got,))
                for i in range(R):
                    c.eq("%s [%d] real" % (t, i), r.rd(o, 2 * i), ER[i], m, W, pc=r.pc)
                    c.eq("%s [%d] imaginary" % (t, i), r.rd(o, 2 * i + 1), EI[i], m, W, pc=r.pc)
            else:
                w = TRUE
                for e in ER:
                    w = T.band(w, gt(e, -tol_))
                c.cond_eq(t, flag(r.rd(o, 0)), w, W)
            return
        if kern != 1:
            return c.und(t, "computed by another kernel")
        swap = len(X) == C and R != C
        meq(c, t + ": factors of this matrix", tr(X) if swap else X, A, W, r.pc)
        if swap:
            U, V = V, U
        if mode == 0:
            out = mats(c, t, r, o, sh, [[(R, k), (R, R)], [(k, 1), (k, k), (R, C)], [(C, k), (C, C)]], W)
            if not out:
                return
            Uo, So, Vo = out
            meq(c, t + " U", [row[:k] for row in Uo], [row[:k] for row in U], W, r.pc)
            meq(c, t + " V", [row[:k] for row in Vo], [row[:k] for row in V], W, r.pc)
            if len(So[0]) == 1:
                meq(c, t + " singular values", So, [[s] for s in S], W, r.pc)
            else:
                meq(c, t + " singular values", So, [[S[i] if i == j else z for j in range(len(So[0]))] for i in range(len(So))], W, r.pc)
        else:
            out = mats(c, t, r, o, sh, [(C, R)], W)
            if not out:
                return
            inv = [ite(gt(s, tol_), 1 / s, z) for s in S]
            want = [[sum((V[i][q] * inv[q] * U[j][q] for q in range(1, k)), V[i][0] * inv[0] * U[j][0]) for j in range(R)] for i in range(C)]
            meq(c, t, out[0], want, W, r.pc)

    def lower(F, n, unit=False):
        return [[(fconst(1) if unit and i == j else F[i][j]) if i >= j else z for j in range(n)] for i in range(n)]

    def upper(F, R, C):
        return [[F[i][j] if i <= j else z for j in range(C)] for i in range(R)]

    def factors(R, C, dense=True, pos=False):
        """a factor matrix as the kernels store it; below and above the diagonal everything, or one element per column"""
        F = [[z] * C for _ in range(R)]
        for i in range(R):
            for j in range(C):
                keep = dense or i == j or (i > j and (i - j - 1) == j % max(1, R - j - 1)) or (i < j and (j - i - 1) == i % max(1, C - i - 1))
                if keep:
                    F[i][j] = sym("f%d_%d" % (i, j), "pos" if pos and i == j else None)
        return F

    def dec(c, it):
        kind, R, C, mode, var = it
        c_interp[0] = c.interp
        nm = ["GetLUDecomposition", "GetCholeskyDecomposition", "GetQRDecomposition", "GetFullQRDecomposition"][mode]
        W = FILE[kind] + nm
        t = "%s %s %s" % (name(kind, R, C), nm, var)
        A = generic(R, C)
        dense = R <= 3 or mode < 2
        F = factors(R, C, dense)
        tau = [sym("tau%d" % i, "pos") for i in range(min(R, C))]
        idx = {}
        refuse = False
        if mode == 0:
            idx = {0: var}
        if mode == 1:
            if R == C:
                A = [[sym("a%d_%d" % (max(i, j), min(i, j))) for j in range(C)] for i in range(R)]
            if var == "not positive":
                idx, refuse = {18: [1]}, True
            elif var == "not square":
                refuse = True
            elif var:
                A = ident(R)
                A[var[0]][var[1]] = A[var[0]][var[1]] + sym("e", "pos") + 1e-3
                refuse = True
        I, al, G, o, sh = setup({"F": F, "tau": tau}, idx)
        args = [al(flat(A))] + dims(kind, R, C) + [mode] + G + [o, sh]
        if refuse:
            c.refuse(t, I, "vp_dec" + kind, args, W)
            return
        r = c.run(t, I, "vp_dec" + kind, args)
        if not r:
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        if len(K) != 1 or K[0][0] != [4, 7, 3, 3][mode]:
            return c.und(t, "computed by another kernel")
        meq(c, t + ": factors of this matrix", K[0][1], A, W, r.pc, (lambda i, j: i >= j) if mode == 1 else None)
        if mode == 0:
            out = mats(c, t, r, o, sh, [(R, R), (R, R), (R, R)], W)
            if out:
                PA = [row[:] for row in A]
                for k, q in enumerate(var):
                    PA[k], PA[q] = PA[q], PA[k]
                meq(c, t + " P*A", mul(out[0], A), PA, W, r.pc)
                meq(c, t + " L", out[1], lower(F, R, True), W, r.pc)
                meq(c, t + " U", out[2], upper(F, R, R), W, r.pc)
        elif mode == 1:
            out = mats(c, t, r, o, sh, [(R, R)], W)
            if out:
                meq(c, t + " L", out[0], lower(F, R), W, r.pc)
        else:
            Q = Qof(F, tau, min(R, C))
            n = C if mode == 2 else R
            out = mats(c, t, r, o, sh, [(R, n), [(C, C), (R, C)] if mode == 3 else (C, C)], W)
            if out:
                meq(c, t + " Q", out[0], [row[:n] for row in Q], W, r.pc)
                meq(c, t + " R", out[1], upper(F, len(out[1]), C), W, r.pc)

    def nz(pc, row):
        for x in row:
            pc = T.band(pc, T.fcmp("ne", x, z))
        return pc

    def solve(c, it):
        kind, R, C, k, mode, p, q = it
        c_interp[0] = c.interp
        nm = ["LUSolver", "QRSolver", "LeastSquareSolver"][mode]
        W = FILE[kind] + nm
        t = "%s %s pivots %r %r, %d right-hand sides" % (name(kind, R, C), nm, p, q, k)
        A, b = generic(R, C), generic(R, k, "b")
        F = factors(R, C, R <= 3, True)
        n = min(R, C)
        tau = [sym("tau%d" % i, "pos") for i in range(n)]
        U, V = generic(R, R, "u"), generic(C, C, "v")
        S = [sym("s%d" % i, "pos") + 1 for i in range(n)]
        idx = {6: p, 12: q} if mode == 0 else {0: p, 12: q} if mode == 1 else {}
        # Eigen's triangular solvers skip the zero entries of the right-hand side; those regions are of measure zero and left to it
        pc = TRUE
        if mode < 2:
            w = [row[:] for row in b]
            if mode == 0:
                for i in range(R):
                    w[p[i]] = b[i][:]
                for i in range(R):
                    for j in range(i):
                        w[i] = [w[i][h] - F[i][j] * w[j][h] for h in range(k)]
                    pc = nz(pc, w[i])
            else:
                for i in range(n):
                    w[i], w[p[i]] = w[p[i]], w[i]
                    reflect(F, tau, i, w)
            for i in reversed(range(n)):
                for j in range(i + 1, n):
                    w[i] = [w[i][h] - F[i][j] * w[j][h] for h in range(k)]
                pc = nz(pc, w[i])
                w[i] = [x / F[i][i] for x in w[i]]
        I, al, G, o, sh = setup({"U": U, "V": V, "S": S, "F": F, "tau": tau, "L2": F}, idx)
        r = c.run(t, I, "vp_solve" + kind, [al(flat(A))] + (dims(kind, R, C)) + [al(flat(b))] + ([k] if kind == "n" else []) + [mode] + G + [o, sh], pc=pc)
        if not r:
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        if len(K) != 1 or K[0][0] != [5, 6, 1][mode]:
            return c.und(t, "computed by another kernel")
        meq(c, t + ": factors of this matrix", K[0][1], A, W, r.pc)
        out = mats(c, t, r, o, sh, [(C, k)], W)
        if not out:
            return
        x = out[0]
        if mode == 2:
            want = mul([[V[i][j] / S[j] for j in range(n)] for i in range(C)], mul(tr([row[:n] for row in U]), b))
            meq(c, t, x, want, W, r.pc)
            return
        y = [x[q[i]] for i in range(C)]
        if mode == 0:
            Pb = [None] * R
            for i in range(R):
                Pb[p[i]] = b[i]
            meq(c, t + " A*x", mul(lower(F, R, True), mul(upper(F, R, C), y)), Pb, W, r.pc)
        else:
            w = [row[:] for row in b]
            for i in range(n):
                w[i], w[p[i]] = w[p[i]], w[i]
                reflect(F, tau, i, w)
            meq(c, t + " A*x", mul(upper(F, n, C), y), w[:n], W, r.pc)

    def inverse(c, it):
        """inversion by a factorisation: the result is the inverse of the product of the factors"""
        kind, n, mode, p = it
        c_interp[0] = c.interp
        nm = "Inverse" if mode == 8 else "GetInverse"
        W = FILE[kind] + nm
        t = "%s %s pivots %r" % (name(kind, n, n), nm, p)
        A = generic(n, n)
        F = factors(n, n, False, True)
        U, V = generic(n, n, "u"), generic(n, n, "v")
        S = [sym("s%d" % i, "pos") for i in range(n)]
        I, al, G, o, sh = setup({"F": F, "U": U, "V": V, "S": S}, {0: p})
        r = c.run(t, I, "vp_svd" + kind, [al(flat(A))] + dims(kind, n, n) + [mode, z] + G + [o, sh])
        if not r:
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        if len(K) != 1 or K[0][0] not in (1, 4):
            return c.und(t, "computed by another kernel")
        meq(c, t + ": factors of this matrix", K[0][1], A, W, r.pc)
        out = mats(c, t, r, o, sh, [(n, n)], W)
        if not out:
            return
        if K[0][0] == 4:
            P = ident(n)
            for k, q in enumerate(p):
                P[k], P[q] = P[q], P[k]
            meq(c, t + " A*X", mul(lower(F, n, True), mul(upper(F, n, n), out[0])), P, W, r.pc)
        else:
            meq(c, t, out[0], mul([[V[i][q] / S[q] for q in range(n)] for i in range(n)], tr(U)), W, r.pc)

    def cholup(c, it):
        n, inpl = it
        c_interp[0] = c.interp
        nm = "InPlaceCholeskyUpdate" if inpl else "GetCholeskyUpdate"
        W = "Matrix.h " + nm
        t = "MatrixMN[%dx%d] %s" % (n, n, nm)
        A = [[sym("a%d_%d" % (max(i, j), min(i, j))) for j in range(n)] for i in range(n)]
        v, s = generic(n, 1, "v"), sym("sigma")
        F, L2 = factors(n, n), generic(n, n, "l")
        I, al, G, o, sh = setup({"F": F, "L2": L2})
        r = c.run(t, I, "vp_cholup", [al(flat(A)), n, al(flat(v)), s, inpl] + G + [o, sh])
        if not r:
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        low = lambda i, j: i >= j
        ks = [k[0] for k in K]
        if ks == [7, 8]:
            meq(c, t + ": factor of this matrix", K[0][1], A, W, r.pc, low)
            vv = flat(K[1][1])
            meq(c, t + ": update vector", [[x] for x in vv], v, W, r.pc)
            c.eq(t + ": update factor", r.rd(G[2], K[1][2] + 39), s, m, W, pc=r.pc)
            want = L2
        elif ks == [7]:
            meq(c, t + ": factor of the updated matrix", K[0][1], [[A[i][j] + s * v[i][0] * v[j][0] for j in range(n)] for i in range(n)], W, r.pc, low)
            want = F
        else:
            return c.und(t, "computed by another kernel")
        out = mats(c, t, r, o, sh, [(n, n)] + ([] if inpl else [(n, n)]), W)
        if out:
            meq(c, t + " L", out[0], lower(want, n), W, r.pc)
            if not inpl:
                meq(c, t + " leaves the operand", out[1], A, W, r.pc)

    def lsc(c, it):
        """constrained least squares on matrices given by their factors: constraint met, residual orthogonal to the feasible directions"""
        p, n, mm = it
        c_interp[0] = c.interp
        W = "Matrix.h LeastSquareSolverConstraint"
        t = "MatrixMN[%dx%d] LeastSquareSolverConstraint, %d constraints" % (mm, n, p)
        F = [[z] * p for _ in range(n)]
        tau = []
        for k in range(p):
            F[k][k] = sym("r%d" % k, "pos")
            for j in range(k):
                F[j][k] = sym("r%d_%d" % (j, k))
            w = sym("w%d" % k)
            F[k + 1 + (k % (n - k - 1))][k] = w
            tau.append(2 / (1 + w * w))
        Q = Qof(F, tau, p)
        R = upper(F, p, p)
        C = tr(mul([row[:p] for row in Q], R))
        # the factors of R^T, without pivoting
        LU = [[(R[j][i] / R[j][j]) if i > j else R[i][i] if i == j else z for j in range(p)] for i in range(p)]
        k = n - p
        ct, st = cos(sym("t")), sin(sym("t"))
        if k == 1:
            U, V = [[ct], [st]] + [[z]] * (mm - 2), [[fconst(1)]]
        else:
            cp, sp = cos(sym("q")), sin(sym("q"))
            U, V = [[ct, -st], [st, ct]] + [[z, z]] * (mm - 2), [[cp, -sp], [sp, cp]]
        S = [sym("s%d" % i, "pos") + 1 for i in range(k)]
        N = mul([[U[i][j] * S[j] for j in range(k)] for i in range(mm)], tr(V))
        al0 = generic(mm, p, "m")
        B = [al0[i] + N[i] for i in range(mm)]
        A = mul(B, tr(Q))
        b, d = generic(mm, 1, "b"), generic(p, 1, "d")
        I, al, G, o, sh = setup({"U": U, "V": V, "S": S, "F": F, "tau": tau, "L2": LU}, {6: list(range(p)), 12: list(range(p)), 0: list(range(p))})
        r = c.run(t, I, "vp_lsc", [al(flat(A)), mm, n, al(flat(b)), al(flat(C)), p, al(flat(d))] + G + [o, sh])
        if not r:
            return
        K = calls(c, t, r, G[2], 1, W)
        if K is None:
            return
        for kern, X, _ in K:
            if kern == 3:
                meq(c, t + ": factorised constraints", X, tr(C), W, r.pc)
            elif kern == 5:
                meq(c, t + ": triangular system", X, tr(R), W, r.pc)
            elif kern == 1:
                meq(c, t + ": reduced problem", X, N, W, r.pc)
            else:
                return c.und(t, "computed by another kernel")
        out = mats(c, t, r, o, sh, [(n, 1)], W)
        if not out:
            return
        x = out[0]
        meq(c, t + " C*x = d", mul(C, x), d, W, r.pc)
        res = mul(A, x)
        res = [[res[i][0] - b[i][0]] for i in range(mm)]
        meq(c, t + " residual orthogonal to the feasible directions", mul(tr(N), res), [[z]] * k, W, r.pc)

    thorough = c.tier == "thorough"
    work = []
    shp = [("33", 3, 3), ("66", 6, 6)] + [("n", r, q) for r, q in [(1, 1), (2, 2), (3, 3), (3, 2), (2, 3), (4, 2), (1, 3), (3, 1), (5, 5), (6, 4), (4, 6), (6, 6)]]
    for kind, R, C in shp:
        work += [(svd, (kind, R, C, mode)) for mode in (0, 1, 2, 3, 4)]
        if R == C:
            work += [(svd, (kind, R, C, mode)) for mode in (5, 6, 7)]
            for tp in {1: [[0]], 2: [[0, 1], [1, 1]], 3: [[0, 1, 2], [1, 2, 2], [2, 1, 2], [2, 2, 2]], 5: [[1, 4, 2, 4, 4]], 6: [[0, 1, 2, 3, 4, 5], [3, 1, 5, 4, 5, 5], [1, 2, 3, 4, 5, 5]]}[R]:
                work.append((dec, (kind, R, C, 0, tp)))
            work += [(dec, (kind, R, C, 1, v)) for v in ["", "not positive"] + ([(0, 1), (R - 1, 0), (R - 1, R - 2)] if R > 1 else [])]
            P = {1: [([0], [0])], 2: [([0, 1], [1, 0]), ([1, 0], [0, 1])], 3: [([0, 1, 2], [0, 1, 2]), ([1, 2, 0], [2, 0, 1])], 5: [([1, 2, 0, 4, 3], [4, 3, 2, 0, 1])], 6: [([1, 2, 0, 4, 5, 3], [5, 3, 4, 0, 2, 1])]}[R]
            for p, q in P:
                for k in ([1, 2] if kind == "n" and R < 5 else [1]):
                    work.append((solve, (kind, R, C, k, 0, p, q)))
                    work.append((solve, (kind, R, C, k, 1, [max(i, x) for i, x in enumerate(p)], q)))
            work += [(solve, (kind, R, C, k, 2, [], [])) for k in ([1, 2] if kind == "n" else [1])]
        else:
            work += [(svd, (kind, R, C, mode)) for mode in (6, 7)]
            work.append((dec, (kind, R, C, 1, "not square")))
            work += [(solve, (kind, R, C, k, 2, [], [])) for k in (1, 2)]
            if R > C and R < 5:
                work.append((solve, (kind, R, C, 1, 1, [min(i + 1, R - 1) for i in range(C)], list(reversed(range(C))))))
        if R >= C:
            work.append((dec, (kind, R, C, 2, "")))
            if kind == "n":
                work.append((dec, (kind, R, C, 3, "")))
    work += [(inverse, (kind, n, md, p)) for kind, n, p in (("66", 6, [0, 1, 2, 3, 4, 5]), ("66", 6, [3, 1, 5, 4, 5, 5]), ("n", 5, [1, 4, 2, 4, 4]), ("n", 6, [3, 1, 5, 4, 5, 5])) for md in (8, 9)]
    work += [(cholup, (n, i)) for n in (1, 2, 3, 5) for i in (0, 1)]
    work += [(lsc, x) for x in ((1, 2, 3), (2, 3, 4), (1, 3, 4))]
    c.pmap(lambda c, it: it[0](c, it[1]), work)
