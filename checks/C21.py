import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hdr_common import *
from interp_common import *
import itertools
from functools import reduce
from fractions import Fraction

UF = [(r"^vp_user\d$", "f"), (r"boost::math::cyl_neumann<", "bessel_Y"), (r"boost::math::cyl_bessel_j<", "bessel_J"), (r"boost::math::expint<", "expint")]


def check(c):
    c.rule = ("(1) syntax-tree query over every function of the library: each call ending the process has a constant status whose low byte is not zero, and each exception handler rethrows, ends the process or hands a value back to its caller; "
              "(2) abstract interpretation of each operation on its domain boundary: the set of arguments (sizes enumerated, values symbolic) on which it does not complete - assertion, exception, failure status - is exactly the set it must refuse")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["assertions are compiled in (the build of the repository does not define NDEBUG)", "lengths and orders up to the listed ones", "values are not NaN"]
    m = c.unit("err.cpp")
    ask = None if c.mem_only else ast_query(c)

    J = []      # (name, where, fn, mkargs, cond, pc, kinds)

    def R(name, where, fn, mk, cond=TRUE, pc=TRUE):
        J.append((name, where, fn, mk, cond, pc))

    K = lambda b: TRUE if b else FALSE
    # ---- scalars and enumerations
    for k in range(12):
        R("STRING2ANGLE[name %d]" % k, "Angles.h STRING2ANGLE", "vp_e_unit", lambda I, al, k=k: [k], K(k > 1))
    x = sym("x")
    for fn, nm in (("h0", "Struve_zero_order"), ("h1", "Struve_first_order"), ("h0d", "Struve_zero_order_derivative")):
        R(nm, "BoostFunctions.h " + nm, "vp_e_" + fn, lambda I, al: [x], lt(x, 0), T.band(lt(fconst(-50), x), lt(x, 50)))
    for fn, nm in (("ei", "Ei_approximation"), ("e1", "E1_approximation")):
        R(nm + "[0]", "BoostFunctions.h " + nm, "vp_e_" + fn, lambda I, al: [fconst(0)], TRUE)
        for v in (-40., -12., -3., -.5, .5, 3., 7., 30.):
            R("%s[%g]" % (nm, v), "BoostFunctions.h " + nm, "vp_e_" + fn, lambda I, al, v=v: [fconst(Fraction(v))], K(v < 0))
        R("%s[any negative]" % nm, "BoostFunctions.h " + nm, "vp_e_" + fn, lambda I, al: [x], TRUE, lt(x, 0))
    # ---- series
    for n in range(0, 23):
        if n in (0, 1, 2) or n > 18:
            R("Compute_bi order %d" % n, "ChebyshevSeries1d.h", "vp_e_b1", lambda I, al, n=n: [n], K(n > 18))
    for o in ((0, 0), (1, 0), (0, 2), (1, 2), (19, 0), (0, 19), (19, 1), (1, 19), (19, 19), (20, 2), (2, 23)):
        R("Compute_bij orders %d %d" % o, "ChebyshevSeries2d.h", "vp_e_b2", lambda I, al, o=o: list(o), K(max(o) > 18))
    for o in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (19, 0, 0), (0, 19, 0), (0, 0, 19), (19, 1, 0), (1, 0, 22)):
        R("Compute_bijk orders %d %d %d" % o, "ChebyshevSeries3d.h", "vp_e_b3", lambda I, al, o=o: list(o), K(max(o) > 18))
    # ---- integration
    for n in (0, 1, 2, 3, 5):
        R("Trapz of %d samples" % n, "Integration1d.h Trapz", "vp_e_tz", lambda I, al, n=n: [al(syms("y", 6)), n], K(n < 2))
        R("Trapz of %d samples, step" % n, "Integration1d.h Trapz", "vp_e_tzd", lambda I, al, n=n: [al(syms("y", 6)), n], K(n < 2))
        for k in (0, 1, 2, 3, 5):
            R("Trapz of %d samples, %d abscissae" % (n, k), "Integration1d.h Trapz", "vp_e_tzx", lambda I, al, n=n, k=k: [al(syms("x", 6)), k, al(syms("y", 6)), n], K(n < 2 or k != n))
        for meth in range(4):
            R("Integrate1d of a function, %d points, method change %d" % (n, meth), "Integration1d.h Integrate1d", "vp_e_if", lambda I, al, n=n, meth=meth: [n, meth], K(n < 2 or meth > 0))
            for k in (0, 1, 2, 3, 5):
                R("Integrate1d of %d samples, %d points, method change %d" % (k, n, meth), "Integration1d.h Integrate1d", "vp_e_iv", lambda I, al, n=n, k=k, meth=meth: [al(syms("y", 6)), k, n, meth], K(n < 2 or k != n or meth > 0))
    for o in list(range(-3, 14)) + [127, 255, 256, 257, 264, 1000, 65537, 2 ** 31 - 1, -2 ** 31]:
        R("triangle quadrature order %d" % o, "Integration2dTriangle.h", "vp_e_tri0", lambda I, al, o=o: [o & 0xffffffff], K(not 1 <= o <= 8))
        if abs(o) < 10:
            R("triangle quadrature order %d, computed" % o, "Integration2dTriangle.h", "vp_e_tri", lambda I, al, o=o: [o & 0xffffffff, al(syms("t", 9))], K(not 1 <= o <= 8))
    # ---- interpolation
    for k in range(0, 9):
        known = k < 3
        for fn, nm, ok in (("mk1", "Interp1d::MakeInterp1d", k < 3), ("mk1c", "Interp1d::MakeInterp1d complex", k < 3), ("mk2", "Interp2d::MakeInterp2d", k < 1)):
            R("%s[method %d]" % (nm, k), "Interp%sd.h" % nm[6], "vp_e_" + fn, lambda I, al, k=k: [k], K(not ok))
    un = lambda v: reduce(T.bor, [lt(b, a) for a, b in zip(v, v[1:])], FALSE)
    q, r_ = sym("q"), sym("r")
    for meth in range(3):
        for n in (1, 2, 3):
            for k in (1, 2, 3):
                R("Interp1d %s lengths %d,%d" % (MN[meth], n, k), "Interp1d.h Initialize", "vp_e_i1", lambda I, al, meth=meth, n=n, k=k: [meth, al(knots("x", n)), n, al(syms("y", k)), k, fconst(0), 3], K(n != k or (n < 2 and meth < 2 and False)))
                R("LookupTable1D %s lengths %d,%d" % (MN[meth], n, k), "LookupTable1D.h AddY", "vp_e_l1", lambda I, al, meth=meth, n=n, k=k: [meth, al(knots("x", n)), n, al(syms("y", k)), k, fconst(0), 0, 2], K(n != k))
        for n in (2, 3, 4):
            R("Interp1d %s, %d abscissae in any order" % (MN[meth], n), "Interp1d.h Initialize", "vp_e_i1", lambda I, al, meth=meth, n=n: [meth, al(syms("x", n)), n, al(syms("y", n)), n, fconst(0), 3], un(syms("x", n)))
            xs = knots("x", n)
            out = T.bor(lt(q, xs[0]), lt(xs[-1], q)) if meth == 0 else FALSE
            for form in range(3):
                R("Interp1d %s n=%d, any query, form %d" % (MN[meth], n, form), "Interp1d.h Eval", "vp_e_i1", lambda I, al, meth=meth, n=n, form=form: [meth, al(knots("x", n)), n, al(syms("y", n)), n, q, form], out)
            for form in range(2):
                R("LookupTable1D %s n=%d, any query, form %d" % (MN[meth], n, form), "LookupTable1D.h Eval", "vp_e_l1", lambda I, al, meth=meth, n=n, form=form: [meth, al(knots("x", n)), n, al(syms("y", n)), n, q, 0, form], out)
        for name in range(1, 4):
            for form in range(4):
                R("LookupTable1D %s unknown name %d, form %d" % (MN[meth], name, form), "LookupTable1D.h", "vp_e_l1", lambda I, al, meth=meth, name=name, form=form: [meth, al(knots("x", 2)), 2, al(syms("y", 2)), 2, fconst(Fraction(1, 2)), name, form], TRUE)
    for a, b in ((2, 2), (2, 3), (3, 2)):
        xs, ys = knots("x", a), knots("y", b)
        out = reduce(T.bor, [lt(q, xs[0]), lt(xs[-1], q), lt(r_, ys[0]), lt(ys[-1], r_)])
        for form in range(3):
            R("Interp2d %dx%d, any query, form %d" % (a, b, form), "Interp2d.h Eval", "vp_e_i2", lambda I, al, a=a, b=b, form=form: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b, q, r_, form], out)
            R("LookupTable2d %dx%d, any query, form %d" % (a, b, form), "LookupTable2D.h Eval", "vp_e_l2", lambda I, al, a=a, b=b, form=form: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b, q, r_, 0, form, 0], out)
            for name in range(1, 4):
                R("LookupTable2d %dx%d unknown name %d, form %d" % (a, b, name, form), "LookupTable2D.h", "vp_e_l2", lambda I, al, a=a, b=b, form=form, name=name: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b, fconst(0), fconst(0), name, form, 0], TRUE)
        R("Interp2d %dx%d, coordinates in any order" % (a, b), "Interp2d.h Initialize", "vp_e_i2", lambda I, al, a=a, b=b: [al(syms("x", a)), a, al(syms("y", b)), b, al(syms("z", a * b)), a * b, fconst(0), fconst(0), 3], T.bor(un(syms("x", a)), un(syms("y", b))))
        for short in (1, 2):
            R("Interp2d %dx%d with %d values missing" % (a, b, short), "Interp2d.h Initialize", "vp_e_i2", lambda I, al, a=a, b=b, s=short: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b - s, fconst(0), fconst(0), 3], TRUE)
            R("LookupTable2d %dx%d with %d values missing" % (a, b, short), "LookupTable2D.h AddData", "vp_e_l2", lambda I, al, a=a, b=b, s=short: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b - s, fconst(0), fconst(0), 0, 0, 0], TRUE)
        for meth in (1, 2, 3):
            R("LookupTable2d %dx%d method %d" % (a, b, meth), "LookupTable2D.h AddData", "vp_e_l2", lambda I, al, a=a, b=b, meth=meth: [al(knots("x", a)), a, al(knots("y", b)), b, al(syms("z", a * b)), a * b, fconst(0), fconst(0), 0, 0, meth], TRUE)
    for k in (0, 1):
        R("LookupTable2d point of %d coordinates" % k, "LookupTable2D.h Eval", "vp_e_l2c", lambda I, al, k=k: [al(knots("x", 2)), 2, al(syms("z", 4)), al(syms("q", 2)), k], TRUE)
    # ---- grids
    ACC = {0: "data", 1: "GetCoord", 2: "GetCoordMinVal", 3: "GetCoordMaxVal"}
    for cls, fn in (("RegularGridInterpolator", "g"), ("RegularGridNearest", "n")):
        for D, shp in ((1, (3,)), (2, (2, 3))):
            tot = 1
            for s in shp:
                tot *= s

            def mk(I, al, D, sizes, axs, fill, shape, what, idx):
                n = 1
                for s in shape:
                    n *= s
                return [len(sizes), al(sum(axs, []) or [fconst(0)]), al(list(sizes) or [0], 4), fill, al(list(shape), 4), al(syms("d", max(n, 1))), what, idx & 0xffffffff, al(syms("q", D))]
            kn = [knots("abc"[i], s) for i, s in enumerate(shp)]
            for idx in (-2, -1, 0, 1, 2, 3, 100):
                for what in (1, 2, 3):
                    R("%s %dd %s(%d)" % (cls, D, ACC[what], idx), cls + ".h " + ACC[what], "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn, what=what, idx=idx: mk(I, al, D, shp, kn, 1, shp, what, idx), K(not 0 <= idx < D))
            for n in (2, 3):
                ax = syms("a", n)
                R("%s %dd, %d nodes in any order" % (cls, D, n), cls + ".h AddCoord", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, ax=ax: mk(I, al, D, (len(ax),), [ax], 0, (1,) * D, 0, 0), reduce(T.bor, [le(b, a) for a, b in zip(ax, ax[1:])], FALSE))
            for extra in (1, 2):
                R("%s %dd, %d axes" % (cls, D, D + extra), cls + ".h AddCoord", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn, e=extra: mk(I, al, D, shp + (2,) * e, kn + [knots("e%d_" % i, 2) for i in range(e)], 0, shp, 0, 0), TRUE)
            for miss in range(1, D + 1):
                R("%s %dd, data on %d axes" % (cls, D, D - miss), cls + ".h AddVar", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn, k=miss: mk(I, al, D, shp[:D - k], kn[:D - k], 1, shp, 0, 0), TRUE)
            for sh2 in itertools.product(*[range(max(s - 1, 1), s + 2) for s in shp]):
                R("%s %dd of %s, data of %s" % (cls, D, "x".join(map(str, shp)), "x".join(map(str, sh2))), cls + ".h AddVar", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn, s=sh2: mk(I, al, D, shp, kn, 1, s, 0, 0), K(sh2 != shp))
            qs = syms("q", D)
            out = reduce(T.bor, [T.bor(lt(v, k[0]), lt(k[-1], v)) for v, k in zip(qs, kn)])
            if fn == "g":
                for what, nm in ((4, "bounds checked"), (5, "not checked")):
                    R("%s %dd Interp, any point, %s" % (cls, D, nm), cls + ".h Interp", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn, what=what: mk(I, al, D, shp, kn, 1, shp, what, 0), out if what == 4 else FALSE)
            else:
                R("%s %dd GetData, any point" % (cls, D), cls + ".h GetData", "vp_e_%s%d" % (fn, D), lambda I, al, D=D, shp=shp, kn=kn: mk(I, al, D, shp, kn, 1, shp, 4, 0), FALSE)
    for n in (2, 3):
        for k in (1, 2, 3, 4):
            R("linterp, %d values on %d nodes" % (k, n), "thirdparty/linterp.h", "vp_e_ml", lambda I, al, n=n, k=k: [al(knots("x", n)), n, al(syms("f", 4)), k], K(n != k))
    # ---- sequences
    for op, nm in enumerate(("Add", "Minus", "Mult", "Divide")):
        for n in range(4):
            for k in range(4):
                R("%s of %d and %d values" % (nm, n, k), "StdVector.h " + nm, "vp_e_bin", lambda I, al, op=op, n=n, k=k: [op, al(syms("a", 4)), n, al(syms("b", 4)), k], K(n != k))
    a, b = sym("a"), sym("b")
    for n in (0, 1, 2, 3, 6):
        R("linspace, %d values, any ends" % n, "VectorGeneration.h linspace", "vp_e_lin", lambda I, al, n=n: [a, b, n], TRUE if n < 2 else lt(b, a))
        for base in (0, 1):
            R("logspace, %d values, any ends, base %s" % (n, ("10", "2")[base]), "VectorGeneration.h logspace", "vp_e_log", lambda I, al, n=n, base=base: [a, b, n, base], TRUE if n < 2 else lt(b, a))
    for n in range(4):
        for k in range(4):
            if n != k:
                R("IsClose of %d and %d values" % (n, k), "Check.h IsClose", "vp_e_close", lambda I, al, n=n, k=k: [al(syms("a", 4)), n, al(syms("b", 4)), k], TRUE)
                R("AssertIsClose of %d and %d values" % (n, k), "Check.h AssertIsClose", "vp_e_aclosev", lambda I, al, n=n, k=k: [al(syms("a", 4)), n, al(syms("b", 4)), k], TRUE)
            else:
                R("IsClose of %d values" % n, "Check.h IsClose", "vp_e_close", lambda I, al, n=n, k=k: [al(syms("a", 4)), n, al(syms("b", 4)), k], FALSE)
    R("AssertIsClose of equal values", "Check.h AssertIsClose", "vp_e_aclose", lambda I, al: [a, a], FALSE)
    R("AssertIsClose of distant values", "Check.h AssertIsClose", "vp_e_aclose", lambda I, al: [fconst(1), fconst(2)], TRUE)
    for rev in (0, 1):
        for n in (2, 3, 4):
            for k in range(0, 6):
                R("NaiveConvolution of %d and %d values, form %d" % (n, k, rev), "Convolution.h", "vp_e_conv", lambda I, al, n=n, k=k, rev=rev: [al(syms("k", 4)), n, al(syms("s", 6)), k, rev], K(k < n))
    for n in (2, 3):
        xs = knots("x", n)
        R("Ramp over %d abscissae, any ends" % n, "Functions.h Ramp", "vp_e_ramp", lambda I, al, n=n: [al(knots("x", n)), n, a, b], reduce(T.bor, [lt(b, a), lt(a, xs[0]), lt(xs[-1], b)]))
    for n in (0, 1, 2, 4):
        for df in (0, 1):
            R("Dirac over %d abscissae%s" % (n, ", default height" if df else ""), "Functions.h Dirac", "vp_e_dirac", lambda I, al, n=n, df=df: [al(knots("x", n) if n else syms("x", 1)), n, a, df], FALSE if n > 1 else TRUE)
    R("Ramp over no abscissa", "Functions.h Ramp", "vp_e_ramp", lambda I, al: [al(syms("x", 1)), 0, a, b], TRUE)
    # ---- matrices: shapes
    for n in range(1, 5):
        for k in range(1, 5):
            if n != k:
                R("LU of %dx%d" % (n, k), "Matrix.h GetLUDecomposition", "vp_e_lu", lambda I, al, n=n, k=k: [n, k], TRUE)
                R("Eigenvalues of %dx%d" % (n, k), "Matrix.h Eigenvalues", "vp_e_eig", lambda I, al, n=n, k=k: [n, k], TRUE)
                R("Cholesky of %dx%d" % (n, k), "Matrix.h GetCholeskyDecomposition", "vp_e_chol", lambda I, al, n=n, k=k: [al([fconst(int(i // k == i % k)) for i in range(n * k)]), n, k], TRUE)
            if n < k:
                for full in (0, 1):
                    R("QR of %dx%d%s" % (n, k, ", full" if full else ""), "Matrix.h", "vp_e_qr", lambda I, al, n=n, k=k, full=full: [full, n, k], TRUE)
    # Cholesky: symmetric part decided on concrete matrices
    f = lambda v: [fconst(Fraction(x)) for x in v]
    for nm, v, bad in (("identity", [1, 0, 0, 0, 1, 0, 0, 0, 1], False), ("positive definite", [4, 2, 0, 2, 5, 0, 0, 0, 9], False), ("not symmetric", [4, 2, 0, 1, 5, 0, 0, 0, 9], True), ("negative", [-1, 0, 0, 0, 1, 0, 0, 0, 1], True), ("indefinite", [1, 2, 0, 2, 1, 0, 0, 0, 1], True), ("last negative", [1, 0, 0, 0, 1, 0, 0, 0, -1], True)):
        R("Cholesky 3x3 dynamic: " + nm, "Matrix.h GetCholeskyDecomposition", "vp_e_chol", lambda I, al, v=v: [al(f(v)), 3, 3], K(bad))
        R("Cholesky 3x3 fixed: " + nm, "Matrix33.h GetCholeskyDecomposition", "vp_e_chol3", lambda I, al, v=v: [al(f(v))], K(bad))
    base = [4, 3, 4, 1, 2, 3, 2, 1]
    for i in range(8):
        for d in (-1, 1):
            s = list(base)
            s[i] += d
            if min(s) < 1:
                continue
            M, N, mb, kb, p, nc, pd, kd = s
            badlsc = not (N > pd and M > N and mb == M and nc == N and p == pd and kb == 1 and kd == 1)
            if badlsc:
                R("constrained least squares, sizes %s" % s, "Matrix.h LeastSquareSolverConstraint", "vp_e_lsc", lambda I, al, s=s: [al(s, 4)], TRUE)

    def one(c, it):
        name, where, fn, mk, cond, pc = it
        I = c.interp(m, uninterpreted=UF)
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        c.refuse(name, I, fn, mk(I, al), where, cond=cond, pc=pc)

    c.pmap(one, J)
    # ---- syntax tree
    if c.mem_only:
        return
    nx = nc = 0
    for g in ask():
        if g[0] == "exit":
            nx += 1
            loc, fn, arg, nm = g[1:5]
            t = "process termination %d (%s in %s)" % (nx, nm, fn)
            if arg == "abort":
                c.ok(t)
            elif arg == "?":
                c.und(t, "%s: status is not a constant" % loc)
            else:
                c.require(t, int(arg) & 255 != 0, loc, "%s ends the process with the success status" % fn)
        elif g[0] == "catch":
            nc += 1
            c.require("exception handler %d in %s" % (nc, g[2]), g[3] != "empty", g[1], "%s swallows an exception" % g[2])
    c.require("process terminations found (%d calls, %d handlers)" % (nx, nc), True, "", "")
    c.extra_cov["process_terminations"] = nx
    c.extra_cov["exception_handlers"] = nc
