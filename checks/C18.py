import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hdr_common import *
from interp_common import knots
import C09

UF = [(r"^vp_user1", "f1"), (r"^vp_user2", "f2"), (r"^vp_user3", "f3")]


def check(c):
    c.rule = ("(1) effect analysis by abstract interpretation: all memory that exists when a const object is ready (object, its data, globals, function statics) is frozen, then every evaluation is interpreted on symbolic queries; any "
              "non-atomic store to frozen memory, release of it, or static initialised outside its guard is a violation, and evaluating the first query again must give the first value; (2) alias-closed IR query over every instantiated function of "
              "every header: no write to a mutable object with static storage outside its one-time initialisation, a lock or thread-local storage, and no call to a C function with hidden shared state")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["objects built with valid data of the listed sizes", "FFT is not covered: its transforms are non-const members", "effects of the user's own function objects are the user's", "the standard library keeps its own data-race guarantees (const access, atomic reference counts)"]
    # ---- (2)
    irq = irdump_bin("irq")
    hs = headers()

    def stat(h):
        body = witness.double_only(witness.W.get(h, ""))
        ok, loc, msg, o = clang(c, "st_" + h, prog([h], body), ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-DEIGEN_DONT_VECTORIZE", "-gline-tables-only", "-fno-access-control", "-emit-llvm", "-c"], out=True)
        if not ok:
            return h, None, loc + " " + msg
        r = sh([irq, "statics", o])
        os.unlink(o)
        return h, (r.stdout if r.returncode == 0 else None), r.stderr

    big = ("Matrix.h", "Matrix33.h", "Matrix66.h")
    t = {}
    import threading
    th = threading.Thread(target=lambda: t.update(r=parallel(stat, [h for h in hs if h in big] + [h for h in hs if h not in big])))
    th.start()
    m = c.unit("conc.cpp")
    th.join()
    nfun = nstat = 0
    for h, txt, err in t["r"]:
        if txt is None:
            c.und("statics %s" % h, "not analysable: %s" % err)
            continue
        bad = []
        for l in txt.strip().split("\n"):
            f = l.split("\t")
            if f[0] == "count":
                nfun += int(f[1])
                nstat += int(f[2])
            else:
                bad.append(f)
        if not bad:
            c.ok("statics %s" % h)
        for f in bad[:3]:
            c.bad("statics %s" % h, f[2], ("%s outside its initialisation, in %s" % (f[1], A.short(f[3]))) if f[0] == "write" else "call of %s, which has hidden shared state, in %s" % (f[1], A.short(f[3])))
    c.extra_cov["functions_scanned_for_static_state"] = nfun
    c.extra_cov["mutable_statics_found"] = nstat

    # ---- (1)
    def freeze(c, name, where, fn, mk, n, per, rng=None):
        I = c.interp(m, uninterpreted=UF)
        I.threads = True
        al = lambda v, e=8: I.alloc_array(I.st0, v, e)
        args, allow = mk(I, al), ("exit", "throw", "assert")
        o = al([fconst(0)] * (3 * n))
        r = c.run(name, I, fn, args + [o], allow=allow)
        c.ok(name + " freeze")
        w = list(dict.fromkeys(I.frozen_writes))
        if w:
            for what, at in w[:3]:
                c.bad(name + " leaves shared state alone", at, "an evaluation performs a %s" % what)
        else:
            c.ok(name + " leaves shared state alone")
        if r:
            for k in range(n):
                c.eq("%s: repeated evaluation, output %d" % (name, k), r.rd(o, 2 * n + k), r.rd(o, k), m, where, pc=r.pc)

    def job(c, it):
        freeze(c, *it)

    q = lambda n: syms("q", 2 * n)
    D = [0., 1.5, -1., 2., .5, 3.]
    jobs = []
    for meth in range(3):
        for n in (2, 3, 5):
            for v in (0, 1):
                jobs.append(("Interp1d method %d n=%d%s" % (meth, n, " (vector)" if v else ""), "Interp1d.h", "vp_c_i1", lambda I, al, meth=meth, n=n, v=v: [meth, v, al(knots("x", n)), al(syms("y", n)), n, al(q(1))], 4, 1))
        jobs.append(("Interp1d complex method %d" % meth, "Interp1d.h", "vp_c_i1c", lambda I, al, meth=meth: [meth, al(knots("x", 3)), al(syms("y", 6)), 3, al(q(1))], 4, 1))
        jobs.append(("LookupTable1D method %d" % meth, "LookupTable1D.h", "vp_c_l1", lambda I, al, meth=meth: [meth, al(knots("x", 3)), 3, al(syms("y", 6)), al(q(1))], 8, 1))
    for nx, ny in ((2, 2), (3, 2)):
        jobs.append(("Interp2d %dx%d" % (nx, ny), "Interp2d.h", "vp_c_i2", lambda I, al, nx=nx, ny=ny: [al(knots("x", nx)), nx, al(knots("y", ny)), ny, al(syms("z", nx * ny)), al(q(2))], 8, 2))
    jobs.append(("LookupTable2d", "LookupTable2D.h", "vp_c_l2", lambda I, al: [al(knots("x", 2)), 2, al(knots("y", 3)), 3, al(syms("z", 6)), al(q(2))], 6, 2))
    for d, shape in ((1, (3,)), (2, (2, 2)), (3, (2, 2, 2))):
        tot = 1
        for s in shape:
            tot *= s
        mk = lambda I, al, d=d, shape=shape, tot=tot: [al(sum([knots("xyz"[i], s) for i, s in enumerate(shape)], [])), al(list(shape), 4), al(syms("z", tot)), al(q(d))]
        jobs.append(("RegularGridInterpolator %dD" % d, "RegularGridInterpolator.h", "vp_c_g%d" % d, mk, 6, d))
        if d < 3:
            jobs.append(("RegularGridNearest %dD" % d, "RegularGridNearest.h", "vp_c_n%d" % d, mk, 6, d))
    for kind in range(3):
        for n in (1, 3):
            if kind < 2:
                jobs.append(("PowerSeries1d kind %d n=%d" % (kind, n), "PowerSeries1d.h", "vp_c_ps1", lambda I, al, kind=kind, n=n: [kind, al(syms("b", n)), n, al([fconst(v) for v in D]), al(q(3))], 2, 3))
            jobs.append(("PowerSeries2d kind %d n=%d" % (kind, n), "PowerSeries2d.h", "vp_c_ps2", lambda I, al, kind=kind, n=n: [kind, al(syms("b", n * n)), n, al([fconst(v) for v in D]), al(q(3))], 3, 3))
        jobs.append(("PowerSeries3d kind %d" % kind, "PowerSeries3d.h", "vp_c_ps3", lambda I, al, kind=kind: [kind, al(syms("b", 8)), 2, al([fconst(v) for v in D]), al(q(3))], 13, 3))
        for n in (1, 3):
            if kind < 2:
                jobs.append(("ChebyshevSeries1d kind %d n=%d" % (kind, n), "ChebyshevSeries1d.h", "vp_c_cs1", lambda I, al, kind=kind, n=n: [kind, n, al([fconst(v) for v in D]), al(q(3))], 4, 3))
        jobs.append(("ChebyshevSeries2d kind %d" % kind, "ChebyshevSeries2d.h", "vp_c_cs2", lambda I, al, kind=kind: [kind, 2, al([fconst(v) for v in D]), al(q(3))], 5, 3))
        jobs.append(("ChebyshevSeries3d kind %d" % kind, "ChebyshevSeries3d.h", "vp_c_cs3", lambda I, al, kind=kind: [kind, 1, al([fconst(v) for v in D]), al(q(3))], 5, 3))
    for order in range(1, 9):
        jobs.append(("Integration2dTriangle order %d" % order, "Integration2dTriangle.h", "vp_c_tri", lambda I, al, order=order: [order, al(q(9))], 1, 9))
    for n in (1, 4):
        jobs.append(("Horner n=%d" % n, "Polynomial.h", "vp_c_poly", lambda I, al, n=n: [al(syms("a", n)), n, al(q(1))], 4, 1))
    jobs.append(("Trapz", "Integration1d.h", "vp_c_trapz", lambda I, al: [al(syms("a", 8)), 4, al(q(1))], 3, 1))
    jobs.append(("Integrate1d", "Integration1d.h", "vp_c_int", lambda I, al: [al(syms("a", 4)), 4, al(q(2))], 2, 2))
    jobs.append(("unit conversions", "Unit.h", "vp_c_units", lambda I, al: [0, al(q(1))], 6, 1))
    for a in range(6):
        for b in range(6):
            jobs.append(("convert_frequency %d to %d" % (a, b), "Unit.h", "vp_c_frq", lambda I, al, a=a, b=b: [a, b, al(q(1))], 1, 1))
    jobs.append(("sequences and shapes", "StdVector.h", "vp_c_seq", lambda I, al: [al(syms("a", 6)), 3, al(q(1))], 12, 1))
    jobs.append(("rotations and angles", "Geometry.h", "vp_c_geo", lambda I, al: [al(q(3))], 12, 3))
    jobs.append(("Vector2d", "Vector2d.h", "vp_c_v2", lambda I, al: [al(syms("a", 4)), al(q(1))], 6, 1))
    jobs.append(("Matrix33 and Vector3d", "Matrix33.h", "vp_c_m33", lambda I, al: [al(syms("a", 9)), al(q(1))], 8, 1))
    jobs.append(("Spline", "Spline.h", "vp_c_spl", lambda I, al: [al([fconst(v) for v in (0., 1., 2.5, 4., 5.)]), al(syms("y", 5)), 5, al([fconst(.3), fconst(3.1)])], 1, 1))
    c.pmap(job, jobs)
