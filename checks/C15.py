from vp import *
import itertools

UF = [(r"^vp_user1f?", "f")]


def check(c):
    c.rule = ("abstract interpretation of the trapezoidal helpers and of the integrator object on symbolic samples, bounds and an uninterpreted function: the normal form of each result must be the trapezoidal sum of the "
              "current parameters, after every sequence of setter and Get calls up to the listed length; inconsistent or too few samples and unimplemented methods must end in a failure")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding", "histories of up to 3 (thorough: 4) calls before the final answer"]
    m = c.unit("integ.cpp")
    W = "Integration1d.h "

    def tz(xs, ys):
        return sum(((xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1]) * 0.5 for i in range(len(xs) - 1)), fconst(0))

    def lin(a, b, n):
        return [a + (b - a) * fconst(T.Fraction(i, n - 1)) for i in range(n)]

    def trap(n):
        y, x, dx = syms("y", n), syms("x", n), sym("dx")
        U = [fconst(i) for i in range(n)]
        for f in (0, 1):
            I = c.interp(m)
            es = 4 if f else 8
            mk = lambda v: I.alloc_array(I.st0, v, es)
            s = "f" if f else ""
            if not f:
                r = c.run("Trapz default step[n=%d]" % n, I, "vp_trapz", [mk(y), n])
                if r:
                    c.eq("Trapz default step[n=%d]" % n, r.ret, tz(U, y), m, W + "Trapz", pc=r.pc)
            I = c.interp(m)
            r = c.run("Trapz step%s[n=%d]" % (s, n), I, "vp_trapzf" if f else "vp_trapzdx", [mk(y), n, dx])
            if r:
                c.eq("Trapz step%s[n=%d]" % (s, n), unfloat(r.ret), tz(U, y) * dx, m, W + "Trapz", pc=r.pc)
            I = c.interp(m)
            r = c.run("Trapz abscissae%s[n=%d]" % (s, n), I, "vp_trapzxy" + s, [mk(x), n, mk(y), n])
            if r:
                c.eq("Trapz abscissae%s[n=%d]" % (s, n), unfloat(r.ret), tz(x, y), m, W + "Trapz", pc=r.pc)

    c.grow(trap, [2, 3, 4, 5, 9, 16, 17], 2, 2100)
    for n in (0, 1):
        for e, a in (("vp_trapz", 0), ("vp_trapzdx", 1), ("vp_trapzxy", 2)):
            I = c.interp(m)
            y = I.alloc_array(I.st0, syms("y", max(n, 1)))
            c.refuse("too few samples refused[%s,n=%d]" % (e, n), I, e, [y, n] if a == 0 else [y, n, sym("dx")] if a == 1 else [y, n, y, n], W + "Trapz")
    for nx, ny in ((2, 3), (3, 2), (1, 2), (2, 1), (0, 2), (2, 0), (5, 4), (4, 5)):
        I = c.interp(m)
        c.refuse("different lengths refused[%d,%d]" % (nx, ny), I, "vp_trapzxy", [I.alloc_array(I.st0, syms("x", 5)), nx, I.alloc_array(I.st0, syms("y", 5)), ny], W + "Trapz")

    a, b = sym("a"), sym("b")

    def obj(c, it):
        src, n, ops = it
        y = syms("y", n)
        arg = syms("arg", max(len(ops), 1))
        I = c.interp(m, uninterpreted=UF)
        o = I.alloc_array(I.st0, [fconst(0)] * max(len(ops), 1))
        acc = I.alloc_array(I.st0, [fconst(0)] * 3)
        po = I.alloc_array(I.st0, list(ops) or [0], 4)
        pa = I.alloc_array(I.st0, arg)
        t = "Integrate1d %s[n=%d,%s]" % (src, n, " ".join(["Get", "SetXmin", "SetXmax", "SetMethod", "SetMethodNC", "Get tried"][k] for k in ops))
        tail = [po, pa, len(ops), o, acc]
        args = [I.alloc_array(I.st0, y), n, a, b, n] + tail if src == "samples" else [a, b, n] + tail
        e = "vp_int_v" if src == "samples" else "vp_int_f"
        # the specification: current bounds and method only
        A_, B_, meth, dead = a, b, 0, False
        exp = []
        for i, k in enumerate(ops):
            if k == 1:
                A_ = arg[i]
            elif k == 2:
                B_ = arg[i]
            elif k == 3:
                meth = 0
            elif k == 4:
                meth = 1
            elif meth and k == 5:
                exp.append((i, None, None))
            elif meth:
                dead = True
                break
            else:
                exp.append((i, A_, B_))
        if meth or dead:
            c.refuse(t + " refused", I, e, args, W + "Integrate1d::Get")
            return
        r = c.run(t, I, e, args)
        if not r:
            return

        def want(p, q):
            xs = lin(p, q, n)
            return tz(xs, y if src == "samples" else [fn("f", v) for v in xs])
        c.eq(t + " result", r.ret, want(A_, B_), m, W + "Integrate1d::Get", pc=r.pc)
        for i, p, q in exp:
            c.eq(t + " Get %d" % i, r.rd(o, i), fconst(-12345) if p is None else want(p, q), m, W + "Integrate1d::Get", pc=r.pc)
        c.eq(t + " Xmin", r.rd(acc, 0), A_, m, W + "Integrate1d::GetXmin")
        c.eq(t + " Xmax", r.rd(acc, 1), B_, m, W + "Integrate1d::GetXmax")
        c.eq(t + " method", r.rd(acc, 2), fconst(1), m, W + "Integrate1d::GetIntegrationMethod")

    items = []
    for src in ("samples", "function"):
        for n in sorted(set([2, 3, 4, 7, 12]) | set(c.cutoffs(2, 1100))):
            items.append((src, n, ()))
        for L in range(1, 5 if c.thorough else 4):
            items += [(src, 3, ops) for ops in itertools.product(range(6), repeat=L)]
    c.pmap(obj, items)
    done = {it[1] for it in items}
    c.pmap(obj, [(src, n, ()) for src in ("samples", "function") for n in c.cutoffs(2, 1100) if n not in done])
    I = c.interp(m, uninterpreted=UF)
    r = c.run("Integrate1d float", I, "vp_int_ff", [a, b, 4])
    if r:
        xs = lin(a, b, 4)
        c.eq("Integrate1d float", unfloat(r.ret), tz(xs, [fn("f", v) for v in xs]), m, W + "Integrate1d::Get", pc=r.pc, tol=1e-6)
    for ny, n in ((0, 0), (1, 1), (2, 3), (3, 2), (4, 2), (0, 2), (2, 0), (2, 1)):
        I = c.interp(m, uninterpreted=UF)
        z = I.alloc_array(I.st0, [fconst(0)] * 3)
        c.refuse("inconsistent samples refused[%d for %d points]" % (ny, n), I, "vp_int_v", [I.alloc_array(I.st0, syms("y", 5)), ny, a, b, n, I.alloc_array(I.st0, [0], 4), z, 0, z, z], W + "Integrate1d")
    for n in (0, 1):
        I = c.interp(m, uninterpreted=UF)
        z = I.alloc_array(I.st0, [fconst(0)] * 3)
        c.refuse("too few points refused[%d]" % n, I, "vp_int_f", [a, b, n, I.alloc_array(I.st0, [0], 4), z, 0, z, z], W + "Integrate1d")
