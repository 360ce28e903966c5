from vp import *
from fractions import Fraction
import math

XS = {"uniform": lambda n: [float(i) for i in range(n)],
      "uneven": lambda n: [0., 1., 2.5, 3., 4.25, 6., 7.5, 9., 9.5, 12., 12.25, 15.][:n],
      "negative": lambda n: [-7. + 1.5 * i + 0.25 * (i % 3) for i in range(n)],
      "small": lambda n: [1e-3 * (i + 0.3 * (i % 2)) for i in range(n)],
      "large": lambda n: [1000. + 250. * i + 40. * (i % 2) for i in range(n)]}


def walk(nf, at, v):
    """the leaf of a normal form whose conditions only involve the symbol `at`, at the value v"""
    while isinstance(nf, T.Node):
        kind, p = T.BATOM[nf.v]
        if kind not in "zp":
            raise Undecided("condition " + str(p))
        val = pval(p, at, v)
        nf = nf.hi if (val == 0 if kind == "z" else val > 0) else nf.lo
    return nf.r


def pval(p, at, v):
    s = Fraction(0)
    for mono, k in p.items() if isinstance(p, dict) else p:
        t = Fraction(k)
        for a, e in mono:
            if a != at:
                raise Undecided("condition on another symbol")
            t *= v ** e
        s += t
    return s


def breaks(nf, at):
    out, seen, st = set(), set(), [nf]
    while st:
        x = st.pop()
        if not isinstance(x, T.Node) or id(x) in seen:
            continue
        seen.add(id(x))
        p = T.BATOM[x.v][1]
        it = dict(p)
        deg = max((sum(e for _, e in mo) for mo in it), default=0)
        if deg == 1:
            a = sum(Fraction(k) for mo, k in it.items() if mo)
            b = sum(Fraction(k) for mo, k in it.items() if not mo)
            out.add(-b / a)
        elif deg > 1:
            raise Undecided("non-linear breakpoint")
        st += [x.hi, x.lo]
    return sorted(out)


def byord(r, at, names):
    """polynomial (in the query) multiplying each ordinate"""
    n, d = r
    if d:
        raise Undecided("the piece is not a polynomial")
    out = {}
    for mono, k in dict(n).items():
        e = sum(x for a, x in mono if a == at)
        rest = tuple((a, x) for a, x in mono if a != at)
        out.setdefault(rest, {})[e] = out.setdefault(rest, {}).get(e, 0) + float(k)
    return out


def loose(cons, a, b):
    """coefficients equal to 1e-8 of the largest one (conditioning of the fit)"""
    if a[1] or b[1]:
        return False
    A_, B_ = dict(a[0]), dict(b[0])
    mx = max([abs(float(v)) for v in list(A_.values()) + list(B_.values())] + [0.0])
    return all(abs(float(A_.get(k, 0) - B_.get(k, 0))) <= 1e-8 * mx for k in set(A_) | set(B_))


def dval(co, k, x):
    return sum(c * math.perm(e, k) * x ** (e - k) for e, c in co.items() if e >= k)


def check(c):
    c.rule = ("abstract interpretation of the fit and of the evaluation, abscissae from a family of concrete sequences, ordinates and query symbolic: the normal form at each abscissa must be the ordinate; for ordinates taken "
              "from a polynomial with symbolic coefficients the value at a symbolic query inside the range must be that polynomial; the polynomial pieces read off the value graph must join with Deg-1 continuous derivatives")
    c.level = "proof"
    c.floor = 250
    c.assumptions = ["abscissae increasing, from the listed families; real arithmetic up to rounding (1e-6)"]
    m = c.unit("spline.cpp")
    W = "Spline.h Spline"

    def one(c, it):
        fam, n, deg, form = it
        xs = XS[fam](n)
        d = min(deg, n - 1)
        y = syms("y", n)
        t = "spline[%s,n=%d,degree %d,%s]" % (fam, n, deg, ["std vectors", "Eigen vectors", "copy"][form])
        px = lambda I: I.alloc_array(I.st0, [fconst(v) for v in xs])
        e = "vp_s%d" % deg
        big = fconst(0)
        for v in y:
            big = big + v * 4
        for i in range(n):
            I = c.interp(m)
            r = c.run(t + " node %d" % i, I, e, [px(I), I.alloc_array(I.st0, y), n, fconst(xs[i]), form])
            if r:
                c.eq(t + " node %d" % i, r.ret + big, y[i] + big, m, W, tol=1e-7, eqfn=loose)
        sc = xs[-1] - xs[0]
        u = sym("u")
        q = fconst(xs[0]) + u * sc
        inside = T.band(ge(u, 0), le(u, 1))
        # a polynomial of the spline's degree, around the middle of the range
        mid = xs[n // 2]
        co = syms("c", d + 1)

        def P(w):
            s = fconst(0)
            for k in range(d, -1, -1):
                s = s * (w - (mid - xs[0]) / sc) + co[k]
            return s
        I = c.interp(m)
        r = c.run(t + " polynomial", I, e, [px(I), I.alloc_array(I.st0, [P(fconst((v - xs[0]) / sc)) for v in xs]), n, q, form], pc=inside)
        if r:
            c.eq(t + " polynomial", r.ret + P(u) * 4, P(u) * 5, m, W, pc=r.pc, tol=1e-6, eqfn=loose)
        if form:
            return
        I = c.interp(m)
        r = c.run(t + " pieces", I, e, [px(I), I.alloc_array(I.st0, y), n, q, form], pc=inside)
        if not r:
            return
        nf = T.norm(r.ret)
        at = T.norm(u).r[0]
        at = [a for mono in dict(at) for a, _ in mono][0]
        bs = [b for b in breaks(nf, at) if 0 < b < 1]
        eds = [Fraction(0)] + bs + [Fraction(1)]
        ps = [byord(walk(nf, at, (a + b) / 2), at, y) for a, b in zip(eds, eds[1:])]
        if not bs and n > deg + 1:
            c.und(t + " pieces", "no breakpoint found")
        for b, l, r_ in zip(bs, ps, ps[1:]):
            for k in range(d):
                scale = max([abs(dval({e2: abs(cc) for e2, cc in co2.items()}, k, abs(float(b)))) for co2 in list(l.values()) + list(r_.values())] + [1.0])
                dif = max([abs(dval(l.get(o, {}), k, float(b)) - dval(r_.get(o, {}), k, float(b))) for o in set(l) | set(r_)] + [0.0])
                c.require(t + " derivative %d continuous at %.6g" % (k, xs[0] + sc * float(b)), dif <= 1e-6 * scale, W, "jump of %g in derivative %d at abscissa %.6g" % (dif, k, xs[0] + sc * float(b)))

    items = []
    for fam in XS:
        for deg in (1, 2, 3, 4):
            for n in (2, 3, 4, 5, 6) + ((8,) if fam in ("uneven", "small") or c.thorough else ()) + ((10, 12) if c.thorough else ()):
                items.append((fam, n, deg, 0))
                if fam == "uneven" and n in (2, 4, 6):
                    items += [(fam, n, deg, 1), (fam, n, deg, 2)]
    c.pmap(one, items)
