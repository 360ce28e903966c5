from vp import *


def knots(p, n):
    """strictly increasing symbolic abscissae"""
    xs = [sym(p + "0")]
    for i in range(n - 1):
        xs.append(xs[-1] + sym("d%s%d" % (p, i), "pos"))
    return xs


def chord(xs, ys, i, q):
    return ys[i] + (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) * (q - xs[i])


def pw(xs, ys, q):
    """piecewise linear, end chords continued"""
    r = chord(xs, ys, len(xs) - 2, q)
    for i in range(len(xs) - 3, -1, -1):
        r = ite(le(q, xs[i + 1]), chord(xs, ys, i, q), r)
    return r


def outside(xs, q):
    return T.bor(lt(q, xs[0]), gt(q, xs[-1]))


def spec1(method, xs, ys, q):
    if method == 2:
        return ite(lt(q, xs[0]), ys[0], ite(gt(q, xs[-1]), ys[-1], pw(xs, ys, q)))
    return pw(xs, ys, q)


def spec2(xs, ys, d, qx, qy):
    """bilinear, d[i][j] at (xs[i], ys[j])"""
    rows = [pw(ys, d[i], qy) for i in range(len(xs))]
    return pw(xs, rows, qx)


def steps(n, x0=-7.5):
    """an unevenly spaced axis of given values"""
    xs = [x0]
    for i in range(n - 1):
        xs.append(xs[-1] + (1.0, 1.0, 0.25, 3.0, 0.5)[min(i, n - 2 - i) % 5])  # the same spacing at both ends
    return xs


def probes(xs, most=160):
    """points of the axis: nodes and interior points of the cells (all of them, or the first, the last and evenly spread ones)"""
    n = len(xs)
    ks = list(range(n - 1))
    if len(ks) > most // 2:
        ks = sorted(set(ks[:12] + ks[-12:] + ks[::max(1, n * 3 // most)] + [k + d for e in range(3, 12) for d in (-1, 0, 1) for k in (1 << e,) if k + d < n - 1]))
    out = []
    for k in ks:
        out += [xs[k], xs[k] + 0.25 * (xs[k + 1] - xs[k])]
    return out + [xs[-1] - 0.125 * (xs[-1] - xs[-2]), xs[-1]]


def lin(xs, ys, q):
    """piecewise linear at a given point, end chords continued"""
    import bisect
    k = min(max(bisect.bisect_right(xs, q) - 1, 0), len(xs) - 2)
    t = T.Fraction(q) - T.Fraction(xs[k])
    w = t / (T.Fraction(xs[k + 1]) - T.Fraction(xs[k]))
    return ys[k] * fconst(1 - w) + ys[k + 1] * fconst(w)


MN = ["LINEAR", "LINEAR_EXTRAPOLATE", "LINEAR_SATURATE"]
