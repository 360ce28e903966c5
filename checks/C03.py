import math
import fpint
from vp import *
import terms as T

FN = [("Normalize_0_360", "vp_n0360", 360.0, 0.0, True, 360.0, False), ("Normalize__180_180", "vp_n180", 360.0, -180.0, False, 180.0, True),
      ("Normalize_0_2PI", "vp_n02pi", 2 * math.pi, 0.0, True, 2 * math.pi, False), ("Normalize__PI_PI", "vp_npi", 2 * math.pi, -math.pi, False, math.pi, True),
      ("modulo360", "vp_m360", 360.0, -360.0, False, 360.0, False), ("modulo2pi", "vp_m2pi", 2 * math.pi, -2 * math.pi, False, 2 * math.pi, False)]
INTS = ("floor", "ceil", "trunc", "round", "rint", "nearbyint")


def turns(c0):
    """leaf comparison: the difference is a whole number of turns c0 (fmod, remainder: argument minus an integer multiple of the modulus)"""
    c0 = T.Fraction(c0)
    cnt = [0]

    def integer():
        cnt[0] += 1
        return (T.pvar(T.sym_atom("turn%d" % cnt[0])), ())

    def cmpf(cons, a, b):
        ints = set()
        r = T.rsub(a, b)
        for _ in range(20):
            if r[1]:
                return False
            todo = None
            for m in r[0]:
                for at, _e in m:
                    if T.Atom.all[at].fn in ("fmod", "remainder") + INTS:
                        todo = at
            if todo is None:
                break
            A_ = T.Atom.all[todo]
            k = integer()
            ki = next(iter(next(iter(k[0]))))[0]
            ints.add(ki)
            if A_.fn in ("fmod", "remainder"):
                val = T.radd(A_.args[0], T.rmul(A_.args[1], k))
            else:
                val = k
            r = T.rsubst(r, todo, val)
        for m, q in r[0].items():
            n = q / c0
            if abs(n - round(n)) > T.Fraction(1, 10 ** 9):
                return False
            if any(at not in ints for at, _e in m):
                return False
        return True
    return cmpf


def outside(o, f):
    _, _, turn, lo, li, hi, hinc = f
    return o.lo < lo or (o.lo == lo and not li) or o.hi > hi or (o.hi == hi and not hinc)


def lim(v, turn):
    return 8 * 2.0 ** -53 * max(v.mx(), 2 * turn)


def point(m, f, x):
    """degenerate interval: the abstract value is exact, so a violation is definite"""
    turn = T.Fraction(f[2])
    for o, v, r in fpint.paths(m, f[1], (x, x, fpint.tz(x))):
        if o.lo != o.hi:
            return None
        if outside(o, f):
            return m.loc(r.loc), "the input %r returns %r, outside of the announced interval" % (x, o.lo)
        d = (T.Fraction(o.lo) - T.Fraction(x)) % turn
        d = min(d, turn - d)
        if d > lim(v, f[2]) + abs(T.Fraction(x)) * T.Fraction(1, 2 ** 50):
            return m.loc(r.loc), "the input %r returns %r, which is not the same angle (off by %.3g)" % (x, o.lo, float(d))
    return None


def witness(m, f, x, budget=1500):
    """refines a partition on which the abstract result is too wide, down to single doubles"""
    st = [x]
    for t in (x[0], x[1], x[0] + (x[1] - x[0]) / 3, x[0] + (x[1] - x[0]) * 0.7123456789012345):
        w = point(m, f, t)
        if w:
            return "bad", w
    while st:
        budget -= 1
        if budget < 0:
            return "und", None
        lo, hi, g = st.pop()
        if lo == hi:
            w = point(m, f, lo)
            if w:
                return "bad", w
            continue
        mid = lo + (hi - lo) / 2
        if mid >= hi:
            mid = lo
        for p in ((math.nextafter(mid, math.inf), hi, g), (lo, mid, g)):
            try:
                if any(outside(o, f) or o.err > lim(v, f[2]) for o, v, r in fpint.paths(m, f[1], p)):
                    st.append(p)
            except fpint.Empty:
                pass
    return "ok", None


def ranges(c, item):
    m, f, part = item
    bad = und = None
    wide = []
    n = 0
    for x in part:
        try:
            for o, v, r in fpint.paths(m, f[1], x):
                n += 1
                if not isinstance(o, fpint.V):
                    raise Undecided("result")
                if outside(o, f) or o.err > lim(v, f[2]):
                    wide.append(x)
                    break
        except fpint.Bad as e:
            bad = bad or (m.loc(e.loc), "%s for an input in [%r, %r]" % (e.msg, x[0], x[1]))
        except Undecided as e:
            und = und or str(e)
    wide.sort(key=lambda x: abs(math.log2(max(abs(x[0]), 1e-300))))
    for x in wide[:40]:
        if bad:
            break
        try:
            k, w = witness(m, f, x)
        except (Undecided, fpint.Bad) as e:
            k, w = "und", None
        if k == "bad":
            bad = w
        elif k == "und":
            und = und or "interval too wide for an input in [%r, %r]" % (x[0], x[1])
    if len(wide) > 40:
        und = und or "interval too wide"
    tag = "%s range[%r..%r]" % (f[0], part[0][0], part[-1][1])
    if bad:
        c.bad(tag, bad[0], bad[1])
    elif und:
        c.und(tag, und)
    else:
        c.ok(tag)
    c.extra_cov["paths"] = c.extra_cov.get("paths", 0) + n


def check(c):
    c.rule = ("range: abstract interpretation of the IR over intervals with granularity under IEEE-754 round-to-nearest, the inputs partitioned by sign and binade "
              "(every finite double), comparisons refining their operands; whole turns: the normal form of the result minus the input, with fmod(u,m) = u + m*k, is an integer multiple of the turn on every feasible case")
    c.level = "proof"
    c.floor = 40
    c.assumptions = ["fmod is exact (IEEE-754, C Annex F)", "round to nearest", "the congruence part is in real arithmetic; the accumulated rounding is bounded by the range part"]
    m = c.unit("angles.cpp")
    for name, fnn, turn, lo, li, hi, hinc in FN:
        I = c.interp(m)
        a = sym("a")
        r = c.run(name + " whole turns", I, fnn, [a])
        if r:
            c.eq(name + " whole turns", r.ret, a, m, "Angles.h " + name, eqfn=turns(turn))
    B = list(fpint.binades())
    n = 8
    parts = [B[i * len(B) // n:(i + 1) * len(B) // n] for i in range(n)]
    c.pmap(ranges, [(m, f, p) for f in FN for p in parts])
    c.extra_cov["input partitions"] = len(B)
