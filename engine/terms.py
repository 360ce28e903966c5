"""Value domain of the abstract interpreter.

* floats   : hash-consed operation DAG (FNode), normalised on demand to rational functions over atoms
             (inputs and canonical applications of elementary functions)
* booleans : reduced ordered BDDs over comparison atoms
No solver and no sampling: equality of two values is equality of their normal forms.
"""
from fractions import Fraction
import math, sys

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The analysis cannot decide (an analysis error, never a verdict)."""


# ----------------------------------------------------------------------------------------------- BDD
class BDD:
    __slots__ = ("v", "hi", "lo", "id")
    tab = {}
    cnt = 2

    def __repr__(self):
        return bstr(self)


def _term(i):
    b = BDD.__new__(BDD)
    b.v = 1 << 60
    b.hi = b.lo = None
    b.id = i
    return b


FALSE = _term(0)
TRUE = _term(1)


def mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    r = BDD.tab.get(k)
    if r is None:
        r = BDD.__new__(BDD)
        r.v, r.hi, r.lo, r.id = v, hi, lo, BDD.cnt
        BDD.cnt += 1
        BDD.tab[k] = r
    return r


_ite = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is None:
        v = min(f.v, g.v, h.v)
        f1, f0 = (f.hi, f.lo) if f.v == v else (f, f)
        g1, g0 = (g.hi, g.lo) if g.v == v else (g, g)
        h1, h0 = (h.hi, h.lo) if h.v == v else (h, h)
        r = mk(v, bite(f1, g1, h1), bite(f0, g0, h0))
        _ite[k] = r
    return r


def bnot(f):
    return bite(f, FALSE, TRUE)


def band(f, g):
    return bite(f, g, FALSE)


def bor(f, g):
    return bite(f, TRUE, g)


def bxor(f, g):
    return bite(f, bnot(g), g)


def bvar(v):
    return mk(v, TRUE, FALSE)


def bstr(b, depth=0):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    cubes = []
    for c in cubes_of(b, 4):
        cubes.append(" & ".join(lits_str(c)))
    return " | ".join("(%s)" % c for c in cubes)


def cubes_of(b, limit=None):
    out = []
    st = [(b, ())]
    while st:
        n, c = st.pop()
        if n is FALSE:
            continue
        if n is TRUE:
            out.append(c)
            if limit and len(out) >= limit:
                break
            continue
        st.append((n.lo, c + ((n.v, False),)))
        st.append((n.hi, c + ((n.v, True),)))
    return out


# boolean atoms: var index -> ('z', P) or ('p', P) or ('o', key)
BATOM = []
_batom = {}


def batom(key, payload):
    i = _batom.get(key)
    if i is None:
        i = len(BATOM)
        BATOM.append(payload)
        _batom[key] = i
    return bvar(i)


def lits_str(cube):
    out = []
    seen = {}
    for v, val in cube:
        kind, p = BATOM[v]
        if kind == "z":
            out.append("%s %s 0" % (pstr(p), "==" if val else "!="))
        elif kind == "p":
            out.append("%s %s 0" % (pstr(p), ">" if val else "<"))
        else:
            out.append(("" if val else "!") + str(p))
    return out


# --------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "fn", "args", "name", "sign", "lo", "hi")
    all = []

    def __repr__(self):
        return self.name


def new_atom(fn, args, name, sign=None):
    a = Atom()
    a.id = len(Atom.all)
    a.fn, a.args, a.name, a.sign = fn, args, name, sign
    a.lo = a.hi = None
    Atom.all.append(a)
    return a


_syms = {}


def sym_atom(name, sign=None):
    a = _syms.get(name)
    if a is None:
        a = new_atom("sym", (), name, sign)
        _syms[name] = a
    elif sign is not None and a.sign != sign:
        if a.sign is None:
            a.sign = sign
        else:
            raise Undecided("symbol %s redeclared with another sign" % name)
    return a


# ---------------------------------------------------------------------------------------- polynomials
# Poly: dict {monomial: Fraction}; monomial: tuple of (atom id, exponent), sorted
ONE = ()


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def pvar(a):
    return {((a.id, 1),): Fraction(1)}


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def pscale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def psub(p, q):
    return padd(p, pscale(q, Fraction(-1)))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE in p:
        return pscale(q, p[ONE])
    if len(q) == 1 and ONE in q:
        return pscale(p, q[ONE])
    if len(p) * len(q) > 4000000:
        raise Undecided("polynomial too large")
    r = {}
    red = False
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            s = r.get(k)
            r[k] = c * d if s is None else s + c * d
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise Undecided("polynomial too large")
    return preduce(r)


def _reducible(m):
    for a, e in m:
        if e >= 2:
            f = Atom.all[a].fn
            if f == "sqrt" or f == "cos":
                return a
    return None


def preduce(p):
    """sqrt(P)^2 -> P and cos(t)^2 -> 1 - sin(t)^2"""
    todo = [m for m in p if _reducible(m) is not None]
    if not todo:
        return p
    r = {m: c for m, c in p.items() if _reducible(m) is None}
    for m in todo:
        c = p[m]
        a = _reducible(m)
        at = Atom.all[a]
        rest = []
        for x, e in m:
            if x == a:
                if e > 2:
                    rest.append((x, e - 2))
            else:
                rest.append((x, e))
        rest = {tuple(rest): c}
        if at.fn == "sqrt":
            arg = at.args[0]
            if arg[1]:
                # sqrt(n/d)^2 = n/d : only handled at rational level; keep
                raise Undecided("sqrt of a quotient squared")
            sub = arg[0]
        else:
            s = uf_atom("sin", at.args)
            sub = psub(pconst(1), {((s.id, 2),): Fraction(1)})
        r = padd(r, pmul(rest, sub))
    return r


def pstr(p, lim=8):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0]))[:lim]:
        ms = "*".join(Atom.all[a].name + ("^%d" % e if e != 1 else "") for a, e in m)
        cs = "%.12g" % float(c) if abs(c) < 1e300 else str(c)
        if not ms:
            out.append(cs)
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append(cs + "*" + ms)
    s = " + ".join(out).replace("+ -", "- ")
    if len(p) > lim:
        s += " + ...(%d terms)" % len(p)
    return s


# rational: (num Poly, den) with den = tuple of (pkey, exp) factors (sorted), factors registered in FACT
FACT = {}


def fkey(p):
    return tuple(sorted((m, c) for m, c in p.items()))


def rstr(r):
    n, d = r
    if not d:
        return pstr(n)
    return "(%s) / (%s)" % (pstr(n), " * ".join("(%s)%s" % (pstr(dict(k)), "^%d" % e if e > 1 else "") for k, e in d))


R0 = ({}, ())
R1 = ({ONE: Fraction(1)}, ())


def rconst(c):
    return (pconst(c), ())


def _pow_den(d):
    p = pconst(1)
    for k, e in d:
        f = dict(k)
        for _ in range(e):
            p = pmul(p, f)
    return p


def pdiv_exact(p, f):
    """Exact multivariate division p / f when possible (lex order), else None."""
    if not p:
        return {}
    if len(p) > 3000:
        return None
    lf = max(f)
    cf = f[lf]
    lfd = dict(lf)
    q = {}
    r = dict(p)
    steps = 0
    while r:
        steps += 1
        if steps > 3000:
            return None
        lr = max(r, key=_mono_key)
        lf2 = max(f, key=_mono_key)
        lfd = dict(lf2)
        cf = f[lf2]
        d = dict(lr)
        for a, e in lfd.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        m = tuple(sorted(d.items()))
        c = r[lr] / cf
        q[m] = q.get(m, 0) + c
        r = psub(r, pmul_plain({m: c}, f))
    return q


def _mono_key(m):
    # graded lex (on atom ids)
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def pmul_plain(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def rnorm(n, d):
    if not n:
        return R0
    if not d:
        return (n, ())
    # cancel factors that divide the numerator
    nd = []
    for k, e in d:
        f = dict(k)
        while e > 0:
            if len(f) == 1:
                # monomial factor
                ((m, c),) = f.items()
                ok = all(_mdiv(mm, m) is not None for mm in n)
                if not ok:
                    break
                n = {_mdiv(mm, m): cc / c for mm, cc in n.items()}
                e -= 1
            else:
                q = pdiv_exact(n, f) if len(f) <= len(n) else None
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            nd.append((k, e))
    return (n, tuple(sorted(nd)))


def _mdiv(m, n):
    d = dict(m)
    for a, e in n:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


_BAD = []


def rbad():
    """value of a division by zero: absorbs every operation, equal to nothing the specifications say"""
    if not _BAD:
        _BAD.append((pvar(uf_atom("division_by_zero", ())), ()))
    return _BAD[0]


def radd(a, b):
    if _BAD and (a is _BAD[0] or b is _BAD[0]):
        return _BAD[0]
    if not a[0]:
        return b
    if not b[0]:
        return a
    if a[1] == b[1]:
        n = padd(a[0], b[0])
        return rnorm(n, a[1]) if n else R0
    da, db = dict(a[1]), dict(b[1])
    l = dict(da)
    for k, e in db.items():
        l[k] = max(l.get(k, 0), e)
    ma = tuple((k, e - da.get(k, 0)) for k, e in l.items() if e > da.get(k, 0))
    mb = tuple((k, e - db.get(k, 0)) for k, e in l.items() if e > db.get(k, 0))
    n = padd(pmul(a[0], _pow_den(ma)), pmul(b[0], _pow_den(mb)))
    return rnorm(n, tuple(sorted(l.items())))


def rneg(a):
    if _BAD and a is _BAD[0]:
        return a
    return (pscale(a[0], Fraction(-1)), a[1])


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if _BAD and (a is _BAD[0] or b is _BAD[0]):
        return _BAD[0]
    if not a[0] or not b[0]:
        return R0
    n = pmul(a[0], b[0])
    if not a[1] and not b[1]:
        return (n, ())
    l = dict(a[1])
    for k, e in b[1]:
        l[k] = l.get(k, 0) + e
    return rnorm(n, tuple(sorted(l.items())))


def rinv(a):
    n, d = a
    if not n or _BAD and a is _BAD[0]:
        return rbad()
    num = _pow_den(d)
    # split monomial content out of n
    if len(n) == 1:
        ((m, c),) = n.items()
        den = tuple(sorted(((((( a_, 1),), Fraction(1)),), e) for a_, e in m))
        return rnorm(pscale(num, 1 / c), den)
    # monomial gcd
    g = None
    for m in n:
        dm = dict(m)
        g = dm if g is None else {a_: min(e, dm[a_]) for a_, e in g.items() if a_ in dm}
    g = tuple(sorted(g.items()))
    if g:
        n = {_mdiv(m, g): c for m, c in n.items()}
    lead = n[max(n, key=_mono_key)]
    n = pscale(n, 1 / lead)
    den = {}
    for a_, e in g:
        den[((((a_, 1),), Fraction(1)),)] = e
    den[fkey(n)] = den.get(fkey(n), 0) + 1
    return rnorm(pscale(num, 1 / lead), tuple(sorted(den.items())))


def rdiv(a, b):
    return rmul(a, rinv(b))


def rpow(a, n):
    r = R1
    for _ in range(n):
        r = rmul(r, a)
    return r


TOL = 1e-9
NOISE = 1e-13
# pure rounding noise of the tables and constants of the code


def approx_zero_diff(A, B, tol=TOL):
    """A, B polynomials: equal up to relative rounding of coefficients."""
    if A is B or A == B:
        return True
    mx = 0.0
    for p in (A, B):
        for c in p.values():
            f = abs(float(c)) if abs(c) < 1e300 else 1e300
            if f > mx:
                mx = f
    for m in set(A) | set(B):
        a, b = A.get(m, 0), B.get(m, 0)
        d = abs(a - b)
        if d == 0:
            continue
        d = float(d)
        if d <= tol * max(abs(float(a)), abs(float(b))):
            continue
        if d <= NOISE * mx:
            continue
        return False
    return True


def req(a, b, tol=TOL):
    if a[1] == b[1]:
        return approx_zero_diff(a[0], b[0], tol)
    # denominators may differ only by rounding of coefficients, too: cross-multiply
    return approx_zero_diff(pmul(a[0], _pow_den(b[1])), pmul(b[0], _pow_den(a[1])), tol)


# --------------------------------------------------------------------- uninterpreted function atoms
_uf = {}
ODD = {"sin", "tan", "asin", "atan", "sinh", "tanh", "cbrt", "erf", "asinh", "atanh"}
EVEN = {"cos", "cosh"}
SIGN = {"sqrt": "nn", "exp": "pos", "cosh": "pos"}


def uf_atom(fn, args):
    key = (fn, len(args))
    lst = _uf.setdefault(key, [])
    for a in lst:
        if all((x == y) or (isinstance(x, tuple) and isinstance(y, tuple) and req(x, y)) for x, y in zip(a.args, args)):
            return a
    a = new_atom(fn, tuple(args), "%s(%s)" % (fn, ", ".join(rstr(x) if isinstance(x, tuple) else str(x) for x in args)), SIGN.get(fn))
    lst.append(a)
    return a


def lead_negative(r):
    n = r[0]
    if not n:
        return False
    return n[max(n, key=_mono_key)] < 0


def as_const(r):
    n, d = r
    if d:
        return None
    if not n:
        return Fraction(0)
    if len(n) == 1 and ONE in n:
        return n[ONE]
    return None


def ruf(fn, args):
    """args: rationals (or hashable non-rational keys). Returns a rational."""
    cs = [as_const(a) if isinstance(a, tuple) else None for a in args]
    if fn == "sqrt":
        c = cs[0]
        if c is not None and c >= 0:
            rt = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rt[0] ** 2 == c.numerator and rt[1] ** 2 == c.denominator:
                return rconst(Fraction(rt[0], rt[1]))
            return rconst(Fraction(math.sqrt(float(c))))
        n, d = args[0]
        if d:
            # sqrt(n/d): exact when the denominator is a known-nonnegative square; else sqrt(n*d)/d for d>0
            den = _pow_den(d)
            s = psign(den)
            if s != "pos":
                return (pvar(uf_atom("sqrtq", args)), ())
            inner = ruf("sqrt", [(pmul(n, den), ())])
            return rmul(inner, rinv((den, ())))
        # pull out even monomial content of a single-term argument
        if len(n) == 1:
            ((m, c),) = n.items()
            if all(e % 2 == 0 for _, e in m) and all(Atom.all[a].sign in ("pos", "nn") for a, _ in m):
                rc = ruf("sqrt", [rconst(c)])
                return rmul(rc, ({tuple((a, e // 2) for a, e in m): Fraction(1)}, ()))
        # constant content: sqrt(c*P) with the leading coefficient scaled out, so that sqrt(4x) = 2 sqrt(x)
        if n:
            lead = abs(n[max(n, key=_mono_key)])
            if lead != 1:
                rt = ruf("sqrt", [rconst(lead)])
                return rmul(rt, (pvar(uf_atom("sqrt", ((pscale(n, 1 / lead), ()),))), ()))
        return (pvar(uf_atom("sqrt", args)), ())
    if all(c is not None for c in cs) and fn in MATHFN:
        try:
            return rconst(Fraction(MATHFN[fn](*[float(c) for c in cs])))
        except (ValueError, OverflowError):
            raise Undecided("%s out of its domain" % fn)
    if fn in ODD or fn in EVEN:
        if lead_negative(args[0]):
            r = ruf(fn, [rneg(args[0])])
            return rneg(r) if fn in ODD else r
    if fn == "atan2" and isinstance(args[0], tuple) and isinstance(args[1], tuple):
        y, x = args
        if lead_negative(y):  # atan2(-y, x) = -atan2(y, x)
            return rneg(ruf("atan2", [rneg(y), x]))
        n = y[0] or x[0]
        if n:  # atan2(k y, k x) = atan2(y, x) for k > 0
            k = abs(n[max(n, key=_mono_key)])
            if k != 1:
                k = rconst(1 / k)
                return ruf("atan2", [rmul(y, k), rmul(x, k)])
    if fn == "tan":
        return rdiv(ruf("sin", args), ruf("cos", args))
    if fn == "exp" and cs[0] is None:
        # exp(-t) = 1/exp(t)
        if lead_negative(args[0]):
            return rinv(ruf("exp", [rneg(args[0])]))
    if fn in ("sin", "cos"):
        a = args[0]
        if not a[1] and len(a[0]) == 1:
            # sin(asin t), cos(acos t), and the half-angle forms are left uninterpreted except the direct inverses
            ((m, c),) = a[0].items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = Atom.all[m[0][0]]
                if at.fn == "a" + fn:
                    return at.args[0]
                if at.fn == "atan2":
                    y, x = at.args
                    h = ruf("sqrt", [radd(rmul(x, x), rmul(y, y))])
                    return rdiv(y if fn == "sin" else x, h)
                if at.fn in ("asin", "acos"):
                    t = at.args[0]
                    return ruf("sqrt", [rsub(R1, rmul(t, t))])
    if fn == "pow":
        e = cs[1]
        if e is not None:
            if e.denominator == 1 and abs(e.numerator) <= 64:
                r = rpow(args[0], abs(e.numerator))
                return r if e.numerator >= 0 else rinv(r)
            if e == Fraction(1, 2):
                return ruf("sqrt", [args[0]])
    args = tuple(args)
    return (pvar(uf_atom(fn, args)), ())


MATHFN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "atan2": math.atan2,
          "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
          "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fmod": math.fmod, "log10": math.log10,
          "pow": lambda a, b: a ** b, "log2": math.log2,
          "round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x), "tgamma": math.gamma, "erf": math.erf,
          "log1p": math.log1p, "expm1": math.expm1, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x)}


# ----------------------------------------------------------------------------------------- sign domain
def atom_sign(a, e):
    s = Atom.all[a].sign
    if s == "pos":
        return "pos"
    if e % 2 == 0:
        return "nn"
    return s  # 'nn', or None


def psign(p):
    """'pos','neg','zero','nn','np' or None"""
    if not p:
        return "zero"
    strict = False
    dirn = None
    for m, c in p.items():
        ms = "pos"
        for a, e in m:
            s = atom_sign(a, e)
            if s is None:
                return None
            if s == "nn":
                ms = "nn"
        d = 1 if c > 0 else -1
        if dirn is None:
            dirn = d
        elif dirn != d:
            return None
        if ms == "pos":
            strict = True
    if dirn > 0:
        return "pos" if strict else "nn"
    return "neg" if strict else "np"


def rsign(r):
    n, d = r
    s = psign(n)
    if s in (None, "zero"):
        return s
    flip = False
    for k, e in d:
        fs = psign(dict(k))
        if e % 2 == 0:
            continue
        if fs == "pos":
            continue
        if fs == "neg":
            flip = not flip
            continue
        return None
    if flip:
        s = {"pos": "neg", "neg": "pos", "nn": "np", "np": "nn"}[s]
    return s


# ------------------------------------------------------------------------------------------- FNode DAG
class FNode:
    __slots__ = ("op", "args", "id", "loc", "_n")
    tab = {}
    cnt = 0

    def __repr__(self):
        return fstr(self)


def fnode(op, args, loc=0):
    if op == "const":
        v = args[0]
        k = ("const", v.hex() if v == v else "nan")
    elif op == "ite":
        k = ("ite", args[0].id, args[1].id, args[2].id)
    elif op == "call":
        k = ("call", args[0]) + tuple(a.id if isinstance(a, FNode) else ("k", a) for a in args[1:])
    elif op in ("sym", "rat"):
        k = (op, args[0] if op == "sym" else args[0])
    else:
        k = (op,) + tuple(a.id for a in args)
    r = FNode.tab.get(k)
    if r is None:
        r = FNode.__new__(FNode)
        r.op, r.args, r.id, r.loc, r._n = op, args, FNode.cnt, loc, None
        FNode.cnt += 1
        FNode.tab[k] = r
    return r


def fconst(v):
    return fnode("const", (float(v),))


def fsym(name, sign=None):
    sym_atom(name, sign)
    return fnode("sym", (name,))


_rats = []


def fexact(r):
    """FNode standing for an exact rational-function value."""
    f = FNode.__new__(FNode)
    f.op, f.args, f.id, f.loc = "rat", (r,), FNode.cnt, 0
    f._n = Leaf(r)
    FNode.cnt += 1
    return f


def fstr(f, depth=0):
    if f.op == "const":
        return repr(f.args[0])
    if f.op == "sym":
        return f.args[0]
    if f.op == "rat":
        return rstr(f.args[0])
    if depth > 6:
        return "..."
    if f.op == "call":
        return "%s(%s)" % (f.args[0], ", ".join(fstr(a, depth + 1) if isinstance(a, FNode) else str(a) for a in f.args[1:]))
    if f.op == "ite":
        return "ite(%s, %s, %s)" % (bstr(f.args[0]), fstr(f.args[1], depth + 1), fstr(f.args[2], depth + 1))
    if f.op == "neg":
        return "-(%s)" % fstr(f.args[0], depth + 1)
    o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[f.op]
    return "(%s %s %s)" % (fstr(f.args[0], depth + 1), o, fstr(f.args[1], depth + 1))


BIG = 1e300


def f_op(op, a, b, loc=0, prec="d"):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            else:
                if y == 0:
                    r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                else:
                    r = x / y
        except OverflowError:
            r = math.inf
        return fconst(r)
    for t in (a, b):
        if t.op == "const" and t.args[0] != t.args[0]:
            return t  # NaN propagates
    # identity simplifications that do not change the real value
    if op == "add":
        if b.op == "const" and b.args[0] == 0:
            return a
        if a.op == "const" and a.args[0] == 0:
            return b
    elif op == "mul":
        if b.op == "const" and b.args[0] == 1:
            return a
        if a.op == "const" and a.args[0] == 1:
            return b
    elif op == "sub":
        if b.op == "const" and b.args[0] == 0:
            return a
    elif op == "div":
        if b.op == "const" and b.args[0] == 1:
            return a
    return fnode(op, (a, b), loc)


def f_neg(a, loc=0):
    if a.op == "const":
        return fconst(-a.args[0])
    return fnode("neg", (a,), loc)


def f_ite(c, a, b, loc=0):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return fnode("ite", (c, a, b), loc)


def f_call(fn, args, loc=0):
    if all(isinstance(a, FNode) and a.op == "const" for a in args) and args:
        v = [a.args[0] for a in args]
        try:
            if fn == "sqrt":
                return fconst(math.sqrt(v[0]))
            if fn in MATHFN:
                return fconst(float(MATHFN[fn](*v)))
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    if fn not in ("fmin", "fmax", "pow", "hypot"):
        for t in args:
            if isinstance(t, FNode) and t.op == "const" and t.args[0] != t.args[0]:
                return t
    return fnode("call", (fn,) + tuple(args), loc)


# ------------------------------------------------------------------- normal forms: trees of rationals
# A normal form is Leaf(rational) or Node(boolvar, hi, lo) (an MTBDD)
class Leaf:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


class Node:
    __slots__ = ("v", "hi", "lo")

    def __init__(self, v, hi, lo):
        self.v, self.hi, self.lo = v, hi, lo


def nmk(v, hi, lo):
    if hi is lo:
        return hi
    if isinstance(hi, Leaf) and isinstance(lo, Leaf) and hi.r == lo.r:
        return hi
    return Node(v, hi, lo)


def _top(*ns):
    return min(n.v if isinstance(n, Node) else 1 << 60 for n in ns)


def _cof(n, v, hi):
    if isinstance(n, Node) and n.v == v:
        return n.hi if hi else n.lo
    return n


BUDGET = [0]


def napply(f, ns):
    BUDGET[0] += 1
    if BUDGET[0] > 2000000:
        raise Undecided("normal form budget exhausted")
    v = _top(*ns)
    if v == 1 << 60:
        return Leaf(f(*[n.r for n in ns]))
    return nmk(v, napply(f, [_cof(n, v, True) for n in ns]), napply(f, [_cof(n, v, False) for n in ns]))


def nite(c, a, b, memo=None):
    if memo is None:
        memo = {}
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, id(a), id(b))
    if k in memo:
        return memo[k][0]
    v = min(c.v, _top(a, b))
    c1, c0 = (c.hi, c.lo) if c.v == v else (c, c)
    r = nmk(v, nite(c1, _cof(a, v, True), _cof(b, v, True), memo), nite(c0, _cof(a, v, False), _cof(b, v, False), memo))
    memo[k] = (r, a, b)
    return r


class NonFinite(Undecided):
    pass


def norm(f):
    if f._n is not None:
        return f._n
    # iterative post-order to avoid deep recursion
    st = [f]
    while st:
        x = st[-1]
        if x._n is not None:
            st.pop()
            continue
        ch = [a for a in x.args if isinstance(a, FNode) and a._n is None]
        if ch:
            st.extend(ch)
            continue
        x._n = _norm1(x)
        st.pop()
    return f._n


def _norm1(f):
    op = f.op
    if op == "const":
        v = f.args[0]
        if v != v:
            return Leaf((pvar(sym_atom("NAN")), ()))
        if v in (math.inf, -math.inf):
            r = (pvar(sym_atom("INFINITY", "pos")), ())
            return Leaf(r if v > 0 else rneg(r))
        return Leaf(rconst(Fraction(v)))
    if op == "sym":
        return Leaf((pvar(_syms[f.args[0]]), ()))
    if op == "ite":
        return nite(f.args[0], f.args[1]._n, f.args[2]._n)
    if op == "neg":
        return napply(rneg, [f.args[0]._n])
    if op == "add":
        return napply(radd, [f.args[0]._n, f.args[1]._n])
    if op == "sub":
        return napply(rsub, [f.args[0]._n, f.args[1]._n])
    if op == "mul":
        return napply(rmul, [f.args[0]._n, f.args[1]._n])
    if op == "div":
        return napply(rdiv, [f.args[0]._n, f.args[1]._n])
    if op == "call":
        fn = f.args[0]
        fs = [a for a in f.args[1:] if isinstance(a, FNode)]
        ks = [a for a in f.args[1:] if not isinstance(a, FNode)]

        def g(*rs):
            return ruf(fn, list(rs) + ks)

        if not fs:
            return Leaf(ruf(fn, ks))
        return napply(g, [a._n for a in fs])
    raise Undecided("norm: " + op)


# -------------------------------------------------------------------------------------- comparisons
def ncond(n, pred):
    """BDD for the predicate pred ('gt','ge','eq') of normal form n against 0."""
    if isinstance(n, Leaf):
        return rcond(n.r, pred)
    return bite(bvar(n.v), ncond(n.hi, pred), ncond(n.lo, pred))


def rcond(r, pred):
    s = rsign(r)
    if s is not None:
        if pred == "gt":
            if s == "pos":
                return TRUE
            if s in ("neg", "zero", "np"):
                return FALSE
        elif pred == "ge":
            if s in ("pos", "nn", "zero"):
                return TRUE
            if s == "neg":
                return FALSE
        else:
            if s == "zero":
                return TRUE
            if s in ("pos", "neg"):
                return FALSE
    # strip sign-known factors of the denominator; multiply by the others
    n = r[0]
    flip = False
    for k, e in r[1]:
        if e % 2 == 0:
            continue
        fs = psign(dict(k))
        if fs == "pos":
            continue
        if fs == "neg":
            flip = not flip
            continue
        n = pmul(n, dict(k))
    if flip:
        n = pscale(n, Fraction(-1))
    # monotone simplifications: sqrt(P) compared to zero
    # canonical sign and scale
    lead = n[max(n, key=_mono_key)]
    q = pscale(n, 1 / abs(lead))
    neg = q[max(q, key=_mono_key)] < 0
    if neg:
        q = pscale(q, Fraction(-1))
    # positive / nonnegative monomial content can be dropped when strictly positive
    g = None
    for m in q:
        dm = dict(m)
        g = dm if g is None else {a: min(e, dm[a]) for a, e in g.items() if a in dm}
    g = {a: e for a, e in (g or {}).items() if Atom.all[a].sign == "pos"}
    if g:
        gm = tuple(sorted(g.items()))
        q = {_mdiv(m, gm): c for m, c in q.items()}
    k = _poly_key(q)
    z = batom(("z", k), ("z", q))
    p = batom(("p", k), ("p", q))
    if pred == "eq":
        return z
    if pred == "gt":
        return band(bnot(z), bnot(p) if neg else p)
    return bor(z, bnot(p) if neg else p)


_pk = {}
_pk_list = []


def _poly_key(q):
    e = fkey(q)
    k = _pk.get(e)
    if k is not None:
        return k
    mset = frozenset(q)
    for i, (ms, p) in enumerate(_pk_list):
        if ms == mset and approx_zero_diff(p, q):
            _pk[e] = i
            return i
    _pk_list.append((mset, q))
    _pk[e] = len(_pk_list) - 1
    return _pk[e]


def fcmp(pred, a, b):
    """pred in lt le gt ge eq ne. Real semantics (NaN excluded). Returns BDD."""
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        return TRUE if {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[pred] else FALSE
    if a.op == "ite" and _has_big(a):
        return bite(a.args[0], fcmp(pred, a.args[1], b), fcmp(pred, a.args[2], b))
    if b.op == "ite" and _has_big(b):
        return bite(b.args[0], fcmp(pred, a, b.args[1]), fcmp(pred, a, b.args[2]))
    for x, y, fl in ((a, b, False), (b, a, True)):
        if y.op == "const" and (abs(y.args[0]) >= BIG or y.args[0] != y.args[0]):
            if y.args[0] != y.args[0]:
                return FALSE if pred != "ne" else TRUE
            # finite, moderate symbolic value against an infinite/huge bound
            big = y.args[0] > 0
            if pred in ("eq",):
                return FALSE
            if pred == "ne":
                return TRUE
            lt = pred in ("lt", "le")
            if fl:
                lt = not lt
            return TRUE if lt == big else FALSE
    if pred == "lt":
        return ncond(norm(f_op("sub", b, a)), "gt")
    if pred == "le":
        return ncond(norm(f_op("sub", b, a)), "ge")
    if pred == "gt":
        return ncond(norm(f_op("sub", a, b)), "gt")
    if pred == "ge":
        return ncond(norm(f_op("sub", a, b)), "ge")
    if pred == "eq":
        return ncond(norm(f_op("sub", a, b)), "eq")
    return bnot(ncond(norm(f_op("sub", a, b)), "eq"))


def _has_big(f, d=0):
    if f.op == "const":
        return not (abs(f.args[0]) < BIG)
    if f.op == "ite" and d < 40:
        return _has_big(f.args[1], d + 1) or _has_big(f.args[2], d + 1)
    return False


# ---------------------------------------------------------------------- feasibility of a cube (linear)
def cube_constraints(cube):
    """[(poly, rel)] with rel in '>','==','!='; literal list -> constraints on polynomials"""
    zs = {}
    ps = {}
    for v, val in cube:
        kind, p = BATOM[v]
        if kind == "z":
            zs[_poly_key(p)] = (p, val)
        elif kind == "p":
            ps[_poly_key(p)] = (p, val)
    out = []
    for k, (p, val) in zs.items():
        if val:
            out.append((p, "=="))
        elif k in ps:
            out.append((p if ps[k][1] else pscale(p, Fraction(-1)), ">"))
        else:
            out.append((p, "!="))
    for k, (p, val) in ps.items():
        if k in zs:
            continue
        # p's bit is only meaningful when nonzero: p true -> >=0, false -> <=0
        out.append((p if val else pscale(p, Fraction(-1)), ">="))
    return out


def _atom_bounds(a):
    at = Atom.all[a]
    out = []
    if at.sign == "pos":
        out.append((pvar(at), ">"))
    elif at.sign == "nn":
        out.append((pvar(at), ">="))
    if at.lo is not None:
        out.append((psub(pvar(at), pconst(at.lo[0])), at.lo[1]))
    if at.hi is not None:
        out.append((psub(pconst(at.hi[0]), pvar(at)), at.hi[1]))
    if at.fn in ("sin", "cos"):
        out.append((padd(pvar(at), pconst(1)), ">="))
        out.append((psub(pconst(1), pvar(at)), ">="))
    return out


def cube_feasible(cons):
    cons = list(cons)
    if not _cube_feasible(cons):
        return False
    # equalities that pin a symbol are substituted, so that non-linear monomials see them
    eqs = [p for p, rel in cons if rel == "=="]
    if not eqs or not any(len(m) > 1 or m and m[0][1] > 1 for p, _ in cons for m in p):
        return True
    for _ in range(6):
        done = False
        for i, (p, rel) in enumerate(cons):
            if rel != "==":
                continue
            sv = _solve(p)
            if sv is None or sv[1][1]:
                continue
            at, val = sv
            bnds = _atom_bounds(at)
            try:
                new = []
                for q, r in cons[:i] + cons[i + 1:] + bnds:
                    x = rsubst((q, ()), at, val) if any(_atom_mentions(y, at) for m in q for y, _ in m) else (q, ())
                    if x[1]:
                        raise Undecided("denominator")
                    q2 = x[0]
                    cst = as_const((q2, ())) if q2 else 0
                    if cst is not None:
                        if r == "==" and cst != 0 or r == "!=" and cst == 0 or r == ">" and cst <= 0 or r == ">=" and cst < 0:
                            return False
                        continue
                    new.append((q2, r))
            except (Undecided, ZeroDivisionError):
                continue
            cons = new
            done = True
            break
        if not done:
            return True
        if not _cube_feasible(cons):
            return False
    return True


def _cube_feasible(cons):
    """Polyhedral emptiness (Fourier-Motzkin) of linear constraints, non-linear monomials as independent
    dimensions. False only when certainly empty."""
    lin = []
    atoms = set()
    for p, rel in cons:
        for m in p:
            for a, e in m:
                atoms.add(a)
    cons = list(cons)
    for a in atoms:
        cons += _atom_bounds(a)
    ms = set()
    for p, rel in cons:
        if rel == "!=":
            continue
        if rel == "==":
            lin.append((p, ">="))
            lin.append((pscale(p, Fraction(-1)), ">="))
        else:
            lin.append((p, rel))
        for m in p:
            if m != ONE:
                ms.add(m)
    cur = lin
    for m in sorted(ms):
        pos = [(p, r) for p, r in cur if p.get(m, 0) > 0]
        neg = [(p, r) for p, r in cur if p.get(m, 0) < 0]
        rest = [(p, r) for p, r in cur if not p.get(m, 0)]
        if len(pos) * len(neg) > 2000:
            return True
        for p, r in pos:
            for q, s in neg:
                n = padd(pscale(p, 1 / p[m]), pscale(q, -1 / q[m]))
                rel = ">" if ">" in (r, s) and (r == ">" or s == ">") else ">="
                rest.append((n, rel))
        cur = []
        seen = set()
        for p, r in rest:
            c = as_const((p, ()))
            if c is not None:
                if c < 0 or (c == 0 and r == ">"):
                    return False
                continue
            k = (fkey(p), r)
            if k not in seen:
                seen.add(k)
                cur.append((p, r))
        if len(cur) > 4000:
            return True
    # equalities implied against '!='
    for p, rel in cons:
        if rel == "!=" and not p:
            return False
    return True


def rsubst(r, a, val):
    """substitute atom a by rational val in r (also inside function arguments)"""
    n = psubst(r[0], a, val)
    d = R1
    for k, e in r[1]:
        f = psubst(dict(k), a, val)
        for _ in range(e):
            d = rmul(d, f)
    return R0 if not n[0] else rdiv(n, d)


def _atom_mentions(x, a):
    at = Atom.all[x]
    if x == a:
        return True
    for g in at.args:
        if isinstance(g, tuple):
            if any(_atom_mentions(y, a) for m in g[0] for y, _ in m):
                return True
            if any(_atom_mentions(y, a) for k, _ in g[1] for m, _ in k for y, _ in m):
                return True
    return False


def psubst(p, a, val):
    out = R0
    for m, c in p.items():
        t = rconst(c)
        for x, e in m:
            if x == a:
                t = rmul(t, rpow(val, e))
            elif _atom_mentions(x, a):
                at = Atom.all[x]
                t = rmul(t, rpow(ruf(at.fn, [rsubst(g, a, val) if isinstance(g, tuple) else g for g in at.args]), e))
            else:
                t = rmul(t, ({((x, e),): Fraction(1)}, ()))
        out = radd(out, t)
    return out


def _solve(p):
    """(atom, value) with p == 0 <=> atom == value, for an atom of degree one (coefficient assumed non-zero)"""
    best = None
    for m, c in p.items():
        for at, e in m:
            if e != 1 or Atom.all[at].fn != "sym":
                continue
            coef, rest = {}, {}
            ok = True
            for mm, cc in p.items():
                d = dict(mm)
                if at in d:
                    if d[at] != 1:
                        ok = False
                        break
                    coef[tuple(t for t in mm if t[0] != at)] = cc
                else:
                    rest[mm] = cc
                if any(x != at and _atom_mentions(x, at) for x in d):
                    ok = False
                    break
            if not ok:
                continue
            k = 0 if list(coef) == [ONE] else 1 + len(coef)
            if best is None or k < best[0]:
                best = (k, at, coef, rest)
    if best is None:
        return None
    k, at, coef, rest = best
    return at, rneg(rdiv((rest, ()), (coef, ())))


def eq_under(cons, a, b, tol=TOL):
    """a == b given the constraints (uses equalities solvable for one atom)"""
    if req(a, b, tol):
        return True
    subs = 0
    eqs = [p for p, rel in cons if rel == "=="]
    while eqs:
        p = eqs.pop(0)
        s = _solve(p)
        if s is None:
            continue
        at, val = s
        try:
            a, b = rsubst(a, at, val), rsubst(b, at, val)
            eqs = [rsubst((q, ()), at, val)[0] for q in eqs]
        except Undecided:
            continue
        eqs = [q for q in eqs if q]
        subs += 1
        if req(a, b, tol):
            return True
    return False


class Mismatch:
    def __init__(self, cube, a, b):
        self.cube, self.a, self.b = cube, a, b

    def __str__(self):
        c = " & ".join(lits_str(self.cube)) or "always"
        return "when [%s]: code computes %s, specified %s" % (c, self.a if isinstance(self.a, str) else rstr(self.a), self.b if isinstance(self.b, str) else rstr(self.b))


def equal(fa, fb, pc=TRUE, extra=(), tol=TOL, eqfn=None):
    """Compare two FNodes under path condition pc: None if equal on every feasible region, else Mismatch."""
    na, nb = norm(fa), norm(fb)
    st = [(na, nb, pc, ())]
    extra = list(extra)
    count = 0
    memo = set()
    while st:
        a, b, c, cube = st.pop()
        if c is FALSE:
            continue
        count += 1
        if count > 200000:
            raise Undecided("comparison budget exhausted")
        v = min(_top(a, b), c.v)
        if v == 1 << 60:
            if a is b or req(a.r, b.r, tol):
                continue
            cons = cube_constraints(cube) + extra
            if eq_under(cons, a.r, b.r, tol):
                continue
            if eqfn and eqfn(cons, a.r, b.r):
                continue
            if not cube_feasible(cons):
                continue
            return Mismatch(cube, a.r, b.r)
        for hi in (True, False):
            c2 = (c.hi if hi else c.lo) if c.v == v else c
            st.append((_cof(a, v, hi), _cof(b, v, hi), c2, cube + ((v, hi),)))
    return None


def feasible_cube(b, extra=()):
    """A feasible cube of the BDD (partial cubes that are already empty are pruned), or None"""
    if b is FALSE:
        return None
    extra = list(extra)
    st = [(b, (), 0)]
    while st:
        n, cube, depth = st.pop()
        if n is FALSE:
            continue
        if n is TRUE:
            if cube_feasible(cube_constraints(cube) + extra):
                return cube
            continue
        if depth >= 4 and depth % 2 == 0 and not cube_feasible(cube_constraints(cube) + extra):
            continue
        st.append((n.lo, cube + ((n.v, False),), depth + 1))
        st.append((n.hi, cube + ((n.v, True),), depth + 1))
    return None


def feasible(b, extra=()):
    """Is some cube of the BDD feasible?"""
    return feasible_cube(b, extra) is not None


def reset():
    BDD.tab.clear()
    _ite.clear()
    BATOM.clear()
    _batom.clear()
    Atom.all.clear()
    _syms.clear()
    _uf.clear()
    _BAD.clear()
    FNode.tab.clear()
    _pk.clear()
    _pk_list.clear()
    BUDGET[0] = 0
