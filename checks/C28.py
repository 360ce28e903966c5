from vp import *
import math
from fractions import Fraction

# published coefficients: Newman (1984) for the Struve functions; Cody and Thacher (1968, 1969) for E1 and Ei
ST0 = ([1.909859164, -1.909855001, 0.687514637, -0.126164557, 0.013828813, -0.000876918], [0.99999906, 4.77228920, 3.85542044, 0.32303607], [1., 4.88331068, 4.28957333, 0.52120508])
ST1 = ([1.909859286, -1.145914713, 0.294656958, -0.042070508, 0.003785727, -0.000207183], [1.00000004, 3.92205313, 2.64893033, 0.27450895], [1., 3.81095112, 2.26216956, 0.10885141])
X0 = 0.372507410781366634461991866580
EI0 = ([-4.1658081333604994241879e11, 1.2177698136199594677580e10, -2.5301823984599019348858e10, 3.1984354235237738511048e8, -3.5377809694431133484800e8, -3.1398660864247265862050e5, -1.4299841572091610380064e6,
        -1.4287072500197005777376e4, -1.2831220659262000678155e3, -1.2963702602474830028590e1],
       [-1.7934749837151009723371e11, 9.8900934262481749439886e10, -2.8986272696554495342658e10, 5.4229617984472955011862e9, -7.0108568774215954065376e8, 6.4698830956576428587653e7, -4.2648434812177161405483e6,
        1.9418469440759880361415e5, -5.5648470543369082846819e3, 7.688671875000000000000e1])
EI1 = ([9.981193787537396413219e-1, 9.565134591978630774217e0, -3.988850730390541057912e0, 1.120011024227297451523e1, -3.015761863840593359165e1, 1.945603779539281810439e1, 1.052976392459015155422e1,
        -2.421106956980653511550e1, -2.378372882815725244124e0, -2.645677793077147237806e0],
       [1.249884822712447891440e0, -2.369210235636181001661e2, 4.731097187816050252967e2, 2.852397548119248700147e1, 7.608194509086645763123e2, -8.791401054875438925029e0, 3.697412299772985940785e2,
        4.644185932583286942650e0, 1.598517957704779356479e-4])
EI2 = ([9.999933106160568739091e-1, -1.845086232391278674524e0, 2.652575818452799819855e1, 2.495487730402059440626e1, -3.323612579343962284333e1, -9.134835699998742552432e-1, -2.105740799548040450394e1,
        -1.000641913989284829961e1, -1.860092121726437582253e1, -1.647721172463463140042e0],
       [1.001533852045342697818e0, -1.093556195391091243924e1, 1.991004470817742470726e2, 1.192832423968601006985e3, 4.429413178337928401161e1, 2.538819315630708031713e2, 5.994932325667407355255e1,
        6.403800405352415551324e1, 9.792403599217290296840e1])
EI3 = ([1.00000000000000485503e0, -3.00000000320981265753e0, -5.00006640413131002475e0, -7.06810977895029358836e0, -1.52856623636929636839e1, -7.63147701620253630855e0, -2.79798528624305389340e1,
        -1.81949664929868906455e1, -2.23127670777632409550e2, 1.75338801265465972390e2],
       [1.99999999999048104167e0, -2.99999894040324959612e0, -7.99243595776339741065e0, -1.20187763547154743238e1, 7.04831847180424675988e1, 1.17179220502086455287e2, 1.37790390235747998793e2,
        3.97277109100414518365e0, 3.97845977167414720840e4])
E10 = ([-1.4815102102575750838086e5, 1.5026059476436982420737e5, 8.9904972007457256553251e4, 1.5924175980637303639884e4, 2.1500672908092918123209e3, 1.1669552669734461083368e2, 5.0196785185439843791020e0],
       [2.5666493484897117319268e5, 1.8434070063353677359298e5, 5.2440529172056355429883e4, 8.1258035174768735759866e3, 7.5043163907103936624165e2, 4.0205465640027706061433e1, 1.0])
E11 = ([1.737331760720576030932e-8, 9.999989642347613068437e-1, 1.487967702840464066613e1, 7.633628843705946890896e1, 1.698106763764238382705e2, 1.700632978311516129328e2, 7.246689782858597021199e1,
        1.107326627786831743809e1, 3.828573121022477169108e-1],
       [1.0, 1.587964570758947927903e1, 9.021658450529372642314e1, 2.342573504717625153053e2, 2.953136335677908517423e2, 1.775728186717289799677e2, 4.662179610356861756812e1, 4.344836335509282083360e0,
        8.258160008564488034698e-2])
E12 = ([-9.9999999999999999087819e-1, -5.2199632588522572481039e1, -1.0611777263550331766871e3, -1.0816852399095915622498e4, -5.9346841538837119172356e4, -1.7503273087497081314708e5, -2.6181454937205639647381e5,
        -1.7283375773777593926828e5, -3.5846198743996904308695e4, -1.3276881505637444622987e2],
       [1.0, 5.4199632588522559414924e1, 1.1635769915320848035459e3, 1.2842808586627297365998e4, 7.9231787945279043698718e4, 2.7858134710520842139357e5, 5.4616842050691155735758e5, 5.5903756210022864003380e5,
        2.5989762083608489777411e5, 3.9147856245556345627078e4])


def poly(co, x):
    s = fconst(0)
    for k in reversed(co):
        s = s * x + k
    return s


def chebt(n, x):
    a, b = fconst(1), x
    for _ in range(n):
        a, b = b, x * b * 2 - a
    return a


def cheb_d(n, x):
    """n U_{n-1}"""
    if n == 0:
        return fconst(0)
    a, b = fconst(1), x * 2
    for _ in range(n - 1):
        a, b = b, x * b * 2 - a
    return a * n


def leg(n, x):
    a, b = fconst(1), x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, (x * b * (2 * k + 1) - a * k) / (k + 1)
    return b


def leg_d(n, x):
    a0, b0 = fconst(1), x
    a, b = fconst(0), fconst(1)
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((b0 + x * b) * (2 * k + 1) - a * k) / (k + 1)
        a0, b0 = b0, (x * b0 * (2 * k + 1) - a0 * k) / (k + 1)
    return b


REC = {"J": (1, -1), "Y": (1, -1), "I": (-1, 1), "K": (1, 1)}     # F_{n+1} = s (2n/x) F_n + t F_{n-1}
ODDREF = {"J": -1, "Y": -1, "I": 1, "K": 1}                        # F_{-n} = r^n F_n


def bessel(F, o, x):
    """F_o(x) written with two neighbouring orders (0 and 1, or nu and nu+1), so that recurrences are identities"""
    s, t = REC[F]
    off, base = 0, None
    v = T.norm(o)
    if not isinstance(v, T.Leaf):
        raise Undecided("order of a Bessel function depends on conditions")
    num, den = v.r
    if den:
        raise Undecided("order of a Bessel function is not linear")
    d = dict(num)
    cst = d.pop((), 0)
    if not d:
        if Fraction(cst).denominator != 1:
            raise Undecided("half-integer order")
        n = int(cst)
        sg = 1
        if n < 0:
            n, sg = -n, ODDREF[F] ** -n
        if x.op == "const" and x.args[0] == 0:
            if F in "JI":
                return fconst(sg if n == 0 else 0)
            raise Undecided("singular function at zero")
        a, b, k = fn("bessel" + F, 0, x), fn("bessel" + F, 1, x), 0
        if n == 0:
            return a * sg
        for k in range(1, n):
            a, b = b, b * (2 * k * s) / x + a * t
        return b * sg
    if x.op == "const":
        raise Undecided("symbolic order at a constant")
    kk = Fraction(cst)
    if kk.denominator != 1 or abs(kk) > 8:
        raise Undecided("order of a Bessel function")
    nu = o - float(kk)
    a, b = fn("bessel" + F, nu, x), fn("bessel" + F, nu + 1, x)
    k = int(kk)
    if k >= 0:
        for q in range(k):
            a, b = b, b * (nu + (q + 1)) * (2 * s) / x + a * t
        return a
    for q in range(-k):
        # F_{m-1} = (F_{m+1} - s 2m/x F_m)/t with m = nu - q
        a, b = (b - a * (nu - q) * (2 * s) / x) * t, a
    return a


def args_f(I, args, ins, st):
    """numeric arguments of a call (references are read)"""
    out = []
    for a, t in zip(args, ins[6]):
        if isinstance(a, A.Ptr):
            r = st.mem.get(a.r)
            cell = r.cells.get(a.o) if r is not None else None
            if cell is None:
                continue
            a, t = cell[1], "i%d" % (8 * cell[0]) if isinstance(cell[0], int) else "i32"
        if isinstance(a, int):
            w = int(t[1:]) if t[0] == "i" else 32
            a = fconst(a - (1 << w) if a >> (w - 1) else a)
        elif isinstance(a, A.IntF):
            a = a.f
        elif not isinstance(a, FNode):
            raise Undecided("argument of a special function")
        out.append(a)
    return out


def bhook(F):
    def h(I, name, args, ins, st, pc):
        o, x = args_f(I, args, ins, st)[:2]
        return bessel(F, o, x)
    return h


def bprime(F):
    def h(I, name, args, ins, st, pc):
        o, x = args_f(I, args, ins, st)[:2]
        return dspec(F, o, x)
    return h


def hankel(I, name, args, ins, st, pc):
    o, x = args_f(I, args, ins, st)[:2]
    return [bessel("J", o, x), bessel("Y", o, x)]


def conc(f):
    def h(I, name, args, ins, st, pc):
        o, x = args_f(I, args, ins, st)[:2]
        if o.op != "const":
            raise Undecided("symbolic degree")
        return f(int(o.args[0]), x)
    return h


def expint(I, name, args, ins, st, pc):
    a = args_f(I, args, ins, st)
    if len(a) == 1 or "expint<double>(double)" in name:
        return fn("Ei", a[0])
    return fn("En", a[0], a[1])


HOOKS = [(r"boost::math::cyl_bessel_j<", bhook("J")), (r"boost::math::cyl_neumann<", bhook("Y")), (r"boost::math::cyl_bessel_i<", bhook("I")), (r"boost::math::cyl_bessel_k<", bhook("K")),
         (r"boost::math::cyl_bessel_j_prime<", bprime("J")), (r"boost::math::cyl_neumann_prime<", bprime("Y")), (r"boost::math::cyl_bessel_i_prime<", bprime("I")), (r"boost::math::cyl_bessel_k_prime<", bprime("K")),
         (r"boost::math::cyl_hankel_1<", hankel), (r"boost::math::legendre_p<", conc(leg)), (r"boost::math::legendre_p_prime<", conc(leg_d)), (r"boost::math::chebyshev_t<", conc(chebt)),
         (r"boost::math::chebyshev_t_prime<", conc(cheb_d)), (r"boost::math::expint<", expint), (r"boost::math::tgamma<", "tgamma")]


def dspec(F, o, x):
    """dF_o/dx: F_{o-1} - o/x F_o (with the sign of K)"""
    sg = -1 if F == "K" else 1
    return bessel(F, o - 1, x) * sg - o / x * bessel(F, o, x)


def check(c):
    c.rule = ("abstract interpretation with the Boost functions as symbols closed under their recurrences (every order is rewritten to two neighbouring ones): the derivative wrappers must be the derivative identities for a symbolic order "
              "and argument; the piecewise approximations must be, on each interval, the rational expression with the published coefficients; refusal conditions are compared with the domain")
    c.level = "proof"
    c.floor = 150
    c.assumptions = ["Boost's functions are what their names say", "real arithmetic up to rounding (1e-12 on coefficients)"]
    c.trusted = ["published coefficients of Newman (1984) and Cody and Thacher (1968, 1969), checked against multiprecision values when the check was written"]
    m = c.unit("special.cpp")
    W = "BoostFunctions.h "
    x = sym("x", "pos")
    TOL = 1e-12
    T.NOISE = 1e-25     # coefficients of very different magnitudes: each is compared on its own

    def val(t, e, args, want, where, pc=TRUE, tol=TOL, allow=(), c=c):
        I = c.interp(m, uninterpreted=HOOKS)
        r = c.run(t, I, e, args, pc=pc, allow=allow)
        if r:
            c.eq(t, r.ret, want, m, where, pc=T.band(pc, r.pc), tol=tol)
        return r

    NM = {"J": ("j", "Cyl_Bessel_first_kind"), "Y": ("y", "Cyl_Bessel_second_kind"), "I": ("i", "Cyl_modified_Bessel_first_kind"), "K": ("k", "Cyl_modified_Bessel_second_kind")}
    nu, k = sym("nu"), sym("int:k")
    for F, (e, nm) in NM.items():
        val(nm + "[real order]", "vp_%s_d" % e, [nu, x], bessel(F, nu, x), W + nm)
        val(nm + "[integer order]", "vp_%s_i" % e, [A.IntF(k), x], bessel(F, k, x), W + nm)
        z = fconst(0)
        dn = nm + "_derivative"
        sg = -1 if F == "K" else 1
        # F_0' = -F_1 for J, Y and K, I_1 for I
        d0 = bessel(F, fconst(1), x) * (1 if F == "I" else -1)
        val(dn + "[real order]", "vp_d%s_d" % e, [nu, x], ite(eq(nu, 0), d0, dspec(F, nu, x)), W + dn)
        val(dn + "[integer order]", "vp_d%s_i" % e, [A.IntF(k), x], ite(eq(k, 0), d0, dspec(F, k, x)), W + dn)
        for n in range(-6, 13):
            for suf in "id":
                a = (n & 0xffffffff) if suf == "i" else fconst(n)
                val(nm + "[order %d%s]" % (n, suf), "vp_%s_%s" % (e, suf), [a, x], bessel(F, fconst(n), x), W + nm)
                val(dn + "[order %d%s]" % (n, suf), "vp_d%s_%s" % (e, suf), [a, x], d0 if n == 0 else dspec(F, fconst(n), x), W + dn)
                if F in "JI":
                    neg = -x
                    val(nm + "[order %d%s, negative argument]" % (n, suf), "vp_%s_%s" % (e, suf), [a, neg], bessel(F, fconst(n), neg), W + nm)
                    val(dn + "[order %d%s, negative argument]" % (n, suf), "vp_d%s_%s" % (e, suf), [a, neg], (bessel(F, fconst(1), neg) * (1 if F == "I" else -1)) if n == 0 else dspec(F, fconst(n), neg), W + dn)
                if F in "JI" and n >= 0:
                    val(dn + "[order %d%s at zero]" % (n, suf), "vp_d%s_%s" % (e, suf), [a, fconst(0)], fconst(0.5 if n == 1 else 0), W + dn)
                if F in "JI" and n >= 0:
                    val(nm + "[order %d%s at zero]" % (n, suf), "vp_%s_%s" % (e, suf), [a, fconst(0)], fconst(1 if n == 0 else 0), W + nm)

    def hank(t, e, o, want, where):
        I = c.interp(m, uninterpreted=HOOKS)
        p = I.alloc_array(I.st0, [fconst(0)] * 2)
        r = c.run(t, I, e, [o, x, p])
        if r:
            c.eq(t + " re", r.rd(p, 0), want[0], m, where, pc=r.pc, tol=TOL)
            c.eq(t + " im", r.rd(p, 1), want[1], m, where, pc=r.pc, tol=TOL)

    for suf, o, a in [("d", nu, nu), ("i", k, A.IntF(k))] + [(s, fconst(n), (n & 0xffffffff) if s == "i" else fconst(n)) for s in "id" for n in range(-4, 9)]:
        nm = "Cyl_Hankel_first_kind"
        t = "[%s order%s]" % ({"d": "real", "i": "integer"}[suf], "" if o in (nu, k) else " %d" % o.args[0])
        hank(nm + t, "vp_h_" + suf, a, [bessel(F, o, x) for F in "JY"], W + nm)
        d0 = [-bessel(F, fconst(1), x) for F in "JY"]
        dd = [ite(eq(o, 0), d0[q], dspec(F, o, x)) if o in (nu, k) else (d0[q] if o.args[0] == 0 else dspec(F, o, x)) for q, F in enumerate("JY")]
        hank(nm + "_derivative" + t, "vp_dh_" + suf, a, dd, W + nm + "_derivative")
    y = sym("y")
    ins = T.band(ge(y, -1), le(y, 1))
    for n in range(13):
        val("Legendre_polynomial[%d]" % n, "vp_leg", [n, y], leg(n, y), W + "Legendre_polynomial", pc=ins)
        val("Legendre_polynomial_derivative[%d]" % n, "vp_dleg", [n, y], leg_d(n, y), W + "Legendre_polynomial_derivative", pc=ins)
        val("Chebyshev_polynomial[%d]" % n, "vp_tch", [n, y], chebt(n, y), W + "Chebyshev_polynomial", pc=ins)
        val("Chebyshev_polynomial_shifted[%d]" % n, "vp_tchs", [n, y], chebt(n, y * 2 - 1), W + "Chebyshev_polynomial_shifted", pc=T.band(ge(y, 0), le(y, 1)))
        val("Chebyshev_polynomial_derivative[%d]" % n, "vp_dtch", [n, y], cheb_d(n, y), W + "Chebyshev_polynomial_derivative", pc=ins)
    for n in list(range(0, 30)) + [100, 170]:
        val("Factorial[%d]" % n, "vp_fact", [n], fconst(float(math.factorial(n))), W + "Factorial")
    a, b = sym("a"), sym("b")
    val("Chebyshev_polynomial_next", "vp_tchn", [y, a, b], y * a * 2 - b, W + "Chebyshev_polynomial_next")
    val("Gamma", "vp_gamma", [x], fn("tgamma", x), W + "Gamma")
    val("Ei", "vp_ei", [y], fn("Ei", y), W + "Ei")
    val("E1", "vp_e1", [x], fn("En", 1, x), W + "E1")

    # ---- piecewise approximations: (lower, upper, expression) of each piece
    def odd(co, z):
        return poly(co, z * z) * z

    t3, i3 = x / 3, fconst(3) / x
    s0 = [(0, 3, odd(ST0[0], t3)), (3, None, bessel("Y", fconst(0), x) + poly(ST0[1], i3 * i3) / poly(ST0[2], i3 * i3) * 2 / (x * math.pi))]
    s1 = [(0, 3, poly(ST1[0], t3 * t3) * t3 * t3), (3, None, bessel("Y", fconst(1), x) + poly(ST1[1], i3 * i3) / poly(ST1[2], i3 * i3) * 2 / math.pi)]

    def cfrac(al, be):
        f = fconst(0)
        for j in range(9, 0, -1):
            f = fconst(be[j - 1]) / (x + al[j] + f)
        return f + al[0]

    ch = lambda co: sum([chebt(j, x / 3 - 1) * (co[j] if j else co[0] / 2) for j in range(10)], fconst(0))
    lg = fn("log", x / X0)
    ei = [(0, 6, lg + (x - X0) * (ch(EI0[0]) / ch(EI0[1]))), (6, 12, exp(x) / x * cfrac(*EI1)), (12, 24, exp(x) / x * cfrac(*EI2)), (24, None, exp(x) / x * (fconst(1) + cfrac(*EI3) / x))]
    ix = fconst(1) / x
    e1 = [(0, 1, -fn("log", x) + poly(E10[0], x) / poly(E10[1], x)), (1, 4, exp(-x) * (poly(E11[0], ix) / poly(E11[1], ix))), (4, None, exp(-x) / x * (fconst(1) + ix * poly(E12[0], ix) / poly(E12[1], ix)))]
    xe = [(0, 24, exp(-x) * fn("Ei", x)), (24, None, ix * (fconst(1) + cfrac(*EI3) / x))]
    ds0 = [(lo, hi, fconst(2 / math.pi) - v) for lo, hi, v in s1]
    for nm, e, pieces, zero in (("Struve_zero_order", "vp_s0", s0, fconst(0)), ("Struve_first_order", "vp_s1", s1, fconst(0)), ("Struve_zero_order_derivative", "vp_ds0", ds0, fconst(2 / math.pi)),
                                ("Ei_approximation", "vp_eia", ei, None), ("E1_approximation", "vp_e1a", e1, None), ("expEi", "vp_expei", xe, None)):
        def piece(c, it, nm=nm, e=e, pieces=pieces):
            i, side = it
            lo, hi, v = pieces[i]
            # the bounds of an interval belong to either piece
            if side == "inside" and nm == "Ei_approximation" and i == 0:
                # Chebyshev sums: compared in the variable x/6, relative to the largest coefficient
                T.NOISE = 1e-14
                u = sym("u", "pos")
                chu = lambda co: sum([chebt(j, u * 2 - 1) * (co[j] if j else co[0] / 2) for j in range(10)], fconst(0))
                val("%s[0,6]" % nm, e, [u * 6], fn("log", u * 6 / X0) + (u * 6 - X0) * (chu(EI0[0]) / chu(EI0[1])), W + nm, pc=T.band(gt(u, 1e-7), lt(u, 1)), c=c)
                T.NOISE = 1e-25
                return
            if side == "inside":
                pc = gt(x, lo if lo else (0 if zero is not None or nm == "expEi" else 1e-7))
                if hi is not None:
                    pc = T.band(pc, lt(x, hi))
                val("%s[%s,%s]" % (nm, lo, hi if hi is not None else "inf"), e, [x], v, W + nm, pc=pc, c=c)
                return
            I = c.interp(m, uninterpreted=HOOKS)
            t = "%s[joint at %s]" % (nm, hi)
            r = c.run(t, I, e, [x], pc=eq(x, hi))
            if r:
                try:
                    res = [T.equal(r.ret, pieces[q][2], T.band(r.pc, eq(x, hi)), (), TOL) for q in (i, i + 1)]
                    c.require(t, None in res, W + nm, "at the joint the value is that of neither neighbouring piece")
                except Undecided as ex:
                    c.und(t, str(ex))
        c.pmap(piece, [(i, "inside") for i in range(len(pieces))] + [(i, "joint") for i in range(len(pieces) - 1)])
        if zero is not None:
            val("%s[at zero]" % nm, e, [fconst(0)], zero, W + nm)
        if nm != "expEi":
            z = sym("z")
            I = c.interp(m, uninterpreted=HOOKS)
            c.refuse("%s[outside the domain]" % nm, I, e, [z], W + nm, pc=lt(z, 0))
        if zero is None and nm != "expEi":
            I = c.interp(m, uninterpreted=HOOKS)
            c.refuse("%s[zero]" % nm, I, e, [fconst(0)], W + nm)
    z = sym("z")
    val("expEi[negative]", "vp_expei", [z], exp(-z) * fn("Ei", z), W + "expEi", pc=lt(z, 0))
