"""Interval and granularity analysis of scalar floating-point functions, over the IR.

Abstract value of a double: [lo, hi] (exact end points), g (every value is a multiple of 2^g) and err (bound on the accumulated
rounding with respect to real arithmetic, whole turns aside).  Transfer functions follow IEEE-754 round-to-nearest; fmod is exact.
Comparisons split the path and refine their operands.  Paths are enumerated by replaying a decision prefix; a path whose operands
become empty is infeasible.  Nothing of the analysed code is executed: the IR is interpreted over intervals of inputs.
"""
import math
from fractions import Fraction
from terms import Undecided


class Empty(Exception):
    pass


class Bad(Exception):
    def __init__(self, msg, loc):
        self.msg, self.loc = msg, loc


def ulp(x):
    x = abs(x)
    if x == 0:
        return 2.0 ** -1074
    m, e = math.frexp(x)
    return math.ldexp(1.0, max(e - 53, -1074))


def tz(x):
    """largest g such that x is a multiple of 2^g"""
    if x == 0:
        return 4000
    n, d = Fraction(x).as_integer_ratio() if not isinstance(x, Fraction) else (x.numerator, x.denominator)
    if d != 1:
        return -(d.bit_length() - 1)
    return (n & -n).bit_length() - 1


class V:
    __slots__ = ("lo", "hi", "g", "err")

    def __init__(self, lo, hi, g=-1074, err=0.0):
        self.lo, self.hi, self.g, self.err = lo, hi, g, err
        self.fix()

    def fix(self):
        if math.isinf(self.lo) or math.isinf(self.hi) or self.lo != self.lo or self.hi != self.hi:
            raise Undecided("overflow to infinity")
        if self.lo > self.hi:
            raise Empty()
        if self.lo == self.hi:
            self.g = max(self.g, tz(self.lo))
            return
        m = self.lo if self.lo > 0 else -self.hi if self.hi < 0 else 0
        if m > 0:
            self.g = max(self.g, math.frexp(m)[1] - 53)
        g = self.g
        if g > -1074 and g < 970:
            q = Fraction(2) ** g
            l = -((-Fraction(self.lo)) // q) * q
            h = (Fraction(self.hi) // q) * q
            if l > h:
                raise Empty()
            self.lo, self.hi = float(l), float(h)
            if self.lo == self.hi:
                self.g = max(self.g, tz(self.lo))

    def mx(self):
        return max(abs(self.lo), abs(self.hi))

    def step(self):
        return math.ldexp(1.0, max(-1074, min(self.g, 1000)))


class I:
    """integer value: interval"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class P:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def const(x):
    return V(x, x, tz(x))


def f32(x):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Run:
    def __init__(self, m, dec):
        self.m, self.dec, self.i = m, dec, 0
        self.mem = {}
        self.nc = 0
        self.steps = 0
        self.loc = 0
        self.called = set()
        if not hasattr(m, "infile"):
            m.infile = ["/MathUtils/" in f for f in m.files]

    def choose(self, n):
        if self.i < len(self.dec):
            k = self.dec[self.i][0]
        else:
            self.dec.append([0, n])
            k = 0
        self.i += 1
        return k

    # ---- transfer functions
    def rnd(self, lo, hi, g, err):
        m = max(abs(lo), abs(hi))
        exact = g > -1074 and m < math.ldexp(1.0, min(g + 53, 1023))
        return V(lo, hi, g, err + (0.0 if exact else 0.5 * ulp(m)))

    def add(self, a, b):
        return self.rnd(a.lo + b.lo, a.hi + b.hi, min(a.g, b.g), a.err + b.err)

    def neg(self, a):
        return V(-a.hi, -a.lo, a.g, a.err)

    def mul(self, a, b):
        p = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return self.rnd(min(p), max(p), max(-1074, a.g + b.g), a.mx() * b.err + b.mx() * a.err)

    def div(self, a, b):
        if b.lo <= 0 <= b.hi:
            raise Undecided("division by an interval containing zero")
        p = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        mn = min(abs(b.lo), abs(b.hi))
        return self.rnd(min(p), max(p), -1074, a.err / mn + a.mx() * b.err / mn / mn)

    def less(self, a, b, strict):
        """decide a < b (or <=), refining"""
        if a.hi < b.lo or (not strict and a.hi <= b.lo):
            return True
        if a.lo > b.hi or (strict and a.lo >= b.hi):
            return False
        if self.choose(2) == 0:
            self.upper(a, b.hi, strict)
            self.lower(b, a.lo, strict)
            return True
        self.lower(a, b.lo, not strict)
        self.upper(b, a.hi, not strict)
        return False

    def upper(self, v, x, strict):
        if strict and v.hi >= x:
            q = Fraction(2) ** max(-1074, min(v.g, 1000))
            h = ((Fraction(x) - q) // q) * q if Fraction(x) % q == 0 else (Fraction(x) // q) * q
            v.hi = min(v.hi, float(h), math.nextafter(x, -math.inf))
        else:
            v.hi = min(v.hi, x)
        v.fix()

    def lower(self, v, x, strict):
        n = V(-v.hi, -v.lo, v.g, v.err)
        self.upper(n, -x, strict)
        v.lo, v.hi, v.g = -n.hi, -n.lo, n.g
        v.fix()

    def fcmp(self, pred, a, b):
        p = pred[1:] if pred[0] in "ou" and pred not in ("ord", "uno") else pred
        if pred in ("ord", "true"):
            return 1
        if pred in ("uno", "false"):
            return 0
        if p == "lt":
            return int(self.less(a, b, True))
        if p == "le":
            return int(self.less(a, b, False))
        if p == "gt":
            return int(self.less(b, a, True))
        if p == "ge":
            return int(self.less(b, a, False))
        if p in ("eq", "ne"):
            t = self.less(a, b, False) and self.less(b, a, False)
            return int(t == (p == "eq"))
        raise Undecided("comparison " + pred)

    def fmod(self, x, c):
        if c.lo != c.hi or c.lo == 0:
            raise Undecided("fmod by a variable")
        k = abs(c.lo)
        if x.lo == x.hi:
            r = const(math.fmod(x.lo, k))
            r.err = x.err
            return r
        ck = const(k)
        if self.less(x, ck, True):
            if self.less(const(-k), x, True):
                return x
            s = -1
        else:
            s = 1
        g = min(x.g, c.g)
        h = float((Fraction(k) - Fraction(2) ** g)) if g > -1074 else math.nextafter(k, 0)
        return V(0.0, h, g, x.err) if s > 0 else V(-h, 0.0, g, x.err)

    def remainder(self, x, c):
        if c.lo != c.hi or c.lo == 0:
            raise Undecided("remainder by a variable")
        k = abs(c.lo) / 2
        if self.less(x, const(k), True) and self.less(const(-k), x, True):
            return x
        return V(-k, k, min(x.g, c.g), x.err)

    def call(self, name, args):
        n = name
        base = n.split(".")[1] if n.startswith("llvm.") else n
        if base.endswith("f") and base[:-1] in ("fmod", "floor", "ceil", "trunc", "round", "rint", "fabs", "remainder"):
            base = base[:-1]
        if base == "fmod":
            return self.fmod(*args)
        if base == "remainder":
            return self.remainder(*args)
        if base in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
            x = args[0]
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda t: math.floor(t + 0.5) if t >= 0 else math.ceil(t - 0.5)}.get(base, round)
            lo, hi = float(f(x.lo)), float(f(x.hi))
            return V(lo, hi, max(0, x.g), 0.0)  # some integer
        if base in ("fabs", "abs") and isinstance(args[0], V):
            x = args[0]
            if self.less(x, const(0.0), True):
                return self.neg(x)
            return x
        if base in ("minnum", "fmin", "maxnum", "fmax"):
            a, b = args
            t = self.less(a, b, True)
            return (a if t else b) if "min" in base else (b if t else a)
        if base == "copysign" and args[1].lo == args[1].hi:
            x = self.call("fabs", [args[0]])
            return x if args[1].lo > 0 else self.neg(x)
        if base in ("fmuladd", "fma"):
            return self.add(self.mul(args[0], args[1]), args[2])
        raise Undecided("call of " + name)

    # ---- IR
    def k(self, c):
        t = c[0]
        if t == "i":
            v = int(c[2])
            if c[1] > 1 and v >= 1 << (c[1] - 1):
                v -= 1 << c[1]
            return v
        if t == "f":
            return const(float.fromhex(c[1])) if c[1] not in ("nan", "inf", "-inf") else None
        if t == "g":
            return ("G", self.m.alias.get(c[1], c[1]))
        if t in ("n", "u", "md"):
            return None
        raise Undecided("constant")

    def func(self, name, args, depth=0):
        f = self.m.raw[name]
        self.called.add(name)
        if depth > 30:
            raise Undecided("recursion")
        vals = list(args) + [None] * (f["nvals"] - len(args))
        get = lambda o: vals[o] if isinstance(o, int) else self.k(o)
        b, prev = 0, -1
        while True:
            nb = None
            phis = []
            for ins in f["blocks"][b][1]:
                self.steps += 1
                if self.steps > 4000:
                    raise Undecided("loop not bounded by the analysis")
                op, d = ins[0], ins[1]
                if ins[2] and self.m.infile[ins[2] // 1000000]:
                    self.loc = ins[2]
                if op == "phi":
                    for pb, o in ins[4]:
                        if pb == prev:
                            phis.append((d, get(o)))
                    continue
                if phis:
                    for x, v in phis:
                        vals[x] = v
                    phis = []
                if op == "br":
                    if ins[3] is None:
                        nb = ins[4]
                    else:
                        c = get(ins[3])
                        if not isinstance(c, int):
                            raise Undecided("condition")
                        nb = ins[4] if c & 1 else ins[5]
                    break
                if op == "switch":
                    c = get(ins[3])
                    if not isinstance(c, int):
                        raise Undecided("switch")
                    nb = ins[4]
                    for kv, t in ins[5]:
                        if self.k(kv) == c:
                            nb = t
                    break
                if op == "ret":
                    return None if ins[3] is None else get(ins[3])
                if op == "alloca":
                    self.nc += 1
                    vals[d] = P(self.nc)
                elif op == "store":
                    p = get(ins[6])
                    if not isinstance(p, P):
                        raise Undecided("store")
                    self.mem[p.k] = get(ins[5])
                elif op == "load":
                    p = get(ins[5])
                    if isinstance(p, P):
                        vals[d] = self.mem.get(p.k)
                    elif isinstance(p, tuple):
                        g = self.m.globals.get(p[1])
                        if not g or not g["const"] or "init" not in g:
                            raise Undecided("load of a global")
                        vals[d] = self.k(g["init"])
                    else:
                        raise Undecided("load")
                elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                    x, y = get(ins[4][0]), get(ins[4][1])
                    if not (isinstance(x, V) and isinstance(y, V)):
                        raise Undecided("operand")
                    r = self.add(x, y) if op == "fadd" else self.add(x, self.neg(y)) if op == "fsub" else self.mul(x, y) if op == "fmul" else self.div(x, y) if op == "fdiv" else self.fmod(x, y)
                    if ins[3] == "f":
                        r = V(f32(r.lo), f32(r.hi), r.g, r.err + r.mx() * 2.0 ** -24)
                    vals[d] = r
                elif op == "fneg":
                    vals[d] = self.neg(get(ins[4][0]))
                elif op == "fcmp":
                    x, y = get(ins[5]), get(ins[6])
                    if not (isinstance(x, V) and isinstance(y, V)):
                        raise Undecided("operand")
                    vals[d] = self.fcmp(ins[3], x, y)
                elif op == "icmp":
                    x, y = get(ins[5]), get(ins[6])
                    if isinstance(x, I):
                        x = self.pick(x, y)
                    if isinstance(y, I):
                        y = self.pick(y, x)
                    if not (isinstance(x, int) and isinstance(y, int)):
                        raise Undecided("integer comparison")
                    vals[d] = int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[ins[3]])
                elif op == "select":
                    c = get(ins[4][0])
                    if not isinstance(c, int):
                        raise Undecided("select")
                    vals[d] = get(ins[4][1]) if c & 1 else get(ins[4][2])
                elif op in ("xor", "and", "or", "add", "sub", "mul"):
                    x, y = get(ins[4][0]), get(ins[4][1])
                    if isinstance(x, int) and isinstance(y, int):
                        vals[d] = {"xor": x ^ y, "and": x & y, "or": x | y, "add": x + y, "sub": x - y, "mul": x * y}[op]
                    elif op in ("add", "sub", "mul") and ins[3] in ("i32", "i64"):
                        x = x if isinstance(x, I) else I(x, x)
                        y = y if isinstance(y, I) else I(y, y)
                        p = [x.lo + y.lo, x.hi + y.hi] if op == "add" else [x.lo - y.hi, x.hi - y.lo] if op == "sub" else [u * w for u in (x.lo, x.hi) for w in (y.lo, y.hi)]
                        w = int(ins[3][1:])
                        if min(p) < -(1 << (w - 1)) or max(p) >= 1 << (w - 1):
                            raise Bad("integer overflow", self.loc)
                        vals[d] = I(min(p), max(p))
                    else:
                        raise Undecided("integer operation")
                elif op in ("fptosi", "fptoui"):
                    x = get(ins[4][0])
                    w = int(ins[3][1:])
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
                    if math.trunc(x.lo) < lo or math.trunc(x.hi) > hi:
                        raise Bad("conversion of a value outside of the integer type (undefined)", self.loc)
                    vals[d] = I(math.trunc(x.lo), math.trunc(x.hi))
                elif op in ("sitofp", "uitofp"):
                    x = get(ins[4][0])
                    vals[d] = const(float(x)) if isinstance(x, int) else V(float(x.lo), float(x.hi), 0, 0.0)
                elif op in ("zext", "sext", "trunc"):
                    vals[d] = get(ins[4][0])
                elif op == "fptrunc":
                    x = get(ins[4][0])
                    vals[d] = x if ins[3] != "f" else V(f32(x.lo), f32(x.hi), x.g, x.err + x.mx() * 2.0 ** -24) if x.lo != x.hi or f32(x.lo) != x.lo else x
                elif op == "fpext":
                    vals[d] = get(ins[4][0])
                elif op in ("call", "invoke"):
                    cal = get(ins[4])
                    if not (isinstance(cal, tuple) and cal[0] == "G"):
                        raise Undecided("indirect call")
                    a = [get(o) for o in ins[5]]
                    r = self.func(cal[1], a, depth + 1) if cal[1] in self.m.raw else self.call(cal[1], a)
                    if d >= 0:
                        vals[d] = r
                    if op == "invoke":
                        nb = ins[7]
                        break
                elif op == "unreachable":
                    raise Bad("end of a value-returning function reached", self.loc)
                else:
                    raise Undecided("instruction " + op)
            prev, b = b, nb

    def pick(self, x, y):
        if isinstance(y, int):
            if x.hi < y:
                return x.hi
            if x.lo > y:
                return x.lo
        raise Undecided("integer comparison of an interval")


def paths(m, fn, x, limit=400):
    """yields (result V, refined input V, Run) for every feasible path of fn on the input interval x = (lo, hi, g)"""
    dec = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Undecided("too many paths")
        r = Run(m, dec)
        v = V(*x)
        try:
            out = r.func(fn, [v])
            yield out, v, r
        except Empty:
            pass
        del dec[r.i:]
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec:
            return
        dec[-1][0] += 1


def binades():
    yield (0.0, 0.0, 0)
    for e in range(-1074, 1024):
        lo = math.ldexp(1.0, e)
        hi = math.nextafter(math.ldexp(1.0, e + 1), 0) if e < 1023 else math.nextafter(math.inf, 0)
        if hi < lo:
            hi = lo
        g = max(e - 52, -1074)
        yield (lo, hi, g)
        yield (-hi, -lo, g)
