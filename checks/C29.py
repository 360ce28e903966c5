from vp import *
import itertools, math

FR = {"HERTZ": 1.0, "RADS": 1 / (2 * math.pi), "DEGS": 1 / 360.0, "DEGM": 1 / 21600.0, "RPM": 1 / 60.0}
SW = ["", "HalfSpectrumON", "HalfSpectrumOFF", "ScalingON", "ScalingOFF"]


def modes(ops):
    half, scaled = False, True
    for k in ops:
        if k in (1, 2):
            half = k == 1
        if k in (3, 4):
            scaled = k == 3
    return half, scaled


def sws(ops):
    return " ".join(SW[k] for k in ops) or "no switch"


def check(c):
    c.rule = ("abstract interpretation of the frequency axis, the transforms and the convolutions on symbolic samples, sampling frequency and time step: every entry must have the normal form of its "
              "definition (DFT sums for the bins); all switch histories up to the length bound are enumerated; one bin per axis entry")
    c.level = "proof"
    c.floor = 400
    c.assumptions = ["real arithmetic up to rounding", "transform lengths and container sizes within the listed bounds"]
    m = c.unit("fft.cpp")
    W = "FFT.h FFT::"
    en = {}
    for n in FR:
        I = c.interp(m)
        r = c.run("enum", I, "vp_en_" + n, [])
        en[n] = r.ret
    fs = sym("fs")

    def axis(k, n, u):
        return fs * k / n / FR[u]

    def freq(c, it):
        n, u, ops = it
        t = "axis[n=%d,%s,%s]" % (n, u or "default unit", sws(ops))
        half, _ = modes(ops)
        want = n // 2 + 1 if half else n
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * (want + 4))
        r = c.run(t, I, "vp_freq", [n, fs, en[u or "HERTZ"], 0 if u else 1, I.alloc_array(I.st0, list(ops) or [0], 4), len(ops), o, want + 4])
        if not r:
            return
        if c.require(t + " entries", r.ret == want, W + "GetFrequencyVector", "%s entries instead of %d" % (r.ret, want)):
            for k in range(want):
                c.eq(t + " %d" % k, r.rd(o, k), axis(k, n, u or "HERTZ"), m, W + "GetFrequencyVector")

    L = 4 if c.thorough else 3
    hist = [h for q in range(L + 1) for h in itertools.product((1, 2, 3, 4), repeat=q)]
    items = [(n, u, ops) for n in list(range(1, 12)) + [16, 25] for u in list(FR) + [None] for ops in ((), (1,))]
    items += [(n, "RADS", ops) for n in (4, 5) for ops in hist]
    c.pmap(freq, items)
    for k in [k for k in c.cutoffs(2, 300) if k > 11]:
        freq(c, (k, "HERTZ", ()))
        freq(c, (k, "HERTZ", (1,)))
    for n in (1, 4, 5):
        for u in FR:
            I = c.interp(m)
            o = I.alloc_array(I.st0, [fconst(0)] * (n + 2), 4)
            t = "axis float[n=%d,%s]" % (n, u)
            r = c.run(t, I, "vp_freqf", [n, fs, en[u], o, n + 2])
            if r and c.require(t + " entries", r.ret == n, W + "GetFrequencyVector", "%s entries" % r.ret):
                for k in range(n):
                    c.eq(t + " %d" % k, unfloat(r.rd(o, k, "f", 4)), axis(k, n, u), m, W + "GetFrequencyVector", tol=1e-6)

    def fft(c, it):
        n, ops, with_ = it
        half, _ = modes(ops)
        x = syms("x", n)
        want = n // 2 + 1 if half else n
        t = "fft[n=%d,%s,%s]" % (n, sws(ops), ["no axis", "axis", "axis in the default unit"][with_])
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * (2 * want + 8))
        fr = I.alloc_array(I.st0, [fconst(0)] * (want + 4))
        sz = I.alloc_array(I.st0, [0, 0], 4)
        r = c.run(t, I, "vp_fft", [I.alloc_array(I.st0, x), n, I.alloc_array(I.st0, list(ops) or [0], 4), len(ops), o, want + 4, with_, fs, en["DEGS"], fr, sz])
        if not r:
            return
        nb, na = r.rd(sz, 0, "i32", 4), r.rd(sz, 1, "i32", 4)
        if c.require(t + " bins", nb == want, W + "fft", "%s bins instead of %d" % (nb, want)):
            big = fconst(0)
            for v in x:
                big = big + v * 4
            for k in range(want):
                re = im = fconst(0)
                for j in range(n):
                    re = re + x[j] * math.cos(2 * math.pi * j * k / n)
                    im = im - x[j] * math.sin(2 * math.pi * j * k / n)
                # compared relative to the magnitude of the signal
                c.eq(t + " re %d" % k, r.rd(o, 2 * k) + big, re + big, m, W + "fft")
                c.eq(t + " im %d" % k, r.rd(o, 2 * k + 1) + big, im + big, m, W + "fft")
        if with_ and c.require(t + " one axis entry per bin", na == nb, W + "fft", "%s axis entries for %s bins" % (na, nb)):
            for k in range(want):
                c.eq(t + " axis %d" % k, r.rd(fr, k), axis(k, n, "DEGS" if with_ == 1 else "HERTZ"), m, W + "fft")

    c.pmap(fft, [(n, ops, w) for n in range(1, 11) for ops in ((), (1,), (4,), (1, 4), (1, 2)) for w in (0, 1, 2)] + [(n, ops, 1) for n in (4, 5) for ops in hist])

    def conv(c, it):
        na, nb = it
        a, b = syms("a", na), syms("b", nb)
        want = na + nb - 1 if na and nb else 0
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * (want + 3))
        t = "ConvolveNaive[%d,%d]" % (na, nb)
        r = c.run(t, I, "vp_conv", [I.alloc_array(I.st0, a or [fconst(0)]), na, I.alloc_array(I.st0, b or [fconst(0)]), nb, o, want + 3])
        if r and c.require(t + " length", r.ret == want, "FFT.h ConvolveNaive", "%s elements instead of %d" % (r.ret, want)):
            for k in range(want):
                s = fconst(0)
                for i in range(na):
                    if 0 <= k - i < nb:
                        s = s + a[i] * b[k - i]
                c.eq(t + " %d" % k, r.rd(o, k), s, m, "FFT.h ConvolveNaive")

    c.pmap(conv, [(i, j) for i in range(6) for j in range(6)] + [(1, 17), (17, 2), (9, 12)])
    for k in [k for k in c.cutoffs(2, 80) if k > 6]:
        conv(c, (k, 3))
        conv(c, (3, k))
    for p in range(32):
        I = c.interp(m)
        r = c.run("Pow2[%d]" % p, I, "vp_pow2", [p])
        if r:
            c.require("Pow2[%d] value" % p, r.ret == 1 << p, "FFT.h Pow2", "%r" % (r.ret,))

    dt = sym("dt")

    def nconv(c, it):
        nk, ns, cap, rot, rev = it
        k, s = syms("k", nk), syms("s", ns)
        buf = ([fconst(0)] * rot + s)[-cap:]
        t = "NaiveConvolution[kernel %d,signal %d,capacity %d,rotated %d,%s]" % (nk, ns, cap, rot, {1: "reverse", 0: "not reversed", -1: "default direction"}[rev])
        I = c.interp(m)
        kp = I.alloc_array(I.st0, [fconst(0)] * (cap + 1))
        r = c.run(t, I, "vp_nconv", [I.alloc_array(I.st0, k), nk, I.alloc_array(I.st0, s), ns, cap, rot, dt, rev & 0xffffffff, kp])
        if not r:
            return
        g = [k[i] * (buf[i] if rev else buf[nk - 1 - i]) for i in range(nk)]
        e = fconst(0)
        for i in range(nk - 1):
            e = e + dt * 0.5 * (g[i] + g[i + 1])
        c.eq(t, r.ret, e, m, "Convolution.h NaiveConvolution", pc=r.pc)
        for i, v in enumerate(buf):
            c.eq(t + " signal kept %d" % i, r.rd(kp, i), v, m, "Convolution.h NaiveConvolution")

    c.pmap(nconv, [(nk, ns, cap, rot, rev) for nk in (2, 3, 5) for ns in (nk, nk + 1, nk + 3) for cap in (ns, ns + 2) for rot in (0, 1, 3) for rev in (-1, 0, 1) if rot == 0 or cap == ns])
    for k in [k for k in c.cutoffs(2, 60) if k > 5]:
        nconv(c, (k, k + 1, k + 1, 0, 1))
        nconv(c, (k, k + 1, k + 1, 0, 0))
    for nk, ns in ((3, 2), (2, 0), (5, 4)):
        I = c.interp(m)
        kp = I.alloc_array(I.st0, [fconst(0)] * 9)
        c.refuse("NaiveConvolution short signal refused[%d,%d]" % (nk, ns), I, "vp_nconv", [I.alloc_array(I.st0, syms("k", nk)), nk, I.alloc_array(I.st0, syms("s", 8)), ns, 8, 0, dt, 1, kp], "Convolution.h NaiveConvolution")
