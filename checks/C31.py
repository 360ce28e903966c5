from vp import *
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from C29 import modes, sws


def check(c):
    c.rule = ("abstract interpretation of a forward transform followed by an inverse one on a signal of symbolic samples: sample k of the result must have the normal form x_k (n x_k when scaling is off), "
              "for every switch history up to the length bound and after earlier transforms of other lengths with the same object; a given spectrum is inverted to its inverse DFT")
    c.level = "proof"
    c.floor = 300
    c.assumptions = ["real arithmetic up to rounding", "lengths within the listed bounds; even lengths in half-spectrum mode (an odd length cannot be told from its half spectrum)"]
    m = c.unit("fft.cpp")
    W = "FFT.h FFT::ifft"
    L = 4 if c.thorough else 3
    hist = [h for q in range(L + 1) for h in itertools.product((1, 2, 3, 4), repeat=q)]

    def one(c, it):
        n, ops, k = it
        half, scaled = modes(ops)
        if half and n % 2 and n > 1:
            return
        x = syms("x", n)
        t = "round trip[n=%d,%s,%s]" % (n, sws(ops), "after length %d" % k if k else "fresh object")
        I = c.interp(m)
        o = I.alloc_array(I.st0, [fconst(0)] * (n + 4))
        px, po = I.alloc_array(I.st0, x), I.alloc_array(I.st0, list(ops) or [0], 4)
        if k:
            r = c.run(t, I, "vp_round2", [I.alloc_array(I.st0, syms("y", k)), k, px, n, po, len(ops), o, n + 4])
        else:
            r = c.run(t, I, "vp_round", [px, n, po, len(ops), o, n + 4])
        if r and c.require(t + " length", r.ret == n, W, "%s samples instead of %d" % (r.ret, n)):
            big = fconst(0)
            for v in x:
                big = big + v * (2 * n)
            for i in range(n):
                c.eq(t + " %d" % i, r.rd(o, i) + big, x[i] * (1 if scaled or n == 1 else n) + big, m, W)

    items = []
    for n in list(range(1, 13)) + [15, 16] + ([18, 20, 21, 24, 25, 27, 32] if c.thorough else []):
        items += [(n, ops, 0) for ops in ((), (1,), (4,), (1, 4), (4, 3), (1, 2))]
    for n in (4, 6, 9):
        items += [(n, ops, 0) for ops in hist]
        items += [(n, ops, k) for ops in ((), (1,), (4,), (1, 4)) for k in (2, 3, n, 8) ]
    c.pmap(one, items)
    for k in [k for k in c.cutoffs(2, 40) if k > 16]:
        one(c, (k, (), 0))
        one(c, (k, (1,), 0))
