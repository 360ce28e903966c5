from vp import *
import math


class Axis:
    """one coordinate: closed [min, min+L] or half-open [min, +inf[, the point given by its unit coordinate u"""

    def __init__(self, name, closed):
        self.u = sym("u" + name)
        if closed:
            self.lo, self.L = sym(name + "min"), sym("L" + name, "pos")
            self.hi = self.lo + self.L
            self.dcoef = 2 / self.L
        else:
            self.lo = sym(name + "m", "pos")
            self.hi = sym(name + "unused")
            self.dcoef = (1 - self.u) * (1 - self.u) / (2 * self.lo)
        self.closed = closed
        self.x = self.at(self.u)

    def at(self, u):
        u = u if isinstance(u, FNode) else fconst(u)
        if self.closed:
            return self.lo + self.L * (1 + u) * 0.5
        return 2 * self.lo / (1 - u)


KINDS1 = {0: (1,), 1: (0,)}
KINDS2 = {0: (1, 1), 1: (0, 0), 2: (1, 0)}
KINDS3 = {0: (1, 1, 1), 1: (1, 0, 0), 2: (1, 1, 0)}
KN1 = {0: "closed", 1: "open"}
KN2 = {0: "closed", 1: "open", 2: "mixed"}
KN3 = {0: "closed", 1: "yz open", 2: "z open"}


def axes(kinds):
    return [Axis("xyz"[i], k) for i, k in enumerate(kinds)]


def dom(ax):
    o = []
    for a in ax:
        o += [a.lo, a.hi]
    while len(o) < 6:
        o.append(fconst(0))
    return o


def cheb(n):
    """coefficients of T_n"""
    a, b = [1], [0, 1]
    if n == 0:
        return a
    for _ in range(n - 1):
        c = [0] + [2 * t for t in b]
        for i, t in enumerate(a):
            c[i] -= t
        a, b = b, c
    return b


def poly(co, u):
    r = fconst(0)
    for k in reversed(co):
        r = r * u + k
    return r


def dpoly(co):
    return [i * k for i, k in enumerate(co)][1:] or [0]


def nodes(n):
    return [math.cos(math.pi / 2 * (2. * r + 1.) / (n + 1.)) for r in range(n + 1)]


def tval(i, r, n):
    """T_i at node r of order n"""
    return math.cos(i * math.pi / 2 * (2. * r + 1.) / (n + 1.))
