import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
from interp_common import knots, MN

UF = [(r"^vp_user1$", "f1"), (r"^vp_user2$", "f2"), (r"^vp_user3$", "f3"), (r"^vp_user1b$", "g1"), (r"^vp_user2b$", "g2"), (r"^vp_user3b$", "g3")]
D1, D2 = [0., 1.5, -1., 2., .5, 3.], [-1., 2., 1., 4., -2., .5]
HOW = {0: "copy agrees with its source", 1: "source changed after the copy", 2: "source destroyed", 3: "assigned over other data", 4: "assigned to itself", 5: "moved", 6: "move-assigned over other data",
       7: "copy changed", 8: "kept in a growing container", 9: "swapped"}
RE = {0: "refilled", 1: "evaluated, then refilled", 2: "refilled, evaluated twice", 3: "evaluated, refilled, evaluated twice", 4: "refilled twice", 7: "evaluated, refilled, evaluated, refilled"}


def halves(c, name, where, fn, mk, n, m):
    """run entry fn; the first n outputs (object under test) must equal the next n (fresh object)"""
    I = c.interp(m, uninterpreted=UF)
    al = lambda v, e=8: I.alloc_array(I.st0, v, e)
    args = mk(I, al)
    o = al([fconst(0)] * (2 * n))
    r = c.run(name, I, fn, args + [o], allow=("exit", "throw", "assert"))
    if r and r.st is None:
        c.bad(name, where, "the sequence never completes")
    elif r:
        for k in range(n):
            c.eq("%s, output %d" % (name, k), r.rd(o, k), r.rd(o, n + k), m, where, pc=r.pc)


def three(al, vs, e=8):
    """array of three pointers; entry 0 unused"""
    return al([0 if v is None else v for v in vs])
