from vp import *
import math
PI = math.pi
FR = {"HERTZ": 1.0, "RADS": 1 / (2 * PI), "DEGS": 1 / 360.0, "DEGM": 1 / 21600.0, "S": None, "RPM": 1 / 60.0}
SP = {"MS": 1.0, "KNOT": 1852.0 / 3600, "KMH": 1000.0 / 3600}


def check(c):
    c.rule = ("abstract interpretation of every form of the planar projections and transports with symbolic vector, angle and rate; the normal form of each component "
              "(modulo sin^2+cos^2=1) is compared with the rotation / rigid-body formula; round trips and norms must reduce to the input")
    c.level = "proof"
    c.floor = 250
    c.assumptions = ["real arithmetic up to rounding", "rotation period non-zero when given as a period"]
    m = c.unit("vec2.cpp")
    x, y, a, px, py = sym("x"), sym("y"), sym("a"), sym("px"), sym("py")
    K = {0: PI / 180, 1: 1.0}
    N = {0: "deg", 1: "rad"}

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    for d in (0, 1):
        for form in range(9):
            if form >= 7 and d:
                continue
            for u in ((1,) if form in (4, 5, 6, 8) else (0, 1)):
                I = c.interp(m)
                o, k = out(I, 2), out(I, 2)
                nm = "projection[%s,form %d,%s]" % (["local->NED", "NED->local"][d], form, N[u])
                r = c.run(nm, I, "vp_proj", [x, y, a, u, d, form, o, k])
                if r:
                    C, S = cos(a * K[u]), sin(a * K[u])
                    if d:
                        S = -S
                    c.eq(nm + " x", r.rd(o, 0), C * x - S * y, m, "Vector2d.h")
                    c.eq(nm + " y", r.rd(o, 1), S * x + C * y, m, "Vector2d.h")
                    c.eq(nm + " norm preserved", r.rd(o, 0) * r.rd(o, 0) + r.rd(o, 1) * r.rd(o, 1), x * x + y * y, m, "Vector2d.h")
                    if form in (1, 2, 5, 6):
                        c.eq(nm + " operand kept x", r.rd(k, 0), x, m, "Vector2d.h")
                        c.eq(nm + " operand kept y", r.rd(k, 1), y, m, "Vector2d.h")
        for u in (0, 1):
            I = c.interp(m)
            o = I.alloc_array(I.st0, [fconst(0)] * 2, esz=4)
            nm = "projection float[%d,%s]" % (d, N[u])
            r = c.run(nm, I, "vp_projf", [x, y, a, u, d, o])
            if r:
                C, S = cos(a * K[u]), sin(a * K[u])
                if d:
                    S = -S
                c.eq(nm + " x", unfloat(r.rd(o, 0, "f", 4)), C * x - S * y, m, "Vector2d.h", tol=1e-6)
                c.eq(nm + " y", unfloat(r.rd(o, 1, "f", 4)), S * x + C * y, m, "Vector2d.h", tol=1e-6)
            I = c.interp(m)
            o = out(I, 2)
            nm = "round trip[%d,%s]" % (d, N[u])
            r = c.run(nm, I, "vp_round", [x, y, a, u, d, o])
            if r:
                c.eq(nm + " x", r.rd(o, 0), x, m, "Vector2d.h")
                c.eq(nm + " y", r.rd(o, 1), y, m, "Vector2d.h")
    for w in range(4):
        for form in range(4):
            for u in ((0, 1) if form < 2 else (1,)):
                I = c.interp(m)
                k = out(I, 2)
                nm = "component[%s,form %d,%s]" % (["North", "East", "LocalX", "LocalY"][w], form, N[u])
                r = c.run(nm, I, "vp_comp", [x, y, a, u, w, form, k])
                if r:
                    C, S = cos(a * K[u]), sin(a * K[u])
                    c.eq(nm, r.ret, [C * x - S * y, S * x + C * y, C * x + S * y, C * y - S * x][w], m, "Vector2d.h")
                    c.eq(nm + " kept", r.rd(k, 0), x, m, "Vector2d.h")
                    c.eq(nm + " kept", r.rd(k, 1), y, m, "Vector2d.h")
    for i, (un, hz) in enumerate(FR.items()):
        w = sym("w", "pos") if un == "S" else sym("wr")
        rad = (2 * PI) / w if un == "S" else w * (2 * PI * hz)
        for form in range(6):
            if form >= 3:
                if i:
                    continue
                W = w
            else:
                W = rad
            I = c.interp(m)
            o, k = out(I, 2), out(I, 4)
            nm = "transport[%s,form %d]" % (un if form < 3 else "default", form)
            r = c.run(nm, I, "vp_transport", [x, y, px, py, w, i, form, o, k])
            if r:
                c.eq(nm + " x", r.rd(o, 0), x - py * W, m, "Vector2d.h TransportAtPoint")
                c.eq(nm + " y", r.rd(o, 1), y + px * W, m, "Vector2d.h TransportAtPoint")
                for j, s in enumerate([x, y, px, py]):
                    c.eq(nm + " kept %d" % j, r.rd(k, j), s, m, "Vector2d.h TransportAtPoint")
        for form in range(4):
            I = c.interp(m)
            o = out(I, 2)
            nm = "transport aliased[%s,form %d]" % (un, form)
            r = c.run(nm, I, "vp_transport_alias", [x, y, px, py, w, i, form, o])
            if r:
                qx, qy = (px, py) if form == 1 else (x, y)
                c.eq(nm + " x", r.rd(o, 0), x - qy * rad, m, "Vector2d.h TransportAtPoint")
                c.eq(nm + " y", r.rd(o, 1), y + qx * rad, m, "Vector2d.h TransportAtPoint")
    for i, (ui, si) in enumerate(SP.items()):
        for j, (uo, so) in enumerate(SP.items()):
            for form in range(4):
                if form >= 1 and j != 0 or form >= 2 and i != 1:
                    continue
                for u in ((0, 1) if form < 3 else (1,)):
                    I = c.interp(m)
                    o = out(I, 2)
                    nm = "NED velocity[%s->%s,form %d,%s]" % (ui, uo, form, N[u])
                    r = c.run(nm, I, "vp_nedvel", [x, y, a, u, i, j, form, o])
                    if r:
                        C, S = cos(a * K[u]), sin(a * K[u])
                        c.eq(nm + " x", r.rd(o, 0), (C * x - S * y) * (si / so), m, "Vector2d.h GetNEDVelocityVector")
                        c.eq(nm + " y", r.rd(o, 1), (S * x + C * y) * (si / so), m, "Vector2d.h GetNEDVelocityVector")
