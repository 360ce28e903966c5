from vp import *


def mat(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, 3)), A[i][0] * B[0][j]) for j in range(3)] for i in range(3)]


def euler(sr, cr, sp, cp, sy, cy):
    o, z = fconst(1), fconst(0)
    Rz = [[cy, -sy, z], [sy, cy, z], [z, z, o]]
    Ry = [[cp, z, sp], [z, o, z], [-sp, z, cp]]
    Rx = [[o, z, z], [z, cr, -sr], [z, sr, cr]]
    return mat(mat(Rz, Ry), Rx)


def quat(w, x, y, z):
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def check(c):
    c.rule = ("abstract interpretation of the rotation conversions on symbolic angles, quaternions and matrices; normal forms modulo sin^2+cos^2=1 (half angles as generators) "
              "compared with the elementary rotations' product, the homogeneous quaternion matrix and the angles of that matrix; the argument of asin must be clamped")
    c.level = "proof"
    c.floor = 40
    c.assumptions = ["real arithmetic up to rounding, except for the clamping obligation", "Eigen's matrix to quaternion constructor is trusted"]
    m = c.unit("geom.cpp")

    def out(I, n):
        return I.alloc_array(I.st0, [fconst(0)] * n)

    r, p, y = sym("r"), sym("p"), sym("y")
    W = "Geometry.h "
    I = c.interp(m)
    o = out(I, 9)
    res = c.run("euler to matrix", I, "vp_e2m", [r, p, y, o])
    if res:
        R = euler(sin(r), cos(r), sin(p), cos(p), sin(y), cos(y))
        for i in range(3):
            for j in range(3):
                c.eq("euler to matrix[%d,%d]" % (i, j), res.rd(o, 3 * i + j), R[i][j], m, W + "eulerAnglesZYXToRotationMatrix")
    # half angles as generators
    h = [sym("hr"), sym("hp"), sym("hy")]
    S, C = [sin(t) for t in h], [cos(t) for t in h]
    full = []
    for s, k in zip(S, C):
        full += [2 * s * k, k * k - s * s]
    R = euler(*full)
    I = c.interp(m)
    o = out(I, 4)
    res = c.run("euler to quaternion", I, "vp_e2q", [2 * t for t in h] + [o])
    if res:
        q = res.arr(o, 4)
        c.eq("euler to quaternion[unit]", q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], fconst(1), m, W + "eulerAnglesZYXToQuaternion")
        w = [C[0] * C[1] * C[2] + S[0] * S[1] * S[2], S[0] * C[1] * C[2] - C[0] * S[1] * S[2], C[0] * S[1] * C[2] + S[0] * C[1] * S[2], C[0] * C[1] * S[2] - S[0] * S[1] * C[2]]
        # up to the sign of the whole quaternion: both describe the rotation
        for i in range(4):
            for j in range(i, 4):
                c.eq("euler to quaternion[%s%s]" % ("wxyz"[i], "wxyz"[j]), q[i] * q[j], w[i] * w[j], m, W + "eulerAnglesZYXToQuaternion")
    I = c.interp(m)
    o = out(I, 9)
    res = c.run("euler to quaternion to matrix", I, "vp_e2q2m", [2 * t for t in h] + [o])
    if res:
        for i in range(3):
            for j in range(3):
                c.eq("euler to quaternion to matrix[%d,%d]" % (i, j), res.rd(o, 3 * i + j), R[i][j], m, W)
    q = [sym("qw"), sym("qx"), sym("qy"), sym("qz")]
    Q = quat(*q)
    I = c.interp(m)
    o = out(I, 9)
    res = c.run("quaternion to matrix", I, "vp_q2m", q + [o])
    if res:
        for i in range(3):
            for j in range(3):
                c.eq("quaternion to matrix[%d,%d]" % (i, j), res.rd(o, 3 * i + j), Q[i][j], m, W + "quaternionToRotationMatrix")
    for sg in (1, -1):  # unit quaternions: the scalar part is eliminated, so every form equivalent on the unit sphere has one normal form
        u = [sg * sqrt(1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])] + q[1:]
        U = quat(*u)
        I = c.interp(m)
        o = out(I, 3)
        tag = "quaternion to euler[w%s0," % (">=" if sg > 0 else "<=")
        res = c.run("quaternion to euler", I, "vp_q2e", u + [o])
        if res:
            c.eq(tag + "roll]", res.rd(o, 0), fn("atan2", U[2][1], U[2][2]), m, W + "quaternionToEulerAnglesZYX")
            c.eq(tag + "yaw]", res.rd(o, 2), fn("atan2", U[1][0], U[0][0]), m, W + "quaternionToEulerAnglesZYX")
    I = c.interp(m)
    o = out(I, 3)
    res = c.run("quaternion to euler", I, "vp_q2e", q + [o])
    if res:
        s = Q[2][0]
        cl = ite(gt(s, 1), 1, ite(lt(s, -1), -1, s))
        c.eq("quaternion to euler[pitch]", res.rd(o, 1), -fn("asin", cl), m, W + "quaternionToEulerAnglesZYX")
    M = [sym("R%d%d" % (i, j)) for i in range(3) for j in range(3)]
    I = c.interp(m)
    o = out(I, 3)
    res = c.run("matrix to euler", I, "vp_m2e", [I.alloc_array(I.st0, M), o])
    if res:
        c.eq("matrix to euler[roll]", res.rd(o, 0), fn("atan2", M[7], M[8]), m, W + "rotationMatrixToEulerAnglesZYX")
        c.eq("matrix to euler[pitch]", res.rd(o, 1), -fn("atan2", M[6], sqrt(M[7] * M[7] + M[8] * M[8])), m, W + "rotationMatrixToEulerAnglesZYX")
        c.eq("matrix to euler[yaw]", res.rd(o, 2), fn("atan2", M[3], M[0]), m, W + "rotationMatrixToEulerAnglesZYX")
    # rotations on the axes: some elements vanish, so a quotient that is removable in general is not there
    for z, nm in ((8, "roll = +-90"), (7, "roll = 0 or 180"), (6, "pitch = 0"), (0, "yaw = +-90"), (3, "yaw = 0 or 180")):
        Z = list(M)
        Z[z] = fconst(0)
        I = c.interp(m)
        o = out(I, 3)
        t = "matrix to euler, %s" % nm
        res = c.run(t, I, "vp_m2e", [I.alloc_array(I.st0, Z), o])
        if res:
            for i, (n, w) in enumerate((("roll", fn("atan2", Z[7], Z[8])), ("pitch", -fn("atan2", Z[6], sqrt(Z[7] * Z[7] + Z[8] * Z[8]))), ("yaw", fn("atan2", Z[3], Z[0])))):
                c.eq("%s[%s]" % (t, n), res.rd(o, i), w, m, W + "rotationMatrixToEulerAnglesZYX")
    I, J = c.interp(m), c.interp(m)
    o, o2 = out(I, 4), out(J, 4)
    res = c.run("matrix to quaternion", I, "vp_m2q", [I.alloc_array(I.st0, M), o])
    ref = c.run("matrix to quaternion", J, "vp_m2q_ref", [J.alloc_array(J.st0, M), o2])
    if res and ref:
        for i in range(4):
            c.eq("matrix to quaternion[%s]" % "wxyz"[i], res.rd(o, i), ref.rd(o2, i), m, W + "RotationMatrixToQuaternion")
