"""C32: poses of URDF documents (src/scenegraph/urdf.cpp, almath/scenegraph/urdfeigen.h)"""
from common import *
import ir
from s31_inertia import I_, arr, out, read, mat, flat, same

P = ("C32",)
H = dict(harness="urdfpose.cpp")


@lemma("the quaternion of roll, pitch and yaw is a unit and denotes Rz Ry Rx", P, **H)
def _(L):
    p, a = arr(L, "rpy", 3)
    o = out(L, "q", 4)
    L.call(I_ + "eigenQuaternionFromUrdfRpy(double const*, double*)", p, o)
    q = read(L, o, 4)
    same(L, "unit", [dot(q, q)], [const(1)])
    same(L, "rotation", flat(quat_rot(*q)), flat(rpy(*a)))


@lemma("the transform of a pose rotates by Rz Ry Rx, then translates", P, **H)
def _(L):
    p, a = arr(L, "pose", 6)
    o = out(L, "t", 16)
    L.call(I_ + "toEigenTransform(AL::urdf::Pose const*, double*)", p, o)
    t = read(L, o, 16)
    R = rpy(*a[3:])
    for j in range(3):
        same(L, "column %d" % j, t[4 * j:4 * j + 4], [R[i][j] for i in range(3)] + [const(0)])
    same(L, "translation", t[12:], a[:3] + [const(1)])


RPY = I_ + "urdfRpyFromEigenMatrix3(double const*, double*)"


@lemma("regular attitudes: the angles of a rotation matrix denote it", P, **H)
def _(L):
    t = L.make("Rotation", ROTM, "t")
    R = rows(t)
    z = const(0)
    p, _ = arr(L, "m", 9, flat(R))
    o = out(L, "rpy", 3)
    L.assume(not_(and_(eq(R[1][0], z), eq(R[0][0], z))))
    L.hint(const(1))
    L.call(RPY, p, o)
    a = read(L, o, 3)
    same(L, "rotation", flat(rpy(*a)), flat(R))


@lemma("gimbal attitudes: the angles of a rotation matrix denote it", P, **H)
def _(L):
    a = L.var("a")
    s = const(1) if L.cases(eq(L.var("sign"), const(0))) else const(-1)
    R = [[const(0), -sin(a), s * cos(a)], [const(0), cos(a), s * sin(a)], [-s, const(0), const(0)]]
    p, _ = arr(L, "m", 9, flat(R))
    o = out(L, "rpy", 3)
    L.hint(const(1))
    L.call(RPY, p, o)
    same(L, "rotation", flat(rpy(*read(L, o, 3))), flat(R))


def orthonormal(R):
    return and_(*[eq(dot(R[i], R[j]), const(1 if i == j else 0)) for i in range(3) for j in range(i + 1)])


def angles_of(ex, st, args):
    """contract of urdfRpyFromEigenMatrix3, which the two lemmas above prove: of a rotation matrix it returns angles that
    denote it. The lemma shows what the matrix is (denotes), so the angles stay symbols"""
    ret, m = args
    M = [tm.lift(ex.load(st, ex.padd(m, 8 * i), ir.DOUBLE, ex.mod)) for i in range(9)]
    a = [tm.fresh("angle", "R") for _ in range(3)]
    for i, v in enumerate(a):
        ex.store(st, ex.padd(ret, 8 * i), v, ir.DOUBLE, ex.mod)
    DENOTED[a[0]] = (a, M)
    return ex.ret(st, None)


DENOTED = {}
C = dict(H, contracts=((r"^.*AL::Math::urdfRpyFromEigenMatrix3<", angles_of),))


def denotes(L, name, angles, R):
    """the angles denote R, a rotation"""
    known = DENOTED.get(angles[0])
    if known is None:
        same(L, name, flat(rpy(*angles)), flat(R))
        return
    L.holds(name + ": the angles", TRUE if angles == known[0] else FALSE)
    same(L, name, known[1], flat(R))
    L.holds(name + ": a rotation", orthonormal(R))


def pose(L, name):
    p, v = arr(L, name, 6)
    return p, v[:3], v[3:]


@lemma("composing two poses composes their transforms", P, **C)
def _(L):
    p, t, a = pose(L, "l")
    q, u, b = pose(L, "r")
    r = L.call("AL::urdf::operator*(AL::urdf::Pose const&, AL::urdf::Pose const&)", p, q)
    v = read(L, r._ptr, 6)
    A, B = rpy(*a), rpy(*b)
    same(L, "translation", v[:3], vadd(t, mv(A, u)))
    denotes(L, "rotation", v[3:], mm(A, B))


@lemma("the inverse of a pose is the inverse transform", P, **C)
def _(L):
    p, t, a = pose(L, "l")
    r = L.call("AL::urdf::Pose::inverse() const", p)
    v = read(L, r._ptr, 6)
    A = rpy(*a)
    same(L, "translation", v[:3], vneg(mv(tr(A), t)))
    denotes(L, "rotation", v[3:], tr(A))
