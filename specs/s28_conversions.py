"""C28: conversions between the value types, axis-selected rotations and axis masks."""
from common import *

P = ("C28",)
Z = const(0)


def inplace(name, src, dst, f, keep=None):
    """the value-returning and the ...InPlace form of one conversion"""
    ret, inp = name

    if ret:
        @spec(ret, P)
        def _(c, *a):
            c.ret(f(*a))
    if inp:
        @spec(inp, P)
        def _(c, *a):
            c.put(a[-1], f(*a[:-1]))


def pair(base, args, dst, f):
    inplace(("%s(%s)" % (base, args), "%sInPlace(%s, %s&)" % (base, args, dst)), None, None, f)


pair("pose2DFromPosition2D", "Position2D const&, float", "Pose2D", lambda p, a: [p.x, p.y, a])
pair("pose2DFromPosition6D", "Position6D const&", "Pose2D", lambda p: [p.x, p.y, p.wz])
pair("pose2DFromTransform", "Transform const&", "Pose2D", lambda t: [t.r1_c4, t.r2_c4, atan2(t.r2_c1, t.r1_c1)])
pair("position2DFromPose2D", "Pose2D const&", "Position2D", lambda p: [p.x, p.y])
pair("position2DFromTransform", "Transform const&", "Position2D", lambda t: [t.r1_c4, t.r2_c4])
pair("position3DFromTransform", "Transform const&", "Position3D", lambda t: pos(t))
pair("position6DFromPose2D", "Pose2D const&", "Position6D", lambda p: [p.x, p.y, Z, Z, Z, p.theta])
pair("position6DFromPosition3D", "Position3D const&", "Position6D", lambda p: p.all() + [Z, Z, Z])
inplace(("position3DFromPosition6D(Position6D const&)", None), None, None, lambda p: [p.x, p.y, p.z])
inplace(("position6DFromVelocity6D(Velocity6D const&)", None), None, None, lambda v: v.all())
pair("rotationFromTransform", "Transform const&", "Rotation", lambda t: flat3(rows(t)))
pair("transformFromPose2D", "Pose2D const&", "Transform", lambda p: T4(rotz(p.theta), [p.x, p.y, Z]))


@spec("transformFromPosition3D(Position3D const&)", P)
def _(c, p):
    c.ret(T4(I3, p.all()))


@spec("transformFromPosition3DInPlace(Position3D const&, Transform&)", P)
def _(c, p, t):
    c.put(t, T4(rows(t), p.all()))


@spec("transformFromRotation(Rotation const&)", P)
def _(c, r):
    c.ret(T4(rows(r), Z3))


@spec("transformFromRotationInPlace(Rotation const&, Transform&)", P)
def _(c, r, t):
    c.put(t, T4(rows(r), pos(t)))


@spec("transformFromRotationPosition3D(Rotation const&, Position3D const&)", P)
def _(c, r, p):
    c.ret(T4(rows(r), p.all()))


@spec("transformFromRotationPosition3D(Rotation const&, float const&, float const&, float const&)", P)
def _(c, r, x, y, z):
    c.ret(T4(rows(r), [x, y, z]))


def axis_rotation(axis, th):
    n = lambda k: eq(axis, const(k, "I"))
    sel = lambda x, y, z, w: ite(n(1), x, ite(n(2), y, ite(n(4), z, w)))
    X, Y, Zm = rotx(th), roty(th), rotz(th)
    return [[sel(X[i][j], Y[i][j], Zm[i][j], I3[i][j]) for j in range(3)] for i in range(3)]


@spec("transformFromRotVec(int, float, Position3D const&)", P)
def _(c, a, th, p):
    c.ret(T4(axis_rotation(a, th), p.all()))


@spec("transformFromRotVecInPlace(int, float, Position3D const&, Transform&)", P)
def _(c, a, th, p, t):
    c.put(t, T4(axis_rotation(a, th), p.all()))


@spec("transformFromRotVec(Position3D const&)", P)
def _(c, p):
    c.ret(T4(I3, p.all()))


@spec("transformFromRotVecInPlace(Position3D const&, Transform&)", P)
def _(c, p, t):
    c.put(t, T4(I3, p.all()))


@spec("transformFromRotVec(int const&, float const&)", P)
def _(c, a, th):
    c.ret(T4(axis_rotation(a, th), Z3))


@spec("isAxisMask(int)", P)
def _(c, m):
    c.ret(and_(le(const(1, "I"), m), lt(m, const(64, "I"))))
