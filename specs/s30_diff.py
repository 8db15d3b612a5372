"""C30: the pose error used by controllers; C34: rotations from axes; C29: point-mass inertia."""
from common import *

P30, P34, P29 = ("C30",), ("C34",), ("C29",)


def err6(a, b):
    A, B = tr(rows(a)), tr(rows(b))
    w = Z3
    for i in range(3):
        w = vadd(w, cross(A[i], B[i]))
    return vsub(pos(b), pos(a)) + vscale(const(Fraction(1, 2)), w)


@spec("position6DFromTransformDiff(Transform const&, Transform const&)", P30, aliases=[(0, 1)])
def _(c, a, b):
    c.ret(err6(a, b))


@spec("position6DFromTransformDiffInPlace(Transform const&, Transform const&, Position6D&)", P30)
def _(c, a, b, o):
    c.put(o, err6(a, b))


PD = "position6DFromTransformDiff(Transform const&, Transform const&)"


@lemma("the pose error vanishes for equal poses and is odd", P30)
def _(L):
    a, b = L.free("Transform", "a"), L.free("Transform", "b")
    L.eq("d(a, a) == 0", L.call(PD, a, a), [const(0)] * 6)
    L.eq("d(b, a) == -d(a, b)", L.call(PD, b, a), [-x for x in L.call(PD, a, b).all()])


@lemma("the pose error of a rotation about an axis is sin(angle) times that axis", P30)
def _(L):
    n = L.make("Position3D", UNIT3, "n")
    a = L.make("Transform", RIGID, "a")
    th = L.var("th")
    R = mm(axis_rot(th, n.all()), rows(a))
    b = L.obj("Transform", T4(R, [L.var("t%d" % i) for i in range(3)]), "b")
    L.eq("sin(theta) n", L.call(PD, a, b).all()[3:], vscale(sin(th), n.all()))
    L.eq("translation difference", L.call(PD, a, b).all()[:3], vsub(pos(b), pos(a)))


# ------------------------------------------------------------------ rotations from axes
def from_cols(x, y, z):
    return [x[0], y[0], z[0], x[1], y[1], z[1], x[2], y[2], z[2]]


def axes_pre(c, *axes):
    """documented precondition: unit, mutually orthogonal axes"""
    for i, a in enumerate(axes):
        c.req(eq(dot(a.all(), a.all()), const(1)))
        for b in axes[:i]:
            c.req(eq(dot(a.all(), b.all()), const(0)))


def axes_hints(c, x, y):
    c.hint(const(1))


@spec("rotationFromAxesXY(Position3D const&, Position3D const&)", P34, inputs={0: UNIT3, 1: UNIT3})
def _(c, x, y):
    axes_pre(c, x, y)
    c.ret(from_cols(x.all(), y.all(), cross(x.all(), y.all())))


@spec("rotationFromAxesXZ(Position3D const&, Position3D const&)", P34, inputs={0: UNIT3, 1: UNIT3})
def _(c, x, z):
    axes_pre(c, x, z)
    c.ret(from_cols(x.all(), cross(z.all(), x.all()), z.all()))


@spec("rotationFromAxesYZ(Position3D const&, Position3D const&)", P34, inputs={0: UNIT3, 1: UNIT3})
def _(c, y, z):
    axes_pre(c, y, z)
    c.ret(from_cols(cross(y.all(), z.all()), y.all(), z.all()))


@spec("rotationFromAxesXYZ(Position3D const&, Position3D const&, Position3D const&)", P34, inputs={0: UNIT3, 1: UNIT3, 2: UNIT3})
def _(c, x, y, z):
    axes_pre(c, x, y, z)
    c.ret(from_cols(x.all(), y.all(), z.all()))


@lemma("rotations from two of their own axes", P34)
def _(L):
    r = L.make("Rotation", ROTM, "r")
    X, Y, Z = (L.obj("Position3D", v, n) for v, n in zip(tr(rows(r)), "xyz"))
    L.eq("XY", L.call("rotationFromAxesXY(Position3D const&, Position3D const&)", X, Y), r)
    L.eq("XZ", L.call("rotationFromAxesXZ(Position3D const&, Position3D const&)", X, Z), r)
    L.eq("YZ", L.call("rotationFromAxesYZ(Position3D const&, Position3D const&)", Y, Z), r)
    L.eq("XYZ", L.call("rotationFromAxesXYZ(Position3D const&, Position3D const&, Position3D const&)", X, Y, Z), r)


# ------------------------------------------------------------------ inertia
@spec("pointMassRotationalInertia(float, Position3D const&, VF&)", P29)
def _(c, m, p, v):
    x, y, z = p.all()
    r = [m * (y * y + z * z), -m * x * y, -m * x * z,
         -m * x * y, m * (x * x + z * z), -m * y * z,
         -m * x * z, -m * y * z, m * (x * x + y * y)]
    c.put_vec(v, 9, lambda i: r[int(i.data) if not isinstance(i, int) else i])
