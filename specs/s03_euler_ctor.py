"""C03: elementary, Euler and axis-angle constructors."""
from common import *

P = ("C03",)
for ax, fn in (("X", rotx), ("Y", roty), ("Z", rotz)):
    spec(["rotationFromRot%s(float)" % ax, "Rotation::fromRot%s(float)" % ax], P)(
        lambda c, a, fn=fn: c.ret(flat3(fn(a))))
    spec(["transformFromRot%s(float)" % ax, "Transform::fromRot%s(float)" % ax], P)(
        lambda c, a, fn=fn: c.ret(T4(fn(a), Z3)))
    spec("Rotation::fromRot%sPi()" % ax, P)(lambda c, fn=fn: c.ret(flat3(fn(PI))))


@spec("Rotation::fromRotZHalfPi()", P)
def _(c):
    c.ret(flat3(rotz(PI / const(2))))


@spec(["rotationFrom3DRotation(float const&, float const&, float const&)",
       "Rotation::from3DRotation(float const&, float const&, float const&)"], P)
def _(c, x, y, z):
    c.ret(flat3(rpy(x, y, z)))


@spec(["transformFrom3DRotation(float const&, float const&, float const&)",
       "Transform::from3DRotation(float const&, float const&, float const&)"], P)
def _(c, x, y, z):
    c.ret(T4(rpy(x, y, z), Z3))


@spec("transformFromRotation3D(Rotation3D const&)", P)
def _(c, r):
    c.ret(T4(rpy(r.wx, r.wy, r.wz), Z3))


@spec(["transformFromPosition(float const&, float const&, float const&)"], P)
def _(c, x, y, z):
    c.ret(T4(I3, [x, y, z]))


@spec("Transform::fromPosition(float, float, float)", P)
def _(c, x, y, z):
    c.ret(T4(I3, [x, y, z]))


@spec("Transform::Transform(float const&, float const&, float const&)", P)
def _(c, s, x, y, z):
    c.put(s, T4(I3, [x, y, z]))


@spec(["transformFromPosition(float const&, float const&, float const&, float const&, float const&, float const&)",
       "Transform::fromPosition(float const&, float const&, float const&, float const&, float const&, float const&)"], P)
def _(c, x, y, z, wx, wy, wz):
    c.ret(T4(rpy(wx, wy, wz), [x, y, z]))


@spec("transformFromPosition6D(Position6D const&)", P)
def _(c, p):
    c.ret(T4(rpy(p.wx, p.wy, p.wz), [p.x, p.y, p.z]))


LO, HI = F32(0.99999), F32(1.00001)


def axis_angle(c, a, n):
    n2 = dot(n, n)
    c.throws(or_(lt(HI, n2), lt(n2, LO)), "std::runtime_error")
    return axis_rot(a, n)


def unit_sampler(rng, env, names):
    vs = [v for n, v in sorted(names.items()) if n not in ("pAngle", "a0")]
    if len(vs) >= 3 and rng.random() < 0.7:
        x = [rng.gauss(0, 1) if rng.random() < 0.8 else 0.0 for _ in range(3)]
        n = sum(a * a for a in x) ** 0.5 or 1.0
        for v, a in zip(vs, x):
            env[v] = tm.f32(a / n)


@spec(["rotationFromAngleDirection(float, float, float, float)", "Rotation::fromAngleDirection(float, float, float, float)"],
      P, sampler=unit_sampler)
def _(c, a, x, y, z):
    c.ret(flat3(axis_angle(c, a, [x, y, z])))


@spec("rotationFromAngleDirection(float const&, Position3D const&)", P, sampler=unit_sampler)
def _(c, a, p):
    c.ret(flat3(axis_angle(c, a, p.all())))


def is_rot(L, name, R):
    L.eq(name + ": R^T R == 1", mm(tr(R), R), I3)
    L.holds(name + ": det R == 1", eq(det3(R), const(1)))


@lemma("constructed rotations are rotations, axes are fixed, angles add", P)
def _(L):
    a, b = L.var("a"), L.var("b")
    for ax, k in (("X", 0), ("Y", 1), ("Z", 2)):
        f = "rotationFromRot%s(float)" % ax
        ra, rb = L.call(f, a), L.call(f, b)
        is_rot(L, f, rows(ra))
        L.eq(f + " adds angles", L.call("Rotation::operator*(Rotation const&) const", ra, rb), L.call(f, a + b))
        L.eq(f + " fixes its axis", [rows(ra)[i][k] for i in range(3)], [const(1 if i == k else 0) for i in range(3)])
    x, y, z = L.var("x"), L.var("y"), L.var("z")
    is_rot(L, "from3DRotation", rows(L.call("rotationFrom3DRotation(float const&, float const&, float const&)", x, y, z)))
    is_rot(L, "transformFrom3DRotation", rows(L.call("transformFrom3DRotation(float const&, float const&, float const&)",
                                                     x, y, z)))


@lemma("axis-angle rotations of a unit axis", P)
def _(L):
    n = L.make("Position3D", UNIT3, "n")
    a = L.var("a")
    r = L.call("rotationFromAngleDirection(float const&, Position3D const&)", a, n)
    is_rot(L, "axis-angle", rows(r))
    L.eq("axis is fixed", mv(rows(r), n.all()), n.all())
    L.eq("trace == 1 + 2 cos", [rows(r)[0][0] + rows(r)[1][1] + rows(r)[2][2]], [const(1) + const(2) * cos(a)])
    for ax, v in (("X", [1, 0, 0]), ("Y", [0, 1, 0]), ("Z", [0, 0, 1])):
        L.eq("agrees with the elementary rotation about " + ax,
             L.call("rotationFromAngleDirection(float, float, float, float)", a, *[const(i) for i in v]),
             L.call("rotationFromRot%s(float)" % ax, a))
