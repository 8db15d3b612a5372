"""C06: roll-pitch-yaw extraction inverts the constructors, including at the gimbal singularity."""
from common import *

P = ("C06",)


def euler(R):
    wz = atan2(R[1][0], R[0][0])
    s, c = sin(wz), cos(wz)
    wy = atan2(-R[2][0], c * R[0][0] + s * R[1][0])
    wx = atan2(s * R[0][2] - c * R[1][2], c * R[1][1] - s * R[0][1])
    return [wx, wy, wz]


@spec("rotation3DFromTransform(Transform const&)", P)
def _(c, t):
    c.ret(euler(rows(t)))


@spec("rotation3DFromRotation(Rotation const&)", P)
def _(c, t):
    c.ret(euler(rows(t)))


@spec("position6DFromTransform(Transform const&)", P)
def _(c, t):
    c.ret(pos(t) + euler(rows(t)))


@spec("position6DFromTransformInPlace(Transform const&, Position6D&)", P)
def _(c, t, o):
    c.put(o, pos(t) + euler(rows(t)))


@spec("rotation3DFromQuaternion(Quaternion const&)", P)
def _(c, q):
    c.ret(euler(quat_rot(q.w, q.x, q.y, q.z)))


@spec("rotation3DFromQuaternion(Quaternion const&, Rotation3D&)", P)
def _(c, q, o):
    c.put(o, euler(quat_rot(q.w, q.x, q.y, q.z)))


RT = "rotation3DFromTransform(Transform const&)"
FT = "transformFromRotation3D(Rotation3D const&)"


def angles_ok(r):
    return and_(*[and_(le(-PI, a), le(a, PI)) for a in r])


@lemma("regular attitudes: constructing from the extracted angles gives the rotation back", P)
def _(L):
    t = L.make("Transform", RIGID, "t")
    R = rows(t)
    z = const(0)
    L.assume(not_(and_(eq(R[1][0], z), eq(R[0][0], z))))
    L.hint(const(1))
    r = L.call(RT, t, ret="Rotation3D")
    L.eq("rotation", flat3(rows(L.call(FT, r))), flat3(R))
    L.holds("angles in [-pi, pi]", angles_ok(r.all()))
    L.eq("6D pose", L.call("transformFromPosition6D(Position6D const&)", L.call("position6DFromTransform(Transform const&)", t)), t)


def gimbal(a, s):
    """every rotation matrix with r11 = r21 = 0: its first column is (0, 0, -s), s = 1 or -1"""
    return [[const(0), -sin(a), s * cos(a)], [const(0), cos(a), s * sin(a)], [-s, const(0), const(0)]]


@lemma("gimbal attitudes: constructing from the extracted angles gives the rotation back", P)
def _(L):
    a = L.var("a")
    s = const(1) if L.cases(eq(L.var("sign"), const(0))) else const(-1)
    t = L.obj("Transform", T4(gimbal(a, s), [L.var("p%d" % i) for i in range(3)]), "t")
    L.hint(const(1))
    r = L.call(RT, t, ret="Rotation3D")
    L.eq("rotation", flat3(rows(L.call(FT, r))), flat3(rows(t)))
    L.eq("pitch is a quarter turn", [sin(r.wy), cos(r.wy)], [s, const(0)])


@lemma("gimbal attitudes: the parametrisation covers every rotation with r11 = r21 = 0", P)
def _(L):
    b, c2, d, e, x, y, u = (L.var(k) for k in "bcdexyu")
    R = [[const(0), b, d], [const(0), c2, e], [x, y, u]]
    L.assume(orthonormal(R))
    L.assume(orthonormal(tr(R)))
    # x = -s; (c2, -b) = (cos a, sin a) for some a because b^2 + c2^2 = 1
    L.holds("x^2 = 1", eq(x * x, const(1)))
    L.holds("y = u = 0", and_(eq(y, const(0)), eq(u, const(0))))
    L.holds("b^2 + c^2 = 1", eq(b * b + c2 * c2, const(1)))
    L.holds("d = -x c, e = x b", and_(eq(d, -x * c2), eq(e, x * b)))


@lemma("angles within the principal range come back unchanged", P)
def _(L):
    r = L.free("Rotation3D", "r")
    L.assume(lt(const(0), cos(r.wy)))
    L.hint(cos(r.wy))
    t = L.call(FT, r)
    q = L.call(RT, t, ret="Rotation3D")
    for k in ("wx", "wy", "wz"):
        u, v = getattr(q, k), getattr(r, k)
        L.eq("sin and cos of " + k, [sin(u), cos(u)], [sin(v), cos(v)])


@lemma("the same angles from a rotation, a transform, a 6D pose and a quaternion", P)
def _(L):
    q = L.make("Quaternion", UNITQ, "q")
    R = L.call("rotationFromQuaternion(Quaternion const&)", q)
    T = L.call("transformFromQuaternion(Quaternion const&)", q)
    a = L.call("rotation3DFromQuaternion(Quaternion const&)", q, ret="Rotation3D")
    L.eq("rotation", L.call("rotation3DFromRotation(Rotation const&)", R, ret="Rotation3D"), a)
    L.eq("transform", L.call(RT, T, ret="Rotation3D"), a)
    L.eq("6D pose", L.call("position6DFromTransform(Transform const&)", T).all()[3:], a)
