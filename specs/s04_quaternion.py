"""C04: quaternion algebra and axis-angle; C05: agreement of quaternions, matrices, transforms and displacements."""
from common import *

P, P5 = ("C04",), ("C05",)
W = ("w", "x", "y", "z")


def q4(q):
    return [q.w, q.x, q.y, q.z]


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def qrot_hom(q, p):
    """vector part of q (0, p) q*"""
    return quat_mul(quat_mul(q, [const(0)] + list(p)), conj(q))[1:]


@spec("Quaternion::Quaternion()", P)
def _(c, s):
    c.put(s, [const(1), const(0), const(0), const(0)])


@spec("Quaternion::Quaternion(float, float, float, float)", P)
def _(c, s, w, x, y, z):
    c.put(s, [w, x, y, z])


@spec("Quaternion::operator*(Quaternion const&) const", P, aliases=[(0, 1)])
def _(c, s, b):
    c.ret(quat_mul(q4(s), q4(b)))


@spec("Quaternion::operator*=(Quaternion const&)", P, aliases=[(0, 1)])
def _(c, s, b):
    c.put(s, quat_mul(q4(s), q4(b)))
    c.ret_this()


@spec(["Quaternion::inverse() const", "quaternionInverse(Quaternion const&)"], P)
def _(c, s):
    c.ret(conj(q4(s)))


@spec("quaternionInverse(Quaternion const&, Quaternion&)", P, aliases=[(0, 1)])
def _(c, q, o):
    c.put(o, conj(q4(q)))


@spec(["quaternionFromAngleAndAxisRotation(float, float, float, float)",
       "Quaternion::fromAngleAndAxisRotation(float, float, float, float)"], P)
def _(c, a, x, y, z):
    h = a / const(2)
    q = [cos(h), x * sin(h), y * sin(h), z * sin(h)]
    n = norm(q)
    c.throws(eq(n, const(0)), "std::runtime_error")
    c.ret([k / n for k in q])


def angle_axis(c, q):
    n = norm(q)
    c.throws(eq(n, const(0)), "std::runtime_error")
    w, x, y, z = (k / n for k in q)
    s = sqrt(const(1) - w * w)
    s = ite(lt(absr(s), F32(0.0005)), const(1), s)
    ax = [x / s, y / s, z / s]
    small = lt(norm(ax), F32(0.0001))
    return [const(2) * acos(w)] + [ite(small, const(1 if i == 0 else 0), ax[i]) for i in range(3)]


@spec("angleAndAxisRotationFromQuaternion(Quaternion const&, float&, float&, float&, float&)", P)
def _(c, q, a, x, y, z):
    r = angle_axis(c, q4(q))
    for v, t in zip((a, x, y, z), r):
        c.put(v, t)


@spec("angleAndAxisRotationFromQuaternion(Quaternion const&)", P)
def _(c, q):
    r = angle_axis(c, q4(q))
    c.ret(VecResult(4, lambda i: r[int(i.data) if not isinstance(i, int) else i]))


@spec("operator*(Quaternion const&, Position3D const&)", P + P5)
def _(c, q, p):
    c.ret(qrot_hom(q4(q), p.all()))


@spec(["rotationFromQuaternion(Quaternion const&)"], P5)
def _(c, q):
    c.ret(flat3(quat_rot(*q4(q))))


@spec("rotationFromQuaternion(Quaternion const&, Rotation&)", P5)
def _(c, q, r):
    c.put(r, flat3(quat_rot(*q4(q))))


@spec(["rotationFromQuaternion(float, float, float, float)", "Rotation::fromQuaternion(float, float, float, float)"], P5)
def _(c, a, b, d, e):
    c.ret(flat3(quat_rot(a, b, d, e)))


@spec("transformFromQuaternion(Quaternion const&)", P5)
def _(c, q):
    c.ret(T4(quat_rot(*q4(q)), Z3))


def unit_quat_of(c, pT, res=None):
    """post-condition: the result is a unit quaternion with w >= 0 that denotes the rotation of pT"""
    R = rows(pT)
    c.req(orthonormal(R))
    if c.mode == "verify":
        w, x, y, z = ghost_q(c, pT)
        n = sqrt(const(1) - w * w)
        c.hint(const(2) * w, *[const(4) * (w + k * u) * n for u in (x, y, z) for k in (const(1), const(-1))],
               *[-const(4) * (w + u) * n for u in (x, y, z)])
        c.split(eq(w, const(0)), le(const(0), x), le(const(0), y), le(const(0), z))
    return R


@spec("quaternionFromTransform(Transform const&)", P5, inputs={0: RIGIDP})
def _(c, t):
    R = unit_quat_of(c, t)
    c.ret([Havoc()] * 4)
    c.ensures("unit norm", lambda r, post: eq(dot(r, r), const(1)))
    c.ensures("non-negative real part", lambda r, post: le(const(0), r[0]))
    c.ensures("denotes the rotation", lambda r, post: mat_eq(quat_rot(*r), R))


@spec("displacementFromTransform(Transform const&)", P5, inputs={0: RIGIDP})
def _(c, t):
    R = rows(t)
    c.req(orthonormal(R))
    c.ret(pos(t) + [Havoc()] * 4)
    c.ensures("unit quaternion", lambda r, post: eq(dot(r[3:], r[3:]), const(1)))
    c.ensures("non-negative real part", lambda r, post: le(const(0), r[3]))
    c.ensures("denotes the rotation", lambda r, post: mat_eq(quat_rot(*r[3:]), R))


def disp_mul(a, b):
    pa, qa, pb, qb = a[:3], a[3:], b[:3], b[3:]
    return vadd(pa, qrot_hom(qa, pb)) + quat_mul(qa, qb)


@spec("Displacement::Displacement()", P5)
def _(c, s):
    c.put(s, Z3 + [const(1), const(0), const(0), const(0)])


@spec("Displacement::Displacement(Position3D const&, Quaternion const&)", P5)
def _(c, s, p, q):
    c.put(s, p.all() + q4(q))


@spec("Displacement::operator*(Displacement const&)", P5, aliases=[(0, 1)])
def _(c, s, b):
    c.ret(disp_mul(s.all(), b.all()))


@spec("Displacement::operator*=(Displacement const&)", P5, aliases=[(0, 1)])
def _(c, s, b):
    c.put(s, disp_mul(s.all(), b.all()))
    c.ret_this()


@spec("transformFromDisplacement(Displacement const&)", P5)
def _(c, d):
    v = d.all()
    c.ret(T4(quat_rot(*v[3:]), v[:3]))


def half_zyx(wx, wy, wz):
    """quaternion of Rz(wz) Ry(wy) Rx(wx)"""
    h = const(Fraction(1, 2))
    z = const(0)
    qx = [cos(h * wx), sin(h * wx), z, z]
    qy = [cos(h * wy), z, sin(h * wy), z]
    qz = [cos(h * wz), z, z, sin(h * wz)]
    return quat_mul(quat_mul(qz, qy), qx)


@spec("quaternionFromRotation3D(Rotation3D const&)", P5)
def _(c, r):
    c.ret(half_zyx(r.wx, r.wy, r.wz))


@spec("quaternionFromRotation3D(Rotation3D const&, Quaternion&)", P5)
def _(c, r, q):
    c.put(q, half_zyx(r.wx, r.wy, r.wz))


@spec("quaternionPosition3DFromPosition6D(Position6D const&, Quaternion&, Position3D&)", P5)
def _(c, p, q, o):
    c.put(q, half_zyx(p.wx, p.wy, p.wz))
    c.put(o, [p.x, p.y, p.z])


# ------------------------------------------------------------------ lemmas
QM = "Quaternion::operator*(Quaternion const&) const"
QI = "Quaternion::inverse() const"
RQ = "rotationFromQuaternion(Quaternion const&)"
RM = "Rotation::operator*(Rotation const&) const"
FA = "quaternionFromAngleAndAxisRotation(float, float, float, float)"


def qc(L, f, *a):
    return L.call(f, *a, ret="Quaternion")


@lemma("quaternions: algebra", P)
def _(L):
    a, b, c = (L.free("Quaternion", n) for n in "abc")
    i = L.scratch("Quaternion")
    L.call("Quaternion::Quaternion()", i)
    i = L.now(i)
    ab = qc(L, QM, a, b)
    L.eq("(a*b)*c == a*(b*c)", qc(L, QM, ab, c), qc(L, QM, a, qc(L, QM, b, c)))
    L.eq("a*1 == a", qc(L, QM, a, i), a)
    L.eq("1*a == a", qc(L, QM, i, a), a)
    L.eq("|a*b|^2 == |a|^2 |b|^2", [dot(q4(ab), q4(ab))], [dot(q4(a), q4(a)) * dot(q4(b), q4(b))])
    L.eq("inverse(a*b) == inverse(b)*inverse(a)", qc(L, QI, ab), qc(L, QM, qc(L, QI, b), qc(L, QI, a)))
    L.eq("inverse is an involution", qc(L, QI, qc(L, QI, a)), a)


@lemma("unit quaternions: inverse", P)
def _(L):
    a = L.make("Quaternion", UNITQ, "a")
    one = [const(1), const(0), const(0), const(0)]
    L.eq("a*inverse(a) == 1", qc(L, QM, a, qc(L, QI, a)), one)
    L.eq("inverse(a)*a == 1", qc(L, QM, qc(L, QI, a), a), one)
    L.eq("normalize(a) == a", qc(L, "normalize(Quaternion const&)", a), a)


@lemma("axis-angle quaternions", P + P5)
def _(L):
    n = L.make("Position3D", UNIT3, "n")
    a, b = L.var("a"), L.var("b")
    h = a / const(2)
    L.hint(const(1))
    q = qc(L, FA, a, *n.all())
    L.eq("(cos a/2, n sin a/2)", q, [cos(h)] + [x * sin(h) for x in n.all()])
    L.eq("unit", [dot(q4(q), q4(q))], [const(1)])
    L.eq("angles add", qc(L, QM, q, qc(L, FA, b, *n.all())), qc(L, FA, a + b, *n.all()))
    L.eq("same rotation as the axis-angle matrix", L.call(RQ, q),
         L.call("rotationFromAngleDirection(float const&, Position3D const&)", a, n))


@lemma("angle and axis of a unit quaternion", P)
def _(L):
    q = L.make("Quaternion", UNITQ, "q")
    w, x, y, z = q4(q)
    s = sqrt(const(1) - w * w)
    L.assume(le(F32(0.0005), s))
    cells = [L.cell(tm.var("junk%d" % i)) for i in range(4)]
    L.hint(const(1))
    L.call("angleAndAxisRotationFromQuaternion(Quaternion const&, float&, float&, float&, float&)", q, *cells)
    a, ax, ay, az = (L.now(v).v for v in cells)
    L.eq("unit axis", [ax * ax + ay * ay + az * az], [const(1)])
    L.eq("same rotation", flat3(axis_rot(a, [ax, ay, az])), flat3(quat_rot(w, x, y, z)))


@lemma("quaternions and rotation matrices", P5)
def _(L):
    a, b = L.make("Quaternion", UNITQ, "a"), L.make("Quaternion", UNITQ, "b")
    p = L.free("Position3D", "p")
    Ra = L.call(RQ, a)
    L.eq("R(a*b) == R(a)*R(b)", L.call(RQ, qc(L, QM, a, b)), L.call(RM, Ra, L.call(RQ, b)))
    L.eq("R(inverse a) == R(a)^T", L.call(RQ, qc(L, QI, a)), L.call("Rotation::transpose() const", Ra))
    L.eq("a*p == R(a)*p", L.call("operator*(Quaternion const&, Position3D const&)", a, p, ret="Position3D"),
         L.call("operator*(Rotation const&, Position3D const&)", Ra, p, ret="Position3D"))
    L.eq("R(-a) == R(a)", L.call("rotationFromQuaternion(float, float, float, float)", *[-v for v in q4(a)]), Ra)
    L.holds("R(a) is a rotation", orthonormal(rows(Ra)))


@lemma("displacements and transforms", P5)
def _(L):
    a, b = L.make("Displacement", DISP, "a"), L.make("Displacement", DISP, "b")
    TD = "transformFromDisplacement(Displacement const&)"
    L.eq("T(a*b) == T(a)*T(b)", L.call(TD, L.call("Displacement::operator*(Displacement const&)", a, b)),
         L.call("Transform::operator*(Transform const&) const", L.call(TD, a), L.call(TD, b)))


@lemma("transform -> displacement -> transform", P5)
def _(L):
    t = L.make("Transform", RIGIDP, "t")
    d = L.call("displacementFromTransform(Transform const&)", t)
    L.eq("round trip", L.call("transformFromDisplacement(Displacement const&)", d), t)


@lemma("Euler angles through quaternions", P5)
def _(L):
    r = L.free("Rotation3D", "r")
    q = qc(L, "quaternionFromRotation3D(Rotation3D const&)", r)
    L.eq("unit", [dot(q4(q), q4(q))], [const(1)])
    L.eq("same matrix", L.call("transformFromQuaternion(Quaternion const&)", q),
         L.call("transformFromRotation3D(Rotation3D const&)", r))
