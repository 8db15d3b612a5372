"""C08: planar poses form a group acting on points and embed into rigid transforms."""
from common import *

P = ("C08",)


def p3(p):
    return [p.x, p.y, p.theta]


def pose_mul(a, b):
    x, y, t = a
    return [x + cos(t) * b[0] - sin(t) * b[1], y + sin(t) * b[0] + cos(t) * b[1], t + b[2]]


def pose_inv(a):
    x, y, t = a
    return [-(cos(t) * x + sin(t) * y), -(-sin(t) * x + cos(t) * y), -t]


@spec("Pose2D::operator*(Pose2D const&) const", P, aliases=[(0, 1)])
def _(c, s, b):
    c.ret(pose_mul(p3(s), p3(b)))


@spec("Pose2D::operator*=(Pose2D const&)", P, aliases=[(0, 1)])
def _(c, s, b):
    c.put(s, pose_mul(p3(s), p3(b)))
    c.ret_this()


@spec(["Pose2D::inverse() const", "pinv(Pose2D const&)", "pose2DInverse(Pose2D const&)"], P)
def _(c, s):
    c.ret(pose_inv(p3(s)))


@spec("pose2DInverse(Pose2D const&, Pose2D&)", P, aliases=[(0, 1)])
def _(c, a, o):
    c.put(o, pose_inv(p3(a)))


@spec("pose2dInvertInPlace(Pose2D&)", P)
def _(c, a):
    c.put(a, pose_inv(p3(a)))


@spec(["pose2dDiff(Pose2D const&, Pose2D const&)", "Pose2D::diff(Pose2D const&) const"], P, aliases=[(0, 1)])
def _(c, a, b):
    c.ret(pose_mul(pose_inv(p3(a)), p3(b)))


@spec("operator*(Pose2D const&, Position2D const&)", P)
def _(c, a, q):
    c.ret(pose_mul(p3(a), [q.x, q.y, const(0)])[:2])


MUL = "Pose2D::operator*(Pose2D const&) const"
INV = "Pose2D::inverse() const"
ACT = "operator*(Pose2D const&, Position2D const&)"
EMB = "transformFromPose2D(Pose2D const&)"
TM = "Transform::operator*(Transform const&) const"


@lemma("planar poses: group laws", P)
def _(L):
    a, b, d = (L.free("Pose2D", n) for n in "abd")
    i = L.scratch("Pose2D")
    L.call("Pose2D::Pose2D()", i)
    i = L.now(i)
    m = lambda x, y: L.call(MUL, x, y, ret="Pose2D")
    inv = lambda x: L.call(INV, x, ret="Pose2D")
    L.eq("(a*b)*d == a*(b*d)", m(m(a, b), d), m(a, m(b, d)))
    L.eq("a*1 == a", m(a, i), a)
    L.eq("1*a == a", m(i, a), a)
    L.eq("a*inverse(a) == 1", m(a, inv(a)), i)
    L.eq("inverse(a)*a == 1", m(inv(a), a), i)
    L.eq("inverse is an involution", inv(inv(a)), a)
    L.eq("a*diff(a, b) == b", m(a, L.call("pose2dDiff(Pose2D const&, Pose2D const&)", a, b, ret="Pose2D")), b)
    L.eq("inverse(a*b) == inverse(b)*inverse(a)", inv(m(a, b)), m(inv(b), inv(a)))


@lemma("planar poses act on points", P)
def _(L):
    a, b = L.free("Pose2D", "a"), L.free("Pose2D", "b")
    q = L.free("Position2D", "q")
    act = lambda x, y: L.call(ACT, x, y, ret="Position2D")
    L.eq("(a*b)*q == a*(b*q)", act(L.call(MUL, a, b, ret="Pose2D"), q), act(a, act(b, q)))
    L.eq("inverse(a)*(a*q) == q", act(L.call(INV, a, ret="Pose2D"), act(a, q)), q)


@lemma("planar poses embed into transforms", P)
def _(L):
    a, b = L.free("Pose2D", "a"), L.free("Pose2D", "b")
    e = lambda x: L.call(EMB, x)
    L.eq("T(a*b) == T(a)*T(b)", e(L.call(MUL, a, b, ret="Pose2D")), L.call(TM, e(a), e(b)))
    L.eq("T(inverse a) == inverse T(a)", e(L.call(INV, a, ret="Pose2D")), L.call("Transform::inverse() const", e(a)))


@lemma("transform -> pose -> transform on planar transforms", P)
def _(L):
    a = L.free("Pose2D", "a")
    t = L.call(EMB, a)
    p = L.call("pose2DFromTransform(Transform const&)", t, ret="Pose2D")
    L.hint(const(1))
    L.eq("round trip", L.call(EMB, p), t)
    L.holds("-pi <= theta <= pi", and_(le(-PI, p.theta), le(p.theta, PI)))
