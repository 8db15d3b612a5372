"""C09: vector-space and metric operations of the numeric types (component-wise definitions, norms, distances,
division and normalisation by zero rejected)."""
from common import *

P = ("C09",)
CLS = {"Position2D": "x y", "Position3D": "x y z", "Position6D": "x y z wx wy wz", "Pose2D": "x y theta",
       "Velocity3D": "xd yd zd", "Velocity6D": "xd yd zd wxd wyd wzd", "Rotation3D": "wx wy wz"}
CLS = {k: v.split() for k, v in CLS.items()}


def binop(op):
    return lambda c, s, b: c.ret([op(x, y) for x, y in zip(s.all(), b.all())])


def binop_in(op):
    def f(c, s, b):
        c.put(s, [op(x, y) for x, y in zip(s.all(), b.all())])
        c.ret_this()
    return f


add = lambda x, y: x + y
sub = lambda x, y: x - y


def neg(c, s):
    c.ret([-x for x in s.all()])


def ident(c, s):
    c.ret(s.all())


def scale(c, s, k):
    c.ret([x * k for x in s.all()])


def scale_l(c, k, s):
    c.ret([k * x for x in s.all()])


def scale_in(c, s, k):
    c.put(s, [x * k for x in s.all()])
    c.ret_this()


def div(c, s, k):
    c.throws(eq(k, 0), "std::runtime_error")
    c.ret([x / k for x in s.all()])


def div_in(c, s, k):
    c.throws(eq(k, 0), "std::runtime_error")
    c.put(s, [x / k for x in s.all()])
    c.ret_this()


for K in CLS:
    A = dict(aliases=[(0, 1)])
    spec("%s::operator+(%s const&) const" % (K, K), P, **A)(binop(add))
    spec("%s::operator-(%s const&) const" % (K, K), P, **A)(binop(sub))
    if K != "Velocity6D":
        spec("%s::operator+=(%s const&)" % (K, K), P, **A)(binop_in(add))
        spec("%s::operator-=(%s const&)" % (K, K), P, **A)(binop_in(sub))
    if K != "Rotation3D":
        spec("%s::operator+() const" % K, P)(ident)
        spec("%s::operator-() const" % K, P)(neg)
    spec("%s::operator*(float) const" % K, P)(scale)
    spec("%s::operator*=(float)" % K, P)(scale_in)
    spec("%s::operator/(float) const" % K, P)(div)
    spec("%s::operator/=(float)" % K, P)(div_in)
    n = len(CLS[K])
    if K in ("Position2D", "Position3D", "Position6D", "Velocity3D", "Velocity6D"):
        spec("operator*(float, %s const&)" % K, P)(scale_l)

    def ctor0(c, s, n=n):
        c.put(s, [const(0)] * n)

    def ctor1(c, s, v, n=n):
        c.put(s, [v] * n)

    def ctorn(c, s, *v):
        c.put(s, list(v))
    spec("%s::%s()" % (K, K), P)(ctor0)
    spec("%s::%s(float)" % (K, K), P)(ctor1)
    spec("%s::%s(%s)" % (K, K, ", ".join(["float"] * n)), P)(ctorn)

spec("Quaternion::operator*(float) const", P)(scale)
spec("Quaternion::operator*=(float)", P)(scale_in)
spec("Quaternion::operator/(float) const", P)(div)
spec("Quaternion::operator/=(float)", P)(div_in)


# ---- norms
def nrm(c, s):
    c.ret(norm(s.all()))


for K in ("Position2D", "Position3D", "Position6D", "Velocity3D", "Velocity6D", "Rotation3D"):
    spec(["norm(%s const&)" % K, "%s::norm() const" % K], P)(nrm)


@spec(["norm(Quaternion const&)", "Quaternion::norm() const"], P + ("C04",))
def _(c, s):
    c.ret(norm(s.all()))


@spec(["norm(Transform const&)", "Transform::norm() const"], P)
def _(c, s):
    c.ret(norm(pos(s)))


@spec("Pose2D::norm() const", P)
def _(c, s):
    c.ret(norm([s.x, s.y]))


# ---- normalisation
def nrmz(c, s):
    n = norm(s.all())
    c.throws(eq(n, 0), "std::runtime_error")
    c.ret([x / n for x in s.all()])


for K in ("Position2D", "Position3D", "Position6D", "Velocity3D", "Velocity6D"):
    sg = ["normalize(%s const&)" % K]
    if K != "Position6D":
        sg.append("%s::normalize() const" % K)
    spec(sg, P)(nrmz)
spec(["normalize(Quaternion const&)", "Quaternion::normalize() const"], P + ("C04",))(nrmz)


@spec("Pose2D::normalize() const", P)
def _(c, s):
    n = norm([s.x, s.y])
    c.throws(lt(n, F32(1e-4)), "std::runtime_error")
    c.ret([s.x / n, s.y / n, s.theta])


# ---- distances, products
def d2(a, b):
    return sum_((x - y) * (x - y) for x, y in zip(a, b))


def leaves_pos(K, s):
    if K == "Transform":
        return pos(s)
    return s.all()[:2 if K in ("Position2D", "Pose2D") else 3]


for K in ("Position2D", "Position3D", "Position6D", "Pose2D"):
    A = dict(aliases=[(0, 1)])
    spec(["distanceSquared(%s const&, %s const&)" % (K, K), "%s::distanceSquared(%s const&) const" % (K, K)], P, **A)(
        lambda c, a, b, K=K: c.ret(d2(leaves_pos(K, a), leaves_pos(K, b))))
    spec(["distance(%s const&, %s const&)" % (K, K), "%s::distance(%s const&) const" % (K, K)], P, **A)(
        lambda c, a, b, K=K: c.ret(sqrt(d2(leaves_pos(K, a), leaves_pos(K, b)))))
spec(["transformDistanceSquared(Transform const&, Transform const&)", "Transform::distanceSquared(Transform const&) const"],
     P, aliases=[(0, 1)])(lambda c, a, b: c.ret(d2(pos(a), pos(b))))
spec(["transformDistance(Transform const&, Transform const&)", "Transform::distance(Transform const&) const"],
     P, aliases=[(0, 1)])(lambda c, a, b: c.ret(sqrt(d2(pos(a), pos(b)))))


for K in ("Position2D", "Position3D"):
    spec(["dotProduct(%s const&, %s const&)" % (K, K), "%s::dotProduct(%s const&) const" % (K, K)], P, aliases=[(0, 1)])(
        lambda c, a, b: c.ret(dot(a.all(), b.all())))


@spec(["crossProduct(Position2D const&, Position2D const&)", "Position2D::crossProduct(Position2D const&) const"], P,
      aliases=[(0, 1)])
def _(c, a, b):
    c.ret(a.x * b.y - a.y * b.x)


@spec("crossProduct(Position2D const&, Position2D const&, float&)", P, aliases=[(0, 1)])
def _(c, a, b, r):
    c.put(r, a.x * b.y - a.y * b.x)


@spec(["crossProduct(Position3D const&, Position3D const&)", "Position3D::crossProduct(Position3D const&) const"], P,
      aliases=[(0, 1)])
def _(c, a, b):
    c.ret(cross(a.all(), b.all()))


@spec("crossProduct(Position3D const&, Position3D const&, Position3D&)", P, aliases=[(0, 1)])
def _(c, a, b, r):
    c.put(r, cross(a.all(), b.all()))


@spec(["Position2D::getAngle() const", "Pose2D::getAngle() const"], P)
def _(c, s):
    c.ret(atan2(s.y, s.x))


@spec("Position2D::fromPolarCoordinates(float, float)", P)
def _(c, r, a):
    c.ret([r * cos(a), r * sin(a)])


@spec("Pose2D::fromPolarCoordinates(float, float)", P + ("C08",))
def _(c, r, a):
    c.ret([r * cos(a), r * sin(a), a])


# ---- laws
@lemma("vector spaces: a + b - b == a, -(-a) == a, (a*k)/k == a, a - b == a + (-b)", P)
def _(L):
    for K in CLS:
        a, b = L.free(K, "a"), L.free(K, "b")
        k = L.var("k")
        L.assume(ne(k, 0))
        s = L.call("%s::operator+(%s const&) const" % (K, K), a, b, ret=K)
        L.eq(K + " a+b-b", L.call("%s::operator-(%s const&) const" % (K, K), s, b, ret=K), a)
        s2 = L.call("%s::operator+(%s const&) const" % (K, K), b, a, ret=K)
        L.eq(K + " commutes", s, s2)
        m = L.call("%s::operator*(float) const" % K, a, k, ret=K)
        L.eq(K + " (a*k)/k", L.call("%s::operator/(float) const" % K, m, k, ret=K), a)
        if K != "Rotation3D":
            L.eq(K + " -(-a)", L.call("%s::operator-() const" % K, L.call("%s::operator-() const" % K, a, ret=K), ret=K), a)


@lemma("metrics: normalised vectors have unit norm, distances are symmetric and vanish only at equal positions", P)
def _(L):
    for K in ("Position2D", "Position3D", "Position6D", "Velocity3D", "Velocity6D", "Quaternion"):
        a = L.free(K, "a")
        L.assume(lt(const(0), dot(a.all(), a.all())))
        L.holds(K + " unit", eq(L.call("norm(%s const&)" % K, L.call("normalize(%s const&)" % K, a, ret=K)), const(1)))
    for K in ("Position2D", "Position3D", "Position6D", "Pose2D"):
        a, b = L.free(K, "a"), L.free(K, "b")
        d = L.call("distance(%s const&, %s const&)" % (K, K), a, b)
        L.eq(K + " symmetric", [d], [L.call("distance(%s const&, %s const&)" % (K, K), b, a)])
        L.holds(K + " non-negative", le(const(0), d))
        L.eq(K + " self", [L.call("distance(%s const&, %s const&)" % (K, K), a, a)], [const(0)])


@lemma("cross product is orthogonal to both factors and anti-symmetric", P)
def _(L):
    a, b = L.free("Position3D", "a"), L.free("Position3D", "b")
    X = "crossProduct(Position3D const&, Position3D const&)"
    D = "dotProduct(Position3D const&, Position3D const&)"
    c = L.call(X, a, b, ret="Position3D")
    L.eq("a.(a x b)", [L.call(D, a, c)], [const(0)])
    L.eq("b.(a x b)", [L.call(D, b, c)], [const(0)])
    L.eq("anti-symmetric", L.call(X, b, a, ret="Position3D"), L.call("Position3D::operator-() const", c, ret="Position3D"))
