"""C02: rotation matrices form a group under composition; C03: axis / Euler / axis-angle constructors;
C25: validity test and normalisation; C10 (vector constructors of the matrix types)."""
from common import *

P = ("C02",)
MUL = "Rotation::operator*(Rotation const&) const"


@spec("Rotation::Rotation()", P)
def _(c, s):
    c.put(s, flat3(I3))


@spec(MUL, P, aliases=[(0, 1)])
def _(c, s, b):
    c.ret(flat3(mm(rows(s), rows(b))))


@spec("Rotation::operator*=(Rotation const&)", P, aliases=[(0, 1)])
def _(c, s, b):
    c.put(s, flat3(mm(rows(s), rows(b))))
    c.ret_this()


@spec(["Rotation::transpose() const", "transpose(Rotation const&)"], P)
def _(c, s):
    c.ret(flat3(tr(rows(s))))


@spec(["Rotation::determinant() const", "determinant(Rotation const&)", "Transform::determinant() const",
       "determinant(Transform const&)"], P)
def _(c, s):
    c.ret(det3(rows(s)))


@spec("determinant(VF const&)", P)
def _(c, v):
    n = tm.lift(v.n, "I")
    ok = or_(eq(n, const(12, "I")), eq(n, const(16, "I")))
    at = lambda i: v.at(const(i, "I"))
    m = [[at(4 * i + j) for j in range(3)] for i in range(3)]
    c.ret(ite(ok, det3(m), const(0)))


@spec(["operator*(Rotation const&, Position3D const&)", "operator*(Rotation const&, Velocity3D const&)"], P)
def _(c, r, p):
    c.ret(mv(rows(r), p.all()))


@spec("applyRotation(Rotation const&, float&, float&, float&)", P)
def _(c, r, x, y, z):
    q = mv(rows(r), [x.v, y.v, z.v])
    for a, b in zip((x, y, z), q):
        c.put(a, b)


@spec("operator*(Transform const&, Position3D const&)", P + ("C01",))
def _(c, t, p):
    c.ret(vadd(mv(rows(t), p.all()), pos(t)))


@spec("operator*(Transform const&, Position2D const&)", P + ("C01",))
def _(c, t, p):
    R, t0 = rows(t), pos(t)
    c.ret([R[i][0] * p.x + R[i][1] * p.y + t0[i] for i in range(3)])


def is_rot(L, name, R):
    L.eq(name + ": R^T R == 1", mm(tr(R), R), I3)
    L.holds(name + ": det R == 1", eq(det3(R), const(1)))


@lemma("rotations: group laws", P)
def _(L):
    a, b, c = (L.make("Rotation", ROTM, n) for n in "abc")
    L.eq("(a*b)*c == a*(b*c)", L.call(MUL, L.call(MUL, a, b), c), L.call(MUL, a, L.call(MUL, b, c)))
    i = L.scratch("Rotation")
    L.call("Rotation::Rotation()", i)
    i = L.now(i)
    L.eq("a*1 == a", L.call(MUL, a, i), a)
    L.eq("1*a == a", L.call(MUL, i, a), a)
    at = L.call("Rotation::transpose() const", a)
    L.eq("a*a^T == 1", L.call(MUL, a, at), flat3(I3))
    L.eq("a^T*a == 1", L.call(MUL, at, a), flat3(I3))
    is_rot(L, "a*b", rows(L.call(MUL, a, b)))
    L.holds("det(a) == 1", eq(L.call("determinant(Rotation const&)", a), const(1)))


@lemma("rotations: action on points", P)
def _(L):
    a, b = L.make("Rotation", ROTM, "a"), L.make("Rotation", ROTM, "b")
    p = L.free("Position3D", "p")
    ACT = "operator*(Rotation const&, Position3D const&)"
    q = L.call(ACT, a, p, ret="Position3D")
    L.eq("(b*a)*p == b*(a*p)", L.call(ACT, L.call(MUL, b, a), p, ret="Position3D"), L.call(ACT, b, q, ret="Position3D"))
    L.eq("norm preserved", [dot(q.all(), q.all())], [dot(p.all(), p.all())])


@lemma("transforms: action on points", P + ("C01",))
def _(L):
    a, b = L.make("Transform", RIGID, "a"), L.make("Transform", RIGID, "b")
    p = L.free("Position3D", "p")
    ACT = "operator*(Transform const&, Position3D const&)"
    TM = "Transform::operator*(Transform const&) const"
    q = L.call(ACT, a, p, ret="Position3D")
    L.eq("(b*a)*p == b*(a*p)", L.call(ACT, L.call(TM, b, a), p, ret="Position3D"), L.call(ACT, b, q, ret="Position3D"))
    L.eq("inv(a)*(a*p) == p", L.call(ACT, L.call("Transform::inverse() const", a), q, ret="Position3D"), p)
