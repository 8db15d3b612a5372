"""C01: rigid transforms form a group under composition (functional contracts + lemmas)."""
from common import *

P = ("C01",)


def inv_spec(p):
    R, t = rows(p), pos(p)
    Rt = tr(R)
    return T4(Rt, vneg(mv(Rt, t)))


def mul_spec(a, b):
    return T4(mm(rows(a), rows(b)), vadd(mv(rows(a), pos(b)), pos(a)))


def diff_spec(a, b):
    Rt = tr(rows(a))
    return T4(mm(Rt, rows(b)), mv(Rt, vsub(pos(b), pos(a))))


@spec("Transform::Transform()", P)
def _(c, s):
    c.put(s, T4(I3, Z3))


@spec("Transform::operator*(Transform const&) const", P, aliases=[(0, 1)])
def _(c, s, b):
    c.ret(mul_spec(s, b))


@spec("Transform::operator*=(Transform const&)", P, aliases=[(0, 1)])
def _(c, s, b):
    c.put(s, mul_spec(s, b))
    c.ret_this()


@spec(["Transform::inverse() const", "transformInverse(Transform const&)", "pinv(Transform const&)"], P)
def _(c, s):
    c.ret(inv_spec(s))


@spec("transformInverse(Transform const&, Transform&)", P)
def _(c, p, o):
    c.put(o, inv_spec(p))


@spec("transformInvertInPlace(Transform&)", P)
def _(c, p):
    c.put(p, inv_spec(p))


@spec("transformPreMultiply(Transform const&, Transform&)", P)
def _(c, a, b):
    c.put(b, mul_spec(a, b))


@spec(["transformDiff(Transform const&, Transform const&)", "Transform::diff(Transform const&) const"], P,
      aliases=[(0, 1)])
def _(c, a, b):
    c.ret(diff_spec(a, b))


@lemma("rigid transforms: associativity", P)
def _(L):
    a, b, c = (L.make("Transform", RIGID, n) for n in "abc")
    M = "Transform::operator*(Transform const&) const"
    L.eq("(a*b)*c == a*(b*c)", L.call(M, L.call(M, a, b), c), L.call(M, a, L.call(M, b, c)))


@lemma("rigid transforms: identity", P)
def _(L):
    a = L.free("Transform", "a")
    i = L.scratch("Transform")
    L.call("Transform::Transform()", i)
    i = L.now(i)
    M = "Transform::operator*(Transform const&) const"
    L.eq("a*1 == a", L.call(M, a, i), a)
    L.eq("1*a == a", L.call(M, i, a), a)


def is_rigid(L, name, t):
    R = rows(t)
    L.eq(name + ": R^T R == 1", mm(tr(R), R), I3)
    L.holds(name + ": det R == 1", eq(det3(R), const(1)))


@lemma("rigid transforms: closure and inverse", P)
def _(L):
    a, b = L.make("Transform", RIGID, "a"), L.make("Transform", RIGID, "b")
    M = "Transform::operator*(Transform const&) const"
    ab = L.call(M, a, b)
    is_rigid(L, "a*b", ab)
    for s in ("Transform::inverse() const", "transformInverse(Transform const&)", "pinv(Transform const&)"):
        ia = L.call(s, a)
        is_rigid(L, s, ia)
        L.eq(s + ": a*inv(a) == 1", L.call(M, a, ia), T4(I3, Z3))
        L.eq(s + ": inv(a)*a == 1", L.call(M, ia, a), T4(I3, Z3))
    ib = L.call("Transform::inverse() const", b)
    L.eq("inv(a*b) == inv(b)*inv(a)", L.call("Transform::inverse() const", ab),
         L.call(M, ib, L.call("Transform::inverse() const", a)))
    c = L.make("Transform", RIGID, "a")
    L.call("transformInvertInPlace(Transform&)", c)
    L.eq("invertInPlace == inverse", L.now(c), L.call("Transform::inverse() const", a))


@lemma("rigid transforms: difference", P)
def _(L):
    a, b = L.make("Transform", RIGID, "a"), L.make("Transform", RIGID, "b")
    M = "Transform::operator*(Transform const&) const"
    for s in ("transformDiff(Transform const&, Transform const&)", "Transform::diff(Transform const&) const"):
        d = L.call(s, a, b)
        L.eq(s + ": a*diff(a,b) == b", L.call(M, a, d), b)
        L.eq(s + ": diff == inv(a)*b", d, L.call(M, L.call("Transform::inverse() const", a), b))
    p = L.make("Transform", RIGID, "b")
    L.call("transformPreMultiply(Transform const&, Transform&)", a, p)
    L.eq("preMultiply == a*b", L.now(p), L.call(M, a, b))
