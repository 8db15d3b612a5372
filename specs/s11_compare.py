"""C11: ==, != and isNear on every value type, bit-precise IEEE-754 (NaN, infinities and signed zeros included).
C12: clipping."""
from common import *
import symex
from symex import fpeq, fplt, fple, isnan
import ir
import term as tm

P, P12 = ("C11",), ("C12",)
S = symex.FpSem()


def near(a, b, eps, strict=False):
    d = tm.mk("abs", (S.bin("fsub", a, b, ir.FLOAT),), "F")
    return (fplt if strict else fple)(d, eps)


TYPES = ["Position2D", "Position3D", "Position6D", "Pose2D", "Quaternion", "Rotation", "Rotation3D", "Transform",
         "Velocity3D", "Velocity6D"]

for _t in TYPES:
    @spec("%s::operator==(%s const&) const" % (_t, _t), P, sem="fp", aliases=[(0, 1)])
    def _(c, s, b):
        c.ret(and_(*[fpeq(x, y) for x, y in zip(s.all(), b.all())]))

    @spec("%s::operator!=(%s const&) const" % (_t, _t), P, sem="fp", aliases=[(0, 1)])
    def _(c, s, b):
        c.ret(not_(and_(*[fpeq(x, y) for x, y in zip(s.all(), b.all())])))

for _t in [t for t in TYPES if t != "Quaternion"] + ["PositionAndVelocity", "TransformAndVelocity6D"]:
    @spec("%s::isNear(%s const&, float const&) const" % (_t, _t), P, sem="fp", aliases=[(0, 1)])
    def _(c, s, b, e):
        c.ret(and_(*[near(x, y, e) for x, y in zip(s.all(), b.all())]))


def qnear(a, b, e):
    """q and -q denote the same rotation; strict comparison"""
    add = [fplt(tm.mk("abs", (S.bin("fadd", x, y, ir.FLOAT),), "F"), e) for x, y in zip(a, b)]
    return or_(and_(*[near(x, y, e, True) for x, y in zip(a, b)]), and_(*add))


@spec("Quaternion::isNear(Quaternion const&, float const&) const", P, sem="fp", aliases=[(0, 1)])
def _(c, s, b, e):
    c.ret(qnear(s.all(), b.all(), e))


@spec("Displacement::isNear(Displacement const&, float) const", P, sem="fp", aliases=[(0, 1)])
def _(c, s, b, e):
    u, v = s.all(), b.all()
    c.ret(and_(qnear(u[3:], v[3:], e), *[near(x, y, e) for x, y in zip(u[:3], v[:3])]))


@spec("clipData(float const&, float const&, float&)", P12, sem="fp")
def _(c, lo, hi, d):
    c.req(fple(lo, hi))
    v = d.v
    c.put(d, ite(fplt(v, lo), lo, ite(fplt(hi, v), hi, v)))
    c.ret(Havoc())
    c.ensures("true exactly when the value changed",
              lambda r, post: or_(isnan(v), iff(r[0], or_(fplt(v, lo), fplt(hi, v)))))


def clipped(lo, hi, v):
    return ite(fplt(v, lo), lo, ite(fplt(hi, v), hi, v))


def changes(lo, hi, v):
    return or_(fplt(v, lo), fplt(hi, v))


@spec("clipData(float const&, float const&, VF&)", P12, sem="fp", inline="^clipData")
def _(c, lo, hi, d):
    c.req(fple(lo, hi))
    c.put_vec(d, d.n, lambda i: clipped(lo, hi, d.at(i)))
    c.ret(Havoc("clipped", "B"))
    k = tm.fresh("j", "I")
    c.ensures("true exactly when some value changed",
              lambda r, post: or_(tm.exists(d.n, k, isnan(d.at(k))), iff(r[0], tm.exists(d.n, k, changes(lo, hi, d.at(k))))))
