"""C26: changeReference* express a quantity in another frame's axes (rotation only)."""
from common import *

P = ("C26",)


def six(v):
    return v.all()


def rot6(R, v):
    return mv(R, v[:3]) + mv(R, v[3:])


for _n, _cls in (("Velocity6D", "Velocity6D"), ("Position6D", "Position6D")):
    @spec("changeReference%s(Transform const&, %s const&, %s&)" % (_n, _cls, _cls), P)
    def _(c, t, v, o):
        c.put(o, rot6(rows(t), six(v)))

    @spec("changeReferenceTranspose%s(Transform const&, %s const&, %s&)" % (_n, _cls, _cls), P)
    def _(c, t, v, o):
        c.put(o, rot6(tr(rows(t)), six(v)))


@spec("changeReferencePosition3D(Transform const&, Position3D const&, Position3D&)", P)
def _(c, t, p, o):
    c.put(o, mv(rows(t), p.all()))


@spec("changeReferenceTransposePosition3D(Transform const&, Position3D const&, Position3D&)", P)
def _(c, t, p, o):
    c.put(o, mv(tr(rows(t)), p.all()))


@spec("changeReferencePosition3DInPlace(Transform const&, Position3D&)", P)
def _(c, t, p):
    c.put(p, mv(rows(t), p.all()))


@spec("changeReferenceTransposePosition3DInPlace(Transform const&, Position3D&)", P)
def _(c, t, p):
    c.put(p, mv(tr(rows(t)), p.all()))


@spec("changeReferenceTransform(Transform const&, Transform const&, Transform&)", P)
def _(c, t, a, o):
    c.put(o, T4(mm(rows(t), rows(a)), mv(rows(t), pos(a))))


@spec("changeReferenceTransposeTransform(Transform const&, Transform const&, Transform&)", P)
def _(c, t, a, o):
    R = tr(rows(t))
    c.put(o, T4(mm(R, rows(a)), mv(R, pos(a))))


@spec("changeReferencePose2D(float const&, Pose2D const&, Pose2D&)", P)
def _(c, th, p, o):
    c.put(o, [cos(th) * p.x - sin(th) * p.y, sin(th) * p.x + cos(th) * p.y, p.theta])


@spec("changeReferencePose2DInPlace(float const&, Pose2D&)", P)
def _(c, th, p):
    c.put(p, [cos(th) * p.x - sin(th) * p.y, sin(th) * p.x + cos(th) * p.y, p.theta])


@lemma("change of reference and back is the identity", P)
def _(L):
    t = L.make("Transform", RIGID, "t")
    for cls in ("Velocity6D", "Position6D"):
        v = L.free(cls, "v" + cls)
        o, o2 = L.scratch(cls), L.scratch(cls)
        L.call("changeReference%s(Transform const&, %s const&, %s&)" % (cls, cls, cls), t, v, o)
        L.call("changeReferenceTranspose%s(Transform const&, %s const&, %s&)" % (cls, cls, cls), t, L.now(o), o2)
        L.eq(cls, L.now(o2), v)
    p = L.free("Position3D", "p")
    o, o2 = L.scratch("Position3D"), L.scratch("Position3D")
    L.call("changeReferencePosition3D(Transform const&, Position3D const&, Position3D&)", t, p, o)
    L.call("changeReferenceTransposePosition3D(Transform const&, Position3D const&, Position3D&)", t, L.now(o), o2)
    L.eq("Position3D", L.now(o2), p)
    n = L.now(o).all()
    L.eq("lengths are preserved", [dot(n, n)], [dot(p.all(), p.all())])
    a = L.free("Transform", "a")
    o, o2 = L.scratch("Transform"), L.scratch("Transform")
    L.call("changeReferenceTransform(Transform const&, Transform const&, Transform&)", t, a, o)
    L.call("changeReferenceTransposeTransform(Transform const&, Transform const&, Transform&)", t, L.now(o), o2)
    L.eq("Transform", L.now(o2), a)


@lemma("planar change of reference and back", P)
def _(L):
    th = L.var("th")
    p = L.free("Pose2D", "p")
    o, o2 = L.scratch("Pose2D"), L.scratch("Pose2D")
    F = "changeReferencePose2D(float const&, Pose2D const&, Pose2D&)"
    L.call(F, th, p, o)
    L.call(F, -th, L.now(o), o2)
    L.eq("identity", L.now(o2), p)
