"""C21: occupancy map parameters: metric positions <-> pixels."""
from common import *

P = ("C21",)
K = "OccupancyMapParams::"
Z = const(0)
HALF = const("1/2")


def itor(x):
    return tm.itor(x)


def sane(rng, env, names):
    for n, v in names.items():
        if n.endswith("metersPerPixel") or n == "a1" or n == "a2":
            env[v] = rng.choice([0.05, 0.1, 0.5, 1.0, 0.01])


def nearest(c, xx, yy):
    """the result is the pixel nearest to (xx, yy); which of two equally near ones is not specified"""
    c.ret([Havoc("px", "I"), Havoc("py", "I")])
    for i, w, nm in ((0, xx, "x"), (1, yy, "y")):
        c.ensures("nearest pixel, " + nm, lambda res, post, i=i, w=w: and_(
            le(itor(res[i]) - w, HALF), le(w - itor(res[i]), HALF)))


def pix(c, x, y, mpp, ox, oy):
    c.req(ne(mpp, Z))
    nearest(c, (x - ox) / mpp, -(y - oy) / mpp)


@spec(K + "getPixelFromOffsetAndScale(Pose2D const&, float, Position2D const&)", P, sampler=sane)
def _(c, p, mpp, o):
    pix(c, p.x, p.y, mpp, o.x, o.y)


@spec(K + "getPixelFromPose(Pose2D const&) const", P, sampler=sane)
def _(c, s, p):
    pix(c, p.x, p.y, s.metersPerPixel, s.originOffset.x, s.originOffset.y)


@spec(K + "getPixelFromPosition(Position2D const&) const", P, sampler=sane)
def _(c, s, p):
    pix(c, p.x, p.y, s.metersPerPixel, s.originOffset.x, s.originOffset.y)


@spec(K + "getDeltaPixelFromDeltaPosition(Position2D const&) const", P, sampler=sane)
def _(c, s, p):
    pix(c, p.x, p.y, s.metersPerPixel, Z, Z)


@spec(K + "getPositionFromPixel(Point2Di const&) const", P)
def _(c, s, q):
    c.ret([s.originOffset.x + itor(q.x) * s.metersPerPixel, s.originOffset.y - itor(q.y) * s.metersPerPixel])


@spec(K + "getPoseFromPixel(Pose2Di const&) const", P)
def _(c, s, q):
    c.ret([s.originOffset.x + itor(q.x) * s.metersPerPixel, s.originOffset.y - itor(q.y) * s.metersPerPixel, q.theta])


def origin(m, size, mpp):
    half = itor(size) * mpp / const(2)
    return dict(originOffset__x=m.x - half, originOffset__y=m.y + half)


@spec(K + "initOriginOffset(Position2D const&)", P)
def _(c, s, m):
    c.set(s, **origin(m, s.size, s.metersPerPixel))


@spec(K + "OccupancyMapParams(int, float, Position2D const&, float)", P)
def _(c, s, size, mpp, m, thr):
    c.set(s, size=size, metersPerPixel=mpp, obstacleProbabilityThreshold=thr, **origin(m, size, mpp))


@spec(K + "getObstacleProbabilityThreshold() const", P)
def _(c, s):
    c.ret(s.obstacleProbabilityThreshold)


POS = K + "getPositionFromPixel(Point2Di const&) const"
PIXP = K + "getPixelFromPosition(Position2D const&) const"
PIXQ = K + "getPixelFromPose(Pose2D const&) const"
DELTA = K + "getDeltaPixelFromDeltaPosition(Position2D const&) const"


def amap(L):
    m = L.free("OccupancyMapParams", "m")
    L.assume(lt(Z, m.metersPerPixel))
    return m


@lemma("the pixel of the position of a pixel is that pixel", P)
def _(L):
    m, q = amap(L), L.free("Point2Di", "q")
    p = L.call(K + "getPositionFromPixel(Point2Di const&) const", m, q, ret="Position2D")
    w = L.choose(2)
    if w == 0:
        r = L.call(PIXP, m, p, ret="Point2Di")
    else:
        r = L.call(PIXQ, m, L.obj("Pose2D", [p.x, p.y, L.var("theta")]), ret="Point2Di")
    L.have("exact quotient, x", eq((p.x - m.originOffset.x) / m.metersPerPixel, itor(q.x)))
    L.have("exact quotient, y", eq(-(p.y - m.originOffset.y) / m.metersPerPixel, itor(q.y)))
    L.eq("same pixel", r, q)


@lemma("the position of the pixel of a position is within half a pixel of it", P)
def _(L):
    m, p = amap(L), L.free("Position2D", "p")
    q = L.call(PIXP, m, p, ret="Point2Di")
    r = L.call(POS, m, q, ret="Position2D")
    s = m.metersPerPixel
    o = m.originOffset
    for nm, a, b, k in (("x", r.x, p.x, (p.x - o.x) / s), ("y", r.y, p.y, -(p.y - o.y) / s)):
        g = q.x if nm == "x" else q.y
        L.have("offset " + nm, eq(a - b, (itor(g) - k) * s if nm == "x" else (k - itor(g)) * s))
        L.have("not too far " + nm, and_(le(a - b, s * HALF), le(-(a - b), s * HALF)))
        L.holds("distance " + nm, le(absr(a - b), s * HALF))


@lemma("the centre of a map is at its middle pixel", P)
def _(L):
    m = L.scratch("OccupancyMapParams")
    size, mpp, c, thr = L.ivar("size"), L.var("mpp"), L.free("Position2D", "c"), L.var("thr")
    L.assume(lt(Z, mpp))
    L.call(K + "OccupancyMapParams(int, float, Position2D const&, float)", m, size, mpp, c, thr)
    half = L.ivar("half")
    L.assume(eq(size, half + half))
    m = L.now(m)
    L.eq("centre", L.call(POS, m, L.obj("Point2Di", [half, half]), ret="Position2D"), c)
    q = L.call(PIXP, m, c, ret="Point2Di")
    o = m.originOffset
    L.have("exact quotient, x", eq((c.x - o.x) / mpp, itor(half)))
    L.have("exact quotient, y", eq(-(c.y - o.y) / mpp, itor(half)))
    L.eq("middle pixel", q, [half, half])
    L.eq("threshold", [L.call(K + "getObstacleProbabilityThreshold() const", m)], [thr])


@lemma("a displacement in pixels is the difference of the pixels, up to rounding", P)
def _(L):
    m, p, d = amap(L), L.free("Position2D", "p"), L.free("Position2D", "d")
    q = L.call(PIXP, m, p, ret="Point2Di")
    e = L.call(DELTA, m, d, ret="Point2Di")
    r = L.call(PIXP, m, L.obj("Position2D", [p.x + d.x, p.y + d.y]), ret="Point2Di")
    s, o = m.metersPerPixel, m.originOffset
    L.have("offsets add, x", eq((p.x + d.x - o.x) / s, (p.x - o.x) / s + d.x / s))
    L.have("offsets add, y", eq(-(p.y + d.y - o.y) / s, -(p.y - o.y) / s - d.y / s))
    for i in range(2):
        x = r.all()[i] - q.all()[i] - e.all()[i]
        one = tm.const(1, "I")
        L.holds("x" if i == 0 else "y", and_(le(x, one), le(-one, x)))
