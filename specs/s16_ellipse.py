"""C16: clipping a footstep to an ellipse."""
from common import *

P = ("C16",)
SIG = "clipFootWithEllipse(float const&, float const&, Pose2D&)"


def shape(a, b, x, y):
    return x * x / (a * a) + y * y / (b * b)


@spec(SIG, P)
def _(c, mx, my, p):
    c.req(ne(mx, const(0)))
    c.req(ne(my, const(0)))
    n = shape(mx, my, p.x, p.y)
    out = not_(lt(n, F32(1.00001)))
    r = sqrt(n)
    c.put(p, [ite(out, p.x / r, p.x), ite(out, p.y / r, p.y), p.theta])
    c.ret(out)


@lemma("a clipped step lies on the ellipse, in the direction asked for, with its heading", P)
def _(L):
    mx, my = L.var("mx"), L.var("my")
    p = L.free("Pose2D", "p")
    L.assume(ne(mx, const(0)))
    L.assume(ne(my, const(0)))
    x, y, th = p.all()
    n = shape(mx, my, x, y)
    r = L.call(SIG, mx, my, p)
    q = L.now(p)
    L.assume(r)
    L.eq("on the ellipse", [shape(mx, my, q.x, q.y)], [const(1)])
    L.eq("same direction", [q.x * y], [q.y * x])
    L.holds("not turned around", le(const(0), q.x * x + q.y * y))
    L.holds("never longer", le(q.x * q.x + q.y * q.y, x * x + y * y))
    L.eq("heading", [q.theta], [th])


@lemma("a step inside the ellipse is untouched and not reported", P)
def _(L):
    mx, my = L.var("mx"), L.var("my")
    p = L.free("Pose2D", "p")
    L.assume(ne(mx, const(0)))
    L.assume(ne(my, const(0)))
    v = p.all()
    L.assume(le(shape(mx, my, v[0], v[1]), const(1)))
    r = L.call(SIG, mx, my, p)
    L.holds("not reported", not_(r))
    L.eq("untouched", L.now(p), v)


@lemma("clipping twice changes nothing more", P)
def _(L):
    mx, my = L.var("mx"), L.var("my")
    p = L.free("Pose2D", "p")
    L.assume(ne(mx, const(0)))
    L.assume(ne(my, const(0)))
    r = L.call(SIG, mx, my, p)
    v = L.now(p).all()
    L.assume(r)
    L.eq("on the ellipse", [shape(mx, my, v[0], v[1])], [const(1)])
    L.have("on the ellipse", eq(shape(mx, my, v[0], v[1]), const(1)))
    r2 = L.call(SIG, mx, my, p)
    L.holds("not reported", not_(r2))
    L.eq("untouched", L.now(p), v)
