"""C17: intersection of two segments."""
from common import *

P = ("C17",)
SIG = "intersectionSegment2D(Position2D const&, Position2D const&, Position2D const&, Position2D const&, Position2D&)"
TOL = F32(1e-5)


def x2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def inter(a1, a2, b1, b2):
    """(intersection?, point): parameters along both segments by Cramer's rule"""
    ga, gb, d = vsub(a2, a1), vsub(b2, b1), vsub(b1, a1)
    den = x2(ga, gb)
    par = lt(absr(den), TOL)
    rA, rB = x2(d, gb) / den, x2(d, ga) / den
    dot_like = and_(lt(absr(ga[0]), TOL), lt(absr(ga[1]), TOL))
    hit = and_(not_(par), not_(dot_like), le(const(0), rA), le(rA, const(1)), le(const(0), rB), le(rB, const(1)))
    return hit, vadd(a1, vscale(rA, ga)), rA, rB, den


def segs(rng, env, names):
    if rng.random() < 0.5:
        for v in names.values():
            env[v] = float(rng.choice([-1, 0, 0, 1, 2, 0.5]))


@spec(SIG, P, sampler=segs)
def _(c, a1, a2, b1, b2, o):
    hit, pt, _, _, _ = inter(a1.all(), a2.all(), b1.all(), b2.all())
    c.put(o, [ite(hit, x, y) for x, y in zip(pt, o.all())])
    c.ret(hit)


def four(L):
    return [L.free("Position2D", n) for n in ("a1", "a2", "b1", "b2")]


def between(p, a, b, name, L):
    ga = vsub(b, a)
    d = vsub(p, a)
    L.eq("on the line of segment " + name, [x2(ga, d)], [const(0)])
    L.holds("not before segment " + name, le(const(0), dot(ga, d)))
    L.holds("not beyond segment " + name, le(dot(ga, d), dot(ga, ga)))


@lemma("a reported point lies on both segments", P)
def _(L):
    a1, a2, b1, b2 = four(L)
    o = L.scratch("Position2D")
    r = L.call(SIG, a1, a2, b1, b2, o)
    L.assume(r)
    p = L.now(o).all()
    _, _, rA, rB, den = inter(a1.all(), a2.all(), b1.all(), b2.all())
    A1, A2, B1, B2 = (v.all() for v in (a1, a2, b1, b2))
    L.hint(eq(p[0], B1[0] + rB * (B2[0] - B1[0])), eq(p[1], B1[1] + rB * (B2[1] - B1[1])))
    between(p, A1, A2, "A", L)
    L.have("point of B, x", eq(p[0], B1[0] + rB * (B2[0] - B1[0])))
    L.have("point of B, y", eq(p[1], B1[1] + rB * (B2[1] - B1[1])))
    q = [B1[i] + rB * (B2[i] - B1[i]) for i in range(2)]
    between(q, B1, B2, "B", L)


@lemma("crossing segments are reported, parallel and degenerate ones are not", P)
def _(L):
    a1, a2, b1, b2 = four(L)
    A1, A2, B1, B2 = (v.all() for v in (a1, a2, b1, b2))
    o = L.scratch("Position2D")
    ga, gb, d = vsub(A2, A1), vsub(B2, B1), vsub(B1, A1)
    s, t = L.var("s"), L.var("t")
    k = L.cases(le(TOL, absr(x2(ga, gb))))
    if k == 0:
        # ghost parameters: the point A1 + s ga = B1 + t gb exists on both segments
        L.assume(or_(le(TOL, absr(ga[0])), le(TOL, absr(ga[1]))))
        for i in range(2):
            L.assume(eq(A1[i] + s * ga[i], B1[i] + t * gb[i]))
        for v in (s, t):
            L.assume(le(const(0), v))
            L.assume(le(v, const(1)))
        den = x2(ga, gb)
        L.have("first parameter", eq(s, x2(d, gb) / den))
        L.have("second parameter", eq(t, x2(d, ga) / den))
        r = L.call(SIG, a1, a2, b1, b2, o)
        L.holds("reported", r)
        p = L.now(o).all()
        L.eq("the common point", p, [A1[i] + s * ga[i] for i in range(2)])
    else:
        old = o.all()
        r = L.call(SIG, a1, a2, b1, b2, o)
        L.holds("not reported", not_(r))
        L.eq("output untouched", L.now(o), old)


@lemma("the answer does not depend on the direction of the segments", P)
def _(L):
    a1, a2, b1, b2 = four(L)
    A1, A2, B1, B2 = (v.all() for v in (a1, a2, b1, b2))
    o, o2 = L.scratch("Position2D"), L.scratch("Position2D")
    w = L.choose(2)
    hit, pt, rA, rB, den = inter(A1, A2, B1, B2)
    hit2, pt2, rA2, rB2, den2 = inter(A2, A1, B1, B2) if w == 0 else inter(A1, A2, B2, B1)
    k = L.cases(lt(absr(den), TOL))
    if k == 1:
        L.have("parameter along A", eq(rA2, const(1) - rA if w == 0 else rA))
        L.have("parameter along B", eq(rB2, rB if w == 0 else const(1) - rB))
    r = L.call(SIG, a1, a2, b1, b2, o)
    r2 = L.call(SIG, a2, a1, b1, b2, o2) if w == 0 else L.call(SIG, a1, a2, b2, b1, o2)
    if k == 0:
        L.holds("not reported", not_(r))
        L.holds("not reported when reversed", not_(r2))
        return
    L.holds("reported when reversed", implies(r, r2))
    L.holds("reported only when reversed", implies(r2, r))
    L.assume(r)
    L.have("reported", r2)
    L.eq("same point", L.now(o2), L.now(o))
