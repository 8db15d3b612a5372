"""C25: validity test and normalisation of rotation matrices and transforms."""
from common import *

P = ("C25",)
EPS = F32(0.0001)


def valid(M, e):
    c = tr(M)
    one = const(1)
    conds = [dot(c[1], c[0]), dot(c[2], c[0]), dot(c[2], c[1])] + [dot(M[i], M[i]) - one for i in range(3)] + [det3(M) - one]
    return and_(*[le(absr(x), e) for x in conds])


def normed(M):
    """Gram-Schmidt starting from the third column; identity when degenerate"""
    y, z = [M[i][1] for i in range(3)], [M[i][2] for i in range(3)]
    n3 = norm(z)
    z = [a / n3 for a in z]
    xr = cross(y, z)
    n1 = norm(xr)
    x = [a / n1 for a in xr]
    y = cross(z, x)
    bad = or_(lt(n3, EPS), lt(n1, EPS))
    return [[ite(lt(n3, EPS), I3[i][j], ite(lt(n1, EPS), I3[i][j], (x, y, z)[j][i])) for j in range(3)] for i in range(3)]


@spec("Rotation::isRotation(float const&) const", P)
def _(c, s, e):
    c.ret(valid(rows(s), e))


@spec("Transform::isTransform(float const&) const", P)
def _(c, s, e):
    c.ret(valid(rows(s), e))


@spec(["normalizeRotation(Rotation&)", "Rotation::normalizeRotation()"], P)
def _(c, s):
    c.put(s, flat3(normed(rows(s))))


@spec(["normalizeTransform(Transform&)", "Transform::normalizeTransform()"], P)
def _(c, s):
    c.put(s, T4(normed(rows(s)), pos(s)))


def size_in(v, *ns):
    return or_(*[eq(tm.lift(v.n, "I"), const(n, "I")) for n in ns])


@spec("Rotation::Rotation(VF const&)", P + ("C10",))
def _(c, s, v):
    at = lambda i: v.at(const(i, "I"))
    nine, tf = size_in(v, 9), size_in(v, 12, 16)
    c.put(s, [ite(nine, at(3 * i + j), ite(tf, at(4 * i + j), I3[i][j])) for i in range(3) for j in range(3)])


@spec("Transform::Transform(VF const&)", P + ("C10",))
def _(c, s, v):
    at = lambda i: v.at(const(i, "I"))
    tf = size_in(v, 12, 16)
    M = [[at(4 * i + j) for j in range(3)] for i in range(3)]
    ok = valid(M, EPS)
    N = normed(M)
    c.put(s, [ite(tf, at(4 * i + 3) if j == 3 else ite(ok, M[i][j], N[i][j]), const(1 if i == j else 0))
              for i in range(3) for j in range(4)])


def is_rot(L, name, R):
    L.eq(name + ": R^T R == 1", mm(tr(R), R), I3)
    L.holds(name + ": det R == 1", eq(det3(R), const(1)))


@lemma("normalisation always yields a rotation and keeps the position", P)
def _(L):
    r = L.free("Rotation", "r")
    L.call("normalizeRotation(Rotation&)", r)
    is_rot(L, "normalizeRotation", rows(L.now(r)))
    t = L.free("Transform", "t")
    L.call("normalizeTransform(Transform&)", t)
    is_rot(L, "normalizeTransform", rows(L.now(t)))
    L.eq("position kept", pos(L.now(t)), pos(t))


@lemma("rotations are fixed points of normalisation and pass the test", P)
def _(L):
    e = L.var("e")
    L.assume(le(const(0), e))
    r = L.make("Rotation", ROTM, "a")
    L.holds("isRotation", L.call("Rotation::isRotation(float const&) const", r, e))
    r2 = L.make("Rotation", ROTM, "a")
    L.call("normalizeRotation(Rotation&)", r2)
    L.eq("normalizeRotation", L.now(r2), r)
    t = L.make("Transform", RIGID, "t")
    L.holds("isTransform", L.call("Transform::isTransform(float const&) const", t, e))
    t2 = L.make("Transform", RIGID, "t")
    L.call("normalizeTransform(Transform&)", t2)
    L.eq("normalizeTransform", L.now(t2), t)
