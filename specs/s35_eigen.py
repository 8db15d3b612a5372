"""C35: conversions between ALMath and Eigen (header-only, instantiated in inst/almatheigen.cpp)"""
from common import *
import ir
from lemmas import Thrown

P = ("C35",)
I_ = "AL::Inst::"
H = dict(harness="almatheigen.cpp")
Z, ONE = const(0), const(1)


def arr(L, name, n, vals=None):
    p = L.st.alloc(4 * n, name)
    vs = vals or [L.var("%s%d" % (name, i)) for i in range(n)]
    for i, v in enumerate(vs):
        L.put(L.ex.padd(p, 4 * i), v, ir.FLOAT)
    return p, vs


def out(L, name, n):
    p = L.st.alloc(4 * n, name)
    for i in range(n):
        L.put(L.ex.padd(p, 4 * i), tm.fresh("junk", "R"), ir.FLOAT)
    return p


def read(L, p, n):
    return [tm.lift(L.get(L.ex.padd(p, 4 * i), ir.FLOAT)) for i in range(n)]


def same(L, name, got, want):
    for k, (a, b) in enumerate(zip(got, want)):
        L.holds("%s [%d]" % (name, k), eq(a, b))


def rows34(t):
    return [getattr(t, "r%d_c%d" % (i, j)) for i in (1, 2, 3) for j in (1, 2, 3, 4)]


def columns(t, n=4, h=3):
    """the entries of the first n columns, column by column"""
    v = rows34(t)
    return [v[4 * i + j] for j in range(n) for i in range(h)]


for NAME, N in (("toEigenMatrix34", 4), ("toEigenMatrix3", 3), ("toEigenAffineCompact3", 4)):
    @lemma("%s has the entries of the transform" % NAME, P, **H)
    def _(L, NAME=NAME, N=N):
        t = L.free("Transform", "t")
        want = columns(t, N)
        before = rows34(t)
        o = out(L, "m", 3 * N)
        L.call(I_ + NAME + "(AL::Math::Transform const*, float*)", t, o)
        same(L, "entry", read(L, o, 3 * N), want)
        same(L, "argument", rows34(t), before)
        same(L, "argument", columns(t), columns(t) )


@lemma("toEigenVector3 has the coordinates of the position", P, **H)
def _(L):
    p = L.free("Position3D", "p")
    o = out(L, "v", 3)
    L.call(I_ + "toEigenVector3(AL::Math::Position3D const*, float*)", p, o)
    same(L, "coordinate", read(L, o, 3), [p.x, p.y, p.z])


for NAME, N in (("toALMathTransformInto", 12), ("toALMathTransform", 12), ("affineCompactToALMath", 12), ("affineToALMath", 16), ("affineToALMathInto", 16)):
    @lemma("%s has the entries of the matrix" % NAME, P, **H)
    def _(L, NAME=NAME, N=N):
        m, v = arr(L, "m", N)
        t = L.free("Transform", "t")
        L.call(I_ + NAME + "(float const*, AL::Math::Transform*)", m, t)
        t = L.now(t)
        same(L, "entry", columns(t), [v[j * (N // 4) + i] for j in range(4) for i in range(3)])
        same(L, "argument", read(L, m, N), v)


@lemma("toALMathPosition3D has the coordinates of the vector", P, **H)
def _(L):
    m, v = arr(L, "m", 3)
    p = L.free("Position3D", "p")
    L.call(I_ + "toALMathPosition3D(float const*, AL::Math::Position3D*)", m, p)
    p = L.now(p)
    same(L, "coordinate", [p.x, p.y, p.z], v)


for NAME in ("toALMathVelocity6DInto", "toALMathVelocity6D"):
    @lemma("%s has the coordinates of the vector" % NAME, P, **H)
    def _(L, NAME=NAME):
        m, v = arr(L, "m", 6)
        p = L.free("Velocity6D", "v")
        L.call(I_ + NAME + "(float const*, AL::Math::Velocity6D*)", m, p)
        p = L.now(p)
        same(L, "coordinate", [p.xd, p.yd, p.zd, p.wxd, p.wyd, p.wzd], v)


@lemma("the quaternion of a rigid transform is a unit and denotes its rotation", P, split_select=True, **H)
def _(L):
    t = L.make("Transform", RIGID, "t")
    R = rows(t)
    o = out(L, "q", 4)
    L.hint(ONE)
    L.call(I_ + "toEigenQuaternion(AL::Math::Transform const*, float*)", t, o)
    q = read(L, o, 4)
    same(L, "unit", [dot(q, q)], [ONE])
    Q = quat_rot(*q)
    same(L, "rotation", [x for r in Q for x in r], [x for r in R for x in r])


def quaternion_of(ex, st, args):
    """contract of toEigenQuaternion, a function of the rotation (which the lemma above proves a unit that denotes it)"""
    ret, t = args
    R = [tm.lift(ex.load(st, ex.padd(t, 16 * i + 4 * j), ir.FLOAT, ex.mod)) for i in range(3) for j in range(3)]
    for k, v in zip((3, 0, 1, 2), quaternion(R)):
        ex.store(st, ex.padd(ret, 4 * k), v, ir.FLOAT, ex.mod)
    return ex.ret(st, None)


def quaternion(R):
    """w, x, y, z of the rotation with rows R, as functions of the element of the range"""
    i = R[0].args[0]
    assert all(x.op == "sel" and x.args[0] == i for x in R), R
    return [tm.mk("sel", (i,), "R", "%s.quaternion_%s" % (R[0].data.split(".")[0], c)) for c in "wxyz"]


@lemma("the average of transforms", P, contracts=((r"AL::Math::toEigenQuaternion<float>", quaternion_of),), **H)
def _(L):
    v = L.pvec("t", "Transform")
    n = v.n
    t = L.free("Transform", "r")
    try:
        L.call(I_ + "averageTransforms(std::vector<AL::Math::Transform, std::allocator<AL::Math::Transform>> const*, AL::Math::Transform*)",
               v, t, throws=True)
    except Thrown:
        L.holds("throws for an empty range only", eq(n, const(0, "I")))
        return
    t = L.now(t)
    L.holds("throws for an empty range", lt(const(0, "I"), n))
    q = lambda i: quaternion([v.at(i).r1_c1] * 9)
    first = q(const(0, "I"))
    side = lambda i, x: ite(le(Z, dot(q(i), first)), x, -x)
    S = [Sum(n, lambda i, c=c: side(i, q(i)[c])) for c in range(4)]
    norm = sqrt(dot(S, S))
    if L.cases(lt(Z, dot(S, S))) != 0:
        return
    R = quat_rot(*[x / norm for x in S])
    for i in range(3):
        for j in range(3):
            L.holds("rotation [%d%d]" % (i, j), eq(rows(t)[i][j], R[i][j]))
    for i in range(3):
        L.holds("translation [%d]" % i, eq(getattr(t, "r%d_c4" % (i + 1)), Sum(n, lambda k, i=i: getattr(v.at(k), "r%d_c4" % (i + 1))) / tm.itor(n)))
