"""C27: projection of a rotation on the rotations about an axis."""
from common import *
from lemmas import Thrown

P = ("C27",)
Z, ONE, TWO = const(0), const(1), const(2)
IR = "axisRotationProjectionInPlace(Position3D const&, Rotation&)"
IT = "axisRotationProjectionInPlace(Position3D const&, Transform&)"
VR = "axisRotationProjection(Position3D const&, Rotation const&)"
VT = "axisRotationProjection(Position3D const&, Transform const&)"


def turn(co, si, u):
    """rotation about the unit vector u, of given cosine and sine"""
    x, y, z = u
    v = ONE - co
    return [[ONE - v * (y * y + z * z), x * y * v - z * si, x * z * v + y * si],
            [x * y * v + z * si, ONE - v * (x * x + z * z), y * z * v - x * si],
            [x * z * v - y * si, y * z * v + x * si, ONE - v * (x * x + y * y)]]


def about(c, axis, get):
    """ensures: the result is the rotation about the axis whose cosine and sine are its own trace and skew part"""
    n = norm(axis)
    u = [x / n for x in axis]

    def cs(res, post):
        Q = get(res, post)
        co = (Q[0][0] + Q[1][1] + Q[2][2] - ONE) / TWO
        si = dot(u, [Q[2][1] - Q[1][2], Q[0][2] - Q[2][0], Q[1][0] - Q[0][1]]) / TWO
        return Q, co, si
    c.ensures("cosine and sine of one angle", lambda r, p: (lambda Q, co, si: eq(co * co + si * si, ONE))(*cs(r, p)))
    for i in range(3):
        for j in range(3):
            c.ensures("a rotation about the axis [%d,%d]" % (i, j),
                      lambda r, p, i=i, j=j: (lambda Q, co, si: eq(Q[i][j], turn(co, si, u)[i][j]))(*cs(r, p)))
    c.throws(eq(n, Z), "std::runtime_error")
    c.may(TRUE, "std::runtime_error")


M = lambda: [[Havoc() for _ in range(3)] for _ in range(3)]
AXES = lambda rng, env, names: [env.__setitem__(v, float(rng.choice([0, 0, 1, -1, 0.5, 2]))) for v in names
                                if v.split(".")[-1] in "xyz" and rng.random() < 0.5]


@spec(IR, P, sampler=AXES)
def _(c, axis, r):
    c.put(r, flat3(M()))
    about(c, axis.all(), lambda res, post: rows(post(r)))


@spec(IT, P, sampler=AXES)
def _(c, axis, t):
    c.put(t, T4(M(), pos(t)))
    about(c, axis.all(), lambda res, post: rows(post(t)))


@spec(VR, P, sampler=AXES)
def _(c, axis, r):
    c.ret(flat3(M()))
    about(c, axis.all(), lambda res, post: [res[3 * i:3 * i + 3] for i in range(3)])


@spec(VT, P, sampler=AXES)
def _(c, axis, t):
    c.ret(T4(M(), pos(t)))
    about(c, axis.all(), lambda res, post: [res[4 * i:4 * i + 3] for i in range(3)])


INL = {"inline_fns": r"axisRotationProjection"}


def scaled(L, u):
    k = L.var("k")
    L.assume(lt(Z, k))
    L.hint(k)
    return L.obj("Position3D", [k * x for x in u], "axis")


def kept(L, axis, R):
    r = L.obj("Rotation", flat3(R), "r")
    p = [L.var("p" + a) for a in "xyz"]
    t = L.obj("Transform", T4(R, p), "t")
    if L.choose(2) == 0:
        L.call(IR, axis, r)
        L.eq("Rotation form", L.now(r), flat3(R))
    else:
        L.call(IT, axis, t)
        L.eq("Transform form", L.now(t), T4(R, p))


for _i, _n in enumerate("xyz"):
    def mk(i, n):
        @lemma("rotations about an axis without %s component are left unchanged" % n, P, **INL)
        def _(L):
            ph, th = L.var("ph"), L.var("th")
            u = [cos(ph), sin(ph)]
            u.insert(i, Z)
            kept(L, scaled(L, u), turn(cos(th), sin(th), u))
    mk(_i, _n)


@lemma("rotations about an oblique axis are left unchanged", P, **INL)
def _(L):
    th = L.var("th")
    u = [const(2) / const(3), const(1) / const(3), const(2) / const(3)]
    kept(L, scaled(L, u), turn(cos(th), sin(th), u))


@lemma("the four forms agree", P, **INL)
def _(L):
    axis, t = L.free("Position3D", "axis"), L.free("Transform", "t")
    r = L.obj("Rotation", flat3(rows(t)), "r")
    L.assume(ne(norm(axis.all()), Z))
    w = L.choose(3)

    def run(sig, *a):
        try:
            return L.call(sig, *a, throws=True) or True
        except Thrown:
            return None

    def leaves(x, n):
        q = x.all()
        return q if n == 3 else [q[4 * i + j] for i in range(3) for j in range(3)]
    if w == 0:
        a = run(VR, axis, r)
        b = run(IR, axis, r)
    elif w == 1:
        a = run(VT, axis, t)
        b = run(IT, axis, t)
    else:
        a = run(VR, axis, r)
        b = run(VT, axis, t)
    L.holds("refused by both or by none", TRUE if (a is None) == (b is None) else FALSE)
    if a is None or b is None:
        return
    if w == 0:
        L.eq("value and in-place, rotation", L.now(r), a)
    elif w == 1:
        L.eq("value and in-place, transform", L.now(t), a)
    else:
        L.eq("rotation and transform", leaves(b, 4), leaves(a, 3))
        L.eq("the translation is kept", pos(b), pos(t))
