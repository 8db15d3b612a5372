"""C07: exponential, logarithm and interpolation of rigid transforms."""
import math
from common import *
from lemmas import Thrown

P = ("C07",)
EPS = F32(0.001)
NEAR = F32(0.999)
NEARPI = F32(tm.f32(math.pi) - tm.f32(0.001))
Z, ONE, HALF = const(0), const(1), const(1) / const(2)


def hat(a):
    x, y, z = a
    return [[Z, -z, y], [z, Z, -x], [-y, x, Z]]


def combine(*kms):
    return [[sum_(k * m[i][j] for k, m in kms) for j in range(3)] for i in range(3)]


def expo(v):
    """exp of the twist (v, w): rotation I + S [w] + C [w]^2, translation (I + C [w] + D [w]^2) v"""
    lin, w = v[:3], v[3:]
    t2 = dot(w, w)
    t = sqrt(t2)
    reg = le(EPS, t)
    C = ite(reg, (ONE - cos(t)) / t2, HALF)
    S = ite(reg, sin(t) / t, ONE - t2 / const(6))
    D = ite(reg, (t - sin(t)) / (t2 * t), F32(0.166666667))
    W = hat(w)
    WW = mm(W, W)
    R = combine((ONE, I3), (S, W), (C, WW))
    # the left Jacobian is written (S I + C [w] + D w w') by the library: S = 1 - D t^2
    ww = [[w[i] * w[j] for j in range(3)] for i in range(3)]
    J = combine((S, I3), (C, W), (D, ww))
    return T4(R, mv(J, lin))


def vee2(R):
    return [R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]


def untwist(w, p, lam):
    wp = cross(w, p)
    return vadd(vsub(p, vscale(HALF, wp)), vscale(lam, cross(w, wp)))


def loga(t, old):
    R, p = rows(t), pos(t)
    a = vee2(R)
    si = HALF * norm(a)
    co = HALF * (R[0][0] + R[1][1] + R[2][2] - ONE)
    th = atan2(si, co)
    small = lt(si, EPS)
    near0, near1 = lt(NEAR, co), lt(co, -NEAR)
    half = and_(small, not_(near0), near1)                  # about a half turn
    none = and_(small, not_(near0), not_(near1))            # not a rotation at all
    # general case
    k = ite(small, ite(near0, HALF, Z), th / (const(2) * si))
    lam = ite(lt(th, EPS), F32(1 / 12), ite(or_(lt(NEARPI, th), lt(th, -NEARPI)), F32(0.101),
              HALF * (const(2) * si - th * (ONE + co)) / (th * th * si)))
    w = vscale(k, a)
    gv = untwist(w, p, lam)
    gw = [ite(none, o, x) for o, x in zip(old, w)]
    # half turn about n: principal axes first, otherwise the largest column of R + I
    d = [R[0][0], R[1][1], R[2][2]]
    pr = [lt(NEAR, x) for x in d]
    col = [[R[i][j] + (ONE if i == j else Z) for i in range(3)] for j in range(3)]
    sel1 = and_(le(d[0], d[1]), le(d[2], d[1]))
    sel2 = le(d[0], d[2])
    n = [ite(sel1, col[1][i], ite(sel2, col[2][i], col[0][i])) for i in range(3)]
    nn = norm(n)
    e = [ite(pr[0], I3[0][i], ite(pr[1], I3[1][i], ite(pr[2], I3[2][i], n[i] / nn))) for i in range(3)]
    hw = vscale(th, e)
    hv = untwist(hw, p, ONE / (PI * PI))
    return [ite(half, x, y) for x, y in zip(hv + hw, gv + gw)], and_(half, *[not_(x) for x in pr]), nn


LI = "transformLogarithmInPlace(Transform const&, Velocity6D&)"
LF = "transformLogarithm(Transform const&)"
EI = "velocityExponentialInPlace(Velocity6D const&, Transform&)"
EF = "velocityExponential(Velocity6D const&)"


@spec(EI, P)
def _(c, v, t):
    c.put(t, expo(v.all()))


@spec(EF, P)
def _(c, v):
    c.ret(expo(v.all()))


@spec(LI, P)
def _(c, t, v):
    r, axis, nn = loga(t, v.all()[3:])
    c.throws(and_(axis, eq(nn, Z)), "std::runtime_error")
    c.put(v, r)


@spec(LF, P)
def _(c, t):
    r, axis, nn = loga(t, Z3)
    c.throws(and_(axis, eq(nn, Z)), "std::runtime_error")
    c.ret(r)


MI = "transformMeanInPlace(Transform const&, Transform const&, float const&, Transform&)"
MF = "transformMean(Transform const&, Transform const&, float const&)"


def t4(a):
    return [[a[4 * i + j] for j in range(3)] for i in range(3)], [a[4 * i + 3] for i in range(3)]


def compose(A, p, B, q):
    return T4(mm(A, B), vadd(mv(A, q), p))


class _TV:
    """leaves of a transform seen through the field names"""

    def __init__(self, leaves):
        for n, x in zip(("r1_c1 r1_c2 r1_c3 r1_c4 r2_c1 r2_c2 r2_c3 r2_c4 r3_c1 r3_c2 r3_c3 r3_c4").split(), leaves):
            setattr(self, n, x)


def mean(t1, t2, d):
    """H1 exp(d log(H1^-1 H2)) and the condition under which the logarithm has no direction"""
    A, p = rows(t1), pos(t1)
    Ai = tr(A)
    rel = compose(Ai, vneg(mv(Ai, p)), rows(t2), pos(t2))
    v, axis, nn = loga(_TV(rel), Z3)
    E, q = t4(expo(vscale(d, v)))
    return compose(A, p, E, q), and_(axis, eq(nn, Z))


@spec(MI, P)
def _(c, t1, t2, d, o):
    r, bad = mean(t1, t2, d)
    c.throws(or_(lt(ONE, d), lt(d, Z), bad), "std::runtime_error")
    c.put(o, r)


@spec(MF, P)
def _(c, t1, t2, d):
    r, bad = mean(t1, t2, d)
    c.throws(or_(lt(ONE, d), lt(d, Z), bad), "std::runtime_error")
    c.ret(r)


def turn(c, s, n):
    """rotation about the unit vector n, of the angle whose cosine and sine are c and s"""
    x, y, z = n
    v = ONE - c
    return [[x * x * v + c, x * y * v - z * s, x * z * v + y * s],
            [x * y * v + z * s, y * y * v + c, y * z * v - x * s],
            [x * z * v - y * s, y * z * v + x * s, z * z * v + c]]


def turned(L, name, lo=EPS):
    """every rigid transform whose rotation angle has a sine of at least lo, with its axis and angle"""
    n, rules, hyps, _ = UNIT3.make(name)
    L.rules.update(rules)
    c, s = L.var(name + ".cos"), L.var(name + ".sin")
    L.rules[s] = ONE - c * c
    for h in hyps + [eq(c * c + s * s, ONE), le(lo, s)]:
        L.assume(h)
    p = [L.var(name + ".p%s" % k) for k in "xyz"]
    return L.obj("Transform", T4(turn(c, s, n), p), name), n, c, s, p




def regular_log(L, v, R, n, c, s, p, A):
    """the logarithm v of the regular transform (R, p) in closed form: (J^-1 p, A n), proved step by step"""
    a = vee2(R)
    v = L.rewrite(v, (HALF * norm(a), s), (HALF * (R[0][0] + R[1][1] + R[2][2] - ONE), c))
    v = L.rewrite(v, (lt(s, EPS), FALSE), (lt(A, EPS), FALSE), (lt(NEARPI, A), FALSE), (lt(A, -NEARPI), FALSE))
    lam = HALF * (const(2) * s - A * (ONE + c)) / (A * A * s)
    w = vscale(A, n)
    return L.become(v, untwist(w, p, lam) + w, "logarithm: angle times axis")


def regular_exp(L, h, w, A, c, s):
    h = L.rewrite(h, (norm(w), A), (dot(w, w), A * A))
    return L.rewrite(h, (le(EPS, A), TRUE), (sin(A), s), (cos(A), c))


def angle_facts(L, c, s):
    A = atan2(s, c)
    L.hint(s, A)
    L.have("sine and cosine of the angle", and_(eq(sin(A), s), eq(cos(A), c)))
    L.have("range of the angle", and_(le(EPS, A), le(A, PI - EPS)))
    L.have("range of the angle, as compared", and_(le(A, NEARPI), le(-NEARPI, A)))
    return A


@lemma("the exponential of the logarithm is the transform (sine of the angle at least 1e-3)", P)
def _(L):
    t, n, c, s, p = turned(L, "t")
    A = angle_facts(L, c, s)
    v = regular_log(L, L.call(LF, t, ret="Velocity6D"), rows(t), n, c, s, p, A)
    h = regular_exp(L, L.call(EF, v), v.all()[3:], A, c, s)
    L.eq("exp(log H)", h, t)


@lemma("the logarithm of the exponential is the twist (turns whose sine is at least 1e-3)", P)
def _(L):
    n, rules, hyps, _ = UNIT3.make("n")
    th, p = L.var("angle"), [L.var("v" + k) for k in "xyz"]
    L.rules.update(rules)
    for h in hyps + [lt(const(0), th), lt(th, PI), le(EPS, sin(th))]:
        L.assume(h)
    L.hint(th)
    c, s, w = cos(th), sin(th), vscale(th, n)
    t = L.call(EF, L.obj("Velocity6D", p + w, "v"))
    L.have("range of the angle", and_(le(EPS, th), le(th, PI - EPS)))
    t = L.rewrite(t, (norm(w), th), (dot(w, w), th * th))
    t = L.rewrite(t, (le(EPS, th), TRUE))
    C, D = (ONE - c) / (th * th), (th - s) / (th * th * th)
    u = vadd(vadd(vscale(s / th, p), vscale(C, cross(w, p))), vscale(D * dot(w, p), w))
    t = L.become(t, T4(turn(c, s, n), u), "exponential: Rodrigues and left Jacobian")
    A = atan2(s, c)
    L.hint(s)
    L.have("the angle", and_(eq(sin(A), s), eq(cos(A), c)))
    L.have("the angle is recovered", eq(A, th))
    v = L.call(LF, t, ret="Velocity6D")
    a, R = vee2(rows(t)), rows(t)
    v = L.rewrite(v, (HALF * norm(a), s), (HALF * (R[0][0] + R[1][1] + R[2][2] - ONE), c))
    v = L.rewrite(v, (A, th))
    v = L.rewrite(v, (lt(s, EPS), FALSE), (lt(th, EPS), FALSE), (lt(NEARPI, th), FALSE), (lt(th, -NEARPI), FALSE))
    L.eq("log(exp V)", v, p + w)


@lemma("exponentials are rigid", P)
def _(L):
    n, rules, hyps, _ = UNIT3.make("n")
    th, p = L.var("angle"), [L.var("v" + k) for k in "xyz"]
    L.rules.update(rules)
    for h in hyps + [le(EPS, th)]:
        L.assume(h)
    L.hint(th)
    w = vscale(th, n)
    t = L.call(EF, L.obj("Velocity6D", p + w, "v"))
    t = L.rewrite(t, (norm(w), th), (dot(w, w), th * th))
    t = L.rewrite(t, (le(EPS, th), TRUE))
    L.eq("rotation", flat3(rows(t)), flat3(turn(cos(th), sin(th), n)))
    L.holds("orthonormal", orthonormal(turn(cos(th), sin(th), n)))


@lemma("translations: logarithm and exponential leave the position alone", P)
def _(L):
    p = [L.var("p" + k) for k in "xyz"]
    t = L.obj("Transform", T4(I3, p), "t")
    v = L.call(LF, t, ret="Velocity6D")
    L.eq("log", v, p + Z3)
    L.eq("exp(log H)", L.call(EF, v), t)


@lemma("half turns about the principal axes: the exponential of the logarithm is the transform", P)
def _(L):
    k = L.cases(eq(L.var("axis"), ONE), eq(L.var("axis"), const(2)))
    p = [L.var("p" + k) for k in "xyz"]
    t = L.obj("Transform", T4(turn(-ONE, Z, I3[k]), p), "t")
    v = L.call(LF, t, ret="Velocity6D")
    v = L.rewrite(v, (atan2(Z, -ONE), PI))
    L.eq("angular part", v.all()[3:], vscale(PI, I3[k]))
    L.hint(PI)
    w = vscale(PI, I3[k])
    v = L.become(v, v.all()[:3] + w)
    h = regular_exp(L, L.call(EF, v), w, PI, -ONE, Z)
    L.eq("exp(log H)", h, t)


@lemma("half turns about any other axis: the exponential of the logarithm is the transform", P)
def _(L):
    n, rules, hyps, _ = UNIT3.make("n")
    L.rules.update(rules)
    for h in hyps:
        L.assume(h)
    p = [L.var("p" + k) for k in "xyz"]
    R = turn(-ONE, Z, n)
    d = [R[i][i] for i in range(3)]
    for x in d:
        L.assume(le(x, NEAR))
    sel1 = and_(le(d[0], d[1]), le(d[2], d[1]))
    j = (1, 2, 0)[L.cases(sel1, le(d[0], d[2]))]
    L.have("the selected component is not zero", ne(n[j], Z))
    sg = ONE if L.cases(lt(Z, n[j])) == 0 else -ONE
    t = L.obj("Transform", T4(R, p), "t")
    L.hint(const(2) * sg * n[j])
    col = [R[i][j] + (ONE if i == j else Z) for i in range(3)]
    L.have("length of the selected column", eq(norm(col), const(2) * sg * n[j]))
    v = L.call(LF, t, ret="Velocity6D")
    v = L.rewrite(v, (HALF * (R[0][0] + R[1][1] + R[2][2] - ONE), -ONE))
    v = L.rewrite(v, (HALF * norm(vee2(R)), Z), (atan2(Z, -ONE), PI))
    w = vscale(sg * PI, n)
    v = L.become(v, untwist(w, p, ONE / (PI * PI)) + w, "logarithm")
    L.hint(PI)
    h = regular_exp(L, L.call(EF, v), w, PI, -ONE, Z)
    L.eq("exp(log H)", h, t)


def relative(t1, t2):
    A, p = rows(t1), pos(t1)
    Ai = tr(A)
    return compose(Ai, vneg(mv(Ai, p)), rows(t2), pos(t2))


MUL = "Transform::operator*(Transform const&) const"


@lemma("the mean at distance 0 is the first transform", P)
def _(L):
    a, b = L.make("Transform", RIGID, "a"), L.make("Transform", RIGID, "b")
    try:
        h = L.call(MF, a, b, Z, throws=True)
    except Thrown:
        return L.holds("(no direction)", TRUE)
    L.eq("mean(a, b, 0)", h, a)


@lemma("the mean of a transform with itself is that transform, at any distance", P)
def _(L):
    a, d = L.make("Transform", RIGID, "a"), L.var("d")
    L.assume(and_(le(Z, d), le(d, ONE)))
    rel = relative(a, a)
    L.have("relative transform", and_(*[eq(x, y) for x, y in zip(rel, T4(I3, Z3))]))
    try:
        h = L.call(MF, a, a, d, throws=True)
    except Thrown:
        _, bad = mean(a, a, d)
        bad, = L.rewrite([bad], *zip(rel, T4(I3, Z3)))
        return L.holds("does not throw", not_(bad))
    h = L.rewrite(h, *zip(rel, T4(I3, Z3)))
    L.eq("mean(a, a, d)", h, a)


@lemma("the mean at distance 1 is the second transform (relative turn with a sine of at least 1e-3)", P)
def _(L):
    a = L.make("Transform", RIGID, "a")
    t, n, c, s, p = turned(L, "t")
    b = L.call(MUL, a, t)
    rel = relative(a, b)
    K = t.all()
    A = angle_facts(L, c, s)
    L.have("relative transform", and_(*[eq(x, y) for x, y in zip(rel, K)]))
    R, v = rows(t), vee2(rows(t))
    si, co = HALF * norm(v), HALF * (R[0][0] + R[1][1] + R[2][2] - ONE)

    def steps(x):
        x = L.rewrite(x, *zip(rel, K))
        x = L.rewrite(x, (si, s), (co, c))
        return L.rewrite(x, (lt(s, EPS), FALSE), (lt(A, EPS), FALSE), (lt(NEARPI, A), FALSE), (lt(A, -NEARPI), FALSE))
    try:
        h = L.call(MF, a, b, ONE, throws=True)
    except Thrown:
        bad, = steps([mean(a, b, ONE)[1]])
        return L.holds("does not throw", not_(bad))
    h = steps(h)
    lg = steps(loga(_TV(rel), Z3)[0])
    w = vscale(A, n)
    lam = HALF * (const(2) * s - A * (ONE + c)) / (A * A * s)
    h = L.rewrite(h, *zip(lg, untwist(w, p, lam) + w))
    h = regular_exp(L, h, w, A, c, s)
    L.eq("mean(a, b, 1)", h, b)
