"""C14: mean of angles."""
from common import *
from lemmas import Thrown

P = ("C14",)
Z = const(0)
EPS = F32(1e-3)


def sums(v, w):
    return Sum(v.n, lambda i: w(i) * cos(v.at(i))), Sum(v.n, lambda i: w(i) * sin(v.at(i)))


def lists(rng, env, names):
    """lists of the same length; positive weights, now and then a zero, over several orders of magnitude"""
    seqs = sorted(k[1] for k in env if isinstance(k, tuple) and k[0] == "seq")
    n = rng.choice([1, 1, 2, 3, 5, 8])
    for s in seqs:
        if "eight" in s or s.startswith("w"):
            k = 10.0 ** rng.randrange(-3, 5)
            env[("seq", s)] = [tm.f32(k * rng.random()) for _ in range(n)]
            if rng.random() < 0.3:
                env[("seq", s)][rng.randrange(n)] = rng.choice([0.0, 1.0, -k])
        else:
            env[("seq", s)] = [tm.f32(rng.uniform(-4, 4)) for _ in range(n)]
        if rng.random() < 0.95:
            env[names[s + ".size"]] = n
        else:
            env[("seq", s)], env[names[s + ".size"]] = [], 0


@spec("weightedMeanAngle(VF const&, VF const&)", P, sampler=lists)
def _(c, a, w):
    same = eq(tm.lift(a.n, "I"), tm.lift(w.n, "I"))
    sx, sy = sums(a, w.at)
    c.throws(or_(not_(same), Any(a.n, lambda i: le(w.at(i), Z)), lt(sqrt(sx * sx + sy * sy), EPS)), "std::runtime_error")
    c.ret(atan2(sy, sx))


@spec("meanAngle(VF const&)", P)
def _(c, a):
    sx, sy = sums(a, lambda i: const(1))
    c.throws(lt(sqrt(sx * sx + sy * sy), EPS), "std::runtime_error")
    c.ret(atan2(sy, sx))

W = "weightedMeanAngle(VF const&, VF const&)"
M = "meanAngle(VF const&)"


def mean(L, f, *a):
    try:
        return L.call(f, *a, throws=True)
    except Thrown:
        return None


@lemma("the mean lies in ]-pi, pi] and points along the weighted sum of the unit vectors", P)
def _(L):
    a, w = L.vec("a"), L.vec("w")
    r = mean(L, W, a, w)
    if r is None:
        return L.holds("refused only without a well defined mean", TRUE)
    sx, sy = sums(a, w.at)
    n = sqrt(sx * sx + sy * sy)
    L.holds("above -pi", lt(-PI, r))
    L.holds("at most pi", le(r, PI))
    L.eq("direction", [n * cos(r), n * sin(r)], [sx, sy])


@lemma("turning all angles turns the mean", P)
def _(L):
    a, w, d = L.vec("a"), L.vec("w"), L.var("delta")
    b = L.vecof(a.n, lambda i: a.at(i) + d)
    r, q = mean(L, W, a, w), mean(L, W, b, w)
    if r is None or q is None:
        return L.holds("both have a mean or none", TRUE if r is q else FALSE)
    L.eq("mean", [cos(q), sin(q)], [cos(r + d), sin(r + d)])


@lemma("equal weights give the plain mean", P)
def _(L):
    a = L.vec("a")
    w = L.vecof(a.n, lambda i: const(1))
    r, q = mean(L, W, a, w), mean(L, M, a)
    if r is None or q is None:
        return L.holds("both have a mean or none", TRUE if r is q else FALSE)
    L.eq("mean", [q], [r])


@lemma("the mean of equal angles is that angle", P)
def _(L):
    n, x = L.ivar("n"), L.var("x")
    L.assume(le(tm.const(1, "I"), n))
    a = L.vecof(n, lambda i: x)
    q = mean(L, M, a)
    if q is None:
        return L.holds("has a mean", FALSE)
    L.eq("mean", [cos(q), sin(q)], [cos(x), sin(x)])


@lemma("scaling all weights does not change the mean", P)
def _(L):
    a, w, s = L.vec("a"), L.vec("w"), L.var("s")
    L.assume(lt(Z, s))
    v = L.vecof(w.n, lambda i: s * w.at(i))
    r, q = mean(L, W, a, w), mean(L, W, a, v)
    if r is None or q is None:
        return L.holds("no other mean", TRUE)
    sx, sy = sums(a, w.at)
    L.hint(s * sqrt(sx * sx + sy * sy))
    L.eq("mean", [cos(q), sin(q)], [cos(r), sin(r)])
