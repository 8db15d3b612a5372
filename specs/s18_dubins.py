"""C18: Dubins curves."""
from common import *
import math
import random
import numeric
import symex
from lemmas import Thrown

P = ("C18",)
ZERO = const(0)
SIDES = [(1, 1), (1, -1), (-1, 1), (-1, -1)]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def sample(rng):
    R = rng.uniform(0.1, 2)
    d, a = rng.uniform(4.2 * R, 12 * R), rng.uniform(-3.2, 3.2)
    return {var("radius"): R, var("x"): d * math.cos(a), var("y"): d * math.sin(a), var("theta"): rng.uniform(-4, 4)}


@lemma("the checkpoints of a Dubins curve", P, execute=r".*std::vector<", harness="dubins.cpp")
def _(L):
    R, x, y, th = L.var("radius"), L.var("x"), L.var("y"), L.var("theta")
    L.assume(lt(ZERO, R))
    L.assume(le(R * 4, sqrt(x * x + y * y)))
    L.assume(le(sqrt(x * x + y * y), const(10 ** 14)))
    # centres of the turns: s = 1 on the left, -1 on the right
    start = lambda s: [ZERO, R * s]
    target = lambda s: [x - sin(th) * R * s, y + cos(th) * R * s]
    n, m, q, r = [var("g." + v) for v in "nmqr"]
    far = {}
    for s, t in SIDES:
        w = [-sin(th) * t, cos(th) * t - s]
        d = vsub(target(t), start(s))
        d2 = dot(d, d)
        m2 = 2 - 2 * s * t * cos(th)
        sub = {n: sqrt(x * x + y * y), m: sqrt(m2), q: dot([x, y], w), r: R}
        L.by("Cauchy-Schwarz (%d, %d)" % (s, t), sub, [le(q * q, n * n * m * m), le(ZERO, m), le(m, const(2)), lt(ZERO, r),
             le(4 * r, n), le(n, const(10 ** 14))], and_(le(4 * r * r, n * n + 2 * r * q + r * r * m * m),
                                                        le(n * n + 2 * r * q + r * r * m * m, const(10 ** 29))))
        L.have("distance of the centres (%d, %d)" % (s, t), and_(le(4 * R * R, d2), le(d2, const(10 ** 29))))
        far[s, t] = le(d2, const(10 ** 29))
    pose = L.obj("Pose2D", [x, y, th], "target")
    base = list(L.st.pc)
    out = L.call("getDubinsSolutions(Pose2D const&, float)", pose, R)
    path = L.st.pc[len(base):]
    # what the code takes the square root of is not negative
    for h in path:
        for d in L.conditions(h):
            for rt in sorted(tm.atoms(d, lambda a: a.op == "sqrt"), key=lambda a: a.id):
                e = rt.args[0]
                L.by("root", {r: R, n: e}, [le(4 * r * r, n), lt(ZERO, r)], le(2 * r, sqrt(n)), base)
                L.by("ratio", {r: R, n: rt}, [le(2 * r, n), lt(ZERO, r)], le(ZERO, 1 - (r * 2 / n) * (r * 2 / n)), base)
            L.have_by("defined: %s" % tm.show(d)[:80], d, base)
    n = symex.vec_len(L.ex, L.st, out, 12)
    L.holds("three checkpoints", eq(tm.lift(n, "I"), const(3, "I")))
    b, _ = symex.vec_fields(L.ex, L.st, out)
    A, B, C = [[L.get(L.ex.padd(b, 12 * i + 4 * j)) for j in range(3)] for i in range(3)]
    L.eq("the last checkpoint is the target", C, [x, y, th])

    def length2(s, t):
        d = vsub(target(t), start(s))
        return dot(d, d) - (ZERO if s == t else 4 * R * R)

    def match(options):
        """the option whose equations hold at a sample point"""
        num = numeric.Num(sample(random.Random(1)))
        for k, o in enumerate(options):
            if all(abs(num.val(p) - num.val(q)) < 1e-6 for p, q in o):
                return k

    def eqs(s, t):
        a, b, ab = vsub(A, start(s)), vsub(B, target(t)), vsub(B, A)
        return [(dot(a, a), R * R), (dot(b, b), R * R), (dot(a, ab), ZERO), (dot(b, ab), ZERO), (dot(ab, ab), length2(s, t))]
    # the lengths that the code compares
    ln = [var("g.length%d" % k) for k in range(4)]
    inst, back, known = {}, {}, []
    for h in path:
        for e in h.args[0].args if h.op == "not" else h.args:
            if e.sort == "R" and not tm.isc(e) and e not in back:
                k = match([[(e, length2(*st))] for st in SIDES])
                if k is not None and ln[k] not in inst:
                    inst[ln[k]], back[e] = e, ln[k]
                    L.have_by("length of the tangent %s" % (SIDES[k],), eq(e, length2(*SIDES[k])), base)
                    L.add("bound of the length", le(e, const(10 ** 29)), [eq(e, length2(*SIDES[k])), far[SIDES[k]]])
                    L.assume(le(e, const(10 ** 29)))
                    known.append(le(ln[k], const(10 ** 29)))
    known += [g for g in (tm.subst(h, back) for h in path) if all(v in ln for v in tm.variables(g))]
    L.excluded(inst, known)
    # the common tangent that was chosen
    k = match([eqs(s, t) for s, t in SIDES])
    k = k or 0
    s, t = SIDES[k]
    names = ["the first turn ends on its circle", "the last turn starts on its circle", "the segment is tangent to the first circle",
             "the segment is tangent to the last circle", "length of the segment"]
    for nm, (p, q) in zip(names, eqs(s, t)):
        L.holds(nm, eq(p, q), base)
    ab = vsub(B, A)
    L.holds("the segment leaves the first circle forwards", le(ZERO, cross(vsub(A, start(s)), ab) * s), base)
    L.holds("the segment reaches the last circle forwards", le(ZERO, cross(vsub(B, target(t)), ab) * t), base)
    for k2, st in enumerate(SIDES):
        if ln[k] in inst and ln[k2] in inst and k != k2:
            L.by("chosen length", inst, known, le(ln[k], ln[k2]))
            e, e2 = inst[ln[k]], inst[ln[k2]]
            pc = [le(e, e2), eq(e, length2(s, t)), eq(e2, length2(*st))]
            L.holds("no common tangent is shorter (%d, %d)" % st, le(length2(s, t), length2(*st)), pc)
        else:
            L.holds("no common tangent is shorter (%d, %d)" % st, le(length2(s, t), length2(*st)))
    for nm, p in (("first", A), ("second", B)):
        ln = sqrt(dot(ab, ab))
        L.holds("heading of the %s checkpoint: x" % nm, eq(cos(p[2]) * ln, ab[0]), base)
        L.holds("heading of the %s checkpoint: y" % nm, eq(sin(p[2]) * ln, ab[1]), base)


@lemma("nearer targets are refused", P, execute=r".*std::vector<", harness="dubins.cpp")
def _(L):
    R, x, y, th = L.var("radius"), L.var("x"), L.var("y"), L.var("theta")
    L.assume(lt(sqrt(x * x + y * y), R * 4))
    pose = L.obj("Pose2D", [x, y, th], "target")
    try:
        L.call("getDubinsSolutions(Pose2D const&, float)", pose, R, throws=True)
        L.holds("refused", FALSE)
    except Thrown:
        L.holds("refused", TRUE)
