"""C15: collision of the feet.  Boxes are vectors of any length of any points."""
from common import *
from s17_segments import inter, x2

P = ("C15",)
VB = "std::vector<Position2D, std::allocator<Position2D>>"
HIT = "areTwoBoxesInCollision(%s const&, %s const&)" % (VB, VB)
BOX = "computeBox(%s const&, Pose2D const&, %s&)" % (VB, VB)
DIC = "dichotomie(%s const&, %s const&, Pose2D&)" % (VB, VB)
AVOID = "avoidFootCollision(%s const&, %s const&, bool const&, Pose2D&)" % (VB, VB)
ZI, ONE = const(0, "I"), const(1, "I")


def nxt(i, n):
    j = tm.add(i, ONE)
    return ite(lt(j, tm.lift(n, "I")), j, tm.sub(j, tm.lift(n, "I")))


def inside(n, at, p):
    """p strictly on the right of every edge"""
    def edge(i):
        a, b = at(i), at(nxt(i, n))
        return lt(x2(vsub(b, a), vsub(p, a)), const(0))
    return All(n, edge)


def collide(na, a, nb, b):
    """a, b: corner index -> [x, y]"""
    cross = Any(na, lambda i: Any(nb, lambda j: inter(a(i), a(nxt(i, na)), b(j), b(nxt(j, nb)))[0]))
    pos = lambda n: lt(ZI, tm.lift(n, "I"))
    return or_(cross, and_(pos(na), inside(nb, b, a(ZI))), and_(pos(nb), inside(na, a, b(ZI))))


def corners(v):
    return lambda i: v.at(i).all()


def moved(v, x, y, theta):
    cs, sn = cos(theta), sin(theta)

    def at(i):
        p = v.at(i)
        return [x + cs * p.x - sn * p.y, y + sn * p.x + cs * p.y]
    return at


def feet(rng, env, names):
    """rectangles (clockwise), triangles and lines of corners on a small grid; moves in quarters"""
    k = rng.random()
    if k < 0.2:
        return
    for s in sorted(set(n[:-5] for n in names if n.endswith(".size"))):
        x, y = rng.choice([0, 0, 1, -1, 2, 0.5]), rng.choice([0, 0, 1, -1, 2, 0.5])
        w, h = rng.choice([1, 2, 4]), rng.choice([1, 2, 0.5])
        pts = [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]
        if rng.random() < 0.3:
            pts = pts[:rng.randrange(4)]
        if rng.random() < 0.1:
            pts.append((x + w / 2, y - 1))
        r = rng.randrange(4)
        pts = pts[r:] + pts[:r]
        env[names[s + ".size"]] = len(pts)
        env[("seq", s + ".x")] = [float(p[0]) for p in pts]
        env[("seq", s + ".y")] = [float(p[1]) for p in pts]
    for n, v in names.items():
        if n.endswith("theta"):
            env[v] = tm.f32(rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, rng.uniform(-3, 3)]))
        elif n.endswith((".x", ".y")) and v.sort == "R":
            env[v] = float(rng.choice([0, 0.25, 0.5, 1, -1, -0.5, -2, 2, 3]))


@spec(HIT, P, sampler=feet)
def _(c, a, b):
    c.ret(collide(a.n, corners(a), b.n, corners(b)))


@spec(BOX, P, sampler=feet)
def _(c, box, pose, out):
    c.put_pvec(out, box.n, moved(box, pose.x, pose.y, pose.theta))


def touches(fixed, box, x, y, theta):
    return collide(fixed.n, corners(fixed), box.n, moved(box, x, y, theta))


def reduced(c, fixed, box, pose, when=TRUE):
    """the orientation found by five halvings between 0 and the requested one"""
    x, y, t0 = pose.x, pose.y, pose.theta
    hit = lambda t: touches(fixed, box, x, y, t)
    step = t0 / const(32)
    c.set(pose, theta=Havoc())
    c.ensures("the orientation is free of collision, or null",
              lambda r, post: implies(when, or_(eq(post(pose).theta, const(0)), not_(hit(post(pose).theta)))))
    c.ensures("one more step of the search would collide, or is the requested orientation",
              lambda r, post: implies(when, or_(eq(post(pose).theta + step, t0), hit(post(pose).theta + step))))
    c.ensures("the orientation lies between 0 and the requested one",
              lambda r, post: implies(when, and_(le(const(0), post(pose).theta * t0), le(post(pose).theta * t0, t0 * t0))))


@spec(DIC, P, sampler=feet)
def _(c, fixed, box, pose):
    reduced(c, fixed, box, pose)


@spec(AVOID, P, sampler=feet)
def _(c, left, right, onleft, pose):
    hl = touches(left, right, pose.x, pose.y, pose.theta)
    hr = touches(right, left, pose.x, pose.y, pose.theta)
    c.ret(ite(onleft, hl, hr))
    reduced(c, left, right, pose, and_(onleft, hl))
    reduced(c, right, left, pose, and_(not_(onleft), hr))
    t0 = pose.theta
    c.ensures("a move without collision is kept",
              lambda r, post: implies(not_(ite(onleft, hl, hr)), eq(post(pose).theta, t0)))
