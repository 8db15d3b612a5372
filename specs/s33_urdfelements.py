"""C33: elements of URDF documents (almath/scenegraph/urdf.h, src/scenegraph/urdf.cpp)"""
from common import *
import ir
import symex
from lemmas import Thrown
from ptreemodel import NESTED, BAD_PATH, PT, STR, TREE, element, document, text, cell, setcell, load3, slot, below
from s31_inertia import I_, arr, out, read, flat
from s32_urdfpose import angles_of, denotes

P = ("C33",)


def flag(v):
    v = tm.lift(v)
    return v if v.sort == "B" else not_(eq(v, const(0, "I")))


T = "boost::property_tree::basic_ptree<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, " \
    "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, " \
    "std::less<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>"
S_ = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
X = "<xmlattr>."
RUNTIME = "_ZTISt13runtime_error"
H = dict(harness="urdfelements.cpp", split_select=True, execute=r"^AL::urdf::Inertial::", contracts=NESTED)


def call(L, fn, *args):
    try:
        return L.call((fn if fn.startswith("AL::") else I_ + fn), *args, throws=True), None
    except Thrown as e:
        return None, str(e)


def present(L, name):
    return L.cases(eq(L.var("present_" + name), const(0))) == 0


def vec(L, name):
    return tuple(L.var(name + c) for c in "xyz")


def number(what, fn, path, default=None):
    @lemma("reading the " + what, P, **H)
    def _(L):
        v = L.var("v")
        *up, a = path
        here = present(L, what)
        doc = {a: v, X + "other": L.var("other")} if here else {X + "other": L.var("other")}
        if not here and up and present(L, "element"):
            doc = {}
            up = []
        for n in reversed(up):
            doc = {n: doc, "another": {a: L.var("another")}}
        r, e = call(L, "%s(%s const*)" % (fn, T), element(L, doc))
        if here or default is not None:
            L.holds("returned", FALSE if e else eq(r, v if here else const(default)))
        else:
            L.holds("absent: throws", TRUE if e == BAD_PATH else FALSE)


number("multiplier of a mimic", "mimicMultiplier", [X + "multiplier"], 1)
number("offset of a mimic", "mimicOffset", [X + "offset"], 0)
number("radius of a cylinder", "cylinderRadius", [X + "radius"])
number("length of a cylinder", "cylinderLength", [X + "length"])
number("radius of a sphere", "sphereRadius", [X + "radius"])


def triple(what, fn, path, default=None):
    @lemma("reading the " + what, P, **H)
    def _(L):
        v = vec(L, "v")
        *up, a = path
        here = present(L, what)
        doc = {a: v} if here else {}
        for n in reversed(up):
            doc = {n: doc}
        o = out(L, "o", 3)
        r, e = call(L, "%s(%s const*, double*)" % (fn, T), element(L, doc), o)
        if here or default is not None:
            L.holds("does not throw", FALSE if e else TRUE)
            if not e:
                for i, (g, w) in enumerate(zip(read(L, o, 3), v if here else map(const, default))):
                    L.holds("returned %d" % i, eq(g, w))
        else:
            L.holds("absent: throws", TRUE if e == BAD_PATH else FALSE)


triple("axis of a joint", "jointAxis", ["axis", X + "xyz"], (1, 0, 0))
triple("scale of a mesh", "meshScale", [X + "scale"], (1, 1, 1))
triple("size of a box", "boxSize", [X + "size"])


def origin(what, fn):
    @lemma("reading the origin of " + what, P, **H)
    def _(L):
        xyz, rpy_ = vec(L, "t"), vec(L, "a")
        doc, want = {}, [const(0)] * 6
        if present(L, "origin"):
            doc["origin"] = {}
            if present(L, "xyz"):
                doc["origin"][X + "xyz"] = xyz
                want[:3] = xyz
            if present(L, "rpy"):
                doc["origin"][X + "rpy"] = rpy_
                want[3:] = rpy_
        o = out(L, "o", 6)
        r, e = call(L, "%s(%s const*, double*)" % (fn, T), element(L, doc), o)
        L.holds("does not throw", FALSE if e else TRUE)
        for i, (g, w) in enumerate(zip(read(L, o, 6), want)):
            L.holds("returned %d" % i, eq(g, w))


origin("a joint", "jointOrigin")
origin("a visual", "visualOrigin")
origin("an inertial", "inertialOrigin")


def inertial(L, name, org=None):
    n = [L.var(name + k) for k in INERTIA]
    d = {"mass": {X + "value": n[0]}, "inertia": {X + k: v for k, v in zip(INERTIA[1:], n[1:])}}
    if org is not None:
        d["origin"] = org
    return d, n


INERTIA = ("mass", "ixx", "ixy", "ixz", "iyy", "iyz", "izz")


@lemma("reading the mass and inertia of an inertial", P, **H)
def _(L):
    d, n = inertial(L, "i")
    o = out(L, "o", 7)
    r, e = call(L, "inertial(%s const*, double*)" % T, element(L, d), o)
    L.holds("does not throw", FALSE if e else TRUE)
    for k, g, w in zip(INERTIA, read(L, o, 7), n):
        L.holds(k, eq(g, w))


@lemma("a link has the inertial of the document, or none", P, **H)
def _(L):
    d, n = inertial(L, "i")
    here = present(L, "inertial")
    o = out(L, "o", 1)
    r, e = call(L, "linkMass(%s const*, double*)" % T, element(L, {"inertial": d} if here else {}), o)
    L.holds("reported", FALSE if e else flag(r) if here else not_(flag(r)))
    if here:
        L.holds("its mass", eq(read(L, o, 1)[0], n[0]))


@lemma("the limits of a joint: a missing one is null, none when both are missing", P, **H)
def _(L):
    lo, hi = L.var("lower"), L.var("upper")
    doc, want = {X + "effort": L.var("effort")}, [const(0), const(0)]
    if present(L, "lower"):
        doc[X + "lower"] = want[0] = lo
    if present(L, "upper"):
        doc[X + "upper"] = want[1] = hi
    some = len(doc) > 1
    o = out(L, "o", 2)
    r, e = call(L, "jointLimits(%s const*, double*)" % T, element(L, {"limit": doc}), o)
    L.holds("reported", FALSE if e else flag(r) if some else not_(flag(r)))
    if some:
        for i, (g, w) in enumerate(zip(read(L, o, 2), want)):
            L.holds("limit %d" % i, eq(g, w))


for what, fn in (("effort", "jointEffort"), ("velocity", "jointVelocity")):
    @lemma("the limit of %s of a joint" % what, P, **H)
    def _(L, what=what, fn=fn):
        v = L.var("v")
        doc = {X + n: L.var(n) for n in ("effort", "velocity", "lower", "upper") if n != what}
        here = present(L, what)
        if here:
            doc[X + what] = v
        o = out(L, "o", 1)
        r, e = call(L, "%s(%s const*, double*)" % (fn, T), element(L, {"limit": doc}), o)
        L.holds("reported", FALSE if e else flag(r) if here else not_(flag(r)))
        if here:
            L.holds("its value", eq(read(L, o, 1)[0], v))


@lemma("the mimic of a joint", P, **H)
def _(L):
    m, b = L.var("m"), L.var("b")
    here = present(L, "mimic")
    o = out(L, "o", 2)
    r, e = call(L, "jointMimic(%s const*, double*)" % T,
                element(L, {"mimic": {X + "multiplier": m, X + "offset": b}} if here else {}), o)
    L.holds("reported", FALSE if e else flag(r) if here else not_(flag(r)))
    if here:
        for g, w, k in zip(read(L, o, 2), (m, b), ("multiplier", "offset")):
            L.holds(k, eq(g, w))


KINDS = ("revolute", "continuous", "prismatic", "fixed", "floating", "planar")


@lemma("the type of a joint is the one its document names", P, **H)
def _(L):
    v = L.ivar("type")
    r, e = call(L, "jointType(%s const*)" % T, element(L, {X + "type": v}))
    known = or_(*[eq(v, text(k)) for k in KINDS])
    if e is None:
        L.holds("returned: a known type", known)
        for a in KINDS:
            for i, b in enumerate(KINDS):
                if a == b:
                    L.holds("returned: %s" % a, implies(eq(v, text(a)), eq(r if isinstance(r, tm.T) else const(r, "I"), const(i, "I"))))
    else:
        L.holds("rejected: not a known type", not_(known))
        L.holds("rejected: std::runtime_error", TRUE if e == RUNTIME else FALSE)


# ------------------------------------------------------------------ edits of a document
def robot_joint(ex, st, a):
    """assumed: RobotTree::joint(name) is the element of the joint of that name"""
    v = cell(st, a[1], 0)
    if v is None or tm.lift(v) != cell(st, a[0], 16):
        raise symex.Unsupported("a joint which has another name")
    return ex.ret(st, cell(st, a[0], 0))


def robot_link(ex, st, a):
    """assumed: RobotTree::link(name) is the element of the link of that name"""
    v = cell(st, a[1], 0)
    for i in range(2):
        if v is not None and tm.lift(v) == cell(st, a[0], 48 + 16 * i):
            return ex.ret(st, cell(st, a[0], 32 + 16 * i + 64))
    raise symex.Unsupported("a link which has another name")


def squashed(ex, st, args):
    """contract of squashInertial (C31): the mass, pose and inertia of the compound, as functions of those of the parts"""
    ma, pa, ia, mb, pb, ib, mc, pc, ic = args

    def ld(p, n):
        return [tm.lift(ex.load(st, ex.padd(p, 8 * i), ir.DOUBLE, ex.mod)) for i in range(n)]
    A, pose = ld(pa, 12), ld(pb, 12)
    m = tm.fresh("mass", "R")
    t = [tm.fresh("centre", "R") for _ in range(3)]
    I = [tm.fresh("inertia", "R") for _ in range(6)]
    for p, v in ((mc, [m]), (pc, A[:9] + t), (ic, [I[k] for k in (0, 1, 2, 1, 3, 4, 2, 4, 5)])):
        for i, x in enumerate(v):
            ex.store(st, ex.padd(p, 8 * i), x, ir.DOUBLE, ex.mod)
    record(st, ([tm.lift(ma)] + A + ld(ia, 9) + [tm.lift(mb)] + pose + ld(ib, 9), m, t, I))
    return ex.ret(st, None)


def transform(ex, st, args):
    """contract of toEigenTransform(Pose), which C32 proves: the rotation Rz Ry Rx, then the translation"""
    ret, p = args
    v = [tm.lift(ex.load(st, ex.padd(p, 8 * i), ir.DOUBLE, ex.mod)) for i in range(6)]
    R, z = rpy(*v[3:]), const(0)
    for i, x in enumerate([c for j in range(3) for c in (R[0][j], R[1][j], R[2][j], z)] + v[:3] + [const(1)]):
        ex.store(st, ex.padd(ret, 8 * i), x, ir.DOUBLE, ex.mod)
    return ex.ret(st, None)


LEDGER = []


def ledger(L):
    """where the handlers write down what they were asked"""
    LEDGER[:] = [L.st.alloc(64, "ledger")]


def record(st, what):
    k = 0
    while cell(st, LEDGER[0], k) is not None:
        k += 8
    setcell(st, LEDGER[0], k, ("asked", what))


def asked(L):
    r, k = [], 0
    while cell(L.st, LEDGER[0], k) is not None:
        r.append(cell(L.st, LEDGER[0], k)[1])
        k += 8
    return r


def angles(ex, st, args):
    v = cell(st, args[1], 0)
    return angles_of(ex, st, [args[0], v] if isinstance(v, symex.Ptr) else args)      # an Eigen::Block is the address of its entries


E = dict(H, drop_asserts=True, contracts=NESTED + (
    (r"^AL::urdf::RobotTree::joint\(", robot_joint),
    (r"^AL::urdf::RobotTree::link\(", robot_link),
    (r"^.*AL::Math::squashInertial<", squashed),
    (r"^AL::Math::toEigenTransform\(AL::urdf::Pose const&\)", transform),
    (r"^.*AL::Math::urdfRpyFromEigenMatrix3<", angles)))


def robot(L, joint, parent=None, kid=None):
    """a robot with this joint, between these links -> (robot, name of the joint)"""
    st, r = L.st, L.st.alloc(256, "robot")
    n = text("the joint")
    setcell(st, r, 0, joint), setcell(st, r, 16, n)
    for i, (p, s) in enumerate(((parent, "the parent"), (kid, "the child"))):
        setcell(st, r, 48 + 16 * i, text(s))
        setcell(st, r, 96 + 16 * i, p if p is not None else symex.NULL)
    name = st.alloc(32, "name")
    setcell(st, name, 0, n, 32)
    return r, name


for kind, fn in (("fixed", "fixed"), ("floating", "floating")):
    @lemma("making a joint %s sets its type and removes its axis, nothing else" % kind, P, **E)
    def _(L, kind=kind, fn=fn):
        doc = {X + "type": L.ivar("old"), X + "name": text("the joint"), "origin": {X + "xyz": vec(L, "t")},
               "limit": {X + "lower": L.var("l")}}
        full = dict(doc)
        if present(L, "axis"):
            full["axis"] = {X + "xyz": vec(L, "axis")}
        j = element(L, full)
        r, n = robot(L, j)
        r, e = call(L, "%s(AL::urdf::RobotTree*, %s const*)" % (fn, S_), r, n)
        L.holds("does not throw", FALSE if e else TRUE)
        document(L, j, dict(doc, **{X + "type": text(kind)}))


def squash_joint(L, origin, parent, kid):
    j = element(L, dict(origin, **{X + "type": text("fixed"), X + "name": text("the joint"), "parent": {X + "link": text("the parent")},
                                   "child": {X + "link": text("the child")}}))
    r, n = robot(L, j, parent, kid)
    r, e = call(L, "squash(AL::urdf::RobotTree*, %s const*)" % S_, r, n)
    L.holds("does not throw", FALSE if e else TRUE)


def pose_doc(L, name):
    t, a = vec(L, name + "t"), vec(L, name + "a")
    return {X + "xyz": t, X + "rpy": a}, t, a


def origin_is(L, doc, t, R):
    """the element of an inertial denotes the translation t and the rotation R"""
    o = cell(L.st, doc, slot("origin"))
    got_t, got_a = (const(0),) * 3, (const(0),) * 3
    if o is not None:
        got_t = cell(L.st, o, slot(X + "xyz")) or got_t
        got_a = cell(L.st, o, slot(X + "rpy")) or got_a
    for i in range(3):
        L.holds("origin: xyz[%d]" % i, eq(tm.lift(got_t[i]), tm.lift(t[i])))
    if got_a == (const(0),) * 3:
        for i in range(3):
            for k in range(3):
                L.holds("origin: not turned [%d][%d]" % (i, k), eq(R[i][k], const(1 if i == k else 0)))
    else:
        denotes(L, "origin: rpy", list(got_a), R)


@lemma("squashing a massless child changes no link", P, **E)
def _(L):
    d, n = inertial(L, "p")
    pd = {X + "name": text("the parent"), "inertial": d}
    kd = {X + "name": text("the child")}
    p, k = element(L, pd), element(L, kd)
    squash_joint(L, {"origin": pose_doc(L, "j")[0]}, p, k)
    document(L, p, pd)
    document(L, k, kd)


@lemma("squashing into a massless parent moves the inertial of the child, where it was", P, **E)
def _(L):
    jo, jt, ja = pose_doc(L, "j")
    ko, kt, ka = pose_doc(L, "k")
    joint, kid = {}, None
    A = B = [[const(1 if i == k else 0) for k in range(3)] for i in range(3)]
    t, u = [const(0)] * 3, [const(0)] * 3
    if present(L, "joint_origin"):
        joint["origin"] = jo
        A, t = rpy(*ja), jt
    if present(L, "child_origin"):
        kid = ko
        B, u = rpy(*ka), kt
    d, n = inertial(L, "k", kid)
    p, k = element(L, {X + "name": text("the parent")}), element(L, {X + "name": text("the child"), "inertial": d})
    squash_joint(L, joint, p, k)
    document(L, k, {X + "name": text("the child")})
    i = cell(L.st, p, slot("inertial"))
    L.holds("the parent has an inertial", FALSE if i is None else TRUE)
    if i is None:
        return
    origin_is(L, i, vadd(t, mv(A, u)), mm(A, B))
    L.st.wblock(i.blk).cells.pop(i.off + slot("origin"), None)
    document(L, p, {X + "name": text("the parent"), "inertial": inertial(L, "k")[0]})


@lemma("squashing into a parent with a mass: the compound of both inertials", P, **E)
def _(L):
    jo, jt, ja = pose_doc(L, "j")
    ko, kt, ka = pose_doc(L, "k")
    po, pt, pa = pose_doc(L, "p")
    d, n = inertial(L, "k", ko)
    f, m = inertial(L, "p", po)
    p, k = element(L, {X + "name": text("the parent"), "inertial": f}), element(L, {X + "name": text("the child"), "inertial": d})
    ledger(L)
    squash_joint(L, {"origin": jo}, p, k)
    calls = asked(L)
    L.holds("squashInertial is used once", TRUE if len(calls) == 1 else FALSE)
    if len(calls) != 1:
        return
    A, B, C = rpy(*ja), rpy(*ka), rpy(*pa)

    def sym(n):
        return [n[1], n[2], n[3], n[2], n[4], n[5], n[3], n[5], n[6]]
    args, mass, centre, I = calls[0]
    want = [m[0]] + flat(C) + list(pt) + sym(m) + [n[0]] + flat(mm(A, B)) + list(vadd(jt, mv(A, kt))) + sym(n)
    for i, (g, w) in enumerate(zip(args, want)):
        L.holds("part %d" % i, eq(g, tm.lift(w)))
    document(L, k, {X + "name": text("the child")})
    i = cell(L.st, p, slot("inertial"))
    L.holds("the parent has an inertial", FALSE if i is None else TRUE)
    if i is None:
        return
    origin_is(L, i, centre, C)
    L.st.wblock(i.blk).cells.pop(i.off + slot("origin"), None)
    document(L, p, {X + "name": text("the parent"), "inertial": {
        "mass": {X + "value": mass}, "inertia": {X + k: v for k, v in zip(INERTIA[1:], I)}}})


@lemma("the element of a pose has the parts which are not null", P, **E)
def _(L):
    x, v = arr(L, "x", 6)
    t = element(L, {"old": L.var("old")})
    r, e = call(L, "poseTree(double const*, %s*)" % T, x, t)
    L.holds("does not throw", FALSE if e else TRUE)
    null = [and_(*[eq(c, const(0)) for c in h]) for h in (v[:3], v[3:])]
    if e is None:
        some = flag(r)
        L.holds("none for the null pose", iff(some, not_(and_(*null))))
        if below(L.st, t).get("old") is None:
            for n, h, z in ((X + "xyz", tuple(v[:3]), null[0]), (X + "rpy", tuple(v[3:]), null[1])):
                g = cell(L.st, t, slot(n))
                L.holds(n + " is left out when it is null", z if g is None else not_(z))
                for i in range(3 if g else 0):
                    L.holds("%s[%d]" % (n, i), eq(g[i], h[i]))


D = "AL::urdf::detail::"
PAIR = []


def inverse(ex, st, a):
    """the two poses are given as inverses of each other"""
    for i, v in enumerate(PAIR[0]):
        setcell(st, a[0], 8 * i, v)
    return ex.ret(st, None)


def product(ex, st, a):
    """contract of the product of poses (C32): six numbers, functions of the factors"""
    v = [load3(st, a[k]) + load3(st, symex.Ptr(a[k].blk, a[k].off + 24)) for k in (1, 2)]
    r = PAIR[1]
    record(st, v[0] + v[1])
    for i in range(6):
        setcell(st, a[0], 8 * i, r[i])
    return ex.ret(st, None)


M = dict(E, contracts=((r"^AL::urdf::Pose::inverse\(\) const", inverse),
                       (r"^AL::urdf::operator\*\(AL::urdf::Pose const&, AL::urdf::Pose const&\)", product)) + NESTED)


@lemma("moving the frame of an element premultiplies its origin", P, **M)
def _(L):
    p, lhs = arr(L, "lhs", 6)
    q, ilhs = arr(L, "ilhs", 6)
    new = [L.var("new%d" % i) for i in range(6)]
    L.assume(not_(and_(*[eq(v, const(0)) for v in new])))
    PAIR[:] = [ilhs, new]
    ledger(L)
    keep = present(L, "keep")
    rest = {X + "name": text("it"), "axis": {X + "xyz": vec(L, "axis")}}
    old = [const(0)] * 6
    if present(L, "origin"):
        o, old[:3], old[3:] = pose_doc(L, "o")
        t = element(L, dict(rest, origin=o))
    else:
        t = element(L, rest)
    r, e = call(L, D + "instMove(AL::urdf::Pose const*, AL::urdf::Pose const*, %s*, bool)" % T, p, q, t, keep)
    L.holds("does not throw", FALSE if e else TRUE)
    same = and_(*[eq(a, b) for a, b in zip(old, ilhs)])
    o = cell(L.st, t, slot("origin"))
    got = [const(0)] * 6
    if o is not None:
        got[:3] = cell(L.st, o, slot(X + "xyz")) or got[:3]
        got[3:] = cell(L.st, o, slot(X + "rpy")) or got[3:]
        L.holds("nothing else in the origin", TRUE if set(below(L.st, o)) <= {X + "xyz", X + "rpy"} else FALSE)
    elif keep:
        L.holds("the element is kept", FALSE)
    for i in range(6):
        L.holds("origin %d" % i, eq(tm.lift(got[i]), ite(same, const(0), new[i])))
    for factors in asked(L):
        for i, (g, w) in enumerate(zip(factors, lhs + old)):
            L.holds("factor %d" % i, eq(tm.lift(g), tm.lift(w)))
    L.st.wblock(t.blk).cells.pop(slot("origin"), None)
    document(L, t, rest)


for k, kind in enumerate(KINDS):
    @lemma("flipping the axis of a %s joint" % kind, P, **E)
    def _(L, kind=kind):
        old = (const(1), const(0), const(0))
        rest = {X + "type": text(kind), X + "name": text("the joint"), "origin": {X + "xyz": vec(L, "t")}}
        doc = dict(rest)
        if present(L, "axis"):
            old = vec(L, "axis")
            doc["axis"] = {X + "xyz": old}
        t = element(L, doc)
        r, e = call(L, D + "instFlip(%s*)" % T, t)
        L.holds("does not throw", FALSE if e else TRUE)
        o = cell(L.st, t, slot("axis"))
        got = (const(1), const(0), const(0))
        if o is not None:
            got = cell(L.st, o, slot(X + "xyz")) or got
            L.holds("nothing else in the axis", TRUE if set(below(L.st, o)) <= {X + "xyz"} else FALSE)
        s = const(1 if kind in ("fixed", "floating") else -1)
        for i in range(3):
            L.holds("axis %d" % i, eq(tm.lift(got[i]), s * old[i]))
        L.st.wblock(t.blk).cells.pop(slot("axis"), None)
        document(L, t, rest)
