"""C31: inertias of rigid bodies (header-only Eigen code, instantiated in inst/urdfeigen.cpp)"""
from common import *
import ir

P = ("C31",)
I_ = "AL::Inst::"
H = dict(harness="inertia.cpp")
Z = const(0)


def arr(L, name, n, vals=None):
    """memory for n doubles -> (address, values)"""
    p = L.st.alloc(8 * n, name)
    vs = vals or [L.var("%s%d" % (name, i)) for i in range(n)]
    for i, v in enumerate(vs):
        L.put(L.ex.padd(p, 8 * i), v, ir.DOUBLE)
    return p, vs


def out(L, name, n):
    p = L.st.alloc(8 * n, name)
    for i in range(n):
        L.put(L.ex.padd(p, 8 * i), tm.fresh("junk", "R"), ir.DOUBLE)
    return p


def read(L, p, n):
    return [tm.lift(L.get(L.ex.padd(p, 8 * i), ir.DOUBLE)) for i in range(n)]


def mat(v):
    """column by column -> rows"""
    return [[v[3 * j + i] for j in range(3)] for i in range(3)]


def flat(m):
    return [m[i][j] for j in range(3) for i in range(3)]


def point(m, p):
    """inertia at the origin of a point mass at p"""
    q = dot(p, p)
    return [[m * ((q if i == j else Z) - p[i] * p[j]) for j in range(3)] for i in range(3)]


def add(*ms):
    return [[sum_([m[i][j] for m in ms]) for j in range(3)] for i in range(3)]


def same(L, name, got, want):
    for k, (a, b) in enumerate(zip(got, want)):
        L.holds("%s [%d]" % (name, k), eq(a, b))


@lemma("a point mass adds m (|p|^2 1 - p p^T)", P, **H)
def _(L):
    m = L.var("m")
    p, pv = arr(L, "p", 3)
    o, ov = arr(L, "i", 9)
    L.call(I_ + "addPointMassInertia(double, double const*, double*)", m, p, o)
    same(L, "inertia", read(L, o, 9), flat(add(mat(ov), point(m, pv))))
    same(L, "position", read(L, p, 3), pv)


SQ = I_ + "squashInertial(double, double const*, double const*, double, double const*, double const*, double*, double*, double*)"


@lemma("two bodies together have the mass, centre of mass and inertia of the compound", P, **H)
def _(L):
    ma, mb = L.var("ma"), L.var("mb")
    L.assume(ne(ma + mb, Z))
    pa, a = arr(L, "pa", 12)
    ia, Ia = arr(L, "ia", 9)
    pb, b = arr(L, "pb", 12)
    ib, Ib = arr(L, "ib", 9)
    pm, pc, ic = out(L, "mc", 1), out(L, "pc", 12), out(L, "ic", 9)
    L.call(SQ, ma, pa, ia, mb, pb, ib, pm, pc, ic)
    c = read(L, pc, 12)
    same(L, "mass", read(L, pm, 1), [ma + mb])
    com = [(ma * a[9 + k] + mb * b[9 + k]) / (ma + mb) for k in range(3)]
    same(L, "centre of mass", c[9:], com)
    same(L, "basis of the first body", c[:9], a[:9])
    Ra, Rb = mat(a), mat(b)
    Rcb = mm(tr(Ra), Rb)
    at = lambda p: mv(tr(Ra), vsub(com, p[9:]))
    same(L, "inertia", read(L, ic, 9),
         flat(add(mat(Ia), point(ma, at(a)), mm(mm(Rcb, mat(Ib)), tr(Rcb)), point(mb, at(b)))))
    for p, v, n in ((pa, a, 12), (ia, Ia, 9), (pb, b, 12), (ib, Ib, 9)):
        same(L, "kept", read(L, p, n), v)


def inertial(L):
    """a document: mass, the six moments, the origin (xyz, rpy)"""
    p, v = arr(L, "doc", 13)
    i = v[1:7]
    return p, v[0], [[i[0], i[1], i[2]], [i[1], i[3], i[4]], [i[2], i[4], i[5]]], v[7:10], v[10:13]


@lemma("the tensor of an inertial element is symmetric, moments and products at their places", P, **H)
def _(L):
    p, m, i, xyz, a = inertial(L)
    o = out(L, "i", 9)
    L.call(I_ + "toEigenMatrix3(AL::urdf::Inertial const*, double*)", p, o)
    same(L, "tensor", read(L, o, 9), flat(i))


@lemma("an inertial element read in its link frame: mass, centre and rotated tensor", P, **H)
def _(L):
    p, m, i, xyz, a = inertial(L)
    pm, pc, o = out(L, "m", 1), out(L, "c", 3), out(L, "i", 9)
    L.call(I_ + "urdfInertialToEigen(AL::urdf::Inertial const*, double*, double*, double*)", p, pm, pc, o)
    same(L, "mass", read(L, pm, 1), [m])
    same(L, "centre of mass", read(L, pc, 3), xyz)
    R = rpy(*a)
    same(L, "tensor", read(L, o, 9), flat(mm(mm(R, i), tr(R))))
