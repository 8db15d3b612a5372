"""C22: orthonormal bases built on an axis, pills and shape parameters."""
from common import *

P = ("C22",)
COEF = F32(0.0001)
Z = const(0)


def unit(v):
    n = norm(v)
    return [x / n for x in v]


def base(c, axis, get):
    """ensures: orthonormal direct columns, the third one carried by the axis (which one of them is not specified)"""
    n = norm(axis)

    def ens(name, f):
        c.ensures(name, lambda res, post: f(*tr(get(res, post))))
    for i in range(3):
        ens("third axis along the given one [%d]" % i, lambda a, b, d, i=i: eq(d[i], axis[i] / n))
    ens("first axis unit", lambda a, b, d: eq(dot(a, a), const(1)))
    ens("first axis orthogonal to the third", lambda a, b, d: eq(dot(a, d), Z))
    for i in range(3):
        ens("second axis completes the direct base [%d]" % i, lambda a, b, d, i=i: eq(b[i], cross(d, a)[i]))


def free_cols(t):
    return T4([[Havoc() for _ in range(3)] for _ in range(3)], t)


def axes_sampler(rng, env, names):
    if rng.random() < 0.6:
        for v in names:
            if v.split(".")[-1] in "xyz" and rng.random() < 0.6:
                env[v] = float(rng.choice([0, 0, 1, -1, 1e-4, 1e-5, 2e-4]))


@spec("orthogonalSpace(Position3D const&, Transform&)", P, sampler=axes_sampler)
def _(c, a, t):
    v = a.all()
    c.throws(eq(norm(v), Z), "std::runtime_error")
    c.put(t, free_cols(pos(t)))
    base(c, v, lambda res, post: rows(post(t)))


@spec("orthogonalSpace(Position3D const&)", P, sampler=axes_sampler)
def _(c, a):
    v = a.all()
    c.throws(eq(norm(v), Z), "std::runtime_error")
    c.ret(free_cols([Z, Z, Z]))
    base(c, v, lambda res, post: [[res[4 * i + j] for j in range(3)] for i in range(3)])


@spec("getSphereCentersFromPill(float, Transform const&, Position3D&, Position3D&)", P)
def _(c, h, t, a, b):
    R, p = rows(t), pos(t)
    z = [R[i][2] for i in range(3)]
    c.put(a, vadd(p, vscale(h, z)))
    c.put(b, vsub(p, vscale(h, z)))


PILL = "computePillParameters(Position3D const&, Position3D const&, float&, Transform&)"


@spec(PILL, P, sampler=axes_sampler, throw_frame=False)
def _(c, a, b, h, t):
    d = vsub(b.all(), a.all())
    c.throws(eq(norm(d), Z), "std::runtime_error")
    c.put(h, const(1) / const(2) * norm(d))
    c.put(t, free_cols(vscale(const(1) / const(2), vadd(a.all(), b.all()))))
    base(c, d, lambda res, post: rows(post(t)))


@lemma("the base is orthonormal, direct and carried by the axis", P)
def _(L):
    a = L.free("Position3D", "a")
    v = a.all()
    L.assume(ne(norm(v), Z))
    t = L.call("orthogonalSpace(Position3D const&)", a)
    C = tr(rows(t))
    L.eq("third axis along the given one", vscale(norm(v), C[2]), v)
    L.eq("unit third axis", [dot(C[2], C[2])], [const(1)])
    L.have("unit third axis", eq(dot(C[2], C[2]), const(1)))
    L.eq("unit first axis", [dot(C[0], C[0])], [const(1)])
    L.eq("orthogonal", [dot(C[0], C[1]), dot(C[0], C[2]), dot(C[1], C[2])], [Z, Z, Z])
    L.eq("unit second axis", [dot(C[1], C[1])], [const(1)])
    L.eq("direct", cross(C[0], C[1]), C[2])


@lemma("a pill rebuilt from its sphere centres: same centres, axis from A to B", P)
def _(L):
    a, b = L.free("Position3D", "a"), L.free("Position3D", "b")
    A, B = a.all(), b.all()
    d = vsub(B, A)
    L.assume(ne(norm(d), Z))
    h, t = L.cell(L.var("junk.h")), L.scratch("Transform")
    L.call(PILL, a, b, h, t)
    p, q = L.scratch("Position3D"), L.scratch("Position3D")
    L.call("getSphereCentersFromPill(float, Transform const&, Position3D&, Position3D&)", L.now(h).v, L.now(t), p, q)
    L.eq("end of the axis", L.now(p), B)
    L.eq("start of the axis", L.now(q), A)


for _cls, _fs in (("Sphere", ["Radius"]), ("RoundedRectangle", ["HalfExtentX", "HalfExtentY", "Radius"]),
                  ("Pill", ["HalfExtent", "Radius"]), ("Rectangle", ["HalfExtentX", "HalfExtentY"])):
    def mk(cls, fs):
        @spec("%s::%s(%s)" % (cls, cls, ", ".join(["float"] * len(fs))), P)
        def _(c, o, *v):
            for f, x in zip(fs, v):
                c.set(o, **{"f" + f: x})
        for f in fs:
            @spec("%s::get%s() const" % (cls, f), P)
            def _(c, o, f=f):
                c.ret(getattr(o, "f" + f))
    mk(_cls, _fs)
