"""C24: the box mesh, added to any mesh on which no polygon is open; the rounded box (bounded)"""
from common import *
import s23_mesh as s23
from s23_mesh import Mesh, M, I, ZI, ONE
from symex import Unsupported

P = ("C24",)
BOX = "AL::addBoxMesh(float, float, float, AL::Mesh&)"


def quads(L, m, he):
    """what was appended to m is the surface of the box, faces in any order, corners in any rotation"""
    (np, pos), (nn, nrm), (nv, ver), (nc, cnt) = (m.now(b) for b in ("_positions", "_normals", "_vertices", "_vcounts"))
    s = 3 if m.wt else 2
    L.holds("six polygons", eq(nc, m.n["_vcounts"] + I(6)))
    for k in range(6):
        L.holds("polygon %d has four vertices" % k, eq(cnt(m.n["_vcounts"] + I(k)), I(4)))
    L.holds("24 vertices", eq(nv, m.n["_vertices"] + I(24 * s)))
    for b in ("_positions", "_normals", "_texCoords", "_vertices", "_vcounts"):
        if m.n[b] is ZI:
            continue
        n, at = m.now(b)
        k = tm.fresh("k", "I")
        L.add("%s: what was there is kept" % b, and_(le(m.n[b], n), eq(at(k), m.at[b](k))), list(L.st.pc) + [le(ZI, k), lt(k, m.n[b])])
    L.holds("no texture coordinates are added", eq(m.now("_texCoords")[0], m.n["_texCoords"]))
    L.holds("eight corners", eq(np, m.n["_positions"] + I(24)))
    L.holds("six normals", eq(nn, m.n["_normals"] + I(18)))
    v0 = m.n["_vertices"]
    normals = []
    for q in range(6):
        ps, ns = [], []
        for k in range(4):
            o = v0 + I((4 * q + k) * s)
            ip, inn = ver(o), ver(o + I(1))
            L.holds("quad %d: corner %d refers to a position of the box" % (q, k), and_(le(m.n["_positions"], ip * 3), lt(ip * 3, np)))
            L.holds("quad %d: corner %d refers to a normal of the box" % (q, k), and_(le(m.n["_normals"], inn * 3), lt(inn * 3, nn)))
            ps.append([pos(ip * 3 + I(j)) for j in range(3)])
            ns.append([nrm(inn * 3 + I(j)) for j in range(3)])
            if m.wt:
                L.holds("quad %d: corner %d has the selected texture coordinates" % (q, k), eq(ver(o + I(2)), m.cur0["_currentTexCoord"]))
        n = ns[0]
        normals.append(n)
        for k in range(1, 4):
            L.holds("quad %d: one normal" % q, and_(*[eq(a, b) for a, b in zip(ns[k], n)]))
        L.holds("quad %d: the normal is a signed axis" % q,
                or_(*[and_(*[eq(n[j], const(sg if j == ax else 0, "R")) for j in range(3)]) for ax in range(3) for sg in (1, -1)]))
        ext = absr(n[0]) * he[0] + absr(n[1]) * he[1] + absr(n[2]) * he[2]
        for k in range(4):
            L.holds("quad %d: corner %d is a corner of the box" % (q, k), and_(*[eq(absr(ps[k][j]), he[j]) for j in range(3)]))
            L.holds("quad %d: corner %d is on the face" % (q, k), eq(sum((n[j] * ps[k][j] for j in range(3)), const(0, "R")), ext))
            a = [ps[(k + 1) % 4][j] - ps[k][j] for j in range(3)]
            b = [ps[(k + 2) % 4][j] - ps[(k + 1) % 4][j] for j in range(3)]
            cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            L.holds("quad %d: counter-clockwise seen from outside, at corner %d" % (q, k),
                    lt(const(0, "R"), sum((n[j] * cr[j] for j in range(3)), const(0, "R"))))
    for i in range(6):
        for j in range(i):
            L.holds("faces %d and %d differ" % (j, i), not_(and_(*[eq(a, b) for a, b in zip(normals[i], normals[j])])))


@lemma("the box mesh is the surface of the box, oriented outwards", P, drop_asserts=True, harness="box.cpp")
def _(L):
    m = Mesh(L, mode=-1, tex=0)
    he = [L.var(x) for x in ("hx", "hy", "hz")]
    for h in he:
        L.assume(lt(const(0, "R"), h))
    L.call(BOX, he[0], he[1], he[2], m.p)
    quads(L, m, he)
    L.holds("no polygon is left open", eq(tm.lift(L.get(L.member(m.p, M, "_currentMode"), s23.I8), "I"), ZI))


@lemma("a box mesh created alone is that surface and nothing else", P, drop_asserts=True, harness="box.cpp")
def _(L):
    he = [L.var(x) for x in ("hx", "hy", "hz")]
    for h in he:
        L.assume(lt(const(0, "R"), h))
    r = L.call("AL::createBoxMesh(float, float, float)", *he)
    m = Mesh.__new__(Mesh)
    m.L, m.p, m.wt = L, r._ptr, 0
    m.n = {b: ZI for b in ("_positions", "_normals", "_texCoords", "_vertices", "_vcounts")}
    m.at = {b: (lambda q: lambda i: tm.mk("sel", (i,), "I" if q[1] == "v" else "R", q))(b) for b in m.n}
    quads(L, m, he)


@lemma("the rounded box is closed, oriented outwards and lies on the rounded surface", P, harness="box.cpp")
def _(L):
    raise Unsupported("sectors are kept in a vector of structures with vectors; sampled instead")
