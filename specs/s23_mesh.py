"""C23: building meshes, from every reachable state (class invariant)."""
from common import *
from lemmas import Thrown
import ir
import symex

P = ("C23",)
M = "AL::Mesh"
ZI, ONE = const(0, "I"), const(1, "I")
NOIDX = 2 ** 64 - 1
BUF = {"_positions": 3, "_normals": 3, "_texCoords": 2}
MODES = {"POLYGON": 0, "TRIANGLES": 1, "QUADS": 2}
I8, I32, I64 = ir.INT(8), ir.INT(32), ir.INT(64)


def I(k):
    return const(k, "I")


class Mesh:
    """a mesh in an arbitrary state that satisfies the class invariant"""

    def __init__(self, L, mode="any", normal="any", tex="any", coords="any"):
        self.L = L
        self.p = L.raw(M)
        self.n, self.at = {}, {}
        for b, k in BUF.items():
            n = L.ivar(b[1:])
            L.assume(le(ZI, n))
            self.n[b] = n * k
            self.at[b] = (lambda q: lambda i: tm.mk("sel", (i,), "R", q))(b)
            L.put_vec(L.member(self.p, M, b), n * k, self.at[b])
        for b in ("_vertices", "_vcounts"):
            n = L.ivar(b[1:])
            L.assume(le(ZI, n))
            self.n[b] = n
            self.at[b] = (lambda q: lambda i: tm.mk("sel", (i,), "I", q))(b)
        self.wt = L.choose(2) if coords == "any" else coords
        stride = 3 if self.wt else 2
        self.n["_vertices"] = self.n["_vertices"] * stride
        for b in ("_vertices", "_vcounts"):
            L.put_ints(L.member(self.p, M, b), self.n[b], self.at[b])
        L.put(L.member(self.p, M, "_withTexCoords"), I(self.wt), I8)
        self.mode = L.choose(4) - 1 if mode == "any" else mode       # -1: not between begin and end
        self.put_mode(self.mode)
        self.cv = L.ivar("pending")
        L.assume(le(ZI, self.cv) if self.mode >= 0 else eq(self.cv, ZI))
        if self.mode < 0:
            self.cv = ZI
        L.put(L.member(self.p, M, "_currentVcount"), self.cv, I64)
        self.cur = {}
        for f, b, want in (("_currentNormal", "_normals", normal), ("_currentTexCoord", "_texCoords", tex)):
            none = L.choose(2) if want == "any" else want
            if none:
                self.cur[f] = I(NOIDX)
            else:
                self.cur[f] = L.ivar(f[1:])
                L.assume(and_(le(ZI, self.cur[f]), lt(self.cur[f] * BUF[b], self.n[b])))
            L.put(L.member(self.p, M, f), self.cur[f], I64)
        self.copy()

    def put_mode(self, m):
        q = self.L.member(self.p, M, "_currentMode")
        self.L.put(q, I(1 if m >= 0 else 0), I8)
        self.L.put(self.L.ex.padd(q, 4), I(max(m, 0)), I32)

    def copy(self):
        self.n0, self.at0, self.cur0 = dict(self.n), dict(self.at), dict(self.cur)

    def now(self, b):
        q = self.L.member(self.p, M, b)
        return self.L.vec_at(q) if b in BUF else self.L.ints_at(q)

    def appended(self, b, *items):
        """the buffer is the old one followed by the items"""
        L, (n, at) = self.L, self.now(b)
        L.holds("%s: %d more" % (b, len(items)), eq(n, self.n[b] + I(len(items))))
        k = tm.fresh("k", "I")
        L.add("%s: the others are kept" % b, eq(at(k), self.at[b](k)), list(L.st.pc) + [le(ZI, k), lt(k, self.n[b])])
        for j, x in enumerate(items):
            L.holds("%s: item %d" % (b, j), eq(at(self.n[b] + I(j)), x))

    def kept(self, *but):
        for b in list(BUF) + ["_vertices", "_vcounts"]:
            if b not in but:
                self.appended(b)

    def state(self, mode=None, cv=None, normal=None, tex=None):
        L = self.L
        q = L.member(self.p, M, "_currentMode")
        m = self.mode if mode is None else mode
        flag = lambda v: v if isinstance(v, int) else tm.lift(v)
        on = L.get(q, I8)
        L.holds("between begin and end" if m >= 0 else "not between begin and end", eq(tm.lift(on, "I"), I(1 if m >= 0 else 0)))
        if m >= 0:
            L.holds("mode", eq(tm.lift(L.get(L.ex.padd(q, 4), I32), "I"), I(m)))
        u = lambda v: I(v % 2 ** 64) if isinstance(v, int) else v
        L.holds("vertices of the open polygon", eq(u(L.get(L.member(self.p, M, "_currentVcount"), I64)), self.cv if cv is None else cv))
        for f, w in (("_currentNormal", normal), ("_currentTexCoord", tex)):
            L.holds(f, eq(u(L.get(L.member(self.p, M, f), I64)), self.cur[f] if w is None else w))
        L.holds("texture coordinates or not", eq(tm.lift(L.get(L.member(self.p, M, "_withTexCoords"), I8), "I"), I(self.wt)))

    def unchanged(self):
        self.kept()
        self.state()

    def call(self, sig, *args):
        """-> (value, thrown)"""
        try:
            return self.L.call(M + "::" + sig, self.p, *args, throws=True), False
        except Thrown:
            return None, True


H = dict(harness="mesh.cpp")


@lemma("a new mesh is empty", P, **H)
def _(L):
    p = L.raw(M)
    wt = L.choose(2)
    L.call(M + "::Mesh(bool)", p, bool(wt))
    for b in BUF:
        L.holds(b + " is empty", eq(L.vec_at(L.member(p, M, b))[0], ZI))
    for b in ("_vertices", "_vcounts"):
        L.holds(b + " is empty", eq(L.ints_at(L.member(p, M, b))[0], ZI))
    L.holds("no polygon is open", eq(tm.lift(L.get(L.member(p, M, "_currentMode"), I8), "I"), ZI))
    L.holds("no vertex is pending", eq(tm.lift(L.get(L.member(p, M, "_currentVcount"), I64), "I"), ZI))
    for f in ("_currentNormal", "_currentTexCoord"):
        v = L.get(L.member(p, M, f), I64)
        L.holds("none selected: " + f, eq(I(v % 2 ** 64) if isinstance(v, int) else v, I(NOIDX)))
    L.holds("texture coordinates as asked", eq(tm.lift(L.get(L.member(p, M, "_withTexCoords"), I8), "I"), I(wt)))


@lemma("positions are appended and numbered", P, **H)
def _(L):
    m = Mesh(L, normal=0, tex=0)
    x, y, z = L.var("x"), L.var("y"), L.var("z")
    r, thrown = m.call("position(float, float, float)", x, y, z)
    L.holds("not refused", FALSE if thrown else TRUE)
    L.holds("index of the new position", eq(tm.lift(r, "I") * 3, m.n["_positions"]))
    m.appended("_positions", x, y, z)
    m.kept("_positions")
    m.state()


@lemma("normals are appended, numbered and selected", P, **H)
def _(L):
    m = Mesh(L, tex=0)
    x, y, z = L.var("x"), L.var("y"), L.var("z")
    L.assume(le(absr(x * x + y * y + z * z - 1), F32(1e-5)))
    r, thrown = m.call("normal(float, float, float)", x, y, z)
    L.holds("not refused", FALSE if thrown else TRUE)
    L.holds("index of the new normal", eq(tm.lift(r, "I") * 3, m.n["_normals"]))
    m.appended("_normals", x, y, z)
    m.kept("_normals")
    m.state(normal=tm.lift(r, "I"))


@lemma("texture coordinates are appended, numbered and selected", P, **H)
def _(L):
    m = Mesh(L, normal=0)
    x, y = L.var("x"), L.var("y")
    r, thrown = m.call("texCoord(float, float)", x, y)
    L.holds("not refused", FALSE if thrown else TRUE)
    L.holds("index of the new coordinates", eq(tm.lift(r, "I") * 2, m.n["_texCoords"]))
    m.appended("_texCoords", x, y)
    m.kept("_texCoords")
    m.state(tex=tm.lift(r, "I"))


@lemma("selecting a normal or texture coordinates by index", P, **H)
def _(L):
    m = Mesh(L, mode=-1, coords=1)
    tex = L.choose(2)
    i = L.ivar("index")
    L.assume(and_(le(ZI, i), lt(i, I(2 ** 60))))
    b = "_texCoords" if tex else "_normals"
    _, thrown = m.call(("texCoord" if tex else "normal") + "(unsigned long)", i)
    ok = lt(i * BUF[b], m.n[b])
    L.holds("refused exactly when out of range", not_(ok) if thrown else ok)
    m.kept()
    if thrown:
        m.state()
    else:
        m.state(**{"tex" if tex else "normal": i})


@lemma("begin opens a polygon or a set of polygons once", P, **H)
def _(L):
    m = Mesh(L, normal=0, tex=0)
    k = L.choose(3)
    _, thrown = m.call("begin(AL::Mesh::Mode)", I(k))
    L.holds("refused exactly when one is open", TRUE if thrown == (m.mode >= 0) else FALSE)
    m.kept()
    m.state(mode=m.mode if thrown else k)


@lemma("a vertex refers to a position and to the selected normal and texture coordinates", P, **H)
def _(L):
    m = Mesh(L)
    i = L.ivar("index")
    L.assume(and_(le(ZI, i), lt(i, I(2 ** 60))))
    _, thrown = m.call("vertex(unsigned long)", i)
    has = m.cur["_currentNormal"] is not I(NOIDX) and (not m.wt or m.cur["_currentTexCoord"] is not I(NOIDX)) and m.mode >= 0
    ok = and_(TRUE if has else FALSE, lt(i * 3, m.n["_positions"]))
    L.holds("refused exactly when nothing is open or something it refers to is missing", not_(ok) if thrown else ok)
    if thrown:
        m.unchanged()
        return
    m.appended("_vertices", *([i, m.cur["_currentNormal"]] + ([m.cur["_currentTexCoord"]] if m.wt else [])))
    m.kept("_vertices")
    m.state(cv=m.cv + ONE)


@lemma("a vertex with its position", P, **H)
def _(L):
    m = Mesh(L)
    x, y, z = L.var("x"), L.var("y"), L.var("z")
    _, thrown = m.call("vertex(float, float, float)", x, y, z)
    has = m.cur["_currentNormal"] is not I(NOIDX) and (not m.wt or m.cur["_currentTexCoord"] is not I(NOIDX)) and m.mode >= 0
    L.holds("refused exactly when nothing is open or selected", TRUE if thrown != has else FALSE)
    if thrown:
        m.kept("_positions")
        m.state()
        if m.mode < 0:
            m.kept()
        return
    i = L.ivar("positions")
    m.appended("_positions", x, y, z)
    m.appended("_vertices", *([i, m.cur["_currentNormal"]] + ([m.cur["_currentTexCoord"]] if m.wt else [])))
    m.kept("_positions", "_vertices")
    m.state(cv=m.cv + ONE)


@lemma("end closes the polygons and counts their vertices", P, drop_asserts=True, **H)
def _(L):
    m = Mesh(L, normal=0, tex=0)
    _, thrown = m.call("end()")
    if m.mode < 0:
        L.holds("refused when nothing is open", TRUE if thrown else FALSE)
        m.unchanged()
        return
    q = L.ivar("complete")
    size = {0: None, 1: 3, 2: 4}[m.mode]
    if thrown:
        if size is None:
            L.holds("a polygon is not refused", FALSE)
        else:
            # there is no q with pending = size * q
            L.holds("refused only when a polygon is not complete", implies(le(ZI, q), ne(m.cv, q * size)))
        m.kept()
        return
    n, at = m.now("_vcounts")
    m.kept("_vcounts")
    m.state(mode=-1, cv=ZI)
    n0 = m.n["_vcounts"]
    k = tm.fresh("k", "I")
    L.add("_vcounts: the others are kept", eq(at(k), m.at["_vcounts"](k)), list(L.st.pc) + [le(ZI, k), lt(k, n0)])
    if size is None:
        L.holds("a polygon unless it is empty", eq(n, ite(eq(m.cv, ZI), n0, n0 + ONE)))
        L.add("the polygon has all pending vertices", eq(at(k), m.cv), list(L.st.pc) + [le(n0, k), lt(k, n)])
    else:
        L.holds("as many polygons as the pending vertices make up", eq((n - n0) * size, m.cv))
        L.add("each has %d vertices" % size, eq(at(k), I(size)), list(L.st.pc) + [le(n0, k), lt(k, n)])


@lemma("the counts", P, **H)
def _(L):
    m = Mesh(L, mode=-1, normal=0, tex=0)
    stride = 3 if m.wt else 2
    for f, b, k in (("positionsNb", "_positions", 3), ("normalsNb", "_normals", 3), ("texCoordsNb", "_texCoords", 2),
                    ("verticesNb", "_vertices", stride), ("polygonsNb", "_vcounts", 1)):
        L.holds(f, eq(tm.lift(L.call(M + "::%s() const" % f, m.p), "I") * k, m.n[b]))
    L.holds("stride", eq(tm.lift(L.call(M + "::verticesStride() const", m.p), "I"), I(stride)))
