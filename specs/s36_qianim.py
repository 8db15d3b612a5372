"""C36: animation documents (almath/scenegraph/qianim.h, src/scenegraph/qianim.cpp)"""
from common import *
import ir
from lemmas import Thrown
from ptreemodel import MODEL, BAD_PATH, PT, TREE, tree, attr, only, text, setcell, cell, path_of, literal
import symex
from s31_inertia import out, read

P = ("C36",)
I_ = "AL::Inst::"
T = "boost::property_tree::basic_ptree<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, " \
    "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, " \
    "std::less<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>"
X = "<xmlattr>."
INVALID = "_ZTISt16invalid_argument"
RUNTIME = "_ZTISt13runtime_error"


def tangent(ex, st, a):
    """assumed: the child Tangent element of the key which is on that side, or nothing"""
    side = a[2]
    v = [cell(st, a[1], 4000 + 8 * i) for i in range(2)]
    if v[0] is None or v[1] is None:
        raise symex.Unsupported("a tangent of an unknown key")
    res = []
    side = tm.lift(side)
    for s, right in symex.forks(ex, st, side if side.sort == "B" else eq(side, const(1, "I"))):
        setcell(s, a[0], 0, v[1 if right else 0])
        res += ex.ret(s, None)
    return res


def add(ex, st, a):
    """assumed: add("Tangent", "") appends an empty Tangent element"""
    if path_of(st, a[1]) != "Tangent" or literal(ex, st, a[2]) != "" or cell(st, a[0], 4016) is not None:
        raise symex.Unsupported("add")
    p = st.alloc(TREE, "added")
    setcell(st, a[0], 4016, p)
    return ex.ret(st, p)


H = dict(harness="qianim.cpp", split_select=True,
         contracts=MODEL + ((r"^AL::qianim::V2::Key::get_tangent_optional(\[abi:cxx11\])?\(", tangent),
                            (PT + r"::add<char \[1\]>\(", add)))


def call(L, fn, *args):
    """-> (value, None) or (None, type thrown)"""
    try:
        return L.call(I_ + fn, *args, throws=True), None
    except Thrown as e:
        return None, str(e)


for T_ in ("float", "double"):
    @lemma("an interval is accepted iff it lasts and its tangents stay in it (%s)" % T_, P, **H)
    def _(L, T_=T_):
        p0, p3 = L.ivar("p0"), L.ivar("p3")
        L.assume(le(const(0, "I"), p0)), L.assume(le(const(0, "I"), p3))
        v = [L.var(n) for n in ("v0", "d1", "v1", "d2", "v2", "v3")]
        d = tm.itor(p3) - tm.itor(p0)
        z = const(0)
        ok = and_(lt(p0, p3), le(z, v[1]), le(v[1], d), le(v[3], z), le(-d, v[3]))
        r, e = call(L, "check%s(int, %s, %s, %s, %s, %s, int, %s)" % ((T_.capitalize(),) + (T_,) * 6),
                    p0, v[0], v[1], v[2], v[3], v[4], p3, v[5])
        if e is None:
            return L.holds("accepted: valid", ok)
        L.holds("rejected: invalid", not_(ok))
        L.holds("rejected: std::invalid_argument", TRUE if e == INVALID else FALSE)


@lemma("the curve between two keys: right tangent of the first, left tangent of the second", P, **H)
def _(L):
    n = {k: L.var(k) for k in ("v0", "d1", "v1", "d2", "v2", "v3", "a", "b", "c", "d")}
    f0, f3 = L.ivar("f0"), L.ivar("f3")
    L.assume(le(const(0, "I"), f0)), L.assume(le(const(0, "I"), f3))

    def tan(name, a, o):
        return tree(L, name, {X + "abscissaParam": n[a], X + "ordinateParam": n[o]})
    k0 = tree(L, "key0", {X + "frame": f0, X + "value": n["v0"]})
    k3 = tree(L, "key3", {X + "frame": f3, X + "value": n["v3"]})
    for k, l, r in ((k0, ("a", "b"), ("d1", "v1")), (k3, ("d2", "v2"), ("c", "d"))):
        setcell(L.st, k, 4000, tan("left", *l))
        setcell(L.st, k, 4008, tan("right", *r))
    o = out(L, "points", 8)
    r, e = call(L, "points(%s const*, %s const*, double*)" % (T, T), k0, k3, o)
    L.holds("does not throw", TRUE if e is None else FALSE)
    if e is None:
        want = [tm.itor(f0), n["v0"], n["d1"], n["v1"], n["d2"], n["v2"], tm.itor(f3), n["v3"]]
        for i, (g, w) in enumerate(zip(read(L, o, 8), want)):
            L.holds("argument %d" % i, eq(g, w))


def reads(what, fn, a, valid, sort="I", exc=INVALID, default=None):
    @lemma("reading the " + what, P, **H)
    def _(L):
        v = L.ivar("v") if sort == "I" else L.var("v")
        other = L.var("other")
        if L.cases(eq(L.var("present"), const(0))) == 0:
            t = tree(L, "t", {"other": other})
            r, e = call(L, "%s(%s const*)" % (fn, T), t)
            if default is not None:
                L.holds("absent: default", FALSE if e else eq(r, default))
            else:
                L.holds("absent: throws", TRUE if e == BAD_PATH else FALSE)
            return only(L, t, {"other": other})
        t = tree(L, "t", {X + a: v, "other": other})
        r, e = call(L, "%s(%s const*)" % (fn, T), t)
        ok = valid(v)
        if e is None:
            L.holds("returned: valid", ok)
            if r is not None:
                L.holds("returned: the value of the document", eq(r, v))
        else:
            L.holds("rejected: invalid", not_(ok))
            L.holds("rejected: the documented exception", TRUE if e == exc else FALSE)
        only(L, t, {X + a: v, "other": other})


def writes(what, fn, ty, a, valid, sort="I"):
    @lemma("writing the " + what, P, **H)
    def _(L):
        v = L.ivar("v") if sort == "I" else L.var("v")
        old = L.ivar("old") if sort == "I" else L.var("old")
        other = L.var("other")
        attrs = {"other": other}
        if L.cases(eq(L.var("present"), const(0))):
            attrs[X + a] = old
        t = tree(L, "t", attrs)
        r, e = call(L, "%s(%s*, %s)" % (fn, T, ty), t, v)
        ok = valid(v)
        if e is None:
            L.holds("written: valid", ok)
            attrs[X + a] = v
        else:
            L.holds("rejected: invalid", not_(ok))
            L.holds("rejected: std::invalid_argument", TRUE if e == INVALID else FALSE)
        only(L, t, attrs)


zero, one = const(0, "I"), const(1, "I")
always = lambda v: TRUE
reads("frame of a key", "getFrame", "frame", lambda v: le(zero, v))
writes("frame of a key", "putFrame", "int", "frame", lambda v: le(zero, v))
reads("frames per second", "getFps", "fps", lambda v: lt(zero, v))
writes("frames per second", "putFps", "int", "fps", lambda v: lt(zero, v))
reads("value of a key", "getValue", "value", always, "R")
writes("value of a key", "putValue", "double", "value", always, "R")
reads("abscissa of a tangent", "getAbscissa", "abscissaParam", always, "R")
reads("ordinate of a tangent", "getOrdinate", "ordinateParam", always, "R")
reads("version", "checkVersion", "typeVersion", lambda v: eq(v, text("2.0")), "I", RUNTIME)

SIDES = (("left", 0), ("right", 1))
UNITS = (("dimensionless", 0), ("radian", 1), ("degree", 2), ("meter", 3))


def flag(v):
    return v if v.sort == "B" else not_(eq(v, const(0, "I")))


def texts(what, get, put, a, table, ty):
    """an attribute which is one of a few texts"""
    @lemma("reading the " + what, P, **H)
    def _(L):
        v = L.ivar("v")
        other = L.var("other")
        t = tree(L, "t", {X + a: v, "other": other})
        r, e = call(L, "%s(%s const*)" % (get, T), t)
        known = or_(*[eq(v, text(s)) for s, _ in table])
        if e is None:
            L.holds("returned: a known text", known)
            for s, k in table:
                same = (flag(r) if k else not_(flag(r))) if ty == "bool" else eq(r, const(k, "I"))
                L.holds("returned: %s" % s, implies(eq(v, text(s)), same))
        else:
            L.holds("rejected: not a known text", not_(known))
            L.holds("rejected: std::invalid_argument", TRUE if e == INVALID else FALSE)
        only(L, t, {X + a: v, "other": other})

    @lemma("writing the " + what, P, **H)
    def _(L):
        other = L.var("other")
        u = L.ivar("u")
        k = L.cases(*[eq(u, const(i, "I")) for i in range(len(table) - 1)])
        s, c = table[k]
        t = tree(L, "t", {"other": other})
        r, e = call(L, "%s(%s*, %s)" % (put, T, ty), t, bool(c) if ty == "bool" else c)
        L.holds("does not throw", TRUE if e is None else FALSE)
        only(L, t, {X + a: text(s), "other": other})


texts("side of a tangent", "getSide", "putSide", "side", SIDES, "bool")
texts("unit of a curve", "getUnit", "putUnit", "unit", UNITS, "int")


@lemma("a curve is not mute unless it says so", P, **H)
def _(L):
    t = tree(L, "t", {})
    r, e = call(L, "getMute(%s const*)" % T, t)
    L.holds("default", TRUE if e is None and flag(r) is FALSE else not_(flag(r)) if e is None else FALSE)
    for b in (True, False):
        t = tree(L, "t", {})
        r, e = call(L, "putMute(%s*, bool)" % T, t, b)
        L.holds("written %d" % b, TRUE if e is None else FALSE)
        r, e = call(L, "getMute(%s const*)" % T, t)
        L.holds("read back %d" % b, FALSE if e else flag(r) if b else not_(flag(r)))


@lemma("writing a tangent", P, **H)
def _(L):
    a, o = L.var("abscissa"), L.var("ordinate")
    right = L.cases(eq(L.var("side"), const(0))) == 0
    here = L.cases(eq(L.var("present"), const(0))) == 0
    old = [L.var(n) for n in "pqrs"]
    key = tree(L, "key", {X + "frame": L.ivar("f")})
    t = [tree(L, "tangent%d" % i, {X + "abscissaParam": old[2 * i], X + "ordinateParam": old[2 * i + 1], X + "side": text(SIDES[i][0])})
         for i in range(2)]
    for i in range(2):
        setcell(L.st, key, 4000 + 8 * i, t[i] if here or i != right else symex.NULL)
    r, e = call(L, "putTangent(%s*, bool, double, double)" % T, key, right, a, o)
    L.holds("does not throw", TRUE if e is None else FALSE)
    if e is not None:
        return
    new = cell(L.st, key, 4016)
    L.holds("added when there is none", TRUE if (new is None) == here else FALSE)
    for i in range(2):
        if i != right:
            only(L, t[i], {X + "abscissaParam": old[2 * i], X + "ordinateParam": old[2 * i + 1], X + "side": text(SIDES[i][0])})
        elif here or new is not None:
            only(L, t[i] if here else new, {X + "abscissaParam": a, X + "ordinateParam": o, X + "side": text(SIDES[i][0])})
    only(L, key, {X + "frame": L.ivar("f")})
