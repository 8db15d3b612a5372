"""C19: digital filter, for orders of any size, from every reachable state (class invariant)."""
from common import *

P = ("C19",)
D = "AL::Math::DSP::DigitalFilter"
ZI, ONE = const(0, "I"), const(1, "I")
IN, OUT, WI, WO, DC = "fFilterBufferIn", "fFilterBufferOut", "fFilterWeightsIn", "fFilterWeightsOut", "fFilterDcGain"


class State:
    pass


def arbitrary(L):
    """any state of a filter that satisfies the class invariant"""
    s = State()
    s.p = L.raw(D)
    s.g = L.var("gain")
    L.put(L.member(s.p, D, DC), s.g)
    for nm, buf, w, wv in (("in", IN, WI, "win"), ("out", OUT, WO, "wout")):
        n, k = L.ivar(nm + ".size"), L.ivar(wv + ".size")
        L.assume(and_(le(ZI, n), le(n, k)))
        at, wat = (lambda q: lambda i: tm.mk("sel", (i,), "R", q))(nm), (lambda q: lambda i: tm.mk("sel", (i,), "R", q))(wv)
        L.put_ring(L.member(s.p, D, buf), k, n, at)
        L.put_vec(L.member(s.p, D, w), k, wat)
        setattr(s, nm, (n, at))
        setattr(s, wv, (k, wat))
    return s


def invariant(L, p):
    for buf, w in ((IN, WI), (OUT, WO)):
        cap, n, _ = L.ring(L.member(p, D, buf))
        L.holds("as many samples of %s are kept as there are weights" % buf, eq(cap, L.vec_at(L.member(p, D, w))[0]))
        L.holds("%s holds at most its capacity" % buf, and_(le(ZI, n), le(n, cap)))


def history(L, p, buf):
    cap, n, at = L.ring(L.member(p, D, buf))
    return n, at


def pushed(n, k, at, v):
    """history of at most k samples, oldest first, after one more"""
    full = le(k, n)
    n2 = ite(full, k, tm.add(n, ONE))
    return n2, lambda i: ite(eq(i, tm.sub(n2, ONE)), v, ite(full, at(tm.add(i, ONE)), at(i)))


def config(L, p, name, g, win, wout):
    L.holds(name + ": gain", eq(L.get(L.member(p, D, DC)), g))
    L.same_seq(name + ": input weights", *(L.vec_at(L.member(p, D, WI)) + win))
    L.same_seq(name + ": output weights", *(L.vec_at(L.member(p, D, WO)) + wout))


@lemma("a default filter is the identity with empty histories", P, harness="digitalfilter.cpp")
def _(L):
    p = L.raw(D)
    L.call(D + "::DigitalFilter()", p)
    invariant(L, p)
    config(L, p, "default", const(1), (ONE, lambda i: const(1)), (ZI, None))
    for b in (IN, OUT):
        L.holds(b + " is empty", eq(history(L, p, b)[0], ZI))
    x = L.var("x")
    y = L.call(D + "::processFilter(float)", p, x)
    L.holds("the output of a default filter is its input", eq(y, x))


@lemma("configuration sets the weights, the gain and the orders", P, harness="digitalfilter.cpp")
def _(L):
    s = arbitrary(L)
    wi, wo, g = L.vec("newin"), L.vec("newout"), L.var("newgain")
    L.call(D + "::configureFilter(VF const&, VF const&, float)", s.p, wi, wo, g)
    invariant(L, s.p)
    config(L, s.p, "configured", g, (tm.lift(wi.n, "I"), wi.at), (tm.lift(wo.n, "I"), wo.at))


@lemma("a reset empties the histories and keeps the configuration", P, harness="digitalfilter.cpp")
def _(L):
    s = arbitrary(L)
    L.call(D + "::resetFilter()", s.p)
    invariant(L, s.p)
    config(L, s.p, "reset", s.g, s.win, s.wout)
    for b in (IN, OUT):
        L.holds(b + " is empty", eq(history(L, s.p, b)[0], ZI))


@lemma("one step of the filter: difference equation and histories", P, harness="digitalfilter.cpp")
def _(L):
    s = arbitrary(L)
    x = L.var("x")
    L.assume(ne(s.g, const(0)))
    y = L.call(D + "::processFilter(float)", s.p, x)
    (ni, ati), (no, ato), (ki, wi), (ko, wo) = s.__dict__["in"], s.out, s.win, s.wout
    n2, at2 = pushed(ni, ki, ati, x / s.g)
    full = and_(eq(n2, ki), eq(no, ko))
    L.holds("output", eq(y, ite(full, Sum(ki, lambda i: at2(i) * wi(i)) + Sum(ko, lambda i: ato(i) * wo(i)), x)))
    L.same_seq("the input over the gain is recorded", *(history(L, s.p, IN) + pushed(ni, ki, ati, x / s.g)))
    L.same_seq("the output is recorded", *(history(L, s.p, OUT) + pushed(no, ko, ato, y)))
    invariant(L, s.p)
    config(L, s.p, "step", s.g, s.win, s.wout)
