"""C13: angle reduction modulo a full turn."""
from common import *

P = ("C13",)
TWO_PI = const(2) * PI


def angles(rng, env, names):
    for v in names:
        if rng.random() < 0.5:
            env[v] = rng.choice([-3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 5]) * 3.14159274101257 + rng.choice([0, 0, 0.1, -0.1])


def reduced(c, r, a):
    c.ensures("differs from the input by whole turns", lambda res, post: tm.isint((a - r(res, post)) / TWO_PI))
    c.ensures("in ]-pi, pi]", lambda res, post: and_(lt(-PI, r(res, post)), le(r(res, post), PI)))


@spec("modulo2PIInPlace(float&)", P, sampler=angles)
def _(c, a):
    old = a.v
    c.put(a, Havoc())
    reduced(c, lambda res, post: post(a), old)


@spec("modulo2PI(float)", P, sampler=angles)
def _(c, a):
    c.ret(Havoc())
    reduced(c, lambda res, post: res[0], a)


@lemma("angles already in ]-pi, pi] are not changed", P)
def _(L):
    a = L.var("a")
    L.assume(and_(lt(-PI, a), le(a, PI)))
    r = L.call("modulo2PI(float)", a)
    L.eq("modulo2PI(a)", [r], [a])
