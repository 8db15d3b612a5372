"""C20: PID controller with dead zone: the control law, its gain and period checks, and reset."""
from common import *

P = ("C20",)
K = "AL::Math::DSP::PIDController"
Z = const(0)
ARGS = ["fKp", "fKv", "fKi", "fThreshold", "fStaticOffset"]


def valid(kp, kv, ki, th, off, per):
    return and_(*([le(Z, x) for x in (kp, kv, ki, th, off)] + [lt(Z, per)]))


def inv(s):
    """data invariant established by every constructor and initialize"""
    return valid(s.fKp, s.fKv, s.fKi, s.fThreshold, s.fStaticOffset, s.fPeriod)


FRESH = dict(fErr=Z, fiErr=Z, fFirstIteration=TRUE, fPreviousErr=Havoc(), fdErr=Havoc())
DEAD = dict(fPreviousErr=Havoc(), fdErr=Havoc())     # internal scratch: overwritten before every use


def positive(rng, env, names):
    for n, v in names.items():
        if n.split(".")[-1] in ARGS + ["fPeriod"]:
            env[v] = abs(env[v])


@spec(K + "::PIDController()", P)
def _(c, s):
    c.set(s, fKp=Z, fKv=Z, fKi=Z, fThreshold=Z, fStaticOffset=Z, fPeriod=const(1), **FRESH)


@spec(K + "::PIDController(float, float, float, float, float, float)", P, throw_frame=False)
def _(c, s, kp, kv, ki, th, off, per):
    c.throws(not_(valid(kp, kv, ki, th, off, per)), "std::runtime_error")
    c.set(s, fKp=kp, fKv=kv, fKi=ki, fThreshold=th, fStaticOffset=off, fPeriod=per, **FRESH)


@spec(K + "::initialize(float, float, float, float, float, float)", P)
def _(c, s, kp, kv, ki, th, off, per):
    c.throws(not_(valid(kp, kv, ki, th, off, per)), "std::runtime_error")
    c.set(s, fKp=kp, fKv=kv, fKi=ki, fThreshold=th, fStaticOffset=off, fPeriod=per, **FRESH)


@spec(K + "::initialize()", P)
def _(c, s):
    c.set(s, **FRESH)


@spec(K + "::setGains(float, float, float)", P)
def _(c, s, kp, kv, ki):
    c.throws(or_(lt(kp, Z), lt(kv, Z), lt(ki, Z)), "std::runtime_error")
    c.set(s, fKp=kp, fKv=kv, fKi=ki)


def law(c, s, e, de, per):
    ie = s.fiErr + e * per
    c.set(s, fErr=e, fiErr=ie, fFirstIteration=FALSE, **DEAD)
    c.ret(s.fStaticOffset + s.fKp * e + s.fKv * de + s.fKi * ie)


@spec(K + "::computeFeedback(float, float, float)", P, sampler=positive)
def _(c, s, cmd, sen, p):
    c.req(inv(s))
    per = ite(lt(Z, p), p, s.fPeriod)
    d, th = cmd - sen, s.fThreshold
    e = ite(lt(th, d), d - th, ite(lt(d, -th), d + th, Z))
    law(c, s, e, ite(s.fFirstIteration, Z, (e - s.fErr) / per), per)


@spec(K + "::computeFeedbackAbsolute(float)", P, sampler=positive)
def _(c, s, a):
    c.req(inv(s))
    e = ite(lt(s.fThreshold, a), a - s.fThreshold, Z)
    law(c, s, e, ite(s.fFirstIteration, Z, absr(e - s.fErr) / s.fPeriod), s.fPeriod)


@lemma("after initialize() a controller behaves like a freshly constructed one", P)
def _(L):
    kp, kv, ki, th, off, per = a = [L.var(n) for n in ("kp", "kv", "ki", "th", "off", "per")]
    L.assume(valid(*a))
    old = L.free(K, "old")
    new = L.scratch(K)
    L.call(K + "::PIDController(float, float, float, float, float, float)", new, *a)
    L.call(K + "::initialize(float, float, float, float, float, float)", old, *a)
    for i in range(3):
        cmd, sen, p = (L.var("%s%d" % (n, i)) for n in ("cmd", "sen", "p"))
        f = K + "::computeFeedback(float, float, float)"
        L.eq("step %d" % i, [L.call(f, old, cmd, sen, p)], [L.call(f, new, cmd, sen, p)])


@lemma("inside the dead zone a controller at rest answers its static offset, outside it the feedback has the sign of the error", P)
def _(L):
    s = L.free(K, "s")
    L.assume(inv(s))
    L.call(K + "::initialize()", s)
    cmd, sen = L.var("cmd"), L.var("sen")
    f = K + "::computeFeedback(float, float, float)"
    d = cmd - sen
    r = L.call(f, s, cmd, sen, const(-1))
    L.holds("dead zone", implies(and_(le(d, s.fThreshold), le(-s.fThreshold, d)), eq(r, s.fStaticOffset)))
    L.holds("positive error", implies(lt(s.fThreshold, d), le(s.fStaticOffset, r)))
    L.holds("negative error", implies(lt(d, -s.fThreshold), le(r, s.fStaticOffset)))
    L.holds("invariant", inv(L.now(s)))
