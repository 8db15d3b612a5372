"""C10: serialisation of the numeric types to and from flat float sequences (layout, length, round trip, defaults)."""
from common import *

P = ("C10",)
N = {"Position2D": 2, "Position3D": 3, "Position6D": 6, "Pose2D": 3, "Velocity3D": 3, "Velocity6D": 6, "Rotation3D": 3,
     "Quaternion": 4, "Rotation": 9, "PositionAndVelocity": 2}
LAST = [const(0), const(0), const(0), const(1)]


def flat(K, s):
    return s.all() + (LAST if K == "Transform" else [])


def pick(vals):
    """element i of a list of terms, i an index term"""
    def at(i):
        if isinstance(i, int):
            return vals[i]
        if tm.isc(i):
            return vals[int(i.data)]
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = ite(eq(i, const(k, "I")), vals[k], r)
        return r
    return at


for K in list(N) + ["Transform"]:
    n = N.get(K, 16)
    spec("%s::toVector() const" % K, P)(lambda c, s, K=K, n=n: c.ret(VecResult(n, pick(flat(K, s)))))
    spec("%s::toVector(VF&) const" % K, P)(lambda c, s, v, K=K, n=n: c.put_vec(v, n, pick(flat(K, s))))
    if K in ("Position2D", "Position3D", "Position6D", "Pose2D", "Velocity3D", "Velocity6D", "Transform"):
        spec("%s::writeToVector(__gnu_cxx::__normal_iterator<float*, VF>&) const" % K, P)(
            lambda c, s, it, K=K: c.put_iter(it, flat(K, s)))


def vctor(c, s, v, n, dflt):
    ok = eq(tm.lift(v.n, "I"), const(n, "I"))
    vals = [ite(ok, v.at(const(i, "I")), dflt[i]) for i in range(n)]
    c.put(s, vals)


for K in ("Position2D", "Position3D", "Position6D", "Pose2D", "Velocity3D", "Velocity6D", "Rotation3D", "Quaternion"):
    spec("%s::%s(VF const&)" % (K, K), P)(lambda c, s, v, K=K: vctor(c, s, v, N[K], [const(0)] * N[K]))
