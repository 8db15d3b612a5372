"""Mathematical vocabulary of the specifications (pure functions over terms; independent of the code)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import term as tm
from term import (sqrt, sin, cos, atan2, acos, asin, absr, rmin, rmax, ite, and_, or_, not_, eq, ne, lt, le, implies,
                  iff, const, PI, TRUE, FALSE, var)
from contract import spec, lemma, Havoc, VecResult, SPECS, VF
from verify import InputKind
from fractions import Fraction


def F32(x):
    """the single-precision value nearest to x, as an exact rational"""
    return const(tm.f32(x))


def F64(x):
    return const(float(x))


# ---- 3x3 matrices as lists of rows
def rows(p):
    return [[p.r1_c1, p.r1_c2, p.r1_c3], [p.r2_c1, p.r2_c2, p.r2_c3], [p.r3_c1, p.r3_c2, p.r3_c3]]


def pos(p):
    return [p.r1_c4, p.r2_c4, p.r3_c4]


def mm(a, b):
    return [[sum_(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def sum_(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return r


def mv(a, v):
    return [sum_(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]


def tr(a):
    return [[a[j][i] for j in range(len(a))] for i in range(len(a[0]))]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vneg(a):
    return [-x for x in a]


def vscale(k, a):
    return [k * x for x in a]


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return sqrt(dot(a, a))


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


I3 = [[const(1), const(0), const(0)], [const(0), const(1), const(0)], [const(0), const(0), const(1)]]
Z3 = [const(0)] * 3


def flat3(m):
    return [x for r in m for x in r]


def T4(R, t):
    """memory order of Transform: rows of [R | t]"""
    return [R[i][j] if j < 3 else t[i] for i in range(3) for j in range(4)]


def rotx(a):
    return [[const(1), const(0), const(0)], [const(0), cos(a), -sin(a)], [const(0), sin(a), cos(a)]]


def roty(a):
    return [[cos(a), const(0), sin(a)], [const(0), const(1), const(0)], [-sin(a), const(0), cos(a)]]


def rotz(a):
    return [[cos(a), -sin(a), const(0)], [sin(a), cos(a), const(0)], [const(0), const(0), const(1)]]


def rpy(x, y, z):
    """R = Rz(z) Ry(y) Rx(x)"""
    return mm(mm(rotz(z), roty(y)), rotx(x))


def quat_rot(w, x, y, z):
    """rotation matrix of the unit quaternion (w, x, y, z)"""
    one, two = const(1), const(2)
    return [[one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
            [two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x)],
            [two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)]]


def quat_mul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw]


def axis_rot(a, n):
    """Rodrigues: rotation by angle a about the unit vector n"""
    x, y, z = n
    c, s = cos(a), sin(a)
    v = const(1) - c
    return [[x * x * v + c, x * y * v - z * s, x * z * v + y * s],
            [x * y * v + z * s, y * y * v + c, y * z * v - x * s],
            [x * z * v - y * s, y * z * v + x * s, z * z * v + c]]


# ---- constrained inputs
def unit_quat_vars(pre):
    w, x, y, z = (var(pre + "." + k) for k in ("qw", "qx", "qy", "qz"))
    rules = {w: const(1) - x * x - y * y - z * z}
    hyps = [eq(w * w + x * x + y * y + z * z, const(1))]

    def samp(rng):
        k = rng.random()
        if k < 0.25:
            v = [0.0] * 4
            v[rng.randrange(4)] = rng.choice([-1.0, 1.0])
        elif k < 0.35:
            v = [rng.choice([-0.5, 0.5]) for _ in range(4)]
        elif k < 0.45:
            v = [0.0] * 4
            i, j = rng.sample(range(4), 2)
            v[i] = v[j] = 0.5 ** 0.5
        else:
            v = [rng.gauss(0, 1) for _ in range(4)]
            if k > 0.9:
                v[rng.randrange(4)] = 0.0
            n = sum(a * a for a in v) ** 0.5 or 1.0
            v = [a / n for a in v]
        return v
    return [w, x, y, z], rules, hyps, [([w, x, y, z], samp)]


def _rigid(pre):
    q, rules, hyps, samp = unit_quat_vars(pre)
    t = [var(pre + "." + k) for k in ("px", "py", "pz")]
    return T4(quat_rot(*q), t), rules, hyps, samp


RIGID = InputKind(_rigid)          # any rigid transform (every rotation matrix is R(q) for a unit q)


def _rotm(pre):
    q, rules, hyps, samp = unit_quat_vars(pre)
    return flat3(quat_rot(*q)), rules, hyps, samp


ROTM = InputKind(_rotm)            # any rotation matrix


def _uq(pre):
    return unit_quat_vars(pre)


UNITQ = InputKind(_uq)             # any unit quaternion (w, x, y, z memory order)


def _disp(pre):
    q, rules, hyps, samp = unit_quat_vars(pre)
    t = [var(pre + "." + k) for k in ("px", "py", "pz")]
    return t + q, rules, hyps, samp


DISP = InputKind(_disp)            # displacement with a unit quaternion


def _unit3(pre):
    x, y, z = (var(pre + "." + k) for k in "xyz")

    def samp(rng):
        k = rng.random()
        if k < 0.4:
            v = [0.0] * 3
            v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        else:
            v = [rng.gauss(0, 1) for _ in range(3)]
            n = sum(a * a for a in v) ** 0.5
            v = [a / n for a in v]
        return v
    return [x, y, z], {x: const(1) - y * y - z * z}, [eq(x * x + y * y + z * z, const(1))], [([x, y, z], samp)]


UNIT3 = InputKind(_unit3)


def orthonormal(R):
    """R is a rotation matrix"""
    c = tr(R)
    z, one = const(0), const(1)
    return and_(*([eq(dot(c[i], c[j]), one if i == j else z) for i in range(3) for j in range(i, 3)] + [eq(det3(R), one)]))


def mat_eq(A, B):
    return and_(*[eq(x, y) for x, y in zip(flat3(A), flat3(B))])


def _uqpos(pre):
    """unit quaternion with w >= 0 (represents every rotation)"""
    q, rules, hyps, samp = unit_quat_vars(pre)
    (vs, f), = samp

    def samp2(rng):
        v = f(rng)
        return [-a for a in v] if v[0] < 0 else v
    return q, rules, hyps + [le(const(0), q[0])], [(vs, samp2)]


def _rigidpos(pre):
    q, rules, hyps, samp = _uqpos(pre)
    t = [var(pre + "." + k) for k in ("px", "py", "pz")]
    return T4(quat_rot(*q), t), rules, hyps, samp


def _rotmpos(pre):
    q, rules, hyps, samp = _uqpos(pre)
    return flat3(quat_rot(*q)), rules, hyps, samp


RIGIDP = InputKind(_rigidpos)      # any rigid transform, represented by the unit quaternion with w >= 0
ROTMP = InputKind(_rotmpos)


def ghost_q(c, view):
    """the quaternion behind a RIGID / ROTM input in verification mode"""
    n = c.name_of(view)
    return [var(n + "." + k) for k in ("qw", "qx", "qy", "qz")]


# ------------------------------------------------------------------ quantifiers over 0 <= j < n
def Sum(n, f):
    k = tm.fresh("j", "I")
    return tm.rsum(n, k, f(k))


def All(n, f):
    k = tm.fresh("j", "I")
    return tm.forall(n, k, f(k))


def Any(n, f):
    k = tm.fresh("j", "I")
    return tm.exists(n, k, f(k))
