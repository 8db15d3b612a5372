"""Replay on the real code: shims compiled from /repo's current sources, driven with concrete inputs; the
specification is the oracle."""
import ctypes
import math
import os
import random
import re
import struct
import numpy as np
import build
import contract as ct
import symex
import term as tm
from contract import VF
from numeric import Num, Fragile
from symex import Ptr
from term import TRUE, FALSE, Undefined

SHIM_HEAD = build.PRE + """
#include <csetjmp>
#include <csignal>
#include <cstdlib>
struct VecArg { void* p; size_t n; };
template <class T> static std::vector<T> invec(void* a) {
  VecArg* v = (VecArg*)a; return std::vector<T>((T*)v->p, (T*)v->p + v->n); }
template <class T> static void outvec(void* a, std::vector<T> const& x) {
  VecArg* v = (VecArg*)a; T* q = (T*)malloc(sizeof(T) * (x.size() + 1));
  for (size_t i = 0; i < x.size(); ++i) q[i] = x[i]; v->p = q; v->n = x.size(); }
template <class T> struct IsVec { static const bool v = false; };
template <class T> struct IsVec<std::vector<T>> { static const bool v = true; typedef T E; };
template <class F> static void store(void* ret, F f) {
  typedef decltype(f()) R;
  if constexpr (std::is_void_v<R>) { f(); }
  else if constexpr (std::is_reference_v<R>) {
    auto& r = f(); *(const void**)ret = (const void*)&r; }
  else if constexpr (IsVec<R>::v) { outvec<typename IsVec<R>::E>(ret, f()); }
  else { R r = f(); memcpy(ret, (void*)&r, sizeof(R)); }
}
static sigjmp_buf jb; static volatile int armed = 0;
static void onsig(int s) { if (armed) { armed = 0; siglongjmp(jb, s); } _exit(99); }
struct Init { Init() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0);
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); std::clog.rdbuf(nullptr); freopen("/dev/null", "w", stderr); } };
template <class F> static int guard(F f) {
  int s = sigsetjmp(jb, 1); if (s) return 100 + s; armed = 1;
  try { f(); armed = 0; return 0; }
  catch (std::runtime_error const&) { armed = 0; return 1; }
  catch (std::invalid_argument const&) { armed = 0; return 2; }
  catch (std::exception const&) { armed = 0; return 3; }
  catch (...) { armed = 0; return 4; }
}
extern "C" void shim_init() { static Init i; }
"""


def shim_for(k, sig, ps):
    q, _, _ = ct.parse_sig(sig)
    pre, post, ex = [], [], []
    i = 0
    this = None
    for (name, t, role) in ps:
        if role == "sret":
            continue
        base, ref, const = t, False, False
        if t[-1] in "&*":
            ref = True
            base = t[:-1].strip()
            const = base.endswith(" const")
            base = re.sub(r"\s*const$", "", base)
        m = re.match(r"std::vector<(.*), std::allocator<\1\s*>>$", base)
        if m and not m.group(1).startswith("std::vector"):
            e = m.group(1)
            pre.append("std::vector<%s> x%d = invec<%s>(a[%d]);" % (e, i, e, i))
            if ref and not const:
                post.append("outvec<%s>(a[%d], x%d);" % (e, i, i))
            v = "x%d" % i
        elif base.startswith("__gnu_cxx::__normal_iterator<float*"):
            pre.append("std::vector<float>::iterator x%d(*(float**)a[%d]);" % (i, i))
            post.append("*(float**)a[%d] = x%d.base();" % (i, i))
            v = "x%d" % i
        elif base.startswith("__gnu_cxx"):
            return None
        else:
            v = "(*(%s%s*)a[%d])" % (base, " const" if const else "", i)
        if t.endswith("*"):
            v = "(&%s)" % v
        if role == "this":
            this = v
        else:
            ex.append(v)
        i += 1
    name = q.rsplit("::", 1)
    if this is not None:
        cls = q.rsplit("::", 1)[0]
        meth = q.rsplit("::", 1)[1]
        if meth == cls.rsplit("::", 1)[1]:
            call = "new (&%s) %s(%s); return" % (this, cls, ", ".join(ex))
            body = "%s guard([&]() { %s; %s });" % ("return", call.replace("; return", ""), " ".join(post))
            return 'extern "C" int shim_%d(void** a, void* ret) { %s %s }\n' % (k, " ".join(pre), body)
        call = "%s.%s(%s)" % (this, meth, ", ".join(ex))
    else:
        call = "%s(%s)" % (q, ", ".join(ex))
    return ('extern "C" int shim_%d(void** a, void* ret) { %s return guard([&]() { store(ret, [&]() -> decltype(auto) '
            '{ return %s; }); %s }); }\n') % (k, " ".join(pre), call, " ".join(post))


class VecArg(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("n", ctypes.c_size_t)]


class Real:
    """the real functions, callable"""

    def __init__(self, sigs, types, params_of, srcs, hdrs):
        self.types = types
        self.idx = {}
        txt = SHIM_HEAD + "".join("#include <%s>\n" % h for h in hdrs)
        for k, s in enumerate(sigs):
            c = shim_for(k, s, params_of[s])
            if c is not None:
                self.idx[s] = k
                txt += c
        so = build.shared_object(srcs, txt)
        self.lib = ctypes.CDLL(so)
        self.lib.shim_init()

    def has(self, sig):
        return sig in self.idx

    def call(self, sig, bufs):
        """bufs: list of ctypes buffers (one per non-sret parameter) -> (code, ret buffer)"""
        fn = getattr(self.lib, "shim_%d" % self.idx[sig])
        arr = (ctypes.c_void_p * len(bufs))(*[ctypes.addressof(b) for b in bufs])
        ret = ctypes.create_string_buffer(4096)
        code = fn(arr, ret)
        return code, ret


# ------------------------------------------------------------------ sampling
SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 0.001, -0.001, 0.01, 0.1, -0.1, math.pi, -math.pi, math.pi / 2,
           -math.pi / 2, math.pi / 4, 10.0, -10.0, 1e-4, 0.25, 5.0]


def rnd(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(SPECIAL)
    if k < 0.6:
        return rng.uniform(-3.2, 3.2)
    if k < 0.75:
        return rng.uniform(-1, 1)
    if k < 0.85:
        return rng.gauss(0, 0.05)
    if k < 0.95:
        return rng.uniform(-12, 12)
    return float(rng.randint(-6, 6))


def f32(x):
    return tm.f32(float(x))


def sample_env(cfg, rng, seqs=True):
    env = {}
    done = set()
    for vs, fn in cfg.samplers:
        for v, x in zip(vs, fn(rng)):
            env[v] = x if v.sort != "R" else float(x)
            done.add(v)
    vals = cfg.allvars
    mode = rng.random()
    prev = []
    for v in vals:
        if v in done:
            continue
        if v.sort == "R":
            if mode < 0.15 and prev and rng.random() < 0.4:
                env[v] = rng.choice([1.0, 1.0, -1.0]) * rng.choice(prev)
            else:
                env[v] = f32(rnd(rng))
            prev.append(env[v])
        elif v.sort == "B":
            env[v] = rng.random() < 0.5
        elif v.sort in "FD":
            env[v] = fpsample(v.sort, rng, prev)
            prev.append(env[v])
        elif v.sort == "I":
            if str(v.data).endswith(".size"):
                env[v] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 17, 20, 33])
            else:
                env[v] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, 16, 31, 63, 100, rng.randint(-200, 200)])
    for (n, name, d) in cfg.vecs.values():
        if isinstance(name, str):
            nn = env[n] if n in env else 0
            env[("seq", name)] = [f32(rnd(rng)) for _ in range(nn)]
    for (n, name, cls, d) in cfg.pvecs.values():
        for path in pnames(cfg, cls):
            env[("seq", name + "." + path)] = [f32(rnd(rng)) for _ in range(tm.ev(n, env) if isinstance(n, tm.T) else n)]
    if cfg.sp is not None and cfg.sp.sampler is not None:
        names = {str(v.data): v for v in vals}
        cfg.sp.sampler(rng, env, names)
    return env


def pnames(cfg, cls):
    return [p for o, s, k, p in cfg.types.leaves(cls)]


def fix_seqs(cfg, env):
    """make the lists as long as their sizes say; False when that is impossible"""
    seqs = [(n, name) for n, name, d in cfg.vecs.values() if isinstance(name, str)]
    seqs += [(n, name + "." + p) for n, name, cls, d in cfg.pvecs.values() for p in pnames(cfg, cls)]
    for (n, name) in seqs:
        try:
            nn = tm.ev(n, env) if isinstance(n, tm.T) and n.op != "var" else env[n] if isinstance(n, tm.T) else n
        except (Undefined, KeyError):
            return False
        q = env.get(("seq", name), [])
        if not 0 <= nn <= 4096:
            return False
        if len(q) < nn:
            q = q + [q[-1] if q else 1.0] * (nn - len(q))
        env[("seq", name)] = q[:nn]
    if cfg.fp:
        # machine numbers, so that arithmetic on them rounds as the code does
        for k, v in list(env.items()):
            if isinstance(k, tuple):
                env[k] = [np.float32(x) for x in v]
            elif k.sort in "FD":
                env[k] = (np.float32 if k.sort == "F" else np.float64)(v)
    return True


def fpsample(sort, rng, prev):
    k = rng.random()
    if prev and k < 0.25:
        return rng.choice(prev)
    if k < 0.5:
        v = rng.choice(SPECIAL)
    elif k < 0.6:
        v = rng.choice([math.inf, -math.inf, math.nan, -0.0, 1e-45, 3e38, 1e-38])
    else:
        v = rnd(rng)
    return np.float32(v) if sort == "F" else np.float64(v)


def _sel(x, a, env):
    q = env.get(("seq", x.data))
    if q is None or not 0 <= a[0] < len(q):
        raise Undefined("index")
    return q[a[0]]


tm.EV_EXTRA["sel"] = _sel


def _fp(x, a, env):
    o = x.op
    with np.errstate(all="ignore"):
        if o == "fp.add": return a[0] + a[1]
        if o == "fp.sub": return a[0] - a[1]
        if o == "fp.mul": return a[0] * a[1]
        if o == "fp.div": return a[0] / a[1]
        if o == "fp.neg": return -a[0]
        if o == "fp.to_d": return np.float64(a[0])
        if o == "fp.to_f": return np.float32(a[0])
        if o == "fp.isnan": return bool(np.isnan(a[0]))
        if o == "fp.sqrt": return np.sqrt(a[0])
        if o == "same": return bits(a[0]) == bits(a[1])
    raise Undefined(o)


for _o in ("add", "sub", "mul", "div", "neg", "to_d", "to_f", "isnan", "sqrt"):
    tm.EV_EXTRA["fp." + _o] = _fp
tm.EV_EXTRA["same"] = _fp


def bits(v):
    v = np.asarray(v)
    if np.isnan(v):
        return "nan"
    return v.tobytes()


def all_vars(cfg):
    out, seen = [], set()
    for s, t in cfg.cells.values():
        if isinstance(t, tm.T):
            out += [v for v in tm.variables(t) if not (v in seen or seen.add(v))]
    for n in [x[0] for x in cfg.vecs.values()] + [x[0] for x in cfg.pvecs.values()]:
        if isinstance(n, tm.T):
            out += [v for v in tm.variables(n) if not (v in seen or seen.add(v))]
    for (n, t, r, a, d) in cfg.params:
        if isinstance(a, tm.T):
            out += [v for v in tm.variables(a) if not (v in seen or seen.add(v))]
    for b in cfg.pre.mem.values():
        for o, (s, t) in b.cells.items():
            if isinstance(t, tm.T):
                out += [v for v in tm.variables(t) if not (v in seen or seen.add(v))]
    return out


class Mem:
    """concrete memory image of a Config's pre-state"""

    def __init__(self, cfg, env, types):
        self.cfg, self.env = cfg, env
        self.bufs, self.blkbuf = [], {}
        self.rounded = {}
        num = Num(env, 0)
        self.keep = []
        for (name, t, role, a, d) in cfg.params:
            if role == "sret":
                continue
            if isinstance(a, Ptr):
                if a.blk in self.blkbuf:
                    self.bufs.append(self.blkbuf[a.blk])
                    continue
                blk = cfg.pre.mem[a.blk]
                base = re.sub(r"\s*const$", "", t.rstrip("&* ").strip())
                if a.blk in cfg.iters:
                    db = cfg.pre.mem[cfg.iters[a.blk]]
                    dbuf = ctypes.create_string_buffer(db.size)
                    self.fill(dbuf, db, num)
                    self.blkbuf[cfg.iters[a.blk]] = dbuf
                    buf = ctypes.create_string_buffer(16)
                    ctypes.c_void_p.from_buffer(buf).value = ctypes.addressof(dbuf) + blk.cells[0][1].off
                elif base.startswith("std::vector"):
                    buf = self.vec(blk, a, num)
                else:
                    buf = ctypes.create_string_buffer(max(blk.size, 16))
                    self.fill(buf, blk, num)
                self.blkbuf[a.blk] = buf
                self.bufs.append(buf)
            else:
                k = ct.scalar_kind(t)
                v = a if isinstance(a, int) else num.val(a)
                buf = ctypes.create_string_buffer(16)
                self.put(buf, 0, k[0], k[1], v)
                self.bufs.append(buf)

    def put(self, buf, off, size, kind, v):
        if kind == "R":
            b = struct.pack("f", f32(v)) if not isinstance(v, np.floating) else np.float32(v).tobytes()
        elif kind == "D":
            b = struct.pack("d", float(v))
        elif kind == "B":
            b = b"\1" if v else b"\0"
        else:
            b = (int(v) % (1 << (8 * size))).to_bytes(size, "little")
        ctypes.memmove(ctypes.addressof(buf) + off, b, len(b))

    def fill(self, buf, blk, num):
        for o, (s, t) in blk.cells.items():
            if isinstance(t, tm.T):
                k = {"R": "R", "F": "R", "D": "D", "B": "B", "I": "I"}[t.sort]
                if t.sort == "R" and s == 8:
                    k = "D"
                self.put(buf, o, s, k, num.val(t))
            elif isinstance(t, int):
                self.put(buf, o, s, "I", t)

    def vec(self, blk, a, num):
        va = VecArg()
        if a.blk in self.cfg.vecs:
            n, name, d = self.cfg.vecs[a.blk]
            if isinstance(name, str):
                vals = self.env[("seq", name)]
            else:
                vals = [num.val(x) for x in name]
            arr = (ctypes.c_float * max(1, len(vals)))(*[float(v) for v in vals])
            va.p, va.n = ctypes.addressof(arr), len(vals)
            self.keep.append(arr)
            return va
        # vector of structs
        n, name, cls, d = self.cfg.pvecs[a.blk]
        n = num.val(n) if isinstance(n, tm.T) else n
        es = self.cfg.types.size(cls)
        buf = ctypes.create_string_buffer(max(es * n, 16))
        for o, s, k, path in self.cfg.types.leaves(cls):
            vals = self.env[("seq", name + "." + path)]
            for i in range(n):
                self.put(buf, es * i + o, s, k, vals[i])
        self.keep.append(buf)
        va.p, va.n = ctypes.addressof(buf), n
        return va


def rd(buf, off, size, kind):
    b = ctypes.string_at(ctypes.addressof(buf) + off, size)
    return rdb(b, size, kind)


def rdb(b, size, kind):
    if kind == "R" or kind == "F":
        return struct.unpack("f", b)[0] if size == 4 else struct.unpack("d", b)[0]
    if kind == "D":
        return struct.unpack("d", b)[0]
    if kind == "B":
        return b[0] != 0
    v = int.from_bytes(b, "little")
    return v - (1 << (8 * size)) if kind == "I" and v >> (8 * size - 1) else v


class Mismatch(Exception):
    def __init__(self, what):
        self.what = what


class PostView:
    """concrete post-state of an object"""

    def __init__(self, types, buf, off, cls):
        self._t, self._b, self._o, self._cls = types, buf, off, cls

    def __getattr__(self, n):
        for o, s, k, p in self._t.leaves(self._cls):
            if p == n:
                return cst(rd(self._b, self._o + o, s, k), k)
        for o, t, p in self._t.subobjects(self._cls):
            if p == n:
                return PostView(self._t, self._b, self._o + o, t)
        raise AttributeError(n)

    def all(self):
        return [cst(rd(self._b, self._o + o, s, k), k) for o, s, k, p in self._t.leaves(self._cls)]


class PostVec:
    def __init__(self, va):
        self.n = va.n
        self._a = ctypes.cast(va.p, ctypes.POINTER(ctypes.c_float))

    def at(self, i):
        i = i.data if isinstance(i, tm.T) else i
        return tm.const(float(self._a[i]))


class PostPVec:
    def __init__(self, types, cls, va):
        self._t, self._cls, self._va, self.n = types, cls, va, va.n

    def at(self, i):
        i = i.data if isinstance(i, tm.T) else i
        lv = self._t.leaves(self._cls)
        es = self._t.size(self._cls)
        return ct.Elem([cst(rdb(ctypes.string_at(self._va.p + es * i + o, s), s, k), k) for o, s, k, p in lv],
                       [p for *_, p in lv])


def cst(v, k):
    if k == "B":
        return TRUE if v else FALSE
    if k in "IU":
        return tm.const(v, "I")
    if isinstance(v, float) and (v != v or abs(v) == math.inf):
        raise Mismatch("non-finite output %r" % v)
    return tm.const(float(v))


def check_real(real, cfg, env, types, f, tol=3e-4, paths=True):
    """see compare_real; a decision within the margin counts only when nothing at all was rounded"""
    num = []
    r = compare_real(real, cfg, env, types, f, tol, paths, num)
    return "skip" if num and num[0].used and num[0].rounded else r


def compare_real(real, cfg, env, types, f, tol, paths, keep):
    """run the real function on env and compare with the specification.
    -> None (agrees), 'skip', or a description of the disagreement"""
    sp, c = cfg.sp, cfg.spec
    fp = cfg.fp
    if not fix_seqs(cfg, env):
        return "skip"
    num = Num(env, 1e-5 if not fp else 0, dyadic=not fp)
    keep.append(num)
    try:
        for r in list(cfg.reqs):
            if num.tri(r) is not True:
                # constrained inputs satisfy their hypotheses by construction; equalities are checked loosely
                if r.op == "eq" and r.args[0].sort == "R":
                    if abs(num.val(r.args[0]) - num.val(r.args[1])) > 1e-6:
                        return "skip"
                    continue
                return "skip"
        th = num.tri(c.throw)
        if th is None:
            return "skip"
    except (Fragile, Undefined, KeyError):
        return "skip"
    mem = Mem(cfg, env, types)
    code, ret = real.call(sp.sig, mem.bufs)
    if code >= 100:
        return "the real code aborts (signal %d)" % (code - 100)
    if th and code == 0:
        return "no exception, but the specification requires one"
    if not th and code:
        if num.tri(c.may_throw) is not False:
            return None
        return "unexpected exception (kind %d)" % code
    if code and c.throw_type:
        want = {"_ZTISt13runtime_error": 1, "_ZTISt16invalid_argument": 2, "std::runtime_error": 1,
                "std::invalid_argument": 2}.get(c.throw_type)
        if want and want != code:
            return "wrong exception type"
    # choose the matching symbolic path for the discriminating comparison
    def close(got, expt, codet):
        if fp:
            e = num.val(expt)
            if expt.sort == "B":
                return bool(got) == bool(e), bool(e)
            return bits(np.float32(got) if expt.sort == "F" else np.float64(got)) == bits(e), e
        e = num.val(expt)
        if isinstance(e, (bool, int)) and not isinstance(e, float):
            return got == e, e
        if got != got or abs(got) == math.inf:
            return False, e
        s = 1 + abs(e) + mem_scale
        if abs(got - e) <= 1e-6 * s:
            return True, e
        if abs(got - e) > tol * s:
            return False, e
        if codet is not None:
            try:
                cv = num.val(codet)
                if abs(got - cv) < 0.02 * abs(got - e) and abs(cv - e) > 2e-6 * s:
                    return False, e
            except (Fragile, Undefined, KeyError):
                pass
        return True, e
    mem_scale = max([abs(v) for k, v in env.items() if isinstance(v, float)] + [0.0]) if not fp else 0
    path = None
    for p in cfg.paths:
        if p["kind"] != ("throw" if code else "ret"):
            continue
        try:
            if all(num.tri(x) is True for x in p["pc"] if x.id not in cfg.hypids):
                path = p
                break
        except (Fragile, Undefined, KeyError):
            continue
    try:
        # modified and unmodified cells
        windows = [("window", "float&", "win", Ptr(d, 0), None) for d in cfg.iters.values()]
        for (name, t, role, a, d) in cfg.params + windows:
            if role == "sret" or not isinstance(a, Ptr):
                continue
            blk = cfg.pre.mem[a.blk]
            if a.blk in cfg.iters and not code:
                e = c.mods.get((a.blk, 0), (8, blk.cells[0][1]))[1]
                got = ctypes.c_void_p.from_buffer(mem.blkbuf[a.blk]).value
                if got != ctypes.addressof(mem.blkbuf[e.blk]) + e.off:
                    return "%s: the iterator is not where the specification requires" % name
                continue
            if a.blk in c.frame_free:
                continue
            buf = mem.blkbuf[a.blk]
            base = re.sub(r"\s*const$", "", t.rstrip("&* ").strip())
            if base.startswith("std::vector"):
                if " const" in t:
                    continue
                if a.blk in cfg.pvecs:
                    sv = next(((n, at) for p, cls, n, at in c.pvecs if p.blk == a.blk), None)
                    if sv is not None and not code:
                        r = cmp_pvec(types, cfg.pvecs[a.blk][2], buf, sv[0], sv[1], num, close)
                        if r:
                            return "%s: %s" % (name, r)
                    continue
                sv = next(((n, at) for p, n, at in c.vecs if p.blk == a.blk), None)
                if a.blk not in cfg.vecs:
                    continue
                if sv is None:
                    n0, nm, _ = cfg.vecs[a.blk]
                    continue
                n, at = sv
                r = cmp_vec(buf, n, at, num, close, code)
                if r:
                    return "%s: %s" % (name, r)
                continue
            kinds = {}
            if types.is_class(base):
                kinds = {a.off + o: (k, p) for o, s, k, p in types.leaves(base)}
            offs = set(blk.cells) | set(o for (b, o) in c.mods if b == a.blk)
            for o in sorted(offs):
                if (a.blk, o) in c.mods:
                    size, e = c.mods[(a.blk, o)]
                    if code or isinstance(e, ct.Havoc):
                        continue
                else:
                    size, e = blk.cells[o]
                if not isinstance(e, tm.T):
                    continue
                k = {"R": "R", "F": "F", "D": "D", "B": "B", "I": "I"}[e.sort]
                got = rd(buf, o, size, k)
                ok, ev = close(got, e, path["out"].get((a.blk, o)) if path and isinstance(path["out"].get((a.blk, o)), tm.T) else None)
                if not ok:
                    return "%s.%s = %r, specification: %r" % (name, kinds.get(o, ("", "+%d" % o))[1], got, ev)
        if code:
            return None
        leaves = None
        if isinstance(c.result, ct.VecResult):
            va = ctypes.cast(ret, ctypes.POINTER(VecArg)).contents
            r = cmp_vec(va, c.result.n, c.result.at, num, close, 0)
            if r:
                return "result: " + r
        elif c.result_ref is not None:
            got = ctypes.cast(ret, ctypes.POINTER(ctypes.c_void_p)).contents.value
            b = mem.blkbuf.get(c.result_ref.blk)
            if b is not None and got != ctypes.addressof(b) + c.result_ref.off:
                return "returns a different object"
        elif c.result is not None or c.post:
            lv = result_leaves(cfg, f, types)
            if lv is not None:
                vals = [rd(ret, o, s, k) for o, s, k, p in lv]
                if c.result is not None:
                    exp = ct.flatten_val(c.result)
                    for i, (g, e) in enumerate(zip(vals, exp)):
                        if isinstance(e, ct.Havoc):
                            continue
                        e = tm.lift(e)
                        cd = path["ret"][i] if path and path["ret"] and isinstance(path["ret"][i], tm.T) else None
                        ok, ev = close(g, e, cd)
                        if not ok:
                            return "result%s = %r, specification: %r" % ("." + lv[i][3] if lv[i][3] else "", g, ev)
                if c.post:
                    leaves = [cst(v, k) if not fp else tm.TRUE if v is True else tm.FALSE if v is False else v for v, (o, s, k, p) in zip(vals, lv)]
        for name, fn in c.post:
            def post(view):
                b = mem.blkbuf[view._ptr.blk]
                if isinstance(view, ct.RView):
                    return cst(rd(b, view._ptr.off, view._size, view._kind), view._kind)
                if isinstance(view, ct.VView):
                    return PostVec(b)
                if isinstance(view, ct.PView):
                    return PostPVec(types, view._cls, b)
                return PostView(types, b, view._ptr.off, view._cls)
            g = fn(leaves, post)
            if Num(env, tol * (1 + mem_scale)).tri(g) is False:
                return "%s does not hold (result %s)" % (name, vals if leaves else "in the modified objects")
    except Mismatch as e:
        return e.what
    except (Fragile, Undefined, KeyError):
        return "skip"
    return None


def cmp_vec(va, n, at, num, close, code):
    nn = num.val(n) if isinstance(n, tm.T) else n
    if code:
        return None
    if va.n != nn:
        return "length %d, specification: %d" % (va.n, nn)
    arr = ctypes.cast(va.p, ctypes.POINTER(ctypes.c_float))
    for i in range(nn):
        ok, ev = close(arr[i], at(tm.const(i, "I")), None)
        if not ok:
            return "[%d] = %r, specification: %r" % (i, arr[i], ev)
    return None


def cmp_pvec(types, cls, va, n, at, num, close):
    nn = num.val(n) if isinstance(n, tm.T) else n
    if va.n != nn:
        return "length %d, specification: %d" % (va.n, nn)
    es = types.size(cls)
    for i in range(nn):
        exp = at(tm.const(i, "I"))
        for (o, s, k, path), e in zip(types.leaves(cls), exp):
            got = rdb(ctypes.string_at(va.p + es * i + o, s), s, k)
            ok, ev = close(got, tm.lift(e), None)
            if not ok:
                return "[%d].%s = %r, specification: %r" % (i, path, got, ev)
    return None


def result_leaves(cfg, f, types):
    ps = cfg.params
    if ps and ps[0][2] == "sret":
        return types.leaves(ct.sret_class(f))
    rt = f.mod.resolve(f.retty)
    return ret_leaves(rt, f.mod, 0)


def ret_leaves(t, mod, off):
    t = mod.resolve(t)
    if t.k == "float":
        return [(off, 4, "R", "")]
    if t.k == "double":
        return [(off, 8, "D", "")]
    if t.k == "int":
        return [(off, max(1, t.a // 8), "B" if t.a == 1 else "I", "")]
    if t.k == "void":
        return []
    if t.k == "struct":
        offs, _ = mod.struct_offsets(t)
        return [x for f, o in zip(t.a, offs) for x in ret_leaves(f, mod, off + o)]
    if t.k in ("vector", "array"):
        es = mod.size(t.b)
        return [x for i in range(t.a) for x in ret_leaves(t.b, mod, off + i * es)]
    return None
