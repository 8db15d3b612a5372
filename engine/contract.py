"""Contracts: machine-checked specifications attached to the real functions (by demangled signature).

A specification is a Python function spec(c, *params) evaluated on the pre-state.  It is used in two ways:
  verify : the body of the function (LLVM IR of /repo's current source) is executed symbolically and every
           outcome must satisfy the specification (obligations);
  apply  : at a call site the specification replaces the body (its requires become obligations).
"""
import re
from fractions import Fraction
import ir
import symex
import term as tm
from term import TRUE, FALSE
from symex import Ptr, State, Outcome, Unsupported

VF = "std::vector<float, std::allocator<float>>"
SPECS = {}          # sig -> Spec (mathematical reals)
SPECS_FP = {}       # sig -> Spec (IEEE-754)
LEMMAS = []         # Lemma


class Spec:
    def __init__(self, sig, fn, props, inputs, aliases, sampler, modular, sem, unroll, opts):
        self.sig, self.fn, self.props, self.inputs = sig, fn, props, inputs or {}
        self.aliases, self.sampler, self.sem, self.unroll = aliases or [], sampler, sem, unroll
        self.modular = modular
        self.opts = opts

    def apply(self, ex, st, args, f):
        return apply_spec(self, ex, st, args, f)


def full(s):
    """short type names in signatures -> full demangled names"""
    s = s.replace("VF", VF)
    return s if s.startswith("AL::") else expand(s)


_CLASSES = ["Transform", "Rotation", "Rotation3D", "Position2D", "Position3D", "Position6D", "Pose2D", "Quaternion",
            "Velocity3D", "Velocity6D", "PositionAndVelocity", "TransformAndVelocity6D", "Displacement",
            "OccupancyMapParams", "Point2Di", "Pose2Di", "dubinsTangent", "Shape3D", "Sphere", "Pill", "Plane",
            "Rectangle", "RoundedRectangle", "HalfLine", "HalfSpace", "Shape3DVisitor"]


# classes outside AL::Math whose layouts are needed
EXTRA_CLASSES = ["AL::Math::DSP::PIDController", "AL::Math::DSP::DigitalFilter"]


def expand(s):
    i = s.index("(")
    if s.startswith("operator()"):
        i = 10
    head, rest = s[:i], s[i:]
    rest = re.sub(r"(?<![\w:])(%s)(?!\w)" % "|".join(_CLASSES), r"AL::Math::\1", rest)
    head = re.sub(r"(?<![\w:])operator", "operator", head)
    return "AL::Math::" + head + rest


def spec(sig, props=(), inputs=None, aliases=None, sampler=None, modular=True, sem="real", unroll=96, **opts):
    def d(fn):
        sigs = [sig] if isinstance(sig, str) else sig
        for s in sigs:
            (SPECS_FP if sem == "fp" else SPECS)[full(s)] = Spec(full(s), fn, tuple(props), inputs, aliases, sampler, modular, sem, unroll, opts)
        return fn
    return d


class Lemma:
    def __init__(self, name, fn, props, opts):
        self.name, self.fn, self.props, self.opts = name, fn, props, opts


def lemma(name, props=(), **opts):
    def d(fn):
        LEMMAS.append(Lemma(name, fn, tuple(props), opts))
        return fn
    return d


# ------------------------------------------------------------------ type information
class Types:
    """record layouts; filled by the driver"""
    def __init__(self, lay):
        self.lay = lay

    def is_class(self, n):
        return n in self.lay

    def leaves(self, n):
        """scalar leaves [(off, size, kind, path)]"""
        out = []
        size, items = self.lay[n]
        for off, ty, path in items:
            if ty.startswith("struct ") or ty == "vptr":
                continue
            k = scalar_kind(ty)
            if k is None:
                if ty.endswith("*") or ty.startswith("std::") or "pointer" in ty or ty.startswith("_"):
                    continue
                raise Unsupported("field type %s of %s" % (ty, n))
            out.append((off,) + k + (path,))
        return out

    def subobjects(self, n):
        return [(off, ty[7:], path) for off, ty, path in self.lay[n][1] if ty.startswith("struct ")]

    def size(self, n):
        return self.lay[n][0]


def scalar_kind(t):
    t = t.replace("const ", "").replace(" const", "").strip()
    return {"float": (4, "R"), "double": (8, "D"), "int": (4, "I"), "unsigned int": (4, "U"), "bool": (1, "B"), "_Bool": (1, "B"),
            "unsigned long": (8, "U"), "long": (8, "I"), "size_t": (8, "U"), "std::size_t": (8, "U"),
            "size_type": (8, "U"), "char": (1, "I")}.get(t)


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_sig(sig):
    """-> (qualified name, [param types], const?)"""
    # find the parameter list: last balanced (...) group
    s = sig
    const = False
    if s.endswith(" const"):
        const = True
        s = s[:-6]
    assert s.endswith(")"), sig
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0:
                break
    return s[:i], split_args(s[i + 1:-1]), const


def signature_params(sig, f, types):
    """[(name, ctype, role)] matching the IR parameters; role: sret/this/arg"""
    q, ps, const = parse_sig(sig)
    irp = list(f.params)
    res = []
    k = 0
    if irp and "sret" in irp[0][2]:
        res.append(("ret", None, "sret"))
        k = 1
    if len(irp) - k == len(ps) + 1:
        cls = q.rsplit("::", 1)[0]
        res.append(("this", cls + (" const&" if const else "&"), "this"))
    elif len(irp) - k != len(ps):
        raise Unsupported("parameters of %s: %d IR vs %d C++" % (sig, len(irp) - k, len(ps)))
    for i, p in enumerate(ps):
        res.append(("a%d" % i, p, "arg"))
    return res


# ------------------------------------------------------------------ views
class SView:
    """an object of class type in memory; attributes read the state the view was taken in"""

    def __init__(self, c, st, ptr, cls, base=0, prefix=""):
        d = self.__dict__
        d["_c"], d["_st"], d["_ptr"], d["_cls"] = c, st, ptr, cls
        d["_memo"] = {}

    def _rd(self, off, size, kind):
        p = self._c.ex.padd(self._ptr, off)
        v = self._c.read(self._st, p, size, kind)
        return v

    def __getattr__(self, n):
        m = self._memo
        if n in m:
            return m[n]
        ty = self._c.types
        for off, size, kind, path in ty.leaves(self._cls):
            if path == n or path.split(".")[-1] == n and path.count(".") == 0:
                m[n] = self._rd(off, size, kind)
                return m[n]
        for off, t, path in ty.subobjects(self._cls):
            if path == n:
                p = self._c.ex.padd(self._ptr, off)
                m[n] = self._c.view(self._st, p, t)
                return m[n]
        raise AttributeError("%s has no member %s" % (self._cls, n))

    def all(self):
        """scalar leaves in memory order"""
        return [self._rd(o, s, k) for o, s, k, _ in self._c.types.leaves(self._cls)]

    def paths(self):
        return [p for *_, p in self._c.types.leaves(self._cls)]


class RView:
    """float& / int& parameter"""
    def __init__(self, c, st, ptr, kind, size):
        self._c, self._ptr, self._kind, self._size = c, ptr, kind, size
        self._st = st

    @property
    def v(self):
        return self._c.read(self._st, self._ptr, self._size, self._kind)


class VView:
    """std::vector<float>"""
    def __init__(self, c, st, ptr):
        self._c, self._ptr, self._st = c, ptr, st
        self.n = symex.vec_len(c.ex, st, ptr)
        self._data = symex.vec_fields(c.ex, st, ptr)[0]

    def at(self, i):
        return symex.read_elem(self._c.ex, self._st, self._data, i)


class IterView:
    """std::vector<float>::iterator& parameter"""
    def __init__(self, c, st, ptr):
        self._c, self._ptr, self._st = c, ptr, st
        self.base = c.ex.load(st, ptr, ir.PTR, c.ex.mod)


class Elem:
    """element of a vector of structs: scalar members by name, all() in memory order"""

    def __init__(self, leaves, paths):
        self._leaves, self._paths = leaves, paths

    def __getattr__(self, n):
        if n.startswith("_") or n not in self._paths:
            raise AttributeError(n)
        return self._leaves[self._paths.index(n)]

    def all(self):
        return list(self._leaves)


class PView:
    """std::vector of plain structs"""

    def __init__(self, c, st, ptr, cls):
        self._c, self._ptr, self._st, self._cls = c, ptr, st, cls
        self._data = symex.vec_fields(c.ex, st, ptr)[0]
        n = symex.vec_len(c.ex, st, ptr, c.types.size(cls))
        self.n = c.ex.cint(n) if isinstance(n, tm.T) else n

    def at(self, i):
        lv = self._c.types.leaves(self._cls)
        return Elem(pvec_elem(self._c.ex, self._st, self._data, self._cls, tm.lift(i, "I")), [p for *_, p in lv])


def pvec_elem(ex, st, data, cls, i):
    if data == symex.NULL:
        raise Unsupported("element of an empty vector")
    q = st.mem[data.blk].seq
    if q is None or data.off != 0:
        raise Unsupported("vector data in an unexpected place")
    return [ex.seq_get(q, i, o, s) for o, s, k, p in ex.types.leaves(cls)]


class Havoc:
    def __init__(self, name="", sort="R"):
        self.name, self.sort = name, sort


class SpecCtx:
    def __init__(self, ex, st, mode, types):
        self.ex, self.st, self.mode, self.types = ex, st, mode, types
        self.reqs, self.throw, self.throw_type, self.may_throw = [], FALSE, None, FALSE
        self.mods = {}            # (blk, off) -> (size, term)
        self.result = None
        self.result_ref = None
        self.post = []            # (name, fn(post views)->term)
        self.havocs = []
        self.vecs = []            # (ptr, n, at)
        self.pvecs = []           # (ptr, class, n, at)
        self.rules = {}
        self.frame_free = set()   # blocks whose contents are unconstrained (scratch)
        self.domain = []
        self.tol = None
        self.assumed = []

    # reading memory
    def read(self, st, p, size, kind):
        ty = {"R": ir.FLOAT, "D": ir.DOUBLE, "I": ir.INT(size * 8), "U": ir.INT(size * 8), "B": ir.INT(8)}[kind]
        v = self.ex.load(st, p, ty, self.ex.mod)
        if kind == "B":
            if isinstance(v, int):
                return TRUE if v & 1 else FALSE
            if isinstance(v, tm.T) and v.sort == "I":
                return self.ex.trunc(v, 8, 1)
            return v
        if kind in "IU":
            if isinstance(v, int):
                M = 1 << (8 * size)
                return tm.const(v - M if kind == "I" and v >= M // 2 else v, "I")
        return v

    def view(self, st, p, t):
        t = t.strip()
        if t.startswith("std::vector<float"):
            return VView(self, st, p)
        m = re.match(r"std::vector<(AL::Math::\w+), std::allocator<\1>\s*>", t)
        if m:
            return PView(self, st, p, m.group(1))
        if self.types.is_class(t):
            return SView(self, st, p, t)
        raise Unsupported("view of type " + t)

    # ---- what a specification says
    def req(self, cond):
        self.reqs.append(cond)

    def throws(self, cond, ty=None):
        self.throw = tm.or_(self.throw, cond)
        if ty:
            self.throw_type = ty

    def may(self, cond=TRUE, ty=None):
        """may also throw when cond holds (whether it does is not specified)"""
        self.may_throw = tm.or_(self.may_throw, cond)
        if ty:
            self.throw_type = ty

    def ret(self, v):
        self.result = v

    def ret_ref(self, view):
        self.result_ref = view._ptr

    def ret_this(self):
        self.result_ref = self._this._ptr

    def put(self, view, *vals):
        """all scalar leaves of an object (memory order)"""
        if len(vals) == 1 and isinstance(vals[0], (list, tuple)):
            vals = vals[0]
        if isinstance(view, RView):
            self.mods[(view._ptr.blk, view._ptr.off)] = (view._size, vals[0])
            return
        lv = self.types.leaves(view._cls)
        assert len(lv) == len(vals), (view._cls, len(lv), len(vals))
        for (o, s, k, _), v in zip(lv, vals):
            self.mods[(view._ptr.blk, view._ptr.off + o)] = (s, tm.lift(v) if not isinstance(v, (tm.T, Havoc)) else v)

    def set(self, view, **kw):
        lv = {p: (o, s) for o, s, k, p in self.types.leaves(view._cls)}
        for n, v in kw.items():
            o, s = lv[n.replace("__", ".")]
            self.mods[(view._ptr.blk, view._ptr.off + o)] = (s, v if isinstance(v, Havoc) else tm.lift(v))

    def put_iter(self, it, vals):
        """writes vals through the iterator and advances it past them"""
        for i, v in enumerate(vals):
            q = self.ex.padd(it.base, 4 * i)
            self.mods[(q.blk, q.off)] = (4, v)
        self.mods[(it._ptr.blk, it._ptr.off)] = (8, self.ex.padd(it.base, 4 * len(vals)))

    def put_vec(self, view, n, at):
        """std::vector<float> output: length n, element i = at(i)"""
        self.vecs.append((view._ptr, n, at))

    def put_pvec(self, view, n, at):
        """std::vector<struct> output: length n, element i has the leaves at(i)"""
        self.pvecs.append((view._ptr, view._cls, n, at))

    def ensures(self, name, f):
        """f(result, post) -> bool term; post(view) re-reads a view in the post-state"""
        self.post.append((name, f))

    def rule(self, v, sq):
        self.rules[v] = sq

    def hint(self, *fs):
        """ghost hints: terms F for which sqrt(F^2) may be read as F wherever F >= 0 is proved"""
        self.rules["hints"] = tuple(self.rules.get("hints", ())) + fs

    def split(self, *conds):
        """ghost case splits for the prover"""
        self.rules["splits"] = tuple(self.rules.get("splits", ())) + conds

    def name_of(self, view):
        """name of the parameter object (prefix of its symbolic inputs)"""
        return self.st.mem[view._ptr.blk].name

    def cls_of_result(self):
        return self._retcls


# ------------------------------------------------------------------ building and taking apart values
def flatten_val(v):
    if isinstance(v, tuple) and v and v[0] == "cells":
        return [tm.const(x - (1 << 8 * m) if x >> (8 * m - 1) else x, "I") if isinstance(x, int) else x for m, x in v[1]]
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flatten_val(x)
        return out
    return [v]


def build_val(leaves, ty, mod, wide=None):
    ty = mod.resolve(ty)
    if wide is None:
        wide = len(leaves) > slots(ty, mod)
    if ty.k == "struct":
        return [build_val(leaves, f, mod, wide) for f in ty.a]
    if ty.k in ("vector", "array"):
        return [build_val(leaves, ty.b, mod, wide) for _ in range(ty.a)]
    if wide and ty.k == "int" and ty.a == 64:
        # two 32-bit members travelling in one register
        return ("cells", tuple((4, leaves.pop(0)) for _ in range(2)))
    return leaves.pop(0)


def slots(ty, mod):
    ty = mod.resolve(ty)
    if ty.k == "struct":
        return sum(slots(f, mod) for f in ty.a)
    return ty.a if ty.k in ("vector", "array") else 1


def make_param_view(c, st, ctype, arg, role):
    t = ctype
    if t.endswith("&") or t.endswith("*"):
        base = t[:-1].strip()
        base = re.sub(r"\s*const$", "", base)
        if base.startswith("__gnu_cxx::__normal_iterator<float*"):
            return IterView(c, st, arg)
        k = scalar_kind(base)
        if k:
            if " const" in t:
                return c.read(st, arg, k[0], k[1])
            return RView(c, st, arg, k[1], k[0])
        return c.view(st, arg, base)
    k = scalar_kind(t)
    if k:
        if isinstance(arg, int):
            M = 1 << (8 * k[0])
            if k[1] == "B":
                return TRUE if arg & 1 else FALSE
            return tm.const(arg - M if k[1] == "I" and arg >= M // 2 else arg, "I")
        if k[1] == "B" and isinstance(arg, tm.T) and arg.sort == "I":
            return c.ex.trunc(arg, 8, 1)
        return arg
    if c.types.is_class(t) and isinstance(arg, Ptr):
        return c.view(st, arg, t)
    if t.startswith("__gnu_cxx::__normal_iterator<float*"):
        return arg
    raise Unsupported("parameter type %s" % t)


def eval_spec(sp, ex, st, args, f, mode, types):
    c = SpecCtx(ex, st, mode, types)
    ps = signature_params(sp.sig, f, types)
    views = []
    for (n, t, role), a in zip(ps, args):
        if role == "sret":
            c._sret = a
            continue
        v = make_param_view(c, st, t, a, role)
        if role == "this":
            c._this = v
        views.append(v)
    c.params = ps
    sp.fn(c, *views)
    return c


def apply_spec(sp, ex, st, args, f):
    types = ex.types
    c = eval_spec(sp, ex, st, args, f, "apply", types)
    for r in c.reqs:
        if st.known(r) is not True:
            ex.obls.append(("precondition of %s" % short(sp.sig), list(st.pc), r, "requires"))
    outs = []
    if c.may_throw is not FALSE:
        c.throw = tm.or_(c.throw, tm.and_(c.may_throw, tm.fresh("refuses", "B")))
    if c.throw is not FALSE:
        k = st.known(c.throw)
        if k is not False:
            s2 = st.fork()
            s2.assume(c.throw)
            if k is None and ex.feas is not None:
                k = ex.feas(st, c.throw)
            if k is not False:
                outs.append(Outcome("throw", s2, None, c.throw_type))
            if k is True:
                return outs
        st.assume(tm.not_(c.throw))
    # modifications
    havoc = {}
    for (blk, off), (size, v) in c.mods.items():
        if isinstance(v, Havoc):
            v = tm.fresh("post", v.sort)
            havoc[(blk, off)] = v
        b = st.wblock(blk)
        ex.store_raw(st, b, off, size, v)
    for ptr, n, at in c.vecs:
        d, nb = symex.new_float_block(ex, st, n if not isinstance(n, tm.T) or not tm.isc(n) else n.data,
                                      lambda i: at(i))
        symex.vec_set(ex, st, ptr, d, nb)
    for ptr, cls, n, at in c.pvecs:
        symex.pvec_new(ex, st, ptr, cls, n, symex.listed_struct_seq(ex, cls, at))
    ret = None
    rt = f.mod.resolve(f.retty)
    resleaves = None
    if c.result_ref is not None:
        ret = c.result_ref
    elif isinstance(c.result, VecResult):
        n = c.result.n
        d, nb = symex.new_float_block(ex, st, n, c.result.at)
        symex.vec_set(ex, st, c._sret, d, nb)
    elif c.result is not None:
        leaves = [tm.fresh("res", x.sort) if isinstance(x, Havoc) else x for x in flatten_val(c.result)]
        resleaves = list(leaves)
        if hasattr(c, "_sret"):
            o = 0
            cls = sret_class(f)
            lv = types.leaves(cls)
            assert len(lv) == len(leaves), (sp.sig, len(lv), len(leaves))
            b = st.wblock(c._sret.blk)
            for (off, size, kind, _), v in zip(lv, leaves):
                ex.store_raw(st, b, c._sret.off + off, size, v)
        else:
            ret = build_val(list(leaves), rt, f.mod)
    for name, fn in c.post:
        g = fn(resleaves, PostReader(c, st))
        st.assume(g)
    outs.append(Outcome("ret", st, ret))
    return outs


class VecResult:
    def __init__(self, n, at):
        self.n, self.at = n, at


class PostReader:
    def __init__(self, c, st):
        self.c, self.st = c, st

    def __call__(self, view):
        if isinstance(view, RView):
            return RView(self.c, self.st, view._ptr, view._kind, view._size).v
        if isinstance(view, VView):
            return VView(self.c, self.st, view._ptr)
        if isinstance(view, PView):
            return PView(self.c, self.st, view._ptr, view._cls)
        return SView(self.c, self.st, view._ptr, view._cls)


def sret_class(f):
    t = f.params[0][2].get("sret")
    if t is None or t.k != "named":
        raise Unsupported("sret type of " + f.name)
    m = re.match(r'%?"?(?:struct|class)\.([^"~]*)', t.a)
    if not m:
        raise Unsupported("sret type " + t.a)
    return re.sub(r"\.\d+$", "", m.group(1))


def short(sig):
    return sig.replace("AL::Math::", "").replace(VF, "vector<float>")
