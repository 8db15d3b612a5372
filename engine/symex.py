"""Symbolic execution of LLVM IR functions into verification conditions.

Callees that are under contract are replaced by their contract (precondition becomes an
obligation, postcondition is assumed); other callees with a body are executed in place; the few
externals (libm, operator new, iostream, libstdc++ allocation) have the assumed contracts listed
in EXTERNALS below.  Floating point is interpreted by a pluggable semantics (RealSem: mathematical
reals; FpSem: IEEE-754 terms).
"""
import math
import re
import subprocess
from fractions import Fraction
import ir
import term as tm
from term import TRUE, FALSE


class Unsupported(Exception):
    """the executor cannot interpret this construct: extraction failure (exit 2)"""


class Ptr:
    __slots__ = ("blk", "off")

    def __init__(self, blk, off=0):
        self.blk, self.off = blk, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.blk == o.blk and (self.off is o.off or self.off == o.off)

    def __hash__(self):
        return hash(self.blk)

    def __repr__(self):
        return "&%s+%s" % (self.blk, self.off)


NULL = Ptr(0, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class Opaque:
    """a value without meaning to the proof (stream objects, exception headers)"""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "opaque(%s)" % self.why


class Block:
    __slots__ = ("id", "size", "cells", "owner", "name", "seq", "const", "ghost")

    def __init__(self, id, size, name, owner):
        self.id, self.size, self.name, self.owner = id, size, name, owner
        self.cells = {}
        self.seq = None
        self.const = False
        self.ghost = None

    def clone(self, owner):
        b = Block(self.id, self.size, self.name, owner)
        b.cells = dict(self.cells)
        b.seq = self.seq
        b.const = self.const
        b.ghost = self.ghost
        return b


class SeqBase:
    """contents of a symbolic-length array: element (index, field offset) -> value"""

    def __init__(self, name, esize, length, getter):
        self.name, self.esize, self.length, self.getter = name, esize, length, getter

    def get(self, idx, fld, nbytes):
        return self.getter(idx, fld, nbytes)


class Seq:
    __slots__ = ("base", "upd")

    def __init__(self, base, upd=()):
        self.base, self.upd = base, upd


def named_float_seq(name, n, sort="R"):
    def g(idx, fld, nbytes):
        if nbytes != 4 or fld != 0:
            raise Unsupported("seq access of %d bytes at field %d of %s" % (nbytes, fld, name))
        return tm.mk("sel", (idx,), sort, name)
    return SeqBase(name, 4, n, g)


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class State:
    __slots__ = ("mem", "pc", "pcs", "notes", "tok")

    def __init__(self):
        self.tok = object()      # blocks owned by this token may be written in place
        self.mem = {}
        self.pc = []
        self.pcs = set()
        self.notes = []

    def fork(self):
        s = State()
        self.tok = object()      # from here on both states copy before writing
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.notes = list(self.notes)
        return s

    def assume(self, c):
        if c is TRUE or c.id in self.pcs:
            return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        self.pc.append(c)
        self.pcs.add(c.id)

    def known(self, c):
        if c is TRUE or c.id in self.pcs:
            return True
        if c is FALSE or tm.not_(c).id in self.pcs:
            return False
        if c.op == "and":
            r = [self.known(x) for x in c.args]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
        if c.op == "or":
            r = [self.known(x) for x in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
        return None

    def alloc(self, size, name):
        b = Block(newid(), size, name, self.tok)
        self.mem[b.id] = b
        return Ptr(b.id, 0)

    def wblock(self, bid):
        b = self.mem[bid]
        if b.owner is not self.tok:
            b = b.clone(self.tok)
            self.mem[bid] = b
        return b


# ------------------------------------------------------------------ float semantics
_PIM = {}


def pi_multiple(v):
    """k with v == k*pi to within one single-precision rounding (k = p/q, small), or None"""
    if v in _PIM:
        return _PIM[v]
    import math
    r = None
    a = abs(v)
    if 0.017 < a < 60 and a != int(a):
        for q in (1, 2, 3, 4, 6, 180):
            p = round(a * q / math.pi)
            if p == 0 or p > 12 or (q == 180 and p != 1):
                continue
            if abs(a / (p * math.pi / q) - 1) < 6e-8:
                r = Fraction(p, q) * (1 if v > 0 else -1)
                break
    _PIM[v] = r
    return r


class RealSem:
    name = "real"

    def sort(self, ty):
        return "R"

    def const(self, v, ty):
        k = pi_multiple(v)
        if k is not None:
            return tm.mul(tm.const(k), tm.PI)
        if abs(v) > 57.2957 and abs(abs(v) / 57.29577951308232 - 1) < 6e-8:
            return tm.div(tm.const(180 if v > 0 else -180), tm.PI)
        if abs(v) > 0.1 and abs(abs(v) * math.pi ** 2 - 1) < 1.2e-7:
            return tm.div(tm.const(1 if v > 0 else -1), tm.mul(tm.PI, tm.PI))
        return tm.const(v, "R")

    def bin(self, op, a, b, ty):
        if op == "frem":
            return tm.fn("fmod", a, b)
        return {"fadd": tm.add, "fsub": tm.sub, "fmul": tm.mul, "fdiv": tm.div}[op](a, b)

    def neg(self, a):
        return tm.neg(a)

    def cmp(self, pred, a, b):
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        if pred == "ord":
            return TRUE
        if pred == "uno":
            return FALSE
        p = pred[1:]
        return {"eq": tm.eq, "ne": tm.ne, "lt": tm.lt, "le": tm.le,
                "gt": lambda x, y: tm.lt(y, x), "ge": lambda x, y: tm.le(y, x)}[p](a, b)

    def cast(self, a, src, dst):
        return a

    def itof(self, a, ty, signed, bits=64):
        if isinstance(a, int):
            if signed and a >= 1 << (bits - 1):
                a -= 1 << bits
            return tm.const(a, "R")
        if a.op == "ite" and tm.isc(a.args[1]) and tm.isc(a.args[2]):
            return tm.ite(a.args[0], tm.const(a.args[1].data), tm.const(a.args[2].data))
        return tm.itor(a)

    def ftoi(self, a, ty, signed):
        if tm.isc(a):
            v = int(a.data)
            return v
        return tm.mk("trunc_i", (a,), "I")

    def fn(self, name, args, ty):
        if name == "pow":
            b, e = args
            if tm.isc(e):
                v = e.data
                if v.denominator == 1 and 0 <= v <= 16:
                    return b ** int(v)
                if v == Fraction(1, 2):
                    return tm.sqrt(b)
                if v.denominator == 1 and -16 <= v < 0:
                    return tm.div(tm.const(1), b ** int(-v))
            raise Unsupported("pow with symbolic exponent")
        if name == "fabs":
            return tm.absr(args[0])
        if name == "fmod":
            return tm.fn("fmod", *args)
        if name in ("fmin", "fmax"):
            return (tm.rmin if name == "fmin" else tm.rmax)(*args)
        if name == "hypot":
            return tm.sqrt(args[0] * args[0] + args[1] * args[1])
        if name in ("isnan", "isinf"):
            return FALSE
        if name == "copysign":
            return tm.ite(tm.le(0, args[1]), tm.absr(args[0]), tm.neg(tm.absr(args[0])))
        return tm.fn(name, *args)


class FpSem:
    """bit-precise IEEE-754 (round to nearest even); sorts F (single) and D (double)"""
    name = "ieee"

    def sort(self, ty):
        return "F" if ty.k == "float" else "D"

    def const(self, v, ty):
        return fpc(v, self.sort(ty))

    def bin(self, op, a, b, ty):
        s = a.sort
        if op == "frem":
            return tm.mk("fp.fn", (a, b), s, "fmod")
        o = {"fadd": "fp.add", "fsub": "fp.sub", "fmul": "fp.mul", "fdiv": "fp.div"}[op]
        if o in ("fp.add", "fp.mul") and a.id > b.id:
            a, b = b, a      # IEEE addition/multiplication are commutative (NaN payloads aside)
        return tm.mk(o, (a, b), s)

    def neg(self, a):
        return tm.mk("fp.neg", (a,), a.sort)

    def cmp(self, pred, a, b):
        un = tm.or_(isnan(a), isnan(b))
        if pred == "ord":
            return tm.not_(un)
        if pred == "uno":
            return un
        p = pred[1:]
        base = {"eq": fpeq, "ne": lambda x, y: tm.and_(tm.not_(un), tm.not_(fpeq(x, y))),
                "lt": fplt, "le": fple, "gt": lambda x, y: fplt(y, x),
                "ge": lambda x, y: fple(y, x)}[p](a, b)
        if pred[0] == "u":
            if pred == "une":
                return tm.not_(fpeq(a, b))
            # unordered predicate = not (ordered opposite)
            opp = {"eq": "one", "lt": "oge", "le": "ogt", "gt": "ole", "ge": "olt"}[p]
            return tm.not_(self.cmp(opp, a, b))
        return base

    def cast(self, a, src, dst):
        if src.k == dst.k:
            return a
        if dst.k == "float":
            if a.op == "fp.to_d":
                return a.args[0]
            return tm.mk("fp.to_f", (a,), "F")
        return tm.mk("fp.to_d", (a,), "D")

    def itof(self, a, ty, signed, bits=64):
        if isinstance(a, int):
            if signed and a >= 1 << (bits - 1):
                a -= 1 << bits
            return fpc(float(a), self.sort(ty))
        if a.op == "ite" and tm.isc(a.args[1]) and tm.isc(a.args[2]):
            s = self.sort(ty)
            return tm.mk("ite", (a.args[0], fpc(float(a.args[1].data), s), fpc(float(a.args[2].data), s)), s)
        raise Unsupported("int->fp in IEEE mode")

    def ftoi(self, a, ty, signed):
        raise Unsupported("fp->int in IEEE mode")

    def fn(self, name, args, ty):
        s = args[0].sort
        if name == "fabs":
            return fpabs(args[0])
        if name == "sqrt":
            return tm.mk("fp.sqrt", args, s)
        if name == "isnan":
            return isnan(args[0])
        return tm.mk("fp.fn", args, s, name)


def fpc(v, s):
    import struct as st
    if s == "F":
        v = tm.f32(v)
    key = st.pack(">d", v)
    return tm.mk("const", (), s, FpConst(v, key))


class FpConst(float):
    def __new__(cls, v, key):
        o = float.__new__(cls, v)
        o.key = key
        return o

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, FpConst) and o.key == self.key


def isnan(a):
    return tm.mk("fp.isnan", (a,), "B")


def fplt(a, b):
    return tm.mk("lt", (a, b), "B")


def fple(a, b):
    return tm.mk("le", (a, b), "B")


def fpeq(a, b):
    if a.id > b.id:
        a, b = b, a
    return tm.mk("eq", (a, b), "B")


def fpabs(a):
    # |x - y| and |y - x| are the same IEEE value: canonical order
    if a.op == "fp.neg":
        a = a.args[0]
    if a.op == "fp.sub" and a.args[0].id > a.args[1].id:
        a = tm.mk("fp.sub", (a.args[1], a.args[0]), a.sort)
    if a.op == "abs":
        return a
    return tm.mk("abs", (a,), a.sort)


# ------------------------------------------------------------------ outcomes
class Outcome:
    __slots__ = ("kind", "state", "value", "info", "regs", "blk", "prev")

    def __init__(self, kind, state, value=None, info=None, regs=None, blk=None, prev=None):
        self.kind, self.state, self.value, self.info = kind, state, value, info
        self.regs, self.blk, self.prev = regs, blk, prev


LIBM = {}
for _n in ("sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "pow", "fmod", "exp", "log",
           "fabs", "floor", "ceil", "fmin", "fmax", "hypot", "round", "copysign"):
    LIBM[_n] = _n
    LIBM[_n + "f"] = _n


def demangle(names):
    names = list(names)
    if not names:
        return {}
    out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), text=True,
                         capture_output=True, check=True).stdout.split("\n")
    return dict(zip(names, out))


def as_flag(v):
    """a 0/1 byte as a truth value, or None"""
    if isinstance(v, int):
        return {0: tm.FALSE, 1: tm.TRUE}.get(v)
    if isinstance(v, tm.T):
        if v.sort == "B":
            return v
        if v.op == "ite" and all(tm.isc(x) and x.data in (0, 1) for x in v.args[1:]):
            a, b = v.args[1].data, v.args[2].data
            return v.args[0] if a > b else tm.not_(v.args[0]) if b > a else (tm.TRUE if a else tm.FALSE)
        if tm.isc(v) and v.data in (0, 1):
            return tm.TRUE if v.data else tm.FALSE
        if v.op == "ite":
            x, y = as_flag(v.args[1]), as_flag(v.args[2])
            if x is not None and y is not None:
                return tm.ite(v.args[0], x, y)
    return None


def of_flag(b):
    if b is tm.TRUE or b is tm.FALSE:
        return 1 if b is tm.TRUE else 0
    return tm.ite(b, tm.const(1, "I"), tm.const(0, "I"))


class Exec:
    def __init__(self, mod, sem=None, contracts=None, unroll=96, maxpaths=3000, feas=None):
        self.mod = mod
        self.sem = sem or RealSem()
        self.contracts = contracts or {}     # demangled sig -> Contract
        self.unroll = unroll
        self.maxpaths = maxpaths
        self.npaths = 0
        self.obls = []                       # callee preconditions etc: (name, pc, goal)
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.dem = getattr(mod, "_dem", None)
        if self.dem is None:
            self.dem = mod._dem = demangle(set(mod.functions) | set(mod.decls) | set(mod.aliases))
        self.feas = feas                     # callable(state, cond) -> bool (may be infeasible)
        self.depth = 0
        self.globals = {}
        self.undefs = 0
        self.loop_hook = None
        self.loop_skip = None
        self.loop_no = set()
        self.loops_done = []
        self.assumptions = set()
        self.top = None
        self.split_select = False            # 64-bit selects make two paths instead of a merged (symbolic) index
        self.local_contracts = []            # (regex, handler): contracts of functions outside AL::Math, proved by a lemma
        self.no_model = None                 # functions whose model is not used: their code is executed

    # ---------------------------------------------------------------- memory
    def global_ptr(self, st, name):
        if name in self.mod.aliases:
            name = self.mod.aliases[name]
        if name in self.mod.functions or name in self.mod.decls:
            return FnPtr(name)
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported("global @%s" % name)
        key = "@" + name
        bid = self.globals.get(key)
        if bid is None:
            bid = self.globals[key] = newid()
        if bid not in st.mem:
            if g["init"] is None:
                b = Block(bid, 1 << 40, key, st)
                b.const = True
                b.ghost = "external"
                st.mem[bid] = b
            else:
                try:
                    sz = g["mod"].size(g["type"])
                except ir.IRError:
                    sz = 1 << 40
                b = Block(bid, sz, key, st)
                st.mem[bid] = b
                b.const = g["const"]
                if g["const"]:
                    self.init_const(st, b, 0, g["type"], g["init"], g["mod"])
                else:
                    b.ghost = "mutable-global"
        return Ptr(bid, 0)

    def init_const(self, st, b, off, ty, v, mod):
        ty = mod.resolve(ty)
        k = v[0]
        if k == "zero":
            if ty.k in ("array", "struct", "vector"):
                if ty.k == "struct":
                    offs, _ = mod.struct_offsets(ty)
                    for f, o in zip(ty.a, offs):
                        self.init_const(st, b, off + o, f, v, mod)
                else:
                    es = mod.size(ty.b)
                    for i in range(ty.a):
                        self.init_const(st, b, off + i * es, ty.b, v, mod)
            else:
                b.cells[off] = (mod.size(ty), self.zero(ty))
        elif k == "agg":
            if ty.k == "struct":
                offs, _ = mod.struct_offsets(ty)
            else:
                es = mod.size(ty.b)
                offs = [i * es for i in range(ty.a)]
            for (et, ev), o in zip(v[1], offs):
                self.init_const(st, b, off + o, et, ev, mod)
        elif k in ("cstr", "undef", "unparsed"):
            pass
        elif k in ("int", "fp", "null"):
            b.cells[off] = (mod.size(ty), self.cval(v, ty))
        elif k in ("glob", "cgep", "ccast"):
            b.cells[off] = (mod.size(ty), ("lazy", ty, v))
        else:
            raise Unsupported("constant initialiser " + k)

    def zero(self, ty):
        if ty.k in ("float", "double"):
            return self.sem.const(0.0, ty)
        if ty.k == "ptr":
            return NULL
        if ty.k == "int":
            return FALSE if ty.a == 1 else 0
        raise Unsupported("zero of %r" % ty)

    def cval(self, v, ty):
        if v[0] == "int":
            if ty.a == 1:
                return TRUE if v[1] & 1 else FALSE
            return v[1] % (1 << ty.a)
        if v[0] == "fp":
            return self.sem.const(v[1], ty)
        if v[0] == "null":
            return NULL
        raise Unsupported("const %r" % (v,))

    def undef(self, ty, why="undef"):
        self.undefs += 1
        if ty.k in ("float", "double"):
            return tm.fresh("undef", self.sem.sort(ty))
        if ty.k == "int":
            return tm.fresh("undef", "B" if ty.a == 1 else "I")
        if ty.k == "ptr":
            return Opaque(why)
        raise Unsupported("undef of %r" % ty)

    def load(self, st, p, ty, mod):
        ty = mod.resolve(ty)
        if ty.k in ("struct",):
            offs, _ = mod.struct_offsets(ty)
            return [self.load(st, self.padd(p, o), f, mod) for f, o in zip(ty.a, offs)]
        if ty.k in ("vector", "array"):
            es = mod.size(ty.b)
            return [self.load(st, self.padd(p, i * es), ty.b, mod) for i in range(ty.a)]
        n = mod.size(ty)
        if isinstance(p, Opaque):
            return self.undef(ty, "load through opaque pointer")
        if not isinstance(p, Ptr) or p.blk == 0:
            raise Unsupported("load through %r" % (p,))
        b = st.mem.get(p.blk)
        if b is None:
            raise Unsupported("load from dead block")
        if b.ghost in ("external", "mutable-global"):
            if b.ghost == "mutable-global":
                raise Unsupported("read of mutable global %s" % b.name)
            return self.undef(ty, "external global " + b.name)
        v = self.load_raw(st, b, p.off, n, ty)
        if isinstance(v, tuple) and v and v[0] == "lazy":
            return self.val(st, {}, v[2], v[1], mod)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if ty.k == "int":
            if ty.a == 1:
                if isinstance(v, int):
                    return TRUE if v & 1 else FALSE
                if isinstance(v, tm.T) and v.sort == "I":
                    return self.trunc(v, 8, 1)
            elif isinstance(v, tm.T) and v.sort == "B":
                return tm.ite(v, tm.const(1, "I"), tm.const(0, "I"))
            elif isinstance(v, tm.T) and v.sort in "RFD":
                return v      # bit pattern moved through an integer register
            elif isinstance(v, tm.T) and tm.isc(v):
                return v.data % (1 << ty.a)
        if ty.k in ("float", "double") and isinstance(v, int):
            if v == 0:
                return self.sem.const(0.0, ty)
            raise Unsupported("integer bits reinterpreted as float")
        return v

    def load_raw(self, st, b, off, n, ty):
        off = self.cint(off)
        if b.seq is not None:
            return self.seq_read(st, b, off, n)
        if not isinstance(off, int):
            return self.sym_read(st, b, off, n, ty)
        c = b.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if c is None:
            # any overlapping cell?
            for o, (m, v) in b.cells.items():
                if o < off + n and off < o + m:
                    if isinstance(v, int) and o <= off and off + n <= o + m:
                        return (v >> (8 * (off - o))) & ((1 << (8 * n)) - 1)
                    return self.combine(b, off, n, ty)
            if off < 0 or off + n > b.size:
                raise Unsupported("out of bounds read %s+%d" % (b.name, off))
            return self.undef(ty, "uninitialised %s+%d" % (b.name, off))
        if c[0] > n and isinstance(c[1], int):
            return c[1] & ((1 << (8 * n)) - 1)
        return self.combine(b, off, n, ty)

    def combine(self, b, off, n, ty):
        # several smaller cells making one integer (memcpy-style struct moves)
        parts, o = [], off
        while o < off + n:
            c = b.cells.get(o)
            if c is None:
                if ty.k == "int":
                    return Opaque("partial")
                raise Unsupported("partial read %s+%d" % (b.name, off))
            parts.append(c)
            o += c[0]
        if o != off + n:
            raise Unsupported("partial read %s+%d" % (b.name, off))
        if all(isinstance(v, int) for _, v in parts):
            r, s = 0, 0
            for m, v in parts:
                r |= v << s
                s += 8 * m
            return r
        return ("cells", tuple(parts))

    def cint(self, o):
        if isinstance(o, tm.T) and tm.isc(o):
            return o.data
        return o

    def sym_read(self, st, b, off, n, ty):
        """symbolic offset into a block of known cells: case split over the cells (ite chain)"""
        cand = [(o, v) for o, (m, v) in sorted(b.cells.items()) if m == n]
        if not cand or len(cand) > 64:
            raise Unsupported("symbolic offset read in %s" % b.name)
        r = None
        for o, v in reversed(cand):
            if not isinstance(v, (tm.T, int)):
                raise Unsupported("symbolic offset read of pointers")
            if isinstance(v, int):
                v = tm.const(v, "I")
            r = v if r is None else tm.ite(tm.eq(tm.lift(off, "I"), tm.const(o, "I")), v, r)
        self.obls.append(("read at a symbolic index is in bounds", list(st.pc),
                          tm.or_(*[tm.eq(tm.lift(off, "I"), tm.const(o, "I")) for o, _ in cand]), "bounds"))
        return r

    def seq_index(self, b, off):
        es = b.seq.base.esize
        off = tm.lift(off, "I")
        c, d = tm.lin_of(off)
        fld = c % es
        if any(k % es for k in d.values()):
            raise Unsupported("unaligned symbolic offset")
        return tm.mklin((c - fld) // es, {x: k // es for x, k in d.items()}), fld

    def seq_read(self, st, b, off, n, check=True):
        idx, fld = self.seq_index(b, off)
        if check:
            g = tm.and_(tm.le(tm.const(0, "I"), idx), tm.lt(idx, b.seq.base.length))
            if st.known(g) is not True:
                self.obls.append(("read of %s is in bounds" % b.name, list(st.pc), g, "bounds"))
        return self.seq_get(b.seq, idx, fld, n)

    def leaf_sort(self, k):
        return self.sem.sort(ir.FLOAT if k == "R" else ir.DOUBLE) if k in "RD" else "I" if k in "IU" else k

    def seq_get(self, seq, idx, fld, n):
        chain = []
        for (i, f, m, v) in reversed(seq.upd):
            if f != fld:
                continue
            if m != n:
                raise Unsupported("mixed-size seq access")
            e = tm.eq(i, idx)
            if e is TRUE:
                r = v
                break
            if e is FALSE:
                continue
            chain.append((e, v))
        else:
            r = seq.base.get(idx, fld, n)
        for e, v in reversed(chain):
            r = _ite(e, v, r)
        return r

    def store(self, st, p, v, ty, mod):
        ty = mod.resolve(ty)
        if ty.k == "struct":
            offs, _ = mod.struct_offsets(ty)
            for x, f, o in zip(v, ty.a, offs):
                self.store(st, self.padd(p, o), x, f, mod)
            return
        if ty.k in ("vector", "array"):
            es = mod.size(ty.b)
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * es), x, ty.b, mod)
            return
        n = mod.size(ty)
        if isinstance(p, Opaque):
            return
        if not isinstance(p, Ptr) or p.blk == 0:
            raise Unsupported("store through %r" % (p,))
        b = st.mem.get(p.blk)
        if b is None:
            raise Unsupported("store to dead block")
        if b.const or b.ghost == "mutable-global":
            if b.ghost == "external":
                return
            raise Unsupported("store to global %s" % b.name)
        b = st.wblock(p.blk)
        self.store_raw(st, b, p.off, n, v)

    def store_raw(self, st, b, off, n, v):
        off = self.cint(off)
        if b.seq is not None:
            idx, fld = self.seq_index(b, off)
            g = tm.and_(tm.le(tm.const(0, "I"), idx), tm.lt(idx, b.seq.base.length))
            if st.known(g) is not True:
                self.obls.append(("write to %s is in bounds" % b.name, list(st.pc), g, "bounds"))
            upd = tuple(u for u in b.seq.upd if not (u[0] is idx and u[1] == fld))
            b.seq = Seq(b.seq.base, upd + ((idx, fld, n, v),))
            return
        if not isinstance(off, int):
            cand = [(o, x) for o, (m, x) in sorted(b.cells.items()) if m == n]
            if not cand or len(cand) > 64:
                raise Unsupported("symbolic offset write in %s" % b.name)
            if isinstance(v, int):
                v = tm.const(v, "I")
            for o, x in cand:
                if isinstance(x, int):
                    x = tm.const(x, "I")
                b.cells[o] = (n, tm.ite(tm.eq(tm.lift(off, "I"), tm.const(o, "I")), v, x))
            self.obls.append(("write at a symbolic index is in bounds", list(st.pc),
                              tm.or_(*[tm.eq(tm.lift(off, "I"), tm.const(o, "I")) for o, _ in cand]), "bounds"))
            return
        if off < 0 or off + n > b.size:
            raise Unsupported("out of bounds write %s+%d" % (b.name, off))
        if isinstance(v, tuple) and v and v[0] == "cells":
            o = off
            for m, x in v[1]:
                self.store_raw(st, b, o, m, x)
                o += m
            return
        c = b.cells.get(off)
        if c is None or c[0] != n:
            for o in [o for o, (m, _) in b.cells.items() if o < off + n and off < o + m]:
                m, x = b.cells.pop(o)
                if isinstance(x, int):
                    for i in range(m):
                        if not (off <= o + i < off + n):
                            b.cells[o + i] = (1, (x >> (8 * i)) & 255)
                elif o < off or o + m > off + n:
                    pass        # partially overwritten: the rest becomes undefined
        b.cells[off] = (n, v)

    def padd(self, p, k):
        if isinstance(p, Opaque):
            return p
        if isinstance(k, int) and k == 0:
            return p
        if not isinstance(p, Ptr):
            raise Unsupported("pointer arithmetic on %r" % (p,))
        if isinstance(p.off, int) and isinstance(k, int):
            return Ptr(p.blk, p.off + k)
        r = tm.add(tm.lift(p.off, "I"), tm.lift(k, "I"))
        return Ptr(p.blk, self.cint(r))

    def memcpy(self, st, d, s, n):
        if isinstance(n, tm.T):
            n = self.cint(n)
        if isinstance(d, Opaque) or isinstance(s, Opaque):
            return
        if isinstance(n, int) and n == 0:
            return
        sb = st.mem[s.blk]
        if sb.seq is not None or st.mem[d.blk].seq is not None or not isinstance(n, int) or \
                not isinstance(s.off, int) or not isinstance(d.off, int):
            return self.memcpy_seq(st, d, s, n)
        items = [(o - s.off, m, v) for o, (m, v) in sb.cells.items() if s.off <= o < s.off + n]
        db = st.wblock(d.blk)
        if db.const:
            raise Unsupported("memcpy to constant")
        for o in [o for o in db.cells if d.off <= o < d.off + n]:
            del db.cells[o]
        for o, m, v in items:
            if o + m > n:
                raise Unsupported("memcpy splits a cell")
            if isinstance(v, tuple) and v and v[0] == "lazy":
                v = self.val(st, {}, v[2], v[1], self.mod)
            db.cells[d.off + o] = (m, v)

    def memcpy_seq(self, st, d, s, n):
        """copy between a symbolic array and plain cells (concrete length), or whole array"""
        sb, db = st.mem[s.blk], st.mem[d.blk]
        if isinstance(n, int) and n <= 64 * 4 and n % 4 == 0:
            vals = []
            for o in range(0, n, 4):
                vals.append(self.load_raw(st, st.mem[s.blk], self.padd(s, o).off, 4, ir.FLOAT))
            for k, o in enumerate(range(0, n, 4)):
                self.store_raw(st, st.wblock(d.blk), self.padd(d, o).off, 4, vals[k])
            return
        if sb.seq is not None and db.seq is not None and s.off == 0 and d.off == 0:
            ln = tm.mul(tm.const(sb.seq.base.esize, "I"), tm.lift(sb.seq.base.length, "I"))
            if tm.eq(ln, tm.lift(n, "I")) is TRUE and sb.seq.base.esize == db.seq.base.esize and \
                    tm.eq(tm.lift(sb.seq.base.length, "I"), tm.lift(db.seq.base.length, "I")) is TRUE:
                st.wblock(d.blk).seq = sb.seq
                return
        raise Unsupported("memcpy of symbolic extent")

    # ---------------------------------------------------------------- values
    def val(self, st, regs, v, ty, mod):
        k = v[0]
        if k == "reg":
            return regs[v[1]]
        if k == "int" or k == "fp" or k == "null":
            return self.cval(v, ty)
        if k == "glob":
            return self.global_ptr(st, v[1])
        if k == "undef":
            rt = mod.resolve(ty)
            return self.undef_agg(rt, mod)
        if k == "zero":
            return self.zero_agg(mod.resolve(ty), mod)
        if k == "agg":
            return [self.val(st, regs, x, t, mod) for t, x in v[1]]
        if k == "cgep":
            t, ops = v[1], v[2]
            base = self.val(st, regs, ops[0][1], ops[0][0], mod)
            return self.gep(st, regs, t, base, ops[1:], mod)
        if k == "ccast":
            x = self.val(st, regs, v[3], v[2], mod)
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return x
        raise Unsupported("operand %r" % (v,))

    def undef_agg(self, ty, mod):
        if ty.k == "struct":
            return [self.undef_agg(mod.resolve(f), mod) for f in ty.a]
        if ty.k in ("array", "vector"):
            return [self.undef_agg(mod.resolve(ty.b), mod) for _ in range(ty.a)]
        return self.undef(ty)

    def zero_agg(self, ty, mod):
        if ty.k == "struct":
            return [self.zero_agg(mod.resolve(f), mod) for f in ty.a]
        if ty.k in ("array", "vector"):
            return [self.zero_agg(mod.resolve(ty.b), mod) for _ in range(ty.a)]
        return self.zero(ty)

    def gep(self, st, regs, t, base, idx, mod):
        p = base
        first = True
        cur = t
        for (it, iv) in idx:
            i = self.val(st, regs, iv, it, mod)
            if isinstance(i, int) and i >= 1 << (it.a - 1):
                i -= 1 << it.a
            if isinstance(i, tm.T) and tm.isc(i):
                i = i.data
            if first:
                sz = mod.size(cur)
                first = False
                p = self.padd(p, i * sz if isinstance(i, int) else tm.mul(tm.const(sz, "I"), i))
                continue
            cur = mod.resolve(cur)
            if cur.k == "struct":
                offs, _ = mod.struct_offsets(cur)
                p = self.padd(p, offs[i])
                cur = cur.a[i]
            elif cur.k in ("array", "vector"):
                sz = mod.size(cur.b)
                p = self.padd(p, i * sz if isinstance(i, int) else tm.mul(tm.const(sz, "I"), i))
                cur = cur.b
            else:
                raise Unsupported("gep into %r" % cur)
        return p

    # ---------------------------------------------------------------- integers
    def trunc(self, a, nfrom, n):
        if isinstance(a, int):
            r = a & ((1 << n) - 1)
            return (TRUE if r else FALSE) if n == 1 else r
        if n == 1:
            if a.op == "ite" and tm.isc(a.args[1]) and tm.isc(a.args[2]):
                p, q = a.args[1].data & 1, a.args[2].data & 1
                if p and not q:
                    return a.args[0]
                if q and not p:
                    return tm.not_(a.args[0])
            if a.op == "ite":
                return tm.ite(a.args[0], self.trunc(a.args[1], nfrom, 1), self.trunc(a.args[2], nfrom, 1))
            if tm.isc(a):
                return TRUE if a.data & 1 else FALSE
            raise Unsupported("trunc of symbolic integer to i1: %r" % a)
        self.assumptions.add("symbolic machine integers are treated as mathematical integers (no wrap-around)")
        return a

    def ibin(self, op, a, b, n, st):
        if isinstance(a, tm.T) and tm.isc(a) and a.sort == "I":
            a = a.data % (1 << n)
        if isinstance(b, tm.T) and tm.isc(b) and b.sort == "I":
            b = b.data % (1 << n)
        if n == 1:
            if op == "and":
                return tm.and_(a, b)
            if op == "or":
                return tm.or_(a, b)
            if op == "xor":
                return tm.not_(tm.iff(a, b))
            raise Unsupported("i1 " + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("int")
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.blk != b.blk:
                    raise Unsupported("difference of unrelated pointers")
                if isinstance(a.off, int) and isinstance(b.off, int):
                    return (a.off - b.off) % (1 << n)
                return self.simp(tm.sub(tm.lift(a.off, "I"), tm.lift(b.off, "I")), n)
            if op == "add" and isinstance(a, Ptr):
                return self.padd(a, b)
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, int) and isinstance(b, int):
            M = 1 << n
            sg = lambda x: x - M if x >= M // 2 else x
            if op == "add": r = a + b
            elif op == "sub": r = a - b
            elif op == "mul": r = a * b
            elif op == "and": r = a & b
            elif op == "or": r = a | b
            elif op == "xor": r = a ^ b
            elif op == "shl": r = a << b
            elif op == "lshr": r = a >> b
            elif op == "ashr": r = sg(a) >> b
            elif op in ("udiv", "urem"):
                if b == 0:
                    raise Unsupported("integer division by zero")
                r = a // b if op == "udiv" else a % b
            elif op in ("sdiv", "srem"):
                x, y = sg(a), sg(b)
                if y == 0:
                    raise Unsupported("integer division by zero")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == "sdiv" else x - q * y
            return r % M
        if op in ("and", "or", "xor"):
            x, y = as_flag(a), as_flag(b)
            if x is not None and y is not None:
                return of_flag(tm.and_(x, y) if op == "and" else tm.or_(x, y) if op == "or" else tm.not_(tm.iff(x, y)))
        M = 1 << n
        sgl = lambda x: tm.const(x - M if x >= M // 2 else x, "I") if isinstance(x, int) else x
        A, B = sgl(a), sgl(b)
        for z in (A, B):
            if not isinstance(z, tm.T) or z.sort != "I":
                raise Unsupported("integer operation %s on %r" % (op, z))
        self.assumptions.add("symbolic machine integers are treated as mathematical integers (no wrap-around)")
        if op == "add":
            return self.simp(tm.add(A, B), n)
        if op == "sub":
            return self.simp(tm.sub(A, B), n)
        if op == "mul":
            return self.simp(tm.mul(A, B), n)
        if op in ("sdiv", "udiv") and isinstance(b, int) and b != 0:
            q = tm.idiv_exact(A, b)
            if q is not None:
                return self.simp(q, n)
            if st.known(tm.le(tm.const(0, "I"), A)):
                return tm.div(A, B)
        if op in ("ashr", "lshr") and isinstance(b, int):
            q = tm.idiv_exact(A, 1 << b)
            if q is not None:
                return self.simp(q, n)
            if st.known(tm.le(tm.const(0, "I"), A)):
                return tm.div(A, tm.const(1 << b, "I"))
        if op in ("urem", "srem") and isinstance(b, int):
            if tm.idiv_exact(A, b) is not None:
                return 0
            if st.known(tm.le(tm.const(0, "I"), A)):
                return tm.sub(A, tm.mul(tm.const(b, "I"), tm.div(A, B)))
        if op in ("urem", "srem") and isinstance(B, tm.T) and not isinstance(b, int):
            zero = tm.const(0, "I")
            if self.entails(st, tm.and_(tm.lt(zero, B), tm.le(zero, A))):
                if self.entails(st, tm.lt(A, tm.add(B, B))):
                    return tm.ite(tm.lt(A, B), A, tm.sub(A, B))
        if op == "shl" and isinstance(b, int):
            return self.simp(tm.mul(A, tm.const(1 << b, "I")), n)
        if op in ("and", "or", "xor"):
            h = getattr(self, "bitop", None)
            if h:
                return h(op, A, B, n)
        raise Unsupported("integer %s on symbolic operands" % op)

    def entails(self, st, c):
        """does the path condition imply this fact about integers?  (decided by the solver; False when undecided)"""
        k = st.known(c)
        if k is not None:
            return k
        import smt
        import prove
        ints = [h for h in st.pc if all(v.sort == "I" for v in tm.variables(h)) and
                not tm.atoms(h, lambda x: x.op in ("sel", "rsum"))]
        try:
            return smt.run(ints + prove.ground(ints, c), c, 2.0)[0] == "proved"
        except Exception:
            return False

    def simp(self, t, n):
        if tm.isc(t):
            return t.data % (1 << n)
        return t

    def icmp(self, pred, a, b, ty, st):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return tm.fresh("opaquecmp", "B")
        if ty.k == "ptr" or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if pred in ("eq", "ne"):
                    return TRUE if (a == b) == (pred == "eq") else FALSE
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if a.blk != b.blk:
                if pred == "eq":
                    return FALSE
                if pred == "ne":
                    return TRUE
                raise Unsupported("ordering of unrelated pointers")
            x, y = tm.lift(a.off, "I"), tm.lift(b.off, "I")
            p = pred[1:] if pred not in ("eq", "ne") else pred
            return self.cmpI(p, x, y)
        n = ty.a
        if n == 1:
            if pred == "eq":
                return tm.iff(a, b)
            if pred == "ne":
                return tm.not_(tm.iff(a, b))
            raise Unsupported("icmp i1")
        if isinstance(a, tm.T) and tm.isc(a):
            a = a.data % (1 << n)
        if isinstance(b, tm.T) and tm.isc(b):
            b = b.data % (1 << n)
        M = 1 << n
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - M if a >= M // 2 else a
                b = b - M if b >= M // 2 else b
            p = pred[1:] if pred not in ("eq", "ne") else pred
            return TRUE if {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b,
                            "ge": a >= b}[p] else FALSE
        if (pred, b) in (("ugt", 0), ("uge", 1)) or (pred, a) in (("ult", 0), ("ule", 1)):
            pred, a, b = "ne", (a if isinstance(b, int) else b), 0
        elif (pred, b) in (("ule", 0), ("ult", 1)) or (pred, a) in (("uge", 0), ("ugt", 1)):
            pred, a, b = "eq", (a if isinstance(b, int) else b), 0
        uns = pred[0] == "u" and pred not in ("eq", "ne")
        def cv(x, other):
            if isinstance(x, int):
                if uns:
                    return tm.const(x, "I")
                return tm.const(x - M if x >= M // 2 else x, "I")
            if uns and not self.nonneg(x, st):
                return tm.ite(tm.lt(x, tm.const(0, "I")), tm.add(x, tm.const(M, "I")), x)
            return x
        # comparison of an ite of constants (bool-ish integers) with a constant
        p = pred[1:] if pred not in ("eq", "ne") else pred
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, tm.T) and x.op == "ite" and isinstance(y, int) and \
                    tm.isc(x.args[1]) and tm.isc(x.args[2]):
                u, w = (self.icmp(pred, *((z, y) if not sw else (y, z)), ty, st)
                        for z in (x.args[1].data % M, x.args[2].data % M))
                return tm.ite(x.args[0], u, w)
        return self.cmpI(p, cv(a, b), cv(b, a))

    def nonneg(self, x, st):
        c, d = tm.lin_of(x)
        if c >= 0 and all(k >= 0 and (st.known(tm.le(tm.const(0, "I"), y)) or y.data in self.nonneg_vars)
                          for y, k in d.items()):
            return True
        if st.known(tm.le(tm.const(0, "I"), x)):
            return True
        return False

    nonneg_vars = set()

    def cmpI(self, p, x, y):
        return {"eq": tm.eq, "ne": tm.ne, "lt": tm.lt, "le": tm.le,
                "gt": lambda u, v: tm.lt(v, u), "ge": lambda u, v: tm.le(v, u)}[p](x, y)

    # ---------------------------------------------------------------- calls
    def find(self, name):
        n = name
        while n in self.mod.aliases:
            n = self.mod.aliases[n]
        return self.mod.functions.get(n)

    def call(self, name, args, st, site=""):
        """-> list of Outcome(ret/throw/abort)"""
        real = name
        while real in self.mod.aliases:
            real = self.mod.aliases[real]
        dn = self.dem.get(name) or self.dem.get(real) or name
        c = self.contracts.get(dn)
        if c is not None and c.modular and not (self.top == dn and self.depth == 0):
            self.used_contracts.add(dn)
            return c.apply(self, st, args, self.mod.functions.get(real) or self.mod.decls.get(real))
        for rx, fn in self.local_contracts:
            if rx.search(dn):
                self.used_contracts.add(dn)
                return fn(self, st, args)
        h = self.external(name, dn, args, st)
        if h is not None:
            return h
        f = self.mod.functions.get(real)
        if f is None:
            raise Unsupported("call to external function %s" % dn)
        if dn.startswith("AL::"):
            self.inlined.add(dn)
        return self.run(f, args, st)

    def ret(self, st, v=None):
        return [Outcome("ret", st, v)]

    def external(self, name, dn, args, st):
        if name.startswith("llvm."):
            return self.intrinsic(name, args, st)
        if name in LIBM:
            self.externals.add(name)
            ty = ir.FLOAT if name.endswith("f") and name not in ("erf",) else ir.DOUBLE
            return self.ret(st, self.sem.fn(LIBM[name], args, ty))
        for rx, fn in EXTERNALS:
            if self.no_model and self.no_model.match(dn):
                break
            if rx.match(dn) or rx.match(name):
                r = fn(self, st, args, dn)
                if r is not None:
                    self.externals.add(dn)
                    return r
        return None

    def intrinsic(self, name, args, st):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "stackrestore", "var", "invariant",
                 "prefetch"):
            return self.ret(st, None)
        if b in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return self.ret(st, None)
        if b == "memset":
            self.memset(st, *args[:3])
            return self.ret(st, None)
        if b in ("fabs", "sqrt", "sin", "cos", "pow", "floor", "exp", "log", "ceil", "copysign", "minnum", "maxnum"):
            ty = ir.FLOAT if name.endswith("f32") else ir.DOUBLE
            n = {"minnum": "fmin", "maxnum": "fmax"}.get(b, b)
            self.externals.add(name)
            return self.ret(st, self.sem.fn(n, args, ty))
        if b == "fmuladd" or b == "fma":
            if b == "fma":
                raise Unsupported("fma")
            return self.ret(st, self.sem.bin("fadd", self.sem.bin("fmul", args[0], args[1], None), args[2], None))
        if b == "is" and "fpclass" in name:
            if isinstance(args[1], int) and args[1] == 3:
                return self.ret(st, self.sem.fn("isnan", [args[0]], None))
            raise Unsupported(name)
        if b == "eh":
            return self.ret(st, ("typeid", args[0]))
        if b == "expect":
            return self.ret(st, args[0])
        if b in ("umax", "umin", "smax", "smin"):
            n = int(name.split(".i")[-1])
            p = {"umax": "uge", "umin": "ule", "smax": "sge", "smin": "sle"}[b]
            c = self.icmp(p, args[0], args[1], ir.INT(n), st)
            if c is TRUE:
                return self.ret(st, args[0])
            if c is FALSE:
                return self.ret(st, args[1])
            return self.ret(st, tm.ite(c, tm.lift(args[0], "I"), tm.lift(args[1], "I")))
        if b == "trap":
            return [Outcome("abort", st, None, "trap")]
        raise Unsupported("intrinsic " + name)

    def memset(self, st, p, v, n):
        n = self.cint(n) if isinstance(n, tm.T) else n
        if isinstance(p, Opaque):
            return
        if isinstance(v, tm.T):
            v = self.cint(v)
        if not isinstance(n, int) or v != 0 or not isinstance(p.off, int):
            raise Unsupported("memset")
        b = st.wblock(p.blk)
        if b.seq is not None:
            raise Unsupported("memset on symbolic array")
        # zero bytes: keep 4-byte granularity where aligned (float/int/bool/ptr read as zero)
        for o in [o for o in b.cells if p.off <= o < p.off + n]:
            del b.cells[o]
        o = p.off
        while o < p.off + n:
            m = 4 if (o % 4 == 0 and p.off + n - o >= 4) else 1
            b.cells[o] = (m, 0)
            o += m

    # ---------------------------------------------------------------- run
    def run(self, f, args, st):
        if len(args) != len(f.params):
            raise Unsupported("arity of %s" % f.name)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion depth in %s" % self.dem.get(f.name, f.name))
        try:
            regs = {r: a for (_, r, _a), a in zip(f.params, args)}
            outs = self.region(f, f.entry, None, regs, st, frozenset())
        finally:
            self.depth -= 1
        return outs

    def region(self, f, blk, prev, regs, st, stops, visits=None):
        """execute from the start of blk until ret/throw/abort or arrival at a block in stops"""
        done = []
        work = [(blk, prev, regs, st, dict(visits or {}))]
        first = True
        while work:
            blk, prev, regs, st, vis = work.pop()
            while True:
                if blk in stops and not first:
                    done.append(Outcome("stop", st, None, None, regs, blk, prev))
                    break
                first = False
                if self.loop_hook is not None and self.depth >= 0:
                    lh = self.loop_hook(self, f, blk, prev, regs, st, vis, stops)
                    if lh is not None:
                        for o in lh:
                            if o.kind == "go":
                                work.append((o.blk, o.prev, o.regs, o.state, dict(vis)))
                            else:
                                done.append(o)
                        break
                v = vis.get(blk, 0) + 1
                if v > self.unroll:
                    raise Unsupported("loop in %s not decided after %d iterations" %
                                      (self.dem.get(f.name, f.name), self.unroll))
                vis[blk] = v
                nxt = self.block(f, blk, prev, regs, st, work, done, vis)
                if nxt is None:
                    break
                blk, prev, regs, st = nxt
        return done

    def block(self, f, blk, prev, regs, st, work, done, vis):
        insts = f.insts(blk)
        mod = f.mod
        i = 0
        # phis (parallel)
        newv = {}
        while i < len(insts) and insts[i].op == "phi":
            I = insts[i]
            for v, lab in I.a:
                if lab == prev:
                    newv[I.res] = self.val(st, regs, v, I.ty, mod)
                    break
            else:
                raise Unsupported("phi without incoming edge")
            i += 1
        regs.update(newv)
        return self.cont(f, blk, i, prev, regs, st, work, done, vis)

    def cont(self, f, blk, i, prev, regs, st, work, done, vis):
        insts = f.insts(blk)
        mod = f.mod
        while i < len(insts):
            I = insts[i]
            op = I.op
            i += 1
            if op == "load":
                regs[I.res] = self.load(st, self.val(st, regs, I.a[0], ir.PTR, mod), I.ty, mod)
            elif op == "store":
                v = self.val(st, regs, I.a[0], I.ty, mod)
                p = self.val(st, regs, I.a[1], ir.PTR, mod)
                if I.ty.k == "int" and I.ty.a != 1 and isinstance(v, tm.T) and v.sort == "B":
                    v = tm.ite(v, tm.const(1, "I"), tm.const(0, "I"))
                self.store(st, p, v, I.ty, mod)
            elif op == "alloca":
                sz = mod.size(I.ty)
                if I.a[0] is not None:
                    c = self.val(st, regs, I.a[0][1], I.a[0][0], mod)
                    if not isinstance(c, int):
                        raise Unsupported("dynamic alloca")
                    sz *= c
                regs[I.res] = st.alloc(sz, I.res)
            elif op == "getelementptr":
                base = self.val(st, regs, I.a[0][1], I.a[0][0], mod)
                regs[I.res] = self.gep(st, regs, I.ty, base, I.a[1:], mod)
            elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                a, b = (self.val(st, regs, x, I.ty, mod) for x in I.a)
                if I.ty.k == "vector":
                    regs[I.res] = [self.sem.bin(op, x, y, I.ty.b) for x, y in zip(a, b)]
                else:
                    regs[I.res] = self.sem.bin(op, a, b, I.ty)
            elif op == "fneg":
                a = self.val(st, regs, I.a[0], I.ty, mod)
                regs[I.res] = [self.sem.neg(x) for x in a] if isinstance(a, list) else self.sem.neg(a)
            elif op == "fcmp":
                a, b = self.val(st, regs, I.a[1], I.ty, mod), self.val(st, regs, I.a[2], I.ty, mod)
                if isinstance(a, list):
                    regs[I.res] = [self.sem.cmp(I.a[0], x, y) for x, y in zip(a, b)]
                else:
                    regs[I.res] = self.sem.cmp(I.a[0], a, b)
            elif op == "icmp":
                a, b = self.val(st, regs, I.a[1], I.ty, mod), self.val(st, regs, I.a[2], I.ty, mod)
                if isinstance(a, tuple) and a and a[0] == "typeid" or isinstance(b, tuple) and b and b[0] == "typeid":
                    regs[I.res] = self.typeid_cmp(a, b)
                else:
                    regs[I.res] = self.icmp(I.a[0], a, b, I.ty, st)
            elif op in ir.BIN:
                a, b = self.val(st, regs, I.a[0], I.ty, mod), self.val(st, regs, I.a[1], I.ty, mod)
                if I.ty.k == "vector":
                    regs[I.res] = [self.ibin(op, x, y, I.ty.b.a, st) for x, y in zip(a, b)]
                else:
                    regs[I.res] = self.ibin(op, a, b, I.ty.a, st)
            elif op == "zext" and self.split_select and I.ty.k == "int" and I.ty.a == 64 and \
                    as_flag(self.val(st, regs, I.a[1], I.a[0], mod)) is not None and \
                    st.known(as_flag(self.val(st, regs, I.a[1], I.a[0], mod))) is None:
                c = as_flag(self.val(st, regs, I.a[1], I.a[0], mod))
                s2, r2 = st.fork(), dict(regs)
                s2.assume(tm.not_(c))
                r2[I.res] = 0
                self.later(f, blk, i, prev, r2, s2, work, done, vis)
                st.assume(c)
                regs[I.res] = 1
            elif op in ir.CAST:
                regs[I.res] = self.cast(op, self.val(st, regs, I.a[1], I.a[0], mod), I.a[0], I.ty, st)
            elif op == "select":
                c = self.val(st, regs, I.a[0], ir.INT(1), mod)
                a, b = self.val(st, regs, I.a[1], I.ty, mod), self.val(st, regs, I.a[2], I.ty, mod)
                k = st.known(c)
                if k is not None:
                    regs[I.res] = a if k else b
                elif not (self.split_select and I.ty.k == "int" and I.ty.a == 64) and (
                        isinstance(a, tm.T) or isinstance(b, tm.T) or (isinstance(a, int) and isinstance(b, int))):
                    s = "I" if I.ty.k == "int" and I.ty.a != 1 else ("B" if I.ty.k == "int" else None)
                    if isinstance(a, int):
                        a = tm.const(a, "I")
                    if isinstance(b, int):
                        b = tm.const(b, "I")
                    regs[I.res] = tm.mk("ite", (c, a, b), a.sort) if a.sort in "FD" else tm.ite(c, a, b)
                else:
                    if a == b:
                        regs[I.res] = a
                        continue
                    s2 = st.fork()
                    r2 = dict(regs)
                    s2.assume(tm.not_(c))
                    r2[I.res] = b
                    self.later(f, blk, i, prev, r2, s2, work, done, vis)
                    st.assume(c)
                    regs[I.res] = a
            elif op == "br":
                if I.a[0] is None:
                    return (I.a[1], blk, regs, st)
                c = self.val(st, regs, I.a[0], ir.INT(1), mod)
                if not isinstance(c, tm.T):
                    raise Unsupported("branch on %r" % (c,))
                k = st.known(c)
                if k is None and self.feas is not None:
                    k = self.feas(st, c)
                if k is not None:
                    return (I.a[1] if k else I.a[2], blk, regs, st)
                self.npaths += 1
                if self.npaths > self.maxpaths:
                    raise Unsupported("more than %d paths" % self.maxpaths)
                s2 = st.fork()
                s2.assume(tm.not_(c))
                work.append((I.a[2], blk, dict(regs), s2, dict(vis)))
                st.assume(c)
                return (I.a[1], blk, regs, st)
            elif op == "switch":
                v = self.val(st, regs, I.a[0], I.ty, mod)
                if isinstance(v, tm.T) and tm.isc(v):
                    v = v.data % (1 << I.ty.a)
                if isinstance(v, int):
                    for cv, lab in I.a[2]:
                        if cv[1] % (1 << I.ty.a) == v:
                            return (lab, blk, regs, st)
                    return (I.a[1], blk, regs, st)
                rest = []
                for cv, lab in I.a[2]:
                    e = tm.eq(v, tm.const(cv[1], "I"))
                    k = st.known(e)
                    if k is False:
                        continue
                    s2 = st.fork()
                    s2.assume(e)
                    work.append((lab, blk, dict(regs), s2, dict(vis)))
                    rest.append(tm.not_(e))
                for e in rest:
                    st.assume(e)
                return (I.a[1], blk, regs, st)
            elif op == "ret":
                v = None if I.a is None else self.val(st, regs, I.a, I.ty, mod)
                done.append(Outcome("ret", st, v))
                return None
            elif op in ("call", "invoke"):
                callee, args = I.a[0], I.a[1]
                if callee[0] == "asm":
                    raise Unsupported("inline asm")
                av = [self.val(st, regs, v, t, mod) if t.k != "metadata" else None for t, v, _ in args]
                if callee[0] == "reg":
                    fp = regs[callee[1]]
                    if not isinstance(fp, FnPtr):
                        raise Unsupported("indirect call")
                    name = fp.name
                else:
                    name = callee[1]
                # by-value struct parameters are passed as copies
                for k, (t, v, at) in enumerate(args):
                    if "byval" in at and isinstance(av[k], Ptr):
                        n = mod.size(at["byval"])
                        q = st.alloc(n, "byval")
                        self.memcpy(st, q, av[k], n)
                        av[k] = q
                outs = self.call(name, av, st, I.text)
                nl = I.a[2] if op == "invoke" else None
                ul = I.a[3] if op == "invoke" else None
                live = []
                for o in outs:
                    if o.kind == "ret":
                        live.append((o, nl))
                    elif o.kind == "throw" and ul is not None:
                        live.append((o, ul))
                    else:
                        done.append(o)
                if not live:
                    return None
                for n, (o, tgt) in enumerate(live):
                    r = regs if n == len(live) - 1 else dict(regs)
                    vs = vis if n == len(live) - 1 else dict(vis)
                    if o.kind == "throw":
                        r["%exc"] = o.info
                    elif I.res is not None:
                        r[I.res] = o.value
                    if n == len(live) - 1:
                        regs, st, vis = r, o.state, vs
                        if tgt is not None:
                            return (tgt, blk, regs, st)
                    elif tgt is not None:
                        work.append((tgt, blk, r, o.state, vs))
                    else:
                        self.later(f, blk, i, prev, r, o.state, work, done, vs)
            elif op == "landingpad":
                regs[I.res] = self.landing(regs.get("%exc"), I)
            elif op == "resume":
                v = self.val(st, regs, I.a, I.ty, mod)
                done.append(Outcome("throw", st, None, regs.get("%exc")))
                return None
            elif op == "extractvalue":
                v = self.val(st, regs, I.a[0], I.ty, mod)
                for k in I.a[1]:
                    if not isinstance(v, list):
                        raise Unsupported("extractvalue of %r" % (v,))
                    v = v[k]
                regs[I.res] = v
            elif op == "insertvalue":
                v = self.val(st, regs, I.a[0], I.ty, mod)
                x = self.val(st, regs, I.a[2], I.a[1], mod)
                regs[I.res] = self.insv(v, x, I.a[3])
            elif op == "extractelement":
                v = self.val(st, regs, I.a[0], I.ty, mod)
                k = self.val(st, regs, I.a[1], ir.INT(64), mod)
                regs[I.res] = v[k]
            elif op == "insertelement":
                v = list(self.val(st, regs, I.a[0], I.ty, mod))
                x = self.val(st, regs, I.a[1], I.ty.b, mod)
                k = self.val(st, regs, I.a[2], ir.INT(64), mod)
                v[k] = x
                regs[I.res] = v
            elif op == "shufflevector":
                a = self.val(st, regs, I.a[0], I.ty, mod)
                b = self.val(st, regs, I.a[1], I.ty, mod)
                mv = I.a[3]
                if mv[0] == "zero":
                    idx = [0] * I.a[2].a
                elif mv[0] == "agg":
                    idx = [x[1][1] if x[1][0] == "int" else 0 for x in mv[1]]
                else:
                    raise Unsupported("shuffle mask")
                ab = list(a) + list(b)
                regs[I.res] = [ab[k] for k in idx]
            elif op == "freeze":
                regs[I.res] = self.val(st, regs, I.a[0], I.ty, mod)
            elif op == "unreachable":
                done.append(Outcome("abort", st, None, "unreachable"))
                return None
            elif op == "nop":
                pass
            else:
                raise Unsupported("instruction %s" % I.text)
        raise Unsupported("block falls through")

    def later(self, f, blk, i, prev, regs, st, work, done, vis):
        """continue a forked path from the middle of a block"""
        nxt = self.cont(f, blk, i, prev, regs, st, work, done, vis)
        if nxt is not None:
            work.append((nxt[0], nxt[1], nxt[2], nxt[3], dict(vis)))

    def insv(self, v, x, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insv(v[idx[0]], x, idx[1:])
        return v

    def landing(self, exc, I):
        cleanup, clauses = I.a
        for kind, v in clauses:
            if kind == "catch":
                if v[0] == "null":
                    return [Opaque("exc"), ("sel", exc)]
                if v[0] == "glob" and exc is not None and self.catches(exc, v[1]):
                    return [Opaque("exc"), ("sel", v[1])]
        return [Opaque("exc"), ("sel", None)]

    BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
             "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"]}

    def catches(self, exc, ti):
        return exc == ti or ti in self.BASES.get(exc, [])

    def typeid_cmp(self, a, b):
        def nm(x):
            if x[0] == "typeid":
                return x[1].name if isinstance(x[1], FnPtr) else getattr(x[1], "blk", None)
            return x[1]
        raise Unsupported("catch dispatch")

    def cast(self, op, v, src, dst, st):
        if isinstance(v, list):
            return [self.cast(op, x, src.b, dst.b, st) for x in v]
        if isinstance(v, Opaque):
            return v if dst.k not in ("float", "double") else self.undef(dst)
        if op in ("bitcast",):
            if dst.k == "int" and src.k in ("float", "double") or src.k == "int" and dst.k in ("float", "double"):
                return v
            return v
        if op == "ptrtoint":
            return v
        if op == "inttoptr":
            if isinstance(v, int):
                return Ptr(0, v)
            return v
        if op in ("fpext", "fptrunc"):
            return self.sem.cast(v, src, dst)
        if op in ("sitofp", "uitofp"):
            if isinstance(v, tm.T) and v.sort == "B":
                one = -1.0 if op == "sitofp" else 1.0
                a, b = self.sem.const(one, dst), self.sem.const(0.0, dst)
                return tm.mk("ite", (v, a, b), a.sort) if a.sort in "FD" else tm.ite(v, a, b)
            if op == "uitofp" and isinstance(v, tm.T) and not self.nonneg(v, st):
                v = tm.ite(tm.lt(v, tm.const(0, "I")), tm.add(v, tm.const(1 << src.a, "I")), v)
            return self.sem.itof(v, dst, op == "sitofp", src.a)
        if op in ("fptosi", "fptoui"):
            r = self.sem.ftoi(v, dst, op == "fptosi")
            if isinstance(r, int):
                r %= 1 << dst.a
            else:
                self.assumptions.add("float-to-integer conversions are in range of the integer type")
            return r
        n = dst.a
        if op == "trunc":
            return self.trunc(v, src.a, n)
        if op == "zext":
            if src.a == 1:
                if v is TRUE:
                    return 1
                if v is FALSE:
                    return 0
                return tm.ite(v, tm.const(1, "I"), tm.const(0, "I"))
            if isinstance(v, int):
                return v
            if isinstance(v, tm.T) and v.op == "ite" and all(tm.isc(z) for z in v.args[1:]):
                return tm.ite(v.args[0], *[tm.const(z.data % (1 << src.a), "I") for z in v.args[1:]])
            if not self.nonneg(v, st):
                return tm.ite(tm.lt(v, tm.const(0, "I")), tm.add(v, tm.const(1 << src.a, "I")), v)
            return v
        if op == "sext":
            if src.a == 1:
                if v is TRUE:
                    return (1 << n) - 1
                if v is FALSE:
                    return 0
                return tm.ite(v, tm.const(-1, "I"), tm.const(0, "I"))
            if isinstance(v, int):
                if v >= 1 << (src.a - 1):
                    v += (1 << n) - (1 << src.a)
                return v
            return v
        raise Unsupported("cast " + op)


# ------------------------------------------------------------------ assumed contracts on externals
EXTERNALS = []


def ext(rx):
    def d(fn):
        EXTERNALS.append((re.compile(rx), fn))
        return fn
    return d


@ext(r"std::basic_ostream<.*>::operator<<|std::basic_ostream<.*>& std::operator<<|std::ostream::operator<<|"
     r"std::ostream& std::ostream::_M_insert|std::basic_ostream<.*>& std::endl|std::endl|std::ostream::flush|"
     r"std::operator<<\(std::ostream")
def _stream(ex, st, args, dn):
    return ex.ret(st, args[0])


@ext(r"(std::(__cxx11::)?basic_(o|i)?stringstream<.*>::|std::(__cxx11::)?basic_string<|"
     r"std::allocator<char>::|std::(__cxx11::)?(o|i)?stringstream::|std::(__cxx11::)?string::|"
     r"std::__new_allocator<char>::|std::(__cxx11::)?to_string)")
def _string(ex, st, args, dn):
    return ex.ret(st, args[0] if args and isinstance(args[0], (Ptr, Opaque)) else Opaque("string"))


@ext(r"^(std::__cxx11::basic_string<.*> )?std::operator\+<char")
def _stringplus(ex, st, args, dn):
    return ex.ret(st, Opaque("string"))


@ext(r"std::(runtime_error|logic_error|invalid_argument|out_of_range|exception|length_error|domain_error)::")
def _exc(ex, st, args, dn):
    return ex.ret(st, Opaque("exception"))


@ext(r"^__cxa_allocate_exception$")
def _alloc_exc(ex, st, args, dn):
    return ex.ret(st, Opaque("exception"))


@ext(r"^__cxa_(free_exception|end_catch|guard_release|atexit)$|^__gxx_personality")
def _noop(ex, st, args, dn):
    return ex.ret(st, 0)


@ext(r"^__cxa_begin_catch$")
def _bc(ex, st, args, dn):
    return ex.ret(st, Opaque("exc"))


@ext(r"^__cxa_throw$")
def _throw(ex, st, args, dn):
    ti = args[1]
    nm = None
    if isinstance(ti, Ptr):
        nm = st.mem[ti.blk].name.lstrip("@")
    return [Outcome("throw", st, None, nm)]


@ext(r"^std::__throw_(\w+)\(")
def _stdthrow(ex, st, args, dn):
    m = re.match(r"^std::__throw_(\w+)\(", dn)
    return [Outcome("throw", st, None, "_ZTISt%d%s" % (len(m.group(1)), m.group(1)))]


URDF_INERTIAL = ("mass", "ixx", "ixy", "ixz", "iyy", "iyz", "izz")


@ext(r"^AL::urdf::Inertial::(mass|i[xyz][xyz])\(\) const$")
def _urdf_inertial(ex, st, args, dn):
    """assumed: a getter returns the value the document holds (here: the doubles at the address)"""
    k = URDF_INERTIAL.index(dn.split("::")[-1].split("(")[0])
    return ex.ret(st, ex.load(st, ex.padd(args[0], 8 * k), ir.DOUBLE, ex.mod))


@ext(r"^AL::urdf::Inertial::origin\(\) const$")
def _urdf_origin(ex, st, args, dn):
    for i in range(6):
        v = ex.load(st, ex.padd(args[1], 8 * (7 + i)), ir.DOUBLE, ex.mod)
        ex.store(st, ex.padd(args[0], 8 * i), v, ir.DOUBLE, ex.mod)
    return ex.ret(st, None)


@ext(r"^__assert_fail$|^abort$|^std::terminate|^__clang_call_terminate$|^std::__glibcxx_assert_fail")
def _abort(ex, st, args, dn):
    return [Outcome("abort", st, None, dn)]


@ext(r"^operator new\(unsigned long\)|^operator new\[\]\(unsigned long\)")
def _new(ex, st, args, dn):
    n = ex.cint(args[0])
    if not isinstance(n, int):
        raise Unsupported("operator new of symbolic size")
    return ex.ret(st, st.alloc(n, "heap"))


@ext(r"^operator delete")
def _del(ex, st, args, dn):
    return ex.ret(st, None)


@ext(r"^(memcpy|memmove)$")
def _memcpy(ex, st, args, dn):
    ex.memcpy(st, args[0], args[1], args[2])
    return ex.ret(st, args[0])


# --- std::vector<float>: allocation-level operations (assumed: the C++ standard's postconditions)
def vec_fields(ex, st, p):
    b = ex.load(st, p, ir.PTR, ex.mod)
    e = ex.load(st, ex.padd(p, 8), ir.PTR, ex.mod)
    return b, e


def vec_set(ex, st, p, blkptr, nbytes):
    ex.store(st, p, blkptr, ir.PTR, ex.mod)
    e = NULL if blkptr == NULL else ex.padd(blkptr, nbytes)
    ex.store(st, ex.padd(p, 8), e, ir.PTR, ex.mod)
    ex.store(st, ex.padd(p, 16), e, ir.PTR, ex.mod)


def vec_len(ex, st, p, es=4):
    b, e = vec_fields(ex, st, p)
    d = ex.ibin("sub", e, b, 64, st)
    return ex.ibin("sdiv", d, es, 64, st)


def const_float_seq(v, n):
    return SeqBase("fill", 4, n, lambda idx, fld, nb: v)


def new_float_block(ex, st, n, fill, name="vecdata"):
    """fresh array of n floats with every element = fill(i) (python int or I-term n)"""
    if isinstance(n, int):
        if n == 0:
            return NULL, 0
        p = st.alloc(4 * n, name)
        b = st.wblock(p.blk)
        for i in range(n):
            b.cells[4 * i] = (4, fill(tm.const(i, "I")))
        return p, 4 * n
    p = st.alloc(1 << 40, name)
    b = st.wblock(p.blk)
    b.seq = Seq(SeqBase(name, 4, n, lambda idx, fld, nb: fill(idx)))
    return p, tm.mul(tm.const(4, "I"), n)


def read_elem(ex, st, data, idx):
    if data == NULL:
        raise Unsupported("element of an empty vector")
    b = st.mem[data.blk]
    o = ex.padd(data, 4 * idx if isinstance(idx, int) else tm.mul(tm.const(4, "I"), idx)).off
    if b.seq is not None:
        i, f = ex.seq_index(b, o)
        return ex.seq_get(b.seq, i, f, 4)
    return ex.load_raw(st, b, o, 4, ir.FLOAT)


# --- std::vector<T>, T a plain struct: always an array of symbolic length
def new_seq_block(ex, st, esize, n, getter, name="vecdata"):
    q = st.alloc(1 << 62, name)
    st.wblock(q.blk).seq = Seq(SeqBase(name, esize, tm.lift(n, "I"), getter))
    return q


def junk_seq(ex, cls):
    """contents nobody may look at"""
    nm = tm.fresh("uninit", "I").data
    kinds = {o: k for o, s, k, p in ex.types.leaves(cls)}
    return lambda i, f, nb: tm.mk("sel", (i,), ex.leaf_sort(kinds[f]), "%s.%d" % (nm, f))


def named_struct_seq(ex, cls, name):
    lv = {o: (s, k, p) for o, s, k, p in ex.types.leaves(cls)}

    def g(i, f, nb):
        if f not in lv or lv[f][0] != nb:
            raise Unsupported("access of %d bytes at offset %d of an element of %s" % (nb, f, name))
        return tm.mk("sel", (i,), ex.leaf_sort(lv[f][1]), name + "." + lv[f][2])
    return g


def listed_struct_seq(ex, cls, at):
    """element i has the leaves at(i) (memory order)"""
    order = {o: j for j, (o, s, k, p) in enumerate(ex.types.leaves(cls))}
    return lambda i, f, nb: tm.lift(at(i)[order[f]])


def pvec_bytes(ex, cls, n):
    es = ex.types.size(cls)
    return es * n if isinstance(n, int) else tm.mul(tm.const(es, "I"), n)


def pvec_new(ex, st, p, cls, n, getter, name="vecdata"):
    d = new_seq_block(ex, st, ex.types.size(cls), n, getter, name)
    vec_set(ex, st, p, d, pvec_bytes(ex, cls, n))
    return d


VS = r"std::vector<(AL::Math::[\w:]+), std::allocator<\1\s*>\s*>"


def vs_elem(dn):
    return re.search(VS, dn).group(1)


@ext(r"^" + VS + r"::vector\((std::allocator<[\w:]+\s*> const&)?\)$")
def _svempty(ex, st, args, dn):
    cls = vs_elem(dn)
    pvec_new(ex, st, args[0], cls, 0, junk_seq(ex, cls))
    return ex.ret(st, None)


@ext(r"^" + VS + r"::(~vector|reserve|shrink_to_fit)\(")
def _svnop(ex, st, args, dn):
    return ex.ret(st, None)


def sv_setlen(ex, st, p, cls, n):
    b, _ = vec_fields(ex, st, p)
    blk = st.wblock(b.blk)
    o = blk.seq.base
    blk.seq = Seq(SeqBase(o.name, o.esize, tm.lift(n, "I"), o.getter), blk.seq.upd)
    vec_set(ex, st, p, b, pvec_bytes(ex, cls, n))
    return b


@ext(r"^" + VS + r"::clear\(\)$")
def _svclear(ex, st, args, dn):
    cls = vs_elem(dn)
    b = sv_setlen(ex, st, args[0], cls, 0)
    blk = st.wblock(b.blk)
    o = blk.seq.base
    blk.seq = Seq(SeqBase(o.name, o.esize, o.length, junk_seq(ex, cls)))
    return ex.ret(st, None)


@ext(r"^" + VS + r"::push_back\((\1)( const)?&&?\)$")
@ext(r"^[\w:]+& " + VS + r"::emplace_back<\1( const)?&?>\(\1( const)?&&?\)$")
def _svpush(ex, st, args, dn):
    cls = vs_elem(dn)
    vals = []
    for o, s, k, path in ex.types.leaves(cls):
        ty = {"R": ir.FLOAT, "D": ir.DOUBLE, "B": ir.INT(8)}.get(k, ir.INT(8 * s))
        v = ex.load(st, ex.padd(args[1], o), ty, ex.mod)
        vals.append((o, s, tm.lift(v, "I") if isinstance(v, int) else v))
    n = ex.cint(vec_len(ex, st, args[0], ex.types.size(cls)))
    N = tm.lift(n, "I")
    b = sv_setlen(ex, st, args[0], cls, n + 1 if isinstance(n, int) else tm.add(N, tm.const(1, "I")))
    blk = st.wblock(b.blk)
    upd = blk.seq.upd
    for o, s, v in vals:
        upd = tuple(u for u in upd if not (u[0] is N and u[1] == o)) + ((N, o, s, v),)
    blk.seq = Seq(blk.seq.base, upd)
    return ex.ret(st, ex.padd(b, pvec_bytes(ex, cls, n)))


def sv_copy(ex, st, dst, src, cls):
    b, _ = vec_fields(ex, st, src)
    n = ex.cint(vec_len(ex, st, src, ex.types.size(cls)))
    if b == NULL or b.off != 0 or st.mem[b.blk].seq is None:
        raise Unsupported("copy of this vector")
    q = pvec_new(ex, st, dst, cls, n, None)
    st.wblock(q.blk).seq = st.mem[b.blk].seq


@ext(r"^" + VS + r"::vector\(std::vector<.*> const&\)$")
def _svcopy(ex, st, args, dn):
    sv_copy(ex, st, args[0], args[1], vs_elem(dn))
    return ex.ret(st, None)


@ext(r"^" + VS + r"::operator=\(std::vector<.*> const&\)$")
def _svassign(ex, st, args, dn):
    if args[0] != args[1]:
        sv_copy(ex, st, args[0], args[1], vs_elem(dn))
    return ex.ret(st, args[0])


@ext(r"^" + VS + r"::(vector|operator=)\(std::vector<.*>&&\)$")
def _svmove(ex, st, args, dn):
    cls = vs_elem(dn)
    for i in (0, 8, 16):
        v = ex.load(st, ex.padd(args[1], i), ir.PTR, ex.mod)
        ex.store(st, ex.padd(args[0], i), v, ir.PTR, ex.mod)
    pvec_new(ex, st, args[1], cls, 0, junk_seq(ex, cls))
    return ex.ret(st, args[0] if "operator=" in dn else None)


@ext(r"^" + VS + r"::swap\(")
def _svswap(ex, st, args, dn):
    a, b = ([ex.load(st, ex.padd(p, i), ir.PTR, ex.mod) for i in (0, 8, 16)] for p in args[:2])
    for p, vs in ((args[0], b), (args[1], a)):
        for i, v in zip((0, 8, 16), vs):
            ex.store(st, ex.padd(p, i), v, ir.PTR, ex.mod)
    return ex.ret(st, None)


@ext(r"^" + VS + r"::resize\(unsigned long\)$")
def _svresize(ex, st, args, dn):
    """new elements are default constructed: only for element types whose default constructor zeroes every member"""
    cls = vs_elem(dn)
    es = ex.types.size(cls)
    n, L = tm.lift(ex.cint(args[1]), "I"), tm.lift(ex.cint(vec_len(ex, st, args[0], es)), "I")
    init = default_leaves(ex, st, cls)
    b, _ = vec_fields(ex, st, args[0])
    old = st.mem[b.blk].seq
    g = lambda i, f, nb: _ite(tm.lt(i, L), ex.seq_get(old, i, f, nb), init[f])
    pvec_new(ex, st, args[0], cls, n, g)
    return ex.ret(st, None)


def default_leaves(ex, st, cls):
    """members of a default constructed object (the constructor of the current tree is executed)"""
    base = cls.rsplit("::", 1)[1]
    for name, d in ex.dem.items():
        if d == "%s::%s()" % (cls, base) and name in ex.mod.functions:
            s2 = st.fork()
            p = s2.alloc(ex.types.size(cls), "default")
            outs = ex.run(ex.mod.functions[name], [p], s2)
            if len(outs) == 1 and outs[0].kind == "ret":
                r = {}
                for o, s, k, path in ex.types.leaves(cls):
                    ty = {"R": ir.FLOAT, "D": ir.DOUBLE, "B": ir.INT(8)}.get(k, ir.INT(8 * s))
                    r[o] = tm.lift(ex.load(outs[0].state, ex.padd(p, o), ty, ex.mod))
                return r
    raise Unsupported("default constructor of " + cls)


VF = r"std::vector<float, std::allocator<float>>"


@ext(r"^" + VF + r"::resize\(unsigned long\)$")
def _vresize(ex, st, args, dn):
    p, n = args
    n = ex.cint(n)
    zero = ex.sem.const(0.0, ir.FLOAT)
    old, _ = vec_fields(ex, st, p)
    ln = vec_len(ex, st, p)
    if isinstance(n, int) and isinstance(ln, int):
        vals = [read_elem(ex, st, old, i) if i < ln else zero for i in range(n)]
        d, nb = new_float_block(ex, st, n, lambda i: vals[i.data])
    else:
        N = tm.lift(n, "I")
        L = tm.lift(ln, "I")
        snap = st.mem[old.blk].seq if old != NULL and st.mem[old.blk].seq is not None else None
        if snap is None and old != NULL:
            raise Unsupported("resize of a mixed vector")
        def fill(i):
            if snap is None:
                return zero
            c = tm.lt(i, L)
            if c is FALSE:
                return zero
            return _ite(c, ex.seq_get(snap, i, 0, 4), zero)
        d, nb = new_float_block(ex, st, n, fill)
    vec_set(ex, st, p, d, nb)
    return ex.ret(st, None)


def _ite(c, a, b):
    if a.sort in "FD":
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        return tm.mk("ite", (c, a, b), a.sort)
    return tm.ite(c, a, b)


@ext(r"^" + VF + r"::vector\(unsigned long, float const&, std::allocator<float> const&\)$")
def _vfill(ex, st, args, dn):
    v = ex.load(st, args[2], ir.FLOAT, ex.mod)
    n = ex.cint(args[1])
    d, nb = new_float_block(ex, st, n, lambda i: v)
    vec_set(ex, st, args[0], d, nb)
    return ex.ret(st, None)


@ext(r"^" + VF + r"::vector\(unsigned long, std::allocator<float> const&\)$")
def _vzero(ex, st, args, dn):
    z = ex.sem.const(0.0, ir.FLOAT)
    d, nb = new_float_block(ex, st, ex.cint(args[1]), lambda i: z)
    vec_set(ex, st, args[0], d, nb)
    return ex.ret(st, None)


@ext(r"^" + VF + r"::vector\((std::allocator<float> const&)?\)$")
def _vempty(ex, st, args, dn):
    vec_set(ex, st, args[0], NULL, 0)
    return ex.ret(st, None)


def vec_copy(ex, st, dst, src):
    b, _ = vec_fields(ex, st, src)
    n = vec_len(ex, st, src)
    if b == NULL or (isinstance(n, int) and n == 0):
        vec_set(ex, st, dst, NULL, 0)
        return
    blk = st.mem[b.blk]
    if blk.seq is not None:
        if b.off != 0:
            raise Unsupported("copy of sub-vector")
        q = st.alloc(1 << 40, "veccopy")
        st.wblock(q.blk).seq = blk.seq
        vec_set(ex, st, dst, q, tm.mul(tm.const(4, "I"), n) if not isinstance(n, int) else 4 * n)
        return
    vals = [read_elem(ex, st, b, i) for i in range(n)]
    d, nb = new_float_block(ex, st, n, lambda i: vals[i.data])
    vec_set(ex, st, dst, d, nb)


@ext(r"^" + VF + r"::vector\(" + VF + r" const&\)$")
def _vcopy(ex, st, args, dn):
    vec_copy(ex, st, args[0], args[1])
    return ex.ret(st, None)


@ext(r"^" + VF + r"::operator=\(" + VF + r" const&\)$")
def _vassign(ex, st, args, dn):
    if args[0] != args[1]:
        vec_copy(ex, st, args[0], args[1])
    return ex.ret(st, args[0])


@ext(r"^" + VF + r"::(~vector|_M_\w*deallocate|reserve|shrink_to_fit)\(")
def _vdtor(ex, st, args, dn):
    return ex.ret(st, None)


@ext(r"^(" + VF + r"::push_back\(float (const&|&&)\)|float& " + VF + r"::emplace_back<float( const&)?>\(float( const&|&&)\))$")
def _vpush(ex, st, args, dn):
    v = ex.load(st, args[1], ir.FLOAT, ex.mod)
    b, _ = vec_fields(ex, st, args[0])
    n = vec_len(ex, st, args[0])
    if isinstance(n, int):
        vals = [read_elem(ex, st, b, i) for i in range(n)] + [v]
        d, nb = new_float_block(ex, st, n + 1, lambda i: vals[i.data])
        vec_set(ex, st, args[0], d, nb)
        return ex.ret(st, ex.padd(d, 4 * n))
    return ex.ret(st, scalar_push(ex, st, args[0], 4, v))


def scalar_push(ex, st, p, es, v):
    """push_back on a vector of scalars of symbolic length"""
    b, _ = vec_fields(ex, st, p)
    n = tm.lift(vec_len(ex, st, p, es), "I")
    if b == NULL or b.off != 0 or st.mem[b.blk].seq is None:
        raise Unsupported("push_back on this vector")
    blk = st.wblock(b.blk)
    o = blk.seq.base
    upd = tuple(u for u in blk.seq.upd if u[0] is not n) + ((n, 0, es, v),)
    blk.seq = Seq(SeqBase(o.name, o.esize, tm.add(n, tm.const(1, "I")), o.getter), upd)
    vec_set(ex, st, p, b, tm.mul(tm.const(es, "I"), tm.add(n, tm.const(1, "I"))))
    return ex.padd(b, tm.mul(tm.const(es, "I"), n))


# --- std::vector<size_t>: always an array of symbolic length
VU = r"std::vector<unsigned long, std::allocator<unsigned long>>"


def new_int_block(ex, st, n, fill, name="vecdata"):
    q = st.alloc(1 << 62, name)
    st.wblock(q.blk).seq = Seq(SeqBase(name, 8, tm.lift(n, "I"), lambda i, f, nb: fill(i)))
    return q, tm.mul(tm.const(8, "I"), tm.lift(n, "I"))


@ext(r"^" + VU + r"::vector\((std::allocator<unsigned long> const&)?\)$")
def _vuempty(ex, st, args, dn):
    vec_set(ex, st, args[0], *new_int_block(ex, st, 0, lambda i: tm.const(0, "I")))
    return ex.ret(st, None)


@ext(r"^" + VU + r"::(~vector|_M_\w*deallocate|reserve|shrink_to_fit)\(")
def _vunop(ex, st, args, dn):
    return ex.ret(st, None)


@ext(r"^(" + VU + r"::push_back\(unsigned long (const&|&&)\)|unsigned long& " + VU +
     r"::emplace_back<unsigned long( const)?&?>\(unsigned long( const)?&&?\))$")
def _vupush(ex, st, args, dn):
    v = ex.load(st, args[1], ir.INT(64), ex.mod)
    return ex.ret(st, scalar_push(ex, st, args[0], 8, tm.lift(v, "I") if isinstance(v, int) else v))


# --- boost::circular_buffer<float>: at the address of the object, the array of its elements (oldest first), then
# its capacity; the number of elements where the library keeps it too
CB = r"boost::circular_buffer<float, std::allocator<float>>"
CB_CAP, CB_SIZE = 8, 32


def ring_set(ex, st, p, cap, n, fill, name="ring"):
    q = st.alloc(1 << 62, name)
    n = tm.lift(n, "I")
    st.wblock(q.blk).seq = Seq(SeqBase(name, 4, n, lambda i, f, nb: fill(i)))
    ex.store(st, p, q, ir.PTR, ex.mod)
    ex.store(st, ex.padd(p, CB_CAP), tm.lift(cap, "I"), ir.INT(64), ex.mod)
    ex.store(st, ex.padd(p, CB_SIZE), n, ir.INT(64), ex.mod)


def ring_get(ex, st, p):
    """(pointer to the elements, capacity, number of elements)"""
    q = ex.load(st, p, ir.PTR, ex.mod)
    if not isinstance(q, Ptr) or q == NULL:
        raise Unsupported("circular buffer that was not built by its constructor")
    cap, n = (tm.lift(ex.cint(ex.load(st, ex.padd(p, o), ir.INT(64), ex.mod)), "I") for o in (CB_CAP, CB_SIZE))
    return q, cap, n


def forks(ex, st, c):
    """[(state, truth of c)] for the possible truth values"""
    k = c is TRUE if c in (TRUE, FALSE) else st.known(c)
    if k is None and ex.feas is not None:
        k = ex.feas(st, c)
    if k is not None:
        return [(st, k)]
    s2 = st.fork()
    s2.assume(tm.not_(c))
    st.assume(c)
    return [(st, True), (s2, False)]


def ring_at(ex, st, q):
    seq = st.mem[q.blk].seq
    return lambda i: ex.seq_get(seq, i, 0, 4)


@ext(r"^" + CB + r"::circular_buffer\((std::allocator<float> const&)?\)$")
def _cbempty(ex, st, args, dn):
    ring_set(ex, st, args[0], 0, 0, lambda i: tm.const(0))
    return ex.ret(st, None)


@ext(r"^" + CB + r"::circular_buffer\(unsigned long(, std::allocator<float> const&)?\)$")
def _cbcap(ex, st, args, dn):
    ring_set(ex, st, args[0], ex.cint(args[1]), 0, lambda i: tm.const(0))
    return ex.ret(st, None)


@ext(r"^" + CB + r"::circular_buffer\(unsigned long, float const&(, std::allocator<float> const&)?\)$")
def _cbfill(ex, st, args, dn):
    v = ex.load(st, args[2], ir.FLOAT, ex.mod)
    ring_set(ex, st, args[0], ex.cint(args[1]), ex.cint(args[1]), lambda i: v)
    return ex.ret(st, None)


@ext(r"^" + CB + r"::(~circular_buffer)\(")
def _cbnop(ex, st, args, dn):
    return ex.ret(st, None)


@ext(r"^" + CB + r"::(clear|erase_begin_all)\(\)$")
def _cbclear(ex, st, args, dn):
    q, cap, n = ring_get(ex, st, args[0])
    ring_set(ex, st, args[0], cap, 0, lambda i: tm.const(0))
    return ex.ret(st, None)


@ext(r"^" + CB + r"::r?set_capacity\(unsigned long\)$")
def _cbsetcap(ex, st, args, dn):
    q, cap, n = ring_get(ex, st, args[0])
    c = tm.lift(ex.cint(args[1]), "I")
    at = ring_at(ex, st, q)
    out = []
    for s, fits in forks(ex, st, tm.le(n, c)):
        # set_capacity drops the newest elements that do not fit, rset_capacity the oldest
        d = tm.sub(n, c)
        ring_set(ex, s, args[0], c, n if fits else c, at if fits or "rset_" not in dn else lambda i: at(tm.add(i, d)))
        out += ex.ret(s, None)
    return out


@ext(r"^" + CB + r"::push_back\((float const&|float&&|float)\)$")
def _cbpush(ex, st, args, dn):
    v = ex.load(st, args[1], ir.FLOAT, ex.mod)
    q, cap, n = ring_get(ex, st, args[0])
    at = ring_at(ex, st, q)
    one = tm.const(1, "I")
    out = []
    for s, full in forks(ex, st, tm.eq(n, cap)):
        if not full:
            ring_set(ex, s, args[0], cap, tm.add(n, one), lambda i: _ite(tm.eq(i, n), v, at(i)))
            out += ex.ret(s, None)
            continue
        for s2, none in forks(ex, s, tm.eq(cap, tm.const(0, "I"))):
            if not none:
                ring_set(ex, s2, args[0], cap, n, lambda i: _ite(tm.eq(tm.add(i, one), n), v, at(tm.add(i, one))))
            out += ex.ret(s2, None)
    return out


@ext(r"^" + CB + r"::(size|capacity|full|empty)\(\) const$")
def _cbquery(ex, st, args, dn):
    q, cap, n = ring_get(ex, st, args[0])
    k = re.search(r"::(\w+)\(\) const$", dn).group(1)
    v = {"size": n, "capacity": cap, "full": tm.eq(n, cap), "empty": tm.eq(n, tm.const(0, "I"))}[k]
    return ex.ret(st, v)


@ext(r"^" + CB + r"::(operator\[\]|front|back)\((unsigned long)?\)( const)?$")
def _cbat(ex, st, args, dn):
    q, cap, n = ring_get(ex, st, args[0])
    i = ex.cint(args[1]) if "operator" in dn else 0 if "front" in dn else tm.sub(n, tm.const(1, "I"))
    return ex.ret(st, ex.padd(q, 4 * i if isinstance(i, int) else tm.mul(tm.const(4, "I"), tm.lift(i, "I"))))
