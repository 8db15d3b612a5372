"""Verification of one specification against the extracted body: builds the symbolic pre-state, executes
the body, generates the obligations."""
import random
import re
import ir
import symex
import contract as ct
import term as tm
from term import TRUE, FALSE
from symex import Ptr, State, Unsupported
from contract import VF


class InputKind:
    """generator of constrained inputs: leaves(prefix) -> (terms in memory order, rules, hyps, sampler)"""
    def __init__(self, fn):
        self.fn = fn

    def make(self, prefix):
        return self.fn(prefix)


class Obl:
    __slots__ = ("fn", "name", "pc", "goal", "kind", "rules", "fp", "cfg", "result", "code", "specv", "path")

    def __init__(self, fn, name, pc, goal, kind, rules, fp, cfg):
        self.fn, self.name, self.pc, self.goal, self.kind = fn, name, pc, goal, kind
        self.rules, self.fp, self.cfg = rules, fp, cfg
        self.result = None


class Config:
    """one symbolic pre-state of a specification (an aliasing / input-shape variant)"""

    def __init__(self, sp, label):
        self.sp, self.label = sp, label
        self.params = []      # (name, ctype, role, arg, description)
        self.hyps = []
        self.rules = {}
        self.samplers = []    # (vars, fn(rng) -> values)
        self.cells = {}       # (blk, off) -> (size, term)
        self.iters = {}       # blk of iterator -> blk of the floats
        self.vecs = {}        # blk of vector -> (n term, seq name, data)
        self.pvecs = {}       # the same for vectors of structs -> (n term, name, class, data)
        self.paths = []
        self.throw = None
        self.alias = None
        self.bits = None


def build_state(ex, sp, f, types, inputs, alias, label):
    st = State()
    cfg = Config(sp, label)
    cfg.types = types
    ps = ct.signature_params(sp.sig, f, types)
    args = []
    byidx = {}
    argno = [i for i, p in enumerate(ps) if p[2] != "sret"]
    for i, (name, t, role) in enumerate(ps):
        key = name
        reg = f.params[i][1]
        if role == "sret":
            sc = ct.sret_class(f)
            size = 24 if sc.startswith("std::vector") else types.size(sc)
            p = st.alloc(size, "ret")
            args.append(p)
            cfg.params.append((name, t, role, p, None))
            continue
        if alias is not None and argno.index(i) == alias[1]:
            p = byidx[alias[0]]
            args.append(p)
            cfg.params.append((name, t, role, p, ("alias", alias[0])))
            continue
        nm = reg.lstrip("%") if not re.match(r"%?\d+$", reg) else name
        a = build_arg(ex, st, cfg, nm, t, f.params[i][0], inputs.get(key, inputs.get(argno.index(i))))
        args.append(a)
        byidx[argno.index(i)] = a
        cfg.params.append((name, t, role, a, None))
    cfg.pre = st.fork()
    cfg.alias = alias
    return st, args, cfg


def scalar_var(ex, cfg, name, kind, size):
    if kind in "RD":
        s = ex.sem.sort(ir.FLOAT if kind == "R" else ir.DOUBLE)
        return tm.var(name, s)
    if kind == "B":
        return tm.var(name, "B")
    v = tm.var(name, "I")
    bits = 8 * size
    if kind == "U":
        cfg.hyps += [tm.le(tm.const(0, "I"), v), tm.lt(v, tm.const(1 << bits, "I"))]
    else:
        cfg.hyps += [tm.le(tm.const(-(1 << (bits - 1)), "I"), v), tm.lt(v, tm.const(1 << (bits - 1), "I"))]
    return v


def build_arg(ex, st, cfg, name, t, irty, kind):
    types = ex.types
    base = t
    ptr = False
    if t[-1] in "&*":
        ptr = True
        base = re.sub(r"\s*const$", "", t[:-1].strip())
    k = ct.scalar_kind(base)
    if k:
        if kind is not None and not isinstance(kind, (InputKind,)):
            v = kind if isinstance(kind, tm.T) else tm.const(kind, "I" if k[1] in "IU" else "R")
            if k[1] == "B":
                v = TRUE if kind else FALSE
        else:
            v = scalar_var(ex, cfg, name, k[1], k[0])
            if isinstance(kind, InputKind):
                terms, rules, hyps, samp = kind.make(name)
                v = terms[0]
                cfg.rules.update(rules)
                cfg.hyps += hyps
                cfg.samplers += samp
        if isinstance(v, tm.T) and v.sort == "I" and tm.isc(v):
            v = v.data % (1 << (8 * k[0]))
        if not ptr:
            return v
        p = st.alloc(k[0], name)
        st.wblock(p.blk).cells[0] = (k[0], v)
        cfg.cells[(p.blk, 0)] = (k[0], v)
        return p
    if base.startswith("__gnu_cxx::__normal_iterator<float*") and ptr:
        # an iterator into a window of floats (4 before, 24 after the position)
        p = st.alloc(8, name)
        d = st.alloc(4 * 28, name + ".window")
        b = st.wblock(d.blk)
        for i in range(28):
            v = tm.var("%s[%d]" % (name, i - 4), ex.sem.sort(ir.FLOAT))
            b.cells[4 * i] = (4, v)
            cfg.cells[(d.blk, 4 * i)] = (4, v)
        q = Ptr(d.blk, 16)
        st.wblock(p.blk).cells[0] = (8, q)
        cfg.iters[p.blk] = d.blk
        return p
    if base.startswith("std::vector<float"):
        p = st.alloc(24, name)
        if kind is not None and not isinstance(kind, InputKind):
            n = kind[1] if isinstance(kind, tuple) else kind
            vals = [tm.var("%s[%d]" % (name, i), ex.sem.sort(ir.FLOAT)) for i in range(n)]
            d, nb = symex.new_float_block(ex, st, n, lambda i: vals[i.data], name + ".data")
            symex.vec_set(ex, st, p, d, nb)
            cfg.vecs[p.blk] = (n, vals, d)
        else:
            n = tm.var(name + ".size", "I")
            lo = 0
            if isinstance(kind, InputKind):
                lo = kind.lo
            cfg.hyps += [tm.le(tm.const(lo, "I"), n), tm.lt(n, tm.const(1 << 60, "I"))]
            st.assume(tm.le(tm.const(0, "I"), n))
            if lo:
                st.assume(tm.le(tm.const(lo, "I"), n))
            d = st.alloc(1 << 62, name + ".data")
            b = st.wblock(d.blk)
            b.seq = symex.Seq(symex.named_float_seq(name, n, ex.sem.sort(ir.FLOAT)))
            symex.vec_set(ex, st, p, d, tm.mul(tm.const(4, "I"), n))
            cfg.vecs[p.blk] = (n, name, d)
        return p
    m = re.match(r"std::vector<(AL::Math::\w+), std::allocator<\1\s*>\s*>", base)
    if m:
        cls = m.group(1)
        p = st.alloc(24, name)
        if isinstance(kind, int):
            n = kind
        else:
            n = tm.var(name + ".size", "I")
            cfg.hyps += [tm.le(tm.const(0, "I"), n), tm.lt(n, tm.const((1 << 63) // types.size(cls), "I"))]
            st.assume(tm.le(tm.const(0, "I"), n))
        d = symex.pvec_new(ex, st, p, cls, n, symex.named_struct_seq(ex, cls, name), name + ".data")
        cfg.pvecs[p.blk] = (n, name, cls, d)
        return p
    if types.is_class(base):
        p = st.alloc(types.size(base), name)
        fill_object(ex, st, cfg, name, p, base, kind)
        return p
    raise Unsupported("parameter type " + t)


def fill_object(ex, st, cfg, name, p, cls, kind):
    lv = ex.types.leaves(cls)
    if kind is None:
        terms = [scalar_var(ex, cfg, name + "." + path, k, s) for o, s, k, path in lv]
    else:
        terms, rules, hyps, samp = kind.make(name)
        cfg.rules.update(rules)
        cfg.hyps += hyps
        cfg.samplers += samp
        assert len(terms) == len(lv), (cls, len(terms))
    b = st.wblock(p.blk)
    for (o, s, k, path), v in zip(lv, terms):
        b.cells[p.off + o] = (s, v)
        cfg.cells[(p.blk, p.off + o)] = (s, v)


# ------------------------------------------------------------------ definedness
_PART = {}


def partial(t):
    """does t contain an operation that is not defined everywhere?"""
    r = _PART.get(t.id)
    if r is None:
        todo = [t]
        seen = set()
        r = False
        while todo and not r:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            r = x.op in ("sqrt", "acos", "asin", "specialfp") or x.op in ("forall", "rsum") and partial(x.data) or \
                x.op in ("div", "fmod") and not tm.isc(x.args[1]) or _PART.get(x.id, False)
            todo.extend(x.args)
        _PART[t.id] = r
    return r


def definedness(t, out, seen):
    """conditions under which every operation in t is defined; guards from ite, and from the total conjuncts
    (disjuncts) of a conjunction (disjunction): those settle its value when they are false (true)"""
    def walk(t, guards):
        stack = [(t, guards)]
        while stack:
            x, g = stack.pop()
            key = (x.id, g)
            if key in seen or (x.id, ()) in seen:
                continue
            seen.add(key)
            if x.op == "ite":
                stack.append((x.args[0], g))
                c = x.args[0]
                stack.append((x.args[1], g + (c,)))
                stack.append((x.args[2], g + (tm.not_(c),)))
                continue
            if x.op in ("and", "or") and partial(x):
                tot = tuple(a for a in x.args if not partial(a))
                if tot:
                    h = g + (tot if x.op == "and" else tuple(tm.not_(a) for a in tot))
                    for a in x.args:
                        stack.append((a, g if a in tot else h))
                    continue
            if x.op in ("forall", "rsum"):
                # the body at an arbitrary index in range
                k = tm.fresh("j", "I")
                inner = []
                definedness(tm.instance(x, k), inner, set())
                for c in inner:
                    c = tm.forall(x.args[0], k, c) if tm.depends(c, k) else c
                    if c is not TRUE:
                        out.append(tm.implies(tm.and_(*g), c) if g else c)
                for a in x.args:
                    if not tm.isc(a):
                        stack.append((a, g))
                continue
            cond = None
            if x.sort == "R":
                if x.op == "div" and not tm.isc(x.args[1]):
                    cond = tm.ne(x.args[1], 0)
                elif x.op == "sqrt":
                    cond = tm.le(tm.const(0), x.args[0])
                elif x.op in ("acos", "asin"):
                    cond = tm.and_(tm.le(x.args[0], 1), tm.le(-1, x.args[0]))
                elif x.op == "fmod":
                    cond = tm.ne(x.args[1], 0) if not tm.isc(x.args[1]) else None
                elif x.op == "specialfp":
                    cond = FALSE
            if cond is not None and cond is not TRUE:
                out.append(tm.implies(tm.and_(*g), cond) if g else cond)
            for a in x.args:
                stack.append((a, g))
    walk(t, ())


def exc_matches(info, want):
    return info == want or want.startswith("std::") and info == "_ZTISt%d%s" % (len(want) - 5, want[5:])


def obligations(sp, ex, f, types, inputs, alias, label):
    """symbolic execution + contract -> obligations (and the Config for replay)"""
    st, args, cfg = build_state(ex, sp, f, types, inputs, alias, label)
    fp = ex.sem.name == "ieee"
    obls = []
    rules = cfg.rules
    c = ct.eval_spec(sp, ex, cfg.pre.fork(), args, f, "verify", types)
    rules.update(c.rules)
    hyps = list(cfg.hyps)
    for r in c.reqs:
        hyps.append(r)
    for h in hyps:
        st.assume(h)
    cfg.reqs = list(c.reqs)
    cfg.spec = c
    cfg.args = args
    cfg.rettype = f.retty
    nobl0 = len(ex.obls)
    outs = ex.call(f.name, args, st)
    nm = ct.short(sp.sig) + ((" [" + label + "]") if label else "")
    mk = lambda name, pc, goal, kind: obls.append(Obl(nm, name, pc, goal, kind, rules, fp, cfg))
    # spec-definedness is assumed: where the specification's own terms are undefined it says nothing
    specterms = [v for _, v in c.mods.values() if isinstance(v, tm.T)]
    if c.result is not None and not isinstance(c.result, ct.VecResult):
        specterms += [x for x in ct.flatten_val(c.result) if isinstance(x, tm.T)]
    specdef = []
    sn = set()
    if not fp:
        for t in specterms + [c.throw, c.may_throw]:
            definedness(t, specdef, sn)
    for (name, pc, goal, kind) in ex.obls[nobl0:]:
        mk(name, pc, goal, kind)
    npaths = 0
    for oi, o in enumerate(outs):
        npaths += 1
        pc = list(o.state.pc)
        tag = "path %d" % (oi + 1)
        path = {"pc": pc, "kind": o.kind, "out": {}, "ret": None, "info": o.info}
        cfg.paths.append(path)
        if o.kind == "abort":
            mk("no abort reachable (%s: %s)" % (tag, o.info), pc, FALSE, "abort")
            continue
        if o.kind == "throw":
            mk("throws only when specified (%s)" % tag, pc, tm.or_(c.throw, c.may_throw), "throw")
            if c.throw_type and not exc_matches(o.info, c.throw_type):
                mk("exception type (%s: %s)" % (tag, o.info), pc, FALSE, "throw")
            if not sp.opts.get("throw_frame", True):
                continue
        else:
            if c.throw is not FALSE:
                mk("throws whenever specified (%s)" % tag, pc, tm.not_(c.throw), "throw")
        pcs = pc + (specdef if o.kind == "ret" else [])
        outterms = []
        # frame and modifications
        final = o.state
        same = lambda a, b: tm.mk("same", (a, b), "B") if fp and a is not b else (TRUE if a is b else tm.eq(a, b))
        for blk, b0 in cfg.pre.mem.items():
            b1 = final.mem.get(blk)
            if b1 is None or b1 is b0 or blk in c.frame_free:
                pass
            if b0.name == "ret":
                continue
            isvec = blk in cfg.vecs or blk in cfg.pvecs or any(p.blk == blk for p, *_ in c.vecs)
            if isvec:
                continue
            offs = set(b0.cells) | set(off for (bb, off) in c.mods if bb == blk)
            if blk in c.frame_free:
                continue
            for off in sorted(offs):
                exp = None
                listed = (blk, off) in c.mods
                if listed and o.kind == "ret":
                    exp = c.mods[(blk, off)][1]
                    if isinstance(exp, ct.Havoc):
                        outterms.append(cell(ex, final, b1, off, c.mods[(blk, off)][0]))
                        continue
                elif off in b0.cells:
                    exp = b0.cells[off][1]
                    if b1 is b0:
                        continue
                size = c.mods[(blk, off)][0] if listed else b0.cells[off][0]
                got = cell(ex, final, b1, off, size)
                path["out"][(blk, off)] = got
                cname = cellname(types, cfg, b0, blk, off)
                if isinstance(exp, tm.T) and isinstance(got, int):
                    if exp.sort == "B":
                        got = TRUE if got & 1 else FALSE
                    elif exp.sort == "I":
                        got = signed(got, size)
                    elif exp.sort == "R" and got == 0:
                        got = tm.const(0)
                if isinstance(exp, int) and isinstance(got, tm.T):
                    if got.sort == "I":
                        exp = signed(exp, size)
                if isinstance(exp, tm.T) and isinstance(got, tm.T):
                    if exp.sort == "B" and got.sort == "I":
                        got = ex.trunc(got, 8, 1)
                    if exp.sort != got.sort:
                        mk("%s %s (%s): representation" % (cname, "value" if listed else "unchanged", tag), pc, FALSE, "type")
                        continue
                    g = same(got, exp)
                    outterms.append(got)
                    if g is not TRUE:
                        mk("%s %s (%s)" % (cname, "as specified" if listed else "unchanged", tag), pcs, g,
                           "post" if listed else "frame")
                    elif listed:
                        mk("%s as specified (%s)" % (cname, tag), pcs, TRUE, "post")
                elif got != exp and not (got is exp):
                    mk("%s %s (%s): %r vs %r" % (cname, "as specified" if listed else "unchanged", tag, got, exp), pc,
                       FALSE, "post" if listed else "frame")
                elif listed:
                    mk("%s as specified (%s)" % (cname, tag), pc, TRUE, "post")
        if o.kind == "throw":
            continue
        # vectors
        for blk in set(cfg.vecs) | set(p.blk for p, *_ in c.vecs if p.blk in cfg.pre.mem):
            spec_v = next(((n, at) for p, n, at in c.vecs if p.blk == blk), None)
            vec_obls(ex, cfg, mk, o.state, Ptr(blk, 0), spec_v, pcs, tag, outterms, path)
        for blk in cfg.pvecs:
            spec_v = next(((n, at) for p, cls, n, at in c.pvecs if p.blk == blk), None)
            pvec_obls(ex, cfg, mk, o.state, Ptr(blk, 0), spec_v, pcs, tag, outterms)
        # return value
        resleaves = None
        if c.result_ref is not None:
            mk("returns the documented object (%s)" % tag, pc, TRUE if o.value == c.result_ref else FALSE, "result")
        elif isinstance(c.result, ct.VecResult):
            vec_obls(ex, cfg, mk, o.state, c._sret, (c.result.n, c.result.at), pcs, tag, outterms, path, "result")
        elif c.result is not None or (c.post and (hasattr(c, "_sret") or o.value is not None)):
            if hasattr(c, "_sret"):
                cls = ct.sret_class(f)
                names = [p for *_, p in types.leaves(cls)]
                got = [c.read(o.state, ex.padd(c._sret, off), s, k) for off, s, k, p in types.leaves(cls)]
            else:
                got = ct.flatten_val(o.value)
                names = ["[%d]" % i for i in range(len(got))] if len(got) > 1 else [""]
            resleaves = got
            path["ret"] = got
            exp = ct.flatten_val(c.result) if c.result is not None else [ct.Havoc()] * len(got)
            if len(exp) != len(got):
                # padded register (e.g. {<2 x float>, float} read as 4)
                raise Unsupported("result shape of %s: %d vs %d" % (sp.sig, len(exp), len(got)))
            for g, e, n2 in zip(got, exp, names):
                if isinstance(e, ct.Havoc):
                    if isinstance(g, tm.T):
                        outterms.append(g)
                    continue
                e = tm.lift(e, "R") if not isinstance(e, tm.T) else e
                if isinstance(g, int):
                    g = signed(g, 4) if e.sort == "I" else g
                    if e.sort == "B":
                        g = TRUE if g else FALSE
                if isinstance(g, tm.T) and g.sort == "I" and e.sort == "B":
                    g = ex.trunc(g, 8, 1)
                if not isinstance(g, tm.T) or g.sort != e.sort:
                    mk("result%s representation (%s): %r" % (n2, tag, g), pc, FALSE, "type")
                    continue
                outterms.append(g)
                goal = tm.iff(g, e) if e.sort == "B" else same(g, e)
                mk("result%s as specified (%s)" % ("." + n2 if n2 else "", tag), pcs, goal, "result")
        elif f.retty.k not in ("void",) and not sp.opts.get("ignore_result"):
            pass
        for name, fn in c.post:
            mk("%s (%s)" % (name, tag), pcs, fn(resleaves, ct.PostReader(c, o.state)), "ensures")
        # definedness of what the code computes
        if not fp and not sp.opts.get("nodef"):
            dd, seen = [], set()
            for t in outterms:
                definedness(t, dd, seen)
            dset = []
            for d in dd:
                if d.id in [x.id for x in specdef]:
                    continue
                dset.append(d)
            for d in dset:
                mk("operation defined: %s (%s)" % (tm.show(d)[:100], tag), pcs, d, "defined")
            # path conditions
            dd, seen = [], set()
            for i, p in enumerate(pc):
                d1 = []
                definedness(p, d1, seen)
                for d in d1:
                    mk("test defined: %s (%s)" % (tm.show(d)[:100], tag), pcs[:i] + specdef, d, "defined")
    cfg.npaths = npaths
    return obls, cfg


def signed(v, size):
    M = 1 << (8 * size)
    return tm.const(v - M if v >= M // 2 else v, "I")


def cell(ex, st, b, off, size):
    if b is None:
        raise Unsupported("freed parameter object")
    c = b.cells.get(off)
    if c is not None and c[0] == size:
        return c[1]
    return ex.load_raw(st, b, off, size, ir.FLOAT if size == 4 else ir.INT(8 * size))


def cellname(types, cfg, b, blk, off):
    for (name, t, role, a, d) in cfg.params:
        if isinstance(a, Ptr) and a.blk == blk:
            base = re.sub(r"\s*const$", "", (t or "").rstrip("&* ").strip())
            if types.is_class(base):
                for o, s, k, p in types.leaves(base):
                    if a.off + o == off:
                        return "%s.%s" % (b.name, p)
            return b.name
    return "%s+%d" % (b.name, off)


def vec_obls(ex, cfg, mk, st, ptr, spec_v, pcs, tag, outterms, path, label=None):
    """length and every element of a std::vector<float> equal the specification (or are unchanged)"""
    nm = label or cfg.pre.mem[ptr.blk].name
    if spec_v is None:
        n0, base, d0 = cfg.vecs[ptr.blk]
        pre = cfg.pre
        sd0 = symex.vec_fields(ex, pre, ptr)[0]
        n = n0
        at = lambda i: symex.read_elem(ex, pre, sd0, i)
    else:
        n, at = spec_v
    got_n = symex.vec_len(ex, st, ptr)
    lift = lambda x: tm.lift(x, "I")
    mk("%s: length (%s)" % (nm, tag), pcs, tm.eq(lift(got_n), lift(n)), "post")
    d = symex.vec_fields(ex, st, ptr)[0]
    same = (lambda a, b: tm.mk("same", (a, b), "B") if a is not b else TRUE) if ex.sem.name == "ieee" else tm.eq
    gn = ex.cint(lift(n))
    if isinstance(gn, int):
        gg = ex.cint(lift(got_n))
        if not isinstance(gg, int):
            return
        path.setdefault("vec", {})[nm] = []
        for i in range(min(gn, gg)):
            g = symex.read_elem(ex, st, d, i)
            e = at(tm.const(i, "I"))
            outterms.append(g)
            mk("%s[%d] as specified (%s)" % (nm, i, tag), pcs, same(g, e), "post")
        return
    if tm.eq(lift(n), tm.const(0, "I")) is TRUE:
        return
    k = tm.fresh("k", "I")
    rng = [tm.le(tm.const(0, "I"), k), tm.lt(k, lift(n))]
    s2 = st.fork()
    for r in rng:
        s2.assume(r)
    if d == symex.NULL:
        mk("%s: contents (%s)" % (nm, tag), pcs + rng, FALSE, "post")
        return
    g = symex.read_elem(ex, s2, d, k)
    e = at(k)
    outterms.append(g)
    mk("%s[k] for every 0 <= k < size (%s)" % (nm, tag), pcs + rng, same(g, e), "post")


def pvec_obls(ex, cfg, mk, st, ptr, spec_v, pcs, tag, outterms):
    """length and every element of a vector of structs equal the specification (or are unchanged)"""
    n0, base, cls, d0 = cfg.pvecs[ptr.blk]
    nm = cfg.pre.mem[ptr.blk].name
    lv = ex.types.leaves(cls)
    lift = lambda x: tm.lift(x, "I")
    if spec_v is None:
        if all(st.mem.get(b) is cfg.pre.mem[b] for b in (ptr.blk, d0.blk)):
            return
        n, at = n0, lambda i: ct.pvec_elem(ex, cfg.pre, d0, cls, i)
    else:
        n, at = spec_v
    got_n = symex.vec_len(ex, st, ptr, ex.types.size(cls))
    mk("%s: length (%s)" % (nm, tag), pcs, tm.eq(lift(got_n), lift(n)), "post")
    if tm.isc(lift(n)) and lift(n).data == 0:
        return
    d = symex.vec_fields(ex, st, ptr)[0]
    if d == symex.NULL or st.mem[d.blk].seq is None or d.off != 0:
        mk("%s: contents (%s)" % (nm, tag), pcs + [tm.lt(tm.const(0, "I"), lift(n))], FALSE, "post")
        return
    k = tm.fresh("k", "I")
    rng = [tm.le(tm.const(0, "I"), k), tm.lt(k, lift(n))]
    got = ct.pvec_elem(ex, st, d, cls, k)
    for (o, s, kd, path), g, e in zip(lv, got, at(k)):
        outterms.append(g)
        mk("%s[k].%s for every 0 <= k < size (%s)" % (nm, path, tag), pcs + rng, tm.eq(g, tm.lift(e)), "post")
