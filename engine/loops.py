"""Loops with an undecided exit test: loop invariants are inferred and then checked.

One iteration is executed from an arbitrary state of the k-th iteration.  Memory the body changes is either a counter
or pointer advancing by a constant step, or gets a candidate closed form in k (a flag, a sum, an element-wise map, the
value of the last iteration), or is left arbitrary.  The candidates are checked as invariants: they hold at k = 0 by
construction and the obligations "loop invariant is preserved" are discharged by the provers like every other one.
The paths that leave the loop continue from iteration k with the facts  k >= 0  and  "every earlier iteration stayed"."""
import ir
import term as tm
from symex import as_flag, of_flag
import symex
from symex import Ptr, FnPtr, Opaque, Unsupported, Seq, SeqBase, State, Outcome
from term import TRUE, FALSE

ZERO = tm.const(0, "I")
DEBUG = [False]


class Info:
    def __init__(self, header):
        self.header, self.body, self.exits = header, {header}, set()


def succs(f, b):
    I = f.insts(b)[-1]
    if I.op == "br":
        return [I.a[1]] if I.a[0] is None else [I.a[1], I.a[2]]
    if I.op == "switch":
        return [I.a[1]] + [l for _, l in I.a[2]]
    if I.op == "invoke":
        return [I.a[2], I.a[3]]
    return []


def loops_of(f):
    r = f.parsed.get("loops!")
    if r is not None:
        return r
    S = {b: succs(f, b) for b in f.blocks}
    reach, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b not in reach:
            reach.add(b)
            st.extend(S[b])
    P = {b: [a for a in reach if b in S[a]] for b in reach}
    dom = {b: set(reach) for b in reach}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in reach:
            if b == f.entry:
                continue
            n = set.intersection(*[dom[p] for p in P[b]]) | {b} if P[b] else {b}
            if n != dom[b]:
                dom[b], ch = n, True
    r = {}
    for u in reach:
        for h in S[u]:
            if h in dom[u]:
                L = r.setdefault(h, Info(h))
                st = [u]
                while st:
                    x = st.pop()
                    if x not in L.body:
                        L.body.add(x)
                        st.extend(P[x])
    for L in r.values():
        L.exits = {s for b in L.body for s in S[b] if s not in L.body}
    f.parsed["loops!"] = r
    return r


# ------------------------------------------------------------------ values
def signed(v, n):
    M = 1 << (8 * n)
    return v - M if v >= M // 2 else v


def as_int(v, n):
    """integer term of an integer cell value, or None"""
    if isinstance(v, int):
        return tm.const(signed(v, n), "I")
    if isinstance(v, tm.T) and v.sort == "I":
        return v
    return None


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Ptr, FnPtr)) and isinstance(b, (int, Ptr, FnPtr)):
        return type(a) is type(b) and a == b
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    return False


def diff(pre, post):
    """memory of pre that differs in post: keys ("c", blk, off, size), ("q", blk), ("n", blk)"""
    out = {}
    for bid, b0 in pre.mem.items():
        b1 = post.mem.get(bid)
        if b1 is None or b1 is b0:
            continue
        if (b0.seq is None) != (b1.seq is None):
            raise Unsupported("loop changes the representation of %s" % b0.name)
        if b0.seq is not None:
            if b0.seq is not b1.seq and (b0.seq.base is not b1.seq.base or b0.seq.upd != b1.seq.upd):
                out[("q", bid)] = None
                if b0.seq.base.length is not b1.seq.base.length:
                    out[("n", bid)] = None
            continue
        for off in set(b0.cells) | set(b1.cells):
            c0, c1 = b0.cells.get(off), b1.cells.get(off)
            if c0 is not None and c1 is not None and c0[0] == c1[0] and same_val(c0[1], c1[1]):
                continue
            if c0 is not None and c1 is not None and c0[0] != c1[0] or c1 is None:
                raise Unsupported("loop changes the layout of %s" % b0.name)
            out[("c", bid, off, c1[0])] = None
    return out


def get(st, key):
    b = st.mem[key[1]]
    if key[0] == "c":
        c = b.cells.get(key[2])
        return c[1] if c is not None else None
    if key[0] == "n":
        return b.seq.base.length
    return b.seq


def subst_val(v, m):
    if isinstance(v, tm.T):
        return tm.subst(v, m)
    if isinstance(v, Ptr) and isinstance(v.off, tm.T):
        o = tm.subst(v.off, m)
        return Ptr(v.blk, o.data if tm.isc(o) else o)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, tuple) and v and v[0] == "cells":
        return ("cells", tuple((n, subst_val(x, m)) for n, x in v[1]))
    return v


def subst_seq(s, m):
    b = s.base
    ln = b.length if isinstance(b.length, int) else tm.subst(b.length, m)
    nb = SeqBase(b.name, b.esize, ln, lambda i, f, n: tm.subst(b.get(i, f, n), m))
    return Seq(nb, tuple((tm.subst(i, m), f, n, subst_val(v, m)) for i, f, n, v in s.upd))


def subst_state(st, pre, m):
    for bid in list(st.mem):
        b = st.mem[bid]
        if pre.mem.get(bid) is b:
            continue
        b = st.wblock(bid)
        if b.seq is not None:
            b.seq = subst_seq(b.seq, m)
        for o, (n, v) in list(b.cells.items()):
            b.cells[o] = (n, subst_val(v, m))
    pc, st.pc, st.pcs = st.pc, [], set()
    for c in pc:
        st.assume(tm.subst(c, m))
    return not any(c is FALSE for c in st.pc)


# ------------------------------------------------------------------ candidates
class Cand:
    """what a changed piece of memory holds at the start of iteration k"""

    def __init__(self, key, kind, **kw):
        self.key, self.kind = key, kind       # ind / hav / drop / opaque / closed
        self.__dict__.update(kw)


def havoc(ex, key, v0, v1):
    n = key[3] if key[0] == "c" else 8
    name = "loop"
    if key[0] == "q":
        nm = tm.fresh("lseq", "I").data
        b = v0.base
        base = lambda i, f, nb: tm.mk("sel", (i,), b.get(i, f, nb).sort, "%s.%d" % (nm, f))
        return Cand(key, "hav", seq=nm, base=base)
    if v0 is None:
        return Cand(key, "drop")
    if n == 1 and as_flag(v0) is not None and as_flag(v1) is not None:
        return Cand(key, "hav", var=tm.fresh(name, "B"), flag=True)
    if as_int(v0, n) is not None:
        return Cand(key, "hav", var=tm.fresh(name, "I"), flag=False)
    if isinstance(v0, tm.T):
        return Cand(key, "hav", var=tm.fresh(name, v0.sort), flag=False)
    return Cand(key, "opaque")


def guess(ex, key, v0, v1):
    """first guess from the values before and after one iteration"""
    if key[0] == "n":
        a, b = tm.lift(v0, "I"), tm.lift(v1, "I")
        s = tm.sub(b, a)
        if tm.isc(s):
            return Cand(key, "ind", step=s.data, init=a)
        raise Unsupported("array length changes irregularly in a loop")
    if key[0] == "q" or v0 is None:
        return havoc(ex, key, v0, v1)
    n = key[3]
    if n >= 2:
        a, b = as_int(v0, n), as_int(v1, n)
        if a is not None and b is not None:
            s = tm.sub(b, a)
            if tm.isc(s) and s.data != 0:
                return Cand(key, "ind", step=signed(s.data % (1 << 8 * n), n), init=a)
        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.blk == v1.blk and v0.blk != 0:
            s = tm.sub(tm.lift(v1.off, "I"), tm.lift(v0.off, "I"))
            if tm.isc(s) and s.data != 0:
                return Cand(key, "ind", step=s.data, init=tm.lift(v0.off, "I"), blk=v0.blk)
    return havoc(ex, key, v0, v1)


def value_at(c, k):
    """value of an induction candidate at iteration k"""
    t = tm.add(c.init, tm.mul(tm.const(c.step, "I"), k))
    if c.key[0] == "n":
        return t
    if hasattr(c, "blk"):
        return Ptr(c.blk, t.data if tm.isc(t) else t)
    return t.data % (1 << (8 * c.key[3])) if tm.isc(t) else t


def install(st, cands, k):
    for c in cands.values():
        if c.kind == "closed" and c.key[0] == "q" or c.kind == "hav" and c.key[0] == "q":
            b = st.wblock(c.key[1])
            o = b.seq.base
            ln = cands[("n", c.key[1])] if ("n", c.key[1]) in cands else None
            length = value_at(ln, k) if ln is not None else o.length
            g = c.base if c.kind == "hav" else (lambda i, f, nb, c=c: c.at(k, i, f, nb))
            b.seq = Seq(SeqBase(o.name, o.esize, length, g))
    for c in cands.values():
        key = c.key
        if key[0] != "c":
            continue
        b = st.wblock(key[1])
        n = key[3]
        if c.kind == "ind":
            b.cells[key[2]] = (n, value_at(c, k))
        elif c.kind == "hav":
            b.cells[key[2]] = (n, of_flag(c.var) if c.flag else c.var)
        elif c.kind == "closed":
            v = c.at(k)
            b.cells[key[2]] = (n, of_flag(v) if c.flag else v)
        elif c.kind == "opaque":
            b.cells[key[2]] = (n, Opaque("loop"))
        elif c.kind == "drop":
            b.cells.pop(key[2], None)


def ite(c, a, b):
    return a if a is b else symex._ite(c, a, b)


def chain(conts, vals):
    """value as a function of which path the iteration takes"""
    conds = [set(x.id for x in d) for d in conts]
    common = set.intersection(*conds)
    r = vals[-1]
    for d, v in list(zip(conts, vals))[-2::-1]:
        r = ite(tm.and_(*[x for x in d if x.id not in common]), v, r)
    return r


def gain(t, h):
    """t - h when h occurs in t only as a summand, else None"""
    if t is h:
        return tm.const(0, t.sort)
    if not tm.depends(t, h):
        return None
    if t.op == "ite" and not tm.depends(t.args[0], h):
        a, b = gain(t.args[1], h), gain(t.args[2], h)
        return tm.ite(t.args[0], a, b) if a is not None and b is not None else None
    if t.op == "add":
        for x, y in (t.args, t.args[::-1]):
            if tm.depends(x, h) and not tm.depends(y, h):
                g = gain(x, h)
                return tm.add(g, y) if g is not None else None
    if t.op == "sub" and not tm.depends(t.args[1], h):
        g = gain(t.args[0], h)
        return tm.sub(g, t.args[1]) if g is not None else None
    if t.op == "lin":
        d = tm.sub(t, h)
        return d if not tm.depends(d, h) else None
    return None


def close(c, nxt, v0, k, vals, conts):
    """closed form of a havocked cell from its next value (a term over its current value and k), or None"""
    h = c.var
    if c.flag or h.sort == "B":
        init = as_flag(v0)
        ts, fs = [tm.subst(v, {h: TRUE}) for v in vals], [tm.subst(v, {h: FALSE}) for v in vals]
        if any(tm.depends(x, h) for d in conts for x in d):
            return None
        common = set.intersection(*[set(x.id for x in d) for d in conts])
        cs = [tm.and_(*[x for x in d if x.id not in common]) for d in conts]
        if all(t is f for t, f in zip(ts, fs)):
            t = tm.subst(nxt, {h: TRUE})
            return lambda e: tm.ite(tm.eq(e, ZERO), init, tm.subst(t, {k: tm.sub(e, tm.const(1, "I"))}))
        if all(t is TRUE for t in ts):
            hit = tm.or_(*[tm.and_(x, f) for x, f in zip(cs, fs)])
            return lambda e: tm.or_(init, tm.exists(e, k, hit))
        if all(f is FALSE for f in fs):
            miss = tm.or_(*[tm.and_(x, tm.not_(t)) for x, t in zip(cs, ts)])
            return lambda e: tm.and_(init, tm.not_(tm.exists(e, k, miss)))
        return None
    init = tm.lift(v0, h.sort) if not isinstance(v0, int) else as_int(v0, c.key[3])
    if not tm.depends(nxt, h):
        return lambda e: ite(tm.eq(e, ZERO), init, tm.subst(nxt, {k: tm.sub(e, tm.const(1, "I"))}))
    if h.sort in "RI":
        g = gain(nxt, h)
        if g is not None:
            return lambda e: tm.add(init, tm.rsum(e, k, g))
    return None


def close_seq(c, seqs, conts, orig, k, res, bad):
    """element-wise closed form of an array written at an index advancing with k, or None"""
    name = c.seq
    fields = {}
    for s in seqs:
        for i, f, n, v in s.upd:
            if not isinstance(v, tm.T):
                return None
            if f in fields and (fields[f][0] is not i or fields[f][1] != n):
                return None
            fields[f] = (i, n)
    if not fields or len({i.id for i, _ in fields.values()}) != 1:
        return None
    idx, _ = next(iter(fields.values()))
    cc, d = tm.lin_of(idx)
    kk = d.get(k, 0)
    rest = tm.mklin(cc, {x: y for x, y in d.items() if x is not k})
    if abs(kk) != 1 or tm.depends(rest, k) or bad(rest):
        return None
    forms = {}
    for f, (i, n) in fields.items():
        vals = []
        for s in seqs:
            v = next((u[3] for u in s.upd if u[1] == f), None)
            vals.append(v if v is not None else c.base(idx, f, n))
        v = chain(conts, vals)
        m = {}
        for x in tm.atoms(v, lambda x: x.op == "sel" and isinstance(x.data, str) and x.data.startswith(name + ".")):
            if x.args[0] is not idx:
                return None
            fld = int(x.data[len(name) + 1:])
            m[x] = c.orig(idx, fld, n)
        v = tm.subst(tm.subst(v, m), res)
        if bad(v):
            return None
        forms[f] = (n, v)

    def at(e, i, f, nb):
        o = c.orig(i, f, nb)
        if f not in forms:
            return o
        n, v = forms[f]
        if n != nb:
            raise Unsupported("mixed-size access to an array")
        j = tm.sub(i, rest) if kk == 1 else tm.sub(rest, i)
        return ite(tm.and_(tm.le(ZERO, j), tm.lt(j, e)), tm.subst(v, {k: j}), o)
    return at


# ------------------------------------------------------------------ the hook
def hook(ex, f, blk, prev, regs, st, vis, stops):
    if ex.loop_skip == (f.name, blk):
        ex.loop_skip = None
        return None
    L = loops_of(f).get(blk)
    if L is None or prev in L.body or (f.name, blk) in ex.loop_no:
        return None
    if f.insts(blk)[0].op == "phi":
        return None
    nob, npaths = len(ex.obls), ex.npaths
    stopset = frozenset({blk}) | frozenset(L.exits)

    def iteration(s, regs=regs, prev=prev):
        ex.loop_skip = (f.name, blk)
        outs = ex.region(f, blk, prev, dict(regs), s, stopset)
        return [o for o in outs if o.kind == "stop" and o.blk == blk], \
               [o for o in outs if not (o.kind == "stop" and o.blk == blk)]

    def give_up(why):
        if DEBUG[0]:
            print("loop in %s unrolled: %s" % (ex.dem.get(f.name, f.name), why))
        del ex.obls[nob:]
        ex.npaths = npaths
        ex.loop_skip = None
        return None
    try:
        conts, exits = iteration(st.fork())
    except Unsupported as e:
        return give_up(e)
    last = None
    try:
        for _ in range(ex.unroll):
            if exits or len(conts) != 1:
                break
            last = conts[0]
            conts, exits = iteration(last.state.fork(), last.regs, last.prev)
            if conts and exits:
                # decided so far, but not any more: summarise from the beginning
                c0, e0 = iteration(st.fork())
                break
    except Unsupported as e:
        return give_up(e)
    if conts and exits and last is not None:
        conts, exits = c0, e0
    elif not conts or not exits:
        # decided here: carry on with what this iteration gave
        return [Outcome("go", o.state, None, None, o.regs, o.blk, o.prev) if o.kind == "stop" else o
                for o in conts + exits]
    try:
        r = summarise(ex, f, L, blk, regs, st, conts, iteration, nob)
    except Unsupported as e:
        return give_up(e)
    if isinstance(r, str):
        return give_up(r)
    ex.loops_done.append(ex.dem.get(f.name, f.name))
    return r


def summarise(ex, f, L, blk, regs, pre, conts, iteration, nob):
    keys = {}
    for o in conts:
        keys.update(diff(pre, o.state))
    cands = {}
    for key in keys:
        v0 = get(pre, key)
        cands[key] = guess(ex, key, v0, get(conts[0].state, key))
    k = tm.fresh("iter", "I")
    for attempt in range(8):
        del ex.obls[nob:]
        f0 = tm._fresh[0]
        s = pre.fork()
        s.assume(tm.le(ZERO, k))
        install(s, cands, k)
        gen = s.fork()
        nbase = len(s.pc)
        conts, exits = iteration(s)
        if not conts:
            return "no path continues"
        again = False
        for o in conts:
            for key in diff(gen, o.state):
                if key not in cands:
                    v0 = get(pre, key)
                    cands[key] = guess(ex, key, v0, get(o.state, key))
                    again = True
        for key, c in list(cands.items()):
            if c.kind == "ind":
                want = value_at(c, tm.add(k, tm.const(1, "I")))
                for o in conts:
                    got = get(o.state, key)
                    if isinstance(got, int) and isinstance(want, tm.T):
                        got = as_int(got, 8 if key[0] == "n" else key[3])
                    if not same_val(got, want):
                        if key[0] == "n":
                            return "array length changes irregularly"
                        cands[key] = havoc(ex, key, get(pre, key), got)
                        again = True
                        break
        if not again:
            break
    else:
        return "no stable set of loop variables"
    # ---- candidate closed forms
    deltas = [o.state.pc[nbase:] for o in conts]
    hvars = {c.var: c for c in cands.values() if c.kind == "hav" and hasattr(c, "var")}
    hseqs = {c.seq: c for c in cands.values() if c.kind == "hav" and hasattr(c, "seq")}
    created = {c.var for c in hvars.values()}
    res = {}
    open_ = set(hvars)
    openq = set(hseqs)

    def bad(t):
        for x in tm.atoms(t, lambda x: x.op in ("var", "sel", "app")):
            if x.op == "var":
                if x in open_:
                    return True
                if "!" in str(x.data) and x is not k and x not in created:
                    tail = str(x.data).rsplit("!", 1)[1]
                    if tail.isdigit() and int(tail) > f0:
                        return True
            elif x.op == "sel":
                nm = str(x.data).rsplit(".", 1)[0]
                tail = nm.rsplit("!", 1)[-1]
                if nm in openq or "!" in nm and tail.isdigit() and int(tail) > f0:
                    return True
        return False
    for c in hseqs.values():
        b = pre.mem[c.key[1]].seq
        c.orig = lambda i, fl, n, b=b: ex.seq_get(b, i, fl, n)
    sels = {}
    final = {}
    progress = True
    while progress:
        progress = False
        for h in sorted(open_, key=lambda x: x.id):
            c = hvars[h]
            v0 = get(pre, c.key)
            vals = []
            for o in conts:
                v = get(o.state, c.key)
                v = as_flag(v) if c.flag else as_int(v, c.key[3]) if h.sort == "I" else v
                vals.append(v)
            if any(not isinstance(v, tm.T) or v.sort != h.sort for v in vals):
                continue
            ds = [[resolve(x, res, sels, k) for x in d] for d in deltas]
            vals = [resolve(v, res, sels, k) for v in vals]
            nxt = chain(ds, vals)
            open_.discard(h)
            if bad(nxt):
                open_.add(h)
                continue
            g = close(c, nxt, v0, k, vals, ds)
            if g is None:
                open_.add(h)
                continue
            res[h] = g(k)
            final[c.key] = Cand(c.key, "closed", at=g, flag=c.flag)
            progress = True
        for q in sorted(openq):
            c = hseqs[q]
            seqs = [get(o.state, c.key) for o in conts]
            if any(s.base.name != pre.mem[c.key[1]].seq.base.name for s in seqs):
                continue
            openq.discard(q)
            at = close_seq(c, seqs, deltas, pre.mem[c.key[1]].seq, k, res, bad)
            if at is None:
                openq.add(q)
                continue
            sels[q] = at
            final[c.key] = Cand(c.key, "closed", at=at)
            progress = True
    for key, c in final.items():
        cands[key] = c
    clean = []
    for d in deltas:
        clean.append([y for y in (resolve(x, res, sels, k) for x in d) if not bad(y)])
    stay = tm.or_(*[tm.and_(*d) for d in clean])
    common = set.intersection(*[set(x.id for x in d) for d in clean])
    com = [x for x in clean[0] if x.id in common]
    for x in com:
        if x.op in ("le", "eq") and x.args[0].sort == "I" and set(tm.variables(x)) == {k}:
            return "constant number of iterations"
    # ---- the checked iteration
    del ex.obls[nob:]
    s = pre.fork()
    s.assume(tm.le(ZERO, k))
    if stay is not TRUE:
        # stay = common facts and one of the remaining alternatives
        for x in com:
            s.assume(all_before(k, x))
            # a counter that never met its bound has not passed it
            b = x.args[0] if x.op == "not" else x
            if x.op == "not" and b.op == "eq" and b.args[0].sort == "I":
                c0, d = tm.lin_of(tm.linint(b.args[1], b.args[0], -1))
                kk = d.get(k, 0)
                r0 = tm.mklin(c0, {y: z for y, z in d.items() if y is not k})
                if abs(kk) == 1 and not tm.depends(r0, k):
                    e = r0 if kk == -1 else tm.sub(ZERO, r0)
                    s.assume(tm.or_(tm.lt(e, ZERO), tm.le(k, e)))
        rest = tm.or_(*[tm.and_(*[x for x in d if x.id not in common]) for d in clean])
        s.assume(all_before(k, rest))
    install(s, cands, k)
    gen = s.fork()
    nbase = len(s.pc)
    conts, exits = iteration(s)
    k1 = tm.add(k, tm.const(1, "I"))
    for o in conts:
        for key in diff(gen, o.state):
            if key not in cands:
                return "loop variables differ between runs"
        for key, c in cands.items():
            got = get(o.state, key)
            if c.kind == "ind":
                want = value_at(c, k1)
                if isinstance(got, int) and isinstance(want, tm.T):
                    got = as_int(got, 8 if key[0] == "n" else key[3])
                if not same_val(got, want):
                    return "counter differs between runs"
            elif c.kind == "closed" and key[0] == "c":
                want = c.at(k1)
                got = as_flag(got) if c.flag else as_int(got, key[3]) if want.sort == "I" else got
                invariant(ex, o.state.pc, got, want, ex_name(pre, key))
            elif c.kind == "closed":
                i = tm.fresh("i", "I")
                old = got
                # every field that is written
                for fl, n in sorted({(u[1], u[2]) for u in old.upd}):
                    g = ex.seq_get(old, i, fl, n)
                    w = c.at(k1, i, fl, n)
                    rng = [tm.le(ZERO, i), tm.lt(i, tm.lift(old.base.length, "I"))]
                    invariant(ex, list(o.state.pc) + rng, g, w, ex_name(pre, key))
    # ---- leaving the loop
    out = []
    for o in exits:
        out.extend(leave(ex, o, pre, k, com, nbase))
    return [Outcome("go", o.state, None, None, o.regs, o.blk, o.prev) if o.kind == "stop" else o for o in out]


def ex_name(pre, key):
    n = pre.mem[key[1]].name
    return n + ("+%d" % key[2] if key[0] == "c" and key[2] else "")


def invariant(ex, pc, got, want, name):
    if not isinstance(got, tm.T) or got.sort != want.sort:
        raise Unsupported("loop variable changes its sort")
    if got is want:
        g = TRUE
    elif want.sort == "B":
        g = tm.iff(got, want)
    elif want.sort in "FD":
        g = tm.mk("same", (got, want), "B")
    else:
        g = tm.eq(got, want)
    ex.obls.append(("loop invariant of %s is preserved" % name, list(pc), g, "invariant"))


def all_before(k, body):
    """for every 0 <= j < k: body(j)"""
    j = tm.fresh("j", "I")
    return tm.forall(k, j, tm.subst(body, {k: j}))


def resolve(t, res, sels, k):
    """put the closed forms found so far into t"""
    t = tm.subst(t, res) if res else t
    for _ in range(4):
        m = {}
        for x in tm.atoms(t, lambda x: x.op == "sel"):
            nm, _, fl = str(x.data).rpartition(".")
            if nm in sels:
                m[x] = sels[nm](k, x.args[0], int(fl), 8 if x.sort == "D" else 4)
        if not m:
            break
        t = tm.subst(t, m)
    return t


def leave(ex, o, pre, k, com, nbase):
    """an outcome that leaves the loop in iteration k; where the exit test fixes k, substitute it"""
    delta = set(x.id for x in o.state.pc[nbase:])
    one = tm.const(1, "I")
    for x in com:
        nx = tm.not_(x)
        if nx.id not in delta:
            continue
        b, neg = (x.args[0], True) if x.op == "not" else (x, False)
        if b.op not in ("le", "eq") or b.args[0].sort != "I":
            continue
        c, d = tm.lin_of(tm.linint(b.args[1], b.args[0], -1))
        kk = d.get(k, 0)
        rest = tm.mklin(c, {y: z for y, z in d.items() if y is not k})
        if tm.depends(rest, k) or any(v.op == "var" and str(v.data).startswith(("iter!", "post!")) and v.id > k.id
                                      for v in tm.variables(rest)):
            continue
        if b.op == "eq" and neg and abs(kk) == 1:
            e = rest if kk == -1 else tm.sub(ZERO, rest)
            return [o] if put(ex, o, pre, k, e) else []
        if b.op == "le" and not neg and kk == -1:
            # stays while k <= rest, left with k > rest:  k = rest + 1, unless that is negative and k = 0
            e = tm.add(rest, one)
            low = o.state.known(tm.le(ZERO, e))
            if low is None and ex.nonneg(e, o.state):
                low = True
            res = []
            if low is not False:
                p = o if low else Outcome(o.kind, o.state.fork(), o.value, o.info, dict(o.regs or {}), o.blk, o.prev)
                if not low:
                    p.state.assume(tm.le(ZERO, e))
                put(ex, p, pre, k, e)
                if p.state is not None:
                    res.append(p)
            if low is not True:
                o.state.assume(tm.lt(e, ZERO))
                put(ex, o, pre, k, ZERO)
                if o.state is not None:
                    res.append(o)
            return res
    return [o]


def put(ex, o, pre, k, e):
    m = {k: e}
    if not subst_state(o.state, pre, m):
        o.state = None
        return False
    o.regs = {r: subst_val(v, m) for r, v in (o.regs or {}).items()}
    o.value = subst_val(o.value, m)
    return True
