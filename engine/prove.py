"""Discharging obligations: hyps |= goal over the reals (or IEEE terms).

Back ends, in order: syntactic (goal true / among the hypotheses), poly-nf (canonical rational functions,
see poly.py), z3 and cvc5 (raced, on the atom abstraction first, then on the full formula)."""
import time
import poly
import smt
import term as tm
from term import TRUE, FALSE


class Result:
    def __init__(self, status, backend="", secs=0.0, model=None, why=""):
        self.status, self.backend, self.secs, self.model, self.why = status, backend, secs, model, why


def flat(goal, hyps):
    """split a goal into (hyps, goal) pieces"""
    if goal.op == "and":
        out = []
        for g in goal.args:
            out += flat(g, hyps)
        return out
    if goal.op == "or" and len(goal.args) <= 8:
        # a => b given as or(not a, b): move negated literals into hypotheses when one is an equality
        eqs = [g for g in goal.args if g.op == "eq" and g.args[0].sort == "R"]
        if len(eqs) == 1:
            rest = [tm.not_(g) for g in goal.args if g is not eqs[0]]
            return flat(eqs[0], hyps + rest)
        ands = [g for g in goal.args if g.op == "and"]
        if len(ands) == 1 and len(goal.args) >= 2:
            rest = [tm.not_(g) for g in goal.args if g is not ands[0]]
            return flat(ands[0], hyps + rest)
    return [(hyps, goal)]


class Canon:
    """comparison atoms over R -> sign of a canonical polynomial"""

    def __init__(self, rules, defined=None):
        self.ctx = poly.Ctx(rules)
        self.vars = {}
        self.pos = set()

    def term(self, t):
        """real term -> (pseudo variable or constant, sign) standing for sign of t"""
        n, d = self.ctx.conv(t)
        s = 1
        for f, e in d.items():
            if e % 2 == 0:
                continue
            if self.positive(f):
                continue
            return None
        if not n:
            return 0, 1
        if len(n) == 1 and poly.ONE in n:
            return (1 if n[poly.ONE] > 0 else -1), 1
        lead = n[min(n)]
        if lead < 0:
            s = -1
        k = tuple(sorted((m, c / lead) for m, c in n.items()))
        if k not in self.vars:
            self.vars[k] = tm.var("p!%d" % len(self.vars))
        return self.vars[k], s

    def positive(self, f):
        if len(f) == 1:
            (m, c), = f
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                a = self.ctx.atom_terms.get(m[0][0])
                return a is not None and a.op in ("sqrt", "abs", "exp")   # nonzero where defined, hence > 0
        return False

    def tr(self, t, memo):
        if t.id in memo:
            return memo[t.id]
        o = t.op
        r = t
        if o in ("lt", "le", "eq") and t.args[0].sort == "R":
            if has_ite(t):
                r = t
            else:
                try:
                    x = self.term(tm.sub(t.args[1], t.args[0]))
                except (poly.NotPoly, poly.Blowup):
                    x = None
                if x is not None:
                    v, s = x
                    if isinstance(v, int):
                        r = TRUE if (v > 0 or (v == 0 and o != "lt")) and not (o == "eq" and v != 0) else FALSE
                    else:
                        z = tm.const(0)
                        if o == "eq":
                            r = tm.eq(v, z)
                        elif s > 0:
                            r = tm.lt(z, v) if o == "lt" else tm.le(z, v)
                        else:
                            r = tm.lt(v, z) if o == "lt" else tm.le(v, z)
        elif o in ("and", "or", "not", "iff") or (o == "ite" and t.sort == "B"):
            r = tm.rebuild(t, [self.tr(a, memo) for a in t.args])
        memo[t.id] = r
        return r


_ite_memo = {}


def has_ite(t):
    r = _ite_memo.get(t.id)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x.id in _ite_memo:
                st.pop()
                continue
            if x.op == "ite":
                _ite_memo[x.id] = True
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in _ite_memo]
            if todo:
                st.extend(todo)
                continue
            _ite_memo[x.id] = any(_ite_memo[a.id] for a in x.args)
            st.pop()
        r = _ite_memo[t.id]
    return r


def pick_cond(t):
    """an ite condition of t that is itself free of ites"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen or not has_ite(x):
            continue
        seen.add(x.id)
        if x.op == "ite" and not has_ite(x.args[0]):
            return x.args[0]
        if x.op == "ite" and has_ite(x.args[0]):
            st.append(x.args[0])
            continue
        st.extend(x.args)
    return None


_asg_memo = {}


def assign(t, c, val):
    """t with condition c known to be val (also resolves comparisons implied by it)"""
    m = {c: TRUE if val else FALSE}
    n = tm.not_(c)
    if n is not c:
        m[n] = FALSE if val else TRUE
    # strictness relations
    if c.op in ("lt", "le", "eq") and c.args[0].sort == "R":
        a, b = c.args
        if c.op == "lt" and val:
            m[tm.le(a, b)] = TRUE
            m[tm.eq(a, b)] = FALSE
            m[tm.lt(b, a)] = FALSE
        if c.op == "le" and not val:
            m[tm.lt(b, a)] = TRUE
            m[tm.eq(a, b)] = FALSE
            m[tm.lt(a, b)] = FALSE
        if c.op == "eq" and val:
            m[tm.le(a, b)] = TRUE
            m[tm.le(b, a)] = TRUE
            m[tm.lt(a, b)] = FALSE
            m[tm.lt(b, a)] = FALSE
    m = {k: v for k, v in m.items() if k not in (TRUE, FALSE)}
    return tm.subst(t, m)


def angle_atoms(ts):
    """arguments of sin / cos built from inverse trigonometric functions -> fresh variables (a generalisation)"""
    m = {}
    for t in ts:
        for x in tm.atoms(t, lambda x: x.op in ("sin", "cos")):
            a = x.args[0]
            if a.op not in ("var", "const") and tm.atoms(a, lambda y: y.op in ("atan2", "acos", "asin")):
                m[a] = tm.var("angle!%d" % a.id)
    return m


def shared(ts, arith=False):
    """topmost real subterms with several occurrences -> fresh variables (a generalisation: what is proved for
    arbitrary values holds for these)"""
    edges, seen, st = {}, set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for a in x.args:
            edges[a.id] = edges.get(a.id, 0) + 1
            st.append(a)
    m, seen, st = {}, set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.sort == "R" and x.op not in ("var", "const") and x.args and edges.get(x.id, 0) >= 2 and \
                (not arith or x.op in ("add", "sub", "mul", "neg")):
            m[x] = tm.var("term!%d" % x.id)
            continue
        st.extend(x.args)
    return m


_skolem = {}


def nonneg(t):
    """syntactically at least 0"""
    if tm.isc(t):
        return t.data >= 0
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op in ("add",):
        return all(nonneg(a) for a in t.args)
    return t.op in ("abs", "sqrt") or t.op == "mul" and (t.args[0] is t.args[-1] and len(t.args) == 2)


def ground(ts, goal=None, rounds=3, cap=400):
    """quantifiers and sums are handled as opaque terms together with these ground facts about them: a false
    quantifier has a counterexample (a Skolem index), a true one holds at the index terms in sight; sums with equal
    bodies are equal; the last summand (conjunct) can be split off.  Every fact is valid by itself; polarity only
    says which ones can matter."""
    qs, idx, done, out, sums = {}, {}, set(), [], {}
    zero = tm.const(0, "I")
    seen = set()

    def scan(t, sign):
        """sign: 1 asserted, -1 denied, 0 both"""
        todo = [(t, sign)]
        while todo:
            x, s = todo.pop()
            if (x.id, s) in seen or (x.id, 0) in seen:
                continue
            seen.add((x.id, s))
            if x.op == "not":
                todo.append((x.args[0], -s))
            elif x.op in ("and", "or"):
                todo += [(a, s) for a in x.args]
            elif x.op == "ite" and x.sort == "B":
                todo += [(x.args[0], 0), (x.args[1], s), (x.args[2], s)]
            else:
                if x.op == "forall":
                    qs.setdefault(x, set()).update((1, -1) if s == 0 else (s,))
                elif x.op == "rsum":
                    qs.setdefault(x, set())
                elif x.op == "sel" and x.args[-1].op != "ite":
                    idx.setdefault(x.data, {})[x.args[-1]] = None
                todo += [(a, 0) for a in x.args]

    def add(f, *parts):
        if f is not TRUE and f.id not in done:
            done.add(f.id)
            out.append(f)
            for p, s in parts:
                scan(p, s)

    def skolem(key):
        if key not in _skolem:
            _skolem[key] = tm.fresh("sk", "I")
        return _skolem[key]

    def indices(q):
        """index terms at which the arrays of q are read"""
        r = {}
        names = reads(q)
        for n in names if names else idx:
            r.update(idx.get(n, {}))
        return list(r)
    for t in ts:
        scan(t, 1)
    if goal is not None:
        scan(goal, -1)
    if not qs:
        return []
    for _ in range(rounds):
        n0 = len(out)
        for q in list(qs):
            if q.op == "forall":
                if -1 in qs[q]:
                    s = skolem(q.id)
                    b = tm.instance(q, s)
                    if not reads(q):
                        idx.setdefault("", {})[s] = None
                    add(tm.or_(q, tm.and_(tm.le(zero, s), tm.lt(s, q.args[0]), tm.not_(b))), (b, -1))
            else:
                add(tm.or_(tm.lt(zero, q.args[0]), tm.eq(q, tm.const(0, q.sort))))
                j = tm.fresh("j", "I")
                body = tm.instance(q, j)
                if nonneg(body):
                    # a sum of nonnegative terms is positive exactly when one of them is
                    if q.id not in sums:
                        sums[q.id] = tm.exists(q.args[0], j, tm.lt(tm.const(0, q.sort), body))
                    add(tm.iff(tm.lt(tm.const(0, q.sort), q), sums[q.id]), (sums[q.id], 0))
                    add(tm.le(tm.const(0, q.sort), q))
        for q in list(qs):
            for r in list(qs):
                if q.op != r.op or q is r:
                    continue
                step = tm.sub(q.args[0], r.args[0])
                if tm.isc(step) and step.data == 1 and q.data is r.data and q.args[1:] == r.args[1:]:
                    last = tm.instance(q, r.args[0])
                    if q.op == "forall":
                        add(tm.or_(tm.lt(r.args[0], zero), tm.iff(q, tm.and_(r, last))), (last, 0), (q, 0), (r, 0))
                    else:
                        add(tm.or_(tm.lt(r.args[0], zero), tm.eq(q, tm.add(r, last))), (last, 0))
                elif q.op == "rsum" and q.id < r.id and q.sort == r.sort and len(qs) < 12:
                    for rev in (False, True):
                        # equal bodies, in the same or the opposite order
                        s = skolem((q.id, r.id, rev))
                        idx.setdefault("", {})[s] = None
                        at = tm.sub(tm.sub(r.args[0], tm.const(1, "I")), s) if rev else s
                        d = tm.ne(tm.instance(q, s), tm.instance(r, at))
                        add(tm.or_(tm.ne(q.args[0], r.args[0]), tm.eq(q, r),
                                   tm.and_(tm.le(zero, s), tm.lt(s, q.args[0]), d)), (d, 0))
        for q in list(qs):
            if q.op == "forall" and 1 in qs[q]:
                for e in indices(q):
                    if len(out) > cap:
                        return out
                    b = tm.instance(q, e)
                    add(tm.or_(tm.not_(q), tm.lt(e, zero), tm.le(q.args[0], e), b), (b, 1))
        if len(out) == n0:
            break
    return out


_reads = {}


def reads(q):
    """arrays read in the body of a quantifier at an index that depends on its variable"""
    if q.data.id not in _reads:
        j = tm.var("j!", "I")
        names = set()
        todo, seen = [q.data], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "sel" and tm.depends(x.args[-1], j):
                names.add(x.data)
            if x.op in ("forall", "rsum") and any(tm.depends(a, j) for a in x.args[1:]):
                for i, a in enumerate(x.args[1:]):
                    if a.sort == "I" and tm.depends(a, j):
                        v = tm.var("q!I%d" % i, "I")
                        names.update(y.data for y in tm.atoms(x.data, lambda y: y.op == "sel") if tm.depends(y.args[-1], v))
            todo.extend(x.args)
        _reads[q.data.id] = names
    return _reads[q.data.id]


class Prover:
    def __init__(self, timeout=10.0, extra_hyps=()):
        self.timeout = timeout
        self.counts = {}
        self.secs = {}
        self.log = []

    def note(self, backend, secs):
        self.counts[backend] = self.counts.get(backend, 0) + 1
        self.secs[backend] = self.secs.get(backend, 0.0) + secs

    def prove(self, hyps, goal, rules=None, timeout=None, fp=False):
        t0 = time.time()
        used = set()
        if any(h is goal for h in hyps):
            self.note("syntactic", 0.0)
            return Result("proved", "syntactic", 0.0)
        if rules and rules.get("hints"):
            rules = self.valid_hints(list(hyps), rules)
        parts = flat(goal, list(hyps))
        splits = (rules or {}).get("splits", ())
        for h, g in parts:
            if not fp and g is not FALSE and all(v.sort == "I" for v in tm.variables(g)) and \
                    not tm.atoms(g, lambda x: x.op in ("sel", "rsum", "forall")):
                # about integers only
                ints = [x for x in h if all(v.sort == "I" for v in tm.variables(x)) and
                        not tm.atoms(x, lambda y: y.op in ("sel", "rsum"))]
                ints += ground(ints, g)
                r = self.smt(ints, g, 2.0)
                if r.status == "proved":
                    used.update(r.backend.split("+"))
                    continue
            gr = ground(h, g)
            quant = lambda x: tm.atoms(x, lambda y: y.op in ("sel", "rsum", "forall"))
            if gr and not fp and g is not FALSE and not quant(g):
                # arithmetic alone
                r = self.smt([x for x in h if not quant(x)], g, 0.7, ("z3",))
                if r.status == "proved":
                    used.add(r.backend)
                    continue
            if gr and not fp:
                # congruence and instantiation alone
                st, be, secs, _ = smt.run(h + gr, g, 3.0, euf=True)
                if st == "proved":
                    used.add(be)
                    continue
            if not fp:
                m = self.last_terms(h, g)
                if m:
                    h2, g2 = [tm.subst(x, m) for x in h], tm.subst(g, m)
                    flatten = {}
                    for x in h2 + [g2]:
                        for a in tm.atoms(x, lambda y: y.op in ("rsum", "sel") and y.sort == "R"):
                            flatten.setdefault(a, tm.fresh("flat", "R"))
                    rs = [x for x in flatten if x.op == "rsum"]
                    flat2 = lambda x: tm.subst(tm.subst(x, {a: flatten[a] for a in rs}), flatten)
                    hf = [flat2(x) for x in h2]
                    r = self.smt([x for x in hf if not tm.atoms(x, lambda y: y.op in ("sqrt", "ite", "forall"))], FALSE, 1.0, ("z3",))
                    if r.status != "proved":
                        r = self.one(h2, g2, rules or {}, 3.0, fp)
                    if r.status == "proved":
                        used.update(r.backend.split("+"))
                        continue
            h = h + gr
            r = self.one(h, g, rules or {}, (timeout or self.timeout) if not splits else 1.0, fp)
            if r.status == "unknown" and splits:
                r = self.by_cases(h, g, rules, timeout or self.timeout, fp, list(splits))
            if r.status != "proved":
                r.secs = time.time() - t0
                return r
            used.update(r.backend.split("+"))
        dt = time.time() - t0
        used.discard("")
        b = "+".join(sorted(used - {"syntactic"})) or "syntactic"
        self.note(b, dt)
        return Result("proved", b, dt)

    def last_terms(self, hyps, g):
        """{sum over n + 1 terms: sum over n terms + last term} for sums that occur in both lengths"""
        qs = set()
        for x in list(hyps) + [g]:
            qs.update(tm.atoms(x, lambda y: y.op == "rsum"))
        m = {}
        for q in qs:
            for r in qs:
                if q is not r and q.data is r.data and q.args[1:] == r.args[1:]:
                    d = tm.sub(q.args[0], r.args[0])
                    if tm.isc(d) and d.data == 1:
                        ints = [x for x in hyps if all(v.sort == "I" for v in tm.variables(x)) and
                                not tm.atoms(x, lambda y: y.op in ("sel", "rsum"))]
                        if self.smt(ints, tm.le(tm.const(0, "I"), r.args[0]), 1.0, ("z3",)).status == "proved":
                            m[q] = tm.add(r, tm.instance(q, r.args[0]))
        # conditions of the last term that the path decides
        for q, v in list(m.items()):
            for x in tm.atoms(v, lambda y: y.op == "ite"):
                c = x.args[0]
                hs = [h for h in hyps if not tm.atoms(h, lambda y: y.op in ("rsum", "forall", "sqrt"))]
                for val, gg in ((TRUE, c), (FALSE, tm.not_(c))):
                    if self.smt(hs, gg, 1.0, ("z3",)).status == "proved":
                        m[q] = tm.subst(m[q], {c: val})
        return m

    def by_cases(self, hyps, g, rules, timeout, fp, splits):
        """ghost case splits named by the contract"""
        back = set()
        c, rest = splits[0], splits[1:]
        for v in (c, tm.not_(c)):
            h = hyps + [v]
            r2 = self.valid_hints(h, rules) if rules.get("hints") else rules
            r = self.one(h, g, r2, 0.3 if rest else timeout, fp)
            if r.status == "unknown" and rest:
                r = self.by_cases(h, g, rules, timeout, fp, rest)
            if r.status != "proved":
                return r
            back.update(r.backend.split("+"))
        return Result("proved", "+".join(sorted(back)))

    def valid_hints(self, hyps, rules):
        """sqrt(F^2) = F for the hints F that are provably nonnegative here"""
        key = tuple(sorted(h.id for h in hyps))
        memo = self.__dict__.setdefault("hint_memo", {})
        base = {k: v for k, v in rules.items() if not isinstance(k, str)}

        def check(f):
            k = (key, f.id)
            if k not in memo:
                # small queries first: hypotheses without square roots
                simple = [h for h in hyps if not tm.atoms(h, lambda x: x.op in ("sqrt", "div"))]
                memo[k] = self.one(simple, tm.le(tm.const(0), f), base, 3.0, False).status == "proved"
            return memo[k]
        r = dict(rules)
        r["hint_check"] = check
        return r

    def one(self, hyps, g, rules, timeout, fp):
        if g is TRUE or any(h is g for h in hyps) or any(h is FALSE for h in hyps):
            return Result("proved", "syntactic")
        hs = set(h.id for h in hyps)
        if tm.not_(g).id in hs and g is not FALSE:
            pass
        if fp:
            return self.smt(hyps, g, timeout, ("z3", "cvc5fp"))
        if g.op == "isint" and self.integer(g.args[0], rules):
            return Result("proved", "poly-nf")
        if g.op == "eq" and g.args[0].sort == "R":
            r = self.eq(hyps, g.args[0], g.args[1], rules, 0, timeout)
            return r
        r = self.abstract(hyps, g, rules)
        if r is not None:
            return r
        r = self.general(hyps, g, rules)
        if r is not None:
            return r
        return self.cases(hyps, g, rules, timeout, 0)

    def general(self, hyps, g, rules):
        """large goals: forget what the shared subterms are"""
        if len(tm_nodes(g)) + sum(len(tm_nodes(h)) for h in hyps) < 150:
            return None
        prev = None
        for arith in (False, True):
            m = shared(list(hyps) + [g], arith)
            if not m or m == prev:
                continue
            prev = m
            r = self.smt([tm.subst(h, m) for h in hyps], tm.subst(g, m), 1.5)
            if r.status == "proved":
                return r
        return None

    def integer(self, t, rules):
        """t is a polynomial with integer coefficients in integer-valued atoms (fmod and floor unfolded)"""
        m = {}
        for x in sorted(tm.atoms(t, lambda x: x.op in ("fmod", "floor")), key=lambda x: x.id):
            q = tm.itor(tm.var("int!%d" % x.id, "I"))
            m[x] = tm.sub(x.args[0], tm.mul(x.args[1], q)) if x.op == "fmod" else q
        t = tm.subst(t, m)
        try:
            ctx = poly.Ctx({k: v for k, v in rules.items() if not isinstance(k, str)})
            n, d = ctx.conv(t)
        except (poly.NotPoly, poly.Blowup):
            return False
        for f, e in d.items():
            f = dict(f)
            if len(f) != 1:
                return False
            (mono, c), = f.items()
            for _ in range(e):
                out = {}
                for mm, cc in n.items():
                    dd = dict(mm)
                    for v, k in mono:
                        if dd.get(v, 0) < k:
                            return False
                        dd[v] -= k
                    out[tuple(sorted((v, k) for v, k in dd.items() if k))] = cc / c
                n = out
        for mm, cc in n.items():
            if cc.denominator != 1:
                return False
            for v, k in mm:
                if not (isinstance(ctx.names[v], tuple) and ctx.names[v][0] == "itor"):
                    return False
        return True

    def cases(self, hyps, g, rules, timeout, depth):
        """non-equality goals: resolve ites by case split, then atoms abstraction, then SMT"""
        return self.smt(hyps, g, timeout, rules=rules)

    def abstract(self, hyps, g, rules):
        """propositional + sign reasoning on canonical atoms (cheap)"""
        try:
            c = Canon(rules)
            memo = {}
            h2 = [c.tr(h, memo) for h in hyps]
            g2 = c.tr(g, memo)
        except (poly.NotPoly, poly.Blowup):
            return None
        if g2 is TRUE or any(h is FALSE for h in h2) or any(h is g2 for h in h2):
            return Result("proved", "poly-nf")
        known = set(h.id for h in h2)
        # direct consequences: lt from hyps gives le / ne
        if self.implied(h2, g2):
            return Result("proved", "poly-nf")
        return None

    def implied(self, hs, g):
        facts = {}
        z = tm.const(0)
        for h in hs:
            k = self.sign_atom(h)
            if k:
                v, s = k
                facts[v] = facts.get(v, frozenset((-1, 0, 1))) & s
        def sat(g):
            if g is TRUE:
                return True
            if g.op == "and":
                return all(sat(x) for x in g.args)
            if g.op == "or":
                if any(sat(x) for x in g.args):
                    return True
                # union of sign sets over one variable
                ks = [self.sign_atom(x) for x in g.args]
                d = {}
                for k in ks:
                    if k:
                        d[k[0]] = d.get(k[0], frozenset()) | k[1]
                return any(facts.get(v, frozenset((-1, 0, 1))) <= s for v, s in d.items())
            k = self.sign_atom(g)
            if k:
                return facts.get(k[0], frozenset((-1, 0, 1))) <= k[1]
            return any(h is g for h in hs)
        if any(not s for s in facts.values()):
            return True
        return sat(g)

    def sign_atom(self, h):
        neg = False
        if h.op == "not":
            neg, h = True, h.args[0]
        if h.op in ("lt", "le", "eq") and h.args[0].sort in "R":
            a, b = h.args
            s = None
            if tm.isc(a) and a.data == 0 and b.op == "var":
                v = b
                s = {"lt": (1,), "le": (0, 1), "eq": (0,)}[h.op]
            elif tm.isc(b) and b.data == 0 and a.op == "var":
                v = a
                s = {"lt": (-1,), "le": (-1, 0), "eq": (0,)}[h.op]
            if s is not None:
                s = frozenset(s)
                return (v, frozenset((-1, 0, 1)) - s if neg else s)
        return None

    def infeasible(self, hyps, rules, timeout=2.0):
        if any(h is FALSE for h in hyps):
            return True
        c = Canon(rules)
        memo = {}
        try:
            h2 = [c.tr(h, memo) for h in hyps]
            if any(h is FALSE for h in h2) or self.implied(h2, FALSE):
                return True
        except (poly.NotPoly, poly.Blowup):
            h2 = []
        return False

    def eq(self, hyps, a, b, rules, depth, timeout):
        if a is b:
            return Result("proved", "syntactic")
        t = tm.sub(a, b)
        if has_ite(t) and depth < 14:
            c = pick_cond(t)
            # simplify with hyps
            if c is not None:
                hset = {h.id for h in hyps}
                if c.id in hset:
                    vals = (True,)
                elif tm.not_(c).id in hset:
                    vals = (False,)
                else:
                    vals = (True, False)
                back = set()
                for v in vals:
                    a2, b2 = assign(a, c, v), assign(b, c, v)
                    h2 = hyps + ([c if v else tm.not_(c)] if len(vals) == 2 else [])
                    if len(vals) == 2 and self.infeasible(h2, rules):
                        continue
                    r = self.eq(h2, a2, b2, rules, depth + 1, timeout)
                    if r.status != "proved":
                        return r
                    back.update(r.backend.split("+"))
                return Result("proved", "+".join(sorted(back)) or "poly-nf")
        m = angle_atoms((a, b))
        if m:
            try:
                if poly.equal(tm.subst(a, m), tm.subst(b, m), rules)[0]:
                    return Result("proved", "poly-nf")
            except (poly.NotPoly, poly.Blowup):
                pass
        try:
            ctx = poly.Ctx(rules)
            ok, ctx, res = poly.equal(a, b, rules, ctx=ctx)
            if ok:
                return Result("proved", "poly-nf")
        except (poly.NotPoly, poly.Blowup) as e:
            pass
        if ctx.atan2_wanted and depth < 14:
            r = self.atan2_cases(hyps, a, b, rules, depth, timeout, ctx.atan2_wanted[0])
            if r is not None:
                return r
        g = tm.eq(a, b)
        # equalities among hypotheses may help: substitution of variables
        r = self.subst_eq(hyps, a, b, rules, depth, timeout)
        if r is not None:
            return r
        ab = self.abstract(hyps, g, rules)
        if ab is not None:
            return ab
        return self.smt(hyps, g, timeout, rules=rules)

    def atan2_cases(self, hyps, a, b, rules, depth, timeout, t):
        """sin/cos of atan2(y, x): (y, x) != (0, 0), where they are y/r and x/r, or y = x = 0, where the angle is 0"""
        y, x = t.args
        ok = dict(rules)
        ok["atan2_ok"] = frozenset(rules.get("atan2_ok", ())) | {t.id}
        zero = tm.and_(tm.eq(y, tm.const(0)), tm.eq(x, tm.const(0)))
        nz = tm.not_(zero)
        try:
            # x^2 + y^2 is a positive constant
            n, d = poly.Ctx(rules).conv(tm.add(tm.mul(x, x), tm.mul(y, y)))
            if not d and len(n) == 1 and n.get(poly.ONE, 0) > 0:
                return self.eq(hyps, a, b, ok, depth + 1, timeout)
        except (poly.NotPoly, poly.Blowup):
            pass
        r1 = self.eq(hyps + [nz], a, b, ok, depth + 1, timeout)
        if r1.status != "proved":
            return r1
        back = set(r1.backend.split("+"))
        h2 = hyps + list(zero.args if zero.op == "and" else [zero])
        if zero is FALSE or self.infeasible(h2, rules):
            return r1
        q = self.abstract(hyps, nz, rules)
        if q is None:
            simple = [h for h in hyps if not has_ite(h)]
            q = self.smt(simple, nz, min(3.0, timeout), rules=rules)
        if q.status != "proved":
            q = self.eq(h2, tm.subst(a, {t: tm.const(0)}), tm.subst(b, {t: tm.const(0)}), rules, depth + 1, timeout)
        if q.status != "proved":
            return q
        back.update(q.backend.split("+"))
        return Result("proved", "+".join(sorted(back)))

    def subst_eq(self, hyps, a, b, rules, depth, timeout):
        if depth > 14:
            return None
        m = {}
        for h in hyps:
            if h.op == "eq" and h.args[0].sort == "R":
                x, y = h.args
                for u, w in ((x, y), (y, x)):
                    if u.op == "var" and u not in m and u not in tm.variables(w) and u not in rules:
                        m[u] = w
                        break
        if not m:
            return None
        a2, b2 = tm.subst(a, m), tm.subst(b, m)
        if a2 is a and b2 is b:
            return None
        try:
            ok, ctx, res = poly.equal(a2, b2, rules)
            if ok:
                return Result("proved", "poly-nf")
        except (poly.NotPoly, poly.Blowup):
            pass
        return None

    def smt(self, hyps, g, timeout, solvers=("z3", "cvc5"), rules=None):
        extra = []
        vs = set(v for h in list(hyps) + [g] for v in tm.variables(h))
        for v, sq in (rules or {}).items():
            if isinstance(v, str):
                continue
            if v in vs:
                extra.append(tm.eq(tm.mul(v, v), sq))
        try:
            st, be, secs, model = smt.run(list(hyps) + extra, g, timeout, solvers)
        except tm.Undefined as e:
            return Result("unknown", why=str(e))
        if st == "proved":
            return Result("proved", be, secs)
        if st == "refuted":
            return Result("refuted", be, secs, model)
        return Result("unknown", why="solver timeout (%.0f s)" % timeout)


class Feas:
    """tri-state decision of a branch condition from the path condition (sign reasoning on canonical atoms);
    None when undecided.  Only prunes paths that are infeasible."""

    def __init__(self, rules=None):
        self.c = Canon(rules or {})
        self.memo = {}
        self.pv = Prover()

    def tr(self, t):
        try:
            return self.c.tr(t, self.memo)
        except (poly.NotPoly, poly.Blowup):
            return t

    def __call__(self, st, c):
        n0 = len(tm_nodes(c))
        if n0 > 4000:
            return None
        g = self.tr(c)
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        hs = [self.tr(h) for h in st.pc]
        if self.pv.implied(hs, g):
            return True
        if self.pv.implied(hs, tm.not_(g)) or self.pv.implied(hs + [g], FALSE):
            return False
        if self.pv.implied(hs + [tm.not_(g)], FALSE):
            return True
        return None


def tm_nodes(t, cap=5000):
    seen, st = set(), [t]
    while st and len(seen) <= cap:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.args)
    return seen
