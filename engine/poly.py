"""Canonical forms for R-terms: rational functions over algebraic/transcendental atoms,
reduced modulo a triangular set of rewriting rules (v^2 -> poly), which is complete for
identities over sqrt, sin/cos (with angle addition), atan2/acos/asin arguments and unit
quaternions.

Poly = dict { monomial: Fraction }, monomial = tuple of (varindex, exp) sorted by varindex.
"""
from fractions import Fraction
from math import gcd
import term as tm

ONE = ()


class Blowup(Exception):
    pass


class NotPoly(Exception):
    pass


class Ctx:
    """One proof context: atom table, rewrite rules, trigonometric base denominators."""

    def __init__(self, rules=None, limit=60000, halve=None):
        self.names = []          # index -> descriptor (term or tuple)
        self.index = {}
        self.rules = {}          # index -> poly (v^2 ->)
        self.limit = limit
        self.memo = {}
        self.trigden = {}        # monomial -> lcm denominator
        rules = dict(rules or {})
        self.hints = rules.pop("hints", ())    # terms F: sqrt(F^2) is read as F where F >= 0 is proved
        self.hint_check = rules.pop("hint_check", None)
        self.atan2_ok = rules.pop("atan2_ok", ())   # atan2 terms whose argument pair is known not to be (0, 0)
        self.atan2_wanted = []
        self.nonneg = set()                    # normalised polys known to be >= 0 (arguments of square roots)
        self.hint_polys = None
        self.termrules = rules   # var term -> function giving T for v^2
        self.atom_terms = {}     # index -> real T term denoting the atom

    # ---- atoms
    def atom(self, key, term=None, square=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.names)
            self.index[key] = i
            self.names.append(key)
            self.atom_terms[i] = term
            if square is not None:
                self.rules[i] = square() if callable(square) else square
        return i

    # ---- poly arithmetic
    @staticmethod
    def padd(a, b, k=1):
        if not a:
            return {m: c * k for m, c in b.items()} if k != 1 else dict(b)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    @staticmethod
    def pscale(a, k):
        return {m: c * k for m, c in a.items()} if k != 0 else {}

    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for v, e in b:
            d[v] = d.get(v, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) * len(b) > 4000000:
            raise Blowup("poly product %d x %d" % (len(a), len(b)))
        r = {}
        mm = self.mmul
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mm(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return self.reduce(r)

    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        out = {}
        work = p
        while work:
            nxt = {}
            for m, c in work.items():
                hit = None
                for k, (v, e) in enumerate(m):
                    if e >= 2 and v in rules:
                        hit = (k, v, e)
                        break
                if hit is None:
                    s = out.get(m, 0) + c
                    if s == 0:
                        out.pop(m, None)
                    else:
                        out[m] = s
                else:
                    k, v, e = hit
                    rest = m[:k] + (((v, e - 2),) if e > 2 else ()) + m[k + 1:]
                    for m2, c2 in rules[v].items():
                        mm = self.mmul(rest, m2)
                        s = nxt.get(mm, 0) + c * c2
                        if s == 0:
                            nxt.pop(mm, None)
                        else:
                            nxt[mm] = s
            if len(nxt) > self.limit:
                raise Blowup("reduce %d" % len(nxt))
            work = nxt
        if len(out) > self.limit:
            raise Blowup("poly %d" % len(out))
        return out

    def pkey(self, p):
        return tuple(sorted(p.items()))

    # ---- rational functions: (num, den) with den = {factorkey: exp}
    def rconst(self, c):
        return ({ONE: Fraction(c)} if c != 0 else {}, {})

    def ratom(self, i):
        return ({((i, 1),): Fraction(1)}, {})

    def expand_den(self, den):
        r = {ONE: Fraction(1)}
        for k, e in den.items():
            p = dict(k)
            for _ in range(e):
                r = self.pmul(r, p)
        return r

    def radd(self, a, b, k=1):
        na, da = a
        nb, db = b
        if da == db:
            return self.norm(self.padd(na, nb, k), dict(da))
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        ma = {f: e - da.get(f, 0) for f, e in l.items() if e > da.get(f, 0)}
        mb = {f: e - db.get(f, 0) for f, e in l.items() if e > db.get(f, 0)}
        pa = self.pmul(na, self.expand_den(ma)) if ma else na
        pb = self.pmul(nb, self.expand_den(mb)) if mb else nb
        return self.norm(self.padd(pa, pb, k), l)

    def norm(self, n, d):
        """cancel single-variable factors: v in den against monomials of num; v^2 in den via rule."""
        if not n:
            return ({}, {})
        if not d:
            return (n, d)
        ch = False
        for f in list(d):
            if len(f) == 1:
                (m, c), = f
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    v = m[0][0]
                    while d.get(f, 0) > 0 and all(any(x == v for x, _ in mm) for mm in n):
                        n2 = {}
                        for mm, cc in n.items():
                            n2[tuple((x, e - 1 if x == v else e) for x, e in mm
                                     if not (x == v and e == 1))] = cc
                        n = n2
                        d[f] -= 1
                        ch = True
                    if d.get(f, 0) >= 2 and v in self.rules:
                        # 1/v^2 = 1/rule
                        q = d[f] // 2
                        d[f] -= 2 * q
                        rp = self.rules[v]
                        if not rp:
                            raise NotPoly("division by zero atom")
                        for k2, e2 in self.factor(rp).items():
                            if k2 == "c":
                                n = self.pscale(n, Fraction(1) / e2 ** q)
                            else:
                                d[k2] = d.get(k2, 0) + e2 * q
                        ch = True
                    if d.get(f) == 0:
                        del d[f]
            else:
                # exact multiple: n == c * f
                if len(n) == len(f):
                    fd = dict(f)
                    if n.keys() == fd.keys():
                        it = iter(n.items())
                        m0, c0 = next(it)
                        k = c0 / fd[m0]
                        if all(c == k * fd[m] for m, c in it):
                            n = {ONE: k}
                            d[f] -= 1
                            if d[f] == 0:
                                del d[f]
                            ch = True
        return (n, d)

    def rmul(self, a, b):
        na, da = a
        nb, db = b
        n = self.pmul(na, nb)
        if not da and not db:
            return (n, {})
        d = dict(da)
        for f, e in db.items():
            d[f] = d.get(f, 0) + e
        return self.norm(n, d)

    def factor(self, p):
        """split a nonzero poly into {'c': content, factorkey: exp}: variables and one remainder"""
        res = {}
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
            if not common:
                break
        if common:
            q = {}
            for m, c in p.items():
                q[tuple((v, e - common.get(v, 0)) for v, e in m if e > common.get(v, 0))] = c
            p = q
            for v, e in common.items():
                res[((((v, 1),), Fraction(1)),)] = e
        lead = p[min(p)]
        res["c"] = lead
        if not (len(p) == 1 and ONE in p):
            pp = {m: c / lead for m, c in p.items()}
            res[self.pkey(pp)] = 1
        return res

    def rinv(self, a):
        n, d = a
        if not n:
            raise NotPoly("division by zero")
        num = self.expand_den(d)
        f = self.factor(n)
        c = f.pop("c")
        return self.norm(self.pscale(num, 1 / c), dict(f))

    # ---- terms
    def prescan(self, terms):
        """find denominators of angle arguments so that a common base angle is used"""
        args = []
        seen = set()
        for t in terms:
            tm.atoms(t, lambda x: x.op in ("sin", "cos"), seen, args)
        for x in args:
            try:
                n, d = self.conv(x.args[0])
            except NotPoly:
                continue
            if d:
                continue
            for m, c in n.items():
                if m == ONE:
                    continue
                o = self.trigden.get(m, 1)
                self.trigden[m] = o * c.denominator // gcd(o, c.denominator)
        self.memo = {}

    def conv(self, t):
        memo = self.memo
        if t.id in memo:
            r = memo[t.id]
            if isinstance(r, Exception):
                raise r
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.sort in "R" and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            try:
                for a in x.args:
                    if a.sort == "R" and isinstance(memo[a.id], Exception):
                        raise memo[a.id]
                memo[x.id] = self._conv1(x)
            except NotPoly as e:
                memo[x.id] = e
            stack.pop()
        r = memo[t.id]
        if isinstance(r, Exception):
            raise r
        return r

    def _conv1(self, x):
        o = x.op
        g = lambda k: self.memo[x.args[k].id]
        if o == "const":
            return self.rconst(x.data)
        if o == "var" or o == "pi":
            sq = self.termrules.get(x)
            if sq is not None:
                return self.ratom(self.atom(("v", x.id), x, lambda: self.topoly(sq)))
            return self.ratom(self.atom(("v", x.id), x))
        if o == "add":
            return self.radd(g(0), g(1))
        if o == "sub":
            return self.radd(g(0), g(1), -1)
        if o == "neg":
            n, d = g(0)
            return (self.pscale(n, Fraction(-1)), d)
        if o == "mul":
            return self.rmul(g(0), g(1))
        if o == "div":
            return self.rmul(g(0), self.rinv(g(1)))
        if o == "sqrt":
            return self.rsqrt(g(0), x)
        if o == "abs":
            n, d = g(0)
            if not n:
                return ({}, {})
            if not d and len(n) == 1 and ONE in n:
                return self.rconst(abs(n[ONE]))
            # sign-normalise
            lead = n[min(n)]
            if lead < 0:
                n = self.pscale(n, Fraction(-1))
            key = ("abs", self.pkey(n), tuple(sorted(d.items())))
            if not d:
                return self.ratom(self.atom(key, x, lambda: self.pmul(n, n)))
            return self.ratom(self.atom(key, x))
        if o in ("sin", "cos"):
            s, c = self.sincos(g(0), x.args[0])
            return s if o == "sin" else c
        if o in ("atan2", "acos", "asin", "exp", "tan", "atan", "fmod", "floor", "pow"):
            if o == "acos" and g(0) == self.rconst(0):
                return self.rmul(self.rconst(Fraction(1, 2)), self.ratom(self.atom(("v", tm.PI.id), tm.PI)))
            key = (o,) + tuple((self.pkey(n), tuple(sorted(d.items()))) for n, d in
                               (g(k) for k in range(len(x.args))))
            return self.ratom(self.atom(key, x))
        if o == "itor":
            return self.ratom(self.atom(("itor", x.args[0].id), x))
        if o in ("ite", "app", "sel", "rsum", "specialfp"):
            h = getattr(self, "x_" + o, None)
            if h:
                return h(x)
            return self.ratom(self.atom(("t", x.id), x))
        return self.ratom(self.atom(("t", x.id), x))

    def topoly(self, t):
        n, d = self.conv_nomemo(t)
        if d:
            raise NotPoly("rational where polynomial expected")
        return n

    def conv_nomemo(self, t):
        return self.conv(t)

    def rsqrt(self, r, x):
        n, d = r
        if not n:
            return ({}, {})
        if not d and len(n) == 1 and ONE in n:
            t = tm.sqrt(tm.const(n[ONE]))
            if tm.isc(t):
                return self.rconst(t.data)
        h = self.use_hint(n, d)
        if h is not None:
            return h
        if d:
            ok = all(self.known_pos(f) for f, e in d.items())
            if ok:
                # sqrt(n/d) = sqrt(n) / sqrt(d), d > 0
                q = self.rsqrt((n, {}), None)
                for f, e in d.items():
                    for _ in range(e):
                        q = self.rmul(q, self.rinv(self.rsqrt((dict(f), {}), None)))
                return q
            # sqrt(n/d) = sqrt(n d) / |d|
            dd = self.expand_den(d)
            nd = self.pmul(n, dd)
            lead = dd[min(dd)]
            if lead < 0:
                dd = self.pscale(dd, Fraction(-1))
            ab = self.atom(("abs", self.pkey(dd), ()), None, lambda: self.pmul(dd, dd))
            return self.rmul(self.rsqrt((nd, {}), None), self.rinv(self.ratom(ab)))
        key = ("sqrt", self.pkey(n))
        lead = abs(n[min(n)])
        self.nonneg.add(self.pkey({m: c / lead for m, c in n.items()}))
        return self.ratom(self.atom(key, x, n))

    def known_pos(self, f):
        if f in self.nonneg:
            return True
        if len(f) == 1:
            (m, c), = f
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                nm = self.names[m[0][0]]
                return isinstance(nm, tuple) and nm[0] in ("sqrt", "abs")
        return False

    def use_hint(self, n, d):
        if not self.hints:
            return None
        if self.hint_polys is None:
            self.hint_polys = []
            hs, self.hints_all = self.hints, self.hints
            self.hints = ()
            for t in hs:
                try:
                    r = self.conv(t)
                    self.hint_polys.append((r, self.rmul(r, r), t))
                except (NotPoly, Blowup):
                    pass
            self.hints = hs
        for r, sq, t in self.hint_polys:
            if not self.radd(sq, (n, d), -1)[0] and self.hint_check is not None and self.hint_check(t):
                return r
        return None

    def sincos(self, r, argterm):
        n, d = r
        S, C = self.rconst(0), self.rconst(1)
        if not n:
            return S, C
        if d:
            key = ("ang", self.pkey(n), tuple(sorted(d.items())))
            return self.base_sc(key, argterm)
        for m, c in sorted(n.items()):
            if m == ONE:
                key = ("angc", c if c > 0 else -c)
                s1, c1 = self.base_sc(key, tm.const(abs(c)))
                if c < 0:
                    s1 = (self.pscale(s1[0], Fraction(-1)), s1[1])
            else:
                den = self.trigden.get(m, c.denominator)
                k = c * den
                if k.denominator != 1:
                    raise NotPoly("angle denominators")
                k = int(k)
                sb, cb = self.mono_sc(m, den)
                s1, c1 = self.multi(sb, cb, abs(k))
                if k < 0:
                    s1 = (self.pscale(s1[0], Fraction(-1)), s1[1])
            S, C = (self.radd(self.rmul(S, c1), self.rmul(C, s1)),
                    self.radd(self.rmul(C, c1), self.rmul(S, s1), -1))
        return S, C

    def multi(self, s, c, k):
        if k > 64:
            raise Blowup("angle multiple")
        S, C = self.rconst(0), self.rconst(1)
        for _ in range(k):
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)),
                    self.radd(self.rmul(C, c), self.rmul(S, s), -1))
        return S, C

    def mono_sc(self, m, den):
        if len(m) == 1 and m[0][1] == 1:
            a = self.atom_terms.get(m[0][0])
            if a is not None and a.op == "pi" and den in (1, 2):
                return (self.rconst(0), self.rconst(-1)) if den == 1 else (self.rconst(1), self.rconst(0))
            if a is not None and den == 1 and a.op in ("acos", "asin"):
                return self.inverse_sc(a)
            if a is not None and den == 1 and a.op == "atan2":
                if a.id in self.atan2_ok:
                    return self.inverse_sc(a)
                if a not in self.atan2_wanted:
                    self.atan2_wanted.append(a)
        at = None
        for v, e in m:
            b = self.atom_terms.get(v)
            if b is None:
                at = None
                break
            for _ in range(e):
                at = b if at is None else tm.mul(at, b)
        if at is not None and den != 1:
            at = tm.mul(tm.const(Fraction(1, den)), at)
        return self.base_sc(("mono", m, den), at)

    def inverse_sc(self, a):
        if a.op == "atan2":
            y, x = self.conv(a.args[0]), self.conv(a.args[1])
            rt = tm.sqrt(tm.add(tm.mul(a.args[1], a.args[1]), tm.mul(a.args[0], a.args[0])))
            r = self.conv(rt)
            ri = self.rinv(r)
            return self.rmul(y, ri), self.rmul(x, ri)
        u = self.conv(a.args[0])
        o = self.conv(tm.sqrt(tm.sub(tm.const(1), tm.mul(a.args[0], a.args[0]))))
        if a.op == "acos":
            return o, u
        return u, o

    def base_sc(self, key, argterm):
        ct = tm.cos(argterm) if argterm is not None else None
        st = tm.sin(argterm) if argterm is not None else None
        ci = self.atom(("cos",) + key, ct)
        si = self.atom(("sin",) + key, st,
                       {ONE: Fraction(1), ((ci, 2),): Fraction(-1)})
        return self.ratom(si), self.ratom(ci)

    def show(self, p, k=6):
        out = []
        for m, c in list(p.items())[:k]:
            out.append("%s*%s" % (c, "*".join("%s^%d" % (self.atom_terms.get(v) or self.names[v], e) for v, e in m)))
        return " + ".join(out) + (" + ...(%d terms)" % len(p) if len(p) > k else "")


def equal(a, b, rules=None, limit=60000, ctx=None):
    """(proved, ctx, residue).  proved => a == b wherever both are defined (no zero denominator, acos/asin arguments in [-1, 1])."""
    c = ctx or Ctx(rules, limit)
    c.prescan([a, b])
    r = c.radd(c.conv(a), c.conv(b), -1)
    return (not r[0]), c, r
