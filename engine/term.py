"""Hash-consed terms.  Sorts: R (mathematical real), I (mathematical integer), B (bool),
F (IEEE single), D (IEEE double).  R-terms overload the usual operators so contracts are
written as ordinary arithmetic."""
from collections import ChainMap
from fractions import Fraction
import math
import struct

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "data")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    # arithmetic sugar (R and I)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, n):
        r = lift(1, self.sort)
        for _ in range(n):
            r = mul(r, self)
        return r
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)
    def __bool__(self):
        raise TypeError("symbolic bool used as python bool")
    def __repr__(self): return show(self)


def mk(op, args, sort, data=None):
    k = (op, tuple(a.id if isinstance(a, T) else a for a in args), sort, data)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


def var(name, sort="R"):
    return mk("var", (), sort, name)


_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def const(v, sort="R"):
    if sort == "R":
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return mk("specialfp", (), "R", repr(v))
            v = Fraction(v)
        v = Fraction(v)
    elif sort == "I":
        v = int(v)
    return mk("const", (), sort, v)


def lift(x, sort="R"):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return const(x, sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def isc(t):
    return t.op == "const"


def _two(a, b):
    if isinstance(a, T):
        return a, lift(b, a.sort)
    if isinstance(b, T):
        return lift(a, b.sort), b
    return const(a), const(b)


def _chk(a, b):
    if a.sort != b.sort:
        raise TypeError("sort mismatch %s %s: %r %r" % (a.sort, b.sort, a, b))


def add(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(a) and isc(b):
        return const(a.data + b.data, a.sort)
    if isc(a) and a.data == 0:
        return b
    if isc(b) and b.data == 0:
        return a
    if a.sort == "I":
        return linint(a, b, 1)
    return mk("add", (a, b), a.sort)


def sub(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(a) and isc(b):
        return const(a.data - b.data, a.sort)
    if isc(b) and b.data == 0:
        return a
    if a is b:
        return const(0, a.sort)
    if isc(a) and a.data == 0:
        return neg(b)
    if a.sort == "I":
        return linint(a, b, -1)
    return mk("sub", (a, b), a.sort)


def neg(a):
    if isc(a):
        return const(-a.data, a.sort)
    if a.op == "neg":
        return a.args[0]
    if a.sort == "I":
        return linint(const(0, "I"), a, -1)
    return mk("neg", (a,), a.sort)


def mul(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(a) and isc(b):
        return const(a.data * b.data, a.sort)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.data == 0:
                return x
            if x.data == 1:
                return y
            if x.data == -1:
                return neg(y)
    if a.sort == "I":
        if isc(a) or isc(b):
            c, x = (a, b) if isc(a) else (b, a)
            return linint(const(0, "I"), x, c.data)
        return mk("mul", (a, b) if a.id <= b.id else (b, a), "I")
    return mk("mul", (a, b), a.sort)


def lin_of(t):
    """integer term -> (const, {atom: coef})"""
    if isc(t):
        return t.data, {}
    if t.op == "lin":
        c, ks = t.data
        return c, dict(zip(t.args, ks))
    return 0, {t: 1}


def mklin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return const(c, "I")
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    at = sorted(d, key=lambda x: x.id)
    return mk("lin", at, "I", (c, tuple(d[a] for a in at)))


def linint(a, b, k):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for x, kk in db.items():
        d[x] = d.get(x, 0) + k * kk
    return mklin(ca + k * cb, d)


def idiv_exact(a, n):
    """a / n when provably exact (linear coefficients divisible)."""
    c, d = lin_of(a)
    if c % n == 0 and all(k % n == 0 for k in d.values()):
        return mklin(c // n, {x: k // n for x, k in d.items()})
    return None


def div(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(b) and b.data != 0:
        if isc(a):
            return const(a.data / b.data)
        if b.data == 1:
            return a
    return mk("div", (a, b), a.sort)


def itor(a):
    if isc(a):
        return const(a.data, "R")
    return mk("itor", (a,), "R")


def ite(c, a, b):
    a, b = _two(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), a.sort)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt" and a.args[0].sort in "RI":
        return le(a.args[1], a.args[0])
    if a.op == "le" and a.args[0].sort in "RI":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is FALSE or x is False:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        elif x.op == "not" and x.args[0].op == "or":
            for y in x.args[0].args:
                y = not_(y)
                out.extend(y.args if y.op == "and" else (y,))
        else:
            out.append(x)
    if len(out) > 1 and any(x.op == "not" and x.args[0].op == "and" for x in out):
        have = {x.id for x in out}
        r = []
        for x in out:                    # p && !(p && q) is p && !q
            if x.op == "not" and x.args[0].op == "and" and any(y.id in have for y in x.args[0].args):
                k = [y for y in x.args[0].args if y.id not in have]
                x = not_(and_(*k)) if k else FALSE
                if x is FALSE:
                    return FALSE
            r.append(x)
        out = r
    s = []
    seen = set()
    for x in out:
        if x.id in seen:
            continue
        if not_(x).id in seen:
            return FALSE
        seen.add(x.id)
        s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", s, "B")


def or_(*xs):
    return not_dm(and_(*[not_(x if isinstance(x, T) else lift(x)) for x in xs]))


def not_dm(a):
    if a.op == "and":
        return mk("or", [not_(x) for x in a.args], "B")
    return not_(a)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return mk("iff", (a, b), "B")


def icmp0(a, b, op):
    """integer comparison a <= b (a == b) in a canonical form: coefficients divided by their gcd, like terms on one side"""
    c, d = lin_of(linint(b, a, -1))
    if not d:
        return TRUE if (c >= 0 if op == "le" else c == 0) else FALSE
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if op == "eq":
        if c % g:
            return FALSE
        if d[min(d, key=lambda x: x.id)] < 0:
            g = -g
    c //= g                       # floor: c + g*X >= 0  <=>  X >= -floor(c / g)
    d = {x: k // g for x, k in d.items()}
    r = mklin(max(c, 0), {x: k for x, k in d.items() if k > 0})
    l = mklin(max(-c, 0), {x: -k for x, k in d.items() if k < 0})
    return mk(op, (l, r), "B")


def lt(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(a) and isc(b):
        return TRUE if a.data < b.data else FALSE
    if a is b:
        return FALSE
    if a.sort == "I":
        return icmp0(add(a, const(1, "I")), b, "le")
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if isc(a) and isc(b):
        return TRUE if a.data <= b.data else FALSE
    if a is b:
        return TRUE
    if a.sort == "I":
        return icmp0(a, b, "le")
    return mk("le", (a, b), "B")


def eq(a, b):
    a, b = _two(a, b)
    _chk(a, b)
    if a.sort == "B":
        return iff(a, b)
    if isc(a) and isc(b):
        return TRUE if a.data == b.data else FALSE
    if a is b and a.sort not in "FD":
        return TRUE
    if a.sort == "I":
        return icmp0(a, b, "eq")
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def ne(a, b):
    return not_(eq(a, b))


def fn(name, *args):
    """real functions: sqrt sin cos atan2 acos asin abs ..."""
    args = [lift(a) for a in args]
    if name == "abs":
        a = args[0]
        if isc(a):
            return const(abs(a.data))
        if a.op == "neg":
            a = a.args[0]
        return mk("abs", (a,), "R")
    if all(isc(a) for a in args):
        v = [a.data for a in args]
        if name == "sqrt" and v[0] >= 0:
            n, d = v[0].numerator, v[0].denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd))
        if name in ("sin", "atan", "asin", "tan") and v[0] == 0:
            return const(0)
        if name == "cos" and v[0] == 0:
            return const(1)
        if name == "exp" and v[0] == 0:
            return const(1)
        if name == "acos" and v[0] == 1:
            return const(0)
        if name == "atan2" and v[0] == 0 and v[1] >= 0:
            return const(0)
        if name in ("floor",):
            return const(v[0].__floor__())
    return mk(name, args, "R")


def sqrt(a): return fn("sqrt", a)
def sin(a): return fn("sin", a)
def cos(a): return fn("cos", a)
def isint(a): return mk("isint", (a,), "B")
def atan2(y, x): return fn("atan2", y, x)
def acos(a): return fn("acos", a)
def asin(a): return fn("asin", a)
def absr(a): return fn("abs", a)
def rmin(a, b):
    a, b = _two(a, b)
    return ite(le(a, b), a, b)
def rmax(a, b):
    a, b = _two(a, b)
    return ite(le(a, b), b, a)


PI = mk("pi", (), "R")


def subst(t, m, memo=None):
    """simultaneous substitution {T: T} bottom-up (rebuilds with simplifying constructors)."""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x in m:
            memo[x.id] = m[x]
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        if not x.args:
            memo[x.id] = x
        else:
            na = [memo[a.id] for a in x.args]
            memo[x.id] = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x, na)
        stack.pop()
    return memo[t.id]


def rebuild(x, na):
    o = x.op
    if o in ("add", "sub", "mul", "div", "lt", "le", "eq") and x.args[0].sort in "RIB":
        return {"add": add, "sub": sub, "mul": mul, "div": div, "lt": lt, "le": le, "eq": eq}[o](*na)
    if o == "neg":
        return neg(na[0])
    if o == "lin":
        c, ks = x.data
        r = const(c, "I")
        for a, k in zip(na, ks):
            r = linint(r, a, k)
        return r
    if o == "ite":
        if x.sort in "FD":
            return na[1] if na[0] is TRUE or na[1] is na[2] else na[2] if na[0] is FALSE else mk("ite", na, x.sort)
        return ite(*na)
    if o == "not":
        return not_(na[0])
    if o == "and":
        return and_(*na)
    if o == "or":
        return or_(*na)
    if o == "iff":
        return iff(*na)
    if o == "itor":
        return itor(na[0])
    if o in ("sqrt", "sin", "cos", "atan2", "acos", "asin", "abs", "exp", "floor", "tan", "atan"):
        return fn(o, *na)
    if o in ("forall", "rsum"):
        return requant(o, na, x.data, x.sort)
    return mk(o, na, x.sort, x.data)


def atoms(t, pred, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            out.append(x)
        st.extend(x.args)
    return out


def variables(*ts):
    seen, out = set(), []
    for t in ts:
        atoms(t, lambda x: x.op == "var", seen, out)
    return out


def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    if o == "var":
        return str(t.data)
    if o == "const":
        if isinstance(t.data, Fraction) and t.data.denominator != 1:
            f = float(t.data)
            return "%.9g" % f
        return str(t.data)
    if o in ("true", "false", "pi"):
        return o
    a = [show(x, d + 1) for x in t.args]
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==",
           "and": "&&", "or": "||", "iff": "<=>"}
    if o in inf:
        return "(" + (" %s " % inf[o]).join(a) + ")"
    if o == "lin":
        c, ks = t.data
        return "(" + " + ".join([str(c)] * (c != 0) + ["%d*%s" % (k, x) if k != 1 else x
                                                     for k, x in zip(ks, a)]) + ")"
    return "%s%s(%s)" % (o, "" if t.data is None else "<%s>" % (t.data,), ", ".join(a))


# ------------------------------------------------------------------ bounded quantification and sums
# ("forall", (n, p1..pm), template): for every integer 0 <= j < n the template holds, with j! the bound index and
# q!i standing for the i-th parameter (the maximal subterms that do not depend on the index)
def depends(t, v):
    """does v occur in t?"""
    return bool(atoms(t, lambda x: x is v))


def abstract_over(body, k):
    """(template, parameters) of body as a function of k"""
    dep = set()
    order, seen, st = [], set(), [(body, False)]
    while st:
        x, done = st.pop()
        if done:
            if x is k or any(a.id in dep for a in x.args):
                dep.add(x.id)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, True))
        st.extend((a, False) for a in x.args)
    ps, m = [], {k: var("j!", "I")}
    seen = set()

    def walk(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.id in dep:
            for a in x.args:
                walk(a)
        elif x.args or x.op == "var":
            m[x] = var("q!%s%d" % (x.sort, len(ps)), x.sort)
            ps.append(x)
    walk(body)
    return subst(body, m), ps


def instance(q, e):
    """the body of a quantifier or sum at index e"""
    m = {var("j!", "I"): e}
    for i, p in enumerate(q.args[1:]):
        m[var("q!%s%d" % (p.sort, i), p.sort)] = p
    return subst(q.data, m)


def quant(op, n, tmpl, ps, sort):
    return mk(op, [n] + list(ps), sort, tmpl)


def forward(n, k, body):
    """arrays read at n-1-k for 0 <= k < n: count upwards instead"""
    back = linint(linint(n, const(1, "I"), -1), k, -1)
    hit = False
    for x in atoms(body, lambda x: x.op == "sel"):
        if depends(x, k):
            if x.args[-1] is not back:
                return body
            hit = True
    return subst(body, {k: back}) if hit else body


def forall(n, k, body):
    n = lift(n, "I")
    zero = const(0, "I")
    body = forward(n, k, body)
    if body is TRUE or isc(n) and n.data <= 0:
        return TRUE
    if isc(n) and n.data <= 4:
        return and_(*[subst(body, {k: const(i, "I")}) for i in range(n.data)])
    if body.op == "and":
        return and_(*[forall(n, k, x) for x in body.args])
    if body.op == "not" and body.args[0].op == "or":
        return and_(*[forall(n, k, not_(x)) for x in body.args[0].args])
    if not depends(body, k):
        return or_(le(n, zero), body)
    b, neg = (body.args[0], True) if body.op == "not" else (body, False)
    if b.op in ("le", "eq") and b.args[0].sort == "I":
        c, d = lin_of(linint(b.args[1], b.args[0], -1))
        kk = d.get(k, 0)
        rest = mklin(c, {x: y for x, y in d.items() if x is not k})
        if abs(kk) == 1 and not depends(rest, k):
            if b.op == "le" and not neg:
                if kk == -1:                      # j <= rest for all j < n
                    return or_(le(n, zero), le(n, add(rest, const(1, "I"))))
                return or_(le(n, zero), le(zero, rest))      # 0 <= rest + j
            if b.op == "eq" and neg:              # j != e for all 0 <= j < n
                e = rest if kk == -1 else neg_(rest)
                return or_(lt(e, zero), le(n, e))
    t, ps = abstract_over(body, k)
    return quant("forall", n, t, ps, "B")


def neg_(a):
    return sub(const(0, "I"), a)


def exists(n, k, body):
    return not_(forall(n, k, not_(body)))


PARTIAL = ("div", "sqrt", "acos", "asin", "ite", "fmod", "floor", "log", "tan")


def canonical(c, k):
    """a comparison as 0 <= P with the terms of P in a fixed order -> (condition, negated)"""
    neg_ = False
    while c.op == "not":
        c, neg_ = c.args[0], not neg_
    if c.op in ("le", "lt") and c.args[0].sort == "R":
        a, b = c.args
        if c.op == "lt":
            a, b, neg_ = b, a, not neg_
        r = const(0)
        for fs, co in sorted(monomials(sub(b, a), k).items(), key=lambda z: [f.id for f in z[0]]):
            m = const(co)
            for f in fs:
                m = mul(m, f)
            r = add(r, m)
        c = le(const(0), r)
    return c, neg_


def monomials(t, k):
    """t as {tuple of factors: coefficient} (factors sorted by identity), or None"""
    def mul2(a, b):
        out = {}
        for x, c in a.items():
            for y, d in b.items():
                key = tuple(sorted(x + y, key=lambda z: z.id))
                out[key] = out.get(key, 0) + c * d
        return out
    def go(t):
        if isc(t):
            return {(): t.data} if t.data else {}
        if t.op in ("add", "sub"):
            a, b = go(t.args[0]), go(t.args[1])
            out = dict(a)
            for x, c in b.items():
                out[x] = out.get(x, 0) + (c if t.op == "add" else -c)
            return out
        if t.op == "neg":
            return {x: -c for x, c in go(t.args[0]).items()}
        if t.op == "mul" and depends(t, k):
            return mul2(go(t.args[0]), go(t.args[1]))
        if t.op == "div" and depends(t.args[0], k) and not depends(t.args[1], k):
            return mul2(go(t.args[0]), {(div(const(1), t.args[1]),): 1})
        if t.op == "ite" and t.sort == "R" and depends(t, k):
            c, neg_ = canonical(t.args[0], k)
            a, b = (t.args[2], t.args[1]) if neg_ else (t.args[1], t.args[2])
            ind = ite(c, const(1), const(0))
            if ind.op == "ite" and t is ind:
                return {(t,): 1}
            if ind.op == "ite" and not any(x.op in PARTIAL for y in (a, b) for x in atoms(y, lambda x: x.op in PARTIAL)):
                # b + [c] (a - b)
                return go(add(b, mul(ind, sub(a, b))))
        if t.op in ("sin", "cos") and t.args[0].op in ("add", "sub") and depends(t, k):
            x, y = t.args[0].args
            if not (depends(x, k) and depends(y, k)):
                # angle addition splits off the part that does not change
                s = 1 if t.args[0].op == "add" else -1
                if t.op == "sin":
                    r = add(mul(sin(x), cos(y)), mul(const(s), mul(cos(x), sin(y))))
                else:
                    r = sub(mul(cos(x), cos(y)), mul(const(s), mul(sin(x), sin(y))))
                return go(r)
        return {(t,): 1}
    return go(t)


_height = {}


def height(t):
    """nesting depth of quantifiers and sums"""
    qs = atoms(t, lambda x: x.op in ("forall", "rsum"))
    h = 0
    for q in qs:
        if q.id not in _height:
            _height[q.id] = 1 + max([height(q.data)] + [height(a) for a in q.args])
        h = max(h, _height[q.id])
    return h


def rsum(n, k, body):
    """sum of body over 0 <= k < n (sort R or I)"""
    n = lift(n, "I")
    s = body.sort
    body = forward(n, k, body)
    if isc(n) and n.data <= 4:
        r = const(0, s)
        for i in range(max(0, n.data)):
            r = add(r, subst(body, {k: const(i, "I")}))
        return r
    if s == "I":
        if isc(body) and body.data == 0:
            return body
        t, ps = abstract_over(body, k)
        return quant("rsum", n, t, ps, s)
    j = var("js!%d" % height(body), "I")
    res = const(0)
    ms = monomials(subst(body, {k: j}), j)
    for fs, c in sorted(ms.items(), key=lambda z: [f.id for f in z[0]]):
        if c == 0:
            continue
        out, inn = const(c), None
        for f in fs:
            if depends(f, j):
                inn = f if inn is None else mul(inn, f)
            else:
                out = mul(out, f)
        if inn is None:
            q = itor(ite(le(const(0, "I"), n), n, const(0, "I")))
        else:
            t, ps = abstract_over(inn, j)
            q = quant("rsum", n, t, ps, "R")
        res = add(res, mul(out, q))
    return res


def requant(op, na, tmpl, sort):
    """rebuild a quantifier after its parameters changed"""
    m = {}
    k = fresh("j", "I")
    m[var("j!", "I")] = k
    for i, p in enumerate(na[1:]):
        m[var("q!%s%d" % (p.sort, i), p.sort)] = p
    body = subst(tmpl, m)
    return forall(na[0], k, body) if op == "forall" else rsum(na[0], k, body)


# ------------------------------------------------------------ numeric evaluation
def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class Undefined(Exception):
    pass


def ev(t, env, memo=None):
    """numeric value in double precision; env: {var T: float/int/bool}."""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == "ite":
            c = x.args[0]
            if c.id not in memo:
                stack.append(c)
                continue
            br = x.args[1] if memo[c.id] else x.args[2]
            if br.id not in memo:
                stack.append(br)
                continue
            memo[x.id] = memo[br.id]
            stack.pop()
            continue
        if x.op in ("and", "or"):
            res = None
            for a in x.args:
                if a.id not in memo:
                    stack.append(a)
                    res = "wait"
                    break
                if x.op == "and" and not memo[a.id]:
                    res = False
                    break
                if x.op == "or" and memo[a.id]:
                    res = True
                    break
            if res == "wait":
                continue
            memo[x.id] = (x.op == "and") if res is None else res
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _ev1(x, [memo[a.id] for a in x.args], env)
        stack.pop()
    return memo[t.id]


EV_EXTRA = {}


def _ev1(x, a, env):
    o = x.op
    if o == "var":
        if x in env:
            return env[x]
        raise Undefined("no value for %s" % x.data)
    if o in ("forall", "rsum"):
        loc = {var("q!%s%d" % (p.sort, i), p.sort): v for i, (p, v) in enumerate(zip(x.args[1:], a[1:]))}
        tot = 0.0 if x.sort == "R" else 0
        for i in range(min(a[0], 100000)):
            loc[var("j!", "I")] = i
            v = ev(x.data, ChainMap(loc, env))
            if o == "rsum":
                tot += v
            elif not v:
                return False
        return True if o == "forall" else tot
    if o == "const":
        return float(x.data) if x.sort == "R" else x.data
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "pi":
        return math.pi
    if o == "specialfp":
        return float(x.data)
    try:
        if o == "add": return a[0] + a[1]
        if o == "sub": return a[0] - a[1]
        if o == "mul": return a[0] * a[1]
        if o == "div":
            if a[1] == 0:
                raise Undefined("division by zero")
            return a[0] / a[1]
        if o == "neg": return -a[0]
        if o == "lin":
            c, ks = x.data
            return c + sum(k * v for k, v in zip(ks, a))
        if o == "not": return not a[0]
        if o == "iff": return a[0] == a[1]
        if o == "lt": return a[0] < a[1]
        if o == "le": return a[0] <= a[1]
        if o == "eq": return a[0] == a[1]
        if o == "itor": return float(a[0])
        if o == "abs": return abs(a[0])
        if o == "sqrt":
            if a[0] < 0:
                if a[0] > -1e-12:
                    return 0.0
                raise Undefined("sqrt of negative")
            return math.sqrt(a[0])
        if o == "sin": return math.sin(a[0])
        if o == "cos": return math.cos(a[0])
        if o == "tan": return math.tan(a[0])
        if o == "atan": return math.atan(a[0])
        if o == "exp": return math.exp(a[0])
        if o == "atan2": return math.atan2(a[0], a[1])
        if o in ("acos", "asin"):
            v = a[0]
            if abs(v) > 1:
                if abs(v) < 1 + 1e-9:
                    v = 1.0 if v > 0 else -1.0
                else:
                    raise Undefined(o)
            return math.acos(v) if o == "acos" else math.asin(v)
        if o == "fmod":
            return math.fmod(a[0], a[1])
        if o == "floor":
            return float(math.floor(a[0]))
        if o == "trunc_i":
            return int(a[0])
        if o == "isint":
            return abs(a[0] - round(a[0])) < 1e-5 * (1 + abs(a[0]))
    except (ValueError, OverflowError, ZeroDivisionError) as e:
        raise Undefined(str(e))
    h = EV_EXTRA.get(o)
    if h:
        return h(x, a, env)
    raise Undefined("cannot evaluate " + o)
