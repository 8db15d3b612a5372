"""Numeric evaluation with a margin: comparisons closer than the margin are undecided (None)."""
import math
import term as tm


class Fragile(Exception):
    pass


def small(x, v, a):
    """the value of x, computed from the values a, is exact in single precision however the code computes it"""
    if not isinstance(v, (int, float)) or v != v or abs(v) > 4096 or v * 1024 != math.floor(v * 1024):
        return False
    if x.op in ("sin", "cos", "asin", "atan2"):
        return a[0] == 0 and (x.op != "atan2" or a[1] > 0)
    if x.op == "sqrt":
        return v * v == a[0]
    if x.op == "div":
        return v * a[1] == a[0]
    return x.op in ("add", "sub", "mul", "neg", "abs", "lin", "itor", "ite", "min", "max")


class Num:
    def __init__(self, env, tol=1e-6, dyadic=False):
        """dyadic: comparisons within the margin are decided all the same while every intermediate value is a
        small dyadic number, on which machine arithmetic is exact (the caller looks at `rounded` in the end)"""
        self.env, self.tol = env, tol
        self.dyadic, self.rounded, self.used = dyadic, False, False
        self.memo = {}
        self.bmemo = {}

    def val(self, t):
        """real/int value; raises Fragile when an ite condition is undecided, Undefined when not defined"""
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "rsum":
                memo[x.id] = sum(self.val(tm.instance(x, tm.const(j, "I"))) for j in range(self.count(x)))
                stack.pop()
                continue
            if x.op == "ite":
                c = self.tri(x.args[0])
                if c is None:
                    # both branches equal?
                    va, vb = self.val(x.args[1]), self.val(x.args[2])
                    if abs(va - vb) <= self.tol * (1 + abs(va)):
                        memo[x.id] = va
                        stack.pop()
                        continue
                    raise Fragile()
                br = x.args[1] if c else x.args[2]
                memo[x.id] = self.val(br)
                stack.pop()
                continue
            if x.sort == "B":
                v = self.tri(x)
                if v is None:
                    raise Fragile()
                memo[x.id] = v
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            a = [memo[y.id] for y in x.args]
            if x.op in ("floor", "trunc_i") and abs(a[0] - round(a[0])) < self.tol * (1 + abs(a[0])) and \
                    not a[0] == round(a[0]):
                raise Fragile()
            if x.op == "fmod" and x.sort == "R" and a[1] != 0:
                q = a[0] / a[1]
                if abs(q - round(q)) < self.tol and q != 0:
                    raise Fragile()
            if x.op == "atan2" and a[1] < 0 and abs(a[0]) < self.tol * abs(a[1]) and a[0] != 0:
                raise Fragile()
            if x.op in ("acos", "asin") and 1 < abs(a[0]) < 1 + 1e-5:
                a[0] = math.copysign(1.0, a[0])
            if x.op == "sqrt" and -1e-6 < a[0] < 0:
                a[0] = 0.0
            if x.op == "div" and abs(a[1]) < 1e-12:
                raise tm.Undefined("division by zero")
            memo[x.id] = tm._ev1(x, a, self.env)
            if self.dyadic and x.sort == "R" and x.op not in ("var", "const", "sel"):
                self.rounded = self.rounded or not small(x, memo[x.id], a)
            if x.sort == "R" and isinstance(memo[x.id], float) and (memo[x.id] != memo[x.id] or abs(memo[x.id]) > 1e30):
                raise tm.Undefined("overflow")
            stack.pop()
        return memo[t.id]

    def tri(self, t):
        r = self.bmemo.get(t.id, 0)
        if r != 0:
            return r
        r = self._tri(t)
        if r is not None:
            r = bool(r)         # numpy booleans are not `is True`
        self.bmemo[t.id] = r
        return r

    def _tri(self, t):
        o = t.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "var":
            return bool(self.env[t])
        if o == "not":
            v = self.tri(t.args[0])
            return None if v is None else not v
        if o == "and":
            r = True
            for a in t.args:
                v = self.tri(a)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if o == "or":
            r = False
            for a in t.args:
                v = self.tri(a)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if o == "iff":
            a, b = self.tri(t.args[0]), self.tri(t.args[1])
            return None if a is None or b is None else a == b
        if o == "ite":
            c = self.tri(t.args[0])
            if c is None:
                a, b = self.tri(t.args[1]), self.tri(t.args[2])
                return a if a == b else None
            return self.tri(t.args[1] if c else t.args[2])
        if o in ("lt", "le", "eq"):
            if t.args[0].sort == "I":
                a, b = self.val(t.args[0]), self.val(t.args[1])
                return a < b if o == "lt" else a <= b if o == "le" else a == b
            try:
                a, b = self.val(t.args[0]), self.val(t.args[1])
            except Fragile:
                return None
            m = self.tol * (max(abs(a), abs(b)) + min(1.0, self.scale(t)))
            exact = self.tol == 0 or self.exact(t)
            if self.dyadic and not exact and not self.rounded and abs(a - b) <= m:
                exact = self.used = True
            if exact:
                return a < b if o == "lt" else a <= b if o == "le" else a == b
            if o == "eq":
                return False if abs(a - b) > m else None if a != b or self.tol > 0 else True
            if abs(a - b) <= m:
                return None
            return a < b
        if o in ("forall", "exists"):
            r = o == "forall"
            for j in range(self.count(t)):
                v = self.tri(tm.instance(t, tm.const(j, "I")))
                if v is not None and v != (o == "forall"):
                    return v
                r = r if v is not None else None
            return r
        if o == "isint":
            v = self.val(t.args[0])
            return None if abs(v - round(v)) <= 1e-5 * (1 + abs(v)) else False
        if o == "fp.isnan":
            v = self.val(t.args[0])
            return bool(v != v)
        raise tm.Undefined("bool op " + o)

    def count(self, t):
        n = self.val(t.args[0])
        if n > 10000:
            raise tm.Undefined("long")
        return max(0, int(n))

    def scale(self, t):
        return 1.0

    _ex = {}

    def exact(self, t):
        """comparison of inputs and constants only (no arithmetic): exact"""
        def leaf(x):
            return x.op in ("var", "const", "sel") or (x.op in ("neg", "abs") and leaf(x.args[0]))
        return all(leaf(a) for a in t.args)
