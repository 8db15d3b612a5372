"""SMT-LIB back ends (z3, cvc5 as subprocesses, raced)."""
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction
import term as tm

Z3 = "z3-new"
CVC5 = "cvc5"
SORT = {"R": "Real", "I": "Int", "B": "Bool", "F": "(_ FloatingPoint 8 24)", "D": "(_ FloatingPoint 11 53)"}


def num(fr):
    fr = Fraction(fr)
    s = "%d.0" % abs(fr.numerator) if fr.denominator == 1 else "(/ %d.0 %d.0)" % (abs(fr.numerator), fr.denominator)
    return "(- %s)" % s if fr < 0 else s


def fpbits(v, sort):
    import struct
    if sort == "F":
        b = struct.unpack(">I", struct.pack(">f", v))[0]
        if v != v:
            return "(_ NaN 8 24)"
        return "(fp #b%d #b%s #b%s)" % (b >> 31, format((b >> 23) & 255, "08b"), format(b & 0x7fffff, "023b"))
    b = struct.unpack(">Q", struct.pack(">d", v))[0]
    if v != v:
        return "(_ NaN 11 53)"
    return "(fp #b%d #b%s #b%s)" % (b >> 63, format((b >> 52) & 2047, "011b"), format(b & ((1 << 52) - 1), "052b"))


def ufname(x):
    """a function symbol for an operator read as uninterpreted, or None"""
    if x.op in ("sqrt", "sin", "cos", "atan2", "acos", "asin") and x.sort == "R" or x.op == "fmod" and x.sort == "R":
        return x.op
    if x.op in ("mul", "div") and x.sort == "R" and not any(tm.isc(a) for a in x.args[1 if x.op == "div" else 0:]):
        return x.op
    return None


class Enc:
    def __init__(self, euf=False):
        self.euf = euf            # nonlinear and transcendental operators are uninterpreted
        self.names = {}
        self.out = []
        self.vars = {}
        self.used = set()
        self.pi = None
        self.trigargs, self.trigterm = {}, {}
        self.nl = False
        self.quant = False

    def sym(self, s):
        return "|%s|" % s.replace("|", "_").replace("\\", "_")

    def decl(self, nm, sort):
        self.out.append("(declare-const %s %s)" % (nm, SORT[sort]))

    def mkpi(self):
        if self.pi is None:
            self.pi = "pi!"
            self.decl("pi!", "R")
            self.out.append("(assert (and (< 3.14159265358979 pi!) (< pi! 3.1415926535898)))")
        return self.pi

    def ax(self, s):
        self.out.append("(assert %s)" % s)

    def tr(self, t, bound=None):
        names = self.names
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in names:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in names]
            if todo:
                stack.extend(todo)
                continue
            names[x.id] = self.node(x)
            stack.pop()
        return names[t.id]

    def defn(self, x, s):
        nm = "n%d" % x.id
        self.out.append("(define-fun %s () %s %s)" % (nm, SORT[x.sort], s))
        return nm

    def sc(self, a):
        """declare sin/cos constants for argument term a"""
        k = a.id
        if k not in self.trigargs:
            s, c = "sin!%d" % k, "cos!%d" % k
            self.trigargs[k] = (s, c)
            self.decl(s, "R")
            self.decl(c, "R")
            self.ax("(= (+ (* %s %s) (* %s %s)) 1.0)" % (s, s, c, c))
            self.ax("(and (<= (- 1.0) %s) (<= %s 1.0) (<= (- 1.0) %s) (<= %s 1.0))" % (s, s, c, c))
            if a.op == "atan2":
                y, xx = (self.names[z.id] for z in a.args)
                r = "r!%d" % k
                self.decl(r, "R")
                self.ax("(and (>= %s 0.0) (= (* %s %s) (+ (* %s %s) (* %s %s))))" % (r, r, r, xx, xx, y, y))
                self.ax("(and (= (* %s %s) %s) (= (* %s %s) %s))" % (s, r, y, c, r, xx))
                self.ax("(=> (= %s 0.0) (and (= %s 0.0) (= %s 1.0)))" % (r, s, c))
            if a.op == "acos":
                u = self.names[a.args[0].id]
                self.ax("(=> (and (<= (- 1.0) %s) (<= %s 1.0)) (and (= %s %s) (>= %s 0.0)))" % (u, u, c, u, s))
            if a.op == "asin":
                u = self.names[a.args[0].id]
                self.ax("(=> (and (<= (- 1.0) %s) (<= %s 1.0)) (and (= %s %s) (>= %s 0.0)))" % (u, u, s, u, c))
            nm = self.names[a.id]
            self.ax("(=> (= %s 0.0) (and (= %s 0.0) (= %s 1.0)))" % (nm, s, c))
            # |sin a| <= |a|, and its sign on [-pi, pi]
            pi = self.mkpi()
            self.ax("(=> (>= {a} 0.0) (<= {s} {a}))".format(a=nm, s=s))
            self.ax("(=> (<= {a} 0.0) (>= {s} {a}))".format(a=nm, s=s))
            self.ax("(=> (<= {a} {p}) (<= {s} (- {p} {a})))".format(a=nm, s=s, p=pi))
            self.ax("(=> (>= {a} (- {p})) (>= {s} (- (- {p}) {a})))".format(a=nm, s=s, p=pi))
            self.ax("(=> (and (<= 0.0 {a}) (<= {a} {p})) (>= {s} 0.0))".format(a=nm, s=s, p=pi))
            self.ax("(=> (and (>= 0.0 {a}) (>= {a} (- {p}))) (<= {s} 0.0))".format(a=nm, s=s, p=pi))
            # the angle in (-pi, pi] with given sine and cosine is unique
            for o, (so, co) in list(self.trigargs.items()):
                if o != k and "atan2" in (a.op, self.trigterm[o].op):
                    on = self.names[o]
                    self.ax("(=> (and (= {s} {t}) (= {c} {d}) (< (- {p}) {a}) (<= {a} {p}) (< (- {p}) {b}) (<= {b} {p}))"
                            " (= {a} {b}))".format(s=s, t=so, c=c, d=co, a=nm, b=on, p=pi))
            self.trigterm[k] = a
        return self.trigargs[k]

    def fun(self, x, fnm, A):
        fnm = self.sym(fnm)
        if fnm not in self.used:
            self.used.add(fnm)
            self.out.append("(declare-fun %s (%s) %s)" % (fnm, " ".join(SORT[a.sort] for a in x.args), SORT[x.sort]))
        return self.defn(x, "(%s %s)" % (fnm, " ".join(A)))

    def node(self, x):
        o = x.op
        A = [self.names[a.id] for a in x.args]
        if self.euf:
            u = ufname(x)
            if u:
                nm = self.fun(x, "uf:" + u, A)
                if u == "mul":
                    self.ax("(= %s (%s %s %s))" % (nm, self.sym("uf:mul"), A[1], A[0]))
                return nm
        if o in ("forall", "rsum"):
            return self.fun(x, "q:%s:%d:%s" % (o, x.data.id, ",".join(a.sort for a in x.args)), A)
        if o == "var":
            nm = self.sym(x.data)
            if nm not in self.vars:
                self.vars[nm] = x
                self.decl(nm, x.sort)
            return nm
        if o == "const":
            if x.sort == "R":
                return num(x.data)
            if x.sort == "I":
                return str(x.data) if x.data >= 0 else "(- %d)" % -x.data
            return fpbits(x.data, x.sort)
        if o == "true":
            return "true"
        if o == "false":
            return "false"
        if o == "pi":
            return self.mkpi()
        if o in ("add", "sub", "mul", "div") and x.sort in "RI":
            if o == "mul" and not (tm.isc(x.args[0]) or tm.isc(x.args[1])):
                self.nl = True
            if o == "div" and x.sort == "I":
                return self.defn(x, "(div %s %s)" % tuple(A))
            return self.defn(x, "(%s %s %s)" % ({"add": "+", "sub": "-", "mul": "*", "div": "/"}[o], A[0], A[1]))
        if o == "neg":
            return self.defn(x, "(- %s)" % A[0])
        if o == "lin":
            c, ks = x.data
            parts = ["(* %s %s)" % (k if k >= 0 else "(- %d)" % -k, a) for k, a in zip(ks, A)]
            return self.defn(x, "(+ %s %s)" % (c if c >= 0 else "(- %d)" % -c, " ".join(parts)))
        if o == "itor":
            return self.defn(x, "(to_real %s)" % A[0])
        if o == "ite":
            return self.defn(x, "(ite %s %s %s)" % tuple(A))
        if o == "not":
            return "(not %s)" % A[0]
        if o in ("and", "or"):
            return self.defn(x, "(%s %s)" % (o, " ".join(A)))
        if o == "iff":
            return "(= %s %s)" % tuple(A)
        if o == "isint":
            return self.defn(x, "(is_int %s)" % A[0])
        if o in ("lt", "le"):
            if x.args[0].sort in "FD":
                return "(fp.%s %s %s)" % ({"lt": "lt", "le": "leq"}[o], A[0], A[1])
            return "(%s %s %s)" % ({"lt": "<", "le": "<="}[o], A[0], A[1])
        if o == "eq":
            if x.args[0].sort in "FD":
                return "(fp.eq %s %s)" % tuple(A)
            return "(= %s %s)" % tuple(A)
        if o == "same":
            return "(= %s %s)" % tuple(A)
        if o == "abs":
            if x.sort in "FD":
                return self.defn(x, "(fp.abs %s)" % A[0])
            return self.defn(x, "(ite (< %s 0.0) (- %s) %s)" % (A[0], A[0], A[0]))
        if o == "sqrt":
            if x.sort in "FD":
                return self.defn(x, "(fp.sqrt RNE %s)" % A[0])
            nm = "sq!%d" % x.id
            self.decl(nm, "R")
            self.ax("(and (>= %s 0.0) (=> (>= %s 0.0) (= (* %s %s) %s)))" % (nm, A[0], nm, nm, A[0]))
            self.nl = True
            return nm
        if o in ("sin", "cos"):
            s, c = self.sc(x.args[0])
            self.nl = True
            return s if o == "sin" else c
        if o == "atan2":
            pi = self.mkpi()
            nm = "at!%d" % x.id
            self.decl(nm, "R")
            y, xx = A
            self.ax("(and (< (- %s) %s) (<= %s %s))" % (pi, nm, nm, pi))
            self.ax("(=> (> %s 0.0) (and (< 0.0 %s) (< %s %s)))" % (y, nm, nm, pi))
            self.ax("(=> (< %s 0.0) (< %s 0.0))" % (y, nm))
            self.ax("(=> (= %s 0.0) (= %s (ite (< %s 0.0) %s 0.0)))" % (y, nm, xx, pi))
            self.ax("(=> (> %s 0.0) (and (< (- %s) (* 2.0 %s)) (< (* 2.0 %s) %s)))" % (xx, pi, nm, nm, pi))
            return nm
        if o == "acos":
            pi = self.mkpi()
            nm = "ac!%d" % x.id
            self.decl(nm, "R")
            self.ax("(and (<= 0.0 %s) (<= %s %s))" % (nm, nm, pi))
            self.ax("(=> (= %s 1.0) (= %s 0.0))" % (A[0], nm))
            return nm
        if o == "asin":
            pi = self.mkpi()
            nm = "as!%d" % x.id
            self.decl(nm, "R")
            self.ax("(and (<= (- %s) (* 2.0 %s)) (<= (* 2.0 %s) %s))" % (pi, nm, nm, pi))
            return nm
        if o == "fmod" and x.sort == "R":
            nm, k = "fm!%d" % x.id, "fk!%d" % x.id
            self.decl(nm, "R")
            self.decl(k, "I")
            self.ax("(= %s (+ (* (to_real %s) %s) %s))" % (A[0], k, A[1], nm))
            self.ax("(=> (> %s 0.0) (and (< %s %s) (< (- %s) %s)))" % (A[1], nm, A[1], A[1], nm))
            self.ax("(=> (>= %s 0.0) (>= %s 0.0))" % (A[0], nm))
            self.ax("(=> (<= %s 0.0) (<= %s 0.0))" % (A[0], nm))
            return nm
        if o == "floor":
            return self.defn(x, "(to_real (to_int %s))" % A[0])
        if o == "trunc_i":
            return self.defn(x, "(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))" % (A[0], A[0], A[0]))
        if o.startswith("fp."):
            if o in ("fp.add", "fp.sub", "fp.mul", "fp.div"):
                return self.defn(x, "(%s RNE %s %s)" % (o, A[0], A[1]))
            if o == "fp.neg":
                return self.defn(x, "(fp.neg %s)" % A[0])
            if o == "fp.to_d":
                return self.defn(x, "((_ to_fp 11 53) RNE %s)" % A[0])
            if o == "fp.to_f":
                return self.defn(x, "((_ to_fp 8 24) RNE %s)" % A[0])
            if o == "fp.isnan":
                return "(fp.isNaN %s)" % A[0]
            if o == "fp.real":
                return "(fp.to_real %s)" % A[0]
            if o == "fp.sqrt":
                return self.defn(x, "(fp.sqrt RNE %s)" % A[0])
        # uninterpreted
        if o == "sel":
            return self.fun(x, "sel:%s:%s" % (x.data, x.sort), A)
        nm = "u!%d" % x.id
        self.decl(nm, x.sort)
        if o not in ("app", "specialfp", "undef", "exp", "pow", "fp.fn"):
            raise tm.Undefined("smt: operator " + o)
        # functional consistency is provided by hash-consing (same args -> same constant);
        # distinct-but-equal arguments are not identified: sound (weaker), incomplete.
        return nm


def script(hyps, goal, want_model=True, euf=False):
    e = Enc(euf)
    asserts = []
    for h in hyps:
        asserts.append(e.tr(h))
    if goal is not None:
        asserts.append("(not %s)" % e.tr(goal))
    body = e.out + ["(assert %s)" % a for a in asserts]
    txt = "(set-option :produce-models true)\n(set-logic ALL)\n" + "\n".join(body) + "\n(check-sat)\n"
    return txt, e


STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0]}


def run(hyps, goal, timeout=10.0, solvers=("z3", "cvc5"), model=True, euf=False):
    """decide hyps |= goal.  returns (status, backend, secs, model) status in proved/refuted/unknown"""
    txt, e = script(hyps, goal, euf=euf)
    gv = [nm for nm in e.vars]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="vsmt")
    procs = []
    try:
        for s in solvers:
            f = os.path.join(d, s + ".smt2")
            t = txt
            if model and gv:
                t += "(get-value (%s))\n" % " ".join(gv)
            with open(f, "w") as fh:
                if s.startswith("z3"):
                    fh.write("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n")
                fh.write(t)
            if s == "z3":
                cmd = [Z3, "-T:%d" % max(1, int(timeout)), f]
            else:
                cmd = [CVC5, "--tlimit=%d" % int(timeout * 1000), "--nl-cov", f] if not s.endswith("fp") else \
                      [CVC5, "--tlimit=%d" % int(timeout * 1000), f]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        res = ("unknown", None, 0, None)
        live = list(procs)
        while live and time.time() - t0 < timeout + 2:
            for s, p in list(live):
                if p.poll() is not None:
                    live.remove((s, p))
                    out = p.stdout.read()
                    first = out.strip().split("\n")[0].strip() if out.strip() else ""
                    if first in ("sat", "unsat"):
                        b = "z3" if s.startswith("z3") else "cvc5"
                        STATS[b][0] += 1
                        STATS[b][1] += time.time() - t0
                        if first == "unsat":
                            return ("proved", b, time.time() - t0, None)
                        return ("refuted", b, time.time() - t0, parse_model(out, e))
            time.sleep(0.003)
        return ("unknown", None, time.time() - t0, None)
    finally:
        for s, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def _sexp(s):
    toks = re.findall(r"\|[^|]*\||[()]|[^\s()]+", s)
    st = [[]]
    for t in toks:
        if t == "(":
            st.append([])
        elif t == ")":
            x = st.pop()
            st[-1].append(x)
        else:
            st[-1].append(t)
    return st[0]


def _val(v, sort):
    if isinstance(v, str):
        if v in ("true", "false"):
            return v == "true"
        try:
            return float(v.rstrip("?")) if sort == "R" else int(v)
        except ValueError:
            return None
    if v and v[0] == "-":
        x = _val(v[1], sort)
        return -x if x is not None else None
    if v and v[0] == "/":
        a, b = _val(v[1], "R"), _val(v[2], "R")
        return a / b if a is not None and b else None
    if v and v[0] == "fp":
        import struct
        bits = "".join(x[2:] if x.startswith("#b") else format(int(x[2:], 16), "0%db" % (4 * len(x[2:]))) for x in v[1:])
        if len(bits) == 32:
            return struct.unpack(">f", int(bits, 2).to_bytes(4, "big"))[0]
        return struct.unpack(">d", int(bits, 2).to_bytes(8, "big"))[0]
    if v and v[0] == "_":
        return {"NaN": float("nan"), "+oo": float("inf"), "-oo": float("-inf"), "+zero": 0.0, "-zero": -0.0}.get(v[1])
    return None


def parse_model(out, e):
    try:
        body = out[out.index("sat") + 3:]
        s = _sexp(body)
        m = {}
        for item in s:
            if isinstance(item, list):
                for pr in item:
                    if isinstance(pr, list) and len(pr) == 2 and isinstance(pr[0], str):
                        nm = pr[0] if pr[0] in e.vars else "|%s|" % pr[0]
                        if nm in e.vars:
                            v = _val(pr[1], e.vars[nm].sort)
                            if v is not None:
                                m[e.vars[nm]] = v
        return m
    except Exception:
        return {}
