"""Textual LLVM IR (clang-18, opaque pointers) -> Python objects.

Only the constructs clang emits for libalmath are accepted; anything else raises
IRError (an extraction failure: the check ends with exit 2, never a violation).
"""
import re
import struct


class IRError(Exception):
    pass


# ----------------------------------------------------------------- types
class Type:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return "%s(%r,%r)" % (self.k, self.a, self.b) if self.a is not None else self.k


VOID, PTR, FLOAT, DOUBLE, LABEL, META = (Type(k) for k in
                                        ("void", "ptr", "float", "double", "label", "metadata"))
X86FP80 = Type("x86_fp80")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Type("int", n)
    return _ints[n]


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<attr>\#\d+)
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
  | (?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<num>0x[KLMH]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
  | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.]*)
  | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot tokenize: %r at %r" % (s[:200], s[i:i + 30]))
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly",
               "returned", "signext", "zeroext", "inreg", "immarg", "nofree", "nest", "swiftself",
               "dead_on_unwind", "writable", "noinline", "allocptr", "allocalign", "inrange"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval",
                   "elementtype", "byref", "range", "captures", "preallocated", "inalloca", "nofpclass"}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v

    def acc(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError("expected %r at %r" % (v, self.t[self.i:self.i + 6]))

    def eof(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, v = self.next()
        if v == "void":
            t = VOID
        elif v == "ptr":
            t = PTR
            if self.at("addrspace"):
                raise IRError("addrspace")
        elif v == "float":
            t = FLOAT
        elif v == "double":
            t = DOUBLE
        elif v == "x86_fp80":
            t = X86FP80
        elif v == "label":
            t = LABEL
        elif v == "metadata":
            t = META
        elif v == "token":
            t = Type("token")
        elif k == "id" and re.fullmatch(r"i\d+", v):
            t = INT(int(v[1:]))
        elif k == "loc":
            t = Type("named", v)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Type("array", n, e)
        elif v == "<":
            if self.at("{"):
                self.next()
                fs = []
                while not self.at("}"):
                    fs.append(self.type())
                    self.acc(",")
                self.exp("}")
                self.exp(">")
                t = Type("struct", fs, True)
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Type("vector", n, e)
        elif v == "{":
            fs = []
            while not self.at("}"):
                fs.append(self.type())
                self.acc(",")
            self.exp("}")
            t = Type("struct", fs, False)
        elif v == "opaque":
            t = Type("opaque")
        else:
            raise IRError("type? %r in %r" % (v, self.t[max(0, self.i - 6):self.i + 6]))
        # function type "ret (args)" after a type (in calls to varargs)
        if self.at("(") and self._functype_ahead():
            self.skip_parens()
        return t

    def _functype_ahead(self):
        # heuristics: "(" followed by a type and no value => function type
        d, j = 0, self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    break
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else ("eof", "")
        return nx[0] in ("glob", "loc")

    def skip_parens(self):
        self.exp("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
            elif v == "":
                raise IRError("unbalanced")

    def attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if v in PARAM_ATTRS:
                self.next()
                res[v] = True
            elif v in PARAM_ATTRS_ARG:
                self.next()
                if self.at("("):
                    if v in ("sret", "byval"):
                        self.next()
                        res[v] = self.type()
                        self.exp(")")
                    else:
                        self.skip_parens()
                else:
                    self.next()
            elif k == "attr":
                self.next()
            elif k == "str":     # string attrs
                self.next()
            else:
                return res

    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("reg", v)
        if k == "glob":
            return ("glob", gname(v))
        if k == "num":
            if ty.k == "int":
                return ("int", int(v))
            if ty.k in ("float", "double"):
                if v.startswith("0x"):
                    d = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
                    return ("fp", d)
                return ("fp", float(v))
            if ty.k == "x86_fp80":
                raise IRError("x86_fp80 constant")
            raise IRError("number for type %r" % ty)
        if v == "true":
            return ("int", 1)
        if v == "false":
            return ("int", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef", ty)
        if v == "zeroinitializer":
            return ("zero", ty)
        if v == "none":
            return ("null",)
        if k == "str" and v.startswith('c"'):
            return ("cstr", v)
        if v in ("getelementptr",):
            inb = self.acc("inbounds")
            self.exp("(")
            t = self.type()
            self.exp(",")
            ops = []
            while True:
                self.attrs()
                ot = self.type()
                ops.append((ot, self.value(ot)))
                if not self.acc(","):
                    break
            self.exp(")")
            return ("cgep", t, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
            self.exp("(")
            t = self.type()
            x = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul"):
            while self.at("nuw") or self.at("nsw"):
                self.next()
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return ("cbin", v, t, a, b)
        if v in ("{", "[", "<"):
            packed = False
            if v == "<" and self.at("{"):
                self.next()
                packed = True
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
            els = []
            while not self.at(close):
                et = self.type()
                els.append((et, self.value(et)))
                self.acc(",")
            self.exp(close)
            if packed:
                self.exp(">")
            return ("agg", els)
        raise IRError("value? %r (%s) in %r" % (v, k, self.t[max(0, self.i - 8):self.i + 6]))

    def tv(self):
        t = self.type()
        if t.k == "metadata":
            # swallow a metadata operand
            d = 0
            while not self.eof() and not (d == 0 and self.peek()[1] in (",", ")")):
                v = self.next()[1]
                if v in "({":
                    d += 1
                elif v in ")}":
                    d -= 1
            return (t, ("null",))
        a = self.attrs()
        v = self.value(t)
        return (t, v)


def gname(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


class Inst:
    __slots__ = ("op", "res", "ty", "a", "text")

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ("name", "insts", "raw")

    def __init__(self, name):
        self.name, self.insts, self.raw = name, None, []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, regname, attrs)
        self.blocks = {}     # name -> Block
        self.order = []
        self.entry = None
        self.retty = None
        self.src = None
        self.linkage = ""
        self._parsed = False
        self.mod = None
        self.parsed = {}

    def insts(self, bname):
        b = self.blocks[bname]
        if b.insts is None:
            b.insts = [parse_inst(l, self.mod) for l in b.raw]
        return b.insts


class Module:
    def __init__(self):
        self.types = {}      # %name -> Type
        self.globals = {}    # name -> dict(type, init, const)
        self.functions = {}
        self.decls = {}
        self.aliases = {}
        self._lay = {}

    # ---- layout
    def resolve(self, t):
        while t.k == "named":
            if t.a not in self.types:
                raise IRError("unknown type %s" % t.a)
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            n = (t.a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return min(p, 16)
        if t.k == "float":
            return 4
        if t.k in ("double", "ptr"):
            return 8
        if t.k == "x86_fp80":
            return 16
        if t.k == "array":
            return self.align(t.b)
        if t.k == "vector":
            n = self.size(t)
            p = 1
            while p < n:
                p *= 2
            return p
        if t.k == "struct":
            if t.b:
                return 1
            return max([1] + [self.align(f) for f in t.a])
        raise IRError("align %r" % t)

    def struct_offsets(self, t):
        t = self.resolve(t)
        o, res = 0, []
        for f in t.a:
            if not t.b:
                al = self.align(f)
                o = (o + al - 1) // al * al
            res.append(o)
            o += self.size(f)
        al = self.align(t)
        tot = (o + al - 1) // al * al
        return res, tot

    def size(self, t):
        t = self.resolve(t)
        k = id(t)
        if k in self._lay:
            return self._lay[k][1]
        r = self._size(t)
        self._lay[k] = (t, r)
        return r

    def _size(self, t):
        if t.k == "int":
            n = (t.a + 7) // 8
            al = self.align(t)
            return (n + al - 1) // al * al
        if t.k == "float":
            return 4
        if t.k in ("double", "ptr"):
            return 8
        if t.k == "x86_fp80":
            return 16
        if t.k == "array":
            return t.a * self.size(t.b)
        if t.k == "vector":
            return t.a * self.size(t.b)
        if t.k == "struct":
            return self.struct_offsets(t)[1]
        if t.k == "opaque":
            raise IRError("size of opaque")
        raise IRError("size %r" % t)


FNHEAD = re.compile(r'^(define|declare)\b')
LABELRE = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')

LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
        "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable",
        "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc",
        "coldcc", "tailcc", "thread_local", "externally_initialized"}


def parse_head(line, mod):
    p = P(tokenize(line), mod)
    p.next()
    link = []
    while p.peek()[1] in LINK:
        link.append(p.next()[1])
    p.attrs()
    rt = p.type()
    name = gname(p.next()[1])
    f = Function(name)
    f.retty = rt
    f.linkage = " ".join(link)
    f.mod = mod
    p.exp("(")
    n = 0
    while not p.at(")"):
        if p.acc("..."):
            continue
        t = p.type()
        a = p.attrs()
        if p.peek()[0] == "loc":
            r = p.next()[1]
        else:
            r = "%" + str(n)
        n += 1
        f.params.append((t, r, a))
        p.acc(",")
    return f


def parse_module(text, mod=None, src=None):
    """Parse (and merge) one .ll text into mod."""
    mod = mod or Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    # named types of separately compiled modules can clash (%class.foo.12 suffixes): rename per module
    ren = {}
    tag = "~%d" % len(getattr(mod, "_srcs", []))
    mod._srcs = getattr(mod, "_srcs", []) + [src]
    local = _LocalMod(mod, tag)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes ", "$", "module asm")):
            continue
        if ln[0] == "%":
            m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            if not m:
                raise IRError("type line " + ln)
            p = P(tokenize(m.group(2)), local)
            t = p.type()
            mod.types[m.group(1) + tag] = _tagtype(t, tag)
            continue
        if ln[0] == "@":
            parse_global(ln, mod, local, tag)
            continue
        if ln.startswith("declare"):
            try:
                f = parse_head(ln, local)
            except IRError:
                continue          # exotic type: any use of it is an unknown function
            f.mod = local
            mod.decls.setdefault(f.name, f)
            continue
        if ln.startswith("define"):
            try:
                f = parse_head(ln[:ln.rindex("{")], local)
            except IRError:
                while lines[i] != "}":
                    i += 1
                i += 1
                continue
            f.src = src
            f.mod = local
            cur = None
            while True:
                ln = lines[i]
                i += 1
                if ln == "}":
                    break
                if not ln.strip() or ln.lstrip().startswith(";"):
                    continue
                m = LABELRE.match(ln)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'):
                        nm = '"' + nm[1:-1] + '"'
                    cur = Block("%" + nm)
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                    continue
                if cur is None:
                    # implicit entry label: number of unnamed params
                    k = 0
                    for (_, r, _a) in f.params:
                        if re.fullmatch(r"%\d+", r):
                            k += 1
                    cur = Block("%" + str(k))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                # multi-line instructions (switch tables, landingpad/invoke continuation)
                s = ln
                if s.strip().startswith(("switch",)) and "]" not in s:
                    while "]" not in lines[i]:
                        s += " " + lines[i]
                        i += 1
                    s += " " + lines[i]
                    i += 1
                while i < n and re.match(r"^\s{8,}(to label|catch |cleanup|filter )", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
                cur.raw.append(s)
            f.entry = f.order[0]
            old = mod.functions.get(f.name)
            if old is None or ("linkonce" in old.linkage and "linkonce" not in f.linkage):
                mod.functions[f.name] = f
            continue
        if ln.startswith("uselistorder") or ln.strip() == "}":
            continue
        raise IRError("top-level line: " + ln[:120])
    return mod


class _LocalMod:
    """View of a module for one translation unit: named types are suffixed."""

    def __init__(self, mod, tag):
        self.mod, self.tag = mod, tag
        self._lay = {}

    @property
    def types(self):
        return self.mod.types

    def resolve(self, t):
        while t.k == "named":
            nm = t.a if t.a in self.mod.types else t.a + self.tag
            if nm not in self.mod.types:
                raise IRError("unknown type %s" % t.a)
            t = self.mod.types[nm]
        return t

    align = Module.align
    struct_offsets = Module.struct_offsets
    size = Module.size
    _size = Module._size


def _tagtype(t, tag):
    if t.k == "named":
        return Type("named", t.a + tag)
    if t.k in ("array", "vector"):
        return Type(t.k, t.a, _tagtype(t.b, tag))
    if t.k == "struct":
        return Type("struct", [_tagtype(x, tag) for x in t.a], t.b)
    return t


def parse_global(ln, mod, local, tag):
    p = P(tokenize(ln), local)
    name = gname(p.next()[1])
    p.exp("=")
    while p.peek()[1] in LINK or p.peek()[1] in ("thread_local",):
        v = p.next()[1]
        if v == "thread_local" and p.at("("):
            p.skip_parens()
    kind = p.next()[1]
    if kind == "alias":
        mod.aliases[name] = gname(p.t[-1][1])
        return
    if kind not in ("global", "constant"):
        raise IRError("global kind %s: %s" % (kind, ln[:100]))
    t = _tagtype(p.type(), tag)
    init = None
    if not p.eof() and not p.at(","):
        # note: types inside the initialiser are only used for layout by the executor
        try:
            init = p.value(t)
        except IRError as e:
            init = ("unparsed", str(e))
    g = dict(type=t, init=init, const=(kind == "constant"), mod=local, name=name)
    old = mod.globals.get(name)
    if old is None or old["init"] is None:
        mod.globals[name] = g


FAST = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"bitcast", "zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui",
        "ptrtoint", "inttoptr"}


def parse_inst(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ("tail", "musttail", "notail"):
        k, op = p.next()
    if op in BIN:
        while p.peek()[1] in ("nuw", "nsw", "exact", "disjoint") or p.peek()[1] in FAST:
            if p.peek()[1] in FAST:
                raise IRError("fast-math flag in IR: " + line)
            p.next()
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return Inst(op, res, t, (a, b), line)
    if op == "fneg":
        t = p.type()
        return Inst(op, res, t, (p.value(t),), line)
    if op in CAST:
        p.acc("nneg")
        t, v = p.tv()
        p.exp("to")
        t2 = p.type()
        return Inst(op, res, t2, (t, v), line)
    if op in ("icmp", "fcmp"):
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return Inst(op, res, t, (pred, a, b), line)
    if op == "alloca":
        p.acc("inalloca")
        t = p.type()
        cnt = None
        if p.acc(","):
            if not p.at("align"):
                cnt = p.tv()
        return Inst(op, res, t, (cnt,), line)
    if op == "load":
        p.acc("atomic")
        p.acc("volatile")
        t = p.type()
        p.exp(",")
        pt, pv = p.tv()
        return Inst(op, res, t, (pv,), line)
    if op == "store":
        p.acc("atomic")
        p.acc("volatile")
        t, v = p.tv()
        p.exp(",")
        pt, pv = p.tv()
        return Inst(op, None, t, (v, pv), line)
    if op == "getelementptr":
        p.acc("inbounds")
        t = p.type()
        p.exp(",")
        ops = [p.tv()]
        while p.acc(","):
            if p.peek()[0] == "meta":
                break
            ops.append(p.tv())
        return Inst(op, res, t, ops, line)
    if op == "br":
        if p.at("label"):
            p.next()
            return Inst("br", None, None, (None, p.next()[1], None), line)
        t, c = p.tv()
        p.exp(",")
        p.exp("label")
        a = p.next()[1]
        p.exp(",")
        p.exp("label")
        b = p.next()[1]
        return Inst("br", None, None, (c, a, b), line)
    if op == "switch":
        t, v = p.tv()
        p.exp(",")
        p.exp("label")
        d = p.next()[1]
        p.exp("[")
        cases = []
        while not p.at("]"):
            ct, cv = p.tv()
            p.exp(",")
            p.exp("label")
            cases.append((cv, p.next()[1]))
        return Inst(op, None, t, (v, d, cases), line)
    if op == "ret":
        if p.at("void"):
            return Inst(op, None, VOID, None, line)
        t, v = p.tv()
        return Inst(op, None, t, v, line)
    if op in ("call", "invoke"):
        while p.peek()[1] in FAST or p.peek()[1] in LINK:
            p.next()
        p.attrs()
        t = p.type()
        kk, cal = p.next()
        if kk == "glob":
            callee = ("glob", gname(cal))
        elif kk == "loc":
            callee = ("reg", cal)
        elif cal == "asm":
            callee = ("asm", line)
            while not p.at("("):
                p.next()
        else:
            raise IRError("callee %r in %s" % (cal, line))
        p.exp("(")
        args = []
        while not p.at(")"):
            at = p.type()
            if at.k == "metadata":
                d = 0
                while not (d == 0 and p.peek()[1] in (",", ")")):
                    v = p.next()[1]
                    if v in "({":
                        d += 1
                    elif v in ")}":
                        d -= 1
                args.append((at, ("null",), {}))
            else:
                aa = p.attrs()
                args.append((at, p.value(at), aa))
            p.acc(",")
        p.exp(")")
        if op == "invoke":
            while not p.at("to"):
                p.next()
            p.exp("to")
            p.exp("label")
            nl = p.next()[1]
            p.exp("unwind")
            p.exp("label")
            ul = p.next()[1]
            return Inst(op, res, t, (callee, args, nl, ul), line)
        return Inst(op, res, t, (callee, args), line)
    if op == "landingpad":
        t = p.type()
        cleanup = False
        clauses = []
        while not p.eof():
            if p.acc("cleanup"):
                cleanup = True
            elif p.acc("catch"):
                ct, cv = p.tv()
                clauses.append(("catch", cv))
            elif p.acc("filter"):
                ct, cv = p.tv()
                clauses.append(("filter", cv))
            else:
                break
        return Inst(op, res, t, (cleanup, clauses), line)
    if op == "resume":
        t, v = p.tv()
        return Inst(op, None, t, v, line)
    if op == "phi":
        while p.peek()[1] in FAST:
            p.next()
        t = p.type()
        inc = []
        while p.acc("["):
            v = p.value(t)
            p.exp(",")
            lab = p.next()[1]
            p.exp("]")
            inc.append((v, lab))
            if not p.acc(","):
                break
        return Inst(op, res, t, inc, line)
    if op == "select":
        while p.peek()[1] in FAST:
            p.next()
        ct, c = p.tv()
        p.exp(",")
        t, a = p.tv()
        p.exp(",")
        t2, b = p.tv()
        return Inst(op, res, t, (c, a, b), line)
    if op == "unreachable":
        return Inst(op, None, None, None, line)
    if op == "extractvalue":
        t, v = p.tv()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return Inst(op, res, t, (v, idx), line)
    if op == "insertvalue":
        t, v = p.tv()
        p.exp(",")
        t2, v2 = p.tv()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return Inst(op, res, t, (v, t2, v2, idx), line)
    if op == "extractelement":
        t, v = p.tv()
        p.exp(",")
        t2, i2 = p.tv()
        return Inst(op, res, t, (v, i2), line)
    if op == "insertelement":
        t, v = p.tv()
        p.exp(",")
        t2, v2 = p.tv()
        p.exp(",")
        t3, i3 = p.tv()
        return Inst(op, res, t, (v, v2, i3), line)
    if op == "shufflevector":
        t, v = p.tv()
        p.exp(",")
        t2, v2 = p.tv()
        p.exp(",")
        t3, m = p.tv()
        return Inst(op, res, t, (v, v2, t3, m), line)
    if op == "freeze":
        t, v = p.tv()
        return Inst(op, res, t, (v,), line)
    if op in ("fence",):
        return Inst("nop", None, None, None, line)
    raise IRError("instruction: " + line)
