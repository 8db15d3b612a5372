"""Lemmas: straight-line ghost programs over the real functions.  Calls go through the functions' contracts
(or the extracted body where a function has none); the conclusions are obligations."""
import re
import contract as ct
import symex
import term as tm
from symex import Outcome, Ptr, State, Unsupported
from term import TRUE, FALSE
from verify import Obl, definedness


class Thrown(Exception):
    pass


class Done(Exception):
    pass


def _sort(k):
    return {"D": "R", "U": "I"}.get(k, k)


class LemmaCtx:
    def __init__(self, lm, G, new_exec):
        self.lm, self.G = lm, G
        self.types = G["types"]
        self.obls, self.used, self.inlined, self.externals, self.assumptions = [], set(), set(), set(), set()
        self.script, self.pos, self.path, self.seen = [], 0, 0, set()
        self.mk = new_exec

    def start(self):
        sp = ct.Spec("lemma " + self.lm.name, None, (), {}, [], None, False, "real", self.lm.opts.get("unroll", 96),
                     self.lm.opts)
        self.ex = self.mk(sp)
        self.ex.contracts = dict(self.ex.contracts)
        nm = self.lm.opts.get("execute")
        if nm:
            self.ex.no_model = re.compile(nm)
        self.ex.split_select = bool(self.lm.opts.get("split_select"))
        self.ex.local_contracts = [(re.compile(k), h) for k, h in self.lm.opts.get("contracts", ())]
        inl = self.lm.opts.get("inline_fns")
        if inl:
            for k in list(self.ex.contracts):
                if re.search(inl, ct.short(k)):
                    del self.ex.contracts[k]
        self.st = State()
        self.rules = {}
        self.pos = 0
        self.nobl = 0
        # the execution up to the first new choice is a repetition: no new obligations, calls are remembered
        self.known = len(self.script)
        self.ncalls = 0
        if self.path == 0:
            self.memo, self.counters = {}, (symex._ids[0], tm._fresh[0])
        else:
            symex._ids[0], tm._fresh[0] = self.counters
        self.c = ct.SpecCtx(self.ex, self.st, "lemma", self.types)

    # ---- inputs
    def make(self, cls, kind, name):
        """an object of class cls built from a constrained input kind"""
        terms, rules, hyps, samp = kind.make(name)
        self.rules.update(rules)
        for h in hyps:
            self.st.assume(h)
        return self.obj(cls, terms, name)

    def free(self, cls, name):
        cls = self.full(cls)
        lv = self.types.leaves(cls)
        return self.obj(cls, [tm.var(name + "." + p, _sort(k)) for o, s, k, p in lv], name)

    def var(self, name):
        return tm.var(name)

    def ivar(self, name):
        """an unbounded integer"""
        return tm.var(name, "I")

    def vec(self, name):
        """an arbitrary std::vector<float>"""
        n = tm.var(name + ".size", "I")
        self.st.assume(tm.le(tm.const(0, "I"), n))
        return self.vecof(n, lambda i: tm.mk("sel", (i,), "R", name))

    def vecof(self, n, at):
        """the std::vector<float> of length n with elements at(i)"""
        p = self.st.alloc(24, "vec")
        d, nb = symex.new_float_block(self.ex, self.st, n, at)
        symex.vec_set(self.ex, self.st, p, d, nb)
        return ct.VView(self.c, self.st, p)

    def pvec(self, name, cls):
        """an arbitrary std::vector of cls"""
        n = tm.var(name + ".size", "I")
        self.st.assume(tm.le(tm.const(0, "I"), n))
        cls = self.full(cls)
        p = self.st.alloc(24, "vec")
        symex.pvec_new(self.ex, self.st, p, cls, n, symex.named_struct_seq(self.ex, cls, name))
        return ct.PView(self.c, self.st, p, cls)

    def pvecof(self, cls, n, at):
        cls = self.full(cls)
        p = self.st.alloc(24, "vec")
        symex.pvec_new(self.ex, self.st, p, cls, n, symex.listed_struct_seq(self.ex, cls, at))
        return ct.PView(self.c, self.st, p, cls)

    def full(self, cls):
        return cls if cls.startswith("AL::") else "AL::Math::" + cls

    def obj(self, cls, leaves, name="obj"):
        cls = self.full(cls)
        p = self.st.alloc(self.types.size(cls), name)
        lv = self.types.leaves(cls)
        assert len(lv) == len(leaves), (cls, len(lv), len(leaves))
        b = self.st.wblock(p.blk)
        for (o, s, k, _), v in zip(lv, leaves):
            b.cells[o] = (s, tm.lift(v))
        return ct.SView(self.c, self.st, p, cls)

    def scratch(self, cls):
        cls = self.full(cls)
        p = self.st.alloc(self.types.size(cls), "scratch")
        b = self.st.wblock(p.blk)
        for o, s, k, _ in self.types.leaves(cls):
            b.cells[o] = (s, tm.fresh("junk", _sort(k)))
        return ct.SView(self.c, self.st, p, cls)

    def cell(self, v, size=4):
        p = self.st.alloc(size, "cell")
        self.st.wblock(p.blk).cells[0] = (size, tm.lift(v))
        return ct.RView(self.c, self.st, p, "R", size)

    # ---- objects built member by member (classes with containers inside)
    def raw(self, cls):
        return self.st.alloc(self.types.size(self.full(cls)), "object")

    def member(self, p, cls, name):
        """address of a member, found by its name in the current tree"""
        offs = [o for o, ty, path in self.types.lay[self.full(cls)][1] if path == name]
        if not offs:
            raise Unsupported("%s has no member %s" % (cls, name))
        return self.ex.padd(p, offs[0])

    def put_ring(self, p, cap, n, at):
        symex.ring_set(self.ex, self.st, p, cap, n, at)

    def ring(self, p):
        """(capacity, length, element function)"""
        q, cap, n = symex.ring_get(self.ex, self.st, p)
        return cap, n, symex.ring_at(self.ex, self.st, q)

    def put_vec(self, p, n, at):
        d, nb = symex.new_float_block(self.ex, self.st, n, at)
        symex.vec_set(self.ex, self.st, p, d, nb)

    def put_ints(self, p, n, at):
        d, nb = symex.new_int_block(self.ex, self.st, n, at)
        symex.vec_set(self.ex, self.st, p, d, nb)

    def ints_at(self, p):
        """(length, element function) of a std::vector<size_t>"""
        n = tm.lift(self.ex.cint(symex.vec_len(self.ex, self.st, p, 8)), "I")
        d = symex.vec_fields(self.ex, self.st, p)[0]
        seq = self.st.mem[d.blk].seq
        return n, lambda i: self.ex.seq_get(seq, tm.lift(i, "I"), 0, 8)

    def vec_at(self, p):
        """(length, element function)"""
        n = tm.lift(self.ex.cint(symex.vec_len(self.ex, self.st, p)), "I")
        d = symex.vec_fields(self.ex, self.st, p)[0]
        st = self.st.fork()
        return n, lambda i: symex.read_elem(self.ex, st, d, i.data if tm.isc(i) else i)

    def put(self, p, v, ty=symex.ir.FLOAT):
        self.ex.store(self.st, p, tm.lift(v), ty, self.ex.mod)

    def get(self, p, ty=symex.ir.FLOAT):
        return self.ex.load(self.st, p, ty, self.ex.mod)

    def same_seq(self, name, n1, at1, n2, at2):
        n1, n2 = tm.lift(n1, "I"), tm.lift(n2, "I")
        self.add(name + ": length", tm.eq(n1, n2))
        if tm.isc(n2) and n2.data <= 4:
            for j in range(n2.data):
                k = tm.const(j, "I")
                self.add("%s: element %d" % (name, j), tm.eq(at1(k), at2(k)))
            return
        k = tm.fresh("k", "I")
        self.add(name + ": every element", tm.eq(at1(k), at2(k)),
                 list(self.st.pc) + [tm.le(tm.const(0, "I"), k), tm.lt(k, n2)])

    def now(self, view):
        """re-read a view in the current state"""
        if isinstance(view, ct.RView):
            return ct.RView(self.c, self.st, view._ptr, view._kind, view._size)
        if isinstance(view, ct.VView):
            return ct.VView(self.c, self.st, view._ptr)
        if isinstance(view, ct.PView):
            return ct.PView(self.c, self.st, view._ptr, view._cls)
        return ct.SView(self.c, self.st, view._ptr, view._cls)

    def assume(self, c):
        self.st.assume(c)

    def hint(self, *fs):
        self.rules = dict(self.rules)
        self.rules["hints"] = tuple(self.rules.get("hints", ())) + fs

    def snapshot(self, view):
        return view.all()

    # ---- calls
    def call(self, sig, *args, ret=None, throws=False):
        s = ct.full(sig)
        n = self.G["by"].get(s)
        if n is None:
            raise Unsupported("function not found in the current tree: " + s)
        f = self.G["mod"].functions[n]
        av = []
        sret = None
        if f.params and "sret" in f.params[0][2]:
            cls = ct.sret_class(f)
            sret = self.st.alloc(24 if cls.startswith("std::vector") else self.types.size(cls), "ret")
            av.append(sret)
        ps = ct.signature_params(s, f, self.types)
        for a, (nm, t, role) in zip(args, [p for p in ps if p[2] != "sret"]):
            if isinstance(a, (ct.SView, ct.RView, ct.VView, ct.PView)):
                av.append(a._ptr)
            elif t[-1] == "&" and not isinstance(a, Ptr):
                k = ct.scalar_kind(re.sub(r"\s*const$", "", t[:-1].strip()))
                av.append(self.cell(a, k[0])._ptr)
            elif isinstance(a, bool):
                av.append(TRUE if a else FALSE)
            elif isinstance(a, (int, float)) and ct.scalar_kind(t) and ct.scalar_kind(t)[1] in "RD":
                av.append(tm.lift(a))
            else:
                av.append(a)
        assert len(av) == len(ps), (sig, len(av), len(ps))
        n0 = len(self.ex.obls)
        self.ncalls += 1
        if self.ncalls in self.memo and self.pos < self.known:
            outs, ids, gl = self.memo[self.ncalls]
            symex._ids[0], tm._fresh[0] = ids
            self.ex.globals.update(gl)
            outs = [Outcome(o.kind, o.state.fork(), o.value, o.info) for o in outs]
        else:
            outs = self.ex.call(f.name, av, self.st)
            self.memo[self.ncalls] = ([Outcome(o.kind, o.state.fork(), o.value, o.info) for o in outs],
                                      (symex._ids[0], tm._fresh[0]), dict(self.ex.globals))
        for (name, pc, goal, kind) in self.ex.obls[n0:]:
            self.add(name, goal, pc)
        live = []
        for o in outs:
            if o.kind == "ret":
                live.append(o)
            elif o.kind == "throw" and throws:
                live.append(o)
            elif o.kind == "abort" and o.info == "__assert_fail" and self.lm.opts.get("drop_asserts"):
                pass                    # stated in the evidence: what the assertions say is not proved here
            else:
                self.add("%s does not %s" % (ct.short(s), o.kind), FALSE, o.state.pc)
        if not live:
            raise Done()
        o = live[self.choose(len(live))]
        self.st = o.state
        self.c.st = self.st
        if o.kind == "throw":
            raise Thrown(o.info)
        if sret is not None and cls.startswith("std::vector"):
            return sret
        if sret is not None:
            return ct.SView(self.c, self.st, sret, cls)
        if ret:
            return self.obj(ret, ct.flatten_val(o.value), "ret")
        if isinstance(o.value, Ptr) and ps and False:
            return o.value
        return o.value

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.script):
            k = self.script[self.pos][0]
        else:
            k = 0
            self.script.append([0, n])
        self.pos += 1
        return k

    def cases(self, *conds):
        """ghost case split; the last case is the complement"""
        k = self.choose(len(conds) + 1)
        for i, c in enumerate(conds):
            if i == k:
                self.st.assume(c)
                return i
            self.st.assume(tm.not_(c))
        return len(conds)

    # ---- proof steps (ghost assertions): every replacement is an obligation of its own
    def rewrite(self, view, *pairs):
        """replace terms by equal terms in the leaves of an object (conditions: by TRUE / FALSE)"""
        m = {}
        for a, b in pairs:
            if a is b:
                continue
            if a.sort == "B":
                self.add("step: %s" % tm.show(a if b is TRUE else tm.not_(a))[:70], a if b is TRUE else tm.not_(a))
                m[a], m[tm.not_(a)] = b, tm.not_(b)
            else:
                self.add("step: %s" % tm.show(b)[:70], tm.eq(a, b))
                m[a] = b
        if isinstance(view, ct.SView):
            b = self.st.wblock(view._ptr.blk)
            for o, (sz, v) in list(b.cells.items()):
                if isinstance(v, tm.T):
                    b.cells[o] = (sz, tm.subst(v, m))
            return self.now(view)
        return [tm.subst(v, m) for v in view]

    def have(self, name, fact):
        self.add("have: " + name, fact)
        self.st.assume(fact)

    def become(self, view, leaves, name="step"):
        """the object is equal to the given leaves; continue with those"""
        self.eq(name, view, leaves)
        return self.obj(view._cls, leaves, "step")

    def excluded(self, inst, hyps, timeout=3.0):
        """leave this path if the hypotheses, which hold here, contradict each other (an obligation)"""
        import prove
        if prove.Prover(timeout=timeout).prove(list(hyps), FALSE, {}).status == "proved":
            self.by("this path cannot be taken", inst, hyps, FALSE)
            raise Done()

    def conditions(self, t):
        """what must hold for the term to be defined"""
        dd = []
        definedness(t, dd, set())
        return dd

    def by(self, name, inst, hyps, concl, pc=None):
        """a general fact (for all values of the variables in `inst`: hyps imply concl), proved on its own, then used
        on the given terms"""
        self.add("lemma: " + name, concl, list(hyps))
        for i, h in enumerate(hyps):
            self.add("%s: condition %d" % (name, i), tm.subst(h, inst), pc)
        if pc is not None:
            pc.append(tm.subst(concl, inst))
        self.st.assume(tm.subst(concl, inst))

    # ---- conclusions
    def add(self, name, goal, pc=None):
        tag = " (case %d)" % self.path if self.path else ""
        self.nobl += 1
        if self.pos < self.known:
            return
        key = (goal.id, frozenset(h.id for h in (pc if pc is not None else self.st.pc)))
        if key in self.seen and not self.rules:
            return
        self.seen.add(key)
        self.obls.append(Obl("lemma " + self.lm.name, name + tag, list(pc if pc is not None else self.st.pc), goal,
                             "lemma", self.rules, False, None))

    def holds(self, name, goal, pc=None):
        self.add(name, goal, pc)
        dd = []
        definedness(goal, dd, set())
        for d in dd:
            self.add("defined: %s" % tm.show(d)[:80], d, pc)

    def have_by(self, name, fact, pc):
        """a fact that follows from some of the hypotheses only"""
        self.holds(name, fact, list(pc))
        pc.append(fact)
        self.st.assume(fact)

    def eq(self, name, a, b):
        a = a.all() if hasattr(a, "all") else ct.flatten_val(a)
        b = b.all() if hasattr(b, "all") else ct.flatten_val(b)
        assert len(a) == len(b), (name, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.holds("%s [%d]" % (name, i), tm.iff(x, y) if getattr(x, "sort", "R") == "B" else tm.eq(x, tm.lift(y)))

    def run(self):
        while True:
            self.start()
            try:
                self.lm.fn(self)
            except Done:
                pass
            if self.nobl == 0:
                raise Unsupported("lemma %s generated no obligation" % self.lm.name)
            self.used |= self.ex.used_contracts
            self.inlined |= self.ex.inlined
            self.externals |= self.ex.externals
            self.assumptions |= self.ex.assumptions
            # next choice sequence
            while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
                self.script.pop()
            if not self.script:
                return
            self.script[-1][0] += 1
            self.path += 1
            if self.path > 400:
                raise Unsupported("too many lemma cases")
