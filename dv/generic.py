"""Loops with an unknown number of iterations.

An invariant is inferred from symbolic executions of one iteration (closed
forms in the iteration number k, equalities, bounds and implications, the last
three by the Houdini fixpoint) and then verified: the values at the head of an
arbitrary iteration are replaced by the invariant, the body is executed for
real, and every path back to the head must re-establish it (obligations).
Nothing inferred is trusted: an invariant that is too strong fails its own
obligations, one that is too weak leaves the later obligations unproved."""
import time
import itertools

from .terms import *
from .machine import *
from .interp import INTS, base_type
from .eqp import eqprove, first_ite

DEBUG = bool(__import__("os").environ.get("DV_LOOPS"))


class LoopExit(Exception):
    pass


class Weak(Exception):
    """the invariant could not be made inductive"""


def generic(I_, n, cond, bodyf, incf, skip=False):
    if skip:
        try:
            bodyf()
        except Brk:
            return
        except Cont:
            pass
        incf()
    if I_.peeking:
        raise Peek()
    if I_.rotate and not I_.decide(cond()):
        return
    I_.purge_elems()
    key = (id(n), tuple(I_.cstack), I_.ctr, tuple(I_.trace), I_.quiet > 0, len(I_.facts))
    cache = I_.__dict__.setdefault("loopcache", {})
    A = cache.get(key)
    while A is None:
        A = Analysis(I_, n, cond, bodyf, incf)
        try:
            A.run()
        except Force as f:
            for loc in f.locs:
                v = I_.heap[loc.bid].vals.get(loc.path)
                if isinstance(v, Rec) and v.kind == "lazy":
                    I_.force(loc, v)
            key = (id(n), tuple(I_.cstack), I_.ctr, tuple(I_.trace), I_.quiet > 0, len(I_.facts))
            A = cache.get(key)
            continue
        cache[key] = A
    A.enter()


class Force(Exception):
    def __init__(self, locs):
        self.locs = locs


class Out:
    """one path through an iteration"""
    pass


def consts_of(t):
    return {x for x in free_vars(t)}


class Analysis:
    def __init__(self, I_, n, cond, bodyf, incf):
        self.I, self.n, self.cond, self.bodyf, self.incf = I_, n, cond, bodyf, incf
        self.c0 = I_.ctr
        self.k = ivar("k!%d" % self.c0)
        self.forms = {}
        self.v0 = {}
        self.inv = []
        self.p = 1
        self.dead = {}
        self.nonul = set()
        self.phased = False
        self.pos = []

    # ------------------------------------------------------------- leaves
    def get(self, leaf):
        if leaf[0] == "g":
            return self.I.ghost.get(leaf[1])
        b = self.I.heap.get(leaf[1])
        return None if b is None else b.vals.get(leaf[2], UNINIT)

    def put(self, leaf, v):
        if leaf[0] == "g":
            self.I.ghost[leaf[1]] = v
        else:
            self.I.rawset(leaf[1], leaf[2], v)

    def leaftype(self, leaf):
        if leaf[0] == "g":
            return None
        b = self.I.heap[leaf[1]]
        if b.meta.get("t"):
            return b.meta["t"]
        if leaf[2]:
            t = dict(self.I.prog.allfields(b.cls)).get(leaf[2][-1]) if len(leaf[2]) == 1 else None
            if t is None:
                cls = self.I.path_type(b.cls, leaf[2][:-1]) if self.I.isrec(b.cls) else None
                t = dict(self.I.prog.allfields(cls)).get(leaf[2][-1]) if cls else None
            return base_type(t) if t else None
        return None

    def nm(self, leaf):
        if leaf[0] == "g":
            return self.I.ghostname(leaf[1])
        if leaf[2]:
            return leaf[2][-1].split("::")[-1]
        return leaf[1].split("#")[0].replace("var:", "").replace("par:", "")

    # ---------------------------------------------------------- iteration
    def superbody(self):
        I_ = self.I
        for r in range(self.p):
            if not I_.rotate and not I_.decide(self.cond()):
                raise LoopExit()
            try:
                self.bodyf()
            except Brk:
                raise LoopExit()
            except Cont:
                pass
            self.incf()
            if I_.rotate and not I_.decide(self.cond()):
                raise LoopExit()

    def iterate(self, head, want=None):
        """quietly run one (super-)iteration from head(); outcomes of the paths that come back"""
        I_ = self.I
        outs = []
        I_.quiet += 1
        mp = I_.maxpaths
        I_.maxpaths = 300
        try:
            def thunk():
                I_.dlog = []
                head()
                if not any(f[0] == "alt" for f in self.forms.values()):
                    I_.dlog = []
                self.hheap = dict(I_.heap)
                self.hghost = dict(I_.ghost)
                self.nf = len(I_.facts)
                try:
                    self.superbody()
                    I_.settle()
                    if self.marked():
                        self.superbody()
                        raise Unsupported("loop changes handle")
                except LoopExit:
                    return "exit"
                return "back"
            for kind, val in I_.explore(thunk):
                if kind == "ok" and val == "back":
                    if self.phased and self.ended(self.hghost):
                        continue
                    o = Out()
                    o.dlog = list(I_.dlog)
                    o.heap, o.ghost = dict(I_.heap), dict(I_.ghost)
                    o.hheap, o.hghost = self.hheap, self.hghost
                    o.facts = I_.facts[self.nf:]
                    o.more = want() if want else None
                    outs.append(o)
        finally:
            I_.quiet -= 1
            I_.maxpaths = mp
        return outs

    def marked(self):
        """some handle no longer has the value it had before the loop"""
        return any(self.get(l) != self.v0[l] for l, f in self.forms.items() if f[0] == "mark")

    def ended(self, hg, g=None):
        """the iteration has closed (or replaced) the connection"""
        return (self.I.ghost if g is None else g).get("open") is not hg.get("open")

    def oget(self, o, leaf, head=False):
        if leaf[0] == "g":
            return (o.hghost if head else o.ghost).get(leaf[1])
        b = (o.hheap if head else o.heap).get(leaf[1])
        return None if b is None else b.vals.get(leaf[2], UNINIT)

    # ------------------------------------------------------------- havoc
    def sym(self, leaf, sort, cs=ALL):
        nm = "h!%s!%d" % (self.nm(leaf), self.c0)
        if sort == "I":
            return ivar(nm)
        if sort == "B":
            return bvar(nm)
        return svar(nm, NONUL if leaf in self.nonul else cs)

    def havoc(self, leaf):
        """an arbitrary value of the leaf's type"""
        I_ = self.I
        v = self.v0[leaf]
        if isinstance(v, Term):
            s = self.sym(leaf, v.sort)
            if v.sort == "I":
                t = self.leaftype(leaf)
                if t in INTS:
                    b, sg = INTS[t]
                    I_.assume(And(ge(s, I(-(1 << b - 1) if sg else 0)), le(s, I((1 << (b - 1 if sg else b)) - 1))))
            elif v.sort == "S":
                I_.assume(le(length(s), I(I_.MAXLEN)))
            self.put(leaf, s)
        elif isinstance(v, CharArr):
            s = self.sym(leaf, "S")
            I_.assume(eqI(length(s), length(v.s)))
            self.put(leaf, CharArr(s))
        elif isinstance(v, SStream):
            s = self.sym(leaf, "S")
            I_.assume(le(length(s), I(I_.MAXLEN)))
            self.put(leaf, SStream(s))
        elif isinstance(v, IntArr):
            self.put(leaf, IntArr(v.n, {i: I_.newI("arr", 0, 255) for i in range(v.n)} if v.n <= 16 else {}, None if v.n <= 16 else I_.newI("arr")))
        elif isinstance(v, VecV) and v.term() is not None:
            s = self.sym(leaf, "S")
            I_.assume(And(ge(vlen(s), I(0)), le(vlen(s), I(1 << 56))))
            self.put(leaf, VecV(bag=s))
        elif isinstance(v, SegArr) or v is UNINIT:
            pass
        elif isinstance(v, Rec) and v.kind == "iter":
            self.put(leaf, Rec("iter", loc=v.loc, pos=self.sym(leaf, "I"), rev=v.rev))
        elif isinstance(v, Ptr) and self.forms.get(leaf, ("",))[0] == "own" or isinstance(v, Ptr) and v.bid is None:
            self.own(leaf, v)
        elif isinstance(v, Ptr) and v.bid is not None:
            self.put(leaf, type(v)(v.bid, v.path, self.sym(leaf, "I")))
        elif isinstance(v, (Opq, Rec)):
            self.put(leaf, v)
        else:
            raise Unsupported("loop changes %s (%r)" % (self.nm(leaf), v))

    def own(self, leaf, v):
        """pointer to some C string of its own"""
        I_ = self.I
        f = self.forms.get(leaf)
        if isinstance(v, Ptr) and v.bid is not None and I_.heap[v.bid].alive:
            I_.kill(v.bid)
        s = svar("h!%s!%d" % (self.nm(leaf), self.c0), NONUL)
        j = svar("hj!%s!%d" % (self.nm(leaf), self.c0))
        I_.assume(le(add(length(s), length(j)), I(I_.MAXLEN)))
        bid = "own:%s!%d" % (self.nm(leaf), self.c0)
        blk = Block("char", "new[]", {(): CharArr(cat(s, "\0", j))})
        if f and f[0] == "own" and f[1] == "maybe":
            def make(I2):
                if I2.choose2():
                    w = NULL
                else:
                    I2.heap[bid] = blk.copy()
                    w = Ptr(bid)
                cur = I2.heap[leaf[1]].vals.get(leaf[2])
                if isinstance(cur, Rec) and cur.kind == "lazy":
                    I2.rawset(leaf[1], leaf[2], w)
                return w
            self.put(leaf, Rec("lazy", make=make, nm=self.nm(leaf)))
        else:
            I_.heap[bid] = blk
            self.put(leaf, Ptr(bid))

    # ---------------------------------------------------------- closed forms
    def grown(self, leaf, i):
        v = self.v0[leaf]
        t = cat(strv(v), mk_sub_raw(self.forms[leaf][1], I(0), i))
        return SStream(t) if isinstance(v, SStream) else t

    def at(self, leaf, k):
        """value of a leaf with a closed form after k iterations"""
        f = self.forms[leaf]
        v = self.v0[leaf]
        if f[0] == "lin":
            if isinstance(v, Term):
                return add(v, scale(f[1], k))
            if isinstance(v, Ptr):
                return type(v)(v.bid, v.path, add(v.off, scale(f[1], k)))
            return Rec("iter", loc=v.loc, pos=add(v.pos, scale(f[1], k)), rev=v.rev)
        if f[0] in ("fold", "gfold"):
            base = v.s if isinstance(v, (SStream, CharArr)) else v
            t = cat(base, fold(f[1], self.k, k))
            return SStream(t) if isinstance(v, SStream) else t
        if f[0] == "prefix":
            s, a, lim = f[1]
            p = subst(a, {self.k: k})
            p0 = subst(a, {self.k: I(0)})
            base = v.s if isinstance(v, SStream) else v
            e = ite(le(p, lim), p, lim)
            t = cat(base, mk_sub_raw(s, p0, sub(e, p0)))
            return SStream(t) if isinstance(v, SStream) else t
        if f[0] == "cyc":
            return fmod(scale(f[1], k), f[2])
        if f[0] == "map":
            return cat(fold(f[1], self.k, k), mk_sub_raw(v, k, sub(length(v), k)))
        if f[0] == "prev":
            return ite(eqI(k, I(0)), v, subst(f[1], {self.k: sub(k, I(1))}))
        if f[0] == "seg":
            return f[1](k)
        return None

    def head(self):
        """the state at the head of an arbitrary iteration"""
        I_ = self.I
        I_.ctr += 1
        I_.assume(ge(self.k, I(0)))
        I_.assume(le(self.k, I(1 << 56)))
        for leaf, f in sorted(self.forms.items(), key=lambda x: str(x[0])):
            if f[0] in ("havoc", "own"):
                self.havoc(leaf)
            elif f[0] == "lazytag":
                f[1](I_, leaf)
            elif f[0] == "alt":
                I_.heap.setdefault(f[1].bid, f[2])
                self.put(leaf, self.v0[leaf] if I_.decide(eqI(self.k, I(0))) else f[1])
        for leaf, f in sorted(self.forms.items(), key=lambda x: str(x[0])):
            if f[0] == "eq":
                w = self.get(f[1])
                self.put(leaf, SStream(strv(w)) if isinstance(self.v0[leaf], SStream) else strv(w))
            elif f[0] == "repl":
                A, B_ = self.parts(leaf)
                I_.assume(le(add(length(A), length(B_)), I(I_.MAXLEN)))
                self.put(leaf, cat(A, B_))
                if f[4]:
                    i = indexof_raw(B_, f[1], I(0))
                    self.put(f[3], add(length(A), i) if I_.decide(ge(i, I(0))) else I((1 << 64) - 1))
                else:
                    self.put(f[3], length(A))
            elif f[0] == "acc":
                self.acc_head(leaf)
            elif f[0] == "cut":
                a, x = self.cutsyms(leaf)
                v = self.v0[leaf]
                I_.assume(And(ge(a, I(0)), ge(x, I(0)), le(add(a, x), length(v))))
                self.put(leaf, mk_sub_raw(v, a, x))
            elif f[0] == "map":
                I_.assume(le(self.k, length(self.v0[leaf])))
                self.put(leaf, self.at(leaf, self.k))
            elif f[0] == "gfold" or f[0] == "prefix" and f[2]:
                c = self.get(("g", "clean"))
                j = self.sym(leaf, "S")
                I_.assume(le(length(j), I(I_.MAXLEN)))
                w = self.at(leaf, self.k)
                if isinstance(w, SStream):
                    self.put(leaf, SStream(ite(c, w.s, j)))
                else:
                    self.put(leaf, ite(c, w, j))
            elif f[0] not in ("havoc", "own", "same", "mark", "lazytag", "slave", "grow", "alt", "acc"):
                self.put(leaf, self.at(leaf, self.k))
        for q in self.inv:
            I_.assume(q)
        for leaf, f in self.forms.items():
            if f[0] == "grow":
                self.put(leaf, self.grown(leaf, f[2]))
        # elements that died in earlier iterations
        for fam, f in self.dead.items():
            self.apply_dead(fam, f, self.k)
        self.unfold()

    def rests(self):
        """texts the loop works off piece by piece: (at the head, at first)"""
        out = []
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if f[0] == "havoc" and isinstance(v, Term) and v.sort == "S":
                out.append((self.sym(leaf, "S"), v))
        # a text that stays, and the position up to which it has been worked off
        for p, v in self.pos:
            if self.forms[p][0] == "havoc" and self.v0[p] is I(0):
                x = self.sym(p, "I")
                out.append((mk_sub_raw(v, x, sub(length(v), x)), v))
        return out

    def positions(self, outs):
        """integers that serve as positions in texts that stay as they are"""
        out = {}
        for p, f in self.forms.items():
            if f[0] != "havoc" or not isinstance(self.v0[p], Term) or self.v0[p].sort != "I":
                continue
            x = self.sym(p, "I")
            for o in outs:
                for t in all_subterms([q for q in o.facts] + [e for e in (self.oget(o, l) for l in self.forms) if isinstance(e, Term)]):
                    if t.op == "idx" and t.args[2] is x and t.args[0].op != "str" and not self.foreign(t.args[0]):
                        out[p, t.args[0]] = 1
        return list(out)

    def bags(self):
        """vectors of strings, with the positions that run through them"""
        vs = {v.bag for b in self.I.heap.values() if b.alive for v in b.vals.values() if isinstance(v, VecV) and v.bag is not None}
        ks = []
        for leaf, f in self.forms.items():
            if f[0] == "lin" and f[1] == 1:
                x = self.at(leaf, self.k)
                x = x.pos if isinstance(x, Rec) else x
                if isinstance(x, Term):
                    ks.append(x)
        return [(v, x) for v in vs for x in ks]

    def unfold(self):
        """what the recursive definitions of the specification say about the text at the head"""
        I_ = self.I
        if not I_.tails:
            return
        for x, _ in self.rests():
            for f in I_.tails:
                f.unfold(I_, x)
        for v, x in self.bags():
            for f in I_.tails:
                if f.word is not None:
                    I_.assume(Or(Not(eqI(x, vlen(v))), Iff(vhas(v, x, S(f.word)), vhas(v, vlen(v), S(f.word)))))

    def tailinv(self):
        """what the rest of the text and the results so far say together does not change"""
        I_ = self.I
        out = []
        flags, vecs = [], []
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if f[0] != "havoc":
                continue
            if isinstance(v, Term) and v.sort == "B":
                flags.append((self.sym(leaf, "B"), v))
            elif isinstance(v, VecV) and v.term() is not None:
                vecs.append((self.sym(leaf, "S"), v.term()))
        for f in I_.tails:
            for x, v in self.rests():
                out.append(Iff(f(x), f(v)))
                out += [Iff(Or(f(x), b), Or(f(v), w)) for b, w in flags]
                if f.word is not None:
                    w = S(f.word)
                    out += [Iff(Or(f(x), vhas(b, vlen(b), w)), Or(f(v), vhas(u, vlen(u), w))) for b, u in vecs]
            if f.word is not None:
                for v, x in self.bags():
                    out.append(le(x, vlen(v)))
                    out += [Iff(b, Or(w, vhas(v, x, S(f.word)))) for b, w in flags]
        return out

    # ------------------------------------------------------------ analysis
    def run(self):
        I_ = self.I
        best = None
        for p in (1, 2, 3, 4):
            self.p = p
            self.forms, self.v0, self.inv, self.dead, self.nonul = {}, {}, [], {}, set()
            snap = I_.snapshot()
            try:
                cyc = self.infer()
            finally:
                I_.release(snap)
            if not cyc:
                return
            if best is None:
                best = (p, dict(self.forms), dict(self.v0), list(self.inv), dict(self.dead), set(self.nonul), list(self.pos))
        self.p, self.forms, self.v0, self.inv, self.dead, self.nonul, self.pos = best

    def modified(self, o):
        out = []
        for bid, b1 in o.heap.items():
            b0 = o.hheap.get(bid)
            if b1.meta.get("famobj"):
                if b1.alive and b1.vals != b1.meta["orig"]:
                    raise Unsupported("loop modifies the elements of an array")
                continue
            if b0 is None or b0 is b1 or b0.kind == "temp":
                continue
            if b0.alive and not b1.alive:
                continue
            for path in set(b0.vals) | set(b1.vals):
                x, y = b0.vals.get(path, UNINIT), b1.vals.get(path, UNINIT)
                if x is y or x == y:
                    continue
                out.append(("h", bid, path))
        for g, v in o.ghost.items():
            w = o.hghost.get(g)
            if v is not w and v != w:
                out.append(("g", g))
        return out

    def infer(self):
        I_ = self.I
        # 0. a loop that may end the connection: the invariant speaks of the iterations before that (see tail)
        outs = self.iterate(self.headH)
        self.phased = any(self.ended(o.hghost, o.ghost) for o in outs) and not all(self.ended(o.hghost, o.ghost) for o in outs)
        # 1. which leaves change (everything found so far arbitrary)
        for rnd in range(14):
            outs = self.iterate(self.headH)
            new = set()
            force = []
            for o in outs:
                for leaf in self.modified(o):
                    if leaf[0] == "h":
                        v = self.oget(o, leaf, True)
                        if isinstance(v, Rec) and v.kind == "lazy" and leaf not in self.forms and not self.tagged(v, [self.oget(x, leaf) for x in outs]):
                            force.append(Loc(leaf[1], leaf[2]))
                    if leaf not in self.forms and (leaf[0] == "g" or leaf[1] in I_.heap):
                        new.add(leaf)
            if force:
                raise Force(force)
            if not new:
                break
            for leaf in sorted(new, key=lambda l: not isinstance(self.get(l), Rec)):
                if leaf in self.forms:
                    continue
                self.v0[leaf] = self.get(leaf)
                if self.v0[leaf] is None:
                    self.v0[leaf] = UNINIT
                self.forms[leaf] = ("havoc",)
                v = self.v0[leaf]
                ends = [self.oget(o, leaf) for o in outs]
                if isinstance(v, Rec) and v.kind == "lazy":
                    if not self.tagged(v, ends):
                        raise Unsupported("loop changes %s" % self.nm(leaf))
                    self.forms[leaf] = ("lazytag", v.refresh)
                    for q in v.slaves:
                        l2 = ("h", leaf[1], q)
                        self.v0[l2] = self.get(l2)
                        self.forms[l2] = ("slave",)
                elif isinstance(v, Ptr) and any(isinstance(e, (Ptr, Rec)) and getattr(e, "bid", 0) != v.bid for e in ends):
                    e = ends[0]
                    if isinstance(e, Ptr) and all(x == e for x in ends) and e.bid in outs[0].heap and outs[0].heap[e.bid].kind == "static" and e.bid.startswith("lit#"):
                        # one text the first time, another one from then on
                        self.forms[leaf] = ("alt", e, outs[0].heap[e.bid])
                    elif v.bid is None and not any(self.cstrblock(o, self.oget(o, leaf)) for o in outs) or v.bid is not None and not isinstance(I_.heap[v.bid].vals.get(()), CharArr):
                        self.v0[leaf] = v
                        self.forms[leaf] = ("handle",)
                    else:
                        mb = v.bid is None or any(not (isinstance(e, Ptr) and e.bid is not None) for e in ends)
                        self.forms[leaf] = ("own", "maybe" if mb else "sure")
                elif isinstance(v, (Opq, Rec)) and not (isinstance(v, Rec) and v.kind == "iter") or isinstance(v, Ptr) and v.bid is None:
                    self.forms[leaf] = ("handle",)
        else:
            raise Unsupported("loop state does not settle")
        if DEBUG:
            print("LOOP line", self.n.get("line"), "p", self.p, "modified", [self.nm(l) for l in self.forms])
        # handles: only the last iteration may change one
        for leaf, f in list(self.forms.items()):
            if f[0] == "handle":
                self.forms[leaf] = ("mark",)
        # texts that never contain a NUL
        self.nonul = {l for l, f in self.forms.items() if f[0] == "havoc" and self.text(l) and not has(strv(self.v0[l]), 0)}
        while self.nonul:
            bad = {l for o in self.iterate(self.headH) for l in self.nonul if has(strv(self.oget(o, l)), 0)}
            if not bad:
                break
            self.nonul -= bad
        if self.phased:
            self.houdini([ge(self.headval(l), I(0)) for l, f in self.forms.items() if f[0] == "havoc" and isinstance(self.v0[l], Term) and self.v0[l].sort == "I"])
        # 2. integers that move by a constant
        outs = self.iterate(self.head if self.phased else self.headH)
        cyc = False
        for leaf in list(self.forms):
            v = self.v0[leaf]
            if self.forms[leaf][0] != "havoc":
                continue
            if isinstance(v, Term) and v.sort == "I" or isinstance(v, Rec) and v.kind == "iter" or isinstance(v, Ptr):
                ds = set()
                for o in outs:
                    x, y = self.oget(o, leaf, True), self.oget(o, leaf)
                    d = intdelta(x, y)
                    ds.add(d)
                if len(ds) == 1 and None not in ds:
                    self.forms[leaf] = ("lin", ds.pop())
                elif isinstance(v, Ptr) and v.bid is not None and all(isinstance(e, Ptr) and (e.bid, e.path) == (v.bid, v.path) for e in (self.oget(o, leaf) for o in outs)):
                    pass
                elif isinstance(v, Term):
                    some = [self.oget(o, leaf) for o in outs]
                    if self.cyclic(leaf, outs):
                        pass
                    elif any(isinstance(e, Term) and e.op == "int" for e in some) and any(d is not None for d in ds):
                        cyc = True
                else:
                    raise Unsupported("loop moves a pointer irregularly")
        self.pos = self.positions(outs)
        # bounds from the loop tests, so that the next runs stay on sensible paths
        self.bounds(outs)
        # 3. array elements, strings
        for rnd in range(6):
            outs = self.iterate(self.head)
            ch = self.segs(outs)
            ch = self.strings(outs, rnd) or ch
            if DEBUG:
                print("  round", rnd, "paths", len(outs), {self.nm(l): str(f)[:150] for l, f in self.forms.items()})
            if not ch:
                break
        # 4. Houdini
        self.houdini()
        if DEBUG:
            print("  p", self.p, "forms", {self.nm(l): (f[0], str(f[1:])[:200]) for l, f in self.forms.items()}, "inv", [str(q) for q in self.inv], "cyc", cyc)
        return cyc

    def cyclic(self, leaf, outs):
        """a counter that starts again at 0 when it reaches a constant"""
        x = self.sym(leaf, "I")
        if self.v0[leaf] is not I(0):
            return False
        step, top = set(), set()
        for o in outs:
            e = self.oget(o, leaf)
            d = intdelta(x, e)
            if d is not None:
                step.add(d)
                continue
            if e is not I(0):
                return False
            for f in o.facts:
                for g in flat(f):
                    if g.op in ("eqI", "eq0") and x in free_vars(g):
                        c, xs = lin_parts(g.args[0])
                        if len(xs) == 1 and abs(xs[0][1]) == 1:
                            t = xs[0][0]
                            top.add(abs(c) - (lin_parts(t.args[0])[0] if t.op == "mod" else 0))
        if len(step) != 1 or not top:
            return False
        d = step.pop()
        ms = [m + d for m in top if d > 0 and (m + d) % d == 0 and m > 0] + [m for m in top if d > 0 and m % d == 0 and m > 0]
        for m in [m for m in ms if m > 4 * d]:  # (shorter cycles: periods)
            self.forms[leaf] = ("cyc", d, m)
            os_ = self.iterate(self.head, lambda: self.I.proves(eqI(self.get(leaf), self.at(leaf, add(self.k, I(1))))))
            if os_ and all(o.more for o in os_):
                return True
        self.forms[leaf] = ("havoc",)
        return False

    def cstrblock(self, o, v):
        return isinstance(v, Ptr) and v.bid is not None and v.bid in o.heap and isinstance(o.heap[v.bid].vals.get(()), CharArr)

    def text(self, leaf):
        v = self.v0[leaf]
        return isinstance(v, SStream) or isinstance(v, Term) and v.sort == "S"

    def tagged(self, v, ends):
        """an owned buffer that contracts replace by an arbitrary new one"""
        t = getattr(v, "tag", None)
        return t is not None and all(isinstance(e, Rec) and e.kind == "lazy" and getattr(e, "tag", None) in (t, t.rstrip("?")) for e in ends)

    def headH(self):
        I_ = self.I
        I_.ctr += 1
        I_.assume(ge(self.k, I(0)))
        for leaf in sorted(self.forms, key=str):
            if self.forms[leaf][0] == "lazytag":
                self.forms[leaf][1](I_, leaf)
            if self.forms[leaf][0] in ("handle", "mark", "lazytag", "slave"):
                continue
            if self.forms[leaf][0] == "alt":
                f = self.forms[leaf]
                I_.heap.setdefault(f[1].bid, f[2])
                self.put(leaf, self.v0[leaf] if I_.decide(eqI(self.k, I(0))) else f[1])
                continue
            self.havoc(leaf)

    def bounds(self, outs):
        """relaxations of the facts known once the loop test has succeeded"""
        I_ = self.I
        cand = []
        for o in outs:
            pass
        self.cands = cand

    # ------------------------------------------------------------ strings
    def foreign(self, t):
        """depends on something chosen afresh in the iteration, or on an arbitrary leaf value"""
        for x in free_vars(t):
            nm = x.args[0] if x.op in ("iv", "bv", "sv") else ""
            if x is self.k or nm.startswith("?"):
                continue
            if nm.startswith("h!") or nm.startswith("hj!"):
                if nm.endswith("!%d" % self.c0):
                    return True
                continue
            if "!" in nm:
                try:
                    if int(nm.rsplit("!", 1)[1]) > self.c0:
                        return True
                except ValueError:
                    pass
        return False

    def merge(self, outs, vals, d=0):
        """one term for the values of several paths, by cases on their decisions"""
        if all(v == vals[0] for v in vals):
            return vals[0]
        if any(len(o.dlog) <= d for o in outs):
            return None
        f = outs[0].dlog[d][0]
        if any(o.dlog[d][0] is not f for o in outs):
            return None
        T = [(o, v) for o, v in zip(outs, vals) if o.dlog[d][1]]
        F = [(o, v) for o, v in zip(outs, vals) if not o.dlog[d][1]]
        if not T or not F:
            return self.merge(outs, vals, d + 1)
        a = self.merge([x for x, _ in T], [x for _, x in T], d + 1)
        b = self.merge([x for x, _ in F], [x for _, x in F], d + 1)
        if a is None or b is None:
            return None
        if a == b:
            return a
        if f is None or self.foreign(f):
            return None
        return ite(f, a, b)

    def clean(self, outs):
        """paths on which no send has failed"""
        if ("g", "clean") not in self.forms:
            return None
        return [o for o in outs if o.ghost.get("clean") is not FALSE]

    def strings(self, outs, rnd):
        I_ = self.I
        ch = False
        leaves = [l for l, f in self.forms.items() if f[0] == "havoc" and isinstance(self.v0[l], (Term, SStream)) and (isinstance(self.v0[l], SStream) or self.v0[l].sort == "S")]
        for leaf in sorted(leaves, key=str):
            for guarded in (False, True):
                sel = outs
                if guarded:
                    sel = self.clean(outs)
                    if sel is None or leaf[0] != "g":
                        continue
                ds = []
                for o in sel:
                    x, y = strv(self.oget(o, leaf, True)), strv(self.oget(o, leaf))
                    d = strip(x, y)
                    if d is None:
                        break
                    ds.append(d)
                if len(ds) != len(sel) or not sel:
                    continue
                m = self.merge(sel, ds)
                if m is None and any(d.op == "sub" for d in ds) and all(d.op == "sub" and d.args[:2] == next(e for e in ds if e.op == "sub").args[:2] or d is EMPTY for d in ds) and self.growing(leaf, next(d for d in ds if d.op == "sub")):
                    ch = True
                    break
                if m is not None and self.growing(leaf, m):
                    ch = True
                    break
                if m is None or self.foreign(m):
                    continue
                pf = self.prefix(m)
                if pf is not None:
                    self.forms[leaf] = ("prefix", pf, guarded)
                else:
                    self.forms[leaf] = ("gfold" if guarded else "fold", m)
                ch = True
                break
        # integers and booleans that are a function of the previous iteration number
        for leaf, f in list(self.forms.items()):
            v = self.v0[leaf]
            if f[0] == "havoc" and isinstance(v, Term) and v.sort in ("I", "B"):
                m = self.merge(outs, [self.oget(o, leaf) for o in outs]) if outs else None
                if m is not None and isinstance(m, Term) and not self.foreign(m) and not self.touches(m, leaf):
                    self.forms[leaf] = ("prev", m)
                    ch = True
        if ch:
            return True
        # strings that stay equal to one another
        rest = [l for l in sorted(leaves, key=str) if self.forms[l][0] == "havoc"]
        for i, a in enumerate(rest):
            for b in rest[i + 1:]:
                if self.forms[a][0] != "havoc" or self.forms[b][0] != "havoc":
                    continue
                if strv(self.v0[a]) is not strv(self.v0[b]):
                    continue
                save = self.forms[b]
                self.forms[b] = ("eq", a)
                ok = True
                os_ = self.iterate(self.head, lambda: eqprove(I_, strv(self.get(a)), strv(self.get(b))))
                for o in os_:
                    ok = ok and o.more
                if ok and os_:
                    ch = True
                else:
                    self.forms[b] = save
        for a in rest:
            if self.forms[a][0] == "havoc" and (self.cutting(a, outs) or self.mapping(a, outs)):
                return True
        for a in rest:
            if self.forms[a][0] == "havoc" and (self.replacing(a, outs) or self.accumulating(a, outs)):
                ch = True
        return ch

    def growing(self, leaf, m):
        """leaf takes up one fixed string piece by piece, as far as a position that the loop keeps"""
        I_ = self.I
        if m.op != "sub" or self.foreign(m.args[0]):
            return False
        e, m0 = m.args[1], self.initmap()
        if e.op == "mod" and e.args[1] == 1 << 64:
            # as it reads without a wrap-around
            c, xs = lin_parts(e.args[0])
            h = 1 << 63
            e = add(I((c + h) % (2 * h) - h), *[scale((n + h) % (2 * h) - h, x) for x, n in dict(xs).items()])
        if not self.foreign(e) or any(x not in m0 and self.foreign(x) for x in free_vars(e)):
            return False
        if I_.eqP(subst(e, m0), I(0)):
            self.forms[leaf] = ("grow", m.args[0], e)
            return True
        return False

    # ------------------------------------------- a text that is cut off at its ends
    def cutsyms(self, leaf):
        return ivar("h!%s@!%d" % (self.nm(leaf), self.c0)), ivar("h!%s#!%d" % (self.nm(leaf), self.c0))

    def cutting(self, leaf, outs):
        v = self.v0[leaf]
        if not isinstance(v, Term) or v.op == "str" or self.I.tails or not outs:
            return False
        h = self.sym(leaf, "S")
        for o in outs:
            e = self.oget(o, leaf)
            if e is not h and not (isinstance(e, Term) and e.op == "sub" and e.args[0] is h):
                return False
        self.forms[leaf] = ("cut",)
        return True

    def cut(self, leaf, w):
        """(from, length) of the part of the text that is left"""
        x = self.v0[leaf]
        if w is x:
            return I(0), length(x)
        if w is EMPTY:
            return I(0), I(0)
        if isinstance(w, Term) and w.op == "sub":
            if w.args[0] is x:
                return w.args[1], w.args[2]
            if x.op == "sub" and w.args[0] is x.args[0]:
                return sub(w.args[1], x.args[1]), w.args[2]
        return None

    # ------------------------------------------- a text whose bytes are rewritten one after the other
    def mapping(self, leaf, outs):
        I_ = self.I
        v = self.v0[leaf]
        if not isinstance(v, Term) or not outs:
            return False
        h = self.sym(leaf, "S")
        ms = []
        for o in outs:
            e = self.oget(o, leaf)
            if e is h:
                ms.append(None)
                continue
            at = atoms(e) if isinstance(e, Term) else ()
            i, ok = I(0), 0
            for a in at:
                if a.op == "chr":
                    if i is not self.k and not I_.eqP(i, self.k):
                        return False
                    ms.append(subst(a.args[0], {h: v}))
                    ok += 1
                elif a.op != "sub" or a.args[0] is not h or not I_.eqP(a.args[1], i):
                    return False
                i = add(i, length(a))
            if ok != 1:
                return False
        if all(m is None for m in ms):
            return False
        m = self.merge(outs, [code(v, self.k) if m is None else m for m in ms])
        if m is None or self.foreign(m):
            return False
        self.forms[leaf] = ("map", chr_(m))
        return True

    # ------------------------------------------- replacement in place
    def replacing(self, leaf, outs):
        """every occurrence of a constant is replaced from left to right: the text before a position is done, the rest is as it was"""
        I_ = self.I
        x0 = self.v0[leaf]
        if not isinstance(x0, Term) or not outs:
            return False
        ps = [l for l, f in self.forms.items() if f[0] in ("havoc",) and isinstance(self.v0[l], Term) and self.v0[l].sort == "I"]
        if not ps:
            return False
        h = strv(self.oget(outs[0], leaf, True))
        Fs, Ts = [], []
        for t in all_subterms([self.oget(outs[0], leaf)] + [e for e in (self.oget(outs[0], l) for l in ps) if isinstance(e, Term)]):
            if t.op == "idx" and t.args[1].op == "str" and h in free_vars(t.args[0]):
                Fs.append(t.args[1])
        for t in atoms(self.oget(outs[0], leaf)):
            if t.op == "str":
                Ts.append(t.args[0])
        for F in dict.fromkeys(Fs):
            f = F.args[0]
            cand = [S(t) for t in Ts] + [S(f[:j] + t + f[j:]) for t in Ts for j in range(len(f) + 1)] + [EMPTY]
            for T in dict.fromkeys(cand):
                for p in ps:
                    i0 = indexof_raw(x0, F, I(0))
                    if I_.eqP(self.v0[p], I(0)):
                        rot = False
                    elif I_.eqP(self.v0[p], ite(ge(i0, I(0)), i0, I((1 << 64) - 1))):
                        # the position of the next occurrence
                        rot = True
                    else:
                        if DEBUG:
                            print("   repl start", self.v0[p], "|", i0)
                        continue
                    sx, sp = self.forms[leaf], self.forms[p]
                    self.forms[leaf], self.forms[p] = ("repl", F, T, p, rot), ("slave",)
                    try:
                        os_ = self.iterate(self.head, lambda: self.repl_ok(leaf))
                    except Unsupported as e_:
                        if DEBUG:
                            print("   repl:", e_)
                        os_ = []
                    if os_ and all(o.more for o in os_):
                        return True
                    self.forms[leaf], self.forms[p] = sx, sp
        return False

    def parts(self, leaf):
        return self.sym(leaf, "S"), svar("hj!%s!%d" % (self.nm(leaf), self.c0), NONUL if leaf in self.nonul else ALL)

    def repl_sides(self, leaf):
        """what the invariant equates at the end of an iteration"""
        I_ = self.I
        _, F, T, p, rot = self.forms[leaf]
        x, q = self.get(leaf), self.get(p)
        A, B_ = self.parts(leaf)
        i = indexof_raw(B_, F, I(0))
        n = length(F)
        if not (isinstance(x, Term) and isinstance(q, Term)):
            return None
        # lemma: the first occurrence is replaced first
        if I_.decide(ge(i, I(0))):
            # the text reads P F Q
            P, Q = svar("hp!%s!%d" % (self.nm(leaf), self.c0), charset(B_)), svar("hq!%s!%d" % (self.nm(leaf), self.c0), charset(B_))
            I_.assume(eqI(length(P), i))
            I_.assume(eqI(add(length(P), n, length(Q)), length(B_)))
            def whole(s, i=i):
                return resub(I_, subst(subst(s, {i: length(P)}), {B_: cat(P, F, Q)}))
            x, e, i = whole(x), cat(P, T, rall(Q, F, T)), length(P)
            if not rot:
                q = whole(q)
        else:
            e = B_
        if rot:
            # the search goes on behind the replacement
            s = add(length(A), i, length(T))
            if not I_.proves(And(ge(s, I(0)), le(s, length(x)))):
                return None
            rest = I_.sub(x, s, sub(length(x), s))
            j = indexof_raw(Q, F, I(0)) if eqprove(I_, rest, Q) else indexof_raw(rest, F, I(0))
            q = whole(q)
            ok = I_.eqP(q, add(s, j)) if I_.decide(ge(j, I(0))) else I_.eqP(q, I((1 << 64) - 1))
            if DEBUG:
                print("   rotated", ok, str(q)[:200], "|", str(s), str(j)[:200])
            if not ok:
                return None
            q = s
        if DEBUG:
            print("   repl?", str(x)[:300], q)
        if not I_.proves(And(ge(q, I(0)), le(q, length(x)))):
            return None
        done, rest = I_.sub(x, I(0), q), I_.sub(x, q, sub(length(x), q))
        if DEBUG:
            print("   repl", F, T, str(cat(done, rall(rest, F, T)))[:300], "==", str(cat(A, e))[:300])
        return cat(done, rall(rest, F, T)), cat(A, e)

    def repl_ok(self, leaf):
        s = self.repl_sides(leaf)
        return s is not None and eqprove(self.I, *s)

    def repl_exit(self, leaf):
        """nothing is left to replace: the text is the replaced text"""
        I_ = self.I
        _, F, T, p, rot = self.forms[leaf]
        A, B_ = self.parts(leaf)
        if self.get(leaf) is cat(A, B_) and I_.proves(lt(indexof_raw(B_, F, I(0)), I(0))):
            r = rall(self.v0[leaf], F, T)
            I_.assume(eqI(length(r), add(length(A), length(B_))))
            self.put(leaf, r)

    # ------------------------------------------- replacement into another text
    def accumulating(self, leaf, outs):
        """leaf takes up a fixed text from left to right, every occurrence of a constant replaced by another one"""
        I_ = self.I
        x0 = strv(self.v0[leaf])
        if not outs:
            return False
        ds = [strip(strv(self.oget(o, leaf, True)), strv(self.oget(o, leaf))) for o in outs]
        if any(d is None for d in ds):
            return False
        ints = [l for l, f in self.forms.items() if f[0] == "havoc" and isinstance(self.v0[l], Term) and self.v0[l].sort == "I"]
        for p in ints:
            if not I_.eqP(self.v0[p], I(0)):
                continue
            hp = self.oget(outs[0], p, True)
            ends = [self.oget(o, l) for o in outs for l in ints]
            subs = [t for t in all_subterms(ds + [e for e in ends if isinstance(e, Term)] + [f for o in outs for f in o.facts])]
            Xs = dict.fromkeys(t.args[0] for t in subs if t.op in ("sub", "code", "idx") and not self.foreign(t.args[0]) and t.args[0].op != "str" and any(hp in free_vars(a) for a in t.args[1:] if isinstance(a, Term)))
            ls = [l for l in ints if l != p]
            for X in Xs:
                Fs = [t.args[1] for t in subs if t.op == "idx" and t.args[0] is X and t.args[1].op == "str"]
                cs = list(dict.fromkeys(c for t in subs if t.op == "eqI" for c in [abs(lin_parts(t.args[0])[0])] if 0 < c < 127 and any(y.op == "code" and y.args[0] is X for y in all_subterms([t]))))
                for n in {sub(self.oget(o, p), hp) for o, d in zip(outs, ds) if d.op == "str"}:
                    if n.op == "int" and 0 < n.args[0] < 4 and len(cs) ** n.args[0] <= 64:
                        Fs += [S("".join(map(chr, w))) for w in itertools.product(cs, repeat=n.args[0])]
                for F in dict.fromkeys(Fs):
                    i0 = indexof_raw(X, F, I(0))
                    e = next((l for l in ls if I_.eqP(self.v0[l], ite(ge(i0, I(0)), i0, I((1 << 64) - 1)))), None)
                    Ts = [S(b[0]) for d in ds for b in [[a.args[0]] for a in atoms(d) if a.op == "str"]] + [EMPTY]
                    for T in dict.fromkeys(Ts):
                        save = dict(self.forms)
                        self.forms[leaf], self.forms[p] = ("acc", X, F, T, p, e), ("slave",)
                        if e is not None:
                            self.forms[e] = ("slave",)
                        try:
                            os_ = self.iterate(self.head, lambda: self.acc_ok(leaf))
                        except Unsupported as e_:
                            if DEBUG:
                                print("   acc:", e_)
                            os_ = []
                        if os_ and all(o.more for o in os_):
                            return True
                        self.forms.clear()
                        self.forms.update(save)
        return False

    def acc_head(self, leaf):
        I_ = self.I
        _, X, F, T, p, e = self.forms[leaf]
        A, q = self.sym(leaf, "S"), self.sym(p, "I")
        I_.assume(And(ge(q, I(0)), le(q, length(X))))
        I_.assume(le(length(A), I(I_.MAXLEN)))
        self.put(leaf, SStream(A) if isinstance(self.v0[leaf], SStream) else A)
        self.put(p, q)
        i = indexof_raw(X, F, q)
        if e is not None:
            self.put(e, i if I_.decide(ge(i, I(0))) else I((1 << 64) - 1))

    def acc_sides(self, leaf):
        """what the iteration has appended, and what it should have"""
        I_ = self.I
        _, X, F, T, p, e = self.forms[leaf]
        A, q = self.sym(leaf, "S"), self.sym(p, "I")
        x, r = self.get(leaf), self.get(p)
        x = strv(x)
        if not isinstance(r, Term):
            return None
        n = len(F.args[0])
        i = indexof_raw(X, F, q)
        # lemma: an occurrence right here is the first one
        here = And(*[eqI(code(X, add(q, I(j))), I(ord(F.args[0][j]))) for j in range(n)] + [le(add(q, I(n)), length(X))])
        if I_.proves(here):
            I_.assume(eqI(i, q))
        elif I_.proves(Not(here)):
            I_.assume(Not(eqI(i, q)))
        if I_.proves(And(ge(i, q), eqI(r, add(i, I(n))))):
            # lemma: the first occurrence is replaced first
            want = cat(I_.sub(X, q, sub(i, q)), T)
        elif I_.proves(And(Not(eqI(i, q)), eqI(r, add(q, I(1))), le(r, length(X)))):
            # lemma: a byte that begins no occurrence stays
            want = I_.sub(X, q, I(1))
        else:
            return None
        if e is not None:
            j = indexof_raw(X, F, r)
            if not (I_.eqP(self.get(e), j) if I_.decide(ge(j, I(0))) else I_.eqP(self.get(e), I((1 << 64) - 1))):
                return None
        return x, cat(A, want)

    def acc_ok(self, leaf):
        s = self.acc_sides(leaf)
        return s is not None and eqprove(self.I, *s)

    def acc_exit(self, leaf):
        """what has been taken up and the replaced rest are the replaced text"""
        I_ = self.I
        _, X, F, T, p, e = self.forms[leaf]
        A, q = self.sym(leaf, "S"), self.sym(p, "I")
        if I_.proves(lt(indexof_raw(X, F, q), I(0))) or I_.proves(ge(add(q, I(len(F.args[0]) - 1)), length(X))):
            rest = EMPTY if I_.proves(ge(q, length(X))) else I_.sub(X, q, sub(length(X), q))
            I_.assume(eq(cat(A, rest), cat(strv(self.v0[leaf]), rall(X, F, T))))

    def touches(self, m, leaf):
        return False

    def prefix(self, m):
        """m(k) = the next piece of one fixed string: (string, start position as a term in k, limit)"""
        xs, todo = [], [m]
        while todo:
            x = todo.pop()
            if x.op == "ite":
                todo += [x.args[1], x.args[2]]
            else:
                xs.append(x)
        if any(x.op != "sub" for x in xs) or any(x.args[0] is not xs[0].args[0] or x.args[1] is not xs[0].args[1] for x in xs):
            return None
        s, a = xs[0].args[0], xs[0].args[1]
        if self.k in free_vars(s) or self.k not in free_vars(a):
            return None
        return (s, a, length(s))

    # ------------------------------------------------------ object families
    def segs(self, outs):
        I_ = self.I
        ch = False
        for leaf, f in list(self.forms.items()):
            v = self.v0[leaf]
            if not isinstance(v, SegArr) or f[0] != "havoc":
                continue
            idx = None
            gens = []
            for o in outs:
                w = self.oget(o, leaf)
                if not isinstance(w, SegArr):
                    raise Unsupported("array replaced in a loop")
                h = self.oget(o, leaf, True)
                was = h.segs if isinstance(h, SegArr) else ()
                one = [s for s in w.segs if s.kind == "one" and s not in was]
                if len(one) != 1:
                    raise Unsupported("loop writes several array elements per iteration")
                s = one[0]
                if idx is None:
                    idx = s.lo
                if s.lo is not idx:
                    raise Unsupported("loop writes array elements at different places")
                gens.append((o, s.gen["ptr"]))
            if idx is None:
                continue
            d = dict(lin_parts(idx)[1]).get(self.k)
            if d != 1:
                raise Unsupported("array index does not advance by one")
            gs = []
            for o, p in gens:
                g = self.objgen(o.heap, p, v.cls)
                if g is None:
                    raise Unsupported("array element is not a fresh object")
                gs.append(g)
            g0 = gs[0]
            if any(g != g0 for g in gs):
                g0 = {}
                for key in gs[0]:
                    m = self.merge([o for o, _ in gens], [g.get(key) for g in gs])
                    if m is None:
                        raise Unsupported("array elements depend on the path")
                    g0[key] = m
            if any(isinstance(t, Term) and self.foreign(t) for t in g0.values()):
                raise Unsupported("array elements are not a function of their index")
            i0 = subst(idx, {self.k: I(0)})
            gen = {q: subst(t, {self.k: sub(Seg.J, i0)}) if isinstance(t, Term) else t for q, t in g0.items()}
            fam = "fam!%s!%d" % (self.nm(leaf), self.c0)

            def form(k, v=v, i0=i0, gen=gen, fam=fam):
                hi = add(i0, k)
                segs = []
                for s in v.segs:
                    # only a region lying inside one segment is rewritten
                    segs.append(s)
                return SegArr(v.n, v.cls, carve(I_, segs, i0, hi, Seg(i0, hi, "obj", fam, gen, v.cls)), v.byval)
            self.forms[leaf] = ("seg", form, (i0, gen, fam))
            ch = True
        # element objects destroyed by the iteration
        for o in outs:
            for bid, b1 in o.heap.items():
                if b1.meta.get("famobj") and "index" in b1.meta and not b1.alive and bid not in o.hheap or \
                        b1.meta.get("famobj") and "index" in b1.meta and not b1.alive and o.hheap.get(bid) is not None and o.hheap[bid].alive:
                    fam = b1.meta["fam"]
                    idx = b1.meta["index"]
                    if fam in self.dead:
                        continue
                    if dict(lin_parts(idx)[1]).get(self.k) != 1:
                        raise Unsupported("elements are not destroyed one after the other")
                    self.dead[fam] = (subst(idx, {self.k: I(0)}), idx)
                    ch = True
        for fam, (i0, idx) in self.dead.items():
            for o in outs:
                if not any(b.meta.get("fam") == fam and not b.alive and b.meta.get("index") is idx for b in o.heap.values()):
                    raise Unsupported("an iteration may skip the destruction of its element")
        return ch

    def objgen(self, heap, p, cls):
        """contents of a freshly allocated object, by field"""
        if not isinstance(p, Ptr) or p.bid is None:
            return None
        b = heap.get(p.bid)
        if b is None or not b.alive or b.kind != "new" or p.off is not I(0):
            return None
        g = {}
        for path, v in b.vals.items():
            if isinstance(v, Term):
                g[path] = v
            elif isinstance(v, Ptr) and v.bid is not None:
                c = heap.get(v.bid)
                if c is None or not c.alive or c.kind != "new[]" or not isinstance(c.vals.get(()), CharArr):
                    return None
                s = c.vals[()].s
                at = atoms(s)
                if not at or at[-1] is not S("\0") and not (at[-1].op == "str" and at[-1].args[0].endswith("\0")):
                    return None
                t = cat(*at[:-1], S(at[-1].args[0][:-1]))
                if has(t, 0):
                    return None
                g[path] = t
            else:
                return None
        return g

    def apply_dead(self, fam, f, k):
        """mark the first k elements of the family (from the loop's start) as destroyed"""
        I_ = self.I
        i0 = f[0]
        for bid, b in list(I_.heap.items()):
            for path, v in list(b.vals.items()):
                if isinstance(v, SegArr) and any(s.fam == fam for s in v.segs):
                    I_.rawset(bid, path, SegArr(v.n, v.cls, carve(I_, list(v.segs), i0, add(i0, k), Seg(i0, add(i0, k), "dead", None, None, v.cls)), v.byval))

    # ------------------------------------------------------------- Houdini
    def candidates(self):
        I_ = self.I
        out = []
        again = self.later(self.iterate(self.head_plain, self.endmap))
        tests = []

        def probe():
            self.head_plain()
            I_.dlog = []
            nf = len(I_.facts)
            try:
                b = I_.decide(self.cond())
            except (Peek,):
                return None
            return b, list(I_.facts[nf:])
        I_.quiet += 1
        try:
            for kind, val in I_.explore(probe):
                if kind == "ok" and val and val[0]:
                    tests += val[1]
        finally:
            I_.quiet -= 1
        seen = set()
        for f in tests:
            for g in flat(f):
                if g in seen or not self.depends(g):
                    continue
                seen.add(g)
                out.append(("test", g))
        res = []
        for _, g in list(out):
            # the test as it reads when its sums do not wrap around
            ms = [x for x in all_subterms([g]) if x.op == "mod"]
            if ms:
                h = subst(g, {x: x.args[0] for x in ms})
                if h.op == "le0" and h not in seen:
                    out.append(("test", h))
        for _, g in out:
            if g.op == "le0":
                t = g.args[0]
                step = 1
                co = dict(lin_parts(t)[1])
                s = co.get(self.k, 0)
                step = max(1, s) if s > 0 else 1
                # t <= 0 held at the test; afterwards t grows by at most step
                for q in sorted({step, 1} | ({0} if I_.rotate else set())):
                    res.append(le(t, I(q)))
                    if q > 1:
                        res.append(le(t, I(q - 1)))
            elif g.op == "not" and g.args[0].op == "eqI" or g.op == "not" and g.args[0].op == "eq0":
                res += self.nezero(g.args[0])
        for p, v in self.pos:
            if self.forms[p][0] == "havoc":
                res.append(le(self.headval(p), length(v)))
        ints, bools = [], []
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if isinstance(v, Term) and v.sort == "I" and f[0] in ("lin", "havoc"):
                res += self.spaninv(self.headval(leaf))
            elif isinstance(v, Rec) and v.kind == "iter":
                res += self.spaninv(self.at(leaf, self.k).pos if f[0] == "lin" else self.sym(leaf, "I"))
            elif f[0] == "cut":
                a, x = self.cutsyms(leaf)
                res += [eqI(a, I(0)), eqI(add(a, x), length(v))] + self.spaninv(a) + self.spaninv(add(a, x))
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if isinstance(v, Term) and v.sort == "I":
                x = self.headval(leaf)
                if f[0] == "lin":
                    res.append(ge(x, I(0)))
                elif f[0] == "havoc":
                    res += [ge(x, v), le(x, v), ge(x, I(0)), eqI(x, v)]
                    ints.append((x, v))
            elif isinstance(v, Term) and v.sort == "B" and f[0] == "havoc":
                x = self.headval(leaf)
                res += [Iff(x, v), x, Not(x), Implies(v, x), Implies(x, v)]
                bools.append((x, v))
            elif f[0] == "own":
                for l2, f2 in self.forms.items():
                    if isinstance(self.v0[l2], Term) and self.v0[l2].sort == "I" and f2[0] == "havoc":
                        p = self.headval(leaf)
                        bid = "own:%s!%d" % (self.nm(leaf), self.c0)
                        s = svar("h!%s!%d" % (self.nm(leaf), self.c0), NONUL)
                        j = svar("hj!%s!%d" % (self.nm(leaf), self.c0))
                        res.append(eqI(add(length(s), I(1), length(j)), self.headval(l2)))
            elif f[0] == "havoc" and isinstance(v, Ptr) and v.bid is not None:
                x = self.sym(leaf, "I")
                res += [ge(x, v.off), le(x, v.off)]
                ints.append((x, v.off))
            elif f[0] == "havoc" and isinstance(v, (Term, SStream)):
                x = strv(self.headval(leaf))
                for y, w in bools:
                    pass
        for i, (x, v) in enumerate(ints):
            for y, w in ints[:i]:
                # two counters that move together
                res.append(eqI(sub(x, v), sub(y, w)))
                res.append(eqI(add(x, y), add(v, w)))
        for q in list(res):
            if q.op == "le0":
                for x, v in ints:
                    if x in free_vars(q):
                        res.append(Or(q, eqI(x, v)))
        for x, v in ints:
            for y, w in bools:
                res.append(Implies(eqI(x, v), Iff(y, w)))
                res.append(Implies(Iff(y, w), eqI(x, v)))
        for i, (x, v) in enumerate(bools):
            for j, (y, w) in enumerate(bools):
                if i != j:
                    res.append(Implies(Iff(x, v), Iff(y, w)))
        if self.phased:
            # the last refusal is what the result tells
            for x, v in ints:
                res += [ge(x, I(100)), le(x, I(999))]
                res += [Or(eqI(x, v), eqI(x, z)) for z, _ in ints if z is not x]
                res += [Or(eqI(x, v), Not(y)) for y, _ in bools]
        for leaf, f in self.forms.items():
            if leaf == ("g", "nraw") and f[0] == "havoc":
                x, v = self.headval(leaf), self.v0[leaf]
                for b in self.flags():
                    res += [Or(b, eqI(x, v)), Or(Not(b), eqI(x, v))]
        for leaf, f in self.forms.items():
            if f[0] == "grow":
                x, L = f[2], length(f[1])
                res += [le(x, L), ge(x, I(0))]
                res += [Or(Not(y), eqI(x, L)) for y, _ in bools]
        res += self.tailinv()
        # a flag that is still down means nothing has been collected yet
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if f[0] == "havoc" and isinstance(v, (Term, SStream)) and (isinstance(v, SStream) or v.sort == "S"):
                s = strv(self.headval(leaf))
                for y, w in bools:
                    res.append(Implies(Iff(y, w), eqS(s, strv(v))))
                    res.append(Implies(Not(Iff(y, w)), ge(length(s), I(1))))
        return [q for q in dict.fromkeys(res + again) if q.op != "bool"]

    def spaninv(self, x):
        """positions that have not left the part of a text which consists of certain characters"""
        res = []
        for s, l in self.I.spans.items():
            for _, k, rev in l:
                res += [le(length(s), add(x, k)), le(length(s), add(x, k, I(1)))] if rev else [le(x, k)]
        return res

    def later(self, outs):
        """what an iteration that went on has tested about its counters, as it reads in the next one"""
        I_ = self.I
        res = []
        starts = {self.k: I(0)}
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if f[0] == "havoc" and isinstance(v, Term) and v.sort == "I":
                starts[self.sym(leaf, "I")] = v
        for o in outs:
            back = {}
            for s, e in o.more.items():
                d = intdelta(s, e) if s in starts else None
                back[s] = None if d is None else sub(s, I(d)) if d else s
            for f in o.facts:
                for g in flat(f):
                    xs = [x for x in free_vars(g) if x in back]
                    if g.op != "le0" or self.foreign(subst(g, {x: starts.get(x, I(0)) for x in xs})):
                        continue
                    if not xs or any(back[x] is None for x in xs) or all(back[x] is x for x in xs):
                        continue
                    h = subst(g, {x: back[x] for x in xs})
                    for x in xs:
                        q = Or(eqI(x, starts[x]), h)
                        if q not in res and len(res) < 60:
                            res.append(q)
        return res

    def flags(self):
        """booleans of the state that the loop leaves alone"""
        out = {}
        for bid, b in self.I.heap.items():
            for q, v in b.vals.items():
                if isinstance(v, Term) and v.op == "bv" and b.alive and ("h", bid, q) not in self.forms:
                    out[v] = 1
        return list(out)

    def nezero(self, e):
        a = e.args[0]
        if len(e.args) > 1 and isinstance(e.args[1], Term):
            a = sub(e.args[0], e.args[1])
        return [ge(a, I(0)), le(a, I(0))]

    def depends(self, g):
        for x in free_vars(g):
            if x is self.k or x.op in ("iv", "bv", "sv") and x.args[0].startswith(("h!", "hj!")) and x.args[0].endswith("!%d" % self.c0):
                return True
        return False

    def head_plain(self):
        save, self.inv = self.inv, []
        try:
            self.head()
        finally:
            self.inv = save

    def headval(self, leaf):
        f = self.forms[leaf]
        if f[0] in ("havoc", "own"):
            v = self.v0[leaf]
            if isinstance(v, Term):
                return self.sym(leaf, v.sort)
            if isinstance(v, SStream):
                return SStream(self.sym(leaf, "S"))
            return None
        return self.at(leaf, self.k)

    def initmap(self):
        m = {self.k: I(0)}
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            if f[0] == "havoc":
                if isinstance(v, Term):
                    m[self.sym(leaf, v.sort)] = v
                elif isinstance(v, Ptr) and v.bid is not None:
                    m[self.sym(leaf, "I")] = v.off
                elif isinstance(v, (SStream, CharArr)):
                    m[self.sym(leaf, "S")] = v.s
                elif isinstance(v, VecV):
                    m[self.sym(leaf, "S")] = v.term()
            elif f[0] == "own":
                m.update(self.ownmap(leaf, v, self.I.heap))
            elif f[0] == "cut":
                a, x = self.cutsyms(leaf)
                m[a], m[x] = I(0), length(v)
        return m

    def ownmap(self, leaf, p, heap):
        s = svar("h!%s!%d" % (self.nm(leaf), self.c0), NONUL)
        j = svar("hj!%s!%d" % (self.nm(leaf), self.c0))
        if isinstance(p, Ptr) and p.bid is not None and isinstance(heap[p.bid].vals.get(()), CharArr):
            a = atoms(heap[p.bid].vals[()].s)
            out, k = [], 0
            while k < len(a) and not has(a[k], 0):
                out.append(a[k])
                k += 1
            if k < len(a) and a[k].op == "str" and "\0" in a[k].args[0]:
                z = a[k].args[0].index("\0")
                return {s: cat(*out, S(a[k].args[0][:z])), j: cat(S(a[k].args[0][z + 1:]), *a[k + 1:])}
        return {}

    def endmap(self):
        """head symbols -> values at the end of the iteration, in the current state"""
        m = {self.k: add(self.k, I(1))}
        for leaf, f in self.forms.items():
            v = self.v0[leaf]
            w = self.get(leaf)
            if f[0] == "havoc":
                if isinstance(v, Term) and isinstance(w, Term):
                    m[self.sym(leaf, v.sort)] = w
                elif isinstance(v, Ptr) and v.bid is not None and isinstance(w, Ptr) and w.bid == v.bid:
                    m[self.sym(leaf, "I")] = w.off
                elif isinstance(v, (SStream, CharArr)) and isinstance(w, (SStream, CharArr)):
                    m[self.sym(leaf, "S")] = w.s
                elif isinstance(v, VecV) and isinstance(w, VecV) and w.term() is not None:
                    m[self.sym(leaf, "S")] = w.term()
            elif f[0] == "own":
                m.update(self.ownmap(leaf, w, self.I.heap))
            elif f[0] == "cut":
                e = self.cut(leaf, w)
                if e is not None:
                    m.update(zip(self.cutsyms(leaf), e))
        return m

    def holds(self, q, m):
        g = subst(q, m)
        # symbols left over mean the end value is unknown
        return self.I.known(g) is True

    def houdini(self, cand=None):
        I_ = self.I
        if cand is None:
            cand = self.candidates()
        m0 = self.initmap()
        cand = [q for q in cand if I_.known(subst(q, m0)) is True]
        for rnd in range(12):
            self.inv = cand
            bad = set()

            def want():
                m = self.endmap()
                for q in cand:
                    if q not in bad and not self.holds(q, m):
                        bad.add(q)
            self.iterate(self.head, want)
            if DEBUG:
                print("   houdini", rnd, len(cand), "drop", [str(q)[:100] for q in bad][:6])
            if not bad:
                break
            cand = [q for q in cand if q not in bad]
        else:
            cand = []
        self.inv = cand

    # ------------------------------------------------------------ for real
    def enter(self):
        I_ = self.I
        for q in self.inv:
            I_.oblige(subst(q, self.initmap()), "loop invariant holds initially", "loop")
        self.head()
        for q in self.inv:
            pass
        heap0 = set(I_.heap)
        self.hh, self.hg = dict(I_.heap), dict(I_.ghost)
        env0 = I_.env
        try:
            self.superbody()
            I_.settle()
            if self.marked():
                self.superbody()
                raise Unsupported("loop changes handle")
        except LoopExit:
            for leaf, f in self.forms.items():
                if f[0] == "repl":
                    self.repl_exit(leaf)
                elif f[0] == "acc":
                    self.acc_exit(leaf)
            return
        if self.phased and self.ended(self.hg):
            self.tail(heap0)
            return
        self.leave(heap0)
        if I_.env == env0 and not I_.quiet:
            self.progress(heap0)
        raise PathEnd()

    def progress(self, heap0):
        """an iteration in which the environment decided nothing has changed something: otherwise the loop never ends"""
        I_ = self.I
        goals = [FALSE]
        for leaf in self.modnow(heap0):
            w, v = self.get(leaf), (self.hg.get(leaf[1]) if leaf[0] == "g" else self.hh[leaf[1]].vals.get(leaf[2], UNINIT))
            f = self.forms.get(leaf, ("",))[0]
            if isinstance(w, Ptr) and isinstance(v, Ptr) and w.bid == v.bid:
                w, v = w.off, v.off
            elif isinstance(w, Rec) and isinstance(v, Rec) and w.kind == v.kind == "iter":
                w, v = w.pos, v.pos
            elif isinstance(w, SStream) and isinstance(v, SStream):
                w, v = w.s, v.s
            if isinstance(w, (CharArr, IntArr)) or w is UNINIT or v is UNINIT:
                continue
            if not (isinstance(w, Term) and isinstance(v, Term) and w.sort == v.sort):
                return
            if w.sort == "S":
                goals.append(Not(eqI(length(w), length(v))))
                if f not in ("havoc", ""):
                    continue
                goals.append(Not(eq(w, v)))
            else:
                goals.append(Not(eq(w, v)))
        I_.oblige(Or(*goals), "each iteration makes progress", "progress")

    def tail(self, heap0):
        """an iteration has ended the connection: the remaining ones must change nothing but the counters"""
        I_ = self.I
        k1 = ivar("kt!%d" % self.c0)
        I_.assume(And(gt(k1, self.k), le(k1, I(1 << 56))))
        self.noleak(heap0)
        for leaf, f in sorted(self.forms.items(), key=lambda x: str(x[0])):
            if f[0] == "lin":
                w, e = self.get(leaf), self.at(leaf, add(self.k, I(1)))
                if (w if isinstance(w, Term) else repr(w)) == (e if isinstance(e, Term) else repr(e)):
                    self.put(leaf, self.at(leaf, k1))
        I_.ctr += 1
        heap0 = set(I_.heap)
        self.hh, self.hg = dict(I_.heap), dict(I_.ghost)
        try:
            self.superbody()
        except LoopExit:
            return
        I_.settle()
        for leaf in self.modnow(heap0):
            w = self.get(leaf)
            if self.forms.get(leaf, ("",))[0] != "lin":
                raise Unsupported("loop changes %s after the connection was closed" % self.nm(leaf))
            I_.oblige(eq(w, self.at(leaf, add(k1, I(1)))) if isinstance(w, Term) else B(repr(w) == repr(self.at(leaf, add(k1, I(1))))), "loop invariant: %s" % self.nm(leaf), "loop")
        self.noleak(heap0)
        raise PathEnd()

    def leave(self, heap0):
        """back at the head: the invariant must hold again"""
        I_ = self.I
        k1 = add(self.k, I(1))
        m = self.endmap()
        for leaf in self.modnow(heap0):
            if leaf not in self.forms:
                # the analysis has not seen this change (e.g. on a path it considered impossible)
                raise Unsupported("loop changes %s unexpectedly" % self.nm(leaf))
        for q in self.inv:
            I_.oblige(subst(q, m), "loop invariant is preserved", "loop")
        for leaf, f in sorted(self.forms.items(), key=lambda x: str(x[0])):
            w = self.get(leaf)
            nm = self.nm(leaf)
            if f[0] == "lin":
                e = self.at(leaf, k1)
                if isinstance(w, Term):
                    I_.oblige(eqI(w, e), "loop invariant: %s" % nm, "loop")
                elif isinstance(w, Ptr):
                    I_.oblige(And(B(w.bid == e.bid), eqI(w.off, e.off)), "loop invariant: %s" % nm, "loop")
                else:
                    I_.oblige(eqI(w.pos, e.pos), "loop invariant: %s" % nm, "loop")
            elif f[0] in ("fold", "gfold", "prefix"):
                e = strv(self.at(leaf, k1))
                guarded = f[0] == "gfold" or f[0] == "prefix" and f[2]
                if guarded:
                    c = self.get(("g", "clean"))
                    if not I_.decide(c):
                        continue
                I_.oblige_eq(strv(w), e, "loop invariant: %s" % nm, "loop")
            elif f[0] == "map":
                I_.oblige(le(k1, length(self.v0[leaf])), "loop invariant: size of %s" % nm, "loop")
                I_.oblige_eq(strv(w), self.at(leaf, k1), "loop invariant: %s" % nm, "loop")
            elif f[0] == "cut":
                e = self.cut(leaf, w)
                if e is None:
                    raise Unsupported("loop changes %s to %r" % (nm, w))
                I_.oblige(And(ge(e[0], I(0)), ge(e[1], I(0)), le(add(*e), length(self.v0[leaf]))), "loop invariant: size of %s" % nm, "loop")
            elif f[0] == "alt":
                I_.oblige(B(w == f[1]), "loop invariant: %s" % nm, "loop")
            elif f[0] == "grow":
                I_.oblige_eq(strv(w), strv(self.grown(leaf, subst(f[2], m))), "loop invariant: %s" % nm, "loop")
            elif f[0] == "repl":
                sides = self.repl_sides(leaf)
                if sides is None:
                    raise Unsupported("replacement loop loses its place")
                I_.oblige_eq(*sides, "loop invariant: %s" % nm, "loop")
            elif f[0] == "acc":
                sides = self.acc_sides(leaf)
                if sides is None:
                    raise Unsupported("replacement loop loses its place")
                I_.oblige_eq(*sides, "loop invariant: %s" % nm, "loop")
            elif f[0] in ("prev", "cyc"):
                I_.oblige(eq(w, self.at(leaf, k1)), "loop invariant: %s" % nm, "loop")
            elif f[0] == "eq":
                I_.oblige_eq(strv(w), strv(self.get(f[1])), "loop invariant: %s" % nm, "loop")
            elif f[0] == "own":
                self.check_own(leaf, f, w)
            elif f[0] == "lazytag":
                if not self.tagged(self.v0[leaf], [w]):
                    raise Unsupported("loop changes %s to %r" % (nm, w))
            elif f[0] == "seg":
                self.check_seg(leaf, f, w)
            elif f[0] == "havoc":
                v = self.v0[leaf]
                if isinstance(v, CharArr):
                    if not isinstance(w, CharArr):
                        raise Unsupported("loop replaces %s" % nm)
                    I_.oblige(eqI(length(w.s), length(v.s)), "loop invariant: size of %s" % nm, "loop")
                elif v is UNINIT or isinstance(v, IntArr):
                    pass
                elif isinstance(v, Ptr) and v.bid is not None:
                    if not (isinstance(w, Ptr) and (w.bid, w.path) == (v.bid, v.path)):
                        raise Unsupported("loop changes %s to %r" % (nm, w))
                elif type(w) is not type(v) or isinstance(v, SegArr):
                    raise Unsupported("loop changes %s to %r" % (nm, w))
            if leaf in self.nonul:
                I_.oblige(B(not has(strv(w), 0)), "loop invariant: %s has no NUL" % nm, "loop")
        keep = set()
        for leaf, f in self.forms.items():
            if f[0] == "own":
                w = self.get(leaf)
                if isinstance(w, Ptr):
                    keep.add(w.bid)
        self.noleak(heap0, keep)
        for fam, (i0, idx) in self.dead.items():
            ok = any(b.meta.get("fam") == fam and not b.alive and I_.eqP(b.meta["index"], idx) for b in I_.heap.values())
            I_.oblige(B(ok), "each iteration destroys its element", "loop")

    def noleak(self, heap0, keep=()):
        I_ = self.I
        held = {v.bid for b in I_.heap.values() for v in b.vals.values() if isinstance(v, Ptr)} if keep == () else ()
        for bid, b in I_.heap.items():
            if bid.startswith("own:") and bid.endswith("!%d" % self.c0) and b.alive and not any(isinstance(v, Ptr) and v.bid == bid for x in I_.heap.values() if x.alive for v in x.vals.values()):
                I_.oblige(FALSE, "no memory is leaked by an iteration", "frame")
            if bid in heap0 or not b.alive or b.kind not in ("new", "new[]") or b.meta.get("famobj") or bid in keep or bid in getattr(self, "absorbed", ()):
                continue
            if bid.startswith(("lazy:", "own:")):
                continue
            if bid in held:
                continue
            I_.oblige(FALSE, "no memory is leaked by an iteration", "frame")

    def modnow(self, heap0):
        o = Out()
        o.heap, o.ghost = self.I.heap, self.I.ghost
        o.hheap, o.hghost = self.hh, self.hg
        return [l for l in self.modified(o) if l[0] == "g" or l[1] in heap0]

    def check_own(self, leaf, f, w):
        I_ = self.I
        nm = self.nm(leaf)
        if isinstance(w, Rec) and w.kind == "lazy":
            return
        if isinstance(w, Ptr) and w.bid is None:
            I_.oblige(B(f[1] == "maybe"), "loop invariant: %s is not null" % nm, "loop")
            return
        b = I_.heap.get(w.bid) if isinstance(w, Ptr) else None
        if b is None or not b.alive or b.kind != "new[]" or w.off is not I(0):
            I_.oblige(FALSE, "loop invariant: %s designates live memory" % nm, "loop")
            return
        I_.cstr(w)

    def check_seg(self, leaf, f, w):
        I_ = self.I
        i0, gen, fam = f[2]
        nm = self.nm(leaf)
        i = add(i0, self.k)
        h = self.hh[leaf[1]].vals.get(leaf[2])
        was = h.segs if isinstance(h, SegArr) else ()
        for s in w.segs:
            if s.kind == "one" and s not in was:
                if not I_.eqP(s.lo, i):
                    raise Unsupported("array element written out of turn")
                p = s.gen["ptr"]
                g = self.objgen(I_.heap, p, w.cls)
                if g is None or set(g) != set(gen):
                    I_.oblige(FALSE, "every element of %s is a complete object of its own" % nm, "loop")
                    return
                for q, t in g.items():
                    e = subst(gen[q], {Seg.J: i})
                    if t.sort == "S":
                        I_.oblige_eq(t, e, "loop invariant: elements of %s" % nm, "loop")
                    else:
                        I_.oblige(eq(t, e), "loop invariant: elements of %s" % nm, "loop")
                self.absorbed = {p.bid} | {v.bid for v in I_.heap[p.bid].vals.values() if isinstance(v, Ptr)}


def resub(I_, t):
    """the same term, its substrings taken apart as far as the facts of the path allow"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r.op == "sub" and r.args[0].op == "cat":
                s, o, n = r.args
                if I_.proves(And(ge(o, I(0)), ge(n, I(0)), le(add(o, n), length(s)))):
                    r = I_.sub(s, o, n)
            memo[x] = r
        return r
    return go(t)


def carve(I_, segs, lo, hi, new):
    """replace [lo,hi) by the segment new; the region lies inside one segment that contains lo"""
    out = []
    done = False
    for s in segs:
        if not done and (I_.eqP(s.lo, lo) or I_.leP(s.lo, lo) and not I_.leP(s.hi, lo)):
            if not I_.eqP(s.lo, lo):
                out.append(Seg(s.lo, lo, s.kind, s.fam, s.gen, s.cls))
            out.append(new)
            out.append(Seg(hi, s.hi, s.kind, s.fam, s.gen, s.cls))
            done = True
        else:
            out.append(s)
    return tuple(out)


def strv(v):
    return v.s if isinstance(v, (SStream, CharArr)) else v


def intdelta(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        d = sub(y, x)
        if d.op == "int":
            return d.args[0]
        if y.op == "mod" and y.args[1] >= 1 << 31:
            # a guess: no wrap-around (verified like every closed form)
            k = y.args[1]
            d = sub(y.args[0], x)
            if d.op == "int":
                d = d.args[0] % k
                return d - k if d > k // 2 else d
        return None
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid == y.bid and x.path == y.path:
        return intdelta(x.off, y.off)
    if isinstance(x, Rec) and isinstance(y, Rec) and x.kind == y.kind == "iter":
        return intdelta(x.pos, y.pos)
    return None


def strip(x, y):
    """y = x ++ d: d"""
    if x is y:
        return EMPTY
    if y.op == "ite":
        a, b = strip(x, y.args[1]), strip(x, y.args[2])
        if a is None or b is None:
            return None
        return ite(y.args[0], a, b)
    xa, ya = list(atoms(x)), list(atoms(y))
    if len(ya) < len(xa):
        return None
    k = 0
    for p, q in zip(xa, ya):
        if p is q:
            k += 1
            continue
        if k == len(xa) - 1 and p.op == "str" and q.op == "str" and q.args[0].startswith(p.args[0]):
            return cat(S(q.args[0][len(p.args[0]):]), *ya[k + 1:])
        return None
    return cat(*ya[k:])


def flat(f):
    if f.op == "and":
        return [y for x in f.args for y in flat(x)]
    return [f]
