"""The symbolic machine: heap of blocks, ghost state, path condition,
decisions, obligations.

One path is followed at a time; `explore` re-runs a thunk from a snapshot once
for every feasible sequence of decisions.  Obligations are emitted when the
path first reaches them; what the linear prover does not close at once is
queued for the string solvers.
"""
from .terms import *
from .smt import Lia, STATS


class PathEnd(Exception):
    """the rest of this path is cut (already covered by an induction hypothesis or infeasible)"""


class Unsupported(Exception):
    """construct outside the verifier's reach: the function is handed to the bounded stand-in"""


class Bad(Exception):
    """the path hits definite undefined behaviour; nothing after it is meaningful"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Peek(Exception):
    """a condition that is being looked at is not settled by the path"""


class Throw(Exception):
    def __init__(self, typ, val=None):
        self.typ = typ
        self.val = val


# ------------------------------------------------------------------ values
class V:
    pass


class Ptr(V):
    __slots__ = ("bid", "path", "off")

    def __init__(self, bid, path=(), off=None):
        self.bid, self.path, self.off = bid, path, (I(0) if off is None else off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.bid, self.path, self.off) == (o.bid, o.path, o.off)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.bid, self.path, self.off))

    def __repr__(self):
        if self.bid is None:
            return "NULL"
        return "&%s%s+%s" % (self.bid, self.path or "", self.off)


NULL = Ptr(None)


class Opq(V):
    """opaque non-null handle (SSL*, BIO*, CTX*, hostent*): identified by a tag"""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Opq) and o.tag == self.tag

    def __hash__(self):
        return hash(("opq", self.tag))

    def __repr__(self):
        return "<%s>" % (self.tag,)


class FnPtr(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(("fn", self.name))

    def __repr__(self):
        return "fn:%s" % (self.name,)


class CharArr(V):
    """contents of a char array: a byte string of exactly the array's size"""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, CharArr) and o.s is self.s

    def __hash__(self):
        return hash(("ca", self.s))

    def __repr__(self):
        return "chars(%s)" % (self.s,)


class IntArr(V):
    """small array of machine integers / pointers / objects indexed concretely"""

    def __init__(self, n, d, default=None):
        self.n, self.d, self.default = n, d, default

    def __eq__(self, o):
        return isinstance(o, IntArr) and o.n is self.n and o.d == self.d and o.default == self.default

    def __hash__(self):
        return hash(("ia", self.n))

    def __repr__(self):
        return "arr(%s,%s,%s)" % (self.n, self.d, self.default)


class Seg:
    """entries [lo,hi) of an array of owned objects.
    kind 'obj'   : gen(j) = {field: term} with bound variable J
    kind 'uninit': never written
    kind 'dead'  : pointers to destroyed objects"""
    J = ivar("?J")

    def __init__(self, lo, hi, kind, fam=None, gen=None, cls=None):
        self.lo, self.hi, self.kind, self.fam, self.gen, self.cls = lo, hi, kind, fam, gen, cls

    def key(self):
        return (self.lo, self.hi, self.kind, self.cls, None if self.gen is None else tuple(sorted(self.gen.items(), key=lambda x: x[0])))

    def __eq__(self, o):
        return isinstance(o, Seg) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key()[:3])

    def __repr__(self):
        return "[%s..%s:%s %s]" % (self.lo, self.hi, self.kind, self.gen)


class SegArr(V):
    """array of n pointers to (byval=False) or objects (byval=True) of class cls"""

    def __init__(self, n, cls, segs, byval=False):
        self.n, self.cls, self.segs, self.byval = n, cls, segs, byval

    def __eq__(self, o):
        return isinstance(o, SegArr) and (self.n, self.cls, self.segs, self.byval) == (o.n, o.cls, o.segs, o.byval)

    def __hash__(self):
        return hash(("sa", self.n))

    def __repr__(self):
        return "segs(%s,%s)" % (self.n, self.segs)


class VecV(V):
    """std::vector: explicit elements, a SegArr family, or (of strings) an opaque term"""

    def __init__(self, elems=None, arr=None, bag=None):
        self.elems, self.arr, self.bag = elems, arr, bag

    def __eq__(self, o):
        return isinstance(o, VecV) and (self.elems, self.arr, self.bag) == (o.elems, o.arr, o.bag)

    def term(self):
        """as a term (None: not a vector of strings)"""
        if self.bag is not None:
            return self.bag
        if self.elems is None or not all(isinstance(x, Term) and x.sort == "S" for x in self.elems):
            return None
        t = vnil()
        for x in self.elems:
            t = vpush(t, x)
        return t

    def size(self):
        return self.arr.n if self.arr is not None else vlen(self.bag) if self.bag is not None else I(len(self.elems))

    def __hash__(self):
        return 7

    def __repr__(self):
        return "vec(%s)" % (self.arr or self.bag or self.elems,)


class SStream(V):
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, SStream) and o.s is self.s

    def __hash__(self):
        return hash(("ss", self.s))

    def __repr__(self):
        return "stream(%s)" % (self.s,)


class Rec(V):
    """value of some library object, by kind"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __eq__(self, o):
        return isinstance(o, Rec) and o.__dict__ == self.__dict__

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "%s%s" % (self.kind, {k: v for k, v in self.__dict__.items() if k != "kind"})


class _U(V):
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()


class Loc:
    """lvalue: leaf (bid, path), optionally element idx of an array/string leaf"""
    __slots__ = ("bid", "path", "idx")

    def __init__(self, bid, path=(), idx=None):
        self.bid, self.path, self.idx = bid, path, idx

    def field(self, q):
        if self.idx is not None:
            raise Unsupported("field of array element")
        return Loc(self.bid, self.path + (q,))

    def __eq__(self, o):
        return isinstance(o, Loc) and (self.bid, self.path, self.idx) == (o.bid, o.path, o.idx)

    def __hash__(self):
        return hash((self.bid, self.path, self.idx))

    def __repr__(self):
        return "L(%s%s%s)" % (self.bid, self.path or "", "" if self.idx is None else "[%s]" % self.idx)


class Block:
    __slots__ = ("cls", "kind", "alive", "vals", "meta")

    def __init__(self, cls, kind, vals=None, alive=True, meta=None):
        self.cls, self.kind, self.alive = cls, kind, alive
        self.vals = vals if vals is not None else {}
        self.meta = meta or {}

    def copy(self):
        return Block(self.cls, self.kind, dict(self.vals), self.alive, dict(self.meta))


class Ob:
    """one proof obligation"""
    __slots__ = ("name", "kind", "loc", "goal", "facts", "status", "by", "secs", "out", "props", "func", "path")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Machine:
    def __init__(self, regexes=None):
        self.lia = Lia()
        self.facts = []
        self.factset = set()
        self.heap = {}
        self.spans = {}
        self.tails = []
        self.rotate = False
        self.ghost = {}
        self.ctr = 0
        self.env = 0
        self.quiet = 0
        self.obs = []
        self.obkeys = {}
        self.func = "?"
        self.line = 0
        self.prefix, self.pos, self.trace, self.pending = [], 0, [], []
        self.frames = []
        self.regexes = regexes if regexes is not None else {}
        self.npaths = 0
        self.maxpaths = 4000
        self.mustsplit = True
        self.default_props = ()
        self.rw = {}
        self.budget = None
        self.h0 = None
        self.noapply = set()
        self.views = None
        self.ncomplete = 0
        self.peeking = 0
        self.peek_replay = False
        self.unsup = []
        self.dlog = []

    # ---------------------------------------------------------- names
    def fresh(self, base="t"):
        self.ctr += 1
        return "%s!%d" % (base, self.ctr)

    def newI(self, base, lo=None, hi=None):
        v = ivar(self.fresh(base))
        if lo is not None:
            self.assume(ge(v, I(lo)))
        if hi is not None:
            self.assume(le(v, I(hi)))
        return v

    def newB(self, base):
        return bvar(self.fresh(base))

    MAXLEN = 1 << 30

    def newS(self, base, cs=ALL, maxlen=None):
        v = svar(self.fresh(base), cs)
        self.assume(le(length(v), I(self.MAXLEN if maxlen is None else maxlen)))
        return v

    # ------------------------------------------------------- snapshots
    def snapshot(self):
        self.lia.push()
        return (dict(self.heap), dict(self.ghost), len(self.facts), self.ctr, dict(self.rw),
                [(f, dict(f.env), [list(s) for s in f.scopes], list(f.temps)) for f in self.frames], self.lia.depth(),
                None if self.h0 is None else dict(self.h0), list(self.cstack))

    def restore(self, s):
        heap, ghost, nf, ctr, rw, frames, d, h0, cst = s
        self.h0 = None if h0 is None else dict(h0)
        self.cstack = list(cst)
        self.lia.pop_to(d)
        self.lia.push()
        self.heap, self.ghost, self.rw = dict(heap), dict(ghost), dict(rw)
        for f in self.facts[nf:]:
            self.factset.discard(f)
        del self.facts[nf:]
        self.ctr = ctr
        self.frames = []
        for f, env, sc, tmp in frames:
            f.env, f.scopes, f.temps = dict(env), [list(x) for x in sc], list(tmp)
            self.frames.append(f)

    def release(self, s):
        """drop back to the state of the snapshot and forget it"""
        self.restore(s)
        self.lia.pop_to(s[6])

    # ------------------------------------------------------- branching
    def assume(self, f):
        if f is TRUE:
            return
        if f.op == "and":
            for x in f.args:
                self.assume(x)
            return
        if f in self.factset:
            return
        self.facts.append(f)
        self.factset.add(f)
        self.lia.add(f)
        self.learn(f)
        if f is FALSE:
            raise PathEnd()

    def peek(self, f):
        """(True, f()) when f runs without any open decision, else (False, None) and the state is as before"""
        snap = self.snapshot()
        nobs = len(self.obs)
        rep = self.replaying()
        saved = (self.peeking, self.peek_replay)
        self.peeking, self.peek_replay = 1, rep
        try:
            v = f()
        except Peek:
            self.peeking, self.peek_replay = saved
            if saved[0]:
                raise
            self.release(snap)
            del self.obs[nobs:]
            return False, None
        except BaseException:
            self.peeking, self.peek_replay = saved
            raise
        self.peeking, self.peek_replay = saved
        return True, v

    def learn(self, f):
        """equations between a string and a constant rewrite later comparisons"""
        if f.op == "eqS":
            a, b = f.args
            for x, y in ((a, b), (b, a)):
                if y.op == "str" and x.op != "str":
                    self.rw[x] = y

    def simp(self, c):
        """use what is known about whole atoms"""
        if c in self.factset:
            return TRUE
        if Not(c) in self.factset:
            return FALSE
        if c.op == "eqS":
            a, b = c.args
            if a in self.rw or b in self.rw:
                return eqS(self.rw.get(a, a), self.rw.get(b, b))
        return c

    def known(self, c):
        """True/False when the path condition settles c, else None"""
        c = self.simp(c)
        if c.op == "bool":
            return c.args[0]
        if c.op == "and":
            r = [self.known(x) for x in c.args]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
        if c.op == "or":
            r = [self.known(x) for x in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
        if not self.lia.sat_with(Not(c)):
            return True
        if not self.lia.sat_with(c):
            return False
        return None

    def proves(self, c):
        return self.known(c) is True

    def decide(self, c):
        c = self.simp(c)
        if c.op == "bool":
            return c.args[0]
        if c.op == "not":
            return not self.decide(c.args[0])
        return self._decide(c)

    def _decide(self, c):
        if self.peeking:
            t = self.lia.sat_with(c)
            f = self.lia.sat_with(Not(c))
            if t and f:
                raise Peek()
            if not t and not f:
                raise PathEnd()
            return t
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(b)
            if b is True or b is False:
                self.dlog.append((c, b))
                self.assume(c if b else Not(c))
                return b
            return b == "T"
        self.tick()
        t = self.lia.sat_with(c)
        f = self.lia.sat_with(Not(c))
        self.pos += 1
        if t and f:
            self.pending.append(self.trace + [False])
            self.trace.append(True)
            self.dlog.append((c, True))
            self.assume(c)
            return True
        if not t and not f:
            raise PathEnd()
        self.trace.append("T" if t else "F")
        return t

    def tick(self):
        import time
        if self.budget is not None and time.time() > self.budget:
            raise Unsupported("time budget exhausted")

    def choose(self, n):
        """unconstrained n-way choice"""
        for i in range(n - 1):
            if self.choose2():
                return i
        return n - 1

    def choose2(self):
        if self.peeking:
            raise Peek()
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(b)
            self.dlog.append((None, b))
            return b
        self.pos += 1
        self.pending.append(self.trace + [False])
        self.trace.append(True)
        self.dlog.append((None, True))
        return True

    def explore(self, thunk):
        """run thunk along every path; yields (kind, value) with the final state in place"""
        snap = self.snapshot()
        saved = (self.prefix, self.pos, self.trace, self.pending)
        work = [[]]
        n = 0
        try:
            while work:
                pre = work.pop()
                self.restore(snap)
                self.prefix, self.pos, self.trace, self.pending = pre, 0, [], []
                n += 1
                if n > self.maxpaths:
                    raise Unsupported("too many paths")
                self.tick()
                try:
                    out = ("ok", thunk())
                except PathEnd:
                    out = ("cut", None)
                except Bad as e:
                    out = ("bad", str(e))
                except Ret as e:
                    out = ("ret", e.v)
                except Brk:
                    out = ("brk", None)
                except Cont:
                    out = ("cont", None)
                except Throw as e:
                    out = ("throw", e)
                work.extend(self.pending)
                self.prefix, self.pos, self.trace, self.pending = [], 0, [], []
                yield out
        finally:
            self.release(snap)
            self.prefix, self.pos, self.trace, self.pending = saved

    def replaying(self):
        if self.peeking:
            return self.peek_replay
        return self.pos < len(self.prefix)

    # ----------------------------------------------------- obligations
    def oblige(self, goal, name, kind="safety", props=None, hard=False):
        """emit `goal` as a proof obligation, then assume it"""
        if self.quiet or self.replaying():
            if not self.quiet or goal is not FALSE:
                self.assume(goal)
            if goal is FALSE:
                raise Bad(name)
            return
        goal = self.simp(goal)
        ob = Ob(name=name, kind=kind, loc=self.line, goal=goal, props=tuple(props if props is not None else self.default_props),
                func=self.func)
        if goal is TRUE:
            ob.status, ob.by, ob.secs = "proved", "simplifier", 0.0
        else:
            import time
            t0 = time.time()
            ok = self.lia.proves(goal)
            ob.secs = time.time() - t0
            if ok:
                ob.status, ob.by = "proved", "z3-lia"
            else:
                ob.status = "open"
                ob.facts = list(self.facts)
        self.obs.append(ob)
        if goal is FALSE:
            raise Bad(name)
        self.assume(goal)

    def oblige_eq(self, got, want, name, kind="post", props=None):
        """two byte strings are equal"""
        goal = self.simp(eqS(got, want))
        if goal is TRUE or self.quiet or self.replaying():
            return self.oblige(goal, name, kind, props)
        import time
        from .eqp import eqprove
        t0 = time.time()
        if goal is not FALSE and eqprove(self, got, want):
            self.obs.append(Ob(name=name, kind=kind, loc=self.line, goal=goal, func=self.func, status="proved", by="string-prover", secs=time.time() - t0,
                               props=tuple(props if props is not None else self.default_props)))
            self.assume(goal)
            return
        self.oblige(goal, name, kind, props)

    def simp_ite(self, t):
        """resolve the conditions the path settles"""
        from .eqp import first_ite, pick
        n = 0
        while n < 40:
            c = first_ite(t)
            if c is None:
                return t
            k = self.known(c)
            if k is None:
                return t
            t = pick(t, c, k)
            n += 1
        return t

    def ghostname(self, g):
        return {"tx": "the bytes sent"}.get(g, g)

    def finish_temps(self):
        pass

    def seg_same(self, a, b):
        if a == b:
            return True
        if (a.cls, a.byval) != (b.cls, b.byval) or not self.eqP(a.n, b.n):
            return False
        sa = [s for s in a.segs if not self.eqP(s.lo, s.hi)]
        sb = [s for s in b.segs if not self.eqP(s.lo, s.hi)]
        if len(sa) != len(sb):
            return False
        return all(x.kind == y.kind and x.gen == y.gen and x.fam == y.fam and self.eqP(x.lo, y.lo) and self.eqP(x.hi, y.hi) for x, y in zip(sa, sb))

    def fail(self, name, kind="safety", props=None):
        """this point must be unreachable"""
        self.oblige(FALSE, name, kind, props)
        raise Bad(name)

    # ------------------------------------------------------------ heap
    def alloc(self, cls, kind, vals=None, meta=None):
        self.ctr += 1
        bid = "%s#%d" % (cls.replace(" ", ""), self.ctr)
        self.heap[bid] = Block(cls, kind, vals, True, meta)
        return bid

    def blk(self, bid, what="access"):
        if bid is None:
            self.fail("null pointer dereference (%s)" % what)
        b = self.heap.get(bid)
        if b is None or not b.alive:
            self.fail("%s of memory that has been released" % what)
        return b

    def rawset(self, bid, path, v):
        b = self.heap[bid].copy()
        b.vals[path] = v
        self.heap[bid] = b

    def kill(self, bid):
        b = self.heap[bid].copy()
        b.alive = False
        self.heap[bid] = b
        for d, x in list(self.heap.items()):
            if x.alive and x.meta.get("of") == bid:
                self.kill(d)

    def leaf(self, loc, what="read"):
        b = self.blk(loc.bid, what)
        return b.vals.get(loc.path)

    # --------------------------------------------- string position logic
    def sub(self, s, off, n):
        """substring, known in range; looks through concatenations with the prover"""
        if n is I(0):
            return EMPTY
        if off is I(0) and (n is length(s) or self.eqP(n, length(s))):
            return s
        pre, rest = self.split(s, off)
        if rest is None:
            return mk_sub_raw(s, off, n)
        a, b = self.split(rest, n)
        if a is None or b is None:
            return mk_sub_raw(rest, I(0), n)
        return a

    def eqP(self, a, b):
        d = sub(a, b)
        if d.op == "int":
            return d.args[0] == 0
        return self.known(eqI(a, b)) is True

    def leP(self, a, b):
        return self.known(le(a, b)) is True

    def split(self, s, n):
        """(prefix of length n, remainder) as terms; n known within range"""
        if n is I(0):
            return EMPTY, s
        at = list(atoms(s))
        acc = I(0)
        for i, a in enumerate(at):
            if self.eqP(acc, n):
                return cat(*at[:i]), cat(*at[i:])
            nxt = add(acc, length(a))
            if self.eqP(nxt, n):
                return cat(*at[:i + 1]), cat(*at[i + 1:])
            if self.leP(nxt, n):
                acc = nxt
                continue
            if self.leP(n, nxt):
                k = sub(n, acc)
                if a.op == "str" and k.op == "int":
                    p = k.args[0]
                    return cat(*at[:i], S(a.args[0][:p])), cat(S(a.args[0][p:]), *at[i + 1:])
                l, r = mk_sub_raw(a, I(0), k), mk_sub_raw(a, k, sub(length(a), k))
                return cat(*at[:i], l), cat(r, *at[i + 1:])
            return mk_sub_raw(s, I(0), n), mk_sub_raw(s, n, sub(length(s), n))
        if self.eqP(acc, n):
            return s, EMPTY
        return mk_sub_raw(s, I(0), n), mk_sub_raw(s, n, sub(length(s), n))

    def byte(self, s, i):
        """code of byte i of s (in range)"""
        c = code(s, i)
        x, j = (s.args[0], add(s.args[1], i)) if s.op == "sub" else (s, i)
        for m, k, rev in self.spans.get(x, ()):
            # unfolding of the span at position i
            from .lib import in_mask
            w = in_mask(code(x, j), m)
            if rev:
                self.assume(Implies(And(ge(add(k, j, I(1)), length(x)), ge(j, I(0)), lt(j, length(x))), Iff(w, ge(add(k, j), length(x)))))
            else:
                self.assume(Implies(And(ge(k, j), ge(j, I(0)), lt(j, length(x))), Iff(w, ge(k, add(j, I(1))))))
        if c.op != "code" or c.args[0].op != "cat":
            return c
        pre, rest = self.split(s, i)
        at = atoms(rest)
        if at and self.proves(ge(length(at[0]), I(1))):
            return code(at[0], I(0))
        return c

    def until_nul(self, s, what="string"):
        """C-string view of a byte sequence: contents before the first NUL"""
        out = []
        at = list(atoms(s))
        for i, a in enumerate(at):
            if a.op == "sub" and a.args[0].op == "str" and "\0" in a.args[0].args[0]:
                # part of a constant that ends before its NUL
                z = a.args[0].args[0].index("\0")
                if self.proves(le(add(a.args[1], a.args[2]), I(z))):
                    a = mk_sub_raw(S(a.args[0].args[0][:z]), a.args[1], a.args[2])
            if not has(a, 0):
                out.append(a)
                continue
            if a.op == "str":
                p = a.args[0].index("\0")
                out.append(S(a.args[0][:p]))
                return cat(*out)
            # an atom that may hold a NUL: is there a certain NUL later on?
            certain = False
            for b in at[i + 1:]:
                if b.op == "str" and "\0" in b.args[0]:
                    certain = True
                    break
            upto = []
            for b in at[i:]:
                if b.op == "str" and "\0" in b.args[0]:
                    upto.append(S(b.args[0][:b.args[0].index("\0")]))
                    break
                upto.append(b)
            u = cat(*upto)
            if not certain:
                nz = contains(u, S("\0"))
                self.oblige(nz, "C string is terminated inside its buffer (%s)" % what)
            out.append(self.nulpre(u))
            return cat(*out)
        self.fail("C string is terminated inside its buffer (%s)" % what)

    def nulpre(self, u):
        """u up to (not including) its first NUL; all of u when there is none"""
        if not has(u, 0):
            return u
        if u.op == "str":
            return S(u.args[0].split("\0")[0])
        if atoms(u)[0] is not u:
            at = list(atoms(u))
            k = 0
            while k < len(at) and not has(at[k], 0):
                k += 1
            if k:
                return cat(*at[:k], self.nulpre(cat(*at[k:])))
        t = ufS("nulpre", [u], charset(u) & NONUL)
        self.assume(le(length(t), length(u)))
        return t

    def __len__(self):
        return len(self.obs)


class Tail:
    """a recursively defined predicate of the specification over texts; unfold(I_, s) assumes its definition at s.
    word: the fixed word the predicate looks for, if any"""

    def __init__(self, name, unfold, word=None):
        self.name, self.unfold, self.word = name, unfold, word

    def __call__(self, s):
        return ufB(self.name, [s])
