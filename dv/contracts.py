"""Function contracts: executable specifications, used in two modes.

verify : a symbolic pre-state satisfying the precondition is built, the real
         body is executed over it, and the outcome (return value or exception,
         every declared effect, the frame, ownership of every allocation) is
         compared with the specification; each comparison is an obligation.
apply  : at a call site the precondition is obliged and the effects are
         performed on the caller's state; the body is not looked at."""
from .terms import *
from .machine import *
from .interp import base_type, Frame, INTS, STRING
from .lib import cmp3


class Spec:
    def __init__(self, name, fn, props, ptypes=None, apply=True, verify=True, const=None, cls=None, tag=None, key=None, shards=1):
        self.name, self.fn, self.props, self.ptypes, self.apply, self.verify = name, fn, tuple(props), ptypes, apply, verify
        self.const, self.cls, self.tag, self.shards = const, cls, tag, shards
        self.id = name + ("(%s)" % ",".join(ptypes) if ptypes is not None else "")

    def matches(self, f):
        if f["name"] != self.name:
            return False
        return self.ptypes is None or [plain(t) for t in self.ptypes] == [plain(t) for t in f["ptypes"]]


def plain(t):
    """parameter type without a top-level const"""
    t = t.strip()
    if t.startswith("const ") and not t.endswith(("&", "*")):
        t = t[6:]
    return t[:-5].strip() if t.endswith("*const") else t


class Contracts:
    def __init__(self):
        self.specs = []
        self.virt = {}
        self.groups = {}
        self.by = {}

    def add(self, spec):
        self.specs.append(spec)
        self.by.setdefault(spec.name, []).append(spec)

    def find(self, f):
        for s in self.by.get(f["name"], ()):
            if s.matches(f):
                return s
        return None

    def lookup(self, f, I_):
        s = self.find(f)
        if s is None or not s.apply:
            return None
        if s.id in I_.noapply:
            return None
        return s

    def virtual(self, f):
        return self.virt.get(f["name"].split("::")[-1])

    def group(self, g):
        return self.groups[g]

    def apply(self, I_, spec, fn, this, vals, retloc):
        c = Ctx(I_, spec, fn, "apply")
        c.this, c.vals, c.retloc = this, vals, retloc
        line = I_.line
        spec.fn(c)
        I_.line = line
        return c.result


class Ctx:
    """what a specification talks to"""

    def __init__(self, I_, spec, fn, mode):
        self.I, self.spec, self.f, self.mode = I_, spec, fn, mode
        self.verify = mode == "verify"
        self.this = None
        self.vals = [None] * len(fn["params"] if fn and "params" in fn else fn["ptypes"] if fn else ())
        self.retloc = None
        self.result = None
        self.outcome = None
        self.touched = set()
        self.released = set()
        self.owned = set()
        self.relfams = set()
        self.ran = False
        self.exc = False
        self.names = {}

    # ------------------------------------------------------------ logic
    def split(self, bits):
        """divides the verification of a long contract over worker processes by conditions that are settled on every path"""
        if not self.verify or self.I.shard is None:
            return
        i, n = self.I.shard
        if sum(1 << k for k, b in enumerate(bits) if b) % n != i:
            raise PathEnd()

    def decide(self, c):
        return self.I.decide(c)

    def ensure(self, goal, name, props=None):
        """postcondition clause: obliged when verifying, assumed when applying"""
        if self.verify:
            self.I.oblige(goal, name, "post", props)
        else:
            self.I.assume(goal)

    def require(self, goal, name):
        if self.verify:
            self.I.assume(goal)
        else:
            self.I.oblige(goal, "precondition of %s: %s" % (self.spec.name, name), "pre")

    # ----------------------------------------------------------- inputs
    def fresh_of(self, t, name):
        I_ = self.I
        t = base_type(t)
        if t == "bool":
            return I_.newB(name)
        if t == STRING:
            return I_.newS(name)
        if t in INTS:
            bits, sg = INTS[t]
            return I_.newI(name, -(1 << bits - 1) if sg else 0, (1 << (bits - 1 if sg else bits)) - 1)
        if not t.endswith("*"):
            return I_.newI(name, 0, 64)
        raise Unsupported("no view for type %s" % t)

    def new_cstr(self, name, kind="new[]", term=None):
        I_ = self.I
        s = term if term is not None else I_.newS(name, NONUL)
        bid = I_.alloc("char", kind, {(): CharArr(cat(s, "\0"))}, {"const": True} if kind == "caller" else None)
        return Ptr(bid)

    def field(self, loc, short):
        """location of a field by its short name"""
        for q, t in self.I.prog.allfields(self.I.heap[loc.bid].cls if not loc.path else self.I.path_type(self.I.heap[loc.bid].cls, loc.path)):
            if q.split("::")[-1] == short:
                return loc.field(q)
        raise Unsupported("no field %s" % short)

    def obj(self, cls, name, valid=True, kind="caller", dyn=None, loc=None):
        """a symbolic object of a class under its representation invariant"""
        I_ = self.I
        if loc is None:
            bid = I_.alloc(cls, kind, {}, {"dyn": dyn} if dyn else None)
            loc = Loc(bid)
        I_.views.build(self, cls, loc, name, valid)
        return loc

    def pname(self, i):
        ps = self.f.get("params")
        return ps[i]["name"] if ps else None

    def arg_cstr(self, i, nullable=False, name=None, alias=None):
        """C string argument; alias: may also be the text this field owns"""
        I_ = self.I
        if self.verify:
            nm = name or self.pname(i) or "a%d" % i
            if alias is not None and I_.choose2():
                s = self.get_cstr(self.field(self.this, alias))
                if s is None:
                    raise PathEnd()
                self.vals[i] = self.leaf(self.field(self.this, alias))
                return s
            if nullable and I_.choose2():
                self.vals[i] = NULL
                I_.assume(Not(bvar("nonnull:" + nm)))
                return None
            if nullable:
                I_.assume(bvar("nonnull:" + nm))
            self.vals[i] = self.new_cstr(nm, "caller")
            self.names[nm] = i
            return I_.heap[self.vals[i].bid].vals[()].s.args[0] if False else I_.cstr(self.vals[i])
        v = self.vals[i]
        if isinstance(v, Rec) and v.kind == "lazy":
            v = v.make(I_)
        if isinstance(v, Ptr) and v.bid is None:
            if nullable:
                return None
            I_.fail("precondition of %s: argument %d is not null" % (self.spec.name, i + 1), "pre")
        return I_.cstr(v)

    def arg_int(self, i, lo=None, hi=None):
        I_ = self.I
        if self.verify:
            p = self.f["params"][i]
            v = self.fresh_of(p["type"], p["name"])
            if lo is not None:
                I_.assume(ge(v, I(lo)))
            if hi is not None:
                I_.assume(le(v, I(hi)))
            t = p["type"]
            if t.endswith("&"):
                bid = I_.alloc("par", "caller", {(): v}, {"const": True} if t.startswith("const") else None)
                self.vals[i] = Loc(bid)
            else:
                self.vals[i] = v
            return v
        v = self.vals[i]
        if isinstance(v, Loc):
            v = I_.load(v)
        return v

    arg_bool = arg_int

    def arg_str(self, i):
        """std::string by value or by const reference"""
        I_ = self.I
        if self.verify:
            p = self.f["params"][i]
            s = I_.newS(p["name"])
            if p["type"].endswith("&"):
                bid = I_.alloc("string", "caller", {(): s})
                self.vals[i] = Loc(bid)
            else:
                self.vals[i] = s
            return s
        v = self.vals[i]
        if isinstance(v, Loc):
            v = I_.load(v)
        return v

    def arg_obj(self, i, cls, alias=False, valid=True, dyn=None):
        """reference to an object; may be the receiver itself"""
        I_ = self.I
        if self.verify:
            if alias and self.this is not None and I_.choose2():
                self.vals[i] = self.this
                return self.this
            self.vals[i] = self.obj(cls, self.pname(i) or "o%d" % i, valid, dyn=dyn)
            return self.vals[i]
        v = self.vals[i]
        if isinstance(v, Ptr):
            v = I_.deref(v)
        return v

    def this_obj(self, valid=True, raw=False, dyn=None, cls=None):
        I_ = self.I
        if self.verify:
            cls = cls or self.f["cls"]
            if raw:
                self.this = Loc(I_.alloc(cls, "caller", {}))
            else:
                self.this = self.obj(cls, "this", valid, dyn=dyn)
        return self.this

    # --------------------------------------------------- reading a state
    def leaf(self, loc):
        I_ = self.I
        v = I_.load(loc)
        return v

    def get_cstr(self, loc):
        """C string owned by a field; None for a null pointer"""
        v = self.leaf(loc)
        if isinstance(v, Ptr) and v.bid is None:
            return None
        return self.I.cstr(v)

    # -------------------------------------------------------------- body
    def body(self):
        self.ran = True
        I_ = self.I
        self.ghost0 = dict(I_.ghost)
        if not self.verify:
            return
        I_.h0 = {k: b.copy() for k, b in I_.heap.items()}
        f = self.f
        ret = f["ret"]
        if I_.isrec(base_type(ret)) and not ret.endswith(("&", "*")) and not f.get("ctor"):
            self.retloc = Loc(I_.alloc(base_type(ret), "caller", {}))
            I_.h0[self.retloc.bid] = I_.heap[self.retloc.bid].copy()
            self.fresh_ret = True
        I_.frames.append(Frame(None))
        I_.func = self.spec.id
        try:
            impl = I_.prog.funcs.get(f["key"])
            if impl is None or impl.get("body") is None:
                if not (f.get("defaulted") or f.get("implicit")):
                    raise Unsupported("no body for %s" % f["name"])
                v = I_.defaulted(f, self.this, self.vals)
            else:
                v = I_.run_body(impl, self.this, self.vals, self.retloc)
            self.outcome = ("ret", v)
        except Throw as e:
            self.outcome = ("throw", e.typ)
        I_.frames.pop()
        I_.line = f.get("endline") or I_.line

    def throws(self, cond, typ="std::invalid_argument", name=None):
        """the function throws typ exactly when cond holds, and then has no effect"""
        I_ = self.I
        b = I_.decide(cond)
        if self.verify:
            if b:
                ok = self.outcome[0] == "throw" and I_.catches(typ, self.outcome[1])
                I_.oblige(B(ok), name or "the call is rejected with %s" % typ, "post")
                self.exc = True
                return True
            if self.outcome[0] == "throw":
                I_.fail(name or "no exception for a valid call", "post")
            return False
        if b:
            raise Throw(typ)
        return False

    # ----------------------------------------------------------- effects
    def h1(self, loc):
        return self.I.heap[loc.bid].vals.get(loc.path, UNINIT)

    def old(self, loc):
        return self.I.h0[loc.bid].vals.get(loc.path, UNINIT)

    def touch(self, loc):
        self.touched.add((loc.bid, loc.path))

    def nm(self, loc):
        return loc.path[-1].split("::")[-1] if loc.path else "object"

    def release(self, loc):
        """the allocation held by this pointer is freed"""
        I_ = self.I
        if self.verify:
            p = self.old(loc) if loc.bid in I_.h0 else UNINIT
            self.release_val(p, self.nm(loc))
        else:
            p = I_.heap[loc.bid].vals.get(loc.path, UNINIT)
            if isinstance(p, Ptr) and p.bid is not None and p.bid in I_.heap and I_.heap[p.bid].alive:
                self.kill_deep(p.bid)
            elif isinstance(p, Rec) and p.kind == "lazy":
                I_.rawset(loc.bid, loc.path, Rec("deadptr", why="released"))

    def release_val(self, p, what):
        I_ = self.I
        if isinstance(p, Ptr) and p.bid is not None and p.bid in I_.h0 and I_.h0[p.bid].alive and I_.h0[p.bid].kind in ("new", "new[]"):
            self.released.add(p.bid)
            alive = I_.heap[p.bid].alive
            if alive:
                I_.oblige(FALSE, "the previous value of %s is released (no leak)" % what, "post")
            for q, v in I_.h0[p.bid].vals.items():
                self.release_val(v, what)
                if isinstance(v, SegArr):
                    self.relfams |= {s.fam for s in v.segs}

    def kill_deep(self, bid):
        I_ = self.I
        for q, v in list(I_.heap[bid].vals.items()):
            if isinstance(v, Ptr) and v.bid is not None and v.bid in I_.heap and I_.heap[v.bid].alive and I_.heap[v.bid].kind in ("new", "new[]"):
                self.kill_deep(v.bid)
        I_.kill(bid)

    def set_owned(self, loc, s, release=True):
        """the field owns a fresh C string equal to s (None: null pointer)"""
        I_ = self.I
        self.touch(loc)
        if self.verify:
            n = self.nm(loc)
            p = self.h1(loc)
            if isinstance(p, Rec) and p.kind == "lazy":
                p = I_.force(loc, p)
            if s is None:
                I_.oblige(B(isinstance(p, Ptr) and p.bid is None), "%s is null" % n, "post")
            else:
                self.check_owned(p, s, n)
            if release and loc.bid in I_.h0 and self.old(loc) is not UNINIT:
                if self.old(loc) != p:
                    self.release(loc)
            return
        if release:
            self.release(loc)
        I_.store(loc, NULL if s is None else self.new_cstr("c", "new[]", s))

    def check_owned(self, p, s, n):
        I_ = self.I
        if not isinstance(p, Ptr):
            if isinstance(p, _UNI) or p is UNINIT:
                I_.fail("%s is set" % n, "post")
            if isinstance(p, Rec) and p.kind == "deadptr":
                I_.fail("%s designates live memory" % n, "post")
            raise Unsupported("%s holds %r" % (n, p))
        if p.bid is None:
            I_.oblige(FALSE, "%s is not null" % n, "post")
        b = I_.heap.get(p.bid)
        ok = b is not None and b.alive
        I_.oblige(B(ok), "%s designates live memory" % n, "post")
        ok = b.kind == "new[]" and p.off is I(0)
        I_.oblige(B(ok), "%s is an allocation that delete[] can release" % n, "post")
        I_.oblige(B(p.bid not in self.owned), "%s is not shared with another owner" % n, "post")
        if p.bid in I_.h0 and I_.h0[p.bid].alive:
            # an allocation of the pre-state: must be one this call was allowed to take
            pass
        self.owned.add(p.bid)
        for q in (p.bid,):
            self.touched.add((q, ()))
        got = I_.cstr(p)
        self.eq_str(got, s, "%s holds the right text" % n)

    def eq_str(self, got, want, name, props=None):
        self.I.oblige_eq(got, want, name, "post", props)

    def set_val(self, loc, v):
        """the field holds this value (integer, boolean, string, pointer)"""
        I_ = self.I
        self.touch(loc)
        if self.verify:
            w = self.h1(loc)
            n = self.nm(loc)
            if w is UNINIT:
                I_.fail("%s is set" % n, "post")
            if isinstance(v, Term):
                if v.sort == "S":
                    self.eq_str(w, v, "%s holds the right text" % n)
                else:
                    I_.oblige(eq(w, v), "%s has the right value" % n, "post")
            else:
                I_.oblige(B(w == v), "%s has the right value" % n, "post")
            return
        I_.store(loc, v)

    def set_any(self, loc, v=None):
        """the field may change arbitrarily (to v when applying)"""
        self.touch(loc)
        if not self.verify and v is not None:
            self.I.store(loc, v)

    def ret(self, v, name="the result is right", props=None):
        I_ = self.I
        if not self.verify:
            self.result = v
            return
        got = self.outcome[1]
        if isinstance(v, Term):
            if isinstance(got, Loc):
                got = I_.load(got)
            if not isinstance(got, Term):
                raise Unsupported("result %r" % (got,))
            if v.sort == "S":
                self.eq_str(got, v, name, props)
            else:
                if v.sort == "B" and got.sort == "I":
                    got = Not(eqI(got, I(0)))
                I_.oblige(eq(got, v), name, "post", props)
        else:
            if isinstance(got, Rec) and got.kind == "lazy":
                got = got.make(I_)
            I_.oblige(B(got == v), name, "post", props)

    def ret_any(self, v):
        """the result is whatever it is (v when applying)"""
        if self.verify:
            return self.outcome[1]
        self.result = v
        return v

    def ret_cstr(self, s, name="the result is the right text", owned=False, props=None):
        """returns a pointer to a C string equal to s (None: null pointer)"""
        I_ = self.I
        if not self.verify:
            if s is None:
                self.result = NULL
            elif owned:
                self.result = self.new_cstr("r", "new[]", s)
            else:
                self.result = I_.temp_cstr(s)
            return
        p = self.outcome[1]
        if isinstance(p, Rec) and p.kind == "lazy":
            p = p.make(I_)
        if s is None:
            I_.oblige(B(isinstance(p, Ptr) and p.bid is None), name, "post", props)
            return
        if owned:
            self.check_owned(p, s, "result")
            return
        if isinstance(p, Ptr) and p.bid is None:
            I_.oblige(FALSE, name, "post", props)
        self.eq_str(I_.cstr(p), s, name, props)

    # -------------------------------------------------- arrays of objects
    def arg_array(self, i, n, cls, byval=True):
        """pointer to n caller objects (null only when n is 0): contents by index, None when null"""
        I_ = self.I
        if self.verify:
            nm = self.pname(i) or "a%d" % i
            if I_.choose2():
                I_.assume(eqI(n, I(0)))
                self.vals[i] = NULL
                return None
            gen = I_.views.family(self, cls, nm)
            bid = I_.alloc("arr:" + cls, "caller", {(): SegArr(n, cls, (Seg(I(0), n, "obj", "arg:" + nm, gen, cls),), byval)}, {"const": True})
            self.vals[i] = Ptr(bid)
            return gen
        p = self.vals[i]
        if isinstance(p, Rec) and p.kind == "lazy":
            p = p.make(I_)
        if isinstance(p, Ptr) and p.bid is None:
            I_.oblige(eqI(n, I(0)), "precondition of %s: a null array has no elements" % self.spec.name, "pre")
            return None
        return self.read_array(p, n, cls)

    def read_array(self, p, n, cls):
        I_ = self.I
        if not isinstance(p, Ptr):
            raise Unsupported("array at %r" % (p,))
        b = I_.blk(p.bid, "array argument")
        v = b.vals.get(p.path)
        if isinstance(v, VecV) and (v.arr is not None or v.elems == []):
            if v.arr is None:
                I_.oblige(eqI(n, I(0)), "precondition of %s: the array has that many elements" % self.spec.name, "pre")
                return {}
            v = v.arr
        if isinstance(v, SegArr):
            if p.off is not I(0):
                raise Unsupported("array argument with offset")
            I_.oblige(le(n, v.n), "precondition of %s: the array has that many elements" % self.spec.name, "pre")
            for s in v.segs:
                if s.kind == "obj" and I_.eqP(s.lo, I(0)) and I_.leP(n, s.hi):
                    return s.gen
            if I_.eqP(n, I(0)):
                return {}
            raise Unsupported("array argument %r" % (v,))
        I_.oblige(le(n, I(1)), "precondition of %s: the array has that many elements" % self.spec.name, "pre")
        return self.objfields(Loc(p.bid, p.path), cls)

    def objfields(self, loc, cls):
        I_ = self.I
        g = {}
        for q, t in I_.prog.allfields(cls):
            v = self.leaf(loc.field(q))
            g[(q,)] = I_.cstr(v) if isinstance(v, Ptr) else v
        return g

    def get_family(self, ptr, n, cls):
        """contents by index of the owned array at a pointer field (None: null)"""
        v = self.leaf(ptr)
        if isinstance(v, Ptr) and v.bid is None:
            return None
        return self.read_array(v, n, cls)

    def set_family(self, ptr, n, cls, gen, release=True):
        """the field owns a fresh array of n fresh objects with these contents (None: null)"""
        I_ = self.I
        self.touch(ptr)
        if not self.verify:
            if release:
                self.release(ptr)
            if gen is None:
                I_.store(ptr, NULL)
            else:
                fam = I_.fresh("fam")
                I_.store(ptr, Ptr(I_.alloc("arr:" + cls, "new[]", {(): SegArr(n, cls, (Seg(I(0), n, "obj", fam, gen, cls),))})))
            return
        nm = self.nm(ptr)
        p = self.h1(ptr)
        if isinstance(p, Rec) and p.kind == "lazy":
            p = I_.force(ptr, p)
        if gen is None:
            I_.oblige(B(isinstance(p, Ptr) and p.bid is None), "%s is null" % nm, "post")
        else:
            self.check_family(p, n, cls, gen, nm)
        if release and ptr.bid in I_.h0 and self.old(ptr) is not UNINIT and self.old(ptr) != p:
            self.release(ptr)

    def check_family(self, p, n, cls, gen, nm):
        I_ = self.I
        if p is UNINIT:
            I_.fail("%s is set" % nm, "post")
        if isinstance(p, Rec) and p.kind == "deadptr":
            I_.fail("%s designates live memory" % nm, "post")
        if not isinstance(p, Ptr):
            raise Unsupported("%s holds %r" % (nm, p))
        if p.bid is None:
            I_.fail("%s is not null" % nm, "post")
        b = I_.heap.get(p.bid)
        I_.oblige(B(b is not None and b.alive), "%s designates live memory" % nm, "post")
        v = b.vals.get(())
        I_.oblige(B(b.kind == "new[]" and p.off is I(0) and isinstance(v, SegArr)), "%s is an array that can be released" % nm, "post")
        I_.oblige(B(p.bid not in self.owned), "%s is not shared with another owner" % nm, "post")
        self.owned.add(p.bid)
        self.touched.add((p.bid, ()))
        self.check_segs(v, n, cls, gen, nm)

    def set_vector(self, loc, n, cls, gen):
        """the vector holds n objects with these contents"""
        I_ = self.I
        self.touch(loc)
        nm = self.nm(loc)
        if not self.verify:
            I_.store(loc, VecV(None, SegArr(n, cls, (Seg(I(0), n, "obj", I_.fresh("fam"), gen, cls),), True)))
            return
        v = self.h1(loc)
        if v is UNINIT:
            I_.fail("%s is set" % nm, "post")
        if isinstance(v, VecV) and v.elems == []:
            I_.oblige(eqI(n, I(0)), "%s has one element per object" % nm, "post")
            return
        if not (isinstance(v, VecV) and v.arr is not None):
            raise Unsupported("%s holds %r" % (nm, v))
        self.check_segs(v.arr, n, cls, gen, nm)

    def get_vector(self, loc):
        """(number of elements, contents by index)"""
        v = self.leaf(loc)
        if isinstance(v, VecV) and v.elems == []:
            return I(0), {}
        if not (isinstance(v, VecV) and v.arr is not None and len(v.arr.segs) == 1):
            raise Unsupported("vector %r" % (v,))
        return v.arr.n, v.arr.segs[0].gen

    def arg_vector(self, i, cls):
        """const std::vector<cls> &"""
        if self.verify:
            v = self.I.views.vector(self, cls, self.pname(i) or "a%d" % i)
            self.vals[i] = Loc(self.I.alloc("vector", "caller", {(): v}))
        return self.get_vector(self.vals[i])

    def check_segs(self, v, n, cls, gen, nm):
        I_ = self.I
        I_.oblige(eqI(v.n, n), "%s has one element per object" % nm, "post")
        for s in v.segs:
            if I_.leP(s.hi, s.lo):
                continue
            if s.kind in ("uninit", "dead"):
                I_.oblige(le(s.hi, s.lo), "every element of %s designates a live object" % nm, "post")
                continue
            j = I_.newI("j")
            if s.kind == "one":
                q = s.gen["ptr"]
                ok = isinstance(q, Ptr) and q.bid is not None and I_.heap[q.bid].alive and I_.heap[q.bid].kind == "new" and q.bid not in self.owned
                I_.oblige(B(ok), "every element of %s designates an object of its own" % nm, "post")
                self.owned.add(q.bid)
                for w in I_.heap[q.bid].vals.values():
                    if isinstance(w, Ptr) and w.bid is not None:
                        self.owned.add(w.bid)
                got = self.objfields(Loc(q.bid), cls)
            else:
                got = s.gen
                if not v.byval:
                    I_.oblige(B(("fam", s.fam) not in self.owned), "the elements of %s are not shared with another owner" % nm, "post")
                    self.owned.add(("fam", s.fam))
            for f, t in gen.items():
                w = got.get(f)
                if w is None:
                    I_.fail("elements of %s are complete" % nm, "post")
                g, e = (subst(x, {Seg.J: j}) for x in (w, t))
                if g is e:
                    I_.oblige(TRUE, "elements of %s hold the right text" % nm, "post")
                    continue
                # for an arbitrary index j of the segment
                if not I_.proves(Implies(And(ge(j, s.lo), lt(j, s.hi)), eq(g, e))):
                    I_.assume(And(ge(j, s.lo), lt(j, s.hi)))
                    if g.sort == "S":
                        I_.oblige_eq(g, e, "elements of %s hold the right text" % nm, "post")
                    else:
                        I_.oblige(eq(g, e), "elements of %s hold the right value" % nm, "post")

    def ret_this(self):
        if self.verify:
            self.I.oblige(B(self.outcome[1] == self.this), "returns the object itself", "post")
        else:
            self.result = self.this

    def destroyed(self):
        """the object's lifetime ends: everything it owns is released"""
        I_ = self.I
        k = self.this.path
        for path, v in list(I_.heap[self.this.bid].vals.items()):
            # a member that the destructor did not look at is still owned
            if path[:len(k)] == k and isinstance(v, Rec) and v.kind == "lazy" and not I_.views.borrowed(path):
                if self.verify:
                    v.make(I_)
                else:
                    I_.rawset(self.this.bid, path, Rec("deadptr", why="released"))
        src = I_.h0 if self.verify else I_.heap
        for path, v in list(src[self.this.bid].vals.items()):
            if path[:len(k)] != k:
                continue
            self.touched.add((self.this.bid, path))
            if isinstance(v, Ptr) and v.bid is not None and not I_.views.borrowed(path):
                if self.verify:
                    self.release_val(v, path[-1].split("::")[-1])
                elif I_.heap[v.bid].alive and I_.heap[v.bid].kind in ("new", "new[]"):
                    self.kill_deep(v.bid)

    # ------------------------------------------------------------ finish
    def finish(self):
        I_ = self.I
        if not self.ran:
            self.body()
        if self.outcome[0] == "throw" and not self.exc:
            I_.fail("no exception escapes", "post")
        I_.finish_temps()
        self.invariant()
        for bid, b0 in list(I_.h0.items()):
            if b0.kind in ("static", "stream", "stack", "temp") or not b0.alive:
                continue
            b1 = I_.heap.get(bid)
            if b1 is None:
                continue
            if not b1.alive:
                if bid not in self.released and not b0.meta.get("famobj") and not b0.meta.get("shared"):
                    I_.oblige(FALSE, "memory that still has an owner is not released", "frame")
                continue
            if bid in self.released or b0.vals == b1.vals:
                continue
            for path in set(b0.vals) | set(b1.vals):
                if (bid, path) in self.touched or any((bid, path[:k]) in self.touched for k in range(len(path))):
                    continue
                v0, v1 = b0.vals.get(path, UNINIT), b1.vals.get(path, UNINIT)
                if v0 is v1 or v0 == v1:
                    continue
                if self.exc and self.f.get("ctor") and bid == (self.this.bid if self.this else None):
                    continue
                self.frame_eq(v0, v1, "%s is unchanged" % (path[-1].split("::")[-1] if path else "caller's data"))
        for bid, b in I_.heap.items():
            if bid in I_.h0 or not b.alive or b.kind not in ("new", "new[]") or b.meta.get("famobj") or b.meta.get("shared"):
                continue
            if bid not in self.owned:
                I_.oblige(FALSE, "no memory is leaked", "frame")
        for bid, b in I_.heap.items():
            if not b.meta.get("famobj") or bid in I_.h0:
                continue
            own = b.meta.get("owner", bid)
            fam = I_.heap[own].meta.get("fam")
            if fam in self.relfams:
                continue
            if not b.alive:
                I_.oblige(FALSE, "an element that still has an owner is not released", "frame")
            elif b.vals != b.meta["orig"] and bid not in self.released:
                for path, v0 in b.meta["orig"].items():
                    self.frame_eq(v0, b.vals.get(path, UNINIT), "array element is unchanged")
        for g, v in I_.ghost.items():
            v0 = self.ghost0.get(g)
            if g[0] == "_" or ("ghost", g) in self.touched or v is v0 or v == v0:
                continue
            if isinstance(v, Term) and isinstance(v0, Term):
                if v.sort == "S":
                    I_.oblige_eq(v, v0, "%s is unchanged" % I_.ghostname(g), "frame")
                else:
                    I_.oblige(eq(v, v0), "%s is unchanged" % I_.ghostname(g), "frame")
            else:
                I_.oblige(FALSE, "%s is unchanged" % I_.ghostname(g), "frame")
        I_.ncomplete += 1

    def invariant(self):
        """what the texts of an object of the class satisfy in every state that its users see"""
        I_ = self.I
        fn = self.f
        if self.this is None or not fn.get("cls") or fn.get("const") or fn["name"].split("::")[-1][0] == "~" or self.exc and fn.get("ctor"):
            return
        for q, t in I_.prog.allfields(fn["cls"]):
            inv = I_.views.table.get(("inv", q))
            if not inv:
                continue
            l = self.this.field(q)
            p, p0 = I_.heap[l.bid].vals.get(l.path, UNINIT), I_.h0[l.bid].vals.get(l.path, UNINIT) if l.bid in I_.h0 else UNINIT
            if p is p0 and (not isinstance(p, Ptr) or p.bid is None or I_.heap[p.bid].vals == I_.h0[p.bid].vals) or isinstance(p, Ptr) and p.bid is None:
                continue
            if not isinstance(p, Ptr):
                I_.fail("%s is set" % self.nm(l), "post")
            I_.oblige(inv(I_, I_.cstr(p)), "class invariant: %s" % self.nm(l), "post")

    def frame_eq(self, v0, v1, name):
        I_ = self.I
        if isinstance(v0, CharArr) and isinstance(v1, CharArr):
            I_.oblige_eq(v1.s, v0.s, name, "frame")
        elif isinstance(v0, Term) and isinstance(v1, Term) and v0.sort == v1.sort:
            if v0.sort == "S":
                I_.oblige_eq(v1, v0, name, "frame")
            else:
                I_.oblige(eq(v1, v0), name, "frame")
        elif isinstance(v0, SegArr) and isinstance(v1, SegArr) and I_.seg_same(v0, v1):
            pass
        else:
            I_.oblige(FALSE, name, "frame")

    # ------------------------------------------------------------ ghosts
    def g(self, name):
        return self.I.ghost[name]

    def set_ghost(self, name, v):
        I_ = self.I
        self.touched.add(("ghost", name))
        if self.verify:
            w = I_.ghost[name]
            if isinstance(v, Term) and isinstance(w, Term):
                if v.sort == "S":
                    I_.oblige_eq(w, v, "%s is right" % I_.ghostname(name), "post")
                else:
                    I_.oblige(eq(w, v), "%s is right" % I_.ghostname(name), "post")
            else:
                I_.oblige(B(v == w), "%s is right" % I_.ghostname(name), "post")
        else:
            I_.env += 1
            I_.ghost[name] = v

    def out_ghost(self, name, fresh):
        """the ghost changes to something: its new value"""
        self.touched.add(("ghost", name))
        if not self.verify:
            self.I.env += 1
            self.I.ghost[name] = fresh
        return self.I.ghost[name]


class _UNI:
    pass


def family_gen(prog, cls, nm):
    g = {}
    for q, t in prog.allfields(cls):
        t = base_type(t)
        short = "%s.%s" % (nm, q.split("::")[-1])
        if t == "char *":
            g[(q,)] = ufS(short, [Seg.J], NONUL)
        elif t in INTS:
            g[(q,)] = ufI(short, [Seg.J])
        else:
            raise Unsupported("array of %s" % cls)
    return g


class Views:
    """representation invariants: how a symbolic object of a class looks"""

    def __init__(self, table):
        self.table = table

    def borrowed(self, path):
        return self.table.get(path[-1].split("::")[-1]) == "borrow"

    def kind(self, cls, q):
        return self.table.get((cls.split("::")[-1], q.split("::")[-1])) or self.table.get(q.split("::")[-1])

    def build(self, c, cls, loc, name, valid):
        I_ = c.I
        r = I_.prog.recs.get(cls)
        if r is None:
            raise Unsupported("no class %s" % cls)
        for b in I_.prog.bases(cls):
            self.build(c, b, loc, name, valid)
        h = self.table.get(("class", cls.split("::")[-1])) if "::cpp::" not in cls else None
        done = h(c, cls, loc, name, valid) if h else ()
        for f in r["fields"]:
            q, t = f["q"], base_type(f["type"])
            short = q.split("::")[-1]
            if short in done:
                continue
            k = self.kind(cls, q)
            nm = "%s.%s" % (name, short)
            fl = loc.field(q)
            if callable(k):
                I_.rawset(fl.bid, fl.path, k(c, nm))
                continue
            if t == "char *":
                opt = k == "cstr?" or not valid
                inv = self.table.get(("inv", q))
                if opt:
                    I_.rawset(fl.bid, fl.path, self.lazy_cstr(c, fl, nm, inv))
                else:
                    I_.rawset(fl.bid, fl.path, c.new_cstr(nm))
                    if inv:
                        I_.assume(inv(I_, I_.cstr(I_.load(fl))))
            elif I_.isrec(t):
                self.build(c, t, fl, nm, valid)
            elif t.endswith("*") and I_.isrec(base_type(t[:-1])) and not t.endswith("**"):
                I_.rawset(fl.bid, fl.path, self.lazy_obj(c, fl, base_type(t[:-1].strip()), nm))
            elif t.startswith("std::shared_ptr<"):
                I_.rawset(fl.bid, fl.path, self.lazy_shared(c, fl, base_type(t[t.index("<") + 1:t.rindex(">")].replace("const ", "")), nm + "(shared)"))
            elif t.startswith("std::vector<") and I_.isrec(t[12:-1].strip()):
                I_.rawset(fl.bid, fl.path, self.vector(c, t[12:-1].strip(), nm))
            elif t.startswith("std::vector<") or t.endswith("**") or t.endswith("*"):
                raise Unsupported("no view for field %s of type %s" % (short, t))
            else:
                I_.rawset(fl.bid, fl.path, c.fresh_of(t, nm))

    def vector(self, c, cls, nm):
        """a vector of any number of objects"""
        n = c.I.newI(nm + ".size", 0, (1 << 32) - 1)
        return VecV(None, SegArr(n, cls, (Seg(I(0), n, "obj", "fam:" + nm, family_gen(c.I.prog, cls, nm), cls),), True))

    def family(self, c, cls, nm):
        return family_gen(c.I.prog, cls, nm)

    def lazy_array(self, c, fl, n, cls, nm):
        """owned array of n owned objects; null only when n is 0"""
        def make(I_):
            if I_.choose2():
                I_.assume(eqI(n, I(0)))
                v = NULL
            else:
                bid = "lazy:" + nm
                blk = Block("arr:" + cls, "new[]", {(): SegArr(n, cls, (Seg(I(0), n, "obj", "fam:" + nm, family_gen(I_.prog, cls, nm), cls),))})
                I_.heap[bid] = blk
                if I_.h0 is not None:
                    I_.h0[bid] = blk.copy()
                v = Ptr(bid)
            self.put(I_, fl, v)
            return v
        return Rec("lazy", make=make, nm=nm, gen=family_gen(c.I.prog, cls, nm))

    def lazy_cstr(self, c, fl, nm, inv=None):
        def make(I_):
            v0 = I_.heap[fl.bid].vals.get(fl.path)
            if I_.choose2():
                v = NULL
            else:
                s = svar(nm, NONUL)
                I_.assume(le(length(s), I(I_.MAXLEN)))
                if inv:
                    I_.assume(inv(I_, s))
                bid = "lazy:" + nm
                blk = Block("char", "new[]", {(): CharArr(cat(s, "\0"))})
                I_.heap[bid] = blk
                if I_.h0 is not None:
                    I_.h0[bid] = blk.copy()
                v = Ptr(bid)
            self.put(I_, fl, v)
            return v
        return Rec("lazy", make=make, nm=nm)

    def lazy_obj(self, c, fl, cls, nm):
        def make(I_):
            if I_.choose2():
                v = NULL
            else:
                bid = "lazy:" + nm
                I_.heap[bid] = Block(cls, "new", {})
                self.build(c, cls, Loc(bid), nm, True)
                if I_.h0 is not None:
                    for b, x in I_.heap.items():
                        if b not in I_.h0 and (b == bid or any(isinstance(y, Ptr) and y.bid == b for y in I_.heap[bid].vals.values())):
                            I_.h0[b] = x.copy()
                v = Ptr(bid)
            self.put(I_, fl, v)
            return v
        return Rec("lazy", make=make, nm=nm)

    def lazy_shared(self, c, fl, cls, nm):
        """empty, or one of the owners of some object"""
        def make(I_):
            if I_.choose2():
                v = Rec("shared", p=NULL)
            else:
                bid = "lazy:" + nm
                I_.heap[bid] = Block(cls, "shared", {}, meta={"shared": True})
                self.build(c, cls, Loc(bid), nm, True)
                for y in list(I_.heap[bid].vals.values()):
                    if isinstance(y, Ptr) and y.bid is not None:
                        x = I_.heap[y.bid].copy()
                        x.meta["shared"] = True
                        I_.heap[y.bid] = x
                if I_.h0 is not None:
                    for b, x in I_.heap.items():
                        if b not in I_.h0 and (b == bid or any(isinstance(y, Ptr) and y.bid == b for y in I_.heap[bid].vals.values())):
                            I_.h0[b] = x.copy()
                v = Rec("shared", p=Ptr(bid))
            self.put(I_, fl, v)
            return v
        return Rec("lazy", make=make, nm=nm)

    def put(self, I_, fl, v, rec=None):
        if I_.h0 is not None and fl.bid in I_.h0:
            w = I_.h0[fl.bid].vals.get(fl.path)
            if isinstance(w, Rec) and w.kind == "lazy" and (rec is None or w is rec):
                b = I_.h0[fl.bid].copy()
                b.vals[fl.path] = v
                I_.h0[fl.bid] = b
        w = I_.heap[fl.bid].vals.get(fl.path)
        if isinstance(w, Rec) and w.kind == "lazy" and (rec is None or w is rec):
            I_.rawset(fl.bid, fl.path, v)
