"""Executes the clang AST of the real functions over symbolic states."""
import json
from .terms import *
from .machine import *

INTS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
        "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
        "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
        "wchar_t": (32, True)}
STRING = "std::basic_string<char>"


def deref_type(t):
    return t[:-1].rstrip() if t.endswith("*") else t


def base_type(t):
    t = t.strip()
    while True:
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.startswith("const "):
            t = t[6:]
        elif t.endswith("*const"):
            t = t[:-5].strip()
        elif t.endswith("*__restrict"):
            t = t[:-10].strip()
        elif t.startswith("struct "):
            t = t[7:]
        else:
            return t


def localise(d, tag):
    """names with internal linkage and ids of globals are made unique over the translation units"""
    ids = {g["id"] for g in d["globals"]}

    def walk(n):
        if isinstance(n, dict):
            if "id" in n and n["id"] in ids and isinstance(n["id"], int):
                n["id"] = "%d%s" % (n["id"], tag)
            for k in ("key", "overrides"):
                v = n.get(k)
                if isinstance(v, str) and (v.startswith("_ZL") or "_GLOBAL__N_" in v):
                    n[k] = v + tag
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(d)


# structures of the C library that the code builds itself
SYSRECS = {"sockaddr_in": (("sin_family", "unsigned short"), ("sin_port", "unsigned short"), ("sin_addr", "in_addr")),
           "in_addr": (("s_addr", "unsigned int"),),
           "pollfd": (("fd", "int"), ("events", "short"), ("revents", "short"))}


class Program:
    def __init__(self, asts):
        self.funcs, self.recs, self.globals = {}, {}, {}
        self.byname = {}
        for i, d in enumerate(asts):
            localise(d, "@%d" % i)
            for f in d["functions"]:
                if f.get("body") is None and self.funcs.get(f["key"]) is not None:
                    continue
                old = self.funcs.get(f["key"])
                if old is not None and old.get("body") is not None:
                    continue
                self.funcs[f["key"]] = f
            for r in d["records"]:
                self.recs.setdefault(r["name"], r)
            for g in d["globals"]:
                self.globals[g["id"]] = g
        for n, fs in SYSRECS.items():
            self.recs.setdefault(n, {"name": n, "bases": [], "methods": [], "fields": [{"q": "%s::%s" % (n, x), "type": t} for x, t in fs]})
        for f in self.funcs.values():
            self.byname.setdefault(f["name"], []).append(f)
        self.methods = {}
        for r in self.recs.values():
            for m in r.get("methods", []):
                self.methods[m["key"]] = m
        self.overriders = {}
        for m in list(self.methods.values()):
            for o in m.get("overrides", []):
                self.overriders.setdefault(o, []).append(m)

    def bases(self, cls):
        r = self.recs.get(cls)
        return [b if isinstance(b, str) else b["name"] for b in r["bases"]] if r else []

    def allbases(self, cls):
        out = [cls]
        for b in self.bases(cls):
            out += self.allbases(b)
        return out

    def allfields(self, cls):
        out = []
        for b in self.bases(cls):
            out += self.allfields(b)
        r = self.recs.get(cls)
        return out + ([(f["q"], f["type"]) for f in r["fields"]] if r else [])

    def dtor(self, cls):
        r = self.recs.get(cls)
        for m in r["methods"] if r else ():
            if m.get("dtor"):
                return m
        return None

    def dispatch(self, m, cls):
        """final overrider of method m in dynamic class cls"""
        want = {m["key"]}
        # all methods related to m by overriding
        ch = True
        while ch:
            ch = False
            for x in self.methods.values():
                if x["key"] not in want and any(o in want for o in x.get("overrides", [])):
                    want.add(x["key"])
                    ch = True
        for c in self.linear(cls):
            r = self.recs.get(c)
            for x in r["methods"] if r else ():
                if x["key"] in want:
                    return x
        return m

    def linear(self, cls):
        out = [cls]
        for b in self.bases(cls):
            out += self.linear(b)
        return out


class Frame:
    def __init__(self, fn, this=None, retloc=None):
        self.fn, self.this, self.retloc = fn or {"ret": "void", "name": "<contract>", "key": "<contract>"}, this, retloc
        self.env, self.scopes, self.temps = {}, [], []


class Interp(Machine):
    def __init__(self, prog, lib, contracts, regexes=None):
        super().__init__(regexes)
        self.prog = prog
        self.lib = lib
        self.contracts = contracts
        self.called = set()
        self.inlined = set()
        self.applied = set()
        self.cstack = []
        self.loops = None
        self.nocontract = set()
        self.shard = None

    # ------------------------------------------------------------ types
    def isrec(self, t):
        return t in self.prog.recs and not t.startswith("std::")

    def intinfo(self, t):
        r = INTS.get(t)
        if r is None and t not in self.prog.recs and not t.endswith("*") and not t.startswith("std::basic") and not t.startswith("std::vector"):
            return (32, True)
        return r

    def wrap(self, v, t, what="arithmetic"):
        bits, signed = self.intinfo(t) or (64, True)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        a, b = rng(v)
        if a is not None and b is not None and lo <= a and b <= hi:
            return v
        if signed:
            self.oblige(And(ge(v, I(lo)), le(v, I(hi))), "no signed overflow (%s)" % what)
            return v
        if (a is not None and a >= 0 or self.proves(ge(v, I(0)))) and self.proves(le(v, I(hi))):
            return v
        it = next((x for x, _ in lin_parts(v)[1] if x.op == "ite"), None) if v.op in ("lin", "ite") else None
        if it is not None:
            c, x, y = it.args
            k = dict(lin_parts(v)[1])[it]
            rest = sub(v, scale(k, it))
            p = self.under(c, lambda: self.wrap(add(rest, scale(k, x)), t, what))
            q = self.under(Not(c), lambda: self.wrap(add(rest, scale(k, y)), t, what))
            if p is None or q is None:
                return p if q is None else q
            if self.under(Not(c), lambda: self.eqP(p, q)):
                return p
            return ite(c, p, q)
        return fmod(v, 1 << bits)

    def unwrap(self, v):
        """drops a reduction modulo 2^32 or 2^64 that the path makes the identity"""
        if v.op not in ("mod", "lin"):
            return v
        c, items = lin_parts(v)
        for t, n in items:
            if t.op == "mod" and t.args[1] >= 1 << 31:
                a, k = t.args
                for j in (a, sub(a, I(k))):
                    if self.proves(And(ge(j, I(0)), lt(j, I(k)))):
                        v = add(sub(v, scale(n, t)), scale(n, j))
                        break
        return v

    def settle(self):
        for bid, b in list(self.heap.items()):
            for path, v in list(b.vals.items()):
                if isinstance(v, Term) and v.sort == "I" and v.op in ("mod", "lin"):
                    w = self.unwrap(v)
                    if w is not v:
                        self.rawset(bid, path, w)

    def under(self, c, f):
        """f() evaluated with c assumed; None when c is impossible"""
        if self.known(c) is False:
            return None
        snap = self.snapshot()
        try:
            self.assume(c)
            return f()
        except PathEnd:
            return None
        finally:
            self.release(snap)

    def conv(self, v, t):
        """integral conversion of v to type t"""
        if not isinstance(v, Term):
            if v is UNINIT:
                self.fail("use of an uninitialised value")
            return v
        if t == "bool":
            return v if v.sort == "B" else Not(eqI(v, I(0)))
        if v.sort == "B":
            return ite(v, I(1), I(0))
        bits, signed = self.intinfo(t) or (64, True)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        a, b = rng(v)
        if a is not None and b is not None and lo <= a and b <= hi:
            return v
        if v.op == "ite":
            return ite(v.args[0], self.conv(v.args[1], t), self.conv(v.args[2], t))
        if v.op != "int" and self.proves(And(ge(v, I(lo)), le(v, I(hi)))):
            return v
        m = fmod(v, 1 << bits)
        if not signed:
            return m
        if m.op == "int":
            return m if m.args[0] <= hi else I(m.args[0] - (1 << bits))
        return ite(le(m, I(hi)), m, sub(m, I(1 << bits)))

    def tochar(self, c, t):
        """byte code 0..255 read through a char type"""
        if t in ("unsigned char", "void") or t.endswith("unsigned char"):
            return c
        lo, hi = rng(c)
        if hi is not None and hi <= 127:
            return c
        if c.op == "int":
            return I(c.args[0] - 256) if c.args[0] > 127 else c
        return ite(le(c, I(127)), c, sub(c, I(256)))

    def tobyte(self, v):
        if v.op == "ite":
            return ite(v.args[0], self.tobyte(v.args[1]), self.tobyte(v.args[2]))
        return fmod(v, 256)

    # ------------------------------------------------------- load/store
    def load(self, loc, t=None):
        b = self.blk(loc.bid, "read")
        v = b.vals.get(loc.path, UNINIT)
        if loc.idx is not None:
            return self.load_elem(b, loc, v, t)
        if v is UNINIT:
            self.fail("read of an uninitialised value%s" % (" (%s)" % loc.path[-1].split("::")[-1] if loc.path else ""))
        if isinstance(v, Term) and v.sort == "I" and v.op in ("mod", "lin"):
            w = self.unwrap(v)
            if w is not v:
                self.rawset(loc.bid, loc.path, w)
            return w
        if isinstance(v, Rec) and v.kind == "lazy":
            v = self.force(loc, v)
        return v

    def force(self, loc, v):
        w = v.make(self)
        if self.heap[loc.bid].vals.get(loc.path) is v:
            self.rawset(loc.bid, loc.path, w)
        return w

    def fnptr_name(self, p):
        f = self.prog.methods.get(p.name) or self.prog.funcs.get(p.name)
        return f["name"] if f else p.name

    def load_elem(self, b, loc, v, t):
        i = loc.idx
        if isinstance(v, CharArr):
            self.oblige(And(ge(i, I(0)), lt(i, length(v.s))), "read inside the bounds of the array")
            at = atoms(v.s)
            if len(at) == 2 and at[1].op == "str" and at[1].args[0] == "\0" and at[0].op != "str":
                # a text and its terminator
                x = at[0]
                if self.proves(lt(i, length(x))):
                    return self.tochar(self.byte(x, i), t or "char")
                if self.eqP(i, length(x)):
                    return I(0)
                return ite(lt(i, length(x)), self.tochar(self.byte(x, i), t or "char"), I(0))
            return self.tochar(self.byte(v.s, i), t or "char")
        if isinstance(v, Term) and v.sort == "S":
            self.oblige(And(ge(i, I(0)), le(i, length(v))), "read inside the bounds of the string")
            if self.proves(lt(i, length(v))):
                return self.tochar(self.byte(v, i), t or "char")
            if self.eqP(i, length(v)):
                return I(0)
            c = ite(lt(i, length(v)), self.tochar(self.byte(v, i), t or "char"), I(0))
            return c
        if isinstance(v, IntArr):
            self.oblige(And(ge(i, I(0)), lt(i, I(v.n))), "read inside the bounds of the array")
            if i.op == "int":
                r = v.d.get(i.args[0], v.default)
                if r is None:
                    self.fail("read of an uninitialised array element")
                return r
            return self.newI("elem")
        if isinstance(v, SegArr):
            return self.seg_read(loc, v)
        if isinstance(v, VecV):
            if v.arr is not None:
                return self.seg_read(loc, v.arr)
            self.oblige(And(ge(i, I(0)), lt(i, v.size())), "vector index in range")
            if v.bag is not None:
                return self.bag_read(v.bag, i)
            if i.op == "int":
                return v.elems[i.args[0]]
        if v is UNINIT:
            self.fail("read of an uninitialised value")
        if i is I(0):
            return v
        raise Unsupported("element read of %r" % (v,))

    def bag_read(self, v, i):
        """element of an opaque vector of strings; what membership means for the words of interest"""
        x = velem(v, i)
        ws = [S(f.word) for f in self.tails if f.word is not None]
        for n, w in enumerate(ws):
            self.assume(Iff(vhas(v, add(i, I(1)), w), Or(vhas(v, i, w), eqS(x, w))))
            for u in ws[:n]:
                self.assume(Or(Not(eqS(x, u)), Not(eqS(x, w))))
        return x

    def store(self, loc, val):
        b = self.blk(loc.bid, "write")
        if b.meta.get("const"):
            self.fail("write to constant data")
        if loc.idx is None:
            v = b.vals.get(loc.path)
            if isinstance(v, Rec) and v.kind == "lazy" and v is not val:
                self.force(loc, v)                            # what is lost must have been released
            self.rawset(loc.bid, loc.path, val)
            return
        v = b.vals.get(loc.path, UNINIT)
        i = loc.idx
        if isinstance(v, CharArr):
            self.oblige(And(ge(i, I(0)), lt(i, length(v.s))), "write inside the bounds of the array")
            pre, rest = self.split(v.s, i)
            _, post = self.split(rest, I(1))
            self.rawset(loc.bid, loc.path, CharArr(cat(pre, chr_(self.tobyte(val)), post)))
        elif isinstance(v, Term) and v.sort == "S":
            self.oblige(And(ge(i, I(0)), lt(i, length(v))), "write inside the bounds of the string")
            pre, rest = self.split(v, i)
            _, post = self.split(rest, I(1))
            self.rawset(loc.bid, loc.path, cat(pre, chr_(self.tobyte(val)), post))
        elif isinstance(v, IntArr):
            self.oblige(And(ge(i, I(0)), lt(i, I(v.n))), "write inside the bounds of the array")
            if i.op == "int":
                d = dict(v.d)
                d[i.args[0]] = val
                self.rawset(loc.bid, loc.path, IntArr(v.n, d, v.default))
            else:
                self.rawset(loc.bid, loc.path, IntArr(v.n, {}, self.newI("arr")))
        elif isinstance(v, SegArr):
            self.seg_write(loc, v, val)
        elif isinstance(v, VecV) and v.elems is not None and i.op == "int":
            self.oblige(And(ge(i, I(0)), lt(i, I(len(v.elems)))), "vector index in range")
            e = list(v.elems)
            e[i.args[0]] = val
            self.rawset(loc.bid, loc.path, VecV(e))
        elif i is I(0):
            self.rawset(loc.bid, loc.path, val)
        else:
            raise Unsupported("element write of %r" % (v,))

    # ---------------------------------- arrays of owned / by-value objects
    def seg_find(self, arr, i):
        for k, s in enumerate(arr.segs):
            if self.proves(And(ge(i, s.lo), lt(i, s.hi))):
                return k, s
        live = []
        for k, s in enumerate(arr.segs):
            if self.known(And(ge(i, s.lo), lt(i, s.hi))) is not False:
                live.append((k, s))
        for k, s in live[:-1]:
            if self.decide(And(ge(i, s.lo), lt(i, s.hi))):
                return k, s
        if not live:
            raise PathEnd()
        return live[-1]

    def seg_obj(self, seg, i, cls, bid0, byval=False):
        """materialise element i of an object family as a block"""
        tag = "%s@%s@%d" % (cls, seg.fam, i.id)
        if tag in self.heap:
            return tag
        for b in self.heap:
            if b.startswith("%s@%s@" % (cls, seg.fam)) and "index" in self.heap[b].meta:
                j = self.heap[b].meta["index"]
                if self.eqP(i, j):
                    return b
                if not self.proves(Not(eqI(i, j))):
                    raise Unsupported("two symbolic indices into the same array: %s, %s" % (i, j))
        vals = {}
        extra = {}
        for f, t in seg.gen.items():
            t = self.subst_val(t, {Seg.J: i})
            q = f[-1] if isinstance(f, tuple) else f
            path = f if isinstance(f, tuple) else (f,)
            if isinstance(t, Term) and t.sort == "S":
                sb = "%s.%s" % (tag, q)
                self.assume(le(length(t), I(self.MAXLEN)))
                sv = {(): CharArr(cat(t, "\0"))}
                extra[sb] = Block("char", "new[]", sv, True, {"owner": tag, "famobj": True, "orig": dict(sv)})
                vals[path] = Ptr(sb)
            else:
                vals[path] = t
        for f, t in seg.gen.items():
            inv = self.views.table.get(("inv", f[-1] if isinstance(f, tuple) else f)) if self.views else None
            if inv:
                self.assume(inv(self, self.subst_val(t, {Seg.J: i})))
        self.heap.update(extra)
        self.heap[tag] = Block(cls, "caller" if byval else "new", vals, True, {"index": i, "fam": seg.fam, "famobj": True, "gen": seg, "orig": dict(vals)})
        return tag

    def purge_elems(self):
        """forget array elements that were looked at, not changed and are not referred to: they can be materialised again"""
        used = set()
        for f in self.frames:
            for v in list(f.env.values()) + [f.this]:
                if isinstance(v, (Ptr, Loc)):
                    used.add(v.bid)
        for b in self.heap.values():
            for v in b.vals.values():
                if isinstance(v, (Ptr, Loc)) and not b.meta.get("famobj"):
                    used.add(v.bid)
        def drop(t):
            b = self.heap[t]
            return b.alive and b.vals == b.meta["orig"] and t not in used
        own = {}
        for t, b in self.heap.items():
            if b.meta.get("famobj"):
                own.setdefault(b.meta.get("owner", t), []).append(t)
        for o, ts in own.items():
            if all(drop(t) for t in ts):
                for t in ts:
                    del self.heap[t]

    def subst_val(self, t, m):
        if isinstance(t, Term):
            return subst(t, m)
        return t

    def seg_read(self, loc, arr):
        i = loc.idx
        self.oblige(And(ge(i, I(0)), lt(i, arr.n)), "read inside the bounds of the array")
        k, s = self.seg_find(arr, i)
        if s.kind == "uninit":
            self.fail("read of an uninitialised array element")
        if s.kind == "dead":
            return Rec("deadptr")
        if s.kind == "one":
            return s.gen["ptr"]
        b = self.seg_obj(s, i, arr.cls, loc.bid, arr.byval)
        if arr.byval:
            return Loc(b)
        return Ptr(b)

    def seg_write(self, loc, arr, val):
        i = loc.idx
        self.oblige(And(ge(i, I(0)), lt(i, arr.n)), "write inside the bounds of the array")
        k, s = self.seg_find(arr, i)
        segs = list(arr.segs)
        new = []
        if not self.eqP(s.lo, i):
            new.append(Seg(s.lo, i, s.kind, s.fam, s.gen, s.cls))
        new.append(Seg(i, add(i, I(1)), "one", None, {"ptr": val}))
        if not self.eqP(add(i, I(1)), s.hi):
            new.append(Seg(add(i, I(1)), s.hi, s.kind, s.fam, s.gen, s.cls))
        segs[k:k + 1] = new
        self.rawset(loc.bid, loc.path, SegArr(arr.n, arr.cls, tuple(segs), arr.byval))

    # ----------------------------------------------------------- strings
    def bytes_at(self, p, what="string"):
        """(contents from p to the end of its array, ok)"""
        if isinstance(p, Rec) and p.kind == "deadptr":
            self.fail("use of a pointer to released memory (%s)" % what)
        if isinstance(p, Rec) and p.kind == "lazy":
            p = p.make(self)
        if not isinstance(p, Ptr):
            raise Unsupported("string at %r" % (p,))
        b = self.blk(p.bid, what)
        v = b.vals.get(p.path, UNINIT)
        if isinstance(v, CharArr):
            s = v.s
        elif isinstance(v, Term) and v.sort == "S":
            s = cat(v, "\0")
        elif isinstance(v, Term) and v.sort == "I":
            s = chr_(self.tobyte(v))
        else:
            if v is UNINIT:
                self.fail("read of uninitialised memory (%s)" % what)
            raise Unsupported("bytes of %r" % (v,))
        if p.off is not I(0):
            self.oblige(And(ge(p.off, I(0)), le(p.off, length(s))), "pointer inside its buffer (%s)" % what)
            s = self.split(s, p.off)[1]
        return s

    def cstr(self, p, what="string"):
        return self.until_nul(self.bytes_at(p, what), what)

    def temp_cstr(self, s):
        """a static, immutable C string"""
        bid = "lit#%d" % s.id
        if bid not in self.heap:
            self.heap[bid] = Block("char", "static", {(): CharArr(cat(s, "\0"))}, True, {"const": True})
        return Ptr(bid)

    # ------------------------------------------------------- expressions
    @property
    def fr(self):
        return self.frames[-1]

    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, Loc) and not self.isrec(base_type(n["t"])):
            return self.load(v, n["t"])
        return v

    def lv(self, n):
        v = self.ev(n)
        if isinstance(v, Loc):
            return v
        return self.mktemp(base_type(n["t"]), v)

    def mktemp(self, t, v):
        bid = self.alloc("tmp:" + t, "temp", {(): v})
        self.fr.temps.append((Loc(bid), t))
        return Loc(bid)

    def ev(self, n):
        self.line = n.get("line") or self.line
        cv = n.get("cv")
        if cv is not None and n["vk"] == "r":
            return B(cv not in ("0",)) if n["t"] == "bool" else I(int(cv))
        m = getattr(self, "x_" + n["k"], None)
        if m is None:
            raise Unsupported("expression %s" % n["k"])
        return m(n)

    def x_IntegerLiteral(self, n):
        return I(int(n["val"]))

    def x_CharacterLiteral(self, n):
        return I(int(n["val"]))

    def x_CXXBoolLiteralExpr(self, n):
        return B(n["val"])

    def x_NullPtr(self, n):
        return NULL

    x_CXXNullPtrLiteralExpr = x_NullPtr
    x_GNUNullExpr = x_NullPtr

    def x_StringLiteral(self, n):
        p = self.temp_cstr(S("".join(chr(x) for x in n["bytes"]) if isinstance(n["bytes"], list) else bytes.fromhex(n["bytes"])))
        return Loc(p.bid)

    def x_DeclRefExpr(self, n):
        if n.get("fn"):
            return FnPtr(n["fn"]["key"])
        b = self.fr.env.get(n["id"])
        if b is not None:
            return b
        if n.get("global") or n["id"] in self.prog.globals:
            return self.globalvar(n)
        if n.get("dk") == "EnumConstant" and "cv" in n:
            return I(int(n["cv"]))
        raise Unsupported("reference to %s" % n.get("name"))

    def globalvar(self, n):
        bid = "global:" + str(n["id"])
        if bid in self.heap:
            return Loc(bid)
        g = self.prog.globals.get(n["id"])
        if g is None:
            if n.get("q", n.get("name", "")).split("::")[-1] in ("cerr", "cout", "clog", "stderr", "stdout"):
                self.heap[bid] = Block("stream", "static", {(): SStream(EMPTY)})
                return Loc(bid)
            if n.get("q", "").startswith("std::"):
                self.heap[bid] = Block("lib", "static", {(): Rec("const", name=n["q"])})
                return Loc(bid)
            raise Unsupported("global %s" % n.get("name"))
        if not g["type"].startswith("const ") and not g.get("const"):
            raise Unsupported("mutable global %s" % g.get("name"))
        t = base_type(g["type"])
        self.heap[bid] = Block("global:" + t, "static", {}, True, {})
        q = self.quiet
        self.quiet += 1
        try:
            self.frames.append(Frame(None))
            self.init_into(g["init"], Loc(bid), t)
        finally:
            self.frames.pop()
            self.quiet = q
        self.heap[bid].meta["const"] = True
        return Loc(bid)

    def x_MemberExpr(self, n):
        base = n["c"][0] if n.get("c") else None
        if n.get("fn"):
            raise Unsupported("member function value")
        if n.get("staticvar"):
            raise Unsupported("static member %s" % n["q"])
        if n["arrow"]:
            p = self.rv(base)
            loc = self.deref(p, "member access")
        else:
            loc = self.lv(base)
        if loc.idx is not None:
            v = self.load(loc)
            if isinstance(v, Loc):
                loc = v
            elif isinstance(v, Rec) and v.kind == "pair":
                f = n["member"]
                return self.mktemp("pair", v.first if f == "first" else v.second)
            else:
                raise Unsupported("member of element")
        b = self.blk(loc.bid, "member access")
        v = b.vals.get(loc.path)
        if isinstance(v, Rec) and v.kind == "pair":
            return self.mktemp("pair", v.first if n["member"] == "first" else v.second)
        if isinstance(v, Rec) and hasattr(v, "fields"):
            f = n["q"]
            return self.mktemp(n["t"], v.fields.get(n["member"], UNINIT))
        r = loc.field(n["q"])
        if n.get("ref"):
            raise Unsupported("reference member")
        return r

    def deref(self, p, what="dereference"):
        if isinstance(p, Rec) and p.kind == "deadptr":
            self.fail("use of a pointer to released memory (%s)" % what)
        if isinstance(p, Rec) and p.kind == "lazy":
            p = p.make(self)
        if isinstance(p, Loc):
            return p
        if isinstance(p, Opq):
            bid = "opq:%s" % (p.tag,)
            if bid not in self.heap:
                raise Unsupported("dereference of opaque %s" % p.tag)
            return Loc(bid)
        if isinstance(p, Rec) and p.kind == "iter":
            return Loc(p.loc.bid, p.loc.path, p.pos)
        if p is UNINIT:
            self.fail("use of an uninitialised pointer (%s)" % what)
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %r" % (p,))
        if p.bid is None:
            self.fail("null pointer dereference (%s)" % what)
        b = self.blk(p.bid, what)
        v = b.vals.get(p.path)
        if isinstance(v, SegArr) and v.byval:
            return self.seg_read(Loc(p.bid, p.path, p.off), v)
        if isinstance(v, VecV) and v.arr is not None and v.arr.byval:
            return self.seg_read(Loc(p.bid, p.path, p.off), v.arr)
        if isinstance(v, (CharArr, IntArr, SegArr, VecV)) or (isinstance(v, Term) and v.sort == "S" and b.meta.get("strptr")):
            return Loc(p.bid, p.path, p.off)
        if isinstance(v, Term) and v.sort == "S":
            if p.off is I(0) and not isinstance(p, ChPtr):
                return Loc(p.bid, p.path)
            return Loc(p.bid, p.path, p.off)
        if p.off is not I(0):
            self.oblige(eqI(p.off, I(0)), "pointer designates an object (%s)" % what)
        return Loc(p.bid, p.path)

    def addr(self, loc):
        if loc.idx is not None:
            v = self.heap[loc.bid].vals.get(loc.path)
            if isinstance(v, Term) and v.sort == "S":
                return ChPtr(loc.bid, loc.path, loc.idx)
            return Ptr(loc.bid, loc.path, loc.idx)
        return Ptr(loc.bid, loc.path)

    def x_CXXThisExpr(self, n):
        return self.addr(self.fr.this)

    def x_Cast(self, n):
        k = n["cast"]
        s = n["c"][0]
        if k == "LValueToRValue":
            l = self.ev(s)
            if not isinstance(l, Loc):
                return l
            if l.idx is None:
                v = self.blk(l.bid, "read").vals.get(l.path)
                if isinstance(v, (CharArr,)):
                    return self.load(Loc(l.bid, l.path, I(0)), n["t"])
            return self.load(l, n["t"])
        if k == "ArrayToPointerDecay":
            l = self.ev(s)
            return Ptr(l.bid, l.path, I(0))
        if k in ("NoOp", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "BuiltinFnToFnPtr", "Dependent"):
            if k == "BitCast":
                return self.rv(s)
            return self.ev(s)
        if k == "FunctionToPointerDecay":
            return self.ev(s)
        if k == "IntegralCast":
            return self.conv(self.rv(s), n["t"])
        if k == "IntegralToBoolean":
            return self.conv(self.rv(s), "bool")
        if k == "NullToPointer":
            return NULL
        if k == "PointerToBoolean":
            return self.nonnull(self.rv(s))
        if k == "ToVoid":
            self.ev(s)
            return None
        if k == "UserDefinedConversion":
            return self.ev(s)
        raise Unsupported("cast %s" % k)

    def nonnull(self, p):
        if isinstance(p, Ptr):
            return B(p.bid is not None)
        if isinstance(p, (Opq, FnPtr)):
            return TRUE
        if isinstance(p, Rec) and p.kind == "deadptr":
            return TRUE
        if p is UNINIT:
            self.fail("use of an uninitialised pointer")
        raise Unsupported("pointer test of %r" % (p,))

    def x_UnaryOperator(self, n):
        op = n["op"]
        s = n["c"][0]
        if op == "*":
            return self.deref(self.rv(s))
        if op == "&":
            if s["k"] == "DeclRefExpr" and s.get("fn"):
                return FnPtr(s["fn"]["key"])
            return self.addr(self.ev(s))
        if op == "!":
            return Not(self.cond(s))
        if op in ("++", "--"):
            l = self.ev(s)
            v = self.load(l, s["t"])
            d = 1 if op == "++" else -1
            if isinstance(v, Ptr):
                w = type(v)(v.bid, v.path, add(v.off, I(d)))
            elif isinstance(v, Term):
                t = base_type(s["t"])
                w = self.wrap(add(v, I(d)), t, op) if (self.intinfo(t) or (32,))[0] >= 32 else self.conv(add(v, I(d)), t)
            elif isinstance(v, Rec) and v.kind == "iter":
                w = Rec("iter", loc=v.loc, pos=add(v.pos, I(-d if v.rev else d)), rev=v.rev)
            else:
                raise Unsupported("++ on %r" % (v,))
            self.store(l, w)
            return v if n.get("postfix") else l
        v = self.rv(s)
        if op == "-":
            return self.wrap(neg(v), base_type(n["t"]), "negation")
        if op == "+":
            return v
        if op == "~":
            t = base_type(n["t"])
            if v.op == "int":
                return self.conv(I(~v.args[0]), t)
            return self.conv(sub(I(-1), v), t)
        raise Unsupported("unary %s" % op)

    def cond(self, n):
        v = self.rv(n)
        if isinstance(v, Term):
            return v if v.sort == "B" else Not(eqI(v, I(0)))
        return self.nonnull(v)

    def x_BinaryOperator(self, n):
        op = n["op"]
        a, b = n["c"]
        if op == "=":
            if self.isrec(base_type(a["t"])):
                r = self.ev(b)
                l = self.ev(a)
                self.copy_fields(r, l, base_type(a["t"]))
                return l
            v = self.rv(b)
            l = self.ev(a)
            self.store(l, v)
            return l
        if op == "&&":
            x = self.cond(a)
            if x is TRUE:
                return self.cond(b)
            if x is not FALSE and self.purecond(b) and self.known(x) is None:
                y = self.under(x, lambda: self.cond(b))
                return FALSE if y is None else And(x, y)
            if not self.decide(x):
                return FALSE
            return self.cond(b)
        if op == "||":
            x = self.cond(a)
            if x is FALSE:
                return self.cond(b)
            if x is not TRUE and self.purecond(b) and self.known(x) is None:
                y = self.under(Not(x), lambda: self.cond(b))
                return TRUE if y is None else Or(x, y)
            if self.decide(x):
                return TRUE
            return self.cond(b)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op in (".*", "->*"):
            obj = self.ev(a) if op == ".*" else self.deref(self.rv(a))
            return Rec("boundmem", this=obj, fn=self.rv(b))
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, base_type(n["t"]), base_type(n.get("lt") or a["t"]))

    def binop(self, op, x, y, t, lt_):
        for v in (x, y):
            if v is UNINIT:
                self.fail("use of an uninitialised value")
        if not isinstance(x, Term) or not isinstance(y, Term):
            return self.ptrop(op, x, y)
        if x.sort == "B" and op in ("==", "!="):
            if y.sort == "I":
                x = ite(x, I(1), I(0))
            else:
                r = Iff(x, y)
                return r if op == "==" else Not(r)
        if x.sort == "B":
            x = ite(x, I(1), I(0))
        if y.sort == "B":
            y = ite(y, I(1), I(0))
        if op == "==":
            return eqI(x, y)
        if op == "!=":
            return Not(eqI(x, y))
        if op == "<":
            return lt(x, y)
        if op == ">":
            return gt(x, y)
        if op == "<=":
            return le(x, y)
        if op == ">=":
            return ge(x, y)
        if op == "+":
            return self.wrap(add(x, y), t, "addition")
        if op == "-":
            return self.wrap(sub(x, y), t, "subtraction")
        if op == "*":
            return self.wrap(mul(x, y), t, "multiplication")
        if op in ("/", "%"):
            if y.op != "int":
                self.oblige(Not(eqI(y, I(0))), "division by zero")
                raise Unsupported("division by a variable")
            k = y.args[0]
            if k == 0:
                self.fail("division by zero")
            lo, _ = rng(x)
            if k < 0 or not ((lo is not None and lo >= 0) or self.proves(ge(x, I(0)))):
                if x.op == "int":
                    q = abs(x.args[0]) // abs(k) * (1 if (x.args[0] < 0) == (k < 0) else -1)
                    return I(q) if op == "/" else I(x.args[0] - q * k)
                raise Unsupported("division of a possibly negative number")
            return fdiv(x, k) if op == "/" else fmod(x, k)
        if op in ("&", "|", "^"):
            return self.bitop(op, x, y, t)
        if op in ("<<", ">>"):
            if y.op != "int":
                if op == "<<":
                    return self.newI("shl")
                raise Unsupported("shift by a variable")
            k = y.args[0]
            bits = (self.intinfo(t) or (32, True))[0]
            if not 0 <= k < bits:
                self.fail("shift count in range")
            if op == "<<":
                return self.wrap(scale(1 << k, x), t, "shift")
            return fdiv(x, 1 << k)
        raise Unsupported("operator %s" % op)

    def bitop(self, op, x, y, t):
        if x.op == "int":
            x, y = y, x
        if x.op == "int" and y.op == "int":
            a, b = x.args[0], y.args[0]
            return I(a & b if op == "&" else a | b if op == "|" else a ^ b)
        if y.op == "int" and op == "&" and y.args[0] >= 0:
            m = y.args[0]
            lo, _ = rng(x)
            if (lo is not None and lo >= 0) or self.proves(ge(x, I(0))):
                out = []
                p = 0
                while m >> p:
                    if (m >> p) & 1:
                        q = p
                        while (m >> q) & 1:
                            q += 1
                        out.append(scale(1 << p, fmod(fdiv(x, 1 << p), 1 << (q - p))))
                        p = q
                    else:
                        p += 1
                return add(*out) if out else I(0)
        if op == "|":
            # disjoint bits add up
            for a, b in ((x, y), (y, x)):
                lo, hi = rng(b)
                if lo is not None and lo >= 0 and hi is not None:
                    k = 1 << hi.bit_length()
                    if fmod(a, k) is I(0):
                        return add(a, b)
        return ufI("bit" + {"&": "and", "|": "or", "^": "xor"}[op], [x, y])

    def purecond(self, n):
        """arithmetic over integers without effects: needs no case split"""
        k = n["k"]
        if "cv" in n and n["cv"] is not None and k.endswith("Literal"):
            return True
        t = base_type(n.get("t") or "")
        if t not in INTS and t != "bool":
            return False
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            return True
        if k == "DeclRefExpr":
            return not n.get("fn")
        if k in ("Cast", "ParenExpr"):
            return len(n["c"]) == 1 and self.purecond(n["c"][0])
        if k == "UnaryOperator":
            return n["op"] in ("!", "-", "+") and self.purecond(n["c"][0])
        if k == "BinaryOperator":
            return n["op"] in ("+", "-", "==", "!=", "<", ">", "<=", ">=", "&&", "||") and all(self.purecond(x) for x in n["c"])
        return False

    def ptrop(self, op, x, y):
        if isinstance(x, Rec) and x.kind == "lazy":
            x = x.make(self)
        if isinstance(y, Rec) and y.kind == "lazy":
            y = y.make(self)
        if op in ("==", "!="):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if (x.bid, x.path) != (y.bid, y.path):
                    r = FALSE
                elif x.bid is None:
                    r = TRUE
                else:
                    r = eqI(x.off, y.off)
            elif isinstance(x, Rec) and x.kind == "iter" and isinstance(y, Rec):
                r = eqI(x.pos, y.pos)
            elif x == y:
                r = TRUE
            else:
                for a, b in ((x, y), (y, x)):
                    if isinstance(a, Ptr) and a.bid is None:
                        r = Not(self.nonnull(b))
                        break
                else:
                    if type(x) is type(y) and isinstance(x, (FnPtr, Opq)):
                        r = FALSE
                    else:
                        raise Unsupported("comparison of %r and %r" % (x, y))
            return r if op == "==" else Not(r)
        if op in ("+", "-") and isinstance(x, Ptr) and isinstance(y, Term):
            return type(x)(x.bid, x.path, add(x.off, y) if op == "+" else sub(x.off, y))
        if op == "+" and isinstance(y, Ptr) and isinstance(x, Term):
            return type(y)(y.bid, y.path, add(y.off, x))
        if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid == y.bid:
            return sub(x.off, y.off)
        if op in ("<", ">", "<=", ">=") and isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid == y.bid and x.bid is not None:
            return self.binop(op, x.off, y.off, "long", "long")
        if op in ("+", "-") and isinstance(x, Rec) and x.kind == "iter" and isinstance(y, Term):
            d = y if (op == "+") != bool(x.rev) else neg(y)
            return Rec("iter", loc=x.loc, pos=add(x.pos, d), rev=x.rev)
        raise Unsupported("%s on %r, %r" % (op, x, y))

    def x_CompoundAssignOperator(self, n):
        a, b = n["c"]
        op = n["op"][:-1]
        y = self.rv(b)
        l = self.ev(a)
        x = self.load(l, a["t"])
        if isinstance(x, Term) and isinstance(y, Term):
            ct = base_type(n.get("lt") or n["t"])
            x2 = self.conv(x, ct) if x.sort == "I" else x
            r = self.conv(self.binop(op, x2, y, base_type(n.get("rt") or ct), ct), base_type(a["t"]))
        else:
            r = self.ptrop(op, x, y)
        self.store(l, r)
        return l

    def x_ConditionalOperator(self, n):
        c = self.cond(n["c"][0])
        t, f = n["c"][1], n["c"][2]
        return self.ev(t) if self.decide(c) else self.ev(f)

    def x_ArraySubscriptExpr(self, n):
        a, b = n["c"]
        p, i = self.rv(a), self.rv(b)
        if isinstance(p, Term):
            p, i = i, p
        if isinstance(p, Rec) and p.kind in ("deadptr", "lazy"):
            return self.deref(p, "array access")
        if p is UNINIT:
            self.fail("use of an uninitialised pointer")
        if not isinstance(p, Ptr):
            raise Unsupported("subscript of %r" % (p,))
        return self.elem(p, add(p.off, i))

    def elem(self, p, i):
        if p.bid is None:
            self.fail("null pointer dereference (array access)")
        b = self.blk(p.bid, "array access")
        v = b.vals.get(p.path)
        if isinstance(v, SegArr) and v.byval:
            return self.seg_read(Loc(p.bid, p.path, i), v)
        if isinstance(v, VecV) and v.arr is not None and v.arr.byval:
            return self.seg_read(Loc(p.bid, p.path, i), v.arr)
        if isinstance(v, (CharArr, IntArr, SegArr, VecV)) or isinstance(v, Term) and v.sort == "S":
            return Loc(p.bid, p.path, i)
        self.oblige(eqI(i, I(0)), "array access inside the object")
        return Loc(p.bid, p.path)

    def x_MaterializeTemporaryExpr(self, n):
        s = n["c"][0]
        t = base_type(s["t"])
        if self.isrec(t):
            v = self.ev(s)
            if n.get("extended"):
                self.extend(v)
            return v
        v = self.rv(s)
        l = self.mktemp(t, v)
        if n.get("extended"):
            self.extend(l)
        return l

    def extend(self, l):
        for i, (x, t) in enumerate(self.fr.temps):
            if x == l:
                del self.fr.temps[i]
                if self.fr.scopes:
                    self.fr.scopes[-1].append((x, t))
                return

    def x_CXXBindTemporaryExpr(self, n):
        return self.ev(n["c"][0])

    def x_ExprWithCleanups(self, n):
        return self.ev(n["c"][0])

    def x_CXXDefaultArgExpr(self, n):
        return self.ev(n["c"][0])

    def x_CXXDefaultInitExpr(self, n):
        return self.ev(n["c"][0])

    x_ImplicitValueInitExpr = None

    def x_ZeroInit(self, n):
        return self.zero(base_type(n["t"]))

    def zero(self, t):
        if t.endswith("*"):
            return NULL
        if t == "bool":
            return FALSE
        if t in INTS:
            return I(0)
        if t == STRING:
            return EMPTY
        return I(0)

    def x_CXXStdInitializerListExpr(self, n):
        return self.ev(n["c"][0])

    def x_InitListExpr(self, n):
        t = base_type(n["t"])
        if t.startswith("std::initializer_list") or "[" in t:
            return VecV([self.rv(x) for x in n["c"]])
        if self.isrec(t):
            bid = self.alloc(t, "temp")
            self.fr.temps.append((Loc(bid), t))
            self.init_list(n, Loc(bid), t)
            return Loc(bid)
        if len(n["c"]) == 1:
            return self.rv(n["c"][0])
        if not n["c"]:
            return self.zero(t)
        raise Unsupported("initializer list of %s" % t)

    def x_LambdaExpr(self, n):
        env = {}
        this = None
        for c in n["captures"]:
            if c.get("this"):
                this = self.fr.this
            elif c["byref"]:
                env[c["id"]] = self.fr.env[c["id"]]
            else:
                if c.get("init") is not None:
                    t = base_type(c["type"])
                    bid = self.alloc("cap:" + t, "stack")
                    self.init_into(c["init"], Loc(bid), t)
                else:
                    bid = self.alloc("cap", "stack", {(): self.load(self.fr.env[c["id"]])})
                env[c["id"]] = Loc(bid)
        return Rec("lambda", impls=n["impls"], env=env, this=this or self.fr.this)

    def x_CXXNewExpr(self, n):
        t = base_type(n["alloc"])
        if n.get("placement"):
            raise Unsupported("placement new")
        if n["array"]:
            k = self.rv(n["size"])
            k = self.conv(k, "unsigned long")
            if t in ("char", "unsigned char"):
                self.oblige(le(k, I(1 << 62)), "allocation size does not wrap around")
                j = svar(self.fresh("heap"))
                self.assume(eqI(length(j), k))
                bid = self.alloc("char", "new[]", {(): CharArr(j)})
                init = n.get("init")
                if init is not None and init.get("k") != "Construct":
                    # value-initialised array
                    if init["k"] == "InitListExpr" and init["c"] and k.op == "int":
                        parts = [chr_(self.tobyte(self.rv(x))) for x in init["c"]]
                        self.rawset(bid, (), CharArr(cat(*parts, S("\0" * (k.args[0] - len(parts))))))
                    elif init["k"] == "StringLiteral" and k.op == "int":
                        self.init_into(init, Loc(bid), "char[%d]" % k.args[0])
                    elif self.zero_init(init):
                        z = fold(S("\0"), Seg.J, k)
                        self.rawset(bid, (), CharArr(z))
                    else:
                        raise Unsupported("array new with initializer")
                return Ptr(bid)
            if t.endswith("*"):
                cls = base_type(deref_type(t))
                bid = self.alloc("arr:" + cls, "new[]", {(): SegArr(k, cls, (Seg(I(0), k, "uninit"),))})
                return Ptr(bid)
            raise Unsupported("new %s[]" % t)
        if self.isrec(t):
            bid = self.alloc(t, "new", {})
            init = n.get("init")
            if init is not None:
                self.init_into(init, Loc(bid), t, newobj=bid)
            return Ptr(bid)
        bid = self.alloc(t, "new", {})
        v = self.rv(n["init"]) if n.get("init") is not None else UNINIT
        if t in ("char", "unsigned char"):
            self.heap[bid].vals[()] = CharArr(chr_(self.tobyte(v))) if v is not UNINIT else CharArr(svar(self.fresh("heap")))
        else:
            self.heap[bid].vals[()] = v
        return Ptr(bid)

    def zero_init(self, n):
        return n["k"] in ("ZeroInit",) or (n["k"] == "InitListExpr" and not n["c"])

    def x_CXXDeleteExpr(self, n):
        p = self.rv(n["c"][0])
        self.delete(p, n["array"], base_type(n.get("destroyed") or ""))

    def delete(self, p, array, t):
        if isinstance(p, Rec) and p.kind == "deadptr":
            self.fail("memory is released only once")
        if isinstance(p, Rec) and p.kind == "lazy":
            p = p.make(self)
        if p is UNINIT:
            self.fail("delete of an uninitialised pointer")
        if not isinstance(p, Ptr):
            raise Unsupported("delete of %r" % (p,))
        if p.bid is None:
            return
        b = self.heap.get(p.bid)
        if b is None or not b.alive:
            self.fail("memory is released only once")
        if p.off is not I(0) or p.path != ():
            self.oblige(B(p.path == ()) if p.path else eqI(p.off, I(0)), "delete of the pointer that new returned")
        want = "new[]" if array else "new"
        if b.kind != want:
            self.fail("release matches the allocation (%s released with %s)" % (b.kind, "delete[]" if array else "delete"))
        v = b.vals.get(())
        if isinstance(v, SegArr):
            for sg in v.segs:
                if sg.kind == "obj" or sg.kind == "one" and isinstance(sg.gen["ptr"], Ptr) and sg.gen["ptr"].bid is not None and self.heap[sg.gen["ptr"].bid].alive \
                        and self.heap[sg.gen["ptr"].bid].kind == "new":
                    self.oblige(le(sg.hi, sg.lo), "no memory is leaked: the elements of a released array are released first", "frame")
        if self.isrec(b.cls):
            self.destroy(Loc(p.bid), b.cls)
        self.kill(p.bid)

    def x_CXXThrowExpr(self, n):
        s = n["c"][0] if n.get("c") else None
        if s is None:
            raise Throw("rethrow")
        t = base_type(s["t"])
        try:
            v = self.ev(s)
        except Unsupported:
            v = None
        raise Throw(t, v)

    # -------------------------------------------------------------- init
    def init_into(self, n, loc, t, newobj=None):
        """initialise the object at loc (type t) from expression n"""
        while n["k"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "CXXDefaultInitExpr", "CXXDefaultArgExpr") or \
                (n["k"] == "Cast" and n["cast"] in ("NoOp", "ConstructorConversion", "UserDefinedConversion") and self.isrec(t) and base_type(n["c"][0]["t"]) == t
                 and n["c"][0]["vk"] == "r"):
            n = n["c"][0]
        if n["k"] == "MaterializeTemporaryExpr" and n["vk"] != "l" and self.isrec(t):
            n = n["c"][0]
        self.line = n.get("line") or self.line
        if self.isrec(t):
            if n["k"] == "Construct":
                fn = n["fn"]
                if n.get("elidable") and len(n["args"]) == 1:
                    return self.init_into(n["args"][0], loc, t)
                self.construct(fn, n["args"], loc, t, n)
                return
            if n["k"] == "InitListExpr":
                return self.init_list(n, loc, t)
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                self.x_call(n, retloc=loc)
                return
            if n["k"] == "ZeroInit":
                for q, ft in self.prog.allfields(t):
                    self.heap[loc.bid] = self.heap[loc.bid].copy()
                    self.rawset(loc.bid, loc.path + (q,), self.zero(ft))
                return
            if n["k"] == "ConditionalOperator":
                c = self.decide(self.cond(n["c"][0]))
                return self.init_into(n["c"][1 if c else 2], loc, t)
            raise Unsupported("initialisation of %s from %s" % (t, n["k"]))
        if "[" in t and n["k"] == "InitListExpr":
            return self.init_array(n, loc, t)
        if "[" in t and n["k"] == "StringLiteral":
            p = self.ev(n)
            v = self.heap[p.bid].vals[()]
            size = int(t[t.index("[") + 1:t.index("]")])
            s = v.s
            l = length(s).args[0]
            self.rawset(loc.bid, loc.path, CharArr(cat(s, "\0" * (size - l)) if size > l else self.sub(s, I(0), I(size))))
            return
        v = self.rv(n)
        self.store(loc, v)

    def init_array(self, n, loc, t):
        et = base_type(t[:t.index("[")])
        size = int(t[t.index("[") + 1:t.index("]")])
        if et in ("char", "unsigned char"):
            parts = []
            for x in n["c"]:
                parts.append(chr_(self.tobyte(self.rv(x))))
            rest = size - len(parts)
            self.rawset(loc.bid, loc.path, CharArr(cat(*parts, S("\0" * rest))))
            return
        if self.isrec(et) or "[" in t[t.index("]") + 1:]:
            raise Unsupported("array of %s" % et)
        d = {}
        for i, x in enumerate(n["c"]):
            d[i] = self.rv(x)
        self.rawset(loc.bid, loc.path, IntArr(size, d, self.zero(et)))

    def init_list(self, n, loc, t):
        r = self.prog.recs[t]
        fs = r["fields"]
        for i, f in enumerate(fs):
            l = loc.field(f["q"])
            ft = base_type(f["type"])
            if i < len(n["c"]) and n["c"][i] is not None:
                self.init_into(n["c"][i], l, ft)
            elif f.get("init"):
                self.init_into(f["init"], l, ft)
            elif not self.isrec(ft):
                self.store(l, self.zero(ft))

    def uninit(self, loc, t):
        """storage for a variable of type t without initialiser"""
        if t.startswith("std::unique_ptr<"):
            from .lib import uniq, uniq_class
            self.rawset(loc.bid, loc.path, uniq(NULL, uniq_class(t)[1]))
            return
        if "[" in t:
            et = base_type(t[:t.index("[")])
            if t.count("[") > 1:
                raise Unsupported("multi-dimensional array")
            size = int(t[t.index("[") + 1:t.index("]")])
            if et in ("char", "unsigned char"):
                j = svar(self.fresh("stk"))
                self.assume(eqI(length(j), I(size)))
                self.rawset(loc.bid, loc.path, CharArr(j))
            else:
                self.rawset(loc.bid, loc.path, IntArr(size, {}, None))

    def copy_fields(self, src, dst, t):
        b = self.blk(src.bid, "copy")
        self.blk(dst.bid, "copy")
        k = len(src.path)
        for p, v in list(b.vals.items()):
            if p[:k] == src.path:
                self.rawset(dst.bid, dst.path + p[k:], v)

    def x_Construct(self, n):
        t = base_type(n["t"])
        if self.isrec(t):
            bid = self.alloc(t, "temp")
            loc = Loc(bid)
            self.init_into(n, loc, t)
            self.fr.temps.append((loc, t))
            return loc
        if n.get("elidable") and len(n["args"]) == 1:
            return self.rv(n["args"][0])
        return self.libcall(n["fn"], None, n["args"], n)

    def construct(self, fn, args, loc, t, n=None):
        vals = self.bind_args(fn, args)
        self.call_user(fn, loc, vals, None)

    # ------------------------------------------------------------- calls
    def bind_args(self, fn, args):
        out = []
        pts = fn["ptypes"]
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else None
            if pt is None:
                out.append(self.rv(a))
            elif pt.endswith("&"):
                out.append(self.lv(a))
            elif self.isrec(base_type(pt)):
                bid = self.alloc(base_type(pt), "stack")
                self.init_into(a, Loc(bid), base_type(pt))
                out.append(Loc(bid))
            else:
                out.append(self.rv(a))
        return out

    def x_CallExpr(self, n):
        return self.x_call(n)

    x_CXXMemberCallExpr = x_CallExpr
    x_CXXOperatorCallExpr = x_CallExpr
    x_UserDefinedLiteral = x_CallExpr

    def x_call(self, n, retloc=None):
        fn = n.get("fn")
        callee = n.get("callee")
        if fn is None:
            cv = self.ev(callee)
            if isinstance(cv, Loc):
                cv = self.load(cv)
            if isinstance(cv, Rec) and cv.kind == "boundmem":
                return self.call_memptr(cv, n)
            if isinstance(cv, FnPtr):
                f = self.prog.funcs.get(cv.name)
                if f is None:
                    raise Unsupported("call through pointer to %s" % cv.name)
                return self.finish(self.call_user(f, None, self.bind_args(f, n["args"]), retloc), n)
            raise Unsupported("indirect call")
        args = n["args"]
        this = None
        if n["k"] == "CXXMemberCallExpr":
            base = callee["c"][0] if callee.get("c") else None
            if callee["arrow"]:
                this = self.deref(self.rv(base), "member call")
            else:
                this = self.lv(base)
                if this.idx is not None and fn.get("user"):
                    v = self.load(this)
                    if isinstance(v, Loc):
                        this = v
        elif n["k"] == "CXXOperatorCallExpr" and fn.get("cls") and not fn.get("static"):
            this = self.lv(args[0])
            args = args[1:]
        if fn.get("lambdaCall"):
            lam = self.load(this)
            return self.finish(self.call_lambda(lam, [self.lv(a) if p.endswith("&") else self.rv(a) for a, p in zip(args, fn["ptypes"])]), n)
        if not fn.get("user"):
            return self.libcall(fn, this, args, n)
        vals = self.bind_args(fn, args)
        virt = fn.get("virtual") and not (callee and callee.get("qualified"))
        rt = base_type(n["t"])
        if retloc is None and n.get("vk", "r") == "r" and self.isrec(rt) and self.isrec(base_type(fn.get("ret") or "")) and not (fn.get("ret") or "").endswith(("&", "*")):
            loc = Loc(self.alloc(rt, "temp"))
            self.call_user(fn, this, vals, loc, virt, ret=n["t"])
            self.fr.temps.append((loc, rt))
            return loc
        return self.finish(self.call_user(fn, this, vals, retloc, virt, ret=n["t"]), n)

    def finish(self, v, n):
        return v

    def call_memptr(self, bm, n):
        f = bm.fn
        if isinstance(f, Rec) and f.kind == "fnptr?":
            return self.call_group(f.group, bm.this, n)
        if isinstance(f, FnPtr):
            m = self.prog.methods.get(f.name) or self.prog.funcs.get(f.name)
            if m is None:
                raise Unsupported("call through member pointer %s" % f.name)
            vals = self.bind_args(m, n["args"])
            return self.call_user(m, bm.this, vals, None, m.get("virtual"), ret=n["t"])
        if f is UNINIT:
            self.fail("call through an uninitialised member pointer")
        raise Unsupported("call through %r" % (f,))

    def call_group(self, g, this, n):
        c = self.contracts.group(g)
        vals = [self.rv(a) for a in n["args"]]
        return self.contracts.apply(self, c, None, this, vals, None)

    def call_user(self, fn, this, vals, retloc, virt=False, ret=None):
        name = fn["name"]
        self.called.add(fn["key"])
        if virt:
            dyn = self.dyntype(this)
            if dyn is None:
                c = self.contracts.virtual(fn)
                if c is None:
                    raise Unsupported("virtual call of %s" % name)
                return self.contracts.apply(self, c, fn, this, vals, retloc)
            fn = self.prog.dispatch(fn, dyn)
        c = self.contracts.lookup(fn, self)
        if c is not None:
            self.applied.add(c.name)
            return self.contracts.apply(self, c, fn, this, vals, retloc)
        f = self.prog.funcs.get(fn["key"])
        if f is None or f.get("body") is None:
            if fn.get("defaulted") or fn.get("implicit"):
                return self.defaulted(fn, this, vals)
            raise Unsupported("no body for %s" % name)
        return self.run_body(f, this, vals, retloc)

    def dyntype(self, this):
        b = self.heap.get(this.bid)
        if b is None:
            return None
        if this.path:
            return b.meta.get("dyn", {}).get(this.path) or self.path_type(b.cls, this.path)
        d = b.meta.get("dyn")
        if d == "?":
            return None
        return d or b.cls

    def path_type(self, cls, path):
        for q in path:
            t = dict(self.prog.allfields(cls)).get(q)
            if t is None:
                return None
            cls = base_type(t)
        return cls

    def run_body(self, f, this, vals, retloc, lam=None):
        if f["key"] in self.cstack and self.cstack.count(f["key"]) > 2:
            raise Unsupported("recursion in %s" % f["name"])
        if self.cstack:
            self.inlined.add(f["key"])
        fr = Frame(f, this, retloc)
        if lam:
            fr.env.update(lam.env)
            fr.this = lam.this
        self.cstack.append(f["key"])
        self.frames.append(fr)
        line = self.line
        depth = len(self.frames)
        try:
            params = []
            for p, v in zip(f["params"], vals):
                pt = p["type"]
                if pt.endswith("&"):
                    fr.env[p["id"]] = v
                elif isinstance(v, Loc):
                    fr.env[p["id"]] = v
                    params.append((v, base_type(pt)))
                else:
                    bid = self.alloc("par:" + p["name"], "stack", {(): v}, {"t": base_type(pt)})
                    fr.env[p["id"]] = Loc(bid)
                    params.append((Loc(bid), base_type(pt)))
            fr.scopes.append(params)
            rv = None
            try:
                if f.get("ctor"):
                    self.ctor_inits(f, this)
                if f.get("body") is not None:
                    try:
                        self.st(f["body"])
                    except Ret as r:
                        rv = r.v
                    except Throw:
                        if f.get("ctor"):
                            self.unwind_ctor(f, this)
                        raise
                if f.get("dtor"):
                    self.dtor_tail(f, this)
            except (Throw,):
                self.leave_scope(fr)
                raise
            self.leave_scope(fr)
            if rv is None and f["ret"] != "void" and not f.get("ctor") and not f.get("dtor") and retloc is None and f.get("body") is not None:
                if not f["name"].endswith("::main") and f["ret"] not in ("void",):
                    self.fail("function returns a value on every path")
            return rv
        finally:
            del self.frames[depth - 1:]
            self.cstack.pop()
            self.line = line

    def leave_scope(self, fr):
        for loc, t in reversed(fr.scopes.pop()):
            self.destroy(loc, t)
            self.kill(loc.bid)

    def ctor_inits(self, f, this):
        done = []
        b = self.heap[this.bid]
        fr = self.fr
        try:
            for i in f.get("inits", []):
                self.line = i.get("line") or self.line
                if i["kind"] == "base":
                    n = i["init"]
                    while n["k"] in ("ExprWithCleanups",):
                        n = n["c"][0]
                    self.construct(n["fn"], n["args"], this, i["cls"])
                    done.append(("base", i["cls"]))
                    self.end_full(fr)
                elif i["kind"] == "delegate":
                    n = i["init"]
                    while n["k"] in ("ExprWithCleanups",):
                        n = n["c"][0]
                    self.construct(n["fn"], n["args"], this, f["cls"])
                    done.append(("all", f["cls"]))
                    self.end_full(fr)
                else:
                    ft = dict(self.prog.allfields(f["cls"])).get(i["q"], "")
                    self.init_into(i["init"], this.field(i["q"]), base_type(ft))
                    if self.isrec(base_type(ft)):
                        done.append(("field", i["q"], base_type(ft)))
                    self.end_full(fr)
        except Throw:
            fr.ctor_done = done
            self.end_full(fr)
            self.unwind_ctor(f, this)
            raise
        fr.ctor_done = done

    def unwind_ctor(self, f, this):
        for d in reversed(getattr(self.fr, "ctor_done", [])):
            if d[0] == "field":
                self.destroy(this.field(d[1]), d[2])
            elif d[0] in ("base", "all"):
                self.destroy(this, d[1], exact=True)
        self.fr.ctor_done = []

    def dtor_tail(self, f, this):
        cls = f["cls"]
        r = self.prog.recs.get(cls)
        for fd in reversed(r["fields"]):
            t = base_type(fd["type"])
            if self.isrec(t):
                self.destroy(this.field(fd["q"]), t)
        for b in reversed(self.prog.bases(cls)):
            self.destroy(this, b, exact=True)

    def has_dtor(self, t):
        if not self.isrec(t):
            return False
        d = self.prog.dtor(t)
        if d is not None and not d.get("implicit") and not d.get("defaulted"):
            return True
        return any(self.has_dtor(b) for b in self.prog.bases(t)) or any(self.has_dtor(base_type(x["type"])) for x in self.prog.recs[t]["fields"])

    def destroy(self, loc, t, exact=False):
        if t.startswith("std::unique_ptr<") and loc.bid in self.heap:
            v = self.heap[loc.bid].vals.get(loc.path)
            if isinstance(v, Rec) and v.kind == "uniq":
                self.delete(v.p, v.array, "")
            return
        if not self.isrec(t) or not self.has_dtor(t):
            return
        d = self.prog.dtor(t)
        if d is not None:
            c = self.contracts.lookup(d, self)
            if c is not None:
                self.applied.add(c.name)
                self.contracts.apply(self, c, d, loc, [], None)
                return
        f = self.prog.funcs.get(d["key"]) if d else None
        if f is not None and f.get("body") is not None:
            self.called.add(f["key"])
            dyn = None
            b = self.heap[loc.bid]
            if not loc.path and not b.meta.get("dyn") == "?":
                old = b.meta.get("dyn")
                b = b.copy()
                b.meta["dyn"] = t
                self.heap[loc.bid] = b
            self.run_body(f, loc, [], None)
        else:
            self.dtor_tail({"cls": t}, loc)

    def defaulted(self, fn, this, vals):
        """memberwise semantics of defaulted special members"""
        cls = fn["cls"]
        r = self.prog.recs.get(cls)
        if r is None:
            raise Unsupported("defaulted member of %s" % cls)
        if fn.get("ctor") in ("copy", "move"):
            src = vals[0]
            kind = fn["ctor"]
            for b in self.prog.bases(cls):
                m = self.special(b, kind)
                self.call_user(m, this, [src], None)
            for f in r["fields"]:
                t = base_type(f["type"])
                if self.isrec(t):
                    self.call_user(self.special(t, kind), this.field(f["q"]), [src.field(f["q"])], None)
                else:
                    v = self.load(src.field(f["q"]))
                    self.store(this.field(f["q"]), v)
                    if kind == "move":
                        self.moved(src.field(f["q"]), v)
            return None
        if fn.get("ctor") == "default":
            for b in self.prog.bases(cls):
                self.call_user(self.special(b, "default"), this, [], None)
            for f in r["fields"]:
                t = base_type(f["type"])
                if f.get("init"):
                    self.init_into(f["init"], this.field(f["q"]), t)
                elif self.isrec(t):
                    self.call_user(self.special(t, "default"), this.field(f["q"]), [], None)
            return None
        if fn.get("oper") == "=":
            src = vals[0]
            mv = fn["ptypes"][0].endswith("&&")
            for b in self.prog.bases(cls):
                self.call_user(self.special(b, "move=" if mv else "copy="), this, [src], None)
            for f in r["fields"]:
                t = base_type(f["type"])
                if self.isrec(t):
                    self.call_user(self.special(t, "move=" if mv else "copy="), this.field(f["q"]), [src.field(f["q"])], None)
                else:
                    v = self.load(src.field(f["q"]))
                    if mv:
                        self.moved(src.field(f["q"]), v)
                    old = self.heap[this.bid].vals.get(this.field(f["q"]).path)
                    self.store(this.field(f["q"]), v)
                    if old != v:
                        self.lib.drop_shared(self, old)
            return this
        if fn.get("dtor"):
            self.dtor_tail({"cls": cls}, this)
            return None
        raise Unsupported("defaulted %s" % fn["name"])

    def moved(self, loc, v):
        """what a library object holds after it was moved from"""
        if isinstance(v, VecV):
            self.store(loc, VecV([]))
        elif isinstance(v, Rec) and v.kind == "shared":
            self.store(loc, Rec("shared", p=NULL))
        elif isinstance(v, Term) and v.sort == "S":
            self.store(loc, self.newS("moved"))

    def special(self, cls, kind):
        r = self.prog.recs.get(cls)
        for m in r["methods"] if r else ():
            if kind in ("copy", "move", "default") and m.get("ctor") == kind:
                return m
            if kind in ("copy=", "move=") and m.get("oper") == "=" and m["ptypes"][0].endswith("&&") == (kind == "move="):
                return m
        if kind == "move":
            return self.special(cls, "copy")
        if kind == "move=":
            return self.special(cls, "copy=")
        raise Unsupported("no %s member in %s" % (kind, cls))

    def call_lambda(self, lam, vals):
        impl = None
        for f in lam.impls:
            if len(f["params"]) == len(vals):
                impl = f
        if impl is None:
            raise Unsupported("lambda call")
        vals = [v for v in vals]
        out = []
        for p, v in zip(impl["params"], vals):
            pt = p["type"]
            if pt.endswith("&"):
                out.append(v if isinstance(v, Loc) else self.mktemp(base_type(pt), v))
            else:
                if isinstance(v, Loc) and not self.isrec(base_type(pt)):
                    v = self.load(v, base_type(pt))
                if isinstance(v, Term) and v.sort == "I" and base_type(pt) in INTS:
                    v = self.conv(v, base_type(pt))
                out.append(v)
        ret = impl["ret"]
        if self.isrec(base_type(ret)) and not ret.endswith("&"):
            bid = self.alloc(base_type(ret), "temp")
            self.run_body(impl, lam.this, out, Loc(bid), lam)
            self.fr.temps.append((Loc(bid), base_type(ret)))
            return Loc(bid)
        return self.run_body(impl, lam.this, out, None, lam)

    def libcall(self, fn, this, args, n):
        return self.lib.call(self, fn, this, args, n)

    # -------------------------------------------------------- statements
    def st(self, n):
        self.line = n.get("line") or self.line
        m = getattr(self, "s_" + n["k"], None)
        if m is not None:
            return m(n)
        # expression statement
        self.full(n)

    def end_full(self, fr):
        t, fr.temps = fr.temps, []
        for loc, ty in reversed(t):
            self.destroy(loc, ty)
            self.kill(loc.bid)

    def full(self, n, f=None):
        """evaluate a full expression and destroy its temporaries"""
        fr = self.fr
        save, fr.temps = fr.temps, []
        try:
            v = (f or self.ev)(n)
        except Throw:
            self.end_full(fr)
            fr.temps = save
            raise
        self.end_full(fr)
        fr.temps = save
        return v

    def s_CompoundStmt(self, n):
        fr = self.fr
        fr.scopes.append([])
        try:
            for s in n["c"]:
                self.st(s)
        except (Ret, Brk, Cont, Throw):
            self.leave_scope(fr)
            raise
        self.leave_scope(fr)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in n["vars"]:
            self.declare(v)

    def declare(self, v):
        fr = self.fr
        t = v["type"]
        if v.get("static"):
            if not t.startswith("const "):
                raise Unsupported("static local")
        if t.endswith("&"):
            def bind(n):
                l = self.lv(n)
                return l
            # keep temporaries bound to the reference alive
            save, fr.temps = fr.temps, []
            l = self.lv(v["init"])
            keep = [x for x in fr.temps if x[0].bid == l.bid]
            rest = [x for x in fr.temps if x[0].bid != l.bid]
            fr.temps = rest
            self.end_full(fr)
            fr.temps = save
            for x in keep:
                fr.scopes[-1].append(x)
            fr.env[v["id"]] = l
            return
        bt = base_type(t)
        bid = self.alloc("var:" + v["name"], "stack", None, {"t": bt}) if not self.isrec(bt) else self.alloc(bt, "stack")
        loc = Loc(bid)
        init = v.get("init")
        if init is None or (init["k"] == "Construct" and not self.isrec(bt) and init["fn"].get("ctor") == "default" and bt in self.prog.recs):
            self.uninit(loc, bt)
        elif init is not None and bt not in INTS and not self.isrec(bt) and init["k"] == "Construct" and not bt.startswith("std::"):
            pass
        else:
            self.full(init, lambda n: self.init_into(n, loc, bt))
        fr.scopes[-1].append((loc, bt))
        fr.env[v["id"]] = loc

    def s_IfStmt(self, n):
        init, cv, c, th, el = n["c"]
        fr = self.fr
        fr.scopes.append([])
        try:
            if init:
                self.st(init)
            if cv:
                self.st(cv)
            b = self.decide(self.full(c, self.cond))
            if b:
                self.st(th)
            elif el:
                self.st(el)
        except (Ret, Brk, Cont, Throw):
            self.leave_scope(fr)
            raise
        self.leave_scope(fr)

    def s_ReturnStmt(self, n):
        fr = self.fr
        e = n["c"][0] if n.get("c") else None
        if e is None:
            raise Ret(None)
        ret = fr.fn["ret"]
        if ret.endswith("&"):
            v = self.full(e, self.lv)
        elif self.isrec(base_type(ret)):
            self.full(e, lambda x: self.init_into(x, fr.retloc, base_type(ret)))
            v = fr.retloc
        elif ret == "void":
            self.full(e)
            v = None
        else:
            v = self.full(e, self.rv)
        raise Ret(v)

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_SwitchStmt(self, n):
        init, cv, c, body = n["c"]
        fr = self.fr
        fr.scopes.append([])
        try:
            if init:
                self.st(init)
            if cv:
                self.st(cv)
            v = self.full(c, self.rv)
            if body["k"] != "CompoundStmt":
                raise Unsupported("switch body")
            stmts = body["c"]
            labels = []  # (value or None, position, inner statement)
            for i, s in enumerate(stmts):
                while s["k"] in ("CaseStmt", "DefaultStmt"):
                    if s["k"] == "CaseStmt":
                        if s["c"][1] is not None:
                            raise Unsupported("case range")
                        labels.append((int(s["c"][0]["cv"]) if "cv" in s["c"][0] else None, i))
                        s = s["c"][2]
                    else:
                        labels.append(("default", i))
                        s = s["c"][0]
            start = None
            for val, i in labels:
                if val == "default":
                    continue
                if val is None:
                    raise Unsupported("case label")
                if self.decide(eqI(v, I(val))):
                    start = i
                    break
            if start is None:
                for val, i in labels:
                    if val == "default":
                        start = i
            if start is not None:
                fr.scopes.append([])
                try:
                    for s in stmts[start:]:
                        while s["k"] in ("CaseStmt", "DefaultStmt"):
                            s = s["c"][2] if s["k"] == "CaseStmt" else s["c"][0]
                        self.st(s)
                except (Ret, Cont, Throw):
                    self.leave_scope(fr)
                    raise
                except Brk:
                    pass
                self.leave_scope(fr)
        except (Ret, Cont, Throw, Brk):
            self.leave_scope(fr)
            raise
        self.leave_scope(fr)

    def s_CXXTryStmt(self, n):
        fr = self.fr
        try:
            self.st(n["c"][0])
        except Throw as e:
            for h in n["handlers"]:
                t = h.get("type")
                if t is None or self.catches(base_type(t), e.typ):
                    fr.scopes.append([])
                    if h.get("id"):
                        bid = self.alloc("exc", "stack", {(): Rec("exc", typ=e.typ)})
                        fr.env[h["id"]] = Loc(bid)
                    try:
                        self.st(h["body"])
                    except (Ret, Brk, Cont, Throw):
                        self.leave_scope(fr)
                        raise
                    self.leave_scope(fr)
                    return
            raise

    STDEXC = {"std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
              "std::domain_error": "std::logic_error",
              "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception"}

    def catches(self, handler, typ):
        while typ:
            if typ == handler:
                return True
            typ = self.STDEXC.get(typ)
        return False

    # loops are delegated
    def s_WhileStmt(self, n):
        cv, c, body = n["c"]
        if cv:
            raise Unsupported("condition variable in while")
        self.loops.run(self, n, c, body, None, False)

    def s_DoStmt(self, n):
        body, c = n["c"]
        self.loops.run(self, n, c, body, None, True)

    def s_ForStmt(self, n):
        init, cv, c, inc, body = n["c"]
        fr = self.fr
        fr.scopes.append([])
        try:
            if init:
                self.st(init)
            if cv:
                raise Unsupported("condition variable in for")
            self.loops.run(self, n, c, body, inc, False)
        except (Ret, Brk, Cont, Throw):
            self.leave_scope(fr)
            raise
        self.leave_scope(fr)

    def s_CXXForRangeStmt(self, n):
        self.loops.range_for(self, n)


class ChPtr(Ptr):
    """pointer into the characters of a std::string"""
    pass
