"""Loops: unrolled when every test is settled by the path, otherwise handled by
an inferred and inductively verified invariant (see generic.py)."""
from .terms import *
from .machine import *
from .interp import base_type

LIMIT = 70


class Loops:
    def run(self, I_, n, c, body, inc, do):
        def cond():
            return TRUE if c is None else I_.full(c, I_.cond)

        def bodyf():
            I_.st(body)

        def incf():
            if inc is not None:
                I_.full(inc)
        self.drive(I_, n, cond, bodyf, incf, do)

    def drive(self, I_, n, cond, bodyf, incf, do):
        it = 0
        snap = None
        nt = len(I_.trace)
        few = False
        if not do and self.counted(I_, cond, bodyf, incf):
            return
        while True:
            if not (do and it == 0):
                if few:
                    ok, b = True, I_.decide(cond())
                else:
                    ok, b = I_.peek(lambda: I_.decide(cond()))
                if not ok and it == 0 and not I_.peeking and self.few(I_, cond, bodyf, incf):
                    few = ok = True
                    b = I_.decide(cond())
                if not ok:
                    if snap is not None and it <= 2:
                        # not settled after all: from the start
                        I_.release(snap)
                    return self.generic(I_, n, cond, bodyf, incf)
                if not b:
                    return
            elif not self.once(I_, n):
                return self.generic(I_, n, cond, bodyf, incf, skip=True)
            if it > LIMIT:
                return self.generic(I_, n, cond, bodyf, incf)
            if it == 1 and snap is not None and len(I_.trace) > nt and self.long(I_, cond, bodyf, incf, 9):
                # many iterations that each take several paths
                I_.release(snap)
                return self.generic(I_, n, cond, bodyf, incf)
            if it == 0 and not do and not I_.peeking:
                snap = I_.snapshot()
            it += 1
            try:
                bodyf()
            except Brk:
                return
            except Cont:
                pass
            incf()

    def few(self, I_, cond, bodyf, incf):
        """(quietly) the number of iterations is at most four on every path, and the loop test shows it"""
        def probe():
            n = len(I_.facts)
            return I_.decide(cond()), I_.facts[n:]
        near = []
        I_.quiet += 1
        try:
            for kind, val in I_.explore(probe):
                if kind == "ok" and val[0]:
                    fs = [g for f in val[1] for g in ([f] if f.op != "and" else f.args) if g.op == "le0" and g.args[0].op != "int"]
                    snap = I_.snapshot()
                    near.append(any(I_.proves(ge(g.args[0], I(-4))) for g in fs))
                    I_.release(snap)
            if not near or not all(near):
                return False
            return self.ends(I_, cond, bodyf, incf, 4, [40])
        except Unsupported:
            return False
        finally:
            I_.quiet -= 1

    def ends(self, I_, cond, bodyf, incf, d, fuel):
        fuel[0] -= 1
        if fuel[0] < 0:
            return False

        def one():
            if not I_.decide(cond()):
                return False
            try:
                bodyf()
            except Brk:
                return False
            except Cont:
                pass
            incf()
            return True
        for kind, val in I_.explore(one):
            if kind == "ok" and val and (d == 0 or not self.ends(I_, cond, bodyf, incf, d - 1, fuel)):
                return False
        return True

    def long(self, I_, cond, bodyf, incf, d, fuel=None):
        """(quietly) the loop can go on for d more iterations"""
        fuel = fuel or [60]
        fuel[0] -= 1
        if fuel[0] < 0:
            return False

        def one():
            if not I_.decide(cond()):
                return False
            bodyf()
            incf()
            return True
        I_.quiet += 1
        try:
            for kind, val in I_.explore(one):
                if kind == "ok" and val:
                    if d == 0 or self.long(I_, cond, bodyf, incf, d - 1, fuel):
                        return True
            return False
        except Unsupported:
            return False
        finally:
            I_.quiet -= 1

    def once(self, I_, n):
        """do { } while (0)"""
        c = n["c"][1] if n["k"] == "DoStmt" else None
        return c is not None and c.get("cv") in ("0", "false")

    def generic(self, I_, n, cond, bodyf, incf, skip=False):
        from .generic import generic
        return generic(I_, n, cond, bodyf, incf, skip)

    def for_index(self, I_, n, lo, hi, f):
        """synthetic counting loop calling f(index)"""
        bid = I_.alloc("idx", "stack", {(): lo})
        loc = Loc(bid)
        I_.fr.scopes.append([(loc, "long")])
        try:
            self.drive(I_, n, lambda: lt(I_.load(loc), hi), lambda: f(I_.load(loc)), lambda: I_.store(loc, add(I_.load(loc), I(1))), False)
        except (Ret, Brk, Cont, Throw):
            I_.leave_scope(I_.fr)
            raise
        I_.leave_scope(I_.fr)

    def for_elems(self, I_, n, cloc, f):
        v = I_.load(cloc)
        if isinstance(v, VecV):
            hi = v.size()
        elif isinstance(v, Term) and v.sort == "S":
            hi = length(v)
        elif isinstance(v, CharArr):
            hi = length(v.s)
        elif isinstance(v, IntArr):
            hi = I(v.n)
        else:
            raise Unsupported("iteration over %r" % (v,))
        g = lambda i: f(Loc(cloc.bid, cloc.path, i))
        if isinstance(v, VecV) and v.arr is not None and v.arr.byval and self.mapped(I_, n, hi, g):
            return
        self.for_index(I_, n, I(0), hi, g)

    def mapped(self, I_, n, hi, f, ctr=None, put=None):
        """a loop whose only effect is to append one object, a function of the element alone, to an empty vector"""
        if hi.op == "int":
            return False
        if I_.decide(eqI(hi, I(0))):
            return ctr is None
        snap = I_.snapshot()
        saved = I_.peeking
        ok = False
        I_.quiet += 1
        I_.peeking = 1
        try:
            ok = self.map_once(I_, hi, f, ctr) is not None
        except (Unsupported, Bad, PathEnd, Throw, Brk, Cont, Ret, Peek):
            pass
        finally:
            I_.quiet -= 1
            I_.peeking = saved
            I_.release(snap)
        if not ok:
            return False
        bid, path, gen, cls = self.map_once(I_, hi, f, ctr)
        if put is not None:
            put(hi)
        I_.rawset(bid, path, VecV(None, SegArr(hi, cls, (Seg(I(0), hi, "obj", I_.fresh("fam"), gen, cls),), True)))
        I_.purge_elems()
        return True

    def counted(self, I_, cond, bodyf, incf):
        """a loop written with an index or an iterator that appends one object per element to an empty vector"""
        vecs = [v for b in I_.heap.values() if b.alive for v in b.vals.values() if isinstance(v, VecV)]
        his = dict.fromkeys(v.arr.n for v in vecs if v.arr is not None and v.arr.byval and v.arr.n.op != "int")
        if not his or not any(v.elems == [] for v in vecs) or I_.peek(lambda: I_.decide(cond())) == (True, False):
            return False
        at = lambda v: v.pos if isinstance(v, Rec) and v.kind == "iter" and not v.rev else v
        for bid, b in list(I_.heap.items()):
            v = b.vals.get(())
            if b.kind != "stack" or not b.alive or at(v) is not I(0):
                continue

            def put(i, bid=bid, v=v):
                I_.rawset(bid, (), Rec("iter", loc=v.loc, pos=i, rev=False) if isinstance(v, Rec) else i)

            def f(i, bid=bid):
                put(i)
                if not I_.decide(cond()):
                    raise Unsupported("ends early")
                bodyf()
                incf()
                if not I_.eqP(at(I_.heap[bid].vals.get(())), add(i, I(1))):
                    raise Unsupported("not a counter")

            for hi in his:
                snap = I_.snapshot()
                saved = I_.peeking
                ok = False
                I_.quiet += 1
                I_.peeking = 1
                try:
                    I_.assume(ge(hi, I(1)))
                    j = I_.newI("j")
                    I_.assume(And(ge(j, I(0)), lt(j, hi)))
                    put(j)
                    if I_.decide(cond()):
                        put(hi)
                        ok = not I_.decide(cond())
                except (Unsupported, Bad, PathEnd, Throw, Brk, Cont, Ret, Peek):
                    pass
                finally:
                    I_.quiet -= 1
                    I_.peeking = saved
                    I_.release(snap)
                if ok and self.mapped(I_, None, hi, f, bid, put):
                    return True
        return False

    def map_once(self, I_, hi, f, ctrbid=None):
        """one iteration for an arbitrary element: (where the object is appended, its contents by index), or None"""
        before, ghost, ctr = dict(I_.heap), dict(I_.ghost), I_.ctr
        before.pop(ctrbid, None)
        j = I_.newI("j")
        I_.assume(And(ge(j, I(0)), lt(j, hi)))
        f(j)
        if I_.ghost != ghost:
            return None
        out = None
        for bid, b in before.items():
            w = I_.heap.get(bid)
            if w is None:
                return None
            if w is b or not b.alive:
                continue
            if w.alive != b.alive or w.meta != b.meta:
                return None
            for p in set(b.vals) | set(w.vals):
                x, y = b.vals.get(p), w.vals.get(p)
                if x is y or x == y:
                    continue
                if out is not None or not (isinstance(x, VecV) and x.elems == [] and isinstance(y, VecV) and y.elems is not None and len(y.elems) == 1):
                    return None
                z = y.elems[0]
                if not (isinstance(z, Rec) and z.kind == "objval"):
                    return None
                out = (bid, p, z)
        for bid, b in I_.heap.items():
            if bid not in before and b.alive and b.kind in ("new", "new[]") and not b.meta.get("famobj"):
                return None                                   # something is left over
        if out is None:
            return None
        gen = {}
        for q, t in out[2].gen.items():
            for v in free_vars(t):
                nm = v.args[0]
                if v is not j and "!" in nm and nm.rsplit("!", 1)[1].isdigit() and int(nm.rsplit("!", 1)[1]) > ctr:
                    return None                               # depends on more than the element
            gen[q] = subst(t, {j: Seg.J})
        return out[0], out[1], gen, out[2].cls

    def elem(self, I_, x, fr):
        """a constant element that is itself an object"""
        if isinstance(x, Rec):
            bid = I_.alloc("pair", "stack", {(): x})
        else:
            bid = I_.alloc("elem", "stack", {(): x})
        fr.scopes[-1].append((Loc(bid), "elem"))
        return Loc(bid)

    def range_for(self, I_, n):
        rng_, body = n["c"][0], n["c"][1]
        if len(n["c"]) > 2 and n["c"][2] is not None:
            raise Unsupported("range-for with initializer")
        fr = I_.fr
        fr.scopes.append([])
        save, fr.temps = fr.temps, []
        try:
            v = I_.ev(rng_)
            if not isinstance(v, Loc):
                v = I_.mktemp(base_type(rng_["t"]), v)
            fr.scopes[-1].extend(fr.temps)
            fr.temps = save
            var = n["var"]
            vt = var["type"]
            bt = base_type(vt)

            def one(el):
                fr = I_.fr
                fr.scopes.append([])
                try:
                    if vt.endswith("&"):
                        x = I_.load(el)
                        if isinstance(x, Loc):
                            el = x
                        elif vt.startswith("const ") and isinstance(I_.heap[el.bid].vals.get(el.path), VecV) and (isinstance(x, Term) and x.sort == "S" or isinstance(x, Rec) and x.kind == "pair"):
                            el = self.elem(I_, x, fr)
                        elif not isinstance(I_.heap[el.bid].vals.get(el.path), (VecV, IntArr)) or not vt.startswith("const "):
                            pass
                        fr.env[var["id"]] = el
                    else:
                        if I_.isrec(bt):
                            raise Unsupported("range-for by value over objects")
                        x = I_.load(el, "char")
                        bid = I_.alloc("var:" + var["name"], "stack", {(): x})
                        fr.env[var["id"]] = Loc(bid)
                        fr.scopes[-1].append((Loc(bid), bt))
                    I_.st(body)
                except (Ret, Brk, Cont, Throw):
                    I_.leave_scope(fr)
                    raise
                I_.leave_scope(fr)
            self.for_elems(I_, n, v, one)
        except (Ret, Brk, Cont, Throw):
            I_.leave_scope(I_.fr)
            raise
        I_.leave_scope(I_.fr)
