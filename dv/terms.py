"""Hash-consed terms: mathematical integers, booleans and byte strings.

A string is a sequence of code points 0..255 (one per byte).  Every string
term has a conservative character set (a 256-bit mask), which is what makes
"this piece contains no NUL / no CR / no LF" a syntactic fact.
Integers are kept in linear normal form, strings as flattened concatenations
("ropes").  Everything here is context free; simplifications that need the
path condition live in the machine.
"""
ALL = (1 << 256) - 1
NONUL = ALL & ~1
_tab = {}
_cnt = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_cs", "_vars")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, args, sort):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t._cs = None
        t._vars = None
        _tab[k] = t
    return t


# ---------------------------------------------------------------- integers
def I(n):
    return _mk("int", (int(n),), "I")


def ivar(name):
    return _mk("iv", (name,), "I")


def lin_parts(t):
    if t.op == "int":
        return t.args[0], ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def mk_lin(const, d):
    items = tuple(sorted(((a, c) for a, c in d.items() if c != 0), key=lambda x: x[0].id))
    if not items:
        return I(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("lin", (const, items), "I")


def add(*ts):
    const = 0
    d = {}
    for t in ts:
        if isinstance(t, int):
            const += t
            continue
        c, items = lin_parts(t)
        const += c
        for a, k in items:
            d[a] = d.get(a, 0) + k
    return mk_lin(const, d)


def scale(k, t):
    if isinstance(t, int):
        return I(k * t)
    c, items = lin_parts(t)
    return mk_lin(c * k, {a: n * k for a, n in items})


def sub(a, b):
    return add(a, scale(-1, b))


def neg(a):
    return scale(-1, a)


def mul(a, b):
    if a.op == "int":
        return scale(a.args[0], b)
    if b.op == "int":
        return scale(b.args[0], a)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), "I")


def fdiv(a, k):
    """floor division by a positive constant"""
    assert k > 0
    if k == 1:
        return a
    if a.op == "int":
        return I(a.args[0] // k)
    c, items = lin_parts(a)
    if all(n % k == 0 for _, n in items):
        return mk_lin(c // k, {t: n // k for t, n in items})
    # pull the multiples of k out
    out, rest = {}, {}
    for t, n in items:
        q = n // k
        if n % k == 0:
            out[t] = q
        else:
            rest[t] = n
    cq = c // k
    inner = mk_lin(c - cq * k, rest)
    lo, hi = rng(inner)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(mk_lin(cq, out), I(lo // k))
    if inner.op == "div":
        inner, k = inner.args[0], inner.args[1] * k
    base = _mk("div", (inner, k), "I")
    return add(mk_lin(cq, out), base)


def rng(t):
    """static interval of an integer term (None = unbounded)"""
    o = t.op
    if o == "int":
        return t.args[0], t.args[0]
    if o == "code":
        cs = charset(t.args[0]) or ALL
        return (cs & -cs).bit_length() - 1, cs.bit_length() - 1
    if o == "mod":
        lo, hi = rng(t.args[0])
        return 0, t.args[1] - 1
    if o == "len":
        return 0, None
    if o == "idx":
        return -1, None
    if o == "iv":
        n = t.args[0]
        if n in RANGES:
            return RANGES[n]
        return (0, None) if n.startswith("n!") else (None, None)
    if o == "ufI":
        return RANGES.get(t.args[0], (None, None))
    if o == "div":
        lo, hi = rng(t.args[0])
        k = t.args[1]
        return (None if lo is None else lo // k), (None if hi is None else hi // k)
    if o == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if o == "lin":
        lo = hi = t.args[0]
        for x, n in t.args[1]:
            a, b = rng(x)
            if n < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + n * a
            hi = None if hi is None or b is None else hi + n * b
        return lo, hi
    return None, None


RANGES = {}


def fmod(a, k):
    assert k > 0
    if k == 1:
        return I(0)
    if a.op == "ite":
        return ite(a.args[0], fmod(a.args[1], k), fmod(a.args[2], k))
    lo, hi = rng(a)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(a, I(-(lo // k) * k))
    c, items = lin_parts(a)
    items = {t: n % k for t, n in items}
    c %= k
    t = mk_lin(c, items)
    if t.op == "int":
        return I(t.args[0] % k)
    if t.op == "mod" and t.args[1] % k == 0:
        return fmod(t.args[0], k)
    lo, hi = rng(t)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(t, I(-(lo // k) * k))
    return _mk("mod", (t, k), "I")


# ---------------------------------------------------------------- booleans
TRUE = _mk("bool", (True,), "B")
FALSE = _mk("bool", (False,), "B")


def B(x):
    return TRUE if x else FALSE


def bvar(name):
    return _mk("bv", (name,), "B")


def Not(a):
    if a.op == "bool":
        return B(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":  # not (t <= 0)  ==  1 - t <= 0
        return le0(sub(I(1), a.args[0]))
    return _mk("not", (a,), "B")


def And(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    res, seen = [], set()
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    for x in res:
        if Not(x) in seen:
            return FALSE
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return _mk("and", tuple(res), "B")


def Or(*xs):
    return Not(And(*[Not(x) for x in xs])) if False else _or(xs)


def _or(xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    res, seen = [], set()
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    for x in res:
        if Not(x) in seen:
            return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return _mk("or", tuple(res), "B")


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a.op == "bool":
        return b if a.args[0] else Not(b)
    if b.op == "bool":
        return a if b.args[0] else Not(a)
    if a.id > b.id:
        a, b = b, a
    return _mk("iff", (a, b), "B")


def le0(t):
    if t.op == "int":
        return B(t.args[0] <= 0)
    c, items = lin_parts(t)
    g = 0
    from math import gcd
    for _, n in items:
        g = gcd(g, abs(n))
    if g > 1:
        t = mk_lin(-((-c) // g), {a: n // g for a, n in items})
        if t.op == "int":
            return B(t.args[0] <= 0)
    # trivially non-negative atoms
    c, items = lin_parts(t)
    if c >= 1 and all(n > 0 and nonneg(a) for a, n in items):
        return FALSE
    if c <= 0 and all(n < 0 and nonneg(a) for a, n in items):
        return TRUE
    return _mk("le0", (t,), "B")


def nonneg(a):
    return a.op in ("len", "code", "mod", "cnt") or (a.op == "iv" and a.args[0].startswith("n!"))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eqI(a, b):
    if isinstance(b, int):
        b = I(b)
    if a is b:
        return TRUE
    d = sub(a, b)
    if d.op == "int":
        return B(d.args[0] == 0)
    c, items = lin_parts(d)
    if c != 0:
        from math import gcd
        g = 0
        for _, n in items:
            g = gcd(g, abs(n))
        if c % g:
            return FALSE
    if c > 0 and all(n > 0 and nonneg(x) for x, n in items):
        return FALSE
    if c < 0 and all(n < 0 and nonneg(x) for x, n in items):
        return FALSE
    if len(items) == 1 and items[0][0].op == "ite" and items[0][0].args[1].op == "int" and items[0][0].args[2].op == "int":
        it = items[0][0]
        n = items[0][1]
        e1 = c + n * it.args[1].args[0] == 0
        e2 = c + n * it.args[2].args[0] == 0
        return ite(it.args[0], B(e1), B(e2))
    if items[0][1] < 0:
        d = neg(d)
    return _mk("eqI", (d,), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return Not(c)
        if a is TRUE:
            return Or(c, b)
        if b is FALSE:
            return And(c, a)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        return And(Or(Not(c), a), Or(c, b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


# ---------------------------------------------------------------- strings
def S(s):
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return _mk("str", (s,), "S")


EMPTY = S("")


def svar(name, cs=ALL):
    return _mk("sv", (name, cs), "S")


def charset(t):
    if t._cs is not None:
        return t._cs
    o = t.op
    if o == "str":
        m = 0
        for ch in t.args[0]:
            m |= 1 << ord(ch)
    elif o == "sv":
        m = t.args[1]
    elif o == "cat":
        m = 0
        for a in t.args:
            m |= charset(a)
    elif o == "sub":
        m = charset(t.args[0])
    elif o == "ite":
        m = charset(t.args[1]) | charset(t.args[2])
    elif o == "fold":
        m = charset(t.args[0])
    elif o == "chr":
        m = ALL
        a = t.args[0]
        if a.op == "code":
            m = charset(a.args[0])
    elif o == "ufS":
        m = t.args[2]
    elif o == "rall":
        m = charset(t.args[0]) | charset(t.args[2])
    else:
        m = ALL
    t._cs = m
    return m


def has(t, ch):
    return bool(charset(t) >> (ord(ch) if isinstance(ch, str) else ch) & 1)


def cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            x = S(x)
        if x.op == "cat":
            items = x.args
        else:
            items = (x,)
        for y in items:
            if y.op == "str":
                if y.args[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].args[0] + y.args[0])
                    continue
            if out and y.op == "sub" and out[-1].op == "sub" and y.args[0] is out[-1].args[0]:
                p = out[-1]
                # sub(s,o,n) ++ sub(s,o+n,m)  ->  sub(s,o,n+m)   (both in range by construction)
                if add(p.args[1], p.args[2]) is y.args[1]:
                    out[-1] = mk_sub_raw(p.args[0], p.args[1], add(p.args[2], y.args[2]))
                    if out[-1].op == "cat":
                        z = out.pop()
                        out.extend(z.args)
                    continue
            if out and y.op == "chr" and out[-1].op == "str" and y.args[0].op == "int":
                out[-1] = S(out[-1].args[0] + chr(y.args[0].args[0]))
                continue
            # fold(b,v,k) ++ b[v:=k]  is left alone: the machine unfolds on demand
            out.append(y)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return _mk("cat", tuple(out), "S")


def atoms(t):
    if t.op == "cat":
        return t.args
    if t is EMPTY:
        return ()
    return (t,)


def mk_sub_raw(s, off, n):
    """substring known to be in range: 0<=off, n>=0, off+n<=len(s)"""
    if n.op == "int" and n.args[0] == 0:
        return EMPTY
    if off.op == "int" and off.args[0] == 0 and n is length(s):
        return s
    if s.op == "str" and off.op == "int" and n.op == "int":
        return S(s.args[0][off.args[0]:off.args[0] + n.args[0]])
    if s.op == "sub":
        return mk_sub_raw(s.args[0], add(s.args[1], off), n)
    if s.op == "chr" and n.op == "int" and n.args[0] == 1:
        return s
    return _mk("sub", (s, off, n), "S")


def length(t):
    o = t.op
    if o == "str":
        return I(len(t.args[0]))
    if o == "cat":
        return add(*[length(a) for a in t.args])
    if o == "sub":
        return t.args[2]
    if o == "chr":
        return I(1)
    if o == "ite":
        a, b = length(t.args[1]), length(t.args[2])
        return ite(t.args[0], a, b)
    if o == "fold":
        w = length(t.args[0])
        if w.op == "int":
            return scale(w.args[0], t.args[2])
    if o == "ufS" and t.args[0] in LENPRES:
        return length(t.args[1][0])
    return _mk("len", (t,), "I")


LENPRES = {"upper", "lower"}


def chr_(i):
    if i.op == "int":
        return S(chr(i.args[0] & 255))
    if i.op == "code":
        s, p = i.args
        return _mk("chr", (i,), "S") if False else mk_sub_raw(s, p, I(1))
    return _mk("chr", (i,), "S")


def code(s, i):
    """code of the byte at position i (in range)"""
    if i.op == "int":
        p = i.args[0]
        at = atoms(s)
        for a in at:
            l = length(a)
            if l.op != "int":
                break
            if p < l.args[0]:
                if a.op == "str":
                    return I(ord(a.args[0][p]))
                if a.op == "chr":
                    return a.args[0]
                if a.op == "sub":
                    return code(a.args[0], add(a.args[1], I(p)))
                return _mk("code", (a, I(p)), "I")
            p -= l.args[0]
    if s.op == "chr":
        return s.args[0]
    if s.op == "sub":
        return code(s.args[0], add(s.args[1], i))
    return _mk("code", (s, i), "I")


def fold(body, var, k):
    """concat of body[var:=j] for j = 0..k-1"""
    if k.op == "int":
        if k.args[0] <= 0:
            return EMPTY
        if k.args[0] <= 4:
            return cat(*[subst(body, {var: I(j)}) for j in range(k.args[0])])
    if body is EMPTY:
        return EMPTY
    # canonical bound variable
    bv = ivar("?" + str(_depth(body)))
    if var is not bv:
        body = subst(body, {var: bv})
    return _mk("fold", (body, bv, k), "S")


def _depth(t):
    d = [0]

    def w(x):
        if isinstance(x, Term):
            if x.op == "fold":
                d[0] = max(d[0], 1 + int(x.args[1].args[0][1:]))
            for a in x.args:
                w(a)
        elif isinstance(x, tuple):
            for a in x:
                w(a)
    w(t)
    return d[0]


def ufS(name, args, cs=ALL):
    return _mk("ufS", (name, tuple(args), cs), "S")


def ufI(name, args):
    if name == "vlen":
        return vlen(args[0])
    return _mk("ufI", (name, tuple(args)), "I")


def ufB(name, args):
    if name == "vhas":
        return vhas(*args)
    return _mk("ufB", (name, tuple(args)), "B")


# vectors of strings, as opaque terms: vnil, vpush(v, x); vhas(v, k, w): w is among the first k elements

def vnil():
    return svar("vnil")


def vpush(v, x):
    return ufS("vpush", [v, x])


def vlen(v):
    if v.op == "sv" and v.args[0] == "vnil":
        return I(0)
    if v.op == "ufS" and v.args[0] == "vpush":
        return add(vlen(v.args[1][0]), I(1))
    return _mk("ufI", ("vlen", (v,)), "I")


def velem(v, i):
    return ufS("velem", [v, i])


def vhas(v, k, w):
    if k is I(0) or v.op == "sv" and v.args[0] == "vnil":
        return FALSE
    if v.op == "ufS" and v.args[0] == "vpush" and k is vlen(v):
        u, x = v.args[1]
        return Or(vhas(u, vlen(u), w), eqS(x, w))
    return _mk("ufB", ("vhas", (v, k, w)), "B")


def eqS(a, b):
    if a is b:
        return TRUE
    la, lb = list(atoms(a)), list(atoms(b))
    # strip common prefix / suffix
    while la and lb:
        x, y = la[0], lb[0]
        if x is y:
            la.pop(0)
            lb.pop(0)
            continue
        if x.op == "str" and y.op == "str":
            p, q = x.args[0], y.args[0]
            m = min(len(p), len(q))
            if p[:m] != q[:m]:
                return FALSE
            la[0], lb[0] = S(p[m:]), S(q[m:])
            if p[m:] == "":
                la.pop(0)
            if q[m:] == "":
                lb.pop(0)
            continue
        break
    while la and lb:
        x, y = la[-1], lb[-1]
        if x is y:
            la.pop()
            lb.pop()
            continue
        if x.op == "str" and y.op == "str":
            p, q = x.args[0], y.args[0]
            m = min(len(p), len(q))
            if p[len(p) - m:] != q[len(q) - m:]:
                return FALSE
            la[-1], lb[-1] = S(p[:len(p) - m]), S(q[:len(q) - m])
            if len(p) == m:
                la.pop()
            if len(q) == m:
                lb.pop()
            continue
        break
    if not la and not lb:
        return TRUE
    a, b = cat(*la), cat(*lb)
    if eqI(length(a), length(b)) is FALSE:
        return FALSE
    # a character demanded by a constant that the other side cannot contain
    for x, y in ((a, b), (b, a)):
        need = 0
        for t in atoms(x):
            if t.op == "str":
                need |= charset(t)
        if need & ~charset(y):
            return FALSE
    if a.op == "str" and b.op == "ite" and b.args[1].op == "str" and b.args[2].op == "str":
        return ite(b.args[0], B(a is b.args[1]), B(a is b.args[2]))
    if b.op == "str" and a.op == "ite" and a.args[1].op == "str" and a.args[2].op == "str":
        return ite(a.args[0], B(b is a.args[1]), B(b is a.args[2]))
    if a is EMPTY or b is EMPTY:
        o = b if a is EMPTY else a
        return eqI(length(o), I(0))
    if a.id > b.id:
        a, b = b, a
    return _mk("eqS", (a, b), "B")


def eq(a, b):
    if a.sort == "I":
        return eqI(a, b)
    if a.sort == "S":
        return eqS(a, b)
    return Iff(a, b)


def prefixof(p, s):
    if p is EMPTY or p is s:
        return TRUE
    la, lb = list(atoms(p)), list(atoms(s))
    while la and lb:
        x, y = la[0], lb[0]
        if x is y:
            la.pop(0)
            lb.pop(0)
            continue
        if x.op == "str" and y.op == "str":
            m = min(len(x.args[0]), len(y.args[0]))
            if x.args[0][:m] != y.args[0][:m]:
                return FALSE
            la[0], lb[0] = S(x.args[0][m:]), S(y.args[0][m:])
            if la[0] is EMPTY:
                la.pop(0)
            if lb[0] is EMPTY:
                lb.pop(0)
            continue
        break
    if not la:
        return TRUE
    if not lb:
        return eqI(length(cat(*la)), I(0))
    if la[0].op == "str" and not has(cat(*lb), la[0].args[0][0]):
        return FALSE
    return _mk("prefixof", (cat(*la), cat(*lb)), "B")


def contains(s, p):
    """p occurs in s"""
    if p is EMPTY:
        return TRUE
    if s.op == "str" and p.op == "str":
        return B(p.args[0] in s.args[0])
    for a in atoms(s):
        if a.op == "str" and p.op == "str" and p.args[0] in a.args[0]:
            return TRUE
    if p.op == "str":
        m = charset(s)
        for ch in p.args[0]:
            if not (m >> ord(ch)) & 1:
                return FALSE
        if len(p.args[0]) == 1:
            parts = []
            for a in atoms(s):
                if not has(a, p.args[0]):
                    continue
                if a.op == "ite":
                    parts.append(ite(a.args[0], contains(a.args[1], p), contains(a.args[2], p)))
                else:
                    parts.append(_mk("contains", (a, p), "B"))
            return Or(*parts)
    return _mk("contains", (s, p), "B")


def indexof_raw(s, p, i):
    if s.op == "str" and p.op == "str" and i.op == "int":
        return I(s.args[0].find(p.args[0], i.args[0])) if i.args[0] >= 0 else I(-1)
    return _mk("idx", (s, p, i), "I")


def rall(s, f, t):
    """replace every occurrence, left to right"""
    if s.op == "str":
        return S(s.args[0].replace(f.args[0], t.args[0]))
    # split at atoms that cannot take part in an occurrence
    fs = charset(f)
    at = atoms(s)
    out, cur = [], []

    def flush():
        if cur:
            x = cat(*cur)
            cur.clear()
            if x.op == "str":
                out.append(S(x.args[0].replace(f.args[0], t.args[0])))
            elif x.op == "ite":
                out.append(ite(x.args[0], rall(x.args[1], f, t), rall(x.args[2], f, t)))
            else:
                out.append(_mk("rall", (x, f, t), "S"))
    first, last = f.args[0][0], f.args[0][-1]
    for a in at:
        if not (charset(a) & fs):
            flush()
            out.append(a)
            continue
        # a boundary between x and y cannot be crossed if x cannot end inside a
        # proper prefix of f: sufficient: x cannot contain the first char of f,
        # or y cannot contain any later char of f
        if cur:
            x, y = cat(*cur), a
            rest = charset(S(f.args[0][1:]))
            starts = charset(S(f.args[0][:-1]))
            if not (_lastset(x) & starts) or not (_firstset(y) & rest):
                flush()
        cur.append(a)
    flush()
    return cat(*out)


def _lastset(t):
    a = atoms(t)[-1]
    if a.op == "str":
        return 1 << ord(a.args[0][-1])
    return charset(a)


def _firstset(t):
    a = atoms(t)[0]
    if a.op == "str":
        return 1 << ord(a.args[0][0])
    return charset(a)


def inre(s, name):
    return _mk("inre", (s, name), "B")


# ---------------------------------------------------------------- generic
def rebuild(t, f):
    """rebuild t with its immediate sub-terms mapped by f"""
    o, a = t.op, t.args
    if o in ("int", "bool", "str", "iv", "bv", "sv"):
        return t
    if o == "lin":
        return add(I(a[0]), *[scale(n, f(x)) for x, n in a[1]])
    if o == "mul":
        return mul(f(a[0]), f(a[1]))
    if o == "div":
        return fdiv(f(a[0]), a[1])
    if o == "mod":
        return fmod(f(a[0]), a[1])
    if o == "not":
        return Not(f(a[0]))
    if o == "and":
        return And(*[f(x) for x in a])
    if o == "or":
        return Or(*[f(x) for x in a])
    if o == "iff":
        return Iff(f(a[0]), f(a[1]))
    if o == "le0":
        return le0(f(a[0]))
    if o == "eqI":
        return eqI(f(a[0]), I(0))
    if o == "ite":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if o == "cat":
        return cat(*[f(x) for x in a])
    if o == "sub":
        return mk_sub_raw(f(a[0]), f(a[1]), f(a[2]))
    if o == "len":
        return length(f(a[0]))
    if o == "chr":
        return chr_(f(a[0]))
    if o == "code":
        return code(f(a[0]), f(a[1]))
    if o == "fold":
        b = f(a[0])
        return fold(b, a[1], f(a[2]))
    if o == "ufS":
        return ufS(a[0], [f(x) for x in a[1]], a[2])
    if o == "ufI":
        return ufI(a[0], [f(x) for x in a[1]])
    if o == "ufB":
        return ufB(a[0], [f(x) for x in a[1]])
    if o == "eqS":
        return eqS(f(a[0]), f(a[1]))
    if o == "prefixof":
        return prefixof(f(a[0]), f(a[1]))
    if o == "contains":
        return contains(f(a[0]), f(a[1]))
    if o == "idx":
        return indexof_raw(f(a[0]), f(a[1]), f(a[2]))
    if o == "rall":
        return rall(f(a[0]), f(a[1]), f(a[2]))
    if o == "inre":
        return inre(f(a[0]), a[1])
    raise Exception("rebuild " + o)


def subst(t, m):
    cache = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = cache.get(x)
        if r is None:
            if not (free_vars(x) & m_keys):
                r = x
            else:
                r = rebuild(x, go)
            cache[x] = r
        return r
    m_keys = frozenset(m.keys())
    if any(k.op not in ("iv", "bv", "sv") for k in m_keys):
        cache2 = {}

        def go2(x):
            r = m.get(x)
            if r is not None:
                return r
            r = cache2.get(x)
            if r is None:
                r = rebuild(x, go2)
                cache2[x] = r
            return r
        return go2(t)
    return go(t)


def subterms_of(t):
    o, a = t.op, t.args
    if o in ("int", "bool", "str", "iv", "bv", "sv"):
        return ()
    if o == "lin":
        return tuple(x for x, _ in a[1])
    if o in ("div", "mod", "inre"):
        return (a[0],)
    if o in ("ufS", "ufI", "ufB"):
        return a[1]
    return tuple(x for x in a if isinstance(x, Term))


def free_vars(t):
    if t._vars is not None:
        return t._vars
    if t.op in ("iv", "bv", "sv"):
        r = frozenset((t,))
    elif t.op == "fold":
        r = (free_vars(t.args[0]) - {t.args[1]}) | free_vars(t.args[2])
    else:
        r = frozenset()
        for x in subterms_of(t):
            r |= free_vars(x)
    t._vars = r
    return r


def all_subterms(ts):
    seen = set()
    order = []
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        order.append(x)
        st.extend(subterms_of(x))
    return order


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    o, a = t.op, t.args
    if d > 40:
        return "..."
    sh = lambda x: show(x, d + 1)
    if o in ("int", "bool"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o in ("iv", "bv", "sv"):
        return a[0]
    if o == "lin":
        s = " + ".join((sh(x) if n == 1 else "%d*%s" % (n, sh(x))) for x, n in a[1])
        return "(%s%s)" % (s, "" if a[0] == 0 else " + %d" % a[0])
    if o == "le0":
        return "(%s <= 0)" % sh(a[0])
    if o == "eqI":
        return "(%s == 0)" % sh(a[0])
    if o == "eqS":
        return "(%s == %s)" % (sh(a[0]), sh(a[1]))
    if o == "cat":
        return "(" + " ++ ".join(sh(x) for x in a) + ")"
    if o == "fold":
        return "fold(%s. %s, %s)" % (a[1].args[0], sh(a[0]), sh(a[2]))
    if o in ("ufS", "ufI", "ufB"):
        return "%s(%s)" % (a[0], ", ".join(sh(x) for x in a[1]))
    return "%s(%s)" % (o, ", ".join(sh(x) for x in a))
