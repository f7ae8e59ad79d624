"""Models (trusted contracts) of the library functions the code calls.

Every model works on the abstract value of the library object: a std::string is
its byte sequence, a stream is the bytes written so far, a vector is the
sequence of its elements."""
import re

from .terms import *
from .machine import *
from .interp import base_type, ChPtr, STRING

WS = 0
for _c in (9, 10, 11, 12, 13, 32):
    WS |= 1 << _c
DIGITS = sum(1 << c for c in range(48, 58))
ALPHA = sum(1 << c for c in list(range(65, 91)) + list(range(97, 123)))
NPOS = (1 << 64) - 1
ALNUM = DIGITS | ALPHA
CLS = {"isspace": WS, "isdigit": DIGITS, "isalpha": ALPHA, "isalnum": ALNUM,
       "isupper": sum(1 << c for c in range(65, 91)), "islower": sum(1 << c for c in range(97, 123)),
       "isprint": sum(1 << c for c in range(32, 127)), "iscntrl": sum(1 << c for c in list(range(32)) + [127]),
       "isxdigit": DIGITS | sum(1 << c for c in list(range(65, 71)) + list(range(97, 103))),
       "ispunct": sum(1 << c for c in range(33, 127)) & ~ALNUM, "isblank": (1 << 9) | (1 << 32), "isgraph": sum(1 << c for c in range(33, 127))}


def in_mask(c, mask):
    """c (an int term) lies in the character set"""
    out = []
    k = 0
    while k < 256:
        if (mask >> k) & 1:
            e = k
            while e + 1 < 256 and (mask >> (e + 1)) & 1:
                e += 1
            out.append(And(ge(c, I(k)), le(c, I(e))) if e > k else eqI(c, I(k)))
            k = e + 1
        else:
            k += 1
    return Or(*out)


def spanI(mask, s, rev=False):
    """length of the longest prefix (suffix) of s made of characters of mask"""
    if s.op == "str":
        t = s.args[0][::-1] if rev else s.args[0]
        k = 0
        while k < len(t) and (mask >> ord(t[k])) & 1:
            k += 1
        return I(k)
    return ufI("%sspan:%x" % ("r" if rev else "", mask), [s])


def lower(s):
    return ufS("lower", [s], charset(s) & ~CLS["isupper"] | CLS["islower"])


def upper(s):
    return ufS("upper", [s], charset(s) & ~CLS["islower"] | CLS["isupper"])


class Lib:
    def __init__(self):
        self.net = None
        self.write_bytes = write_bytes
        self.drop_shared = drop_shared

    def call(self, I_, fn, this, args, n):
        name = fn["name"]
        h = TABLE.get(name)
        if h is None:
            short = name.split("::")[-1]
            cls = name.rsplit("::", 1)[0]
            if name.startswith("std::basic_string<char>::"):
                h = TABLE.get("string::" + short)
            elif cls.startswith(("std::basic_stringstream", "std::basic_ostringstream", "std::basic_ostream", "std::basic_istringstream")):
                h = TABLE.get("stream::" + short)
            elif cls.startswith(("std::basic_ifstream", "std::basic_ios", "std::basic_istream")):
                h = TABLE.get("ifs::" + short)
            elif name.startswith("std::vector<"):
                h = TABLE.get("vector::" + short)
            elif name.startswith(("std::shared_ptr<", "std::__shared_ptr")):
                h = TABLE.get("shared::" + short)
            elif name.startswith("std::unique_ptr<"):
                h = TABLE.get("uniq::" + short.split(" [")[0])
            elif "__normal_iterator" in cls or cls.startswith("std::reverse_iterator"):
                h = TABLE.get("iter::" + short) or TABLE.get("iter::op")
            elif name.startswith("std::allocator"):
                return Rec("allocator")
            elif cls.startswith("std::pair"):
                h = TABLE.get("pair")
            elif name.startswith("std::numeric_limits") or name.startswith("std::__"):
                h = TABLE.get("std::" + short)
            elif fn.get("ctor") in ("copy", "move") and len(args) == 1:
                return I_.rv(args[0])
            elif fn.get("ctor") == "default" and not args:
                return Rec("plain", fields={})
        if h is None and self.net is not None:
            h = self.net.get(name)
            if name not in ("memcpy", "__errno_location", "htons", "strerror", "std::strerror"):
                I_.env += 1  # the environment decides something
        if h is None:
            raise Unsupported("library function %s(%s)" % (name, ", ".join(fn.get("ptypes", []))))
        return h(I_, fn, this, args, n)


TABLE = {}


def reg(*names):
    def d(f):
        for x in names:
            TABLE[x] = f
        return f
    return d


# ------------------------------------------------------------ arguments
def ptype(fn, i):
    return fn["ptypes"][i] if i < len(fn["ptypes"]) else ""


def S_(I_, a, pt=None):
    """string value of an argument expression: std::string, char or C string"""
    v = I_.rv(a)
    return str_of(I_, v, a)


def str_of(I_, v, a=None):
    if isinstance(v, Loc):
        v = I_.load(v)
    if isinstance(v, Term) and v.sort == "S":
        return v
    if isinstance(v, Term) and v.sort == "I":
        return chr_(I_.tobyte(v))
    if isinstance(v, (Ptr,)) or isinstance(v, Rec):
        if isinstance(v, Ptr) and v.bid is None:
            I_.fail("null pointer used as a C string")
        return I_.cstr(v)
    raise Unsupported("string from %r" % (v,))


def sval(I_, this):
    v = I_.load(this)
    if isinstance(v, Term) and v.sort == "S":
        return v
    if isinstance(v, Rec) and v.kind == "moved":
        raise Unsupported("use of a moved-from string")
    raise Unsupported("string object holds %r" % (v,))


def ival(I_, a):
    v = I_.rv(a)
    return I_.conv(v, base_type(a["t"])) if isinstance(v, Term) and v.sort == "B" else v


# --------------------------------------------------------------- string
@reg("string::basic_string")
def string_ctor(I_, fn, this, args, n):
    pts = fn["ptypes"]
    args = [a for a, p in zip(args, pts) if "allocator" not in p]
    pts = [p for p in pts if "allocator" not in p]
    if not args:
        return EMPTY
    if len(args) == 1:
        if pts[0].startswith("std::initializer_list"):
            v = I_.rv(args[0])
            return cat(*[chr_(I_.tobyte(x)) for x in v.elems])
        return S_(I_, args[0])
    if len(args) == 2 and "const char *" in pts[0] and "iterator" not in pts[0]:
        p, k = I_.rv(args[0]), I_.rv(args[1])
        s = I_.bytes_at(p)
        I_.oblige(le(k, length(s)), "string constructor reads inside the buffer")
        return I_.sub(s, I(0), k)
    if len(args) == 2 and pts[1] == "char":
        k, c = I_.rv(args[0]), I_.rv(args[1])
        return fold(chr_(I_.tobyte(c)), Seg.J, k)
    if pts[0] == "const %s &" % STRING:
        s = S_(I_, args[0])
        p = I_.rv(args[1])
        k = I_.rv(args[2]) if len(args) > 2 else I(NPOS)
        return substr(I_, s, p, k)
    a, b = I_.rv(args[0]), I_.rv(args[1])
    return range_str(I_, a, b)


def range_str(I_, a, b):
    if isinstance(a, Rec) and a.kind == "iter":
        s = I_.load(a.loc)
        if a.rev:
            raise Unsupported("reverse range")
        if isinstance(s, CharArr):
            s = s.s
        if not isinstance(s, Term) or s.sort != "S":
            raise Unsupported("text from a range of %r" % (s,))
        return I_.sub(s, a.pos, sub(b.pos, a.pos))
    if isinstance(a, Ptr):
        s = I_.bytes_at(a)
        k = sub(b.off, a.off)
        I_.oblige(And(ge(k, I(0)), le(k, length(s))), "range inside the buffer")
        return I_.sub(s, I(0), k)
    raise Unsupported("range")


def substr(I_, s, p, k):
    if p is not I(0):
        if not I_.decide(le(p, length(s))):
            raise Throw("std::out_of_range")
    rest = sub(length(s), p)
    if k.op == "int" and k.args[0] == NPOS or I_.leP(rest, k):
        return I_.sub(s, p, rest)
    if I_.leP(k, rest):
        return I_.sub(s, p, k)
    if I_.decide(le(rest, k)):
        return I_.sub(s, p, rest)
    return I_.sub(s, p, k)


@reg("string::substr")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    p = I_.rv(args[0]) if args else I(0)
    k = I_.rv(args[1]) if len(args) > 1 else I(NPOS)
    return substr(I_, s, p, k)


@reg("string::length", "string::size")
def _(I_, fn, this, args, n):
    return length(sval(I_, this))


@reg("string::empty")
def _(I_, fn, this, args, n):
    return eqI(length(sval(I_, this)), I(0))


@reg("string::c_str", "string::data")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    if this.idx is not None:
        # the text of an element; it lives as long as its container
        bid = "elem:%s:%s:%d" % (this.bid, ".".join(map(str, this.path)), s.id)
        I_.heap[bid] = Block("char", "static", {(): CharArr(cat(s, "\0"))}, True, {"const": True, "of": this.bid})
        return ChPtr(bid, (), I(0))
    return ChPtr(this.bid, this.path, I(0))


@reg("string::clear")
def _(I_, fn, this, args, n):
    I_.store(this, EMPTY)


@reg("string::~basic_string")
def _(I_, fn, this, args, n):
    return None


@reg("string::reserve", "string::shrink_to_fit")
def _(I_, fn, this, args, n):
    for a in args:
        I_.rv(a)


@reg("string::operator[]", "string::at")
def _(I_, fn, this, args, n):
    i = I_.rv(args[0])
    if fn["name"].endswith("::at"):
        if not I_.decide(lt(i, length(sval(I_, this)))):
            raise Throw("std::out_of_range")
    return Loc(this.bid, this.path, i)


@reg("string::back", "string::front")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    I_.oblige(ge(length(s), I(1)), "front/back of a non-empty string")
    return Loc(this.bid, this.path, I(0) if fn["name"].endswith("front") else sub(length(s), I(1)))


@reg("string::operator+=", "string::append", "string::push_back")
def _(I_, fn, this, args, n):
    if len(args) == 1:
        t = S_(I_, args[0])
    elif ptype(fn, 1) == "char":
        t = fold(chr_(I_.tobyte(I_.rv(args[1]))), Seg.J, I_.rv(args[0]))
    elif ptype(fn, 0).startswith("const char") and ptype(fn, 1) == "unsigned long":
        p, k = I_.rv(args[0]), I_.rv(args[1])
        s = I_.bytes_at(p)
        I_.oblige(le(k, length(s)), "append reads inside the buffer")
        t = I_.sub(s, I(0), k)
    elif ptype(fn, 0).startswith("const std::basic_string"):
        t = substr(I_, S_(I_, args[0]), I_.rv(args[1]), I_.rv(args[2]) if len(args) > 2 else I(NPOS))
    else:
        t = range_str(I_, I_.rv(args[0]), I_.rv(args[1]))
    I_.store(this, cat(sval(I_, this), t))
    return this


@reg("string::operator=", "string::assign")
def _(I_, fn, this, args, n):
    if len(args) == 1:
        v = S_(I_, args[0])
    else:
        v = string_ctor(I_, fn, None, args, n)
    I_.store(this, v)
    return this


@reg("string::swap")
def _(I_, fn, this, args, n):
    o = I_.lv(args[0])
    a, b = I_.load(this), I_.load(o)
    I_.store(this, b)
    I_.store(o, a)


@reg("string::pop_back")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    I_.oblige(ge(length(s), I(1)), "pop_back of a non-empty string")
    I_.store(this, I_.sub(s, I(0), sub(length(s), I(1))))


@reg("string::resize")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    k = I_.rv(args[0])
    c = I_.rv(args[1]) if len(args) > 1 else I(0)
    if s is EMPTY:
        r = fold(chr_(I_.tobyte(c)), Seg.J, k)
    elif I_.decide(le(k, length(s))):
        r = I_.sub(s, I(0), k)
    else:
        r = cat(s, fold(chr_(I_.tobyte(c)), Seg.J, sub(k, length(s))))
    I_.store(this, r)


@reg("string::begin", "string::cbegin", "vector::begin", "vector::cbegin")
def _(I_, fn, this, args, n):
    return Rec("iter", loc=this, pos=I(0), rev=False)


@reg("string::end", "string::cend", "vector::end", "vector::cend")
def _(I_, fn, this, args, n):
    return Rec("iter", loc=this, pos=seqlen(I_, this), rev=False)


@reg("string::rbegin", "string::crbegin", "vector::rbegin")
def _(I_, fn, this, args, n):
    return Rec("iter", loc=this, pos=seqlen(I_, this), rev=True)


@reg("string::rend", "string::crend", "vector::rend")
def _(I_, fn, this, args, n):
    return Rec("iter", loc=this, pos=I(0), rev=True)


def seqlen(I_, loc):
    v = I_.load(loc)
    if isinstance(v, VecV):
        return v.size()
    return length(v.s if isinstance(v, CharArr) else v)


@reg("string::erase")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    if args and "iterator" in ptype(fn, 0):
        a = I_.rv(args[0])
        b = I_.rv(args[1]) if len(args) > 1 else None
        p = a.pos
        k = sub(b.pos, p) if b is not None else I(1)
        I_.oblige(And(ge(p, I(0)), ge(k, I(0)), le(add(p, k), length(s))), "erase inside the string")
        it = True
    else:
        p = I_.rv(args[0]) if args else I(0)
        k = I_.rv(args[1]) if len(args) > 1 else I(NPOS)
        if p is not I(0) and not I_.decide(le(p, length(s))):
            raise Throw("std::out_of_range")
        if k.op == "int" and k.args[0] == NPOS or not I_.decide(le(k, sub(length(s), p))):
            k = sub(length(s), p)
        it = False
    pre, rest = I_.split(s, p)
    _, post = I_.split(rest, k)
    I_.store(this, cat(pre, post))
    return Rec("iter", loc=this, pos=p, rev=False) if it else this


@reg("string::replace")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    if "iterator" in ptype(fn, 0):
        raise Unsupported("replace by iterator")
    p, k = I_.rv(args[0]), I_.rv(args[1])
    if len(args) != 3:
        raise Unsupported("replace overload")
    t = S_(I_, args[2])
    if not I_.decide(le(p, length(s))):
        raise Throw("std::out_of_range")
    if not I_.decide(le(k, sub(length(s), p))):
        k = sub(length(s), p)
    pre, rest = I_.split(s, p)
    _, post = I_.split(rest, k)
    I_.store(this, cat(pre, t, post))
    return this


@reg("string::insert")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    if len(args) != 2 or "iterator" in ptype(fn, 0):
        raise Unsupported("insert overload")
    p = I_.rv(args[0])
    t = S_(I_, args[1])
    if not I_.decide(le(p, length(s))):
        raise Throw("std::out_of_range")
    pre, post = I_.split(s, p)
    I_.store(this, cat(pre, t, post))
    return this


def npos(i):
    if i.op == "int":
        return I(NPOS) if i.args[0] < 0 else i
    return ite(ge(i, I(0)), i, I(NPOS))


@reg("string::find")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    p = S_(I_, args[0])
    i = I_.rv(args[1]) if len(args) > 1 else I(0)
    if len(args) > 2:
        raise Unsupported("find overload")
    if s.op == "str" and i is I(0) and length(p) is I(1) and p.op != "str" and len(set(s.args[0])) == len(s.args[0]):
        # position of one byte in a constant table
        c = code(p, I(0))
        t = tabidx(I_, s.args[0], c)
        m = in_mask(c, sum(1 << ord(x) for x in s.args[0]))
        return t if I_.proves(m) else ite(m, t, I(NPOS))
    if s.op == "cat" and i.op != "int":
        # searching from the end of a known prefix
        acc, at = I(0), atoms(s)
        for j, a in enumerate(at):
            if I_.eqP(acc, i):
                k = indexof_raw(cat(*at[j:]), p, I(0))
                return ite(ge(k, I(0)), add(acc, k), I(NPOS))
            acc = add(acc, length(a))
    r = indexof_raw(s, p, i)
    if r.op != "int":
        k = I_.known(ge(r, I(0)))
        if k is not None:
            return r if k else I(NPOS)
    return npos(r)


def tabidx(I_, tab, c):
    """position of the byte c, which occurs in the table"""
    if c.op == "int":
        return I(tab.find(chr(c.args[0])))
    if c.op == "code" and c.args[0] is S(tab) and I_.proves(And(ge(c.args[1], I(0)), lt(c.args[1], I(len(tab))))):
        return c.args[1]
    RANGES["tabidx:" + tab] = (0, len(tab) - 1)
    t = ufI("tabidx:" + tab, [c])
    I_.assume(And(ge(t, I(0)), lt(t, I(len(tab)))))
    return t


@reg("string::find_first_of")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    p = S_(I_, args[0])
    if p.op != "str" or len(args) > 1 and I_.rv(args[1]) is not I(0):
        raise Unsupported("find_first_of")
    if len(p.args[0]) == 1:
        return npos(indexof_raw(s, p, I(0)))
    m = ALL & ~sum(1 << ord(c) for c in set(p.args[0]))
    k = span(I_, m, s)
    return ite(lt(k, length(s)), k, I(NPOS))


@reg("string::find_first_not_of", "string::find_last_not_of")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    p = S_(I_, args[0])
    m = None
    if p.op != "str" or len(args) > 1 and not (I_.rv(args[1]) is I(0) or I_.rv(args[1]) is I(NPOS)):
        raise Unsupported("find_first_not_of")
    m = sum(1 << ord(c) for c in set(p.args[0]))
    rev = "last" in fn["name"]
    k = span(I_, m, s, rev)
    return ite(lt(k, length(s)), sub(sub(length(s), I(1)), k) if rev else k, I(NPOS))


def span(I_, m, s, rev=False):
    if s.op == "sub":
        # part of a text with the same end (beginning): its span is that of the text, as far as the part reaches
        x, o, n = s.args
        if o is I(0) and not rev or rev and I_.eqP(add(o, n), length(x)):
            k = span(I_, m, x, rev)
            return I_.simp_ite(ite(le(k, n), k, n))
    k = spanI(m, s, rev)
    if k.op != "int":
        I_.assume(And(ge(k, I(0)), le(k, length(s))))
    return k


@reg("string::find_last_of", "string::rfind")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    p = S_(I_, args[0])
    if len(args) > 1 and I_.rv(args[1]) is not I(NPOS):
        pos = I_.rv(args[1])
        if pos is I(0) and fn["name"].endswith("rfind"):
            return ite(prefixof(p, s), I(0), I(NPOS))
        raise Unsupported("rfind with a position")
    if fn["name"].endswith("find_last_of") and not (p.op == "str" and len(p.args[0]) == 1):
        if p.op != "str":
            raise Unsupported("find_last_of")
        m = ALL & ~sum(1 << ord(c) for c in set(p.args[0]))
        k = span(I_, m, s, True)
        return ite(lt(k, length(s)), sub(sub(length(s), I(1)), k), I(NPOS))
    return npos(rindex(I_, s, p))


def rindex(I_, s, p):
    """last occurrence of p in s, -1 when absent"""
    if s.op == "str" and p.op == "str":
        return I(s.args[0].rfind(p.args[0]))
    r = ufI("rindex", [s, p])
    I_.assume(And(ge(r, I(-1)), le(add(r, length(p)), length(s)) if p.op == "str" and p.args[0] else TRUE, Iff(ge(r, I(0)), contains(s, p))))
    return r


@reg("string::compare")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    if len(args) == 1:
        return cmp3(I_, s, S_(I_, args[0]))
    if len(args) == 3:
        t = S_(I_, args[2])
        return cmp3(I_, substr(I_, s, I_.rv(args[0]), I_.rv(args[1])), t)
    raise Unsupported("compare overload")


def cmp3(I_, a, b):
    e = eqS(a, b)
    if e is TRUE:
        return I(0)
    v = ufI("strcmp", [a, b])
    I_.assume(Or(e, Not(eqI(v, I(0)))))
    I_.assume(And(ge(v, I(-(1 << 31))), le(v, I((1 << 31) - 1))))
    return ite(e, I(0), v)


@reg("std::operator+")
def _(I_, fn, this, args, n):
    return cat(S_(I_, args[0]), S_(I_, args[1]))


@reg("std::operator==", "std::operator!=")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    if isinstance(a, Rec) and a.kind == "iter":
        return I_.ptrop(fn["name"][13:], a, b)
    if any(isinstance(x, Rec) and x.kind == "uniq" for x in (a, b)):
        a, b = (x.p if isinstance(x, Rec) and x.kind == "uniq" else x for x in (a, b))
        return I_.ptrop(fn["name"][13:], a, b)
    e = eqS(str_of(I_, a), str_of(I_, b))
    return e if fn["name"].endswith("==") else Not(e)


@reg("__gnu_cxx::operator==", "__gnu_cxx::operator!=")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    return I_.ptrop(fn["name"][-2:], a, b)


@reg("__gnu_cxx::operator<", "__gnu_cxx::operator<=", "__gnu_cxx::operator>", "__gnu_cxx::operator>=")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    op = fn["name"].split("operator")[1]
    if not all(isinstance(x, Rec) and x.kind == "iter" for x in (a, b)) or a.loc != b.loc:
        raise Unsupported("order of iterators")
    if a.rev:
        a, b = b, a
    return {"<": lt, "<=": le, ">": gt, ">=": ge}[op](a.pos, b.pos)


@reg("__gnu_cxx::operator-")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    return sub(a.pos, b.pos)


@reg('std::operator""s')
def _(I_, fn, this, args, n):
    p, k = I_.rv(args[0]), I_.rv(args[1])
    return I_.sub(I_.bytes_at(p), I(0), k)


@reg("std::to_string")
def _(I_, fn, this, args, n):
    return dec(I_, I_.rv(args[0]))


def dec(I_, v):
    if v.op == "int":
        return S(str(v.args[0]))
    d = ufS("dec", [v], DIGITS | (1 << 45))
    I_.assume(And(ge(length(d), I(1)), le(length(d), I(20))))
    lo, hi = rng(v)
    if I_.proves(And(ge(v, I(0)), le(v, I((1 << 32) - 1)))):
        I_.assume(le(length(d), I(10)))
    return d


@reg("std::stoi")
def _(I_, fn, this, args, n):
    s = S_(I_, args[0])
    if len(args) > 1:
        p = I_.rv(args[1])
        if isinstance(p, Ptr) and p.bid is not None:
            raise Unsupported("stoi with an index")
    if len(args) > 2 and I_.rv(args[2]) is not I(10):
        raise Unsupported("stoi base")
    L = length(s)
    k = L.args[0] if L.op == "int" else None
    if k is None:
        for t in range(0, 5):
            if I_.eqP(L, I(t)):
                k = t
    if k is None or k > 6:
        if I_.choose2():
            raise Throw("std::invalid_argument")
        return I_.newI("stoi", -(1 << 31), (1 << 31) - 1)
    cs = [I_.byte(s, I(i)) for i in range(k)]
    ok, val = _stoi_ws(cs, 0)
    if not I_.decide(ok):
        raise Throw("std::invalid_argument")
    return I_.simp_ite(val)


def _stoi_ws(cs, i):
    if i >= len(cs):
        return FALSE, I(0)
    c = cs[i]
    w = in_mask(c, WS)
    sg = Or(eqI(c, I(43)), eqI(c, I(45)))
    o1, v1 = _stoi_ws(cs, i + 1)
    o2, v2 = _stoi_d(cs, i + 1, None)
    o3, v3 = _stoi_d(cs, i, None)
    ok = Or(And(w, o1), And(sg, o2), And(Not(w), Not(sg), o3))
    val = ite(w, v1, ite(sg, ite(eqI(c, I(45)), neg(v2), v2), v3))
    return ok, val


def _stoi_d(cs, i, acc):
    if i >= len(cs):
        return (FALSE, I(0)) if acc is None else (TRUE, acc)
    d = in_mask(cs[i], DIGITS)
    x = add(scale(10, acc) if acc is not None else I(0), sub(cs[i], I(48)))
    o, v = _stoi_d(cs, i + 1, x)
    if acc is None:
        return And(d, o), ite(d, v, I(0))
    return TRUE, ite(d, v, acc)


# --------------------------------------------------------------- streams
@reg("stream::basic_stringstream", "stream::basic_ostringstream", "stream::basic_istringstream")
def _(I_, fn, this, args, n):
    init = EMPTY
    if args and "basic_string" in ptype(fn, 0):
        init = S_(I_, args[0])
        raise Unsupported("stream with an initial value")
    return SStream(init)


@reg("stream::str")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    if args:
        I_.store(this, SStream(S_(I_, args[0])))
        return None
    return v.s


@reg("std::operator<<", "stream::operator<<")
def _(I_, fn, this, args, n):
    if this is None:
        st, a = I_.lv(args[0]), args[1]
    else:
        st, a = this, args[0]
    v = I_.load(st)
    if isinstance(v, Rec) and v.kind == "const":
        v = SStream(EMPTY)
    if not isinstance(v, SStream):
        raise Unsupported("<< on %r" % (v,))
    pt = fn["ptypes"][-1]
    x = None
    if "(*)" in pt:
        f = I_.rv(a)
        x = S("\n")
    else:
        w = I_.rv(a)
        if isinstance(w, Term) and w.sort == "I" and pt not in ("char", "unsigned char", "signed char"):
            x = dec(I_, w)
        elif isinstance(w, Term) and w.sort == "B":
            x = ite(w, S("1"), S("0"))
        elif isinstance(w, Ptr) and w.bid is None:
            I_.fail("null pointer written to a stream")
        else:
            x = str_of(I_, w)
    b = I_.heap[st.bid]
    if b.kind != "static":
        I_.store(st, SStream(cat(v.s, x)))
    else:
        note = I_.ghost.get("stderr")
        if note is not None:
            I_.ghost["stderr"] = cat(note, x)
    return st


@reg("std::endl", "std::flush")
def _(I_, fn, this, args, n):
    return I_.lv(args[0])


# A file stream: what has been read so far, its failure state and the size of the last read.  A file is "readable" when it can be
# opened and read to its end; otherwise a read may fail anywhere (at the latest when the end is reached).
def ifs_new(I_, name):
    cell = lambda nm, t, v: Loc(I_.alloc("var:" + nm, "stack", {(): v}, {"t": t}))
    ok = ufB("openable", [name])
    I_.assume(Implies(ufB("readable", [name]), ok))
    return Rec("ifs", name=name, pos=cell("pos", "long", I(0)), bad=cell("fail", "bool", Not(ok)), count=cell("gcount", "long", I(0)))


@reg("ifs::basic_ifstream")
def _(I_, fn, this, args, n):
    if not args:
        raise Unsupported("stream without a file")
    return ifs_new(I_, S_(I_, args[0]))


def ifs(I_, this):
    v = I_.load(this)
    if not (isinstance(v, Rec) and v.kind == "ifs"):
        raise Unsupported("stream %r" % (v,))
    return v


@reg("ifs::operator bool", "ifs::good")
def _(I_, fn, this, args, n):
    return Not(I_.load(ifs(I_, this).bad))


@reg("ifs::is_open")
def _(I_, fn, this, args, n):
    return ufB("openable", [ifs(I_, this).name])


@reg("ifs::operator!", "ifs::fail")
def _(I_, fn, this, args, n):
    return I_.load(ifs(I_, this).bad)


@reg("ifs::bad")
def _(I_, fn, this, args, n):
    v = ifs(I_, this)
    return And(I_.load(v.bad), ufB("openable", [v.name]), Not(ufB("readable", [v.name])))


@reg("ifs::eof")
def _(I_, fn, this, args, n):
    v = ifs(I_, this)
    return And(I_.load(v.bad), ufB("readable", [v.name]))


@reg("ifs::gcount")
def _(I_, fn, this, args, n):
    return I_.load(ifs(I_, this).count)


def filetext(I_, name):
    f = ufS("file", [name])
    I_.assume(le(length(f), I(I_.MAXLEN)))
    return f


@reg("ifs::seekg")
def _(I_, fn, this, args, n):
    v = ifs(I_, this)
    o = I_.rv(args[0])
    d = I_.rv(args[1]) if len(args) > 1 else I(0)
    if d.op != "int":
        d = I_.load(d) if isinstance(d, Loc) else d
    w = d.args[0] if isinstance(d, Term) and d.op == "int" else None
    if I_.decide(And(I_.load(v.bad), Not(ufB("readable", [v.name])))):
        return this
    L = length(filetext(I_, v.name))
    p = add(L, o) if w == 2 else add(I_.load(v.pos), o) if w == 1 else o
    I_.oblige(And(ge(p, I(0)), le(p, L)), "position inside the file")
    I_.store(v.pos, p)
    I_.store(v.bad, FALSE)
    return this


@reg("ifs::tellg")
def _(I_, fn, this, args, n):
    v = ifs(I_, this)
    return I(-1) if I_.decide(I_.load(v.bad)) else I_.load(v.pos)


@reg("std::fpos<__mbstate_t>::operator long")
def _(I_, fn, this, args, n):
    return I_.load(this) if isinstance(this, Loc) else this


@reg("ifs::read")
def _(I_, fn, this, args, n):
    v = ifs(I_, this)
    p, k = I_.rv(args[0]), I_.rv(args[1])
    f = filetext(I_, v.name)
    L = length(f)
    I_.oblige(ge(k, I(0)), "non-negative read length")
    pos = I_.load(v.pos)
    rd = ufB("readable", [v.name])
    if I_.decide(I_.load(v.bad)):
        I_.store(v.count, I(0))
        return this
    full = I_.decide(le(add(pos, k), L))
    if full and (I_.decide(rd) or I_.choose2()):
        k2 = k
    elif not full and I_.decide(rd):
        k2 = sub(L, pos)
    else:
        I_.store(v.bad, TRUE)
        I_.store(v.count, I(0))
        return this
    if not full:
        I_.store(v.bad, TRUE)
    if k is not I(0):
        write_bytes(I_, p, I_.sub(f, pos, k2), k)
    I_.store(v.pos, add(pos, k2))
    I_.store(v.count, k2)
    return this


@reg("ifs::open")
def _(I_, fn, this, args, n):
    I_.store(this, ifs_new(I_, S_(I_, args[0])))


@reg("ifs::close")
def _(I_, fn, this, args, n):
    ifs(I_, this)


@reg("std::operator|")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    if a.op == "int" and b.op == "int":
        return I(a.args[0] | b.args[0])
    return I_.newI("mode")


# -------------------------------------------------------------- C strings
def write_bytes(I_, p, s, room=None):
    """store the bytes s at p (bounds obliged)"""
    if not isinstance(p, Ptr):
        raise Unsupported("write through %r" % (p,))
    b = I_.blk(p.bid, "write")
    if b.meta.get("const"):
        I_.fail("write to constant data")
    v = b.vals.get(p.path, UNINIT)
    cur = v.s if isinstance(v, CharArr) else v if isinstance(v, Term) and v.sort == "S" else None
    if cur is None:
        raise Unsupported("byte write into %r" % (v,))
    L = length(cur)
    k = length(s)
    r = k if room is None else room
    I_.oblige(And(ge(p.off, I(0)), le(add(p.off, r), L)), "write inside the bounds of the buffer")
    if p.off is I(0) and I_.eqP(k, L):
        new = s
    else:
        pre, rest = I_.split(cur, p.off)
        _, post = I_.split(rest, k)
        new = cat(pre, s, post)
    I_.rawset(p.bid, p.path, CharArr(new) if isinstance(v, CharArr) else new)


@reg("strlen", "std::strlen")
def _(I_, fn, this, args, n):
    return length(S_(I_, args[0]))


@reg("strcmp", "std::strcmp")
def _(I_, fn, this, args, n):
    return cmp3(I_, S_(I_, args[0]), S_(I_, args[1]))


@reg("strncmp", "std::strncmp")
def _(I_, fn, this, args, n):
    a, b, k = S_(I_, args[0]), S_(I_, args[1]), I_.rv(args[2])

    def cut(s):
        if I_.decide(le(length(s), k)):
            return s
        return I_.sub(s, I(0), k)
    return cmp3(I_, cut(a), cut(b))


@reg("strncpy", "std::strncpy")
def _(I_, fn, this, args, n):
    d, s, k = I_.rv(args[0]), I_.rv(args[1]), I_.rv(args[2])
    t = I_.cstr(s)
    if I_.decide(le(k, length(t))):
        write_bytes(I_, d, I_.sub(t, I(0), k))
    else:
        pad = sub(k, length(t))
        z = S("\0" * pad.args[0]) if pad.op == "int" and pad.args[0] < 4096 else fold(S("\0"), Seg.J, pad)
        if z.op == "fold":
            # the first byte of the padding is what terminates the string
            z = cat(S("\0"), fold(S("\0"), Seg.J, sub(pad, I(1))))
        write_bytes(I_, d, cat(t, z))
    return d


@reg("strcpy", "std::strcpy")
def _(I_, fn, this, args, n):
    d = I_.rv(args[0])
    write_bytes(I_, d, cat(S_(I_, args[1]), S("\0")))
    return d


@reg("strncat", "std::strncat", "strcat", "std::strcat")
def _(I_, fn, this, args, n):
    d = I_.rv(args[0])
    t = S_(I_, args[1])
    if len(args) > 2:
        k = I_.rv(args[2])
        if not I_.decide(le(length(t), k)):
            t = I_.sub(t, I(0), k)
    c = I_.cstr(d)
    write_bytes(I_, Ptr(d.bid, d.path, add(d.off, length(c))), cat(t, S("\0")))
    return d


@reg("memcpy", "std::memcpy", "memmove", "std::memmove")
def _(I_, fn, this, args, n):
    d, s, k = I_.rv(args[0]), I_.rv(args[1]), I_.rv(args[2])
    if isinstance(s, Opq) or (isinstance(d, Ptr) and d.path):
        if I_.lib.net is not None and "memcpy" in I_.lib.net:
            return I_.lib.net["memcpy"](I_, d, s, k)
    b = I_.bytes_at(s)
    I_.oblige(And(ge(k, I(0)), le(k, length(b))), "memcpy reads inside the buffer")
    write_bytes(I_, d, I_.sub(b, I(0), k))
    return d


@reg("memset", "std::memset")
def _(I_, fn, this, args, n):
    d, c, k = I_.rv(args[0]), I_.rv(args[1]), I_.rv(args[2])
    if c.op != "int":
        raise Unsupported("memset value")
    ch = chr(c.args[0] % 256)
    write_bytes(I_, d, S(ch * k.args[0]) if k.op == "int" and k.args[0] <= 4096 else fold(S(ch), Seg.J, k))
    return d


@reg("strchr", "std::strchr", "strrchr", "std::strrchr", "strstr", "std::strstr")
def _(I_, fn, this, args, n):
    p = I_.rv(args[0])
    t = I_.cstr(p)
    name = fn["name"].split("::")[-1]
    if name == "strstr":
        w = S_(I_, args[1])
    else:
        c = I_.rv(args[1])
        if c.op != "int":
            raise Unsupported(name)
        w = S(chr(c.args[0] % 256))
        if w.args[0] == "\0":
            return add_ptr(p, length(t))
    i = rindex(I_, t, w) if name == "strrchr" else indexof_raw(t, w, I(0))
    return add_ptr(p, i) if I_.decide(ge(i, I(0))) else NULL


@reg("atoi", "std::atoi")
def _(I_, fn, this, args, n):
    s = S_(I_, args[0])
    ks = [t for t in range(0, 7) if I_.eqP(length(s), I(t))]
    if not ks:
        return I_.newI("atoi", -(1 << 31), (1 << 31) - 1)
    ok, val = _stoi_ws([I_.byte(s, I(i)) for i in range(ks[0])], 0)
    return I_.simp_ite(val) if I_.decide(ok) else I(0)


@reg("std::exchange")
def _(I_, fn, this, args, n):
    loc = I_.lv(args[0])
    old, new = I_.load(loc), I_.rv(args[1])
    if not isinstance(old, (Term, Ptr, FnPtr, Opq)) or isinstance(old, Term) and old.sort == "S" or isinstance(new, Loc):
        raise Unsupported("exchange of %r" % (old,))
    I_.store(loc, NULL if isinstance(old, (Ptr, Opq)) and isinstance(new, Term) else I_.conv(new, base_type(args[0]["t"])) if isinstance(new, Term) else new)
    return old


@reg("std::copy", "std::copy_n")
def _(I_, fn, this, args, n):
    a, b, o = I_.rv(args[0]), I_.rv(args[1]), I_.rv(args[2])
    cnt = fn["name"].endswith("copy_n")
    if isinstance(a, Rec) and a.kind == "iter" and not a.rev:
        t = I_.load(a.loc)
        k = b if cnt else sub(b.pos, a.pos)
        if not isinstance(t, Term) or t.sort != "S":
            raise Unsupported("copy of %r" % (t,))
        I_.oblige(And(ge(k, I(0)), le(add(a.pos, k), length(t))), "copy reads inside the string")
        t = I_.sub(t, a.pos, k)
    elif isinstance(a, Ptr) and a.bid is not None:
        t = I_.bytes_at(a)
        k = b if cnt else sub(b.off, a.off)
        I_.oblige(And(ge(k, I(0)), le(k, length(t))), "copy reads inside the buffer")
        t = I_.sub(t, I(0), k)
    else:
        raise Unsupported("copy of %r" % (a,))
    if isinstance(o, Ptr):
        write_bytes(I_, o, t)
        return add_ptr(o, k)
    if isinstance(o, Rec) and o.kind == "backins" and isinstance(I_.load(o.loc), Term):
        I_.store(o.loc, cat(I_.load(o.loc), t))
        return o
    raise Unsupported("copy to %r" % (o,))


@reg("string::copy")
def _(I_, fn, this, args, n):
    s = sval(I_, this)
    d, k = I_.rv(args[0]), I_.rv(args[1])
    p = I_.rv(args[2]) if len(args) > 2 else I(0)
    t = substr(I_, s, p, k)
    write_bytes(I_, d, t)
    return length(t)


@reg("std::fill", "std::fill_n")
def _(I_, fn, this, args, n):
    a, b, c = I_.rv(args[0]), I_.rv(args[1]), args[2]
    c = I_.rv(c)
    if isinstance(c, Loc):
        c = I_.load(c)
    if not isinstance(a, Ptr) or not isinstance(c, Term):
        raise Unsupported("fill")
    k = b if fn["name"].endswith("fill_n") else sub(b.off, a.off)
    if isinstance(b, Ptr) and (a.bid, a.path) != (b.bid, b.path):
        raise Unsupported("fill")
    write_bytes(I_, a, fold(chr_(I_.tobyte(c)), Seg.J, k))
    return add_ptr(a, k) if fn["name"].endswith("fill_n") else b


def add_ptr(p, k):
    return type(p)(p.bid, p.path, add(p.off, k))


@reg("sprintf", "std::sprintf", "snprintf", "std::snprintf", "fprintf", "std::fprintf")
def _(I_, fn, this, args, n):
    name = fn["name"].split("::")[-1]
    i = 1
    size = None
    if name == "fprintf":
        fmt = S_(I_, args[1])
        i = 2
    elif name == "snprintf":
        size = I_.rv(args[1])
        fmt = S_(I_, args[2])
        i = 3
    else:
        fmt = S_(I_, args[1])
        i = 2
    if fmt.op != "str":
        raise Unsupported("format string")
    out = []
    f = fmt.args[0]
    k = 0
    while k < len(f):
        if f[k] != "%":
            out.append(S(f[k]))
            k += 1
            continue
        k += 1
        while k < len(f) and f[k] in "lhz":
            k += 1
        c = f[k]
        k += 1
        if c == "%":
            out.append(S("%"))
        elif c == "s":
            out.append(S_(I_, args[i]))
            i += 1
        elif c in "diu":
            out.append(dec(I_, I_.rv(args[i])))
            i += 1
        else:
            raise Unsupported("conversion %%%s" % c)
    s = cat(*out)
    if name == "fprintf":
        return length(s)
    d = I_.rv(args[0])
    if size is None:
        write_bytes(I_, d, cat(s, S("\0")))
    else:
        if size is I(0):
            return length(s)
        t = s if I_.decide(lt(length(s), size)) else I_.sub(s, I(0), sub(size, I(1)))
        write_bytes(I_, d, cat(t, S("\0")))
    return length(s)


@reg("strerror", "std::strerror")
def _(I_, fn, this, args, n):
    v = I_.rv(args[0])
    s = ufS("strerror", [v], NONUL)
    I_.assume(le(length(s), I(4096)))
    return I_.temp_cstr(s)


def _ctype(mask):
    def h(I_, fn, this, args, n):
        c = I_.rv(args[0])
        I_.oblige(And(ge(c, I(-128)), le(c, I(255))), "character class argument is a character")
        cond = in_mask(c, mask)
        return ite(cond, I(1), I(0))
    return h


for _n, _m in CLS.items():
    TABLE[_n] = TABLE["std::" + _n] = _ctype(_m)


def _case(lo, d):
    def h(I_, fn, this, args, n):
        c = I_.rv(args[0])
        I_.oblige(And(ge(c, I(-128)), le(c, I(255))), "character class argument is a character")
        return ite(And(ge(c, I(lo)), le(c, I(lo + 25))), add(c, I(d)), c)
    return h


for _p in ("", "std::"):
    TABLE[_p + "tolower"] = _case(65, 32)
    TABLE[_p + "toupper"] = _case(97, -32)


@reg("std::move", "std::forward", "std::ref")
def _(I_, fn, this, args, n):
    return I_.ev(args[0])


@reg("std::max")
def _(I_, fn, this, args, n):
    if not args:
        return I((1 << 63) - 1)
    a, b = I_.rv(args[0]), I_.rv(args[1])
    return I_.mktemp(base_type(args[0]["t"]), ite(lt(a, b), b, a))


@reg("std::min")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    return I_.mktemp(base_type(args[0]["t"]), ite(lt(b, a), b, a))


@reg("std::swap")
def _(I_, fn, this, args, n):
    a, b = I_.lv(args[0]), I_.lv(args[1])
    x, y = I_.load(a), I_.load(b)
    I_.store(a, y)
    I_.store(b, x)


@reg("std::invalid_argument::invalid_argument", "std::runtime_error::runtime_error", "std::out_of_range::out_of_range",
     "std::logic_error::logic_error", "std::length_error::length_error")
def _(I_, fn, this, args, n):
    return Rec("exc", typ=fn["name"].rsplit("::", 1)[0])


# ---------------------------------------------------------------- regex
@reg("std::basic_regex<char>::basic_regex")
def _(I_, fn, this, args, n):
    s = S_(I_, args[0])
    if s.op != "str":
        raise Unsupported("regular expression not constant")
    return Rec("regex", pat=s.args[0])


@reg("std::regex_match")
def _(I_, fn, this, args, n):
    s = S_(I_, args[0])
    r = I_.rv(args[1])
    if isinstance(r, Loc):
        r = I_.load(r)
    from .regex import define
    nm = define(I_.regexes, r.pat)
    return inre(s, nm)


# ------------------------------------------------------------- iterators
@reg("iter::__normal_iterator", "iter::reverse_iterator")
def _(I_, fn, this, args, n):
    return I_.rv(args[0])


@reg("iter::base")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    return Rec("iter", loc=v.loc, pos=v.pos, rev=False)


@reg("iter::operator*", "iter::operator->")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    if v.rev:
        return Loc(v.loc.bid, v.loc.path, sub(v.pos, I(1)))
    return Loc(v.loc.bid, v.loc.path, v.pos)


@reg("iter::operator++", "iter::operator--")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    d = 1 if fn["name"].endswith("++") else -1
    if v.rev:
        d = -d
    w = Rec("iter", loc=v.loc, pos=add(v.pos, I(d)), rev=v.rev)
    I_.store(this, w)
    return v if args else this


@reg("iter::operator+", "iter::operator-")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    w = I_.rv(args[0])
    if isinstance(w, Rec):
        return sub(v.pos, w.pos)
    return I_.ptrop(fn["name"][-1], v, w)


def lambda_mask(I_, lam, neg_=False):
    """run a character predicate on all 256 byte values"""
    m = 0
    for c in range(256):
        v = I_.call_lambda(lam, [I_.tochar(I(c), "char")])
        v = I_.conv(v, "bool")
        if v.op != "bool":
            raise Unsupported("character predicate is not a function of the character")
        if v.args[0]:
            m |= 1 << c
    return m


@reg("std::find_if", "std::find_if_not", "std::all_of", "std::any_of", "std::none_of")
def _(I_, fn, this, args, n):
    a, b, lam = I_.rv(args[0]), I_.rv(args[1]), I_.rv(args[2])
    if isinstance(lam, Loc):
        lam = I_.load(lam)
    if not isinstance(a, Rec) or a.kind != "iter":
        raise Unsupported("find_if over %r" % (a,))
    s = I_.load(a.loc)
    if not isinstance(s, Term):
        raise Unsupported("find_if over %r" % (s,))
    m = lambda_mask(I_, lam) if isinstance(lam, Rec) else None
    if m is None:
        raise Unsupported("find_if predicate")
    nm = fn["name"].split("::")[-1]
    full = I_.eqP(a.pos, length(s) if a.rev else I(0)) and I_.eqP(b.pos, I(0) if a.rev else length(s))
    if not full:
        raise Unsupported("find_if over part of a string")
    stop = {"find_if": ALL & ~m, "find_if_not": m, "all_of": m, "any_of": ALL & ~m, "none_of": ALL & ~m}[nm]
    k = span(I_, stop, s, a.rev)
    if nm in ("all_of", "none_of"):
        return eqI(k, length(s))
    if nm == "any_of":
        return Not(eqI(k, length(s)))
    return Rec("iter", loc=a.loc, pos=sub(length(s), k) if a.rev else k, rev=a.rev)


@reg("std::transform")
def _(I_, fn, this, args, n):
    a, b, o, lam = [I_.rv(x) for x in args]
    if isinstance(lam, Loc):
        lam = I_.load(lam)
    if not isinstance(a, Rec) or a.kind != "iter":
        raise Unsupported("transform of %r" % (a,))
    s = I_.load(a.loc)
    if isinstance(s, Term) and s.sort == "S":
        full = I_.eqP(a.pos, I(0)) and I_.eqP(b.pos, length(s)) and isinstance(o, Rec) and o.kind == "iter" and o.pos is I(0)
        if not full:
            raise Unsupported("transform over part of a string")
        d = I_.load(o.loc)
        I_.oblige(le(length(s), length(d)), "transform writes inside the destination")
        tab = []
        for c in range(256):
            v = call_fn(I_, lam, [I_.tochar(I(c), "char")])
            v = I_.tobyte(v)
            if v.op != "int":
                raise Unsupported("character map is not a function of the character")
            tab.append(v.args[0])
        r = map_bytes(s, tab)
        if I_.eqP(length(s), length(d)):
            I_.store(o.loc, r)
        else:
            I_.store(o.loc, cat(r, I_.split(d, length(s))[1]))
        return Rec("iter", loc=o.loc, pos=length(s), rev=False)
    if isinstance(s, VecV) and isinstance(o, Rec) and o.kind == "backins":
        def body(elem):
            save, I_.fr.temps = I_.fr.temps, []
            v = I_.call_lambda(lam, [elem])
            push(I_, o.loc, v, I_.load(o.loc))
            I_.end_full(I_.fr)
            I_.fr.temps = save
        I_.loops.for_elems(I_, n, a.loc, body)
        return o
    raise Unsupported("transform")


def call_fn(I_, f, vals):
    if isinstance(f, Rec) and f.kind == "lambda":
        return I_.call_lambda(f, vals)
    if isinstance(f, FnPtr):
        nm = I_.fnptr_name(f)
        if nm in ("tolower", "toupper"):
            c = vals[0].args[0]
            c = c + 256 if c < 0 else c
            if nm == "tolower" and 65 <= c <= 90:
                c += 32
            if nm == "toupper" and 97 <= c <= 122:
                c -= 32
            return I(c)
    raise Unsupported("call of %r" % (f,))


def map_bytes(s, tab):
    low = [c + 32 if 65 <= c <= 90 else c for c in range(256)]
    up = [c - 32 if 97 <= c <= 122 else c for c in range(256)]
    if tab == low:
        return lower(s)
    if tab == up:
        return upper(s)
    if tab == list(range(256)):
        return s
    cs = 0
    src = charset(s)
    for c in range(256):
        if (src >> c) & 1:
            cs |= 1 << tab[c]
    import hashlib
    nm = "map:" + hashlib.sha1(bytes(tab)).hexdigest()[:10]
    LENPRES.add(nm)
    return ufS(nm, [s], cs)


@reg("std::back_inserter")
def _(I_, fn, this, args, n):
    return Rec("backins", loc=I_.lv(args[0]))


@reg("std::for_each")
def _(I_, fn, this, args, n):
    a, b = I_.rv(args[0]), I_.rv(args[1])
    lam = I_.rv(args[2])
    if isinstance(lam, Loc):
        lam = I_.load(lam)
    if isinstance(a, Rec) and a.kind == "iter":
        v = I_.load(a.loc)
        if isinstance(v, VecV) and v.elems is not None:
            for i in range(len(v.elems)):
                I_.call_lambda(lam, [Loc(a.loc.bid, a.loc.path, I(i))])
            return lam
        I_.loops.for_index(I_, n, a.pos, b.pos, lambda i: I_.call_lambda(lam, [Loc(a.loc.bid, a.loc.path, i)]))
        return lam
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.bid == b.bid:
        if a.bid is None:
            return lam
        I_.loops.for_index(I_, n, a.off, b.off, lambda i: I_.call_lambda(lam, [I_.elem(Ptr(a.bid, a.path), i)]))
        return lam
    raise Unsupported("for_each")


# --------------------------------------------------------------- vector
@reg("vector::vector")
def _(I_, fn, this, args, n):
    pts = fn["ptypes"]
    args = [a for a, p in zip(args, pts) if "allocator" not in p]
    pts = [p for p in pts if "allocator" not in p]
    chars = "vector<char>" in fn["name"]
    if not args:
        return CharArr(EMPTY) if chars else VecV([])
    if len(args) == 1:
        v = I_.rv(args[0])
        src = None
        if isinstance(v, Loc):
            src = v
            v = I_.load(v)
        if isinstance(v, (VecV, CharArr)):
            return v
        if chars and isinstance(v, Term) and v.sort == "I":
            return CharArr(fold(S("\0"), Seg.J, v))
        raise Unsupported("vector from %r" % (v,))
    a, b = I_.rv(args[0]), I_.rv(args[1])
    if chars and isinstance(a, Term) and a.sort == "I":
        if isinstance(b, Loc):
            b = I_.load(b)
        return CharArr(fold(chr_(I_.tobyte(b)), Seg.J, a))
    if chars:
        return CharArr(range_str(I_, a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        k = sub(b.off, a.off)
        if a.bid is None or b.bid is None:
            I_.oblige(B(a.bid is None and b.bid is None), "range of a null pointer is empty")
            I_.oblige(eqI(k, I(0)), "range of a null pointer is empty")
            return VecV([])
        blk = I_.blk(a.bid, "range")
        v = blk.vals.get(a.path)
        if isinstance(v, SegArr):
            I_.oblige(And(ge(a.off, I(0)), ge(k, I(0)), le(b.off, v.n)), "range inside the array")
            if a.off is I(0) and I_.eqP(b.off, v.n):
                return VecV(None, v)
        if isinstance(v, CharArr):
            raise Unsupported("vector of characters")
    raise Unsupported("vector from a range")


@reg("vector::data")
def _(I_, fn, this, args, n):
    v = I_.load(this)
    if isinstance(v, VecV) and (v.arr is not None or v.elems == []) and I_.decide(eqI(v.size(), I(0))) and I_.choose2():
        return NULL                                           # either is allowed
    return Ptr(this.bid, this.path, I(0))


@reg("vector::size")
def _(I_, fn, this, args, n):
    return seqlen(I_, this)


@reg("vector::empty")
def _(I_, fn, this, args, n):
    return eqI(seqlen(I_, this), I(0))


@reg("vector::reserve", "vector::~vector")
def _(I_, fn, this, args, n):
    for a in args:
        I_.rv(a)


@reg("vector::front", "vector::back")
def _(I_, fn, this, args, n):
    k = seqlen(I_, this)
    I_.oblige(ge(k, I(1)), "front/back of a non-empty vector")
    return Loc(this.bid, this.path, I(0) if fn["name"].endswith("front") else sub(k, I(1)))


@reg("vector::operator[]", "vector::at")
def _(I_, fn, this, args, n):
    return Loc(this.bid, this.path, I_.rv(args[0]))


def objval(I_, loc):
    """the contents of an object, as a vector holds them"""
    cls = I_.heap[loc.bid].cls if not loc.path else I_.path_type(I_.heap[loc.bid].cls, loc.path)
    g = {}
    for q, t in I_.prog.allfields(cls):
        w = I_.load(loc.field(q))
        if isinstance(w, Rec) and w.kind == "lazy":
            w = I_.force(loc.field(q), w)
        if isinstance(w, Ptr):
            if w.bid is None:
                raise Unsupported("element with a null text")
            w = I_.cstr(w)
        if not isinstance(w, Term):
            raise Unsupported("element that holds %r" % (w,))
        g[(q,)] = w
    return Rec("objval", cls=cls, gen=g)


def isobj(I_, loc):
    if not isinstance(loc, Loc) or loc.idx is not None or loc.bid not in I_.heap:
        return False
    return I_.isrec(I_.heap[loc.bid].cls if not loc.path else I_.path_type(I_.heap[loc.bid].cls, loc.path) or "")


def push(I_, loc, v, cur):
    if isobj(I_, v):
        v = objval(I_, v)
    elif isinstance(v, Loc):
        v = I_.load(v)
    if cur.bag is not None and isinstance(v, Term) and v.sort == "S":
        I_.store(loc, VecV(bag=vpush(cur.bag, v)))
        return
    if cur.elems is None:
        raise Unsupported("push_back on a family")
    I_.store(loc, VecV(cur.elems + [v]))


def mkobj(I_, t, args):
    """a temporary made from constructor arguments"""
    ms = [m for m in I_.prog.recs[t]["methods"] if m.get("ctor") and len(m["ptypes"]) == len(args)]
    if len(args) == 1:
        ms = [m for m in ms if m.get("ctor") not in ("copy", "move")]
    if len(ms) != 1:
        raise Unsupported("which constructor of %s" % t)
    loc = Loc(I_.alloc(t, "temp"))
    I_.construct(ms[0], args, loc, t)
    I_.fr.temps.append((loc, t))
    return loc


@reg("vector::push_back", "vector::emplace_back")
def _(I_, fn, this, args, n):
    t = fn["name"]
    t = t[t.index("<") + 1:t.rindex(">")].strip()
    if I_.isrec(t) and (len(args) != 1 or base_type(args[0]["t"]) != t):
        v = mkobj(I_, t, args)
    else:
        v = I_.rv(args[0])
    if isinstance(v, Loc) and not isobj(I_, v):
        v = I_.load(v)
    cur = I_.load(this)
    if isinstance(cur, CharArr):
        if isinstance(v, Loc):
            v = I_.load(v)
        I_.store(this, CharArr(cat(cur.s, chr_(I_.tobyte(v)))))
        return
    if isinstance(v, Ptr) and "basic_string" in fn["name"]:
        v = I_.cstr(v)
    push(I_, this, v, cur)


@reg("pair")
def _(I_, fn, this, args, n):
    if len(args) == 1:
        return I_.rv(args[0])
    vs = []
    for a in args:
        v = I_.rv(a)
        if isinstance(v, Loc):
            v = I_.load(v)
        vs.append(v)
    return Rec("pair", first=vs[0], second=vs[1])


@reg("std::make_pair")
def _(I_, fn, this, args, n):
    return TABLE["pair"](I_, fn, this, args, n)


# ------------------------------------------------------------ shared_ptr
def shared(p=NULL):
    return Rec("shared", p=p)


def drop_shared(I_, v):
    """one owner less: nothing may use the object through other pointers unless another owner is in sight"""
    if not (isinstance(v, Rec) and v.kind == "shared") or v.p.bid is None:
        return
    for b in I_.heap.values():
        if b.alive and any(isinstance(w, Rec) and w.kind == "shared" and w.p == v.p for w in b.vals.values()):
            return
    for w in list(I_.heap[v.p.bid].vals.values()):
        if isinstance(w, Ptr) and w.bid in I_.heap and I_.heap[w.bid].alive and I_.heap[w.bid].kind == "new[]":
            I_.kill(w.bid)
    I_.kill(v.p.bid)


def shared_arg(I_, a, move):
    """the value of a shared_ptr argument and where to clear it when it is moved from"""
    v = I_.ev(a)
    loc = None
    if isinstance(v, Loc):
        loc, v = v, I_.load(v)
    if isinstance(v, Ptr) and v.bid is None:
        return shared()
    if isinstance(v, Ptr):
        b = I_.blk(v.bid, "shared object")
        I_.oblige(B(b.kind == "new" and v.off is I(0)), "a shared_ptr takes over an object of its own")
        own_shared(I_, v.bid)
        return shared(v)
    if not (isinstance(v, Rec) and v.kind == "shared"):
        raise Unsupported("shared_ptr from %r" % (v,))
    if move and loc is not None:
        I_.store(loc, shared())
    return v


def own_shared(I_, bid):
    """the block and what it owns are released by the last shared_ptr"""
    for x in [bid] + [w.bid for w in I_.heap[bid].vals.values() if isinstance(w, Ptr) and w.bid is not None]:
        b = I_.heap[x].copy()
        b.meta["shared"] = True
        if x == bid:
            b.kind = "shared"
        I_.heap[x] = b


@reg("shared::shared_ptr")
def _(I_, fn, this, args, n):
    if not args:
        return shared()
    return shared_arg(I_, args[0], ptype(fn, 0).endswith("&&"))


@reg("shared::operator=")
def _(I_, fn, this, args, n):
    v = shared_arg(I_, args[0], ptype(fn, 0).endswith("&&"))
    old = I_.load(this)
    I_.store(this, v)
    if old != v:
        drop_shared(I_, old)
    return this


@reg("shared::reset")
def _(I_, fn, this, args, n):
    v = shared_arg(I_, args[0], False) if args else shared()
    old = I_.load(this)
    I_.store(this, v)
    drop_shared(I_, old)


@reg("shared::get")
def _(I_, fn, this, args, n):
    return I_.load(this).p


@reg("shared::operator->")
def _(I_, fn, this, args, n):
    return I_.load(this).p


@reg("shared::operator*")
def _(I_, fn, this, args, n):
    return I_.deref(I_.load(this).p)


@reg("shared::operator bool")
def _(I_, fn, this, args, n):
    return B(I_.load(this).p.bid is not None)


@reg("shared::~shared_ptr")
def _(I_, fn, this, args, n):
    pass


@reg("std::make_shared")
def _(I_, fn, this, args, n):
    t = n["t"]
    t = t[t.index("<") + 1:t.rindex(">")].strip()
    t = t[6:] if t.startswith("const ") else t
    if not I_.isrec(t):
        raise Unsupported("make_shared of %s" % t)
    ms = [m for m in I_.prog.recs[t]["methods"] if m.get("ctor") and len(m["ptypes"]) == len(args)]
    if len(args) == 1:
        ms = [m for m in ms if m.get("ctor") == ("move" if ptype(fn, 0).endswith("&&") or not ptype(fn, 0).endswith("&") else "copy")]
    if len(ms) != 1:
        raise Unsupported("make_shared: which constructor of %s" % t)
    bid = I_.alloc(t, "new", {})
    I_.construct(ms[0], args, Loc(bid), t)
    own_shared(I_, bid)
    return shared(Ptr(bid))


# ------------------------------------------------------------ unique_ptr
def uniq(p, array):
    return Rec("uniq", p=p, array=array)


def uniq_class(t):
    """(element type, array?) of std::unique_ptr<...> with the default deleter"""
    m = re.fullmatch(r"std::unique_ptr<([^,<>]*)(, std::default_delete<[^,<>]*> ?)?>", t)
    if not m:
        raise Unsupported("unique_ptr of type %s" % t)
    e = m.group(1).strip()
    arr = e.endswith("[]")
    e = e[:-2].strip() if arr else e
    return (e[6:].strip() if e.startswith("const ") else e), arr


def uniq_load(I_, this):
    v = I_.load(this)
    if not (isinstance(v, Rec) and v.kind == "uniq"):
        raise Unsupported("unique_ptr with value %r" % (v,))
    return v


def uniq_cls(fn):
    return fn["name"][:fn["name"].rindex(">::") + 1] if ">::" in fn["name"] else fn["name"].rsplit("::", 1)[0]


@reg("uniq::unique_ptr")
def _(I_, fn, this, args, n):
    _, arr = uniq_class(uniq_cls(fn))
    if not args:
        return uniq(NULL, arr)
    v = I_.ev(args[0])
    if isinstance(v, Loc):
        loc, v = v, I_.load(v)
        if isinstance(v, Rec) and v.kind == "uniq":
            I_.store(loc, uniq(NULL, v.array))
            return v
    if isinstance(v, Rec) and v.kind == "uniq":
        return v
    return uniq(v, arr)


@reg("uniq::operator=", "uniq::reset")
def _(I_, fn, this, args, n):
    old = uniq_load(I_, this)
    v = I_.ev(args[0]) if args else NULL
    if isinstance(v, Loc):
        loc, v = v, I_.load(v)
        if isinstance(v, Rec) and v.kind == "uniq":
            I_.store(loc, uniq(NULL, v.array))
    if isinstance(v, Rec) and v.kind == "uniq":
        v = v.p
    I_.store(this, uniq(v, old.array))
    I_.delete(old.p, old.array, "")
    return this if fn["name"].endswith("operator=") else None


@reg("uniq::release")
def _(I_, fn, this, args, n):
    old = uniq_load(I_, this)
    I_.store(this, uniq(NULL, old.array))
    return old.p


@reg("uniq::get", "uniq::operator->")
def _(I_, fn, this, args, n):
    return uniq_load(I_, this).p


@reg("uniq::operator*")
def _(I_, fn, this, args, n):
    return I_.deref(uniq_load(I_, this).p)


@reg("uniq::operator[]")
def _(I_, fn, this, args, n):
    p = uniq_load(I_, this).p
    i = I_.rv(args[0])
    if not isinstance(p, Ptr):
        return I_.deref(p)
    return I_.elem(p, add(p.off, i))


@reg("uniq::operator bool")
def _(I_, fn, this, args, n):
    return I_.nonnull(uniq_load(I_, this).p)


@reg("uniq::~unique_ptr")
def _(I_, fn, this, args, n):
    pass


@reg("std::make_unique")
def _(I_, fn, this, args, n):
    e, arr = uniq_class(n["t"])
    if arr:
        if e not in ("char", "unsigned char"):
            raise Unsupported("make_unique of %s" % n["t"])
        k = I_.rv(args[0])
        I_.oblige(le(k, I(1 << 62)), "allocation size does not wrap around")
        return uniq(Ptr(I_.alloc("char", "new[]", {(): CharArr(fold(S("\0"), Seg.J, k))})), True)
    if not I_.isrec(e):
        raise Unsupported("make_unique of %s" % n["t"])
    ms = [m for m in I_.prog.recs[e]["methods"] if m.get("ctor") and len(m["ptypes"]) == len(args)]
    if len(args) == 1:
        ms = [m for m in ms if m.get("ctor") == ("move" if ptype(fn, 0).endswith("&&") or not ptype(fn, 0).endswith("&") else "copy")]
    if not args and not ms:
        bid = I_.alloc(e, "new", {})
        return uniq(Ptr(bid), False)
    if len(ms) != 1:
        raise Unsupported("make_unique: which constructor of %s" % e)
    bid = I_.alloc(e, "new", {})
    I_.construct(ms[0], args, Loc(bid), e)
    return uniq(Ptr(bid), False)
