"""Helpers shared by the specifications."""
from ..terms import *
from ..machine import *
from ..contracts import Spec, Contracts, Ctx, Views
from ..lib import WS, span, spanI, lower, upper, in_mask, rindex, npos, NPOS
from ..regex import define

CHARP = "const char *"
STR = "const std::basic_string<char> &"

SPECS = []


def spec(name, props, ptypes=None, **kw):
    def d(fn):
        SPECS.append(Spec(name, fn, props, ptypes=ptypes, **kw))
        return fn
    return d


def J(n):
    return "jed_utils::" + n


# ------------------------------------------------------------ spec functions
def ltrim(I_, s):
    k = span(I_, WS, s)
    return I_.sub(s, k, sub(length(s), k))


def rtrim(I_, s):
    k = span(I_, WS, s, True)
    return I_.sub(s, I(0), sub(length(s), k))


def watch(c, s):
    """every byte of s that is read tells something about the white space around s"""
    if c.verify:
        c.I.spans = {s: [(WS, span(c.I, WS, s), False), (WS, span(c.I, WS, s, True), True)]}


def trimmed(I_, s):
    k, m = span(I_, WS, s), span(I_, WS, s, True)
    I_.assume(Iff(eqI(k, length(s)), eqI(m, length(s))))
    I_.assume(Or(eqI(k, length(s)), lt(add(k, m), length(s))))
    r = rtrim(I_, ltrim(I_, s))
    trim_lemma(I_, s, r)
    return r


def trim_lemma(I_, s, r):
    """trim(s) is empty exactly when s is all white space (lemma over the two spans)"""
    I_.assume(Iff(eqI(length(r), I(0)), eqI(span(I_, WS, s), length(s))))
    I_.assume(Iff(eqI(length(r), I(0)), eqI(span(I_, WS, s, True), length(s))))


def blank(I_, s):
    """s consists of white space only (or is empty)"""
    trimmed(I_, s)
    return eqI(span(I_, WS, s), length(s))


def ctext(c, i):
    """the text of a std::string argument as a C string: up to its first NUL"""
    s = c.arg_str(i)
    return c.I.until_nul(cat(s, "\0"), "argument")


# -------------------------------------------------------- owned C-string classes
def movedout(c, loc):
    """after a move: nothing, or something of its own"""
    c.touch(loc)
    I_ = c.I
    if not c.verify:
        I_.store(loc, NULL)
        return
    p = c.h1(loc)
    if isinstance(p, Rec) and p.kind == "lazy":
        return
    if isinstance(p, Ptr) and p.bid is None:
        return
    if isinstance(p, Ptr) and p.bid in I_.heap and I_.heap[p.bid].alive and p.bid not in c.owned:
        c.owned.add(p.bid)
        c.touched.add((p.bid, ()))
        return
    I_.oblige(FALSE, "the moved-from %s owns nothing that has another owner" % c.nm(loc), "post")


def move_cstr(c, dst, src, s, fresh_dst):
    """dst takes over the text s of src"""
    I_ = c.I
    if not c.verify:
        if not fresh_dst:
            c.release(dst)
        I_.store(dst, I_.load(src))
        I_.store(src, NULL)
        return
    c.set_owned(dst, s, release=False)
    movedout(c, src)
    if not fresh_dst:
        p0 = c.old(dst)
        if isinstance(p0, Ptr) and p0.bid is not None and p0.bid not in c.owned:
            c.release(dst)


def pre_cstr(c, loc):
    """text of an owned field before the call (None: null pointer)"""
    return c.get_cstr(loc)


def owned_class(cls, cstrs, scalars=(), props=("P06",), own=None):
    """value semantics of a class that owns C strings"""
    own = own or (lambda c, o: ())
    C = J(cls)
    cls = cls.split("::")[-1]
    cref, rref = "const %s &" % C, "%s &&" % C

    @spec("%s::%s" % (C, cls), props, [cref])
    def copy_ctor(c):
        c.this_obj(raw=True)
        o = c.arg_obj(0, C)
        vals = [pre_cstr(c, c.field(o, f)) for f in cstrs]
        sc = [c.leaf(c.field(o, f)) for f in scalars]
        c.body()
        for f, v in zip(cstrs, vals):
            c.set_owned(c.field(c.this, f), v)
        for f, v in zip(scalars, sc):
            c.set_val(c.field(c.this, f), v)

    @spec("%s::operator=" % C, props, [cref])
    def copy_assign(c):
        c.this_obj(valid=False)
        o = c.arg_obj(0, C, alias=True)
        if o == c.this:
            c.body()
            c.ret_this()
            return
        vals = [pre_cstr(c, c.field(o, f)) for f in cstrs]
        sc = [c.leaf(c.field(o, f)) for f in scalars]
        c.body()
        for f, v in zip(cstrs, vals):
            c.set_owned(c.field(c.this, f), v)
        for f, v in zip(scalars, sc):
            c.set_val(c.field(c.this, f), v)
        c.ret_this()

    @spec("%s::%s" % (C, cls), props, [rref])
    def move_ctor(c):
        c.this_obj(raw=True)
        o = c.arg_obj(0, C, valid=False)
        vals = [pre_cstr(c, c.field(o, f)) for f in cstrs]
        sc = [c.leaf(c.field(o, f)) for f in scalars]
        c.body()
        for f, v in zip(cstrs, vals):
            move_cstr(c, c.field(c.this, f), c.field(o, f), v, True)
        for f, v in zip(scalars, sc):
            c.set_val(c.field(c.this, f), v)
            c.set_any(c.field(o, f))

    @spec("%s::operator=" % C, props, [rref])
    def move_assign(c):
        c.this_obj(valid=False)
        o = c.arg_obj(0, C, alias=True, valid=False)
        if o == c.this:
            c.body()
            c.ret_this()
            return
        vals = [pre_cstr(c, c.field(o, f)) for f in cstrs]
        sc = [c.leaf(c.field(o, f)) for f in scalars]
        c.body()
        for f, v in zip(cstrs, vals):
            move_cstr(c, c.field(c.this, f), c.field(o, f), v, False)
        for f, v in zip(scalars, sc):
            c.set_val(c.field(c.this, f), v)
            c.set_any(c.field(o, f))
        c.ret_this()

    @spec("%s::~%s" % (C, cls), props)
    def dtor(c):
        c.this_obj(valid=False)
        c.body()
        c.destroyed()


def getter_cstr(cls, fn, field, props):
    @spec("%s::%s" % (J(cls), fn), props, apply=False)
    def g(c):
        c.this_obj()
        s = c.get_cstr(c.field(c.this, field))
        c.body()
        c.ret_cstr(s)


def getter_val(cls, fn, field, props):
    @spec("%s::%s" % (J(cls), fn), props, apply=False)
    def g(c):
        c.this_obj()
        s = c.leaf(c.field(c.this, field))
        c.body()
        c.ret(s)
