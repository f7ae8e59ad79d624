"""Base64 (RFC 4648 alphabet, with the library's CRLF after every 65536 characters)."""
from .common import *
from ..lib import tabidx

TAB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
LINE = 64 * 1024


def digit(v):
    """character of a 6-bit value"""
    return chr_(code(S(TAB), v))


def group(a, b, c):
    """four characters for three bytes"""
    return cat(digit(fdiv(a, 4)), digit(add(scale(16, fmod(a, 4)), fdiv(b, 16))), digit(add(scale(4, fmod(b, 16)), fdiv(c, 64))), digit(fmod(c, 64)))


def encode(I_, s, n):
    k = Seg.J
    at = lambda i: code(s, i)
    body = cat(group(at(scale(3, k)), at(add(scale(3, k), I(1))), at(add(scale(3, k), I(2)))),
               ite(eqI(fmod(add(k, I(1)), LINE // 4), I(0)), S("\r\n"), EMPTY))
    q, r = fdiv(n, 3), fmod(n, 3)
    head = fold(body, k, q)
    a, b = at(scale(3, q)), at(add(scale(3, q), I(1)))
    if I_.decide(eqI(r, I(0))):
        return head
    if I_.decide(eqI(r, I(1))):
        return cat(head, digit(fdiv(a, 4)), digit(scale(16, fmod(a, 4))), "==")
    return cat(head, digit(fdiv(a, 4)), digit(add(scale(16, fmod(a, 4)), fdiv(b, 16))), digit(scale(4, fmod(b, 16))), "=")


def arg_bytes(c, i, n):
    I_ = c.I
    if c.verify:
        s = I_.newS(c.f["params"][i]["name"])
        I_.assume(eqI(length(s), n))
        c.vals[i] = Ptr(I_.alloc("char", "caller", {(): CharArr(s)}, {"const": True}))
        return s
    p = c.vals[i]
    v = I_.blk(p.bid, "bytes").vals.get(p.path)
    if isinstance(v, Term) and v.sort == "S":
        v = CharArr(cat(v, "\0"))
    if not isinstance(v, CharArr):
        raise Unsupported("bytes at %r" % (v,))
    I_.oblige(le(add(p.off, n), length(v.s)), "precondition of %s: that many bytes are readable" % c.spec.name, "pre")
    return I_.sub(v.s, p.off, n)


@spec(J("Base64::Encode"), ("P01",))
def _(c):
    n = c.arg_int(1, 0, (1 << 32) - 1)
    s = arg_bytes(c, 0, n)
    c.body()
    if not c.verify:
        c.ret(encoded(c.I, s, n))
        return
    c.ret(encode(c.I, s, n), "the result is the Base64 text of the bytes")


def encoded(I_, s, n):
    """at call sites: the encoding as a function of the bytes"""
    if n is I(0):
        return EMPTY
    r = ufS("base64", [s], B64SET)
    # lemma (not machine-checked): 4 characters for at most 3 bytes, 2 more for 16384 full groups
    I_.assume(le(length(r), scale(4, n)))
    return r


B64SET = sum(1 << ord(ch) for ch in TAB + "=\r\n")


# ------------------------------------------------------------------- decoding
ALPHA = sum(1 << ord(ch) for ch in TAB)


def ungroup(v):
    """three bytes for four 6-bit values (fewer for an incomplete group)"""
    a, b, c, d = v
    return [add(scale(4, a), fdiv(b, 16)), add(scale(16, fmod(b, 16)), fdiv(c, 4)), add(scale(64, fmod(c, 4)), d)]


def six(I_, c):
    return tabidx(I_, TAB, c)


def decode(I_, s):
    """the alphabet characters before the first other one, four at a time; what is left of a last group yields one byte less"""
    n = span(I_, ALPHA, s)
    q, r = fdiv(n, 4), fmod(n, 4)
    k = Seg.J
    v = lambda i: ufI("tabidx:" + TAB, [code(s, i)])
    head = fold(cat(*[chr_(x) for x in ungroup([v(add(scale(4, k), I(i))) for i in range(4)])]), k, q)
    for j in (0, 1, 2):
        if I_.decide(eqI(r, I(j))):
            break
    else:
        j = 3
    tail = ungroup([v(add(scale(4, q), I(i))) if i < j else I(0) for i in range(4)])[:max(j - 1, 0)]
    return cat(head, *[chr_(x) for x in tail])


@spec(J("Base64::Decode"), ("P02",))
def _(c):
    s = c.arg_str(0)
    if c.verify:
        c.I.spans = {s: [(ALPHA, span(c.I, ALPHA, s), False)]}
    c.body()
    c.ret(decode(c.I, s), "the result is the bytes the text encodes")
