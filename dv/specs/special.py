"""Construction, copy, move, assignment and destruction of the three clients and their secure base."""
from . import conn as N
from .conn import *
from .common import ctext
from .client import Client, same_value, take, move_obj, check_obj, check_ptrs, CREF, RREF

PR = ("P08", "P20")
TLS = ("mBIO", "mCTX")


def no_tls(c, loc, accept):
    """no TLS session"""
    f = lambda n: c.field(loc, n)
    for n in TLS:
        c.touch(f(n))
        if c.verify:
            p = c.h1(f(n))
            if p is UNINIT:
                c.I.fail("%s is set" % n, "post")
            if isinstance(p, Rec) and p.kind == "lazy":
                p = c.I.force(f(n), p)
            c.I.oblige(B(isinstance(p, Ptr) and p.bid is None), "%s is null" % n, "post")
            if f(n).bid in c.I.h0 and c.old(f(n)) is not UNINIT:
                c.release(f(n))
        else:
            c.release(f(n))
            c.I.store(f(n), NULL)
    c.set_val(f("mSSL"), NULL)
    c.set_val(f("mAcceptSelfSignedCert"), accept)


def take_tls(c, dst, src, fresh, accept, ssl):
    f, g = (lambda n: c.field(dst, n)), (lambda n: c.field(src, n))
    for n in TLS:
        move_obj(c, f(n), g(n), fresh)
        if c.verify:                                          # the source lets go of it: cleanup would release it
            p = c.h1(g(n))
            if isinstance(p, Rec) and p.kind == "lazy":
                p = c.I.force(g(n), p)
            c.I.oblige(B(isinstance(p, Ptr) and p.bid is None), "the source no longer uses %s" % n, "post")
    c.set_val(f("mSSL"), ssl)
    c.set_val(f("mAcceptSelfSignedCert"), accept)
    for n in ("mSSL", "mAcceptSelfSignedCert"):
        c.set_any(g(n), NULL if n == "mSSL" else FALSE)


class NoMore:
    """nothing beyond what the wrapped class holds"""
    def initial(self, c, loc): pass
    def of(self, c, loc): pass
    def same(self, c, loc, v): pass
    def left(self, c, loc): pass


def special(cls, sec, props=(), more=NoMore(), name=CHARP):
    """the special members of a client; more: what it holds beyond that"""
    short = cls.split("::")[-1]
    P0, PR = (("P05", "P08"), ("P08", "P20")) if not props else (props, props)

    @spec("%s::%s" % (cls, short), P0, [name, "unsigned int"])
    def ctor(c):
        c.this_obj(raw=True)
        s, p = c.arg_cstr(0, True) if name == CHARP else ctext(c, 0), c.arg_int(1)
        c.body()
        if c.throws(TRUE if s is None else blank(c.I, s)):
            return
        f = lambda n: c.field(c.this, n)
        c.set_owned(f("mServerName"), s)
        for n in ("mCommunicationLog", "mLastServerResponse"):
            c.set_owned(f(n), None)
        for n, v in (("mPort", p), ("mBatchMode", FALSE), ("mIsConnected", FALSE), ("mSock", I(0)), ("mCommandTimeOut", I(5)),
                     ("mLastSocketErrNo", I(0)), ("mCommunicationLogSize", I(0)), ("mKeepUsingBaseSendCommands", FALSE)):
            c.set_val(f(n), v)
        check_ptrs(c, c.this, FALSE)
        check_obj(c, f("mAuthOptions"), J("ServerAuthOptions"), None)
        check_obj(c, f("mCredential"), CR, None)
        if sec:
            no_tls(c, c.this, FALSE)
        more.initial(c, c.this)

    @spec("%s::%s" % (cls, short), PR, [CREF % cls])
    def copy_ctor(c):
        c.this_obj(raw=True)
        o = c.arg_obj(0, cls)
        v = Client(c, o)
        a = c.leaf(c.field(o, "mAcceptSelfSignedCert")) if sec else None
        x = more.of(c, o)
        c.body()
        same_value(c, c.this, v, True)
        if sec:
            no_tls(c, c.this, a)
        more.same(c, c.this, x)

    @spec("%s::operator=" % cls, PR, [CREF % cls])
    def copy_assign(c):
        c.this_obj(valid=False, dyn="?")
        o = c.arg_obj(0, cls, alias=True)
        if o == c.this:
            c.body()
            c.ret_this()
            return
        v = Client(c, o)
        a = c.leaf(c.field(o, "mAcceptSelfSignedCert")) if sec else None
        x = more.of(c, o)
        done = N.closing(c)
        c.body()
        c.set_ghost("open", I(0))
        if sec:
            c.out_ghost("hs", FALSE)
        same_value(c, c.this, v, False)
        if sec:
            no_tls(c, c.this, a)
        more.same(c, c.this, x)
        done()
        c.ret_this()

    @spec("%s::%s" % (cls, short), PR, [RREF % cls])
    def move_ctor(c):
        c.this_obj(raw=True)
        o = c.arg_obj(0, cls, valid=False)
        v = Client(c, o)
        v.logsize = c.leaf(c.field(o, "mCommunicationLogSize"))
        a, h = (c.leaf(c.field(o, "mAcceptSelfSignedCert")), c.leaf(c.field(o, "mSSL"))) if sec else (None, None)
        x = more.of(c, o)
        c.body()
        take(c, c.this, o, v, True)
        if sec:
            take_tls(c, c.this, o, True, a, h)
        more.same(c, c.this, x)
        more.left(c, o)

    @spec("%s::operator=" % cls, PR, [RREF % cls], shards=8 if sec and props else 1)
    def move_assign(c):
        c.this_obj(valid=False, dyn="?")
        o = c.arg_obj(0, cls, alias=True, valid=False)
        if o == c.this:
            c.body()
            c.ret_this()
            return
        v = Client(c, o)
        v.logsize = c.leaf(c.field(o, "mCommunicationLogSize"))
        a, h = (c.leaf(c.field(o, "mAcceptSelfSignedCert")), c.leaf(c.field(o, "mSSL"))) if sec else (None, None)
        x = more.of(c, o)
        c.split([x is None, v.cred is None, v.auth is None])
        done = N.closing(c)
        c.body()
        c.set_ghost("open", I(0))
        if sec:
            c.out_ghost("hs", FALSE)
        take(c, c.this, o, v, False)
        if sec:
            take_tls(c, c.this, o, False, a, h)
        more.same(c, c.this, x)
        more.left(c, o)
        done()
        c.ret_this()

    @spec("%s::~%s" % (cls, short), PR)
    def dtor_(c):
        c.this_obj(valid=False)
        done = N.closing(c)
        c.body()
        c.destroyed()
        c.set_ghost("open", I(0))
        if sec:
            c.out_ghost("hs", FALSE)
        done()


for k in (SC, SB, OS, FS):
    special(k, k != SC)


getter_val("SecureSMTPClientBase", "getAcceptSelfSignedCert", "mAcceptSelfSignedCert", ("P08", "P19"))


@spec(SB + "::setAcceptSelfSignedCert", ("P08", "P19"))
def _(c):
    c.this_obj()
    v = c.arg_bool(0)
    c.body()
    c.set_val(c.field(c.this, "mAcceptSelfSignedCert"), v)
