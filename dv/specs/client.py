"""SMTPClientBase and the three clients: values and representation."""
from .common import *
from .data import ERRORS, _errors

CB, SC, SB, FS, OS = J("SMTPClientBase"), J("SmtpClient"), J("SecureSMTPClientBase"), J("ForcedSecureSMTPClient"), J("OpportunisticSecureSMTPClient")
CR = J("Credential")
INITIAL = 4096


# --------------------------------------------------------- representation
def raw_ptr(n):
    return {"sendCommandPtr": CB + "::sendRawCommand", "sendCommandWithFeedbackPtr": CB + "::sendRawCommand"}[n]


def virt_ptr(n):
    return {"sendCommandPtr": CB + "::sendCommand", "sendCommandWithFeedbackPtr": CB + "::sendCommandWithFeedback"}[n]


def logbuf(I_, s, size):
    """buffer of that size that holds the text s"""
    junk = svar(I_.fresh("junk"))
    I_.assume(eqI(add(length(s), add(I(1), length(junk))), size))
    return CharArr(cat(s, "\0", junk))


def lazy_log(I_, fl, fs, nm, nn=False):
    """the log field holds some text in a buffer of the recorded size (or is null)"""
    size = I_.newI(nm + ".size", 0, (1 << 64) - 1)
    pre = I_.h0 is None

    def make(I2):
        if not nn and I2.choose2():
            v = NULL
        else:
            s = svar(nm, NONUL)
            I2.assume(le(length(s), I(I2.MAXLEN)))
            bid = "lazy:" + nm
            blk = Block("char", "new[]", {(): logbuf(I2, s, size)})
            I2.heap[bid] = blk
            if I2.h0 is not None and pre:
                I2.h0[bid] = blk.copy()
            v = Ptr(bid)
        I2.views.put(I2, fl, v, rec)
        return v

    def refresh(I2, leaf):
        lazy_log(I2, fl, fs, I2.fresh("log"), nn)
    I_.rawset(fs.bid, fs.path, size)
    rec = Rec("lazy", make=make, nm=nm, tag="log" if nn else "log?", refresh=refresh, slaves=(fs.path,), size=size)
    I_.rawset(fl.bid, fl.path, rec)


def lazy_resp(I_, fl, nm, nn=False):
    """the field owns some text (or is null)"""
    pre = I_.h0 is None

    def make(I2):
        if not nn and I2.choose2():
            v = NULL
        else:
            s = svar(nm, NONUL)
            I2.assume(le(length(s), I(I2.MAXLEN)))
            bid = "lazy:" + nm
            blk = Block("char", "new[]", {(): CharArr(cat(s, "\0"))})
            I2.heap[bid] = blk
            if I2.h0 is not None and pre:
                I2.h0[bid] = blk.copy()
            v = Ptr(bid)
        I2.views.put(I2, fl, v, rec)
        return v

    def refresh(I2, leaf):
        lazy_resp(I2, fl, I2.fresh("resp"), nn)
    rec = Rec("lazy", make=make, nm=nm, tag="resp" if nn else "resp?", refresh=refresh, slaves=())
    I_.rawset(fl.bid, fl.path, rec)


def view(c, cls, loc, name, valid):
    I_ = c.I
    f = lambda n: c.field(loc, n)
    put = lambda l, v: I_.rawset(l.bid, l.path, v)
    # communication log: null, or a text in a buffer of the recorded size
    lazy_log(I_, f("mCommunicationLog"), f("mCommunicationLogSize"), name + ".log")
    k = I_.newB(name + ".keep")
    put(f("mKeepUsingBaseSendCommands"), k)
    put(f("sendCommandPtr"), Rec("fnptr?", group="send", keep=k))
    put(f("sendCommandWithFeedbackPtr"), Rec("fnptr?", group="feedback", keep=k))
    l = f("mLastServerResponse")
    lazy_resp(I_, l, name + ".mLastServerResponse")
    return ("mCommunicationLog", "mCommunicationLogSize", "mKeepUsingBaseSendCommands", "sendCommandPtr", "sendCommandWithFeedbackPtr", "mLastServerResponse")


def handle(c, fl, cls, nm):
    """pointer to a TLS library object of its own, or null"""
    def make(I_):
        if I_.choose2():
            v = NULL
        else:
            bid = "lazy:" + nm
            I_.heap[bid] = Block(cls, "new", {})
            if I_.h0 is not None:
                I_.h0[bid] = I_.heap[bid].copy()
            v = Ptr(bid)
        I_.views.put(I_, fl, v)
        return v
    return Rec("lazy", make=make, nm=nm)


def secure_view(c, cls, loc, name, valid):
    I_ = c.I
    for n, t in (("mBIO", "BIO"), ("mCTX", "CTX")):
        fl = c.field(loc, n)
        I_.rawset(fl.bid, fl.path, handle(c, fl, t, name + "." + n))
    fl = c.field(loc, "mSSL")
    I_.rawset(fl.bid, fl.path, Opq(name + ".mSSL"))
    return ("mBIO", "mCTX", "mSSL")


VIEW = {("class", "SMTPClientBase"): view, ("class", "SecureSMTPClientBase"): secure_view}

SCALARS = ("mIsConnected", "mPort", "mBatchMode", "mCommandTimeOut", "mLastSocketErrNo", "mSock")


class Client:
    """contents of a client before the call"""

    def __init__(self, c, loc):
        self.c, self.loc = c, loc
        self.server = c.get_cstr(c.field(loc, "mServerName"))
        self.log = c.get_cstr(c.field(loc, "mCommunicationLog"))
        self.resp = c.get_cstr(c.field(loc, "mLastServerResponse"))
        self.keep = c.leaf(c.field(loc, "mKeepUsingBaseSendCommands"))
        self.sc = {n: c.leaf(c.field(loc, n)) for n in SCALARS}
        self.auth = self.obj("mAuthOptions", J("ServerAuthOptions"))
        self.cred = self.obj("mCredential", CR)

    def obj(self, f, cls):
        """contents by field of an owned object (None: null)"""
        c = self.c
        p = c.leaf(c.field(self.loc, f))
        if isinstance(p, Ptr) and p.bid is None:
            return None
        return c.objfields(c.I.deref(p), cls)


def check_log(c, loc, s):
    """the log field owns a buffer of the recorded size that holds s"""
    I_ = c.I
    fl, fs = c.field(loc, "mCommunicationLog"), c.field(loc, "mCommunicationLogSize")
    c.set_owned(fl, s)
    c.touch(fs)
    if s is None:
        return
    p = c.h1(fl)
    v = I_.heap[p.bid].vals[()]
    I_.oblige(eqI(length(v.s), c.h1(fs)), "mCommunicationLogSize is the size of the log's buffer", "post")


def check_obj(c, fl, cls, gen, release=True):
    """the field owns a fresh object with these contents (None: null)"""
    I_ = c.I
    c.touch(fl)
    if not c.verify:
        if release:
            c.release(fl)
        if gen is None:
            I_.store(fl, NULL)
            return
        bid = I_.alloc(cls, "new", {})
        for path, v in gen.items():
            if v.sort == "S":
                v = Ptr(I_.alloc("char", "new[]", {(): CharArr(cat(v, "\0"))}))
            I_.rawset(bid, path, v)
        I_.store(fl, Ptr(bid))
        return
    n = c.nm(fl)
    p = c.h1(fl)
    if isinstance(p, Rec) and p.kind == "lazy":
        p = I_.force(fl, p)
    if gen is None:
        I_.oblige(B(isinstance(p, Ptr) and p.bid is None), "%s is null" % n, "post")
    else:
        if p is UNINIT or isinstance(p, Rec) and p.kind == "deadptr":
            I_.fail("%s designates a live object" % n, "post")
        if not isinstance(p, Ptr):
            raise Unsupported("%s holds %r" % (n, p))
        if p.bid is None:
            I_.fail("%s is not null" % n, "post")
        b = I_.heap.get(p.bid)
        I_.oblige(B(b is not None and b.alive and b.kind == "new"), "%s designates a live object" % n, "post")
        I_.oblige(B(p.bid not in c.owned), "%s is not shared with another owner" % n, "post")
        c.owned.add(p.bid)
        for q, v in gen.items():
            c.touched.add((p.bid, q))
            w = b.vals.get(q, UNINIT)
            what = "%s.%s holds the right value" % (n, q[-1].split("::")[-1])
            if v.sort == "S":
                c.check_owned(w, v, what)
            elif w is UNINIT:
                I_.fail(what, "post")
            else:
                I_.oblige(eq(w, v), what, "post")
    if release and fl.bid in I_.h0 and c.old(fl) is not UNINIT and c.old(fl) != p:
        c.release(fl)


def check_ptrs(c, loc, keep):
    """the command pointers follow the flag"""
    I_ = c.I
    for n in ("sendCommandPtr", "sendCommandWithFeedbackPtr"):
        fl = c.field(loc, n)
        c.touch(fl)
        if not c.verify:
            I_.store(fl, Rec("fnptr?", group="send" if n == "sendCommandPtr" else "feedback", keep=keep))
            continue
        p = c.h1(fl)
        if isinstance(p, Rec) and p.kind == "fnptr?":
            ok = Iff(p.keep, keep) if p.group == ("send" if n == "sendCommandPtr" else "feedback") else FALSE
        elif isinstance(p, FnPtr):
            nm = I_.fnptr_name(p)
            m = I_.prog.methods.get(p.name) or I_.prog.funcs.get(p.name)
            ar = len(m["ptypes"]) if m else None
            want = 2 if n == "sendCommandPtr" else 3
            ok = FALSE
            if ar == want:
                ok = keep if nm == raw_ptr(n) else Not(keep) if nm == virt_ptr(n) else FALSE
        else:
            I_.fail("%s is set" % n, "post")
        I_.oblige(ok, "%s selects the base command exactly when base commands are kept" % n, "post")


def same_value(c, loc, v, fresh):
    """the client at loc holds the settings of v, is not connected and shares nothing with it"""
    f = lambda n: c.field(loc, n)
    c.set_owned(f("mServerName"), v.server)
    check_log(c, loc, v.log) if c.verify else apply_log(c, loc, v.log)
    c.set_owned(f("mLastServerResponse"), v.resp)
    for n in ("mPort", "mBatchMode", "mCommandTimeOut", "mLastSocketErrNo"):
        c.set_val(f(n), v.sc[n])
    c.set_val(f("mIsConnected"), FALSE)
    c.set_val(f("mSock"), I(0))
    c.set_val(f("mKeepUsingBaseSendCommands"), v.keep)
    check_ptrs(c, loc, v.keep)
    check_obj(c, f("mAuthOptions"), J("ServerAuthOptions"), v.auth)
    check_obj(c, f("mCredential"), CR, v.cred)


def apply_log(c, loc, s):
    I_ = c.I
    fl, fs = c.field(loc, "mCommunicationLog"), c.field(loc, "mCommunicationLogSize")
    c.touch(fl)
    c.touch(fs)
    c.release(fl)
    if s is None:
        I_.store(fl, NULL)
        return
    size = I_.newI("logsize", 1, 1 << 40)
    I_.store(fl, Ptr(I_.alloc("char", "new[]", {(): logbuf(I_, s, size)})))
    I_.store(fs, size)


CREF, RREF = "const %s &", "%s &&"


@spec("%s::SMTPClientBase" % CB, ("P05", "P08"), [CHARP, "unsigned int"])
def _(c):
    c.this_obj(raw=True)
    s, p = c.arg_cstr(0, True), c.arg_int(1)
    c.body()
    if c.throws(TRUE if s is None else blank(c.I, s)):
        return
    f = lambda n: c.field(c.this, n)
    c.set_owned(f("mServerName"), s)
    for n, v in (("mCommunicationLog", None), ("mLastServerResponse", None)):
        c.set_owned(f(n), v)
    c.set_val(f("mPort"), p)
    c.set_val(f("mBatchMode"), FALSE)
    c.set_val(f("mIsConnected"), FALSE)
    c.set_val(f("mSock"), I(0))
    c.set_val(f("mCommandTimeOut"), I(5))
    c.set_val(f("mLastSocketErrNo"), I(0))
    c.set_val(f("mCommunicationLogSize"), I(0))
    c.set_val(f("mKeepUsingBaseSendCommands"), FALSE)
    check_ptrs(c, c.this, FALSE)
    check_obj(c, f("mAuthOptions"), J("ServerAuthOptions"), None)
    check_obj(c, f("mCredential"), CR, None)


@spec("%s::~SMTPClientBase" % CB, ("P08",))
def _(c):
    c.this_obj(valid=False)
    c.body()
    c.destroyed()


@spec("%s::SMTPClientBase" % CB, ("P08",), [CREF % CB])
def _(c):
    c.this_obj(raw=True)
    o = c.arg_obj(0, CB)
    v = Client(c, o)
    c.body()
    same_value(c, c.this, v, True)


@spec("%s::operator=" % CB, ("P08",), [CREF % CB])
def _(c):
    c.this_obj(valid=False)
    o = c.arg_obj(0, CB, alias=True)
    if o == c.this:
        c.body()
        c.ret_this()
        return
    v = Client(c, o)
    c.body()
    same_value(c, c.this, v, False)
    c.ret_this()


def take(c, dst, src, v, fresh):
    """dst takes over everything the client v at src holds"""
    f, g = (lambda n: c.field(dst, n)), (lambda n: c.field(src, n))
    for n, s in (("mServerName", v.server), ("mLastServerResponse", v.resp), ("mCommunicationLog", v.log)):
        move_cstr(c, f(n), g(n), s, fresh)
    for n in ("mAuthOptions", "mCredential"):
        move_obj(c, f(n), g(n), fresh)
    for n in SCALARS:
        c.set_val(f(n), v.sc[n])
    c.set_val(f("mCommunicationLogSize"), v.logsize)
    c.set_val(f("mKeepUsingBaseSendCommands"), v.keep)
    check_ptrs(c, dst, v.keep)
    # the source no longer uses the connection
    c.set_val(g("mIsConnected"), FALSE)
    c.set_val(g("mSock"), I(0))
    for n in ("mPort", "mBatchMode", "mCommandTimeOut", "mLastSocketErrNo", "mCommunicationLogSize", "mKeepUsingBaseSendCommands", "sendCommandPtr", "sendCommandWithFeedbackPtr"):
        c.set_any(g(n))


def move_obj(c, dst, src, fresh):
    I_ = c.I
    c.touch(dst)
    if not c.verify:
        if not fresh:
            c.release(dst)
        I_.store(dst, I_.load(src))
        I_.store(src, NULL)
        return
    p0 = c.old(src)
    p1 = c.h1(dst)
    I_.oblige(B(p0 is p1 or p0 == p1), "%s is taken over" % c.nm(dst), "post")
    if isinstance(p1, Ptr) and p1.bid is not None:
        c.owned.add(p1.bid)
    movedout(c, src)
    if not fresh:
        q = c.old(dst)
        if isinstance(q, Ptr) and q.bid is not None and q.bid not in c.owned:
            c.release(dst)


@spec("%s::SMTPClientBase" % CB, ("P08",), [RREF % CB])
def _(c):
    c.this_obj(raw=True)
    o = c.arg_obj(0, CB, valid=False)
    v = Client(c, o)
    v.logsize = c.leaf(c.field(o, "mCommunicationLogSize"))
    c.body()
    take(c, c.this, o, v, True)


@spec("%s::operator=" % CB, ("P08",), [RREF % CB])
def _(c):
    c.this_obj(valid=False)
    o = c.arg_obj(0, CB, alias=True, valid=False)
    if o == c.this:
        c.body()
        c.ret_this()
        return
    v = Client(c, o)
    v.logsize = c.leaf(c.field(o, "mCommunicationLogSize"))
    c.body()
    take(c, c.this, o, v, False)
    c.ret_this()


# ------------------------------------------------------- settings
for fn, fl in (("getServerPort", "mPort"), ("getBatchMode", "mBatchMode"), ("getCommandTimeout", "mCommandTimeOut"), ("getSocketFileDescriptor", "mSock")):
    getter_val("SMTPClientBase", fn, fl, ("P08",))
getter_cstr("SMTPClientBase", "getServerName", "mServerName", ("P08",))
getter_cstr("SMTPClientBase", "getLastServerResponse", "mLastServerResponse", ("P12",))


@spec(CB + "::getCommunicationLog", ("P08", "P11"), apply=False)
def _(c):
    c.this_obj()
    s = c.get_cstr(c.field(c.this, "mCommunicationLog"))
    c.body()
    c.ret_cstr(EMPTY if s is None else s)


@spec(CB + "::getCredentials", ("P08",), apply=False)
def _(c):
    c.this_obj()
    p = c.leaf(c.field(c.this, "mCredential"))
    c.body()
    c.ret(p, "the result is the client's own credentials")


def setter(fn, fl, props=("P08",)):
    @spec("%s::%s" % (CB, fn), props)
    def s(c):
        c.this_obj()
        v = c.arg_int(0)
        c.body()
        c.set_val(c.field(c.this, fl), v)


setter("setServerPort", "mPort")
setter("setBatchMode", "mBatchMode")
setter("setCommandTimeout", "mCommandTimeOut")
setter("setLastSocketErrNo", "mLastSocketErrNo")


@spec(CB + "::setServerName", ("P05", "P08"))
def _(c):
    c.this_obj()
    s = c.arg_cstr(0, True, alias="mServerName")
    c.body()
    if c.throws(TRUE if s is None else blank(c.I, s)):
        return
    c.set_owned(c.field(c.this, "mServerName"), s)


@spec(CB + "::setCredentials", ("P08",))
def _(c):
    c.this_obj()
    own = c.leaf(c.field(c.this, "mCredential"))
    if c.verify and isinstance(own, Ptr) and own.bid is not None and c.I.choose2():
        o = c.vals[0] = c.I.deref(own)
    else:
        o = c.arg_obj(0, CR)
    g = c.objfields(o, CR)
    c.body()
    check_obj(c, c.field(c.this, "mCredential"), CR, g)


@spec(CB + "::setKeepUsingBaseSendCommands", ("P08", "P19"))
def _(c):
    c.this_obj()
    k = c.arg_bool(0)
    c.body()
    c.set_val(c.field(c.this, "mKeepUsingBaseSendCommands"), k)
    check_ptrs(c, c.this, k)


@spec(CB + "::clearSocketFileDescriptor", ("P20",), apply=False)
def _(c):
    c.this_obj()
    c.body()
    c.set_val(c.field(c.this, "mSock"), I(0))


@spec(CB + "::setAuthenticationOptions", ("P10",), apply=False)
def _(c):
    c.this_obj()
    if c.verify and c.I.choose2():
        c.vals[0] = NULL
        g = None
    elif c.verify:
        bid = c.I.alloc(J("ServerAuthOptions"), "new", {})
        c.I.views.build(c, J("ServerAuthOptions"), Loc(bid), "opts", True)
        c.vals[0] = Ptr(bid)
        g = c.objfields(Loc(bid), J("ServerAuthOptions"))
    c.body()
    check_obj(c, c.field(c.this, "mAuthOptions"), J("ServerAuthOptions"), g)


@spec(CB + "::setLastServerResponse", ("P12",))
def _(c):
    c.this_obj()
    s = c.arg_cstr(0)
    c.body()
    c.set_owned(c.field(c.this, "mLastServerResponse"), s)


# ------------------------------------------------------- error messages
@spec(CB + "::getErrorMessage", ("P21",))
def _(c):
    n = c.arg_int(0)
    c.body()
    c.ret_cstr(_errors(c.I, n), owned=True)


@spec(CB + "::getErrorMessage_r", ("P21",))
def _(c):
    """0 and the whole message when it fits, else as much of it as fits and its length; -1 without a buffer"""
    I_ = c.I
    n = c.arg_int(0)
    m = c.arg_int(2)
    if c.verify:
        if I_.choose2():
            c.vals[1] = NULL
        else:
            j = svar(I_.fresh("buf"))
            I_.assume(eqI(length(j), m))
            c.vals[1] = Ptr(I_.alloc("char", "caller", {(): CharArr(j)}))
    p = c.vals[1]
    if not c.verify:
        v = I_.heap[p.bid].vals[p.path] if isinstance(p, Ptr) and p.bid is not None else None
        if v is not None and not (isinstance(v, CharArr) and p.off is I(0)):
            raise Unsupported("buffer %r" % (v,))
        if v is not None:
            I_.oblige(le(m, length(v.s)), "precondition of getErrorMessage_r: the buffer has the stated size", "pre")
    c.body()
    if p.bid is None or I_.decide(eqI(m, I(0))):
        c.ret(I(-1))
        return
    s = _errors(I_, n)
    fits = I_.decide(lt(length(s), m))
    t = s if fits else I_.sub(s, I(0), sub(m, I(1)))
    c.touched.add((p.bid, ()))
    if c.verify:
        c.eq_str(I_.cstr(p), t, "the buffer holds the message or as much of it as fits")
    else:
        b = I_.heap[p.bid]
        _, post = I_.split(v.s, add(length(t), I(1)))
        I_.rawset(p.bid, (), CharArr(cat(t, "\0", post)))
    c.ret(I(0) if fits else sub(m, I(1)))
