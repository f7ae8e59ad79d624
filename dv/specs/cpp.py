"""The C++ interface: every class against the one it wraps."""
from .common import *
from . import data as D
from .data import file_base64, mime, mime_name, addr_text, email_ok, bad_user, bad_pass, _errors
from .base64 import encoded
from ..lib import filetext

P = ("P22",)
X = "cpp::"
AT, CR, MA = J(X + "Attachment"), J(X + "Credential"), J(X + "MessageAddress")
OWN = {AT: ("mName", "mFilename", "mContentId"), CR: ("mUsername", "mPassword"), MA: ("mEmailAddress", "mDisplayName")}

owned_class(X + "Attachment", OWN[AT], props=P)
owned_class(X + "Credential", OWN[CR], ("mRecommendedAuthMethod",), props=P)
owned_class(X + "MessageAddress", OWN[MA], props=P)


def text(c, f):
    return c.get_cstr(c.field(c.this, f))


def getter(cls, fn, f):
    @spec("%s::%s" % (cls, fn), P, apply=False)
    def g(c):
        c.this_obj()
        s = text(c, f)
        c.body()
        c.ret(s)


for cls, f, g in ((AT, "mName", "getName"), (AT, "mFilename", "getFilename"), (AT, "mContentId", "getContentId"), (CR, "mUsername", "getUsername"), (CR, "mPassword", "getPassword"),
                  (MA, "mEmailAddress", "getEmailAddress"), (MA, "mDisplayName", "getDisplayName")):
    getter(cls, g, f)
getter_val(X + "Credential", "getRecommendedAuthOption", "mRecommendedAuthMethod", P)


# ------------------------------------------------------------------ Attachment
@spec(AT + "::Attachment", P, [STR, STR, STR])
def _(c):
    c.this_obj(raw=True)
    fn, nm, ci = ctext(c, 0), ctext(c, 1), ctext(c, 2)
    c.body()
    if c.throws(blank(c.I, fn)):
        return
    for f, v in (("mName", nm), ("mFilename", fn), ("mContentId", ci)):
        c.set_owned(c.field(c.this, f), v)


@spec(AT + "::setContentId", P)
def _(c):
    c.this_obj()
    s = ctext(c, 0)
    c.body()
    c.set_owned(c.field(c.this, "mContentId"), s)


@spec(AT + "::getMimeType", P, apply=False)
def _(c):
    c.this_obj()
    s = text(c, "mFilename")
    c.body()
    c.ret(mime_name(s))


@spec(AT + "::getBase64EncodedFile", P, apply=False)
def _(c):
    I_ = c.I
    c.this_obj()
    s = text(c, "mFilename")
    f = filetext(I_, s)
    c.body()
    c.ret(encoded(I_, f, length(f)) if I_.decide(ufB("readable", [s])) else EMPTY)


def result_obj(c, vals):
    """the returned object owns these texts, by field"""
    for f, v in vals:
        c.set_owned(c.field(c.retloc, f), v)


@spec(AT + "::toStdAttachment", P)
def _(c):
    c.this_obj()
    v = [(f, text(c, f)) for f in OWN[AT]]
    c.body()
    result_obj(c, v)


# ------------------------------------------------------------------ Credential
@spec(CR + "::Credential", P, [STR, STR])
def _(c):
    c.this_obj(raw=True)
    u, p = ctext(c, 0), ctext(c, 1)
    c.body()
    if c.throws(Or(bad_user(c, u), bad_pass(c, p))):
        return
    c.set_owned(c.field(c.this, "mUsername"), u)
    c.set_owned(c.field(c.this, "mPassword"), p)
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), I(0))


@spec(CR + "::Credential", P, [STR, STR, "jed_utils::RecommendedAuthenticationMethod"])
def _(c):
    c.this_obj(raw=True)
    u, p = ctext(c, 0), ctext(c, 1)
    m = c.arg_int(2)
    c.body()
    if c.throws(Or(bad_user(c, u), bad_pass(c, p))):
        return
    c.set_owned(c.field(c.this, "mUsername"), u)
    c.set_owned(c.field(c.this, "mPassword"), p)
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), m)


for fn, f, bad in (("setUsername", "mUsername", bad_user), ("setPassword", "mPassword", bad_pass)):
    def s(c, f=f, bad=bad):
        c.this_obj()
        v = ctext(c, 0)
        c.body()
        if c.throws(bad(c, v)):
            return
        c.set_owned(c.field(c.this, f), v)
    spec("%s::%s" % (CR, fn), P)(s)


@spec(CR + "::setRecommendedAuthOption", P)
def _(c):
    c.this_obj()
    m = c.arg_int(0)
    c.body()
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), m)


# -------------------------------------------------------------- MessageAddress
@spec(MA + "::MessageAddress", P, [STR, STR])
def _(c):
    c.this_obj(raw=True)
    e, d = ctext(c, 0), ctext(c, 1)
    c.body()
    if c.throws(Or(blank(c.I, e), Not(email_ok(c.I, e)))):
        return
    c.set_owned(c.field(c.this, "mEmailAddress"), e)
    c.set_owned(c.field(c.this, "mDisplayName"), d)


@spec(MA + "::operator==", P, apply=False)
def _(c):
    c.this_obj()
    o = c.arg_obj(0, MA, alias=True)
    e1, d1 = [text(c, f) for f in OWN[MA]]
    e2, d2 = [c.get_cstr(c.field(o, f)) for f in OWN[MA]]
    c.body()
    c.ret(And(eqS(e1, e2), eqS(d1, d2)))


@spec(MA + "::operator basic_string", P, apply=False)
def _(c):
    c.this_obj()
    e, d = [text(c, f) for f in OWN[MA]]
    c.body()
    c.ret(addr_text(e, d))


@spec(MA + "::toStdMessageAddress", P)
def _(c):
    c.this_obj()
    v = [(f, text(c, f)) for f in OWN[MA]]
    c.body()
    result_obj(c, v)


# --------------------------------------------------------------- the messages
from . import message as ME  # noqa: E402

MS, PT, HT = J(X + "Message"), J(X + "PlaintextMessage"), J(X + "HTMLMessage")
VECS = (("mTo", MA, J("MessageAddress")), ("mCc", MA, J("MessageAddress")), ("mBcc", MA, J("MessageAddress")), ("mAttachments", AT, J("Attachment")))


def MA_FIELDS(I_):
    return [q for q, _ in I_.prog.allfields(MA)]


class Content:
    """contents of a message"""

    def __init__(self, c, loc):
        f = lambda n: c.field(loc, n)
        self.frm = [c.get_cstr(f("mFrom").field(q)) for q in MA_FIELDS(c.I)]
        self.subject, self.body = c.leaf(f("mSubject")), c.leaf(f("mBody"))
        self.v = {n: c.get_vector(f(n)) for n, _, _ in VECS}

    def check(self, c, loc):
        f = lambda n: c.field(loc, n)
        for q, v in zip(MA_FIELDS(c.I), self.frm):
            c.set_owned(f("mFrom").field(q), v)
        c.set_val(f("mSubject"), self.subject)
        c.set_val(f("mBody"), self.body)
        for n, ec, _ in VECS:
            c.set_vector(f(n), self.v[n][0], ec, self.v[n][1])


class Args(Content):
    """contents given to the constructor"""

    def __init__(self, c):
        fr = c.arg_obj(0, MA)
        self.frm = [c.get_cstr(fr.field(q)) for q in MA_FIELDS(c.I)]
        self.subject, self.body = c.arg_str(2), c.arg_str(3)
        self.v = {n: c.arg_vector(i, ec) for i, (n, ec, _) in zip((1, 4, 5, 6), VECS)}


for cls in (MS, PT, HT):
    short = cls.split("::")[-1]
    VM, VA = "const std::vector<%s> &" % MA, "const std::vector<%s> &" % AT

    @spec("%s::%s" % (cls, short), P, ["const %s &" % MA, VM, STR, STR, VM, VM, VA])
    def _(c):
        c.this_obj(raw=True)
        a = Args(c)
        c.body()
        if c.throws(eqI(a.v["mTo"][0], I(0))):
            return
        a.check(c, c.this)

    @spec("%s::%s" % (cls, short), P, ["const %s &" % cls])
    def _(c, cls=cls):
        c.this_obj(raw=True)
        o = c.arg_obj(0, cls)
        a = Content(c, o)
        c.body()
        a.check(c, c.this)

    @spec("%s::operator=" % cls, P, ["const %s &" % cls])
    def _(c, cls=cls):
        c.this_obj()
        o = c.arg_obj(0, cls, alias=True)
        a = Content(c, o)
        c.body()
        if o != c.this:
            a.check(c, c.this)
        c.ret_this()

    @spec("%s::~%s" % (cls, short), P)
    def _(c):
        c.this_obj()
        c.body()
        c.destroyed()


for g, f in (("getFrom", "mFrom"), ("getTo", "mTo"), ("getCc", "mCc"), ("getBcc", "mBcc"), ("getAttachments", "mAttachments")):
    def s(c, f=f):
        c.this_obj()
        c.body()
        c.ret(c.field(c.this, f), "the result is the message's own %s" % f)
    spec("%s::%s" % (MS, g), P, apply=False)(s)
for g, f in (("getToCount", "mTo"), ("getCcCount", "mCc"), ("getBccCount", "mBcc"), ("getAttachmentsCount", "mAttachments")):
    def s(c, f=f):
        c.this_obj()
        n, _ = c.get_vector(c.field(c.this, f))
        c.body()
        c.ret(n)
    spec("%s::%s" % (MS, g), P, apply=False)(s)
for g, f in (("getSubject", "mSubject"), ("getBody", "mBody")):
    getter_val(X + "Message", g, f, P)
for cls, t in ((PT, "text/plain"), (HT, "text/html")):
    def s(c, t=t):
        c.this_obj()
        c.body()
        c.ret(S(t))
    spec("%s::getMimeType" % cls, P, apply=False)(s)


def wrapped(c, a):
    """the message of the C interface with these contents"""
    I_ = c.I
    t = c.retloc
    f = lambda n: c.field(t, n)
    for l, v in zip(ME.from_fields(c, t), a.frm):
        c.set_owned(l, v)
    for n, v in (("mSubject", a.subject), ("mBody", a.body)):
        c.set_owned(f(n), I_.until_nul(cat(v, "\0"), n))
    for (n, ec, jc), (p, cn, _) in zip(VECS, ME.FAMS):
        k, g = a.v[n]
        c.set_val(f(cn), k)
        g = {(j,): g[(q,)] for (q, _), (j, _) in zip(I_.prog.allfields(ec), I_.prog.allfields(jc))} if g else {}
        w = c.h1(f(p))
        if isinstance(w, Ptr) and w.bid is None:
            c.touch(f(p))
            I_.oblige(eqI(k, I(0)), "%s is null only without elements" % p, "post")
        else:
            c.set_family(f(p), k, jc, g)


for cls in (PT, HT):
    @spec("%s::operator %s" % (cls, cls.split("::")[-1]), P, apply=False)
    def _(c):
        c.this_obj()
        a = Content(c, c.this)
        c.body()
        wrapped(c, a)


# --------------------------------------------------------------- the three clients
from . import conn as N  # noqa: E402
from .client import CB, SC, SB, OS, FS, Client, check_obj, check_ptrs  # noqa: E402
from .special import special  # noqa: E402
from .session import options_result, auth_of, unfold_line, unfold_offer, FLAGS, Tail  # noqa: E402

JCR = J("Credential")


class Shared:
    """the credentials as the C++ class shows them"""

    def __init__(self, cls):
        self.q = cls + "::mCredential"

    def val(self, c, loc):
        fl = loc.field(self.q)
        v = c.leaf(fl)
        if not (isinstance(v, Rec) and v.kind == "shared"):
            raise Unsupported("credentials held by %r" % (v,))
        return v.p

    def of(self, c, loc):
        p = self.val(c, loc)
        return None if p.bid is None else c.objfields(c.I.deref(p), CR)

    def same(self, c, loc, g):
        I_ = c.I
        fl = loc.field(self.q)
        c.touch(fl)
        if not c.verify:
            if g is None:
                I_.store(fl, Rec("shared", p=NULL))
                return
            raise Unsupported("copy of a C++ client inside the library")
        if c.h1(fl) is UNINIT:
            I_.fail("mCredential is set", "post")
        p = self.val(c, loc)
        if g is None:
            I_.oblige(B(p.bid is None), "the client shows no credentials", "post")
            return
        I_.oblige(B(p.bid is not None), "the client shows the credentials", "post")
        b = I_.heap[p.bid]
        I_.oblige(B(b.alive and b.kind == "shared"), "the credentials are alive", "post")
        for q, v in g.items():
            what = "%s of the credentials" % q[-1].split("::")[-1]
            w = b.vals.get(q, UNINIT)
            if v.sort == "S":
                c.check_owned(w, v, what)
            elif w is UNINIT:
                I_.fail("%s is set" % what, "post")
            else:
                I_.oblige(eq(w, v), "%s has the right value" % what, "post")

    def initial(self, c, loc):
        self.same(c, loc, None)

    def left(self, c, loc):
        c.set_any(loc.field(self.q))


def cppclient(cls, base):
    sec = base != SC
    cred = Shared(cls)
    special(cls, sec, P, cred, STR)
    for fn, f in (("getServerPort", "mPort"), ("getBatchMode", "mBatchMode"), ("getCommandTimeout", "mCommandTimeOut")) + ((("getAcceptSelfSignedCert", "mAcceptSelfSignedCert"),) if sec else ()):
        getter_val(cls[len("jed_utils::"):], fn, f, P)
    getter(cls, "getServerName", "mServerName")

    @spec(cls + "::getCommunicationLog", P, apply=False)
    def log(c):
        c.this_obj()
        s = text(c, "mCommunicationLog")
        c.body()
        c.ret(EMPTY if s is None else s)

    @spec(cls + "::getCredentials", P, apply=False)
    def creds(c):
        c.this_obj()
        p = cred.val(c, c.this)
        c.body()
        c.ret(p, "the result is the client's own credentials")

    @spec(cls + "::setServerName", P)
    def server(c):
        c.this_obj()
        s = ctext(c, 0)
        c.body()
        if c.throws(blank(c.I, s)):
            return
        c.set_owned(c.field(c.this, "mServerName"), s)

    for fn, f in (("setServerPort", "mPort"), ("setBatchMode", "mBatchMode"), ("setCommandTimeout", "mCommandTimeOut")) + ((("setAcceptSelfSignedCert", "mAcceptSelfSignedCert"),) if sec else ()):
        def setter(c, f=f):
            c.this_obj()
            v = c.arg_int(0)
            c.body()
            c.set_val(c.field(c.this, f), v)
        spec("%s::%s" % (cls, fn), P)(setter)

    @spec(cls + "::setKeepUsingBaseSendCommands", P)
    def keep(c):
        c.this_obj()
        k = c.arg_bool(0)
        c.body()
        c.set_val(c.field(c.this, "mKeepUsingBaseSendCommands"), k)
        check_ptrs(c, c.this, k)

    @spec(cls + "::setCredentials", P, apply=False)
    def setcreds(c):
        I_ = c.I
        c.this_obj()
        own = cred.val(c, c.this)
        if own.bid is not None and I_.choose2():
            o = c.vals[0] = I_.deref(own)
        else:
            o = c.arg_obj(0, CR)
        g = c.objfields(o, CR)
        # what every credentials object satisfies
        u, p, m = [g[(q,)] for q, _ in I_.prog.allfields(CR)]
        I_.assume(Not(Or(bad_user(c, u), bad_pass(c, p))))
        c.body()
        cred.same(c, c.this, g)
        check_obj(c, N.fl(c, "mCredential"), JCR, dict(zip([(q,) for q, _ in I_.prog.allfields(JCR)], (u, p, m))))

    @spec(cls + "::getErrorMessage", P, apply=False)
    def message(c):
        n = c.arg_int(0)
        c.body()
        c.ret(_errors(c.I, n))

    @spec(cls + "::getErrorMessage_r", P, apply=False)
    def message_r(c):
        I_ = c.I
        n = c.arg_int(0)
        c.vals[1] = Loc(I_.alloc("string", "caller", {(): I_.newS("errorMessage")}))
        c.body()
        s = _errors(I_, n)
        c.set_val(c.vals[1], s)
        c.ret(I(0))

    @spec(cls + "::extractReturnCode", P, apply=False)
    def code(c):
        s = ctext(c, 0)
        N.code_range(c.I, N.reply_code(s))
        c.body()
        c.ret(N.reply_code(s), "the result is the code of the text")

    @spec(cls + "::extractAuthenticationOptions", P, apply=False)
    def auth(c):
        I_ = c.I
        s = ctext(c, 0)
        g = auth_of(I_, s)
        c.body()
        options_result(c, g)

    @spec(cls + "::sendMail", P, apply=False)
    def send(c):
        I_ = c.I
        c.this_obj(dyn="?")
        o = c.arg_obj(0, J("Message"), dyn="?")
        c.body()
        calls = I_.ghost.get("_calls", ())
        I_.oblige(B(calls == ((c.this, o),)), "the message is handed to the wrapped client's sendMail, once", "post")
        c.ret(I_.ghost["_result"])


for k, b in (("SmtpClient", SC), ("OpportunisticSecureSMTPClient", OS), ("ForcedSecureSMTPClient", FS)):
    cppclient(J(X + k), b)
