"""Opening a session: connection, greeting, identification, authentication, TLS."""
from . import conn as N
from .conn import *
from .client import check_obj
from .proto import reg, complete, P9, P10, P11, P12, P13

P19 = ("P19",)
TIMEOUT = -3


# ---------------------------------------------------------------- greeting
def greetings(c):
    """waits for the greeting: its code, or the timeout code; the wait is bounded"""
    I_ = c.I
    c.this_obj(dyn="?")
    linked(c, True)
    c.body()
    any_log(c)
    any_err(c)
    N.waits(c)
    N.mode(c)
    g = I_.ghost
    for x in ("rx", "rxraw"):
        c.out_ghost(x, EMPTY)
    if c.verify:
        r = c.outcome[1]
        if I_.decide(eqI(r, I(TIMEOUT))):
            return
        raw = g["rxraw"]
        if raw is EMPTY:
            I_.oblige(FALSE, "without a greeting the timeout is reported", "post")
        t = I_.nulpre(I_.sub(raw, I(0), sub(length(raw), I(1))))
        I_.oblige(Or(eqI(r, N.reply_code(t)), eqI(r, N.reply_code(I_.nulpre(raw)))), "the result is the code of the server's greeting", "post")
        return
    if I_.choose2():
        r = I(TIMEOUT)
    else:
        r = I_.newI("greeting", -1, 999)
        N.code_range(I_, r)
    g["greet_ok"] = eqI(r, I(220))
    g["_last"] = r
    c.result = r


reg([CB + "::checkServerGreetings", FS + "::checkServerGreetings"], greetings, P12 + ("P18",))


# -------------------------------------------------------------- connection
CODES = (-1, -2, -3, -6, -7, -8, -9, -10)


def session(c):
    """opens a connection to the configured server and port: 0, or an error code; the caller closes it"""
    I_ = c.I
    c.this_obj(dyn="?")
    whole = c.spec.name.endswith("initializeSession")
    s = c.leaf(fl(c, "mSock"))
    c.require(eqI(s, I(0)), "the previous connection was closed")
    if c.verify:
        I_.ghost["open"] = I(0)
        I_.ghost["want_host"] = c.get_cstr(fl(c, "mServerName"))
        I_.ghost["want_port"] = c.leaf(fl(c, "mPort"))
        I_.ghost["want_wait"] = scale(1000, c.leaf(fl(c, "mCommandTimeOut")))
    else:
        c.require(eqI(I_.ghost["open"], I(0)), "no connection is open")
    if not whole:
        haslog(c, c.this, TRUE)
    c.body()
    g = I_.ghost
    for x in ("up", "polled", "host", "want_host", "want_port", "want_wait"):
        c.touched.add(("ghost", x))
    for x in ("greet_ok", "ehlo_ok", "auth_ok", "tls_ok", "hs"):
        c.out_ghost(x, FALSE)
    if whole and c.verify:
        c.release(fl(c, "mCommunicationLog"))
    any_log(c)
    any_err(c)
    c.touch(fl(c, "mSock"))
    for x in ("open", "rdok", "wrok"):
        c.out_ghost(x, None)
    if c.verify:
        r = c.outcome[1]
        fd = c.h1(fl(c, "mSock"))
        I_.oblige(Or(eqI(r, I(0)), *[eqI(r, I(x)) for x in CODES]), "the result is 0 or an error code of the connection", "post")
        I_.oblige(eqI(g["open"], ite(ge(fd, I(1)), fd, I(0))), "the client's descriptor is its open connection", "post")
        I_.oblige(Implies(eqI(r, I(0)), ge(fd, I(1))), "success means that the connection is open", "post")
        if not whole:
            I_.oblige(Implies(eqI(r, I(0)), g["up"]), "success means that the server accepted the connection", "post")
        I_.oblige(Implies(eqI(r, I(0)), g["wrok"]), "the socket is left in blocking mode", "post")
        return
    if I_.choose2():
        r = I(0)
        fd = I_.newI("fd", 1, 1 << 30)
        g["wrok"] = TRUE
    else:
        r = I_.newI("init", -10, -1)
        I_.assume(Or(*[eqI(r, I(x)) for x in CODES]))
        fd = I_.newI("fd", -1, 1 << 30)
        g["wrok"] = I_.newB("wrok")
    I_.store(fl(c, "mSock"), fd)
    g["open"] = ite(ge(fd, I(1)), fd, I(0))
    g["rdok"] = I_.newB("rdok")
    g["_last"], g["_go"] = r, FALSE
    c.result = r


reg([CB + "::initializeSession", CB + "::initializeSessionPOSIX"], session, P12 + ("P18", "P20", "P22"))


# ---------------------------------------------------------- identification
FLAGS = (("Plain", "PLAIN"), ("Login", "LOGIN"), ("XOAuth2", "XOAUTH2"), ("Plain_ClientToken", "PLAIN-CLIENTTOKEN"), ("OAuthBearer", "OAUTHBEARER"), ("XOAuth", "XOAUTH"))
AO = J("ServerAuthOptions")


def offered(s):
    """the reply has a line that begins with 250-AUTH or 250 AUTH"""
    return ufB("auth_line", [s])


def offers(s, w):
    """the word is on the first such line"""
    return ufB("auth_word:" + w, [s])


def is_auth(s):
    """the line begins with 250-AUTH or 250 AUTH"""
    return ufB("is_auth", [s])


def has_word(s, w):
    """the word stands between blanks (or the ends) of the line"""
    return ufB("word_in:" + w, [s])


def auth_of(I_, s):
    """the options the text offers, by field (None: none)"""
    if not I_.decide(offered(s)):
        return None
    return {(AO + "::" + f,): offers(s, w) for f, w in FLAGS}


def cutat(I_, s, sep):
    """(text before the first separator, text after it), or None without a separator"""
    if s.op == "sub" and s.args[2] is sub(length(s.args[0]), s.args[1]):
        # the rest of a text from a position on
        x, p = s.args[0], s.args[1]
        i = indexof_raw(x, S(sep), p)
        if not I_.decide(ge(i, I(0))):
            return None
        k = add(i, I(len(sep)))
        return I_.sub(x, p, sub(i, p)), I_.sub(x, k, sub(length(x), k))
    i = indexof_raw(s, S(sep), I(0))
    if not I_.decide(ge(i, I(0))):
        return None
    k = add(i, I(len(sep)))
    return I_.sub(s, I(0), i), I_.sub(s, k, sub(length(s), k))


def unfold_word(w):
    def f(I_, s):
        p = cutat(I_, s, " ")
        q = s if p is None else p[0]
        for _, u in FLAGS:
            if u < w:
                I_.assume(Or(Not(eqS(q, S(u))), Not(eqS(q, S(w)))))
        if p is None:
            I_.assume(Iff(has_word(s, w), eqS(s, S(w))))
        else:
            I_.assume(Iff(has_word(s, w), Or(eqS(p[0], S(w)), has_word(p[1], w))))
    return Tail("word_in:" + w, f, w)


def unfold_line(I_, s):
    p = cutat(I_, s, "\r\n")
    q = s if p is None else p[0]
    I_.assume(Or(Not(is_auth(q)), ge(length(q), I(8))))
    if p is None:
        I_.assume(Iff(offered(s), is_auth(s)))
    else:
        I_.assume(Iff(offered(s), Or(is_auth(p[0]), offered(p[1]))))


def unfold_offer(w):
    def f(I_, s):
        p = cutat(I_, s, "\r\n")
        if p is None:
            I_.assume(Iff(offers(s, w), has_word(s, w)))
        else:
            I_.assume(Iff(offers(s, w), Or(And(is_auth(p[0]), has_word(p[0], w)), And(Not(is_auth(p[0])), offers(p[1], w)))))
    return Tail("auth_word:" + w, f, w)


def options_result(c, g):
    """the result is null without g, otherwise a new object with the options of g"""
    I_ = c.I
    if not c.verify:
        c.result = NULL if g is None else Ptr(I_.alloc(AO, "new", dict(g)))
        return
    p = c.outcome[1]
    if g is None:
        I_.oblige(B(isinstance(p, Ptr) and p.bid is None), "without an AUTH line there are no authentication options", "post")
        return
    I_.oblige(B(isinstance(p, Ptr) and p.bid is not None), "the AUTH line is recognised", "post")
    b = I_.heap[p.bid]
    I_.oblige(B(b.alive and b.kind == "new" and p.bid not in I_.h0), "the result is a new object", "post")
    c.owned.add(p.bid)
    for q, v in g.items():
        c.touched.add((p.bid, q))
        w = b.vals.get(q, UNINIT)
        if w is UNINIT:
            I_.fail("%s is set" % q[0], "post")
        I_.oblige(Iff(w, v), "%s is recognised exactly when it is offered" % q[0].split("::")[-1], "post")


@spec("ParseAuthenticationOptions", P10)
def parse_auth(c):
    """one line of the reply"""
    I_ = c.I
    s = c.arg_str(0)
    if c.verify:
        I_.tails = [unfold_word(w) for _, w in FLAGS]
        k = le(I(8), length(s))
        if I_.decide(k):
            h = I_.sub(s, I(0), I(8))
            I_.assume(Iff(is_auth(s), Or(eqS(h, S("250-AUTH")), eqS(h, S("250 AUTH")))))
        else:
            I_.assume(Not(is_auth(s)))
    g = {(AO + "::" + f,): has_word(s, w) for f, w in FLAGS} if I_.decide(is_auth(s)) else None
    c.body()
    options_result(c, g)


@spec(CB + "::extractAuthenticationOptions", P10)
def extract_auth(c):
    I_ = c.I
    s = c.arg_cstr(0, nullable=True)
    if c.verify:
        I_.tails = [Tail("auth_line", unfold_line)] + [unfold_offer(w) for _, w in FLAGS]
    g = auth_of(I_, s) if s is not None else None
    c.body()
    options_result(c, g)


def still_linked(c, what="the client's descriptor is its open connection (or there is none)"):
    """(verify) the client's descriptor is its open connection"""
    I_ = c.I
    s, con = c.h1(fl(c, "mSock")), c.h1(fl(c, "mIsConnected"))
    I_.oblige(eqI(I_.ghost["open"], ite(ge(s, I(1)), s, I(0))), what, "post")
    I_.oblige(Implies(con, ge(s, I(1))), "a connected client has a descriptor", "post")
    return s


def may_close(c):
    """(verify) what a failed step may change"""
    for n in ("mIsConnected", "mSock"):
        c.touch(fl(c, n))
    c.out_ghost("open", None)
    if secure(c, c.this):
        for h in tls_handles(c, c.this):
            c.touch(h)
            p0, p1 = c.old(h), c.h1(h)
            if isinstance(p0, Ptr) and p0.bid is not None and p0 != p1:
                c.release(h)
        c.touch(fl(c, "mSSL"))
        c.out_ghost("hs", None)
    still_linked(c)


def step_failed(c, r):
    """a step of the dialogue failed: the server refused it (the connection stays open) or there is no usable connection"""
    I_ = c.I
    c.out_ghost("tx", I_.newS("tx") if not c.verify else None)
    if c.verify:
        if not I_.decide(ge(r, I(0))):
            may_close(c)
            c.out_ghost("clean", None)
    elif not I_.decide(ge(r, I(0))):
        if I_.choose2():
            closed(c)
        I_.ghost["clean"] = FALSE
    any_log(c)
    any_err(c)
    any_resp(c)


def identification(c):
    """EHLO: 250 only when the server sent its whole list of options, which is then what the client goes by"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    sec = "Secure" in c.spec.name
    tls = tlschan(c)
    nraw = c.g("nraw")
    if not c.verify:
        I_.oblige(I_.ghost["tls_ok"] if sec else I_.ghost["greet_ok"], "EHLO is sent only %s" % ("inside a verified TLS session" if sec else "after the server's greeting"), "pre")
    c.body()
    a = fl(c, "mAuthOptions")
    g = I_.ghost
    c.out_ghost("ehlo_ok", FALSE)
    if c.verify:
        r = c.outcome[1]
        traffic(c)
        N.inside_tls(c, tls, nraw)
        if not I_.decide(eqI(r, I(250))):
            I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in ((-59, -60) if sec else (-20, -21))]), "a failure is reported by the server's code or an error code", "post")
            step_failed(c, r)
            return
        t = g["rx"]
        I_.oblige(ufB("ehlo_complete", [t]), "success means that the whole reply has been received", "post", P9)
        c.out_ghost("tx", None)
        any_log(c)
        any_err(c)
        any_resp(c, nn=True)
        if not sec:
            p = c.h1(fl(c, "mLastServerResponse"))
            if not isinstance(p, Ptr):
                I_.fail("the last response is the whole reply", "post")
            c.eq_str(I_.cstr(p), t, "the last response is the whole reply")
        check_obj(c, a, AO, auth_of(I_, t))
        return
    k = I_.choose(3)
    traffic(c)
    N.inside_tls(c, tls, nraw)
    any_log(c)
    any_err(c)
    c.out_ghost("tx", I_.newS("tx"))
    if k:
        if k == 1:
            r = I_.newI("code", 100, 999)
            I_.assume(Not(eqI(r, I(250))))
        else:
            r = I_.newI("code", -60, -20)
            I_.assume(Or(*[eqI(r, I(x)) for x in ((-59, -60) if sec else (-20, -21))]))
        step_failed(c, r)
        g["_last"] = r
        c.result = r
        return
    t = I_.newS("options", NONUL)
    g["rx"] = t
    I_.assume(ufB("ehlo_complete", [t]))
    l = fl(c, "mLastServerResponse")
    if sec:
        any_resp(c, nn=True)
    else:
        c.set_owned(l, t)
    check_obj(c, a, AO, auth_of(I_, t))
    g["ehlo_ok"] = TRUE
    g["offer"] = t                                            # ghost: the options the session goes by
    g["_last"] = c.result = I(250)


reg([CB + "::sendServerIdentification", SB + "::getServerSecureIdentification"], identification, P9 + ("P10", "P12", "P18", "P19"))


# ---------------------------------------------------------- authentication
from .base64 import encoded  # noqa: E402

P14 = ("P14",)
A_ERR, A_TMO, A_NONEED, A_NONE = -81, -82, -83, -84


def creds(c):
    """(user name, password) of the client; None without credentials"""
    p = c.leaf(fl(c, "mCredential"))
    if isinstance(p, Ptr) and p.bid is None:
        return None
    o = c.I.deref(p)
    return c.get_cstr(c.field(o, "mUsername")), c.get_cstr(c.field(o, "mPassword"))


def b64(I_, s):
    return encoded(I_, s, length(s))


def plain_cmds(I_, u, p):
    return ["AUTH PLAIN ", b64(I_, cat("\0", u, "\0", p)), "\r\n"], 0


def login_cmds(I_, u, p):
    return ["AUTH LOGIN\r\n", b64(I_, u), "\r\n", b64(I_, p), "\r\n"], 2


def xoauth_cmds(I_, u, p):
    return ["AUTH XOAUTH2 ", b64(I_, cat("user=", u, "\x01auth=Bearer ", p, "\x01\x01")), "\r\n"], 0


def dialogue(c, cmds, r, codes, n334=0, k334=0):
    """after the call: reply code r -> exactly these commands were sent and the connection is open; else a failure"""
    I_ = c.I
    g = I_.ghost
    tls = c.dlg_tls
    traffic(c)
    N.inside_tls(c, tls, c.dlg_nraw)
    if c.verify:
        I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in codes]), "the result is the server's code or an error code", "post")
    if I_.decide(ge(r, I(0))):
        c.set_ghost("tx", cat(c.dlg_tx, *cmds))
        c.set_ghost("clean", c.dlg_clean)
        if k334:
            c.ensure(eqI(g["n334"], add(c.dlg_n334, I(k334), ite(eqI(r, I(334)), I(1), I(0)))), "every step was asked for by the server")
        any_log(c)
        any_err(c)
        any_resp(c, nn=True)
    else:
        step_failed(c, r)


def dialogue_pre(c):
    c.dlg_tls, c.dlg_nraw, c.dlg_tx, c.dlg_clean, c.dlg_n334 = tlschan(c), c.g("nraw"), c.g("tx"), c.g("clean"), c.g("n334")


def auth_result(c, cmds, k, codes):
    I_ = c.I
    if c.verify:
        r = c.outcome[1]
    elif I_.choose2():
        r = I_.newI("auth", 100, 999)
    else:
        r = I_.newI("auth", -82, -81)
    dialogue(c, cmds, r, codes, k334=k)
    c.out_ghost("auth_ok", eqI(r, I(235)))
    if not c.verify:
        I_.ghost["_last"] = r
    c.result = r


def auth_method(make):
    def f(c):
        N.client(c)
        linked(c, True)
        u = creds(c)
        if u is None:
            if c.verify:
                raise PathEnd()
            c.require(FALSE, "there are credentials")
        cmds, k = make(c.I, *u)
        dialogue_pre(c)
        c.body()
        auth_result(c, cmds, k, (A_ERR, A_TMO))
    return f


reg([CB + "::authenticateWithMethodPlain"], auth_method(plain_cmds), P14)
reg([CB + "::authenticateWithMethodLogin"], auth_method(login_cmds), P14)
reg([CB + "::authenticatedWithMethodXOauth2"], auth_method(xoauth_cmds), P14)

METHODS = (("Plain", 1, plain_cmds), ("Login", 2, login_cmds), ("XOAuth2", 3, xoauth_cmds))


@spec(CB + "::authenticateClient", P14 + ("P18",))
def authenticate(c):
    """the first of PLAIN, LOGIN, XOAUTH2 that the server offers and the configuration allows"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    u = creds(c)
    if not c.verify:
        I_.oblige(I_.ghost["ehlo_ok"], "credentials are given only after the server answered EHLO", "pre")
        if secure(c, c.this):
            I_.oblige(Or(tlschan(c), Not(ufB("starttls_offered", [I_.ghost["offer"]]))), "credentials are never sent in clear text to a server that offers TLS", "pre", P19)
    if u is None:
        c.body()
        c.ret(I(A_NONEED), "without credentials nothing is done")
        return
    a = c.leaf(fl(c, "mAuthOptions"))
    how = c.leaf(c.field(I_.deref(c.leaf(fl(c, "mCredential"))), "mRecommendedAuthMethod"))
    make = None
    if isinstance(a, Ptr) and a.bid is not None:
        for f, n, m in METHODS:
            if I_.decide(And(c.leaf(c.field(I_.deref(a), f)), Or(eqI(how, I(0)), eqI(how, I(n))))):
                make = m
                break
    if make is None:
        c.body()
        c.ret(I(A_NONE), "it is reported that no offered method fits")
        I_.ghost["_last"] = I(A_NONE)
        return
    cmds, k = make(I_, *u)
    dialogue_pre(c)
    c.body()
    auth_result(c, cmds, k, (A_ERR, A_TMO))
