"""TLS negotiation, the three ways to open a session, sending a message."""
from . import conn as N
from ..lib import DIGITS
from .conn import *
from .message import M, Msg
from .proto import reg, VIRT, P12
from .session import still_linked, may_close, step_failed, creds, CODES, any_resp
from .mail import arg_msg, sender_cmds, rcpt_cmds, header_text, body_text, tries, LISTS, END
from .client import check_ptrs

P18, P19, P20 = ("P18",), ("P19",), ("P20",)
SELF_SIGNED = 18
TLS_ERR = (-51, -52, -54, -55, -56, -57, -58)


def null(c, h):
    """(before the call) the handle is null"""
    I_ = c.I
    p = c.leaf(h)
    ok = isinstance(p, Ptr) and p.bid is None
    if c.verify:
        if not ok:
            raise PathEnd()
    else:
        I_.oblige(B(ok), "precondition of %s: no TLS session exists" % c.spec.name, "pre")


def own(c, h, need=None):
    """the handle is null or the client's own live object (need: which of the two)"""
    I_ = c.I
    c.touch(h)
    p = c.h1(h)
    if isinstance(p, Rec) and p.kind == "lazy":
        p = I_.force(h, p)
    n = c.nm(h)
    if p is UNINIT or isinstance(p, Rec) and p.kind == "deadptr":
        I_.fail("%s designates a live object or is null" % n, "post")
    if not isinstance(p, Ptr):
        raise Unsupported("%s holds %r" % (n, p))
    if need is not None:
        I_.oblige(B((p.bid is not None) == need), "%s is%s null" % (n, " not" if need else ""), "post")
    if p.bid is not None:
        b = I_.heap.get(p.bid)
        I_.oblige(B(b is not None and b.alive and b.kind == "new" and b.cls == ("BIO" if n == "mBIO" else "CTX")), "%s designates a live object" % n, "post")
        c.owned.add(p.bid)
    if c.old(h) != p:
        c.release(h)
    return p


def give(c, bio, ctx):
    """(apply) the client has these TLS objects"""
    I_ = c.I
    hb, hc = tls_handles(c, c.this)
    for h, k, on in ((hb, "BIO", bio), (hc, "CTX", ctx)):
        c.touch(h)
        c.release(h)
        I_.store(h, Ptr(I_.alloc(k, "new")) if on else NULL)
    b = I_.load(hb)
    I_.store(fl(c, "mSSL"), Opq("ssl:" + b.bid) if bio else NULL)
    c.touch(fl(c, "mSSL"))


def broken(c):
    """the step failed: the connection is closed, or still there (with whatever of the TLS session there is) for the caller to close"""
    I_ = c.I
    if c.verify:
        for n in ("mSock", "mIsConnected"):
            c.touch(fl(c, n))
        c.out_ghost("open", None)
        s = c.h1(fl(c, "mSock"))
        I_.oblige(eqI(I_.ghost["open"], ite(ge(s, I(1)), s, I(0))), "the client's descriptor is its open connection (or there is none)", "post")
        I_.oblige(Not(c.h1(fl(c, "mIsConnected"))), "the client is not connected", "post")
        if secure(c, c.this):
            for h in tls_handles(c, c.this):
                own(c, h)
            c.touch(fl(c, "mSSL"))
            c.out_ghost("hs", None)
        return
    s = fl(c, "mSock")
    I_.store(fl(c, "mIsConnected"), FALSE)
    v = I_.newI("fd", -1, 1 << 30)
    I_.store(s, v)
    c.touch(s)
    c.out_ghost("open", ite(ge(v, I(1)), v, I(0)))
    if secure(c, c.this):
        k = I_.choose(3)
        give(c, k == 2, k >= 1)
        c.out_ghost("hs", I_.newB("hs"))


@spec(SB + "::startTLSNegotiation", P19 + P20 + ("P18",))
def negotiate(c):
    """0: a TLS session with the configured server over the open connection, whose certificate was presented and verified
    (or is self-signed, which the user accepts); else an error code, and the caller closes the connection"""
    I_ = c.I
    c.this_obj(dyn="?")
    fd, con = linked(c, True)
    c.require(Not(con), "the client is not connected yet")
    hb, hc = tls_handles(c, c.this)
    null(c, hb)
    null(c, hc)
    srv = c.get_cstr(fl(c, "mServerName"))
    port = c.leaf(fl(c, "mPort"))
    accept = c.leaf(fl(c, "mAcceptSelfSignedCert"))
    if c.verify:
        for g in ("tlshost", "hsbio", "tlsfd"):
            I_.ghost[g] = None
        I_.ghost["shook"] = FALSE
    c.body()
    g = I_.ghost
    for x in ("cert", "vres", "tlshost", "hsbio", "tlsfd", "shook"):
        c.touched.add(("ghost", x))
    any_log(c)
    any_err(c)
    c.out_ghost("rdok", I_.newB("rdok"))
    c.out_ghost("hs", None if c.verify else TRUE)
    if c.verify:
        r = c.outcome[1]
        I_.oblige(Or(*[eqI(r, I(x)) for x in (0,) + TLS_ERR]), "the result is 0 or an error code of the negotiation", "post")
        if I_.decide(eqI(r, I(0))):
            p = own(c, hb, True)
            own(c, hc, True)
            c.touch(fl(c, "mSSL"))
            I_.oblige(B(c.h1(fl(c, "mSSL")) == Opq("ssl:" + p.bid)), "mSSL is the session of mBIO", "post")
            I_.oblige(g["hs"], "success means that the handshake succeeded", "post", P19)
            I_.oblige(B(g["hsbio"] == p.bid), "the handshake is that of the session in use", "post", P19)
            I_.oblige(g["cert"], "success means that the server presented a certificate", "post", P19)
            I_.oblige(Or(eqI(g["vres"], I(0)), And(eqI(g["vres"], I(SELF_SIGNED)), accept)), "success means that the certificate was verified, or is self-signed and the user accepts that", "post", P19)
            I_.oblige(B(g["tlsfd"] == p.bid), "the session runs over the open connection", "post", P19)
            if g["tlshost"] is None:
                I_.fail("the session is with the configured server", "post")
            c.eq_str(g["tlshost"], cat(srv, ":", ufS("dec", [port], DIGITS | (1 << 45))), "the session is with the configured server and port")
            c.out_ghost("tls_ok", TRUE)
            return
        c.out_ghost("tls_ok", FALSE)
        for x, what, t in ((-55, "a failed handshake", Not(g["shook"])), (-56, "a failed handshake", Not(g["shook"])), (-57, "a missing certificate", And(g["shook"], Not(g["cert"]))), (-58, "a certificate that is not verified", And(g["shook"], g["cert"]))):
            I_.oblige(Implies(eqI(r, I(x)), t), "the result %d means %s" % (x, what), "post")
        broken(c)
        return
    if I_.heap[c.this.bid].cls == OS:
        I_.oblige(g["_go"], "the handshake starts only after the server agreed to it", "pre")
    if I_.choose2():
        give(c, True, True)
        g["_last"] = I(0)
        g["tls_ok"] = TRUE
        g["cert"] = TRUE
        c.result = I(0)
        return
    r = I_.newI("tls", -58, -51)
    I_.assume(Or(*[eqI(r, I(x)) for x in TLS_ERR]))
    broken(c)
    g["tls_ok"] = FALSE
    g["_last"] = r
    c.result = r


# ------------------------------------------------------------------ opening a session
def at_rest(c):
    """there is no connection"""
    I_ = c.I
    s, con = linked(c)
    c.require(And(Not(con), eqI(s, I(0))), "there is no connection")
    if c.verify:
        I_.ghost["open"] = I(0)
        I_.ghost["offer"] = EMPTY
    if secure(c, c.this):
        for h in tls_handles(c, c.this):
            null(c, h)


def has_tls(c, now=True):
    p = (c.h1 if c.verify and now else c.leaf)(fl(c, "mBIO"))
    if isinstance(p, Rec) and p.kind == "lazy":
        p = c.I.force(fl(c, "mBIO"), p)
    return isinstance(p, Ptr) and p.bid is not None


STEPS = tuple(CODES) + (-20, -21, -30, -31) + TLS_ERR + (-59, -60, -81, -82, -84)


def establish(c):
    """0: the server greeted, answered EHLO (over TLS where that applies) and accepted the credentials if there are any;
    else the code of the step that failed, and the caller closes the connection"""
    I_ = c.I
    cls = c.f["cls"] if c.verify else None
    c.this_obj(dyn=None if c.verify else "?")
    sec = secure(c, c.this)
    at_rest(c)
    keep = c.leaf(fl(c, "mKeepUsingBaseSendCommands"))
    if cls == FS:
        c.require(Not(keep), "the user does not ask for unencrypted commands")
    u = creds(c)
    nraw = c.g("nraw")
    if c.verify:
        for x in ("tls_ok", "auth_ok", "greet_ok", "ehlo_ok"):
            I_.ghost[x] = FALSE
        I_.ghost["nraw_tls"] = None
    c.body()
    g = I_.ghost
    for x in ("tls_ok", "auth_ok", "greet_ok", "ehlo_ok"):
        c.out_ghost(x, TRUE)
    for x in ("up", "polled", "host", "want_host", "want_port", "want_wait", "cert", "vres", "tlshost", "hsbio", "offer", "nraw_tls", "clean"):
        c.touched.add(("ghost", x))
    c.out_ghost("tx", I_.newS("tx") if not c.verify else None)
    traffic_any(c)
    any_log(c)
    any_err(c)
    any_resp(c)
    a = fl(c, "mAuthOptions")
    c.touch(a)
    opts_any(c, a)
    if sec:
        k = fl(c, "mKeepUsingBaseSendCommands")
        c.touch(k)
    if c.verify:
        r = c.outcome[1]
        I_.oblige(Or(eqI(r, I(-1)), And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in (0,) + STEPS]), "the result is 0, a reply code or an error code", "post")
        if sec:
            k1 = c.h1(k)
            check_ptrs(c, c.this, k1)
            if cls == FS:
                I_.oblige(Not(k1), "commands are sent inside TLS", "post", P19)
                I_.oblige(eqI(g["nraw"], nraw), "nothing is ever sent outside TLS", "post", P19)
        if not I_.decide(eqI(r, I(0))):
            I_.oblige(eqI(r, g["_last"]), "the result is that of the step that failed", "post")
            broken(c)
            return
        s = c.h1(fl(c, "mSock"))
        for x in ("mSock", "mIsConnected"):
            c.touch(fl(c, x))
        c.out_ghost("open", None)
        I_.oblige(And(ge(s, I(1)), eqI(g["open"], s)), "success means that the connection is open", "post")
        I_.oblige(Not(c.h1(fl(c, "mIsConnected"))), "the client is not connected yet", "post")
        I_.oblige(g["wrok"], "the socket is in blocking mode", "post")
        I_.oblige(g["greet_ok"], "success means that the server's greeting was 220", "post")
        I_.oblige(g["ehlo_ok"], "success means that the server answered EHLO with 250", "post")
        l = c.h1(fl(c, "mCommunicationLog"))
        I_.oblige(B(isinstance(l, Rec) and getattr(l, "tag", "") == "log" or isinstance(l, Ptr) and l.bid is not None), "there is a communication log", "post")
        if not sec:
            if u is not None:
                I_.oblige(g["auth_ok"], "success means that the server accepted the credentials", "post")
            return
        c.touch(fl(c, "mSSL"))
        hb, hc = tls_handles(c, c.this)
        t = own(c, hb).bid is not None
        own(c, hc, t)
        c.out_ghost("hs", None)
        if cls == FS:
            I_.oblige(B(t), "the session runs over TLS", "post", P19)
        I_.oblige(Iff(c.h1(k), B(not t)), "commands are sent inside TLS exactly when there is a TLS session", "post", P19)
        if t:
            I_.oblige(And(g["tls_ok"], g["hs"]), "the TLS session was verified", "post", P19)
            if u is not None:
                I_.oblige(g["auth_ok"], "success means that the server accepted the credentials", "post")
        else:
            I_.oblige(Not(ufB("starttls_offered", [g["offer"]])), "TLS is used whenever the server offers it", "post", P19)
        return
    g["rdok"] = I_.newB("rdok")
    if sec:
        k1 = I_.newB("keep")
        I_.store(k, k1)
        check_ptrs(c, c.this, k1)
    if I_.choose2():
        broken(c)
        g["wrok"] = I_.newB("wrok")
        for x in ("tls_ok", "auth_ok", "greet_ok", "ehlo_ok"):
            g[x] = I_.newB(x)
        g["tx"], g["clean"] = I_.newS("tx"), I_.newB("clean")
        r = I_.newI("open", -84, 999)
        I_.assume(And(Not(eqI(r, I(0))), Or(ge(r, I(100)), le(r, I(-1)))))
        g["_est"] = c.result = r
        return
    g["_est"] = c.result = I(0)
    s = I_.newI("fd", 1, 1 << 30)
    I_.store(fl(c, "mSock"), s)
    g["open"] = s
    g["wrok"] = TRUE
    haslog(c, c.this, TRUE)
    g["auth_ok"] = I_.newB("auth_ok") if u is None else TRUE
    g["clean"] = TRUE
    if sec:
        t = I_.choose2()
        give(c, t, t)
        I_.store(k, B(not t))
        check_ptrs(c, c.this, B(not t))
        g["hs"] = B(t)
        g["tls_ok"] = B(t)
        if not t:
            g["auth_ok"] = I_.newB("auth_ok")
    g["_tx"], g["_clean"], g["_n501"], g["_nraw"] = g["tx"], g["clean"], g["n501"], g["nraw"]     # ghost code: where the message begins


def traffic_any(c):
    """like traffic(), but the socket may be in any mode"""
    I_ = c.I
    for x in SIDE:
        c.out_ghost(x, {"rx": lambda: I_.newS("rx"), "nraw": lambda: I_.newI("nraw"), "sentok": lambda: I_.newB("sentok"), "rxraw": lambda: EMPTY, "waited": lambda: I_.newI("waited"), "n334": lambda: I_.newI("n334")}[x]())
    for x in ("rdok", "wrok"):
        c.out_ghost(x, None)


def opts_any(c, a):
    """whatever options the server offered"""
    I_ = c.I
    c.touch(a)
    if not c.verify:
        c.release(a)
        I_.store(a, NULL)                                     # nobody looks at them outside a session
        I_.rawset(a.bid, a.path, I_.views.lazy_obj(c, a, J("ServerAuthOptions"), I_.fresh("options")))
        return
    p = c.h1(a)
    if isinstance(p, Rec) and p.kind == "lazy":
        return
    if p is UNINIT or isinstance(p, Rec):
        I_.fail("mAuthOptions designates a live object or is null", "post")
    if p.bid is not None:
        b = I_.heap.get(p.bid)
        I_.oblige(B(b is not None and b.alive and b.kind == "new"), "mAuthOptions designates a live object", "post")
        c.owned.add(p.bid)
        for q in b.vals:
            c.touched.add((p.bid, q))
    if c.old(a) != p:
        c.release(a)


reg([SC + "::establishConnectionWithServer", OS + "::establishConnectionWithServer", FS + "::establishConnectionWithServer"], establish, P18 + P19 + P20 + ("P12",))
VIRT["establishConnectionWithServer"] = establish
from .session import greetings  # noqa: E402
VIRT["checkServerGreetings"] = greetings


# ------------------------------------------------------------------ sending a message
MAIL_ERR = (-85, -86, -87, -88, -89, -90, -91, -92, -93, -94, -95, -96, -97, -98, -99)


@spec(CB + "::sendMail", ("P12", "P13", "P15", "P16", "P17") + P18 + P19 + P20)
def send_mail(c):
    """0: the server accepted the sender, every recipient and exactly this message; the connection is kept in batch mode, else closed.
    Otherwise the result is that of the step that failed, and the connection is closed."""
    I_ = c.I
    if not c.verify:                                          # by the C++ clients: the call itself is the effect
        I_.ghost["_calls"] = I_.ghost.get("_calls", ()) + ((c.this, c.vals[0]),)
        c.result = I_.ghost["_result"] = I_.newI("result", -(1 << 31), (1 << 31) - 1)
        return
    N.client(c)
    sec = secure(c, c.this)
    s, con = linked(c)
    c.require(Or(con, eqI(s, I(0))), "a client that is not connected has no connection")
    was = I_.decide(con)
    if sec:
        hb, hc = tls_handles(c, c.this)
        p, q = c.leaf(hb), c.leaf(hc)
        t0 = isinstance(p, Ptr) and p.bid is not None
        t1 = isinstance(q, Ptr) and q.bid is not None
        k = c.leaf(fl(c, "mKeepUsingBaseSendCommands"))
        if was:
            c.require(Iff(k, B(not t0)), "commands are sent inside TLS exactly when there is a TLS session")
            if t0 != t1:
                raise PathEnd()
        elif t0 or t1:
            raise PathEnd()
    m = arg_msg(c, 0)
    m.lazy = True
    batch = c.leaf(fl(c, "mBatchMode"))
    g = I_.ghost
    g["_tx"], g["_clean"], g["_n501"], g["_nraw"] = g["tx"], g["clean"], g["n501"], g["nraw"]
    c.body()
    r = c.outcome[1]
    for x in ("mail_ok", "rcpt_ok", "data_ok", "end_ok", "tls_ok", "auth_ok", "greet_ok", "ehlo_ok", "up", "polled", "host", "want_host", "want_port", "want_wait", "cert", "vres",
              "tlshost", "hsbio", "offer", "n501", "nrcpt", "bad", "tx", "clean", "open", "hs", "wrok"):
        c.touched.add(("ghost", x))
    traffic_any(c)
    any_log(c)
    any_err(c)
    any_resp(c)
    opts_any(c, fl(c, "mAuthOptions"))
    if sec:
        c.touch(fl(c, "mKeepUsingBaseSendCommands"))
        check_ptrs(c, c.this, c.h1(fl(c, "mKeepUsingBaseSendCommands")))
    ok = I_.decide(eqI(r, I(0)))
    if not was:
        est = I_.decide(eqI(g["_est"], I(0)))
        if not est:
            I_.oblige(eqI(r, g["_est"]), "the result is that of the step that failed", "post")
            closed(c)
            return
    tls = has_tls(c) if sec and ok and I_.decide(batch) else None
    if not ok:
        I_.oblige(eqI(r, g["_last"]), "the result is that of the step that failed", "post")
        I_.oblige(Or(Not(And(*[g[x] for x in ("mail_ok", "rcpt_ok", "data_ok", "end_ok")])), eqI(r, I(-99))), "a failure is not reported for a message the server accepted", "post")
        closed(c)
        return
    I_.oblige(And(*[g[x] for x in ("mail_ok", "rcpt_ok", "data_ok", "end_ok")]), "success means that the server accepted the sender, every recipient, DATA and the whole message", "post")
    if not was:
        I_.oblige(And(g["greet_ok"], g["ehlo_ok"]), "success means that the server greeted and answered EHLO", "post")
    j = tries(c, g["_n501"])
    cmds = sender_cmds(m)[:j] + [rcpt_cmds(m.fam(x), m.n[x]) for x, _ in LISTS] + ["DATA\r\n"] + header_text(m) + [body_text(m), END]
    if not I_.decide(batch):
        cmds.append("QUIT\r\n")
    c.set_ghost("tx", cat(g["_tx"], *cmds))
    if I_.decide(batch):
        c.set_val(fl(c, "mIsConnected"), TRUE)
        c.touch(fl(c, "mSock"))
        sk = c.h1(fl(c, "mSock"))
        I_.oblige(And(ge(sk, I(1)), eqI(g["open"], sk)), "in batch mode the connection is kept", "post")
        I_.oblige(g["wrok"], "the socket is in blocking mode", "post")
        if sec:
            for h in (hb, hc):
                own(c, h, tls)
            c.touch(fl(c, "mSSL"))
            I_.oblige(Iff(c.h1(fl(c, "mKeepUsingBaseSendCommands")), B(not tls)), "commands are sent inside TLS exactly when there is a TLS session", "post", P19)
            if tls:
                I_.oblige(eqI(g["nraw"], g["_nraw"]), "everything travels inside TLS", "post", P19)
    else:
        closed(c)
