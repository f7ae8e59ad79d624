"""The connection: sending, receiving, closing; the state of the protocol."""
from .client import *
from .client import lazy_log, lazy_resp

MSG = J("Message")


# ------------------------------------------------------------------ ghosts
def ghosts(I_, c):
    g = I_.ghost
    g["tx"] = svar("tx0")
    g["clean"] = TRUE
    g["open"] = I(0)
    g["rx"] = EMPTY
    g["rxraw"] = EMPTY
    g["waited"] = ivar("waited0")
    g["nraw"] = ivar("nraw0")
    g["rdok"] = bvar("rdok0")
    g["wrok"] = TRUE
    g["sentok"] = TRUE
    g["hs"] = FALSE
    g["cert"] = FALSE
    g["vres"] = I(0)
    for f in ("mail_ok", "rcpt_ok", "data_ok", "end_ok", "greet_ok", "ehlo_ok", "auth_ok", "tls_ok"):
        g[f] = bvar(f + "0")
    g["bad"] = ivar("bad0")
    g["nrcpt"] = ivar("nrcpt0")
    g["n334"] = ivar("n3340")
    g["n501"] = ivar("n5010")
    g["env"] = EMPTY
    g["host"] = None
    g["want_host"] = None
    g["want_port"] = None
    g["want_wait"] = None
    g["up"] = FALSE
    g["polled"] = FALSE
    g["_last"] = I(0)
    g["_go"] = FALSE
    g["offer"] = EMPTY


SIDE = ("rx", "rxraw", "nraw", "sentok", "waited", "n334")                               # always may change with traffic


def secure(c, loc):
    cls = c.I.heap[loc.bid].cls
    return any(q.endswith("::mBIO") for q, _ in c.I.prog.allfields(cls))


def fl(c, n, loc=None):
    return c.field(loc or c.this, n)


def client(c):
    """the receiver: a client of any class (with and without TLS)"""
    c.this_obj(dyn="?", cls=SB if c.verify and c.f["cls"] == CB and c.I.choose2() else None)


def linked(c, need=False, loc=None):
    """the client's descriptor is the open connection (if there is one); need: there is one, with a log"""
    I_ = c.I
    loc = loc or c.this
    s = c.leaf(fl(c, "mSock", loc))
    con = c.leaf(fl(c, "mIsConnected", loc))
    if s is UNINIT or con is UNINIT:
        I_.fail("precondition of %s: the client's state is set" % c.spec.name, "pre")
    if need:
        c.require(ge(s, I(1)), "the connection is open")
    if c.verify:
        c.require(Implies(con, ge(s, I(1))), "a connected client has a descriptor")
        I_.ghost["open"] = s if need else ite(ge(s, I(1)), s, I(0))
    else:
        c.require(Implies(con, ge(s, I(1))), "a connected client has a descriptor")
        c.require(eqI(I_.ghost["open"], ite(ge(s, I(1)), s, I(0))), "the client's descriptor is its open connection")
    haslog(c, loc, ge(s, I(1)) if not need else TRUE)
    return s, con


def haslog(c, loc, cond):
    """there is a communication log when cond holds"""
    I_ = c.I
    l = fl(c, "mCommunicationLog", loc)
    v = I_.heap[l.bid].vals.get(l.path)
    if isinstance(v, Rec) and getattr(v, "tag", None) == "log":
        return
    if c.verify:
        if isinstance(v, Rec) and v.kind == "lazy":
            if cond is TRUE or I_.decide(cond):
                nm = v.nm
                lazy_log(I_, l, fl(c, "mCommunicationLogSize", loc), nm, True)
        return
    if isinstance(v, Rec) and v.kind == "lazy":
        if cond is TRUE or I_.decide(cond):
            v = I_.force(l, v)
            c.require(B(isinstance(v, Ptr) and v.bid is not None), "there is a communication log")
        return
    c.require(Or(Not(cond), B(isinstance(v, Ptr) and v.bid is not None)), "there is a communication log")


def any_log(c, loc=None):
    """the log may have grown"""
    I_ = c.I
    loc = loc or c.this
    l, z = fl(c, "mCommunicationLog", loc), fl(c, "mCommunicationLogSize", loc)
    c.touch(l)
    c.touch(z)
    if not c.verify:
        c.release(l)
        lazy_log(I_, l, z, I_.fresh("log"), True)
        return
    v = c.h1(l)
    if isinstance(v, Rec) and v.kind == "lazy" and hasattr(v, "tag"):
        if c.old(l) is v:
            return
        I_.oblige(B(v.tag == "log"), "the communication log is kept", "post")
        return
    valid_buf(c, v, "mCommunicationLog")
    I_.oblige(eqI(length(I_.heap[v.bid].vals[()].s), c.h1(z)), "mCommunicationLogSize is the size of the log's buffer", "post")
    if c.old(l) != v:
        c.release(l)


def valid_buf(c, v, n):
    I_ = c.I
    if not (isinstance(v, Ptr) and v.bid is not None):
        I_.fail("%s designates a buffer" % n, "post")
    b = I_.heap.get(v.bid)
    I_.oblige(B(b is not None and b.alive and b.kind == "new[]" and v.off is I(0) and v.bid not in c.owned), "%s designates a buffer of its own" % n, "post")
    c.owned.add(v.bid)
    c.touched.add((v.bid, ()))
    I_.cstr(v)


def any_resp(c, loc=None, nn=False):
    """the last server response may be replaced"""
    I_ = c.I
    loc = loc or c.this
    l = fl(c, "mLastServerResponse", loc)
    c.touch(l)
    if not c.verify:
        c.release(l)
        lazy_resp(I_, l, I_.fresh("resp"), nn)
        return
    v = c.h1(l)
    if isinstance(v, Rec) and v.kind == "lazy" and hasattr(v, "tag"):
        I_.oblige(B(not nn or v.tag == "resp"), "there is a server response", "post")
        if isinstance(c.old(l), Ptr):
            c.release(l)
        return
    if isinstance(v, Rec) and v.kind == "lazy":
        v = I_.force(l, v)
    if isinstance(v, Ptr) and v.bid is None and not nn:
        if c.old(l) != v:
            c.release(l)
        return
    valid_buf(c, v, "mLastServerResponse")
    if c.old(l) != v:
        c.release(l)


def any_err(c, loc=None):
    I_ = c.I
    c.set_any(fl(c, "mLastSocketErrNo", loc), None if c.verify else I_.newI("lasterr", -(1 << 31), (1 << 31) - 1))


def traffic(c, rx=True):
    """bookkeeping that any traffic changes"""
    I_ = c.I
    for g in SIDE:
        c.out_ghost(g, {"rx": lambda: I_.newS("rx"), "nraw": lambda: I_.newI("nraw"), "sentok": lambda: I_.newB("sentok"), "rxraw": lambda: EMPTY, "waited": lambda: I_.newI("waited"), "n334": lambda: I_.newI("n334")}[g]())
    mode(c)


def mode(c):
    """the socket is in blocking mode again"""
    c.out_ghost("rdok", c.I.newB("rdok") if not c.verify else None)
    if c.verify:
        c.touched.add(("ghost", "wrok"))
        c.I.oblige(c.I.ghost["wrok"], "the socket is left in blocking mode", "post")
    else:
        c.I.oblige(c.I.ghost["wrok"], "precondition of %s: the socket is in blocking mode" % c.spec.name, "pre")


def tls_handles(c, loc):
    """(BIO, CTX) pointers"""
    return fl(c, "mBIO", loc), fl(c, "mCTX", loc)


def closed(c, loc=None, released=True):
    """the connection has been closed and its descriptor and TLS objects released"""
    I_ = c.I
    loc = loc or c.this
    c.set_val(fl(c, "mIsConnected", loc), FALSE)
    c.set_val(fl(c, "mSock", loc), I(0))
    c.set_ghost("open", I(0))
    if secure(c, loc):
        for h in tls_handles(c, loc):
            c.touch(h)
            if c.verify:
                p = c.h1(h)
                if isinstance(p, Rec) and p.kind == "lazy":
                    p = I_.force(h, p)
                I_.oblige(B(isinstance(p, Ptr) and p.bid is None), "%s is null after the connection is closed" % c.nm(h), "post")
                c.release(h)
            else:
                c.release(h)
                I_.store(h, NULL)
        c.set_any(fl(c, "mSSL", loc), NULL)
        c.out_ghost("hs", FALSE)
    any_log(c, loc)
    any_err(c, loc)


def tlschan(c, loc=None):
    """commands of this client travel over TLS"""
    I_ = c.I
    loc = loc or c.this
    if not secure(c, loc):
        return FALSE
    p = c.leaf(fl(c, "mBIO", loc))
    return And(B(isinstance(p, Ptr) and p.bid is not None), Not(c.leaf(fl(c, "mKeepUsingBaseSendCommands", loc))))


def inside_tls(c, tls, nraw):
    """nothing was sent outside TLS when tls"""
    if not secure(c, c.this):
        return
    q = eqI(c.I.ghost["nraw"], nraw)
    if c.verify:
        c.I.oblige(Implies(tls, q), "commands of a TLS session travel inside TLS only", "post", ("P19",))
    elif c.I.decide(tls):
        c.I.assume(q)


# ------------------------------------------------------------ commands
KINDS = (("MAIL FROM:", "mail"), ("RCPT TO:", "rcpt"), ("DATA\r\n", "data"), ("\r\n.\r\n", "end"), ("ehlo ", "ehlo"), ("EHLO ", "ehlo"), ("QUIT\r\n", "quit"), ("STARTTLS\r\n", "starttls"))


def kind(cmd):
    a = atoms(cmd)
    if not a or a[0].op != "str":
        return None
    for p, k in KINDS:
        if a[0].args[0].startswith(p):
            return k
    return None


def before_feedback(c, cmd):
    """the order of the protocol, obliged where a command is sent"""
    I_ = c.I
    k = kind(cmd)
    g = I_.ghost
    if c.verify:
        return k
    if k == "mail":
        g["mail_ok"], g["rcpt_ok"], g["data_ok"], g["end_ok"] = FALSE, TRUE, FALSE, FALSE
        g["nrcpt"] = I(0)
    elif k == "rcpt":
        I_.oblige(g["mail_ok"], "recipients are named only after the sender was accepted", "pre")
    elif k == "data":
        I_.oblige(And(g["mail_ok"], g["rcpt_ok"]), "the message is sent only when the sender and every recipient were accepted", "pre")
    elif k == "starttls":
        I_.oblige(ufB("starttls_offered", [g["offer"]]), "STARTTLS is sent only to a server that offers it", "pre")
    elif k == "end":
        I_.oblige(g["data_ok"], "the message ends only after the server asked for it", "pre")
    return k


def after_feedback(c, k, r, n334):
    I_ = c.I
    g = I_.ghost
    if c.verify:
        return
    g["_last"] = r
    g["n334"] = add(n334, ite(eqI(r, I(334)), I(1), I(0)))
    if k is None:
        return
    ok = eqI(r, I(354 if k == "data" else 250))
    if k == "mail":
        g["mail_ok"] = ok
        g["n501"] = add(g["n501"], ite(eqI(r, I(501)), I(1), I(0)))
    elif k == "rcpt":
        g["rcpt_ok"] = And(g["rcpt_ok"], ok)
        g["nrcpt"] = add(g["nrcpt"], I(1))
    elif k == "data":
        g["data_ok"] = ok
    elif k == "end":
        g["end_ok"] = ok
    elif k == "starttls":
        g["_go"] = eqI(r, I(220))
    elif k == "ehlo":
        g["ehlo_ok"] = FALSE
    if k in ("mail", "rcpt", "data", "end"):
        g["bad"] = ite(ok, g["bad"], r)


def retcode(I_, s):
    """the reply code a text begins with; -1 without one"""
    L = length(s)
    if not I_.decide(ge(L, I(3))):
        return I(-1)
    d = [I_.byte(s, I(i)) for i in range(3)]
    ok = And(*[And(ge(x, I(49 if i == 0 else 48)), le(x, I(57))) for i, x in enumerate(d)])
    if not I_.decide(ok):
        return I(-1)
    return add(scale(100, sub(d[0], I(48))), scale(10, sub(d[1], I(48))), sub(d[2], I(48)))


def reply_code(s):
    """the code a reply begins with (see extractReturnCode)"""
    return ufI("reply_code", [s])


def new_resp(c, r=None):
    """the last response is replaced by a reply whose code is the result"""
    I_ = c.I
    l = fl(c, "mLastServerResponse")
    if c.verify:
        any_resp(c, nn=True)
        v = c.h1(l)
        if not isinstance(v, Ptr):
            I_.oblige(FALSE, "the last response is the server's reply", "post")
        I_.oblige(eqI(r, reply_code(I_.cstr(v))), "the result is the code of the server's reply", "post")
        return r
    c.touch(l)
    c.release(l)
    s = I_.newS("reply", NONUL)
    I_.store(l, c.new_cstr("reply", "new[]", s))
    r = reply_code(s)
    code_range(I_, r)
    return r


def code_range(I_, r):
    I_.assume(Or(eqI(r, I(-1)), And(ge(r, I(100)), le(r, I(999)))))


def feedback(c):
    """sends a command and waits for the reply.
    reply code (100..999): the whole command was sent, the connection stays open, the reply is the last response;
    error code: the command could not be sent;  timeout code: no valid reply came.  In both cases the connection is closed."""
    I_ = c.I
    c.this_obj(dyn="?" if c.f is None or c.f["cls"] != SC else None)
    cmd, err, tmo = c.arg_cstr(0), c.arg_int(1), c.arg_int(2)
    linked(c, True)
    c.require(And(lt(err, I(0)), lt(tmo, I(0))), "the error codes are negative")
    tls = FALSE if c.spec.name.endswith("sendRawCommand") else tlschan(c)
    k = before_feedback(c, cmd)
    tx, nraw, clean, n334 = c.g("tx"), c.g("nraw"), c.g("clean"), c.g("n334")
    c.body()
    if c.verify:
        r = c.outcome[1]
        if I_.decide(ge(r, I(0))):
            case = 0
        elif I_.decide(eqI(err, tmo)):
            case = 2 if I_.decide(I_.ghost["sentok"]) else 1
        else:
            case = 1 if I_.decide(eqI(r, err)) else 2
    else:
        case = I_.choose(3)
    traffic(c)
    inside_tls(c, tls, nraw)
    if case == 0:
        if c.verify:
            I_.oblige(And(ge(r, I(100)), le(r, I(999))), "a reply code has three digits", "post")
            new_resp(c, r)
        else:
            r = new_resp(c)
            I_.assume(ge(r, I(100)))
            c.ret(r)
            I_.ghost["rx"] = I_.cstr(I_.load(fl(c, "mLastServerResponse")))   # ghost code: replies to this command
        any_err(c)
        c.set_ghost("tx", cat(tx, cmd))
        c.set_ghost("clean", clean)
        any_log(c)
    else:
        want = err if case == 1 else tmo
        c.ret(want, "the failure to send and the missing reply are told apart by the result")
        if c.verify:
            I_.oblige(Iff(I_.ghost["sentok"], B(case == 2)), "the error code means that the command was not sent, the timeout code that no reply came", "post")
            r = want
        else:
            r = want
            I_.assume(Iff(I_.ghost["sentok"], B(case == 2)))
        closed(c)
        any_resp(c)
        c.out_ghost("clean", FALSE)
        c.out_ghost("tx", I_.newS("tx") if not c.verify else None)
    after_feedback(c, k, r, n334)


def send(c):
    """sends a piece of the message or a command without a reply: 0, or the error code with the connection closed"""
    I_ = c.I
    c.this_obj(dyn="?" if c.f is None or c.f["cls"] != SC else None)
    cmd, err = c.arg_cstr(0), c.arg_int(1)
    linked(c, True)
    c.require(lt(err, I(0)), "the error code is negative")
    k = kind(cmd)
    if not c.verify and k != "quit" and not c.spec.name.endswith("sendRawCommand"):
        I_.oblige(I_.ghost["data_ok"], "the message is sent only after the server asked for it", "pre")
    tls = FALSE if c.spec.name.endswith("sendRawCommand") else tlschan(c)
    tx, nraw, clean = c.g("tx"), c.g("nraw"), c.g("clean")
    c.body()
    if c.verify:
        case = 0 if I_.decide(eqI(c.outcome[1], I(0))) else 1
    else:
        case = I_.choose(2)
    traffic(c)
    inside_tls(c, tls, nraw)
    if case == 0:
        c.ret(I(0))
        c.set_ghost("tx", cat(tx, cmd))
        c.set_ghost("clean", clean)
        if c.verify:
            I_.oblige(I_.ghost["clean"], "success means that everything was sent", "post")
    else:
        c.ret(err, "a failure to send is reported with the given code")
        if c.verify:
            I_.oblige(Not(I_.ghost["sentok"]), "the error code means that the text was not sent", "post")
        else:
            I_.assume(Not(I_.ghost["sentok"]))
        closed(c)
        c.out_ghost("clean", FALSE)
        c.out_ghost("tx", I_.newS("tx") if not c.verify else None)


def waits(c):
    I_ = c.I
    t = c.leaf(fl(c, "mCommandTimeOut"))
    w0 = I_.ghost["waited"] if not c.verify else c.ghost0["waited"]
    w = c.out_ghost("waited", I_.newI("waited"))
    q = le(sub(w, w0), ite(ge(t, I(1)), t, I(1)))
    if c.verify:
        I_.oblige(q, "the wait for a silent server is bounded by the command timeout", "post")
    else:
        I_.assume(q)


def reply(c):
    """waits for a reply: its code, with its text as last response; -1 when none or no valid one came"""
    I_ = c.I
    c.this_obj(dyn="?" if c.f is None or c.f["cls"] != SC else None)
    linked(c, True)
    rx = c.g("rx")
    c.body()
    l = fl(c, "mLastServerResponse")
    if c.verify:
        r = c.outcome[1]
        new = c.h1(l)
        if isinstance(new, Ptr) and new.bid is not None and new != c.old(l):
            s = I_.cstr(new)
            new_resp(c, r)
            c.eq_str(s, c.g("rx"), "the last response is the text the server sent")
            got = TRUE
        else:
            I_.oblige(eqI(r, I(-1)), "without a reply the result is -1", "post")
    elif I_.choose2():
        r = new_resp(c)
        c.ret(r)
        I_.ghost["rx"] = cat(I_.ghost["rx"], I_.cstr(I_.load(l)))
        I_.ghost["rxraw"] = EMPTY
        waits(c)
        mode(c)
        any_log(c)
        any_err(c)
        return
    else:
        c.ret(I(-1))
    waits(c)
    mode(c)
    c.out_ghost("rxraw", EMPTY)
    c.out_ghost("rx", I_.newS("rx") if not c.verify else None)
    any_log(c)
    any_err(c)


def cleanup(c):
    """closes the connection (after QUIT when a batch is under way); harmless without one"""
    c.this_obj(dyn="?" if c.f is None or c.f["cls"] != SC else None)
    done = closing(c)
    c.body()
    closed(c)
    done()


def closing(c):
    """(before the call) what closing the client's connection does to the traffic: to be said after the call"""
    I_ = c.I
    s, con = linked(c)
    quit_ = And(c.leaf(fl(c, "mBatchMode")), con)
    tx, clean = c.g("tx"), c.g("clean")
    tls, nraw = tlschan(c), c.g("nraw")

    def done():
        if not c.verify:
            c.set_ghost("sentok", clean)                      # ghost code: why the connection was closed
        if not I_.decide(quit_):
            c.set_ghost("tx", tx)
            c.set_ghost("clean", clean)
            return
        traffic(c)
        if not c.verify:
            c.set_ghost("sentok", clean)
        inside_tls(c, tls, nraw)
        if c.verify:
            if I_.ghost["clean"] is not FALSE:
                c.set_ghost("tx", cat(tx, "QUIT\r\n"))
            c.out_ghost("clean", None)
            c.out_ghost("tx", None)
        elif clean is FALSE or I_.choose2():
            c.out_ghost("clean", FALSE)
            c.out_ghost("tx", I_.newS("tx"))
        else:
            c.set_ghost("tx", cat(tx, "QUIT\r\n"))
    return done
