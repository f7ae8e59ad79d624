"""Replies, the communication log, the wire: contracts of the protocol layer."""
from . import conn as N
from .conn import *
from ..terms import rall

P9, P10, P11, P12, P13 = ("P09",), ("P10",), ("P11",), ("P12",), ("P13",)


# ---------------------------------------------------------------- replies
@spec(CB + "::extractReturnCode", P9)
def extract(c):
    s = c.arg_cstr(0, nullable=True)
    if not c.verify:
        r = I(-1) if s is None else N.reply_code(s)
        if s is not None:
            N.code_range(c.I, r)
        c.result = r
        return
    c.body()
    c.ret(I(-1) if s is None else retcode(c.I, s), "the result is the three-digit code the text begins with, or -1")


def lastline(I_, s):
    """the last line of a reply, without its line end"""
    n = length(s)
    cut = And(ge(n, I(2)), eqS(I_.sub(s, sub(n, I(2)), I(2)), S("\r\n")))
    t = I_.sub(s, I(0), sub(n, I(2))) if I_.decide(cut) else s
    r = rindex(I_, t, S("\r\n"))
    if I_.decide(lt(r, I(0))):
        return t
    return I_.sub(t, add(r, I(2)), sub(length(t), add(r, I(2))))


def complete(I_, s):
    """the reply is complete: its last line has a space after the code"""
    return prefixof(S("250 "), lastline(I_, s))


@spec(J("ServerOptionsAnalyzer::containsAllOptions"), P9)
def contains_all(c):
    s = c.arg_str(0)
    if not c.verify:
        c.result = ufB("ehlo_complete", [s])
        return
    c.body()
    c.ret(complete(c.I, s), "a reply is complete exactly when its last line begins with '250 '")


@spec(OS + "::isStartTLSSupported", ("P19",))
def tls_supported(c):
    s = c.arg_cstr(0, nullable=True)
    if s is None:
        c.body()
        c.ret(FALSE)
        return
    if not c.verify:
        c.result = ufB("starttls_offered", [s])
        return
    c.body()
    c.ret(Or(contains(s, S("250-STARTTLS")), contains(s, S("250 STARTTLS"))), "STARTTLS is used exactly when the server offers it")


# ---------------------------------------------------------------- the log
def logged(item, prefix):
    return rall(item, S("\r\n"), S("\\r\\n")) if prefix == "c" else item


def log_text(c):
    """the communication log (None: there is none)"""
    return c.get_cstr(fl(c, "mCommunicationLog"))


def nosecret(c, t, what):
    """the text that is logged does not depend on the password"""
    for x in free_vars(t):
        if x.op == "sv" and x.args[0].split("!")[0].rstrip("?").endswith("mPassword"):
            c.I.oblige(FALSE, "the password is not written to the communication log (%s)" % what, "post", ("P14",))


@spec(CB + "::addCommunicationLogItem", P11)
def log_item(c):
    """appends one line to the log; nothing that was logged before changes"""
    I_ = c.I
    c.this_obj(dyn="?")
    if c.verify:
        haslog(c, c.this, TRUE)
    item = c.arg_cstr(0)
    pre = c.arg_cstr(1)
    if not c.verify:
        nosecret(c, item, "item")
        haslog(c, c.this, TRUE)
        any_log(c)
        return
    old = log_text(c)
    isc = I_.decide(eqS(pre, S("c")))
    c.body()
    l, z = fl(c, "mCommunicationLog"), fl(c, "mCommunicationLogSize")
    any_log(c)
    new = I_.cstr(c.h1(l)) if isinstance(c.h1(l), Ptr) else None
    if new is None:
        I_.fail("the communication log holds a text", "post")
    c.eq_str(new, cat(old, "\n", pre, ": ", logged(item, "c" if isc else "")), "the log gains exactly the new line")


# ---------------------------------------------------------------- the wire
def reg(names, fn, props, ptypes=None, **kw):
    out = []
    for n in names:
        sp = spec(n, props, ptypes, **kw)
        sp(fn)
        out.append(SPECS[-1])
    return out


RAW2, RAW3 = [CHARP, "int"], [CHARP, "int", "int"]
WIRE = P13 + ("P12", "P14", "P15", "P16", "P18", "P19", "P20")

reg([CB + "::sendRawCommand"], N.send, WIRE, RAW2)
reg([CB + "::sendRawCommand"], N.feedback, WIRE, RAW3)
reg([SC + "::sendCommand", SB + "::sendCommand"], N.send, WIRE)
reg([SC + "::sendCommandWithFeedback", SB + "::sendCommandWithFeedback"], N.feedback, WIRE)
reg([CB + "::getRawCommandReply", CB + "::getServerReply", SC + "::getServerReply", SB + "::getServerReply"], N.reply, P12 + ("P18",))
reg([SC + "::cleanup", SB + "::cleanup"], N.cleanup, ("P20",))

# calls through the virtual functions and the member pointers
VIRT = {"sendCommand": N.send, "sendCommandWithFeedback": N.feedback, "getServerReply": N.reply, "cleanup": N.cleanup}
GROUP = {"send": N.send, "feedback": N.feedback}


@spec(CB + "::crossPlatformSleep", P12)
def csleep(c):
    c.this_obj(dyn="?")
    n = c.arg_int(0)
    w = c.g("waited")
    c.body()
    c.set_ghost("waited", add(w, n))


def sock_mode(c):
    """0, or an error code"""
    I_ = c.I
    c.this_obj(dyn="?")
    linked(c, True)
    nb = "NonBlocking" in c.spec.name
    if c.verify:
        I_.ghost["wrok"] = bvar("wrok0")
    c.body()
    any_log(c)
    any_err(c)
    for g in ("rdok", "wrok"):
        c.out_ghost(g, None)
    if c.verify:
        r = c.outcome[1]
        g = I_.ghost
        I_.oblige(Implies(eqI(r, I(0)), And(Iff(g["rdok"], B(nb)), Iff(g["wrok"], B(not nb)))), "success means that the mode was set", "post")
        I_.oblige(Or(eqI(r, I(0)), And(g["rdok"], g["wrok"])), "an error means that the system refused the change", "post")
        I_.oblige(Or(*[eqI(r, I(x)) for x in (0, -7, -8)]), "a failure to change the mode of the socket is reported", "post")
    else:
        k = I_.choose(2)
        if k == 0:
            I_.ghost["rdok"], I_.ghost["wrok"] = B(nb), B(not nb)
            c.result = I(0)
        else:
            I_.ghost["rdok"], I_.ghost["wrok"] = TRUE, TRUE
            c.result = I_.newI("mode", -8, -7)


reg([CB + "::setSocketToNonBlocking", CB + "::setSocketToBlocking", CB + "::setSocketToNonBlockingPOSIX", CB + "::setSocketToBlockingPOSIX"], sock_mode, P13 + P12)
