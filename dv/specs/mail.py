"""Sending a message: envelope, headers, body, attachments."""
from . import conn as N
from .conn import *
from .message import M, MA, AT, Msg
from .proto import reg, VIRT, P11, P12, P13
from .data import addr_text, mime_name, file_base64
from .session import still_linked, may_close, step_failed

P15, P16, P17, P18 = ("P15",), ("P16",), ("P17",), ("P18",)
MAIL = ("P12", "P13", "P15", "P16", "P18", "P19", "P20")
EMAIL, NAME = (MA + "::mEmailAddress",), (MA + "::mDisplayName",)


def rcpt_cmds(gen, n):
    """RCPT TO for each of the first n addresses, in order"""
    if gen is None:
        return EMPTY
    return fold(cat("RCPT TO: <", gen[EMAIL], ">\r\n"), Seg.J, n)


def step_pre(c):
    c.s_tls, c.s_nraw, c.s_tx, c.s_clean = tlschan(c), c.g("nraw"), c.g("tx"), c.g("clean")


def step_side(c):
    traffic(c)
    N.inside_tls(c, c.s_tls, c.s_nraw)


def step_sent(c, *cmds):
    """everything was sent; the connection is as it was"""
    c.set_ghost("tx", cat(c.s_tx, *cmds))
    c.set_ghost("clean", c.s_clean)
    any_log(c)
    any_err(c)
    any_resp(c)


@spec(CB + "::addMailRecipients", MAIL)
def add_rcpt(c):
    """names every address of the list, in order.  RECIPIENT_OK: all accepted;  another code: the server refused one;
    negative: the connection failed and is closed"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    n = c.arg_int(1, 0, 1 << 32)
    gen = c.arg_array(0, n, MA, byval=False)
    ok = c.arg_int(2)
    c.require(eqI(ok, I(250)), "the code of an accepted recipient is 250")
    c.require(c.g("mail_ok"), "recipients are named only after the sender was accepted")
    step_pre(c)
    nr, ro, bad = c.g("nrcpt"), c.g("rcpt_ok"), c.g("bad")
    c.body()
    g = I_.ghost
    step_side(c)
    if c.verify:
        r = c.outcome[1]
    else:
        k = I_.choose(3)
        r = I(250) if k == 0 else I_.newI("rcpt", 100, 999) if k == 1 else I_.newI("rcpt", -88, -87)
        I_.ghost["_last"] = r
        if k == 1:
            I_.assume(Not(eqI(r, I(250))))
        c.result = r
    if c.verify:
        I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), eqI(r, I(-87)), eqI(r, I(-88))), "the result is a reply code or an error code", "post")
    if not I_.decide(ge(r, I(0))):
        c.out_ghost("rcpt_ok", FALSE)
        c.out_ghost("nrcpt", I_.newI("nrcpt"))
        c.out_ghost("bad", I_.newI("bad"))
        if c.verify:
            I_.oblige(Not(g["rcpt_ok"]), "a failure means that a recipient was not accepted", "post")
        step_failed(c, r)
        return
    step_sent(c, rcpt_cmds(gen, n))
    c.set_ghost("nrcpt", add(nr, n))
    if I_.decide(eqI(r, I(250))):
        if c.verify:
            c.touched.add(("ghost", "rcpt_ok"))
            I_.oblige(Iff(g["rcpt_ok"], ro), "success means that every recipient was accepted", "post")
        c.out_ghost("bad", bad)
        if c.verify:
            c.touched.add(("ghost", "bad"))
    else:
        c.out_ghost("rcpt_ok", FALSE)
        if c.verify:
            I_.oblige(Not(g["rcpt_ok"]), "a refusal is reported", "post")
            I_.oblige(eqI(r, g["bad"]), "the result is the code of a refusal", "post")
        c.out_ghost("bad", r)


# ------------------------------------------------------------------ envelope
LISTS = (("mTo", "mToCount"), ("mCc", "mCCCount"), ("mBcc", "mBCCCount"))


def sender_cmds(m):
    """the three forms of MAIL FROM"""
    return [cat("MAIL FROM: <", m.email, ">\r\n"), cat("MAIL FROM: <", m.name, " ", m.email, ">\r\n"), cat("MAIL FROM: ", m.email, "\r\n")]


def arg_msg(c, i):
    """the message to be sent"""
    loc = c.arg_obj(i, M, dyn="?")
    m = Msg(c, loc)
    m.mime = mime_text(loc)
    return m


def mime_text(loc):
    """the MIME type the message's own class gives it"""
    return svar("mime:" + loc.bid, NONUL)


def mime_of(c):
    c.this_obj(dyn="?")
    c.body()
    c.ret_cstr(mime_text(c.this))


VIRT["getMimeType"] = mime_of


@spec(CB + "::setMailRecipients", MAIL)
def envelope(c):
    """0: the server accepted the sender and every recipient;  a reply code: it refused one of them;  negative: the connection failed"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    m = arg_msg(c, 0)
    step_pre(c)
    n501, bad = c.g("n501"), c.g("bad")
    c.body()
    g = I_.ghost
    step_side(c)
    for x in ("mail_ok", "rcpt_ok", "data_ok", "end_ok"):
        c.out_ghost(x, FALSE if x != "rcpt_ok" else I_.newB(x))
    c.out_ghost("n501", I_.newI("n501"))
    c.out_ghost("nrcpt", I_.newI("nrcpt"))
    forms = sender_cmds(m)
    if c.verify:
        r = c.outcome[1]
        I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in (0, -85, -86, -87, -88)]), "the result is 0, a reply code or an error code", "post")
        I_.oblige(And(Not(g["data_ok"]), Not(g["end_ok"])), "nothing of the message has been accepted yet", "post")
    else:
        k = I_.choose(3)
        r = I(0) if k == 0 else I_.newI("env", 100, 999) if k == 1 else I_.newI("env", -88, -85)
        I_.ghost["_last"] = r
        c.result = r
    if not I_.decide(ge(r, I(0))):
        c.out_ghost("bad", I_.newI("bad"))
        step_failed(c, r)
        return
    if I_.decide(eqI(r, I(0))):
        if c.verify:
            I_.oblige(And(g["mail_ok"], g["rcpt_ok"]), "success means that the sender and every recipient were accepted", "post")
            c.touched.add(("ghost", "bad"))
            j = tries(c, n501)
        else:
            g["mail_ok"], g["rcpt_ok"] = TRUE, TRUE
            j = I_.choose(3) + 1
            g["n501"] = add(n501, I(j - 1))
        step_sent(c, *(forms[:j] + [rcpt_cmds(m.fam(p), m.n[p]) for p, _ in LISTS]))
        return
    c.out_ghost("bad", r)
    if not c.verify:
        I_.ghost["rcpt_ok"] = FALSE
        c.out_ghost("tx", I_.newS("tx"))
        c.set_ghost("clean", c.s_clean)
        any_log(c)
        any_err(c)
        any_resp(c)
        return
    I_.oblige(And(Not(And(g["mail_ok"], g["rcpt_ok"])), eqI(g["bad"], r)), "the result is the code of the refusal", "post")
    if not I_.decide(g["mail_ok"]):
        j = tries(c, n501)
        step_sent(c, *forms[:j])
        return
    j = tries(c, n501)
    k = I(0)
    cmds = forms[:j]
    for i, (p, _) in enumerate(LISTS):
        k = add(k, m.n[p])
        cmds.append(rcpt_cmds(m.fam(p), m.n[p]))
        if i == 2 or I_.decide(eqI(g["nrcpt"], k)):
            break
    step_sent(c, *cmds)


def tries(c, n501):
    """(verify) how many forms of the sender have been tried: one more after each 501"""
    I_ = c.I
    g = I_.ghost
    n = sub(g["n501"], n501)
    for j in range(3):
        if I_.decide(eqI(n, I(j))):
            return min(j + 1, 3)
    I_.oblige(eqI(n, I(3)), "the three forms of the sender are tried one after the other", "post")
    return 3


# ------------------------------------------------------------------- headers


def arg_vec(c, i, cls):
    """vector of pointers to objects: (number, contents by index)"""
    I_ = c.I
    if c.verify:
        nm = c.pname(i) or "a%d" % i
        n = I_.newI(nm + ".size", 0, 1 << 32)
        gen = I_.views.family(c, cls, nm)
        arr = SegArr(n, cls, (Seg(I(0), n, "obj", "arg:" + nm, gen, cls),), False)
        c.vals[i] = Loc(I_.alloc("vector", "caller", {(): VecV(None, arr)}, {"const": True}))
        return n, gen
    v = c.vals[i]
    if isinstance(v, Loc):
        v = I_.load(v)
    if isinstance(v, VecV) and v.elems == []:
        return I(0), {}
    if isinstance(v, VecV) and v.arr is not None:
        for s in v.arr.segs:
            if s.kind == "obj" and I_.eqP(s.lo, I(0)) and I_.leP(v.arr.n, s.hi):
                return v.arr.n, s.gen
        if I_.eqP(v.arr.n, I(0)):
            return I(0), {}
    raise Unsupported("vector %r" % (v,))


def addr_list(gen, n):
    """the addresses, separated by ', '"""
    if not gen:
        return EMPTY
    return fold(cat(ite(eqI(Seg.J, I(0)), EMPTY, S(", ")), addr_text(gen[EMAIL], gen[NAME])), Seg.J, n)


@spec(CB + "::generateHeaderAddressValues", P16)
def header_list(c):
    n, gen = arg_vec(c, 0, MA)
    c.body()
    c.ret(addr_list(gen, n), "the header lists every address once, in order")


def piece(c, cmds, err):
    """a piece of the message is sent: 0 and exactly this, or the error code and the connection is closed"""
    I_ = c.I
    step_side(c)
    if c.verify:
        case = 0 if I_.decide(eqI(c.outcome[1], I(0))) else 1
    else:
        case = I_.choose(2)
    if case == 0:
        c.ret(I(0))
        step_sent(c, *cmds)
    else:
        c.ret(err, "a failure is reported with the given code")
        step_failed(c, err)


@spec(CB + "::addMailHeader", ("P13", "P16", "P18", "P19"))
def mail_header(c):
    I_ = c.I
    N.client(c)
    linked(c, True)
    f, v, err = c.arg_cstr(0), c.arg_cstr(1), c.arg_int(2)
    c.require(lt(err, I(0)), "the error code is negative")
    c.require(c.g("data_ok"), "the message is sent only after the server asked for it")
    step_pre(c)
    c.body()
    piece(c, [f, ": ", v, "\r\n"], err)


def header_text(m):
    out = ["From: ", addr_text(m.email, m.name), "\r\n"]
    for h, p in (("To", "mTo"), ("Cc", "mCc")):
        g = m.fam(p)
        if g is not None:
            out.append(ite(gt(m.n[p], I(0)), cat(h + ": ", addr_list(g, m.n[p]), "\r\n"), EMPTY))
    return out + ["Subject: ", m.subject, "\r\n", "Content-Type: multipart/related; boundary=sep\r\n\r\n"]


@spec(CB + "::setMailHeaders", MAIL)
def headers(c):
    """0: the server asked for the message and exactly its headers were sent;  a reply code: it refused;  negative: the connection failed"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    m = arg_msg(c, 0)
    c.require(And(c.g("mail_ok"), c.g("rcpt_ok")), "the message is sent only when the sender and every recipient were accepted")
    step_pre(c)
    bad = c.g("bad")
    c.body()
    g = I_.ghost
    step_side(c)
    c.out_ghost("data_ok", I_.newB("data_ok"))
    if c.verify:
        r = c.outcome[1]
        I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in (0, -89, -90, -91, -92, -93, -94)]), "the result is 0, a reply code or an error code", "post")
    else:
        k = I_.choose(3)
        r = I(0) if k == 0 else I_.newI("headers", 100, 999) if k == 1 else I_.newI("headers", -94, -89)
        I_.ghost["_last"] = r
        c.result = r
    if not I_.decide(ge(r, I(0))):
        c.out_ghost("bad", I_.newI("bad"))
        step_failed(c, r)
        return
    if I_.decide(eqI(r, I(0))):
        c.ensure(g["data_ok"], "success means that the server asked for the message")
        c.set_ghost("bad", bad)
        step_sent(c, "DATA\r\n", *header_text(m))
        return
    c.ensure(Not(g["data_ok"]), "a reply code means that the server did not ask for the message")
    c.ensure(eqI(g["bad"], r), "the result is the code of the refusal") if c.verify else None
    c.out_ghost("bad", r)
    step_sent(c, "DATA\r\n")


# --------------------------------------------------------------- attachments
def attachment_text(g):
    """the part of one attachment"""
    nm, fn, ci = [g[(AT + "::" + x,)] for x in ("mName", "mFilename", "mContentId")]
    head = cat("\r\n--sep\r\nContent-Type: ", mime_name(fn), "; file=\"", nm, "\"\r\n")
    ident = cat("X-Attachment-Id: ", ci, "\r\nContent-ID: <", ci, ">\r\nContent-Disposition: attachment; filename=\"", nm, "\"\r\n")
    inline = cat("Content-Disposition: Inline; filename=\"", nm, "\"\r\n")
    return cat(head, ite(gt(length(ci), I(0)), ident, inline), "Content-Transfer-Encoding: base64\r\n\r\n", file_base64(fn))


def attachments_text(gen, n):
    return cat(fold(attachment_text(gen), Seg.J, n) if gen else EMPTY, "\r\n--sep--")


@spec(CB + "::createAttachmentsText", P17)
def parts(c):
    n, gen = arg_vec(c, 0, AT)
    c.body()
    c.ret(attachments_text(gen, n), "the text has one part per attachment, in order, each with its own name, type, identification and file")


def body_text(m):
    """what is sent between the headers and the end mark"""
    t = cat("--sep\r\nContent-Type: ", m.mime, "; charset=UTF-8\r\n\r\n", m.body, "\r\n")
    g, n = m.fam("mAttachments"), m.n["mAttachments"]
    if g is not None:
        a = attachments_text(g, n)
        t = cat(t, (a if m.c.I.decide(gt(n, I(0))) else EMPTY) if not m.lazy else ite(gt(n, I(0)), a, EMPTY))
    return rall(t, S("\r\n."), S("\r\n.."))


END = "\r\n.\r\n"


@spec(CB + "::setMailBody", MAIL)
def body(c):
    """0: exactly the body was sent and the server accepted the message;  a reply code: it refused;  negative: the connection failed"""
    I_ = c.I
    N.client(c)
    linked(c, True)
    m = arg_msg(c, 0)
    c.require(And(c.g("data_ok"), Not(c.g("end_ok"))), "the message is sent only after the server asked for it")
    step_pre(c)
    bad = c.g("bad")
    batch = c.leaf(fl(c, "mBatchMode"))
    c.body()
    g = I_.ghost
    step_side(c)
    c.out_ghost("end_ok", I_.newB("end_ok"))
    if c.verify:
        r = c.outcome[1]
        I_.oblige(Or(And(ge(r, I(100)), le(r, I(999))), *[eqI(r, I(x)) for x in (0, -95, -96, -97, -98, -99)]), "the result is 0, a reply code or an error code", "post")
    else:
        k = I_.choose(3)
        r = I(0) if k == 0 else I_.newI("body", 100, 999) if k == 1 else I_.newI("body", -99, -95)
        I_.ghost["_last"] = r
        c.result = r
    if not I_.decide(ge(r, I(0))):
        c.out_ghost("bad", I_.newI("bad"))
        if c.verify:
            I_.oblige(Implies(g["end_ok"], eqI(r, I(-99))), "an error of the message means that the server has not accepted it", "post")
        else:
            I_.assume(Implies(g["end_ok"], eqI(r, I(-99))))
        step_failed(c, r)
        return
    quit_ = []
    if I_.decide(eqI(r, I(0))):
        c.ensure(g["end_ok"], "success means that the server accepted the whole message")
        c.set_ghost("bad", bad)
        if not I_.decide(batch):
            quit_ = ["QUIT\r\n"]
    else:
        c.ensure(Not(g["end_ok"]), "a reply code means that the server did not accept the message")
        c.ensure(eqI(g["bad"], r), "the result is the code of the refusal") if c.verify else None
        c.out_ghost("bad", r)
    step_sent(c, body_text(m), END, *quit_)
