"""Message and its two concrete classes."""
from .common import *

M, MA, AT = J("Message"), J("MessageAddress"), J("Attachment")
FAMS = (("mTo", "mToCount", MA), ("mCc", "mCCCount", MA), ("mBcc", "mBCCCount", MA), ("mAttachments", "mAttachmentCount", AT))
CNT = (1 << 32) - 1


def view(c, cls, loc, name, valid):
    I_ = c.I
    for p, n, ec in FAMS:
        fp, fn = c.field(loc, p), c.field(loc, n)
        k = I_.newI("%s.%s" % (name, n), 0, CNT)
        I_.rawset(fn.bid, fn.path, k)
        I_.rawset(fp.bid, fp.path, I_.views.lazy_array(c, fp, k, ec, "%s.%s" % (name, p)))
    return tuple(x for f in FAMS for x in f[:2])


VIEW = {("class", "Message"): view}


class Msg:
    """contents of a message"""

    def __init__(self, c, loc):
        f = lambda n: c.field(loc, n)
        fr = f("mFrom")
        self.email, self.name = [c.get_cstr(fr.field(q)) for q, _ in c.I.prog.allfields(MA)]
        self.subject, self.body = c.get_cstr(f("mSubject")), c.get_cstr(f("mBody"))
        self.n = {p: c.leaf(f(n)) for p, n, _ in FAMS}
        self.g = {}
        self.c, self.loc, self.lazy = c, loc, not c.verify

    def fam(self, p):
        """elements by index (None: the array is null)"""
        if p not in self.g:
            ec = next(e for q, _, e in FAMS if q == p)
            fl = self.c.field(self.loc, p)
            v = self.c.I.heap[fl.bid].vals.get(fl.path)
            if self.lazy and isinstance(v, Rec) and v.kind == "lazy":
                return v.gen                                  # a null array has no elements: its texts are empty all the same
            self.g[p] = self.c.get_family(self.c.field(self.loc, p), self.n[p], ec)
        return self.g[p]


def from_fields(c, loc):
    fr = c.field(loc, "mFrom")
    return [fr.field(q) for q, _ in c.I.prog.allfields(MA)]


def args(c, base, single):
    """contents given by constructor arguments"""
    I_ = c.I
    fr = c.arg_obj(0, MA)
    frm = [c.get_cstr(fr.field(q)) for q, _ in I_.prog.allfields(MA)]
    if single:
        to = c.arg_obj(1, MA)
        g = {"mTo": (I(1), c.objfields(to, MA))}
        subj, body = c.arg_cstr(2, True), c.arg_cstr(3, True)
        for i, p in ((4, "mCc"), (5, "mBcc")):
            g[p] = opt_obj(c, i, MA)
        n = c.arg_int(7, 0, CNT)
        a = c.arg_array(6, n, AT)
        g["mAttachments"] = (n, a)
    else:
        nt = c.arg_int(2, 0, CNT)
        g = {"mTo": (nt, c.arg_array(1, nt, MA))}
        subj, body = c.arg_cstr(3, True), c.arg_cstr(4, True)
        for i, p, ec in ((5, "mCc", MA), (7, "mBcc", MA), (9, "mAttachments", AT)):
            n = c.arg_int(i + 1, 0, CNT)
            g[p] = (n, c.arg_array(i, n, ec))
    return frm, subj, body, g


def opt_obj(c, i, cls):
    """pointer to one object, or null"""
    I_ = c.I
    if c.verify:
        if I_.choose2():
            c.vals[i] = NULL
            return (I(0), None)
        loc = c.obj(cls, c.f["params"][i]["name"])
        c.vals[i] = I_.addr(loc)
        return (I(1), c.objfields(loc, cls))
    p = c.vals[i]
    if isinstance(p, Rec) and p.kind == "lazy":
        p = p.make(I_)
    if isinstance(p, Ptr) and p.bid is None:
        return (I(0), None)
    return (I(1), c.read_array(p, I(1), cls))


def built(c, frm, subj, body, g):
    t = c.this
    for f, v in zip(from_fields(c, t), frm):
        c.set_owned(f, v)
    c.set_owned(c.field(t, "mSubject"), EMPTY if subj is None else subj)
    c.set_owned(c.field(t, "mBody"), EMPTY if body is None else body)
    for p, n, ec in FAMS:
        c.set_val(c.field(t, n), g[p][0])
        c.set_family(c.field(t, p), g[p][0], ec, g[p][1])


ADR, ARR = "const %s &" % MA, "const %s *" % MA
T1 = [ADR, ADR, CHARP, CHARP, ARR, ARR, "const %s *" % AT, "unsigned long"]
T2 = [ADR, ARR, "unsigned long", CHARP, CHARP, ARR, "unsigned long", ARR, "unsigned long", "const %s *" % AT, "unsigned long"]
for cls in ("Message", "PlaintextMessage", "HTMLMessage"):
    for single, ts in ((True, T1), (False, T2)):
        def f(c, single=single):
            c.this_obj(raw=True)
            a = args(c, None, single)
            c.body()
            built(c, *a)
        spec("%s::%s" % (J(cls), cls), ("P07",), ts)(f)


@spec(M + "::Message", ("P07",), ["const %s &" % M])
def _(c):
    c.this_obj(raw=True)
    o = c.arg_obj(0, M)
    m = Msg(c, o)
    c.body()
    copied(c, m)


def copied(c, m):
    """the object equals the source; its arrays are its own (null when there are no elements is allowed)"""
    t = c.this
    for f, v in zip(from_fields(c, t), (m.email, m.name)):
        c.set_owned(f, v)
    c.set_owned(c.field(t, "mSubject"), m.subject)
    c.set_owned(c.field(t, "mBody"), m.body)
    for p, n, ec in FAMS:
        c.set_val(c.field(t, n), m.n[p])
        copy_family(c, c.field(t, p), m, p, ec)


def copy_family(c, ptr, m, p, ec):
    I_ = c.I
    if not c.verify:
        c.set_family(ptr, m.n[p], ec, m.fam(p))
        return
    w = c.h1(ptr)
    if isinstance(w, Rec) and w.kind == "lazy":
        w = I_.force(ptr, w)
    if isinstance(w, Ptr) and w.bid is None:
        c.touch(ptr)
        I_.oblige(eqI(m.n[p], I(0)), "%s is null only without elements" % p, "post")
        if ptr.bid in I_.h0 and c.old(ptr) is not UNINIT and c.old(ptr) != w:
            c.release(ptr)
        return
    c.set_family(ptr, m.n[p], ec, m.fam(p) or {})


@spec(M + "::operator=", ("P07",), ["const %s &" % M], shards=8)
def _(c):
    c.this_obj(valid=False)
    o = c.arg_obj(0, M, alias=True)
    c.split([null(c, c.field(c.this, p)) for p in ("mTo", "mCc", "mBcc")])
    if o == c.this:
        c.body()
        c.ret_this()
        return
    m = Msg(c, o)
    c.body()
    copied(c, m)
    c.ret_this()


def moved(c, o, vals, fresh):
    t = c.this
    for (a, b), v in zip(zip(from_fields(c, t), from_fields(c, o)), vals["from"]):
        move_cstr(c, a, b, v, fresh)
    for f in ("mSubject", "mBody"):
        move_cstr(c, c.field(t, f), c.field(o, f), vals[f], fresh)
    for p, n, ec in FAMS:
        move_ptr(c, c.field(t, p), c.field(o, p), vals[p], fresh)
        c.set_val(c.field(t, n), vals[n])
        c.set_any(c.field(o, n))
        if c.verify:
            c.I.oblige(Or(B(not null(c, c.field(o, p))), eqI(c.h1(c.field(o, n)), I(0))), "moved-from message stays consistent", "post")
        else:
            c.I.store(c.field(o, n), I(0))


def null(c, loc):
    p = c.leaf(loc)
    return isinstance(p, Ptr) and p.bid is None


def move_ptr(c, dst, src, v, fresh):
    """dst takes over the allocation v"""
    I_ = c.I
    if not c.verify:
        if not fresh:
            c.release(dst)
        I_.store(dst, v)
        I_.store(src, NULL)
        return
    c.set_val(dst, v)
    if isinstance(v, Ptr) and v.bid is not None:
        c.owned.add(v.bid)
    movedout(c, src)
    if not fresh:
        p0 = c.old(dst)
        if isinstance(p0, Ptr) and p0.bid is not None and p0.bid not in c.owned:
            c.release(dst)
        elif isinstance(p0, Rec) and p0.kind == "lazy":
            # never looked at: still there
            p0 = p0.make(I_)
            if isinstance(p0, Ptr) and p0.bid is not None:
                c.release(dst)


def prevals(c, o):
    d = {"from": [c.get_cstr(f) for f in from_fields(c, o)]}
    for f in ("mSubject", "mBody"):
        d[f] = c.get_cstr(c.field(o, f))
    for p, n, ec in FAMS:
        d[p], d[n] = c.leaf(c.field(o, p)), c.leaf(c.field(o, n))
    return d


@spec(M + "::Message", ("P07",), ["%s &&" % M])
def _(c):
    c.this_obj(raw=True)
    o = c.arg_obj(0, M)
    v = prevals(c, o)
    c.body()
    moved(c, o, v, True)


@spec(M + "::operator=", ("P07",), ["%s &&" % M], shards=8)
def _(c):
    c.this_obj(valid=False)
    o = c.arg_obj(0, M, alias=True)
    c.split([null(c, c.field(c.this, p)) for p in ("mTo", "mCc", "mBcc")])
    if o == c.this:
        c.body()
        c.ret_this()
        return
    v = prevals(c, o)
    c.body()
    moved(c, o, v, False)
    c.ret_this()


@spec(M + "::~Message", ("P07",))
def _(c):
    c.this_obj(valid=False)
    c.body()
    c.destroyed()


for f, g in (("mToCount", "getToCount"), ("mCCCount", "getCcCount"), ("mBCCCount", "getBccCount"), ("mAttachmentCount", "getAttachmentsCount"),
             ("mTo", "getTo"), ("mCc", "getCc"), ("mBcc", "getBcc"), ("mAttachments", "getAttachments")):
    getter_val("Message", g, f, ("P07",))
for f, g in (("mSubject", "getSubject"), ("mBody", "getBody")):
    getter_cstr("Message", g, f, ("P07",))


@spec(M + "::getFrom", ("P07",), apply=False)
def _(c):
    c.this_obj()
    c.body()
    c.ret(c.field(c.this, "mFrom"))


for cls, typ in (("PlaintextMessage", "text/plain"), ("HTMLMessage", "text/html")):
    def f(c, typ=typ):
        c.this_obj()
        c.body()
        c.ret_cstr(S(typ))
    spec("%s::getMimeType" % J(cls), ("P07", "P16"))(f)
