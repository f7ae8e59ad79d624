"""Models of the operating system's network calls and of the TLS library.

Ghost state they share with the specifications:
  tx       everything handed to the connection, in order (meaningful while clean)
  clean    no attempt to send has failed
  open     descriptor of the open connection (0: none)
  rx       text received since the call began (of every piece: up to a NUL);  rxraw  every byte of it
  waited   seconds slept
  rdok     a read returns at once (non-blocking mode, or the system refused to change the mode);  wrok: a write waits until it is done
  nraw     number of pieces sent outside TLS
  hs       a TLS handshake has succeeded;  shook  (kept when the session is released)  tlsfd  the session that was given the open connection
  tlshost  host and port the session was asked for;  hsbio  the session of the last handshake;  cert  the peer presented a certificate
  vres     result of the chain verification of that handshake
  up       the connection is established (connect succeeded at once, or later without a pending error)"""
from .terms import *
from .machine import *
from .interp import base_type

NET = {}


def net(*names):
    def d(f):
        for x in names:
            NET[x] = f
        return f
    return d


def static(I_, name, cls, vals):
    """one static object of the C library"""
    if name not in I_.heap:
        I_.heap[name] = Block(cls, "static", vals, True, {"t": cls})
        if I_.h0 is not None:
            I_.h0[name] = I_.heap[name].copy()
    return name


def errno(I_):
    bid = static(I_, "errno", "int", {(): I_.newI("errno", 0, 4095)})
    I_.rawset(bid, (), I_.newI("errno", 1, 4095))


@net("__errno_location")
def _(I_, fn, this, args, n):
    return Ptr(static(I_, "errno", "int", {(): I_.newI("errno", 0, 4095)}))


@net("strerror", "std::strerror", "X509_verify_cert_error_string")
def _(I_, fn, this, args, n):
    I_.rv(args[0])
    return I_.temp_cstr(I_.newS("errtext", NONUL, 4096))


@net("sleep")
def _(I_, fn, this, args, n):
    I_.ghost["waited"] = add(I_.ghost["waited"], I_.rv(args[0]))
    return I_.newI("left", 0, 1 << 31)


@net("htons")
def _(I_, fn, this, args, n):
    return ufI("htons", [I_.rv(args[0])])


@net("socket")
def _(I_, fn, this, args, n):
    fam, typ, proto = (I_.rv(a) for a in args)
    I_.oblige(eqI(I_.ghost["open"], I(0)), "the previous connection was closed (no descriptor is lost)")
    I_.oblige(And(eqI(fam, I(2)), eqI(typ, I(1))), "a TCP socket is created")
    if I_.choose2():
        errno(I_)
        return I(-1)
    fd = I_.newI("fd", 1, 1 << 30)
    I_.ghost["open"] = fd
    I_.ghost["up"] = FALSE
    I_.ghost["rdok"], I_.ghost["wrok"] = FALSE, TRUE
    return fd


def ours(I_, fd, what):
    I_.oblige(And(eqI(fd, I_.ghost["open"]), gt(fd, I(0))), "%s on the open connection" % what)



@net("close")
def _(I_, fn, this, args, n):
    fd = I_.rv(args[0])
    I_.oblige(Or(lt(fd, I(0)), And(eqI(fd, I_.ghost["open"]), gt(fd, I(0)))), "only the client's own open descriptor is closed")
    if not I_.decide(lt(fd, I(0))):
        I_.ghost["open"] = I(0)
        I_.ghost["wrok"] = TRUE
        return I(0)
    errno(I_)
    return I(-1)


@net("gethostbyname")
def _(I_, fn, this, args, n):
    nm = I_.cstr(I_.rv(args[0]))
    if I_.choose2():
        return NULL
    I_.heap["hostent"] = Block("hostent", "static", {("hostent::h_length",): I(4), ("hostent::h_addr_list",): Ptr("hostent.list"), ("hostent::h_addrtype",): I(2)}, True)
    I_.heap["hostent.list"] = Block("char *", "static", {(): Opq("hostaddr")}, True)
    I_.ghost["host"] = nm
    return Ptr("hostent")


@net("memcpy")
def _(I_, d, s, k):
    if not (isinstance(s, Opq) and s.tag == "hostaddr" and isinstance(d, Ptr) and d.path and d.path[-1].endswith("sin_addr")):
        raise Unsupported("memcpy of %r to %r" % (s, d))
    I_.oblige(And(ge(k, I(0)), le(k, I(4))), "memcpy stays inside the address")
    I_.rawset(d.bid, d.path, Opq("hostaddr") if I_.proves(eqI(k, I(4))) else UNINIT)
    return d


@net("connect")
def _(I_, fn, this, args, n):
    fd, a, k = (I_.rv(x) for x in args)
    ours(I_, fd, "connect")
    I_.oblige(I_.ghost["rdok"], "the wait for the connection is bounded: non-blocking mode")
    if not isinstance(a, Ptr):
        raise Unsupported("connect to %r" % (a,))
    b = I_.blk(a.bid, "address")
    f = {p[-1].split("::")[-1]: v for p, v in b.vals.items() if p}
    port = I_.ghost.get("want_port")
    ok = isinstance(f.get("sin_addr"), Opq) and f["sin_addr"].tag == "hostaddr" and I_.ghost.get("host") is I_.ghost.get("want_host")
    I_.oblige(B(ok), "the connection goes to the address of the configured server")
    if port is not None:
        v = f.get("sin_port", UNINIT)
        I_.oblige(eqI(v, ufI("htons", [I_.conv(port, "unsigned short")])) if isinstance(v, Term) else FALSE, "the connection goes to the configured port")
    v = f.get("sin_family", UNINIT)
    I_.oblige(eqI(v, I(2)) if isinstance(v, Term) else FALSE, "the address is an IPv4 address")
    I_.ghost["polled"] = FALSE
    if I_.choose2():
        I_.ghost["up"] = TRUE
        return I(0)
    I_.ghost["up"] = FALSE
    errno(I_)
    return I(-1)


@net("poll")
def _(I_, fn, this, args, n):
    p, k, t = (I_.rv(x) for x in args)
    I_.oblige(eqI(k, I(1)), "poll stays inside the array")
    b = I_.blk(p.bid, "poll")
    f = {q[-1].split("::")[-1]: (q, v) for q, v in b.vals.items() if q}
    ours(I_, f["fd"][1], "poll")
    w = I_.ghost.get("want_wait")
    I_.oblige(And(ge(t, I(0)), le(t, w) if w is not None else TRUE), "the wait is bounded by the configured timeout")
    r = I_.newI("poll", -1, 1)
    I_.ghost["polled"] = And(gt(r, I(0)), B(f["events"][1] is I(4)))     # POLLOUT
    errno(I_)
    return r


@net("fcntl")
def _(I_, fn, this, args, n):
    vs = [I_.rv(x) for x in args]
    ours(I_, vs[0], "fcntl")
    r = I_.newI("fcntl", -1, (1 << 31) - 1)
    errno(I_)
    g = I_.ghost
    bad = lt(r, I(0))
    if vs[1] is I(4):                                         # F_SETFL
        nb = nonblocking(I_, vs[2])
        g["rdok"], g["wrok"] = Or(bad, nb), Or(bad, Not(nb))
    elif vs[1] is I(3):                                       # F_GETFL
        g["rdok"], g["wrok"] = Or(bad, g["rdok"]), Or(bad, g["wrok"])
    else:
        raise Unsupported("fcntl command")
    return r


def nonblocking(I_, v):
    """the O_NONBLOCK bit of the flags"""
    while v.op in ("ite", "mod"):                             # conversions between integer types keep the low bits
        v = v.args[1] if v.op == "ite" else v.args[0]
    if v.op == "int":
        return B(bool(v.args[0] & 2048))
    if v.op == "ufI" and v.args[0] in ("bitor", "bitand"):
        isor = v.args[0] == "bitor"
        for x, y in (v.args[1], v.args[1][::-1]):
            if y.op == "int":
                if bool(y.args[0] & 2048) == isor:
                    return B(isor)
                return nonblocking(I_, x)
    return I_.newB("nonblock")


@net("getsockopt")
def _(I_, fn, this, args, n):
    fd, lvl, opt, p, l = (I_.rv(x) for x in args)
    ours(I_, fd, "getsockopt")
    r = I_.newI("getsockopt", -1, 0)
    if not (isinstance(p, Ptr) and isinstance(l, Ptr)):
        raise Unsupported("getsockopt")
    k = I_.load(I_.deref(l))
    I_.oblige(eqI(k, I(4)), "getsockopt stays inside its buffer")
    v = I_.newI("valopt", -(1 << 31), (1 << 31) - 1)
    I_.store(I_.deref(p), v)
    I_.oblige(And(eqI(lvl, I(1)), eqI(opt, I(4))), "the pending error of the socket is asked for")
    I_.ghost["up"] = Or(I_.ghost["up"], And(I_.ghost["polled"], ge(r, I(0)), eqI(v, I(0))))
    errno(I_)
    return r


@net("shutdown")
def _(I_, fn, this, args, n):
    ours(I_, I_.rv(args[0]), "shutdown")
    I_.rv(args[1])
    return I_.newI("shutdown", -1, 0)


# ------------------------------------------------------------ data
@net("send")
def _(I_, fn, this, args, n):
    fd, p, k, fl = (I_.rv(x) for x in args)
    ours(I_, fd, "send")
    whole(I_)
    b = I_.bytes_at(p)
    I_.oblige(And(ge(k, I(0)), le(k, length(b))), "send reads inside the buffer")
    I_.oblige(eqI(fl, I(0x4000)), "a connection closed by the peer does not end the process")
    if I_.choose2():
        errno(I_)
        I_.ghost["clean"] = FALSE
        return I(-1)
    r = I_.newI("sent", 0)
    I_.assume(le(r, k))
    sent(I_, I_.sub(b, I(0), r))
    I_.ghost["nraw"] = add(I_.ghost["nraw"], I(1))
    return r


def sent(I_, s):
    if I_.ghost["clean"] is not FALSE:
        I_.ghost["tx"] = cat(I_.ghost["tx"], s)


def received(I_, p, k, what):
    """a successful read of up to k bytes into p: the number read"""
    if not isinstance(p, Ptr):
        raise Unsupported("%s into %r" % (what, p))
    r = I_.newI("got", 1)
    I_.assume(le(r, k))
    s = svar(I_.fresh("rx"))
    I_.assume(eqI(length(s), r))
    I_.lib.write_bytes(I_, p, s)
    I_.ghost["rx"] = cat(I_.ghost["rx"], I_.nulpre(s))
    I_.ghost["rxraw"] = cat(I_.ghost["rxraw"], s)
    return r


def room(I_, p, k, what):
    if not isinstance(p, Ptr):
        raise Unsupported("%s into %r" % (what, p))
    if p.bid is None:
        I_.fail("%s into a null pointer" % what)
    b = I_.blk(p.bid, what)
    v = b.vals.get(p.path)
    if not isinstance(v, CharArr):
        raise Unsupported("%s into %r" % (what, v))
    I_.oblige(And(ge(p.off, I(0)), ge(k, I(0)), le(add(p.off, k), length(v.s))), "%s stays inside its buffer" % what)


def prompt(I_):
    I_.oblige(I_.ghost["rdok"], "the wait for the server is bounded: the socket is read in non-blocking mode")


def whole(I_):
    I_.oblige(I_.ghost["wrok"], "the socket is written in blocking mode")


@net("recv")
def _(I_, fn, this, args, n):
    fd, p, k, fl = (I_.rv(x) for x in args)
    ours(I_, fd, "recv")
    prompt(I_)
    room(I_, p, k, "recv")
    c = I_.choose(3)
    if c == 0:
        errno(I_)
        return I(-1)
    if c == 1:
        return I(0)
    return received(I_, p, k, "recv")


# ------------------------------------------------------------ TLS
def bio(I_, p, what):
    """the live BIO at p"""
    if isinstance(p, Ptr) and p.bid is None:
        return None
    if not isinstance(p, Ptr):
        if isinstance(p, Rec) and p.kind == "deadptr":
            I_.fail("%s of a TLS connection that has been released" % what)
        raise Unsupported("%s of %r" % (what, p))
    b = I_.blk(p.bid, what)
    if b.cls not in ("BIO", "CTX"):
        raise Unsupported("%s of %r" % (what, p))
    return p.bid


@net("OPENSSL_init_ssl", "OPENSSL_init_crypto")
def _(I_, fn, this, args, n):
    for a in args:
        I_.rv(a)
    return I_.newI("init", 0, 1)


@net("TLS_client_method")
def _(I_, fn, this, args, n):
    return Opq("tls_method")


@net("SSL_CTX_new")
def _(I_, fn, this, args, n):
    m = I_.rv(args[0])
    I_.oblige(B(isinstance(m, Opq) and m.tag == "tls_method"), "the TLS context uses the TLS client method")
    if I_.choose2():
        return NULL
    return Ptr(I_.alloc("CTX", "new"))


@net("SSL_CTX_free")
def _(I_, fn, this, args, n):
    b = bio(I_, I_.rv(args[0]), "release")
    if b is not None:
        I_.kill(b)


@net("BIO_new_ssl_connect")
def _(I_, fn, this, args, n):
    c = bio(I_, I_.rv(args[0]), "use")
    I_.oblige(B(c is not None), "the TLS context exists")
    if I_.choose2():
        return NULL
    I_.ghost["hs"] = FALSE
    b = I_.alloc("BIO", "new")
    I_.heap[b].meta["ctx"] = c
    return Ptr(b)


@net("BIO_free_all", "BIO_free")
def _(I_, fn, this, args, n):
    b = bio(I_, I_.rv(args[0]), "release")
    if b is not None:
        I_.kill(b)
        I_.ghost["hs"] = FALSE


@net("BIO_ctrl")
def _(I_, fn, this, args, n):
    p, cmd, num, arg = (I_.rv(x) for x in args)
    b = bio(I_, p, "use")
    I_.oblige(B(b is not None), "the TLS connection exists")
    if cmd.op != "int":
        raise Unsupported("BIO_ctrl command")
    cmd = cmd.args[0]
    if cmd == 110:                                            # BIO_C_GET_SSL
        I_.store(I_.deref(arg), Opq("ssl:" + b))
        return I(1)
    if cmd == 100:                                            # BIO_C_SET_CONNECT (host:port)
        t = I_.cstr(arg)
        I_.ghost["tlshost"] = t
        return I(1)
    if cmd == 101:                                            # BIO_C_DO_STATE_MACHINE: connect, handshake
        whole(I_)
        r = I_.newI("handshake", -1, 1)
        ok = ge(r, I(1))
        I_.ghost["hs"] = ok
        I_.ghost["shook"] = ok
        I_.ghost["cert"] = I_.newB("cert")
        I_.ghost["vres"] = I_.newI("vres", 0, 200)
        I_.ghost["hsbio"] = b
        return r
    raise Unsupported("BIO_ctrl command %d" % cmd)


def ssl(I_, v, what):
    if not (isinstance(v, Opq) and v.tag.startswith("ssl:")):
        if isinstance(v, Ptr) and v.bid is None:
            I_.fail("%s of a TLS session that does not exist" % what)
        raise Unsupported("%s of %r" % (what, v))
    b = v.tag[4:]
    x = I_.heap.get(b)
    I_.oblige(B(x is not None and x.alive), "%s: the TLS session has not been released" % what)
    return b


@net("SSL_set_fd")
def _(I_, fn, this, args, n):
    s, fd = (I_.rv(x) for x in args)
    b = ssl(I_, s, "SSL_set_fd")
    ours(I_, fd, "the TLS session runs")
    I_.ghost["tlsfd"] = b
    return I_.newI("setfd", 0, 1)


@net("SSL_ctrl")
def _(I_, fn, this, args, n):
    vs = [I_.rv(x) for x in args]
    ssl(I_, vs[0], "SSL_ctrl")
    return I_.newI("ctrl")


@net("SSL_CTX_set_default_verify_paths")
def _(I_, fn, this, args, n):
    c = bio(I_, I_.rv(args[0]), "use")
    I_.oblige(B(c is not None), "the TLS context exists")
    r = I_.newI("paths", 0, 1)
    return r


@net("SSL_get_verify_result")
def _(I_, fn, this, args, n):
    ssl(I_, I_.rv(args[0]), "SSL_get_verify_result")
    return ite(I_.ghost["hs"], I_.ghost["vres"], I(0))


@net("SSL_get1_peer_certificate")
def _(I_, fn, this, args, n):
    ssl(I_, I_.rv(args[0]), "SSL_get1_peer_certificate")
    if not I_.decide(And(I_.ghost["hs"], I_.ghost["cert"])):
        return NULL
    return Ptr(I_.alloc("X509", "new"))


@net("X509_free")
def _(I_, fn, this, args, n):
    p = I_.rv(args[0])
    if isinstance(p, Ptr) and p.bid is not None:
        I_.blk(p.bid, "release")
        I_.kill(p.bid)


@net("ERR_get_error")
def _(I_, fn, this, args, n):
    return I_.newI("sslerr", 0, (1 << 64) - 1)


@net("BIO_puts")
def _(I_, fn, this, args, n):
    p, s = (I_.rv(x) for x in args)
    b = bio(I_, p, "write")
    whole(I_)
    t = I_.cstr(s)
    if b is None or I_.choose2():
        I_.ghost["clean"] = FALSE
        return I_.newI("puts", -2, 0)
    sent(I_, t)
    r = I_.newI("puts", 1, (1 << 31) - 1)
    return r


@net("BIO_read")
def _(I_, fn, this, args, n):
    p, d, k = (I_.rv(x) for x in args)
    b = bio(I_, p, "read")
    prompt(I_)
    room(I_, d, k, "BIO_read")
    if b is None or I_.choose2():
        return I_.newI("read", -2, 0)
    return received(I_, d, k, "BIO_read")
