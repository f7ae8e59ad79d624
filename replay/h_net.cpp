// Drives the real clients against a scripted server (the operating system's
// socket calls are wrapped, the TLS library is replaced) and compares what
// happens on the wire, the results and the resources with a reference model of
// the protocol written from the properties.
#include "h.hpp"
#include <algorithm>
#include <cerrno>
#include <deque>
#include <memory>
#include <fstream>
#include <stdexcept>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "serveroptionsanalyzer.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/htmlmessage.hpp"
using namespace jed_utils;
using H::q; using H::u; using H::coin; using H::eqs; using H::eqi; using H::ck;
typedef std::string str;
template <class T> using vec = std::vector<T>;

// a finding counts for the properties it contradicts
static void V(const str &props, const str &msg) { if (props.find(H::prop) != str::npos) H::fail(msg); }

// ------------------------------------------------------------------ script
struct Rep {
    int mode = 0;                       // 0 reply, 1 silence, 2 the server closes the connection
    bool eof = false;                   // the server closes the connection right after the reply
    vec<vec<str>> groups;               // what arrives together; each group in pieces
};
static Rep R(const str &s) { Rep r; r.groups = {{s}}; return r; }
static Rep R(int code, const str &t = "ok") { return R(std::to_string(code) + " " + t + "\r\n"); }

static int codeof(const str &s) {
    if (s.size() < 3 || s[0] < '1' || s[0] > '9' || s[1] < '0' || s[1] > '9' || s[2] < '0' || s[2] > '9') return -1;
    return atoi(s.substr(0, 3).c_str());
}
static str joinv(const vec<str> &v) { str r; for (auto &s : v) r += s; return r; }
static bool complete(const str &s) {
    str t = s.size() >= 2 && s.substr(s.size() - 2) == "\r\n" ? s.substr(0, s.size() - 2) : s;
    size_t p = t.rfind("\r\n");
    return (p == str::npos ? t : t.substr(p + 2)).compare(0, 4, "250 ") == 0;
}
static str stuff(const str &s) { str r; for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 3, "\r\n.") == 0) { r += "\r\n.."; i += 2; } else r += s[i]; } return r; }
static str b64(const str &s) {
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    str r;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
        r += A[v >> 18]; r += A[v >> 12 & 63]; r += i + 1 < s.size() ? A[v >> 6 & 63] : '='; r += i + 2 < s.size() ? A[v & 63] : '=';
    }
    return r;
}
struct Opts { bool any = false, f[6] = {}; };
static Opts authopts(const str &ehlo) {
    static const char *N[] = {"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH"};
    Opts o;
    size_t i = 0;
    for (;;) {
        size_t j = ehlo.find("\r\n", i);
        str l = ehlo.substr(i, j == str::npos ? str::npos : j - i);
        if (l.compare(0, 8, "250-AUTH") == 0 || l.compare(0, 8, "250 AUTH") == 0) {
            o.any = true;
            size_t a = 0;
            for (;;) {
                size_t b = l.find(' ', a);
                str t = l.substr(a, b == str::npos ? str::npos : b - a);
                for (int k = 0; k < 6; k++) if (t == N[k]) o.f[k] = true;
                if (b == str::npos) break;
                a = b + 1;
            }
            return o;
        }
        if (j == str::npos) return o;
        i = j + 2;
    }
}

// -------------------------------------------------------------- connections
struct Line { str text; bool tls; };
struct Conn {
    // script
    bool sockfail = false, hostfail = false; int fcntlfail = 0;
    int cmode = 0; vec<int> polls; bool optfail = false; int valopt = 0;      // cmode 0 at once, 1 in progress, 2 refused
    Rep greet; std::map<str, vec<Rep>> rep;
    long limit = -1; size_t maxsend = 1 << 30; bool eofmode = false;
    bool ctxfail = false, biofail = false, pathfail = false, connfail = false, hsfail = false, nocert = false; int vres = 0;
    // what the server saw
    vec<Line> cmds; vec<str> data; vec<bool> datatls;
    int fd = -1; bool open = false, nb = false, closedbypeer = false, broken = false; int nfcntl = 0, npoll = 0, closes = 0;
    bool tls = false; long total = 0; int st = 0; str buf; std::map<str, int> cnt;
    std::deque<vec<str>> out; size_t outk = 0; bool gap = false; bool asked = false;
    // reference
    vec<Line> xcmds; vec<str> xdata; long xtotal = 0; bool xbroken = false; std::map<str, int> xcnt; bool xopen = false, xtls = false, xsilent = false; int xst = 0;
    const Rep &next(std::map<str, int> &c, const str &verb) {
        auto &v = rep[verb];
        if (v.empty()) v.push_back(verb == "DATA" ? R(354) : verb == "EHLO1" || verb == "EHLO2" ? R(250) : verb == "AUTHLOGIN" || verb == "USER" ? R(334) : verb == "AUTHPLAIN" || verb == "PASS" || verb == "XOAUTH" ? R(235) : verb == "STARTTLS" ? R(220) : verb == "QUIT" ? R(221) : R(250));
        int k = c[verb]++;
        return v[std::min<size_t>(k, v.size() - 1)];
    }
    void answer(const Rep &r) {
        if (!out.empty() && outk >= out[0].size()) { out.pop_front(); outk = 0; }
        if (r.mode == 0) for (auto &g : r.groups) out.push_back(g);
        if (r.mode == 2) closedbypeer = true;
        if (r.eof) closedbypeer = broken = true;
    }
};
static std::deque<Conn> conns;
static int curconn = -1;
static int openfds = 0, bios = 0, ctxs = 0, certs = 0;
static str want_host; static unsigned want_port = 0, want_tmo = 0;
static long slept = 0;
static str lasthost;
static const int FD0 = 100000;
static Conn *cur() { return curconn >= 0 && curconn < (int)conns.size() ? &conns[curconn] : nullptr; }
static Conn *byfd(int fd, const char *what) {
    if (fd < FD0 || fd - FD0 >= (int)conns.size() || !conns[fd - FD0].open) { V("P20 P12 P13 P19 P23", str(what) + " on descriptor " + std::to_string(fd) + " which is not the open connection"); errno = EBADF; return nullptr; }
    return &conns[fd - FD0];
}

static void serve(Conn &c) {
    for (;;) {
        if (c.st == 1) {
            size_t i = c.buf.find("\r\n.\r\n");
            if (i == str::npos) return;
            c.data.push_back(c.buf.substr(0, i + 5)); c.datatls.push_back(c.tls);
            c.buf.erase(0, i + 5); c.st = 0;
            c.answer(c.next(c.cnt, "END"));
            continue;
        }
        size_t i = c.buf.find("\r\n");
        if (i == str::npos) return;
        str l = c.buf.substr(0, i);
        c.buf.erase(0, i + 2);
        c.cmds.push_back({l, c.tls});
        str up = l; for (auto &ch : up) ch = toupper(ch);
        str v = "OTHER";
        if (c.st == 2) v = "USER";
        else if (c.st == 3) v = "PASS";
        else if (up.compare(0, 4, "EHLO") == 0) v = c.tls ? "EHLO2" : "EHLO1";
        else if (up == "STARTTLS") v = "STARTTLS";
        else if (up.compare(0, 11, "AUTH PLAIN ") == 0) v = "AUTHPLAIN";
        else if (up == "AUTH LOGIN") v = "AUTHLOGIN";
        else if (up.compare(0, 13, "AUTH XOAUTH2 ") == 0) v = "XOAUTH";
        else if (up.compare(0, 4, "MAIL") == 0) v = "MAIL";
        else if (up.compare(0, 4, "RCPT") == 0) v = "RCPT";
        else if (up == "DATA") v = "DATA";
        else if (up == "QUIT") v = "QUIT";
        const Rep &r = c.next(c.cnt, v);
        int code = r.mode == 0 && !r.groups.empty() ? codeof(joinv(r.groups[0])) : -1;
        c.st = v == "DATA" && code == 354 ? 1 : v == "AUTHLOGIN" && code == 334 ? 2 : v == "USER" && code == 334 ? 3 : 0;
        c.answer(r);
    }
}

// ------------------------------------------------------------ system calls
extern "C" {
int __real_close(int);
int __wrap_socket(int d, int t, int) {
    if (d != AF_INET || t != SOCK_STREAM) V("P20", "socket() arguments");
    if (openfds > 0 && cur() && cur()->open) V("P20", "a new connection is opened while the previous descriptor was not closed");
    curconn++;
    if (curconn >= (int)conns.size()) { conns.emplace_back(); }
    Conn &c = conns[curconn];
    if (c.sockfail) { errno = EMFILE; return -1; }
    c.open = true; c.nb = false; c.fd = FD0 + curconn; openfds++;
    c.answer(c.greet.groups.empty() && c.greet.mode == 0 ? R(220) : c.greet);
    return c.fd;
}
struct hostent *__wrap_gethostbyname(const char *n) {
    static struct hostent h; static char addr[4] = {10, 1, 2, 3}; static char *l[2] = {addr, nullptr};
    lasthost = n;
    if (cur() && cur()->hostfail) return nullptr;
    h.h_length = 4; h.h_addrtype = AF_INET; h.h_addr_list = l; h.h_name = addr; return &h;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) {
    Conn *c = byfd(fd, "connect"); if (!c) return -1;
    const sockaddr_in *s = (const sockaddr_in *)a;
    if (n < sizeof *s || s->sin_family != AF_INET || ntohs(s->sin_port) != (uint16_t)want_port || memcmp(&s->sin_addr, "\x0a\x01\x02\x03", 4) || lasthost != want_host) V("P20 P18", "the connection goes to another server or port than configured");
    if (!c->nb) V("P12 P20", "connect may block for ever: the socket is in blocking mode");
    if (c->cmode == 0) return 0;
    errno = c->cmode == 1 ? EINPROGRESS : ECONNREFUSED;
    return -1;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    if (n != 1) V("P20", "poll arguments");
    Conn *c = byfd(p->fd, "poll"); if (!c) return -1;
    if (t < 0) V("P12 P20", "poll waits for ever");
    if ((long)t > (long)want_tmo * 1000) V("P12", "poll waits longer than the command timeout");
    int r = c->npoll < (int)c->polls.size() ? c->polls[c->npoll] : 1; c->npoll++;
    if (r == -1) { errno = EINTR; return -1; }
    if (r == -2) { errno = EBADF; return -1; }
    p->revents = r ? POLLOUT : 0;
    return r;
}
int __wrap_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) {
    Conn *c = cur(); int r = c && c->npoll < (int)c->polls.size() ? c->polls[c->npoll] : 1; if (c) c->npoll++;
    if (r < 0) { errno = r == -1 ? EINTR : EBADF; return -1; }
    return r;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (fd < FD0) return syscall(SYS_fcntl, fd, cmd, a);
    Conn *c = byfd(fd, "fcntl"); if (!c) return -1;
    c->nfcntl++;
    if (c->nfcntl == c->fcntlfail) { errno = EINVAL; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (c->nb ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { c->nb = a & O_NONBLOCK; return 0; }
    return 0;
}
int __wrap_getsockopt(int fd, int, int, void *p, socklen_t *l) {
    Conn *c = byfd(fd, "getsockopt"); if (!c) return -1;
    if (c->optfail) { errno = EINVAL; return -1; }
    if (*l >= sizeof(int)) { int v = c->valopt; memcpy(p, &v, sizeof v); *l = sizeof v; }
    return 0;
}
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_shutdown(int, int) { return 0; }
unsigned __wrap_sleep(unsigned n) {
    slept += n;
    if (slept > (long)std::max(1u, want_tmo)) V("P12", "the wait for a silent server exceeds the command timeout");
    return 0;
}
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) {
    slept = 0;
    Conn *c = byfd(fd, "send"); if (!c) return -1;
    volatile char sink = 0; for (size_t i = 0; i < n; i += 64) sink = sink + ((const char *)p)[i];
    if (n) sink = sink + ((const char *)p)[n - 1];
    if (!(fl & MSG_NOSIGNAL)) V("P13", "a connection closed by the peer ends the process (SIGPIPE)");
    if (c->nb) V("P13 P12", "the socket is written in non-blocking mode");
    if (c->tls) V("P19 P14", "data is sent outside TLS although TLS was established: " + q(str((const char *)p, n)));
    if (c->broken || (c->limit >= 0 && c->total >= c->limit && n > 0)) { c->broken = true; errno = EPIPE; return -1; }
    size_t k = std::min(n, c->maxsend);
    if (c->limit >= 0) k = std::min<size_t>(k, c->limit - c->total);
    c->total += k;
    c->buf += str((const char *)p, k);
    serve(*c);
    return k;
}
// bytes available to the client; -1 none
static ssize_t take(Conn &c, char *p, size_t n, bool tls) {
    while (!c.out.empty() && c.outk >= c.out[0].size()) { c.out.pop_front(); c.outk = 0; if (!tls) { return c.out.empty() && c.closedbypeer ? 0 : -1; } }
    if (c.out.empty()) return c.closedbypeer ? 0 : -1;
    str &s = c.out[0][c.outk];
    size_t k = std::min(n, s.size());
    memcpy(p, s.data(), k);
    s.erase(0, k);
    if (s.empty()) c.outk++;
    slept = 0;
    return k;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int) {
    Conn *c = byfd(fd, "recv"); if (!c) return -1;
    if (c->tls) V("P19", "a reply is read outside TLS although TLS was established");
    memset(p, 0x5a, n);
    ssize_t r = take(*c, (char *)p, n, false);
    if (r < 0) { if (!c->nb) V("P12", "a silent server blocks the client for ever"); errno = EAGAIN; }
    return r;
}
int __wrap_close(int fd) {
    if (fd < FD0) return __real_close(fd);
    Conn *c = byfd(fd, "close"); if (!c) return -1;
    c->open = false; c->closes++; openfds--;
    return 0;
}
// ---- TLS library
struct FBio { int conn; bool hs; };
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS *) { return 1; }
int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS *) { return 1; }
const SSL_METHOD *TLS_client_method(void) { return (const SSL_METHOD *)"m"; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *) { if (cur() && cur()->ctxfail) return nullptr; ctxs++; return (SSL_CTX *)calloc(1, 8); }
void SSL_CTX_free(SSL_CTX *p) { if (p) { ((volatile char *)p)[0] = 1; ctxs--; free(p); } }
BIO *BIO_new_ssl_connect(SSL_CTX *c) { ((volatile char *)c)[0] = 2; if (cur() && cur()->biofail) return nullptr; bios++; FBio *b = (FBio *)calloc(1, sizeof(FBio)); b->conn = -1; return (BIO *)b; }
void BIO_free_all(BIO *p) { if (p) { ((FBio *)p)->hs = false; bios--; free(p); } }
int BIO_free(BIO *p) { BIO_free_all(p); return 1; }
int SSL_set_fd(SSL *s, int fd) { Conn *c = byfd(fd, "SSL_set_fd"); ((FBio *)s)->conn = c ? fd - FD0 : -1; return 1; }
long SSL_ctrl(SSL *s, int, long, void *) { ((volatile FBio *)s)->hs = ((FBio *)s)->hs; return 1; }
int SSL_CTX_set_default_verify_paths(SSL_CTX *c) { ((volatile char *)c)[0] = 3; return cur() && cur()->pathfail ? 0 : 1; }
long SSL_get_verify_result(const SSL *s) { const FBio *b = (const FBio *)s; return b->hs && cur() ? cur()->vres : 0; }
X509 *SSL_get1_peer_certificate(const SSL *s) { const FBio *b = (const FBio *)s; if (!b->hs || (cur() && cur()->nocert)) return nullptr; certs++; return (X509 *)calloc(1, 8); }
void X509_free(X509 *p) { if (p) { certs--; free(p); } }
const char *X509_verify_cert_error_string(long) { return "certificate problem"; }
unsigned long ERR_get_error(void) { return 12345; }
long BIO_ctrl(BIO *p, int cmd, long, void *arg) {
    FBio *b = (FBio *)p; Conn *c = cur();
    if (cmd == BIO_C_GET_SSL) { *(SSL **)arg = (SSL *)b; return 1; }
    if (cmd == BIO_C_SET_CONNECT) { if (arg && str((char *)arg) != want_host + ":" + std::to_string(want_port)) V("P19 P20", "TLS is negotiated for another server: " + q((char *)arg)); return 1; }
    if (cmd == BIO_C_DO_STATE_MACHINE) {
        if (b->hs) return 1;
        if (b->conn < 0 || !c) return -1;
        if (c->connfail) return -1;
        if (c->hsfail) { if (c->cnt["hs"]++ > 0) return -1; return 1; }
        b->hs = true; c->tls = true; return 1;
    }
    return 1;
}
int BIO_puts(BIO *p, const char *s) {
    slept = 0;
    if (!p) return -1;
    FBio *b = (FBio *)p; Conn *c = b->conn >= 0 ? byfd(FD0 + b->conn, "BIO_puts") : nullptr;
    size_t n = strlen(s);
    if (!c || !b->hs) { V("P19 P13", "data is written to TLS before the handshake"); return -1; }
    if (c->nb) V("P13 P12", "the socket is written in non-blocking mode");
    if (c->broken || (c->limit >= 0 && c->total + (long)n > c->limit)) { c->broken = true; return c->maxsend < 10 ? 0 : -1; }
    c->total += n; c->buf += s; serve(*c);
    return (int)n;
}
int BIO_write(BIO *p, const void *d, int n) { str s((const char *)d, n); return BIO_puts(p, s.c_str()); }
int BIO_read(BIO *p, void *d, int n) {
    if (!p) return -1;
    FBio *b = (FBio *)p; Conn *c = b->conn >= 0 ? byfd(FD0 + b->conn, "BIO_read") : nullptr;
    if (!c || !b->hs) return -1;
    memset(d, 0x5a, n);
    ssize_t r = take(*c, (char *)d, n, true);
    if (r < 0 && !c->nb) V("P12", "a silent server blocks the client for ever");
    return (int)r;
}
}

// ------------------------------------------------------------------ messages
struct Addr { str mail, name; };
struct Att { str file, name, cid, content; bool ok; };
struct Msg { Addr from; vec<Addr> to, cc, bcc; str subj, body; vec<Att> att; bool html; };
static str astr(const Addr &a) { return a.name.empty() ? a.mail : a.name + " <" + a.mail + ">"; }
static str alist(const vec<Addr> &v) { str r; for (auto &a : v) r += (r.empty() ? "" : ", ") + astr(a); return r; }
static str mimeof(const str &fn);
static const vec<std::pair<str, str>> MIME = {
#include "mime.inc"
};
static str mimeof(const str &fn) {
    size_t p = fn.rfind('.');
    str e = p == str::npos ? fn : fn.substr(p + 1);
    for (auto &c : e) c = toupper(c);
    for (auto &m : MIME) if (m.first == e) return m.second;
    return "";
}
static str atext(const vec<Att> &v) {
    str r;
    for (auto &a : v) {
        r += "\r\n--sep\r\nContent-Type: " + mimeof(a.file) + "; file=\"" + a.name + "\"\r\n";
        if (!a.cid.empty()) r += "X-Attachment-Id: " + a.cid + "\r\nContent-ID: <" + a.cid + ">\r\nContent-Disposition: attachment; filename=\"" + a.name + "\"\r\n";
        else r += "Content-Disposition: Inline; filename=\"" + a.name + "\"\r\n";
        r += "Content-Transfer-Encoding: base64\r\n\r\n" + (a.ok ? b64(a.content) : "");
    }
    return r + "\r\n--sep--";
}
static vec<str> headerparts(const Msg &m) {
    vec<str> h;
    h.push_back("From: " + astr(m.from) + "\r\n");
    if (m.to.size()) h.push_back("To: " + alist(m.to) + "\r\n");
    if (m.cc.size()) h.push_back("Cc: " + alist(m.cc) + "\r\n");
    h.push_back("Subject: " + m.subj + "\r\n");
    h.push_back("Content-Type: multipart/related; boundary=sep\r\n\r\n");
    return h;
}
static str bodytext(const Msg &m) {
    str b = str("--sep\r\nContent-Type: ") + (m.html ? "text/html" : "text/plain") + "; charset=UTF-8\r\n\r\n" + m.body + "\r\n";
    if (m.att.size()) b += atext(m.att);
    return stuff(b);
}

// ---------------------------------------------------------- reference client
enum Kind { PLAIN, OPP, FORCED };
struct Cfg { str host = "smtp.x.com"; unsigned port = 25; bool batch = false; unsigned tmo = 5; bool cred = false; str user, pass; int meth = 0; bool self = false; };
struct Ref {
    Kind kind; Cfg c; bool connected = false; int conn = -1; bool raw = false; Opts opts; str tags, stage;
    Ref(Kind k) : kind(k) {}
    Conn &k() { return conns[conn]; }
    bool tlsch() { return kind != PLAIN && k().xtls && !raw; }
    bool write(const str &s, bool islines = true) {
        Conn &x = k();
        if (x.xbroken) return false;
        if (x.limit >= 0 && x.xtotal + (long)s.size() > x.limit) { x.xbroken = true; return false; }
        x.xtotal += s.size();
        if (islines) x.xcmds.push_back({s.substr(0, s.size() - 2), tlsch()});
        return true;
    }
    void close() {
        if (conn >= 0 && k().xopen) {
            if (c.batch && connected) write("QUIT\r\n");
            k().xopen = false; k().xtls = false;
        }
        connected = false;
    }
    str last;
    str take(const Rep &r, size_t g, bool tls) {
        last = "";
        if (r.mode) return "";
        if (tls) { size_t n = 0; for (auto &gr : r.groups) for (auto &p : gr) if (n++ == g) return last = p; return ""; }
        return last = g < r.groups.size() ? joinv(r.groups[g]) : "";
    }
    int code(const str &verb, const str &line, int err, int tmo, const Rep **rr = nullptr) {
        bool tls = tlsch();
        if (c.tmo == 0 && tls) { }
        if (!write(line + "\r\n")) { close(); return err; }
        const Rep &r = k().next(k().xcnt, verb);
        if (rr) *rr = &r;
        if (r.eof) k().xbroken = true;
        int cd = codeof(take(r, 0, tls));
        if (c.tmo == 0 && tls) cd = -1;
        if (cd < 0) { close(); return tmo; }
        return cd;
    }
    int ehlo(const str &verb, int err, int tmo) {
        stage = verb == "EHLO1" ? "P09 P12" : "P09 P12 P19";
        bool tls = tlsch();
        const Rep *r = nullptr;
        int cd = code(verb, "ehlo localhost", err, tmo, &r);
        if (cd != 250) return cd;
        str t = last;
        for (size_t g = 1; !complete(t); g++) {
            str s = take(*r, g, tls);
            int d = codeof(s);
            if (d < 0) return tmo;
            if (d != 250) return d;
            t += s;
        }
        opts = authopts(t);
        last = t;
        return 250;
    }
    int auth() {
        stage = "P14 P10";
        if (!opts.any) return -84;
        if (opts.f[0] && (c.meth == 0 || c.meth == 1)) return code("AUTHPLAIN", "AUTH PLAIN " + b64(str(1, 0) + c.user + str(1, 0) + c.pass), -81, -82);
        if (opts.f[1] && (c.meth == 0 || c.meth == 2)) {
            if (code("AUTHLOGIN", "AUTH LOGIN", -81, -82) != 334) return -81;
            if (code("USER", b64(c.user), -81, -82) != 334) return -81;
            return code("PASS", b64(c.pass), -81, -82);
        }
        if (opts.f[2] && (c.meth == 0 || c.meth == 3)) return code("XOAUTH", "AUTH XOAUTH2 " + b64("user=" + c.user + "\001auth=Bearer " + c.pass + "\001\001"), -81, -82);
        return -84;
    }
    int starttls() {
        stage = "P19";
        Conn &x = k();
        if (x.ctxfail) return -51;
        if (x.biofail) return -52;
        if (x.pathfail) return -54;
        if (x.connfail) return -55;
        if (x.hsfail) return -56;
        x.xtls = true;
        if (x.nocert) return -57;
        if (x.vres != 0 && !(x.vres == 18 && c.self)) return -58;
        return 0;
    }
    int greeting() {
        stage = "P12 P09";
        Conn &x = k();
        if (x.greet.eof) x.xbroken = true;
        if (c.tmo == 0) return -3;
        if (x.greet.mode) return -3;
        if (x.greet.groups.empty()) return 220;
        str s = x.greet.groups[0][0];
        return codeof(s.substr(0, s.size() - 1));
    }
    int session() {
        stage = "P20 P12";
        conn = ++xconn;
        if (conn >= (int)conns.size()) conns.emplace_back();
        Conn &x = k();
        if (x.sockfail) return -1;
        x.xopen = true;
        if (x.hostfail) return -6;
        if (x.fcntlfail == 1) return -7;
        if (x.fcntlfail == 2) return -8;
        if (x.cmode == 2) return -2;
        if (x.cmode == 1) {
            size_t i = 0;
            for (;; i++) {
                int p = i < x.polls.size() ? x.polls[i] : 1;
                if (p == -1) continue;
                if (p == -2) return -2;
                if (p == 0) return -3;
                break;
            }
            if (x.optfail) return -9;
            if (x.valopt) return -10;
        }
        if (x.fcntlfail == 3) return -7;
        if (x.fcntlfail == 4) return -8;
        return 0;
    }
    int establish() {
        raw = false;
        int r;
        if ((r = session())) return r;
        if (kind == FORCED) {
            if ((r = starttls())) return r;
            if ((r = greeting()) != 220) return r;
            if ((r = ehlo("EHLO2", -59, -60)) != 250) return r;
        } else {
            if ((r = greeting()) != 220) return r;
            if ((r = ehlo("EHLO1", -20, -21)) != 250) return r;
            if (kind == OPP) {
                if (last.find("250-STARTTLS") == str::npos && last.find("250 STARTTLS") == str::npos) { raw = true; return 0; }
                stage = "P19";
                if ((r = code("STARTTLS", "STARTTLS", -30, -31)) != 220) return r;
                if ((r = starttls())) return r;
                if ((r = ehlo("EHLO2", -59, -60)) != 250) return r;
            }
        }
        if (c.cred && (r = auth()) != 235) return r;
        return 0;
    }
    int send(const Msg &m) {
        int r = send1(m);
        if (r) close();                                     // a failed message never leaves a half-open transaction behind
        return r;
    }
    int send1(const Msg &m) {
        int r;
        if (!connected) {
            if ((r = establish())) { close(); return r; }
        }
        connected = true;
        stage = "P15";
        str f[3] = {"MAIL FROM: <" + m.from.mail + ">", "MAIL FROM: <" + m.from.name + " " + m.from.mail + ">", "MAIL FROM: " + m.from.mail};
        for (auto &x : f) { r = code("MAIL", x, -85, -86); if (r != 501) break; }
        if (r != 250) return r;
        for (auto *l : {&m.to, &m.cc, &m.bcc}) {
            int bad = 250;
            for (auto &a : *l) { if (bad < 0) break; r = code("RCPT", "RCPT TO: <" + a.mail + ">", -87, -88); if (r != 250) bad = r; }
            if (bad != 250) return bad;
        }
        stage = "P16 P15";
        if ((r = code("DATA", "DATA", -89, -90)) != 354) return r;
        stage = "P16 P17 P13";
        str data;
        auto h = headerparts(m);
        int errs[] = {-91, -92, -92, -93, -94}; size_t e = 0;
        for (size_t i = 0; i < h.size(); i++) {
            int err = h[i].compare(0, 5, "From:") == 0 && i == 0 ? -91 : i == h.size() - 1 ? -94 : i == h.size() - 2 ? -93 : -92;
            if (!write(h[i], false)) { close(); return err; }
            data += h[i];
        }
        (void)errs; (void)e;
        str b = bodytext(m);
        data += b;
        if (b.size() > 512) { for (size_t i = 0; i < b.size(); i += 512) if (!write(b.substr(i, 512), false)) { close(); return -95; } }
        else if (!write(b, false)) { close(); return -96; }
        if (!write("\r\n.\r\n", false)) { close(); return -97; }
        k().xdata.push_back(data + "\r\n.\r\n");
        {
            stage = "P18";
            const Rep &rp = k().next(k().xcnt, "END");
            if (rp.eof) k().xbroken = true;
            bool tls = tlsch();
            int cd = codeof(take(rp, 0, tls));
            if (c.tmo == 0 && tls) cd = -1;
            if (cd < 0) { close(); return -98; }
            if (cd != 250) return cd;
        }
        if (!c.batch) {
            stage = "P20";
            if (!write("QUIT\r\n")) { close(); return -99; }
            close();
        }
        return 0;
    }
    static int xconn;
};
int Ref::xconn = -1;

// ------------------------------------------------------------- real clients
struct Client {
    virtual ~Client() {}
    virtual int send(const Msg &) = 0;
    virtual void apply(const Cfg &, int what) = 0;
    virtual str log() = 0;
    virtual void check(const Cfg &, const str &when) = 0;
    virtual Client *copy() = 0;
    virtual Client *move() = 0;
    virtual void assign(Client &) = 0;
    virtual void massign(Client &) = 0;
};
// (the address check compiles a regular expression each time: keep the objects)
static const MessageAddress &A(const Addr &a) {
    static std::map<str, std::unique_ptr<MessageAddress>> m; auto &p = m[a.mail + "/" + a.name];
    if (!p) p.reset(new MessageAddress(a.mail.c_str(), a.name.c_str()));
    return *p;
}
static const cpp::MessageAddress &CA(const Addr &a) {
    static std::map<str, std::unique_ptr<cpp::MessageAddress>> m; auto &p = m[a.mail + "/" + a.name];
    if (!p) p.reset(new cpp::MessageAddress(a.mail, a.name));
    return *p;
}
template <class F> static int withmsg(const Msg &m, bool viacpp, F f) {
    if (viacpp) {
        vec<cpp::MessageAddress> to, cc, bcc; vec<cpp::Attachment> at;
        for (auto &a : m.to) to.push_back(CA(a)); for (auto &a : m.cc) cc.push_back(CA(a)); for (auto &a : m.bcc) bcc.push_back(CA(a));
        for (auto &a : m.att) at.push_back(cpp::Attachment(a.file, a.name, a.cid));
        if (m.html) { cpp::HTMLMessage x(CA(m.from), to, m.subj, m.body, cc, bcc, at); return f((HTMLMessage)x); }
        cpp::PlaintextMessage x(CA(m.from), to, m.subj, m.body, cc, bcc, at); return f((PlaintextMessage)x);
    }
    vec<MessageAddress> to, cc, bcc; vec<Attachment> at;
    for (auto &a : m.to) to.push_back(A(a)); for (auto &a : m.cc) cc.push_back(A(a)); for (auto &a : m.bcc) bcc.push_back(A(a));
    for (auto &a : m.att) at.push_back(Attachment(a.file.c_str(), a.name.c_str(), a.cid.c_str()));
    if (m.html) { HTMLMessage x(A(m.from), to.data(), to.size(), m.subj.c_str(), m.body.c_str(), cc.data(), cc.size(), bcc.data(), bcc.size(), at.data(), at.size()); return f(x); }
    PlaintextMessage x(A(m.from), to.data(), to.size(), m.subj.c_str(), m.body.c_str(), cc.data(), cc.size(), bcc.data(), bcc.size(), at.data(), at.size()); return f(x);
}
static str S(const char *p) { return p ? p : "(null)"; }
static str S(const str &p) { return p; }
template <class C> auto setself(C &c, bool v, int) -> decltype(c.setAcceptSelfSignedCert(v)) { c.setAcceptSelfSignedCert(v); }
template <class C> void setself(C &, bool, long) {}
template <class C> auto getself(C &c, bool, int) -> decltype(c.getAcceptSelfSignedCert()) { return c.getAcceptSelfSignedCert(); }
template <class C> bool getself(C &, bool v, long) { return v; }
template <class C, bool CPP> struct W : Client {
    C c;
    W(const Cfg &g) : c(g.host.c_str(), g.port) {}
    W(const C &o) : c(o) {}
    W(C &&o) : c(std::move(o)) {}
    int send(const Msg &m) override { return withmsg(m, CPP, [&](const Message &x) { return c.sendMail(x); }); }
    void cred(const Cfg &g) {
        if constexpr (CPP) { if (g.meth == 0 && coin()) c.setCredentials(cpp::Credential(g.user, g.pass)); else c.setCredentials(cpp::Credential(g.user, g.pass, (RecommendedAuthenticationMethod)g.meth)); }
        else { if (g.meth == 0) c.setCredentials(Credential(g.user.c_str(), g.pass.c_str())); else c.setCredentials(Credential(g.user.c_str(), g.pass.c_str(), (RecommendedAuthenticationMethod)g.meth)); }
    }
    void apply(const Cfg &g, int w) override {
        if (w & 1) c.setBatchMode(g.batch);
        if (w & 2) c.setCommandTimeout(g.tmo);
        if ((w & 4) && g.cred) cred(g);
        if (w & 8) setself(c, g.self, 0);
        if (w & 16) c.setServerName(g.host.c_str());
        if (w & 32) c.setServerPort(g.port);
    }
    str log() override { return S(c.getCommunicationLog()); }
    void check(const Cfg &g, const str &when) override {
        const str P = CPP ? "P08 P22" : "P08";
        auto eq = [&](const str &a, const str &b, const char *n) { if (a != b) V(P, when + ": " + n + " is " + q(a) + " instead of " + q(b)); };
        eq(S(c.getServerName()), g.host, "server name"); eq(std::to_string(c.getServerPort()), std::to_string(g.port), "port");
        eq(std::to_string(c.getBatchMode()), std::to_string(g.batch), "batch mode"); eq(std::to_string(c.getCommandTimeout()), std::to_string(g.tmo), "timeout");
        eq(std::to_string(getself(c, g.self, 0)), std::to_string(g.self), "accept self signed");
        auto *k = c.getCredentials();
        eq(k ? "yes" : "no", g.cred ? "yes" : "no", "credentials");
        if (k) { eq(S(k->getUsername()), g.user, "user name"); eq(S(k->getPassword()), g.pass, "password"); eq(std::to_string(k->getRecommendedAuthOption()), std::to_string(g.meth), "authentication option"); }
    }
    Client *copy() override { return new W(c); }
    Client *move() override { return new W(std::move(c)); }
    void assign(Client &o) override { c = static_cast<W &>(o).c; }
    void massign(Client &o) override { c = std::move(static_cast<W &>(o).c); }
};
static Client *make(Kind k, bool viacpp, const Cfg &g) {
    if (viacpp) switch (k) { case PLAIN: return new W<cpp::SmtpClient, true>(g); case OPP: return new W<cpp::OpportunisticSecureSMTPClient, true>(g); default: return new W<cpp::ForcedSecureSMTPClient, true>(g); }
    switch (k) { case PLAIN: return new W<SmtpClient, false>(g); case OPP: return new W<OpportunisticSecureSMTPClient, false>(g); default: return new W<ForcedSecureSMTPClient, false>(g); }
}

// --------------------------------------------------------------- comparison
static str verbtags(const str &l) {
    str v = l.substr(0, 4); for (auto &c : v) c = toupper(c);
    if (v == "EHLO") return "P09 P12 P19";
    if (v == "STAR") return "P19";
    if (v == "AUTH") return "P14 P10";
    if (v == "MAIL" || v == "RCPT") return "P15";
    if (v == "DATA") return "P15 P16 P18";
    if (v == "QUIT") return "P20";
    return "P14 P15 P16 P18 P10";
}
static bool copied = false;
static void compare(const str &when, bool viacpp) {
    for (size_t i = 0; i < conns.size(); i++) {
        Conn &c = conns[i];
        str extra = viacpp ? " P22" : "";
        if (copied) extra += " P08";
        if (c.maxsend < 1000 || c.xbroken) extra += " P13";
        if (c.xsilent) extra += " P12";
        for (size_t j = 0; j < std::max(c.cmds.size(), c.xcmds.size()); j++) {
            if (j >= c.cmds.size()) { V(verbtags(c.xcmds[j].text) + " P18" + extra, when + ": command not sent: " + q(c.xcmds[j].text)); return; }
            if (j >= c.xcmds.size()) { V(verbtags(c.cmds[j].text) + " P18 P16" + extra, when + ": unexpected command: " + q(c.cmds[j].text)); return; }
            if (c.cmds[j].text != c.xcmds[j].text) { V(verbtags(c.xcmds[j].text) + " " + verbtags(c.cmds[j].text) + " P18 P16" + extra, when + ": command " + q(c.cmds[j].text) + " instead of " + q(c.xcmds[j].text)); return; }
            if (c.cmds[j].tls != c.xcmds[j].tls) { V("P19 P14" + extra, when + ": command " + q(c.cmds[j].text) + (c.cmds[j].tls ? " inside TLS" : " outside TLS")); return; }
        }
        for (size_t j = 0; j < std::max(c.data.size(), c.xdata.size()); j++) {
            str a = j < c.data.size() ? c.data[j] : "(none)", b = j < c.xdata.size() ? c.xdata[j] : "(none)";
            if (a != b) {
                size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
                bool att = b.find("\r\n\r\n--sep\r\n") < k;
                V((att ? str("P17 P16 P18") : str("P16 P18")) + extra, when + ": message differs at byte " + std::to_string(k) + ": " + q(a.substr(k > 20 ? k - 20 : 0, 120)) + " instead of " + q(b.substr(k > 20 ? k - 20 : 0, 120)));
                return;
            }
        }
        if (c.open != c.xopen) { V("P20" + extra, when + (c.open ? ": the connection is left open" : ": the connection was closed")); return; }
    }
}

// ---------------------------------------------------------------- generators
static str word(int n) { return H::rstr(n, "abcdefgXYZ0129") + "k"; }
static Addr newaddr() { Addr a; a.mail = word(6) + "@" + word(4) + ".com"; if (coin()) a.name = coin(80) ? word(8) + " " + word(5) : H::rstr(12, "ab,.;() \"'\xc3\xa9"); return a; }
static Addr raddr() { static vec<Addr> pool; if (pool.size() < 40) pool.push_back(newaddr()); return H::pick(pool); }
static vec<Att> files;
static Msg rmsg() {
    Msg m; m.from = raddr(); m.html = coin();
    for (int i = 0, n = 1 + u(coin(70) ? 2 : 5); i < n; i++) m.to.push_back(raddr());
    for (int i = 0, n = coin() ? 0 : u(4); i < n; i++) m.cc.push_back(raddr());
    for (int i = 0, n = coin() ? 0 : u(4); i < n; i++) m.bcc.push_back(raddr());
    m.subj = H::rstr(20, "abc XYZ:<>.");
    static const vec<str> bits = {"\r\n.\r\n", ".", "\r\n", "\r\n..", "\r\n.a", "hello", "\n", "\r", " ", "\r\n.\r\n.\r\n", "\n.\n", "x", "\r\n.", "--sep--"};
    switch (u(5)) {
        case 0: for (int i = 0, n = u(12); i < n; i++) m.body += H::pick(bits); break;
        case 1: { int L = 512 * (1 + u(3)) - 48 - (m.html ? 9 : 10) - (int)u(40) + (int)u(20); while ((int)m.body.size() < L) m.body += coin(3) ? H::pick(bits) : str(1 + u(30), char('a' + u(26))); m.body.resize(std::max(0, L)); break; }
        case 2: m.body = str(u(1600), 'q'); break;
        case 3: for (int i = 0, n = u(300); i < n; i++) m.body += H::pick(bits); break;
        default: m.body = H::rstr(40, "abc .\r\n"); break;
    }
    if (coin(6)) m.body.insert(u(m.body.size() + 1), H::dword());
    if (coin(6)) m.subj.insert(u(m.subj.size() + 1), H::dword(true));
    if (coin(35)) for (int i = 0, n = 1 + u(3); i < n; i++) { Att a = H::pick(files); if (coin()) a.name = word(5) + ".x"; if (coin()) a.cid = word(4); else a.cid = ""; m.att.push_back(a); }
    return m;
}
static const vec<str> CAPS = {"PIPELINING", "SIZE 1000", "8BITMIME", "AUTHX", "HELP", "X 250 AUTH PLAIN", "ENHANCEDSTATUSCODES"};
static str rauth() {
    if (coin(4)) return coin() ? "AUTH" : "AUTH=PLAIN";
    str s = "AUTH";
    static const vec<str> N = {"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH", "CRAM-MD5", "PLAINX", "plain", "NTLM"};
    for (int i = 0, n = 1 + u(4); i < n; i++) s += (coin(4) ? "  " : " ") + (coin(4) ? H::dword(true) : H::pick(N));
    return s;
}
static Rep rehlo(bool tls, bool offer) {
    vec<str> l = {"smtp.x.com"};
    for (int i = 0, n = u(4); i < n; i++) l.push_back(coin(8) ? H::dword(true) : H::pick(CAPS));
    if (offer) l.insert(l.begin() + 1 + u(l.size()), "STARTTLS");
    for (int i = 0, n = coin(80) ? 1 : u(3); i < n; i++) l.insert(l.begin() + 1 + u(l.size()), rauth());
    if (coin(10) && l.size() > 1) l.erase(l.begin());
    vec<str> t;
    for (size_t i = 0; i < l.size(); i++) t.push_back("250" + str(i + 1 == l.size() ? " " : "-") + l[i] + "\r\n");
    Rep r;
    vec<str> g;
    str acc;
    for (size_t i = 0; i < t.size(); i++) {
        acc += t[i];
        if (tls) { if (coin(30) || i + 1 == t.size()) { r.groups.push_back({acc}); acc = ""; } }
        else {
            if (coin(30)) { g.push_back(acc); acc = ""; }
            if (acc.empty() && coin(50) && !g.empty()) { r.groups.push_back(g); g.clear(); }
        }
    }
    if (!tls) { if (!acc.empty()) g.push_back(acc); if (!g.empty()) r.groups.push_back(g); }
    if (coin(4) && !complete(t[0])) { r.groups.clear(); r.groups.push_back({t[0]}); if (coin()) r.groups.push_back({"421 bye\r\n"}); else if (coin()) r.groups.push_back({"garbage\r\n"}); }
    return r;
}
// the three-digit numbers that occur in the sources under test
static const vec<int> &literals() {
    static vec<int> v;
    if (v.empty()) { const char *e = getenv("DV_CODES"); for (const char *p = e ? e : ""; *p;) { v.push_back(atoi(p)); while (*p && *p++ != ',') {} } if (v.empty()) v.push_back(550); }
    return v;
}
static Rep rbad(bool tls) {
    Rep r;
    switch (u(11)) {
        case 0: r.mode = 1; return r;
        case 1: r.mode = 2; return r;
        case 2: return R("xyz\r\n");
        case 3: return R("25");
        case 4: return R("050 zero\r\n");
        case 5: return R(501);
        case 6: return tls ? R(550) : R("550-multi\r\n550 line\r\n");
        case 7: return R(200 + u(400), "some text");
        case 8: { static const vec<int> C = {211, 214, 220, 221, 235, 250, 251, 252, 334, 354, 421, 422, 432, 450, 451, 452, 454, 455, 500, 501, 502, 503, 504, 521, 530, 534, 535, 538, 550, 551, 552, 553, 554, 555, 556, 999, 100}; return R(H::pick(C)); }
        case 9: return R(H::pick(literals()), H::dword(true));
        default: return R(H::pick(literals()));
    }
}
static str cfgtext(const Conn &c) {
    str s;
    auto rt = [](const Rep &r) { if (r.mode) return str(r.mode == 1 ? "silence" : "close"); str t; for (auto &g : r.groups) { t += "["; for (auto &p : g) t += q(p); t += "]"; } return r.eof ? t + "then closed" : t; };
    if (c.sockfail) s += " socket fails;"; if (c.hostfail) s += " name unknown;"; if (c.fcntlfail) s += " fcntl " + std::to_string(c.fcntlfail) + " fails;";
    if (c.cmode) s += " connect " + str(c.cmode == 1 ? "in progress" : "refused") + " polls=" + [&] { str t; for (int p : c.polls) t += std::to_string(p) + ","; return t; }() + ";";
    if (c.optfail) s += " getsockopt fails;"; if (c.valopt) s += " SO_ERROR=" + std::to_string(c.valopt) + ";";
    if (!c.greet.groups.empty() || c.greet.mode) s += " greeting=" + rt(c.greet) + ";";
    for (auto &kv : c.rep) { s += " " + kv.first + "="; for (auto &r : kv.second) s += rt(r); s += ";"; }
    if (c.limit >= 0) s += " connection breaks after " + std::to_string(c.limit) + " bytes;";
    if (c.maxsend < 1000000) s += " sends at most " + std::to_string(c.maxsend) + " bytes at once;";
    if (c.ctxfail) s += " SSL_CTX_new fails;"; if (c.biofail) s += " BIO_new_ssl_connect fails;"; if (c.pathfail) s += " verify paths fail;"; if (c.connfail) s += " TLS connect fails;";
    if (c.hsfail) s += " handshake fails;"; if (c.nocert) s += " no certificate;"; if (c.vres) s += " verify result " + std::to_string(c.vres) + ";";
    return s;
}
static Conn rconn(Kind k) {
    Conn c;
    int bad = u(100);
    // one connection in three is without trouble
    bool trouble = bad < 65;
    if (trouble && coin(6)) c.sockfail = true;
    if (trouble && coin(5)) c.hostfail = true;
    if (trouble && coin(8)) c.fcntlfail = 1 + u(4);
    if (coin(30)) { c.cmode = trouble && coin(20) ? 2 : 1; for (int i = 0, n = u(3); i < n; i++) c.polls.push_back(-1); if (trouble && coin(25)) c.polls.push_back(coin() ? 0 : -2); if (trouble && coin(10)) c.optfail = true; if (trouble && coin(15)) c.valopt = 111; }
    if (trouble && coin(10)) c.greet = coin(40) ? rbad(k == FORCED) : R(coin() ? "220-wait\r\n220 now\r\n" : "220 x");
    if (c.greet.mode == 0 && !c.greet.groups.empty() && k == FORCED && 0) {}
    bool offer = k == OPP ? coin(75) : coin(20);
    c.rep["EHLO1"] = {trouble && coin(8) ? rbad(false) : rehlo(false, offer)};
    c.rep["EHLO2"] = {trouble && coin(8) ? rbad(true) : rehlo(true, coin(20))};
    auto v = [&](const str &verb, int pct, int good) {
        if (!trouble) return;
        bool tls = k == FORCED || (k == OPP && offer);
        vec<Rep> r;
        for (int i = 0, n = 1 + u(4); i < n; i++) r.push_back(coin(pct) ? rbad(tls) : R(good));
        if (coin(6)) r[u(r.size())].eof = true;
        c.rep[verb] = r;
    };
    v("STARTTLS", 12, 220); v("AUTHPLAIN", 15, 235); v("AUTHLOGIN", 12, 334); v("USER", 12, 334); v("PASS", 12, 235); v("XOAUTH", 12, 235);
    v("RCPT", 12, 250); v("DATA", 12, 354); v("END", 12, 250);
    if (trouble) { vec<Rep> r; for (int i = 0, n = 1 + u(4); i < n; i++) r.push_back(coin(25) ? R(501) : coin(12) ? rbad(k == FORCED || (k == OPP && offer)) : R(250)); c.rep["MAIL"] = r; }
    if (trouble) for (const char *v : {"EHLO1", "EHLO2", "MAIL"}) if (coin(3)) c.rep[v][0].eof = true;
    if (trouble && coin(2)) { c.greet = R("220 x"); c.greet.eof = true; }
    if (trouble && coin(30)) c.limit = u(coin() ? 300 : 3000);
    if (coin(30)) c.maxsend = coin() ? 1 + u(9) : 1 + u(700);
    if (trouble && k != PLAIN) {
        if (coin(4)) c.ctxfail = true; if (coin(4)) c.biofail = true; if (coin(4)) c.pathfail = true; if (coin(4)) c.connfail = true; if (coin(4)) c.hsfail = true; if (coin(5)) c.nocert = true;
        if (coin(30)) c.vres = coin(60) ? 18 : H::pick(vec<int>{1, 2, 9, 10, 19, 20, 21, 23, 62});
    }
    if (!trouble && k != PLAIN && coin(20)) c.vres = 18;
    return c;
}
static Cfg rcfg() {
    Cfg g; g.batch = coin(40); g.tmo = coin(90) ? 1 + u(4) : u(8); g.self = coin(); g.cred = coin(65);
    g.host = word(5) + ".com"; g.port = coin(70) ? 25 + u(1000) : u(70000);
    g.user = coin(85) ? word(8) : H::rstr(6, "ab:@ \xc3=\""); if (g.user.empty() || g.user.find_first_not_of(" ") == str::npos) g.user = "u";
    g.pass = "Pq7" + H::rstr(9, "xyz0189#$%") + "Kw"; g.meth = coin(50) ? 0 : u(7);
    return g;
}
static str msgtext(const Msg &m) {
    str s = "from " + q(astr(m.from)) + " to";
    for (auto &a : m.to) s += " " + q(astr(a)); if (m.cc.size()) s += " cc"; for (auto &a : m.cc) s += " " + q(astr(a)); if (m.bcc.size()) s += " bcc"; for (auto &a : m.bcc) s += " " + q(astr(a));
    s += " subject " + q(m.subj) + " body " + q(m.body) + (m.html ? " html" : "");
    for (auto &a : m.att) s += " attachment(" + q(a.file) + "," + q(a.name) + "," + q(a.cid) + ")";
    return s;
}

// ------------------------------------------------------------------ scenario
static void reset() { copied = false; conns.clear(); curconn = -1; Ref::xconn = -1; openfds = bios = ctxs = certs = 0; slept = 0; }

static void secrets(const Cfg &g, const str &log, const str &when) {
    if (!g.cred) return;
    str all[] = {g.pass, b64(g.pass), b64(str(1, 0) + g.user + str(1, 0) + g.pass), b64("user=" + g.user + "\001auth=Bearer " + g.pass + "\001\001")};
    for (auto &s : all) if (log.find(s) != str::npos) V("P14", when + ": the communication log contains the password (" + q(s) + ")");
}
static void want(const Ref &r) { want_host = r.c.host; want_port = r.c.port; want_tmo = r.c.tmo; }

static void scenario(bool viacpp) {
    reset();
    Kind k = (Kind)u(3);
    Cfg g = rcfg();
    for (int i = 0; i < 7; i++) conns.push_back(rconn(k));
    struct X { std::unique_ptr<Client> c; std::unique_ptr<Ref> r; };
    vec<X> xs;
    H::cases++;
    alarm(30);
    str hist = str(k == PLAIN ? "SmtpClient" : k == OPP ? "OpportunisticSecureSMTPClient" : "ForcedSecureSMTPClient") + (viacpp ? " (C++ wrapper)" : "") + "(" + q(g.host) + "," + std::to_string(g.port) + ")";
    str script;
    for (size_t i = 0; i < conns.size(); i++) script += " | connection " + std::to_string(i + 1) + ":" + cfgtext(conns[i]);
    auto note = [&](const str &s) { hist += "; " + s; H::cur = hist + script; };
    auto cfgs = [&](const Cfg &g) { return str("batch=") + (g.batch ? "1" : "0") + " timeout=" + std::to_string(g.tmo) + (g.cred ? " credentials=" + q(g.user) + "/" + q(g.pass) + " method=" + std::to_string(g.meth) : str("")) + (g.self ? " acceptself" : ""); };
    { X x; x.r.reset(new Ref(k)); x.r->c = g; note(cfgs(g)); x.c.reset(make(k, viacpp, g)); x.c->apply(g, 15); xs.push_back(std::move(x)); }
    if (k == PLAIN) g.self = xs[0].r->c.self = false;
    int nops = coin(60) ? 1 : 1 + u(5);
    for (int i = 0; i < nops; i++) {
        size_t a = u(xs.size());
        int op = i == 0 || coin(60) ? 0 : 1 + u(7);
        Client &c = *xs[a].c; Ref &r = *xs[a].r;
        str me = "client" + std::to_string(a + 1);
        if (op == 0) {
            if (openfds > 0 && !(r.connected)) { continue; }          // one connection at a time: keeps the scripts in order
            Msg m = rmsg();
            note(me + ".sendMail(" + msgtext(m) + ")");
            want(r);
            slept = 0;
            int w = r.send(m);
            int x = c.send(m);
            note("-> " + std::to_string(x));
            if (x != w) {
                str t = "P18 " + r.stage;
                if (r.conn >= 0) { if (r.k().xbroken || r.k().maxsend < 1000) t += " P13"; }
                if (viacpp) t += " P22";
                if (copied) t += " P08";
                if (x == 0) t += " P15 P16 P19";
                V(t, "sendMail returns " + std::to_string(x) + " instead of " + std::to_string(w));
                compare("after sendMail", viacpp);
                return;
            }
            compare("after sendMail", viacpp);
            secrets(r.c, c.log(), "after sendMail");
            if (openfds > 1) V("P20", "a descriptor is leaked");
            bool tl = r.conn >= 0 && r.k().xopen && r.k().xtls;
            if ((bios != (tl ? 1 : 0) || ctxs != (tl ? 1 : 0)) && !(k != PLAIN && r.conn >= 0 && r.k().xopen)) V("P20 P23", "TLS objects are not released: " + std::to_string(bios) + " BIO, " + std::to_string(ctxs) + " contexts");
            if (certs) V("P20 P23", "the peer certificate is not released");
            c.check(r.c, "after sendMail");
        } else if (op == 1) {
            Cfg n = rcfg(); n.host = r.c.host; n.port = r.c.port; if (k == PLAIN) n.self = false;
            if (!n.cred) { n.cred = r.c.cred; n.user = r.c.user; n.pass = r.c.pass; n.meth = r.c.meth; }
            note(me + " set " + cfgs(n)); r.c = n; c.apply(n, 15); c.check(n, "after the setters");
        } else if (op == 2) {
            str h = word(6); unsigned p = u(65536); note(me + ".setServerName(" + q(h) + "), setServerPort(" + std::to_string(p) + ")"); r.c.host = h; r.c.port = p; c.apply(r.c, 48);
            c.check(r.c, "after the setters");
        } else if (op == 3) {
            copied = true;
            note("client" + std::to_string(xs.size() + 1) + " = copy of " + me);
            X x; x.c.reset(c.copy()); x.r.reset(new Ref(k)); x.r->c = r.c; x.r->opts = r.opts;
            x.c->check(r.c, "copy"); eqsv: if (x.c->log() != c.log()) V("P08 P11", "the copy has another communication log");
            compare("after copying", viacpp); c.check(r.c, "source of a copy");
            xs.push_back(std::move(x));
        } else if (op == 4) {
            copied = true;
            note("client" + std::to_string(a + 1) + " moved into a new one");
            X x; str l = c.log(); x.c.reset(c.move()); x.r.reset(new Ref(r));
            x.c->check(r.c, "moved client"); if (x.c->log() != l) V("P08 P11", "the moved client has another communication log");
            compare("after moving", viacpp);
            want(r);
            xs[a] = std::move(x);
        } else if (op == 5 || op == 6) {
            copied = true;
            size_t b = u(xs.size());
            note("client" + std::to_string(a + 1) + (op == 5 ? " = " : " = move of ") + "client" + std::to_string(b + 1));
            if (op == 6 && a == b) continue;
            Ref &o = *xs[b].r;
            want(r);
            if (a != b) { r.close(); }
            str l = xs[b].c->log();
            if (op == 5) c.assign(*xs[b].c); else c.massign(*xs[b].c);
            if (a != b) {
                if (op == 5) { Opts oo = o.opts; int cn = r.conn; r = Ref(k); r.c = o.c; r.opts = oo; (void)cn; }
                else r = o;
            }
            c.check(r.c, "assigned client"); if (c.log() != l) V("P08 P11", "the assigned client has another communication log");
            compare("after assigning", viacpp);
            if (op == 6) { xs.erase(xs.begin() + b); compare("after the source of the assignment is gone", viacpp); }
            else if (a != b) xs[b].c->check(o.c, "source of an assignment");
        } else {
            note(me + " destroyed");
            want(r); r.close(); xs[a].c.reset(); xs.erase(xs.begin() + a);
            compare("after destruction", viacpp);
            if (xs.empty()) break;
        }
    }
    note("all destroyed");
    for (auto &x : xs) { want(*x.r); x.r->close(); x.c.reset(); }
    compare("after destruction", viacpp);
    if (openfds) V("P20 P23", "a descriptor is never closed");
    if (bios || ctxs) V("P20 P23", "TLS objects are never released");
    alarm(0);
}

// ---------------------------------------------------------- single functions
struct T : SmtpClient {
    T() : SmtpClient("h", 25) {}
    using SmtpClient::operator=;
    using SMTPClientBase::extractReturnCode; using SMTPClientBase::extractAuthenticationOptions; using SMTPClientBase::addCommunicationLogItem;
    using SMTPClientBase::setLastServerResponse; using SMTPClientBase::getLastServerResponse; using SMTPClientBase::initializeSession; using SMTPClientBase::createAttachmentsText;
    using SMTPClientBase::generateHeaderAddressValues;
};
static str rreply() {
    str s;
    for (int i = 0, n = u(5); i < n; i++) s += H::pick(vec<str>{"250-", "250 ", "250", "25", "\r\n", "\n", "x", " ", "-", "AUTH PLAIN", "STARTTLS", "\r", "550 ", "251 "});
    return s;
}
static void f_code() {
    auto one = [](const str &s) { H::run("extractReturnCode(" + q(s) + ")", [&] { eqi(T::extractReturnCode(s.c_str()), codeof(str(s.c_str())), "extractReturnCode"); }); };
    auto two = [](const str &s) { H::run("containsAllOptions(" + q(s) + ")", [&] { eqi(ServerOptionsAnalyzer::containsAllOptions(s), complete(s), "containsAllOptions"); }); };
    H::run("extractReturnCode(null)", [] { eqi(T::extractReturnCode(nullptr), -1, "extractReturnCode"); });
    for (str s : {"", "2", "25", "250", "250 ", "250-x", "999", "000", "099", "100", "a50", "2a0", "25a", " 250", "-50", "+25", "2 5", "250250", "1000", "\xff\xff\xff", "9:0", "/50"}) { one(s); two(s); }
    for (int i = 0; i < 256; i++) for (int k = 0; k < 3; k++) { str s = "250 x"; s[k] = char(i); if (i) one(s); }
    for (str s : {"250 a", "250-a\r\n250 b", "250-a\r\n250 b\r\n", "250-a\r\n", "250 a\r\n250-b\r\n", "250-a\r\n250-b", "\r\n", "\r\n\r\n", "250 \r\n", "250-250 \r\n", "250-x250 ", "250-a\n250 b\n", "250 a\r", "250 a\n", "x250 a\r\n"}) two(s);
    double t = H::tend; H::tend = H::now() + 2;
    while (H::more()) { str s = coin() ? rreply() : H::rtext(12); one(s); two(s); }
    H::tend = t;
}
static void f_auth() {
    auto one = [](const str &s) {
        H::run("extractAuthenticationOptions(" + q(s) + ")", [&] {
            Opts w = authopts(s);
            std::unique_ptr<ServerAuthOptions> o(T::extractAuthenticationOptions(s.c_str()));
            ck((o != nullptr) == w.any, w.any ? "the AUTH line is not found" : "options without an AUTH line");
            if (o) { bool f[6] = {o->Plain, o->Login, o->XOAuth2, o->Plain_ClientToken, o->OAuthBearer, o->XOAuth}; for (int i = 0; i < 6; i++) eqi(f[i], w.f[i], "authentication option " + std::to_string(i)); }
        });
    };
    H::run("extractAuthenticationOptions(null)", [] { ck(T::extractAuthenticationOptions(nullptr) == nullptr, "options from nothing"); });
    static const vec<str> N = {"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH"};
    for (auto &n : N) for (str p : {"250-AUTH ", "250 AUTH ", "250-AUTH=", "250-AUTHX ", "250-X ", "AUTH ", " 250 AUTH ", "251-AUTH "}) for (str e : {"", "\r\n", " ", "\r\n250 X", "\n", "X", " LOGIN", " PLAIN\r\n", "\r\n250-AUTH LOGIN\r\n"}) { one(p + n + e); one("250-x\r\n" + p + n + e); }
    for (str s : {"", "\r\n", "250 AUTH", "250-AUTH", "250-AUTH\r\n", "250-AUTH PLAIN", "250-x\r\n250 y", "250-x", "250-AUTH  PLAIN", "250 AUTH PLAIN LOGIN XOAUTH2 PLAIN-CLIENTTOKEN OAUTHBEARER XOAUTH\r\n"}) one(s);
    double t = H::tend; H::tend = H::now() + 3;
    while (H::more()) {
        str s;
        for (int i = 0, n = u(8); i < n; i++) s += coin(70) ? H::pick(vec<str>{"250-", "250 ", "AUTH ", "AUTH", "\r\n", " ", "PLAIN", "LOGIN", "XOAUTH2", "XOAUTH", "OAUTHBEARER", "PLAIN-CLIENTTOKEN", "x", "\n", "\r"}) : "250-AUTH " + rauth() + "\r\n";
        one(s);
    }
    H::tend = t;
}
static void f_log() {
    double t = H::tend; H::tend = H::now() + (H::prop == "P11" ? 8 : 1);
    while (H::more()) {
        vec<std::pair<str, str>> items;
        for (int i = 0, n = 1 + u(6); i < n; i++) items.push_back({coin(12) ? str(coin() ? 4080 + u(40) : 3000 + u(6000), 'z') + H::rtext(10) : H::rtext(60) + (coin() ? "\r\n" : "") + (coin(20) ? "\r\r\n\n\r\n" : ""), H::pick(vec<str>{"c", "s", "c & s", "c"})});
        for (auto &i : items) { i.first = i.first.c_str(); }
        str d = "communication log:";
        for (auto &i : items) d += " " + i.second + "/" + q(i.first);
        bool cpy = coin(30);
        H::run(d, [&] {
            reset(); want_host = "h"; want_port = 25; want_tmo = 5;
            T c; c.initializeSession();
            str want = c.getCommunicationLog();
            int n = 0;
            std::unique_ptr<T> k;
            T *p = &c;
            for (auto &i : items) {
                if (cpy && n == 2) { k.reset(new T(c)); p = k.get(); }
                n++;
                if (i.second == "c") p->addCommunicationLogItem(i.first.c_str()); else p->addCommunicationLogItem(i.first.c_str(), i.second.c_str());
                str e;
                for (size_t j = 0; j < i.first.size(); j++) if (i.second == "c" && i.first.compare(j, 2, "\r\n") == 0) { e += "\\r\\n"; j++; } else e += i.first[j];
                want += "\n" + i.second + ": " + e;
                if (H::prop == "P11" || H::prop == "P23") eqs(p->getCommunicationLog(), want, "communication log");
            }
        });
    }
    H::tend = t;
}
static void f_resp() {
    double t = H::tend; H::tend = H::now() + 1;
    while (H::more()) { str s = H::rtext(200); H::run("setLastServerResponse(" + q(s) + ")", [&] { T c; c.setLastServerResponse("first"); c.setLastServerResponse(s.c_str()); eqs(c.getLastServerResponse(), str(s.c_str()), "getLastServerResponse"); }); }
    H::tend = t;
}
static void f_att() {
    double t = H::tend; H::tend = H::now() + 3;
    while (H::more()) {
        Msg m = rmsg();
        str d = "createAttachmentsText:";
        for (auto &a : m.att) d += " (" + q(a.file) + "," + q(a.name) + "," + q(a.cid) + ")";
        H::run(d, [&] {
            vec<Attachment> v; for (auto &a : m.att) v.emplace_back(a.file.c_str(), a.name.c_str(), a.cid.c_str());
            vec<Attachment *> p; for (auto &a : v) p.push_back(&a);
            eqs(T::createAttachmentsText(p), atext(m.att), "createAttachmentsText");
        });
    }
    H::tend = t;
}
static void f_hdr() {
    double t = H::tend; H::tend = H::now() + 2;
    while (H::more()) {
        Msg m = rmsg();
        H::run("generateHeaderAddressValues of " + q(alist(m.to)), [&] {
            vec<MessageAddress> v; for (auto &a : m.to) v.push_back(A(a));
            vec<MessageAddress *> p; for (auto &a : v) p.push_back(&a);
            eqs(T::generateHeaderAddressValues(p), alist(m.to), "generateHeaderAddressValues");
        });
    }
    H::tend = t;
}

// the C++ interface against the C interface it wraps (values, messages, errors)
struct CS : cpp::SmtpClient { CS() : cpp::SmtpClient("h", 25) {} using cpp::SmtpClient::extractReturnCode; using cpp::SmtpClient::extractAuthenticationOptions; };
struct CO : cpp::OpportunisticSecureSMTPClient { CO() : cpp::OpportunisticSecureSMTPClient("h", 25) {} using cpp::OpportunisticSecureSMTPClient::extractReturnCode; using cpp::OpportunisticSecureSMTPClient::extractAuthenticationOptions; };
struct CF : cpp::ForcedSecureSMTPClient { CF() : cpp::ForcedSecureSMTPClient("h", 25) {} using cpp::ForcedSecureSMTPClient::extractReturnCode; using cpp::ForcedSecureSMTPClient::extractAuthenticationOptions; };
template <class F> static str outcome(F f) { try { f(); return "accepted"; } catch (const std::invalid_argument &e) { return str("invalid_argument ") + e.what(); } catch (const std::exception &e) { return str("exception ") + e.what(); } }
template <class C> static void cppstatic(int code, const str &reply, const str &ehlo) {
    std::unique_ptr<char[]> w(SMTPClientBase::getErrorMessage(code));
    eqs(C::getErrorMessage(code), w.get(), "getErrorMessage");
    char buf[1024]; int rc = SMTPClientBase::getErrorMessage_r(code, buf, sizeof buf);
    str g = "before"; eqi(C::getErrorMessage_r(code, g), rc, "getErrorMessage_r result"); eqs(g, buf, "getErrorMessage_r text");
    eqi(C::extractReturnCode(reply), T::extractReturnCode(reply.c_str()), "extractReturnCode");
    auto o = [](ServerAuthOptions *p) { str r = !p ? "null" : str() + "01"[p->Plain] + "01"[p->Login] + "01"[p->XOAuth2] + "01"[p->Plain_ClientToken] + "01"[p->OAuthBearer] + "01"[p->XOAuth]; delete p; return r; };
    eqs(o(C::extractAuthenticationOptions(ehlo)), o(T::extractAuthenticationOptions(ehlo.c_str())), "extractAuthenticationOptions");
}
static void f_cpp() {
    double t = H::tend; H::tend = H::now() + 3;
    int next = -110;
    auto txt = [] { return coin(10) ? str() : coin(10) ? "  " : coin(5) ? str(1 + u(3000), 'k') : H::rtext(20); };
    vec<str> em = {"a@b.co", "ab@cd.ef", "Xy_z@host.org", "bad", "", " ", "a@b", "A.B@C-D.ORG", "a b@c.dd"};
    while (H::more()) {
        int code = next < 570 ? next++ : int(H::rng() % 1200) - 200;
        str reply = coin() ? H::rtext(30) : std::to_string(u(1200)) + " " + H::rtext(10), ehlo = coin() ? H::rtext(40) : "250-AUTH PLAIN XOAUTH2 " + H::rtext(10) + "\r\n250 OK";
        H::run("C++ interface: error code " + std::to_string(code) + ", reply " + q(reply) + ", EHLO reply " + q(ehlo), [&] { cppstatic<CS>(code, reply, ehlo); cppstatic<CO>(code, reply, ehlo); cppstatic<CF>(code, reply, ehlo); });
        str a = txt(), b = txt(), c = txt(), d = txt(); str m = H::pick(em); int meth = int(u(3));
        const Att &fa = files[u(files.size())]; if (coin(20)) a = fa.file;
        H::run("C++ interface: values " + q(a) + ", " + q(b) + ", " + q(c) + ", " + q(d) + ", " + q(m), [&] {
            std::unique_ptr<cpp::Attachment> x; std::unique_ptr<Attachment> y;
            str o1 = outcome([&] { x.reset(new cpp::Attachment(a, b, c)); }), o2 = outcome([&] { y.reset(new Attachment(a.c_str(), b.c_str(), c.c_str())); });
            eqs(o1, o2, "Attachment constructor");
            if (x) {
                auto same = [](const cpp::Attachment &p, const Attachment &q, const char *w) {
                    eqs(p.getFilename(), q.getFilename(), str(w) + " file name"); eqs(p.getName(), q.getName(), str(w) + " name"); eqs(p.getContentId(), q.getContentId(), str(w) + " content id"); eqs(p.getMimeType(), q.getMimeType(), str(w) + " MIME type");
                    std::unique_ptr<const char[]> e(q.getBase64EncodedFile()); eqs(p.getBase64EncodedFile(), e ? e.get() : "", str(w) + " base64 text");
                    Attachment s = p.toStdAttachment(); eqs(s.getFilename(), q.getFilename(), str(w) + " standard file name"); eqs(s.getName(), q.getName(), str(w) + " standard name"); eqs(s.getContentId(), q.getContentId(), str(w) + " standard content id");
                };
                same(*x, *y, "attachment"); cpp::Attachment k(*x); x->setContentId(d); same(k, *y, "copy"); y->setContentId(d.c_str()); same(*x, *y, "changed attachment");
                k = *x; same(k, *y, "assigned"); cpp::Attachment z(std::move(k)); same(z, *y, "moved");
            }
            std::unique_ptr<cpp::Credential> u1, u3; std::unique_ptr<Credential> u2, u4; auto M = (RecommendedAuthenticationMethod)meth;
            eqs(outcome([&] { u1.reset(new cpp::Credential(a, b, M)); }), outcome([&] { u2.reset(new Credential(a.c_str(), b.c_str(), M)); }), "Credential constructor");
            eqs(outcome([&] { u3.reset(new cpp::Credential(a, b)); }), outcome([&] { u4.reset(new Credential(a.c_str(), b.c_str())); }), "Credential constructor");
            auto cs = [](const cpp::Credential &p, const Credential &q, const char *w) { eqs(p.getUsername(), q.getUsername(), str(w) + " user"); eqs(p.getPassword(), q.getPassword(), str(w) + " password"); eqi(p.getRecommendedAuthOption(), q.getRecommendedAuthOption(), str(w) + " method"); };
            if (u1) {
                cs(*u1, *u2, "credential"); cs(*u3, *u4, "credential"); cpp::Credential k(*u1), z(*u3);
                eqs(outcome([&] { u1->setUsername(c); }), outcome([&] { u2->setUsername(c.c_str()); }), "setUsername"); eqs(outcome([&] { u1->setPassword(d); }), outcome([&] { u2->setPassword(d.c_str()); }), "setPassword");
                u1->setRecommendedAuthOption((RecommendedAuthenticationMethod)((meth + 1) % 3)); u2->setRecommendedAuthOption((RecommendedAuthenticationMethod)((meth + 1) % 3)); cs(*u1, *u2, "changed credential");
                cs(k, Credential(a.c_str(), b.c_str(), M), "copy"); z = k; cs(z, Credential(a.c_str(), b.c_str(), M), "assigned");
            }
            std::unique_ptr<cpp::MessageAddress> p; std::unique_ptr<MessageAddress> r;
            eqs(outcome([&] { p.reset(new cpp::MessageAddress(m, b)); }), outcome([&] { r.reset(new MessageAddress(m.c_str(), b.c_str())); }), "MessageAddress constructor");
            if (p) {
                eqs(p->getEmailAddress(), r->getEmailAddress(), "address"); eqs(p->getDisplayName(), r->getDisplayName(), "display name"); eqs(str(*p), str(*r), "address text");
                MessageAddress s = p->toStdMessageAddress(); ck(s == *r, "standard address"); cpp::MessageAddress k(*p), e(m, c); ck(k == *p, "copy equals"); eqi(*p == e, *r == MessageAddress(m.c_str(), c.c_str()), "equality");
            }
        });
        Msg g = rmsg();
        H::run("C++ message of " + std::to_string(g.to.size()) + " To, " + std::to_string(g.cc.size()) + " Cc, " + std::to_string(g.bcc.size()) + " Bcc, " + std::to_string(g.att.size()) + " attachments, subject " + q(g.subj) + ", body " + q(g.body), [&] {
            vec<cpp::MessageAddress> to, cc, bcc; vec<cpp::Attachment> at;
            for (auto &x : g.to) to.push_back(CA(x)); for (auto &x : g.cc) cc.push_back(CA(x)); for (auto &x : g.bcc) bcc.push_back(CA(x));
            for (auto &x : g.att) at.push_back(cpp::Attachment(x.file, x.name, x.cid));
            auto go = [&](const cpp::Message &x, const Message &s, const char *mt) {
                eqs(x.getMimeType(), mt, "MIME type"); eqs(s.getMimeType(), mt, "standard MIME type");
                eqs(x.getSubject(), g.subj, "subject"); eqs(x.getBody(), g.body, "body"); eqs(s.getSubject(), str(g.subj.c_str()), "standard subject"); eqs(s.getBody(), str(g.body.c_str()), "standard body");
                ck(x.getFrom() == CA(g.from), "sender"); ck(s.getFrom() == A(g.from), "standard sender");
                auto ad = [](const vec<cpp::MessageAddress> &v, size_t n, MessageAddress **sp, size_t sn, const vec<Addr> &w, const char *nm) {
                    eqi(v.size(), w.size(), str(nm)); eqi(n, w.size(), str(nm) + " count"); eqi(sn, w.size(), str("standard ") + nm + " count");
                    for (size_t i = 0; i < w.size(); i++) { ck(v[i] == CA(w[i]), str(nm) + " address"); ck(*sp[i] == A(w[i]), str("standard ") + nm + " address"); }
                };
                ad(x.getTo(), x.getToCount(), s.getTo(), s.getToCount(), g.to, "To"); ad(x.getCc(), x.getCcCount(), s.getCc(), s.getCcCount(), g.cc, "Cc"); ad(x.getBcc(), x.getBccCount(), s.getBcc(), s.getBccCount(), g.bcc, "Bcc");
                eqi(x.getAttachmentsCount(), g.att.size(), "attachment count"); eqi(s.getAttachmentsCount(), g.att.size(), "standard attachment count");
                for (size_t i = 0; i < g.att.size(); i++) { eqs(x.getAttachments()[i].getFilename(), g.att[i].file, "attachment file"); eqs(s.getAttachments()[i]->getFilename(), g.att[i].file, "standard attachment file"); eqs(s.getAttachments()[i]->getName(), g.att[i].name, "standard attachment name"); eqs(s.getAttachments()[i]->getContentId(), g.att[i].cid, "standard attachment id"); }
            };
            { cpp::PlaintextMessage x(CA(g.from), to, g.subj, g.body, cc, bcc, at); PlaintextMessage s = x; go(x, s, "text/plain"); cpp::PlaintextMessage k(x); PlaintextMessage ks = k; go(k, ks, "text/plain"); }
            { cpp::HTMLMessage x(CA(g.from), to, g.subj, g.body, cc, bcc, at); HTMLMessage s = x; go(x, s, "text/html"); cpp::HTMLMessage k(x); HTMLMessage ks = k; go(k, ks, "text/html"); }
        });
    }
    H::tend = t;
}

int main(int argc, char **argv) {
    H::init(argc, argv);
    for (int i = 0; i < 8; i++) {
        static const char *N[] = {"a.txt", "b.PNG", "noext", "c.jpg", "d.html", "e.zip", "f.pdf", "missing.png"};
        static const int L[] = {0, 1, 2, 3, 300, 700, 2000, 0};
        Att a; a.file = N[i]; a.name = N[i]; a.ok = i != 7 && i != 0;
        for (int j = 0; j < L[i]; j++) a.content += char(H::u(256));
        if (i != 7) { std::ofstream f(a.file, std::ios::binary); f << a.content; }
        files.push_back(a);
    }
    str p = H::prop;
    if (p == "P09" || p == "P23") f_code();
    if (p == "P10" || p == "P23") f_auth();
    if (p == "P11" || p == "P23") f_log();
    if (p == "P12" || p == "P23") f_resp();
    if (p == "P16" || p == "P23") f_hdr();
    if (p == "P17" || p == "P23") f_att();
    if (p == "P22" || p == "P23") f_cpp();
    while (H::more()) scenario(p == "P22" ? coin(85) : coin(10));
    return H::done();
}
