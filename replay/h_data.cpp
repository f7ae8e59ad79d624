#include "h.hpp"
#include <algorithm>
#include <stdexcept>
#include <regex>
#include "attachment.h"
#include "base64.h"
#include "credential.h"
#include "messageaddress.h"
#include "errorresolver.h"
#include "stringutils.h"
#include "smtpclient.h"
#include "message.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
using namespace jed_utils;
using H::q; using H::eqs; using H::eqi; using H::ck; using H::u; using H::coin;
typedef std::string str;

static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static str ltrim(const str &s) { size_t i = 0; while (i < s.size() && ws(s[i])) i++; return s.substr(i); }
static str rtrim(const str &s) { size_t n = s.size(); while (n && ws(s[n - 1])) n--; return s.substr(0, n); }
static bool blank(const str &s) { return ltrim(s).empty(); }
static str lower(str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static str upper(str s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }

// ---------------------------------------------------------------- P03
static const std::vector<std::pair<str, str>> MIME = {
#include "mime.inc"
};
static str mime(const str &fn) {
    size_t p = fn.rfind('.');
    str e = upper(p == str::npos ? fn : fn.substr(p + 1));
    for (auto &m : MIME) if (m.first == e) return m.second;
    return "";
}
static str rcase(str s) { for (auto &c : s) if (coin()) c = (c >= 'A' && c <= 'Z') ? c + 32 : c; return s; }
static void p03() {
    auto one = [](const str &fn) {
        H::run("Attachment(" + q(fn) + ").getMimeType()", [&] { Attachment a(fn.c_str()); eqs(a.getMimeType(), mime(fn), "getMimeType"); });
    };
    for (auto &m : MIME) for (str pre : {"a.", "dir.txt/b.", "", "x.png.", "a b."}) for (str suf : {"", "x", " ", "."}) { one(pre + m.first + suf); one(pre + lower(m.first) + suf); one(pre + rcase(m.first) + suf); }
    for (str s : {".", "..", "noext", "a.unknown", "a.", "png", "a/b", "x.\xe9ps"}) one(s);
    while (H::more()) {
        str fn = H::rstr(6, "ab.") + (coin(70) ? "." : "") + (coin(80) ? rcase(H::pick(MIME).first) : H::rstr(5));
        if (coin(10)) fn += H::rstr(2, "m. x");
        if (!blank(fn)) one(fn);
    }
}
// ---------------------------------------------------------------- P04
static void p04() {
    auto one = [](const str &s) {
        H::run("StringUtils on " + q(s), [&] {
            eqs(StringUtils::trimLeft(s), ltrim(s), "trimLeft"); eqs(StringUtils::trimRight(s), rtrim(s), "trimRight");
            eqs(StringUtils::trim(s), rtrim(ltrim(s)), "trim"); eqs(StringUtils::toLower(s), lower(s), "toLower"); eqs(StringUtils::toUpper(s), upper(s), "toUpper");
        });
    };
    for (int i = 0; i < 256; i++) for (int k = 0; k < 4; k++) { str c(1, char(i)); one(k == 0 ? c : k == 1 ? c + "a" : k == 2 ? "a" + c : "b" + c + "B"); }
    for (str s : {"", "  ", "\t\n", "  a  ", " a b ", "\va\f", "\ra\n"}) one(s);
    while (H::more()) one(coin() ? H::rtext(60) : H::rstr(3, " \t\n\v\f\r") + H::rtext(20) + H::rstr(3, " \t\n\v\f\r"));
}
// ---------------------------------------------------------------- P05
static bool emailok(const str &s) {
    // the documented pattern, written out as a set-of-positions matcher
    str t = lower(s);
    auto A = [](unsigned char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; };
    auto D = [](unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; };
    auto dot = [](unsigned char c) { return c != '\n' && c != '\r'; };
    auto L = [](unsigned char c) { return c >= 'a' && c <= 'z'; };
    size_t n = t.size();
    // forward over the automaton: states 0 start,1 in first part,2 after any-char,3 in group; 4 after @,5 dom,6 any,7 dom2
    // then a final any-char followed by 2..4 letters
    std::vector<char> st(14, 0), nx(14, 0);
    st[0] = 1;
    for (size_t i = 0; i < n; i++) {
        unsigned char c = t[i];
        std::fill(nx.begin(), nx.end(), 0);
        auto go = [&](int a, int b) { if (st[a]) nx[b] = 1; };
        if (A(c)) { go(0, 1); go(1, 1); go(2, 3); go(3, 3); }
        if (dot(c)) { go(1, 2); go(3, 2); go(5, 6); go(7, 6); go(5, 8); go(7, 8); }
        if (c == '@') { go(1, 4); go(3, 4); }
        if (D(c)) { go(4, 5); go(5, 5); go(6, 7); go(7, 7); }
        if (L(c)) { go(8, 9); go(9, 10); go(10, 11); go(11, 12); }
        st = nx;
    }
    return st[10] || st[11] || st[12];
}
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::invalid_argument &) { return true; } }
static const char *cp(const str *s) { return s ? s->c_str() : nullptr; }
static void p05() {
    auto email = [](const str &s) {
        H::run("MessageAddress(" + q(s) + ")", [&] { eqi(throws([&] { MessageAddress m(s.c_str()); }), blank(s) || !emailok(s), "address rejected"); });
    };
    auto cred = [](const str *us, const str *pw) {
        bool bu = !us || blank(*us), bp = !pw || pw->empty();
        H::run("Credential(" + q(cp(us)) + "," + q(cp(pw)) + ") and setters", [&] {
            eqi(throws([&] { Credential c(cp(us), cp(pw)); }), bu || bp, "Credential(user,password) rejected");
            eqi(throws([&] { Credential c(cp(us), cp(pw), kLogin); }), bu || bp, "Credential(user,password,method) rejected");
            Credential c("olduser", "oldpass");
            eqi(throws([&] { c.setUsername(cp(us)); }), bu, "setUsername rejected"); eqs(c.getUsername(), bu ? "olduser" : *us, "user name after setUsername");
            eqs(c.getPassword(), "oldpass", "password after setUsername");
            eqi(throws([&] { c.setPassword(cp(pw)); }), bp, "setPassword rejected"); eqs(c.getPassword(), bp ? "oldpass" : *pw, "password after setPassword");
        });
    };
    auto server = [](const str *s) {
        bool b = !s || blank(*s);
        H::run("server name " + q(cp(s)), [&] {
            eqi(throws([&] { SmtpClient c(cp(s), 25); }), b, "client constructor rejected");
            SmtpClient c("old.server", 587);
            eqi(throws([&] { c.setServerName(cp(s)); }), b, "setServerName rejected"); eqs(c.getServerName(), b ? "old.server" : *s, "server name"); eqi(c.getServerPort(), 587, "port");
        });
    };
    auto att = [](const str &s) {
        H::run("Attachment(" + q(s) + ")", [&] { eqi(throws([&] { Attachment a(s.c_str(), "n", "c"); }), blank(s), "attachment rejected"); });
    };
    std::vector<str> e = {"", " ", "\t \n", "a", "ab", " a", "a ", "a\n", "\x80", "a@b.co", "a@b.com", "a@b.c", "a@b", "a.b@c.de", "a.b@c-d.ef", "A@B.COM", "a@b.info", "a@b.museum", "@b.co", "a@", "a@@b.co", "a@b.co ", " a@b.co",
        "a@b..co", "a..b@c.de", "a+b@c.de", "a@b.c1", "a@b.1co", "a\n@b.co", "a_b-c@d.ef", "a@b_c.de", "a@b.co\n", "a b@c.de", "-@-.aa", "a@b.c.de", "a@1.23", "a@bcd", "a@bxcd", "abc", "a@b1cde", ".a@b.co", "a.@b.co", "a@.co"};
    for (auto &s : e) { email(s); server(&s); att(s); for (auto &t : e) cred(&s, &t); cred(&s, nullptr); cred(nullptr, &s); }
    server(nullptr); cred(nullptr, nullptr);
    while (H::more()) {
        str s = coin(30) ? H::rtext(10) : H::rstr(4, "aZ09_-.+ ") + (coin(90) ? "@" : "") + H::rstr(4, "bY1-._") + (coin(80) ? "." : "") + H::rstr(5, "coM1-");
        email(s);
        str a = H::rtext(6), b = H::rtext(6);
        cred(&a, &b); server(&a); att(b);
    }
}
// ---------------------------------------------------------------- P06
struct AT { typedef Attachment T; str a, b, c; T mk() const { return T(a.c_str(), b.c_str(), c.c_str()); }
    void same(const T &t, const str &w) const { eqs(t.getFilename(), a, w + " filename"); eqs(t.getName(), b, w + " name"); eqs(t.getContentId(), c, w + " content id"); }
    void mutate(T &t) { c = H::rtext(9); t.setContentId(c.c_str()); } static str nm() { return "Attachment"; } };
struct CT { typedef Credential T; str a, b, c; T mk() const { return T(a.c_str(), b.c_str(), RecommendedAuthenticationMethod(c.size() % 7)); }
    void same(const T &t, const str &w) const { eqs(t.getUsername(), a, w + " user name"); eqs(t.getPassword(), b, w + " password"); eqi(t.getRecommendedAuthOption(), c.size() % 7, w + " method"); }
    void mutate(T &t) { a = "m" + H::rtext(9); t.setUsername(a.c_str()); b = "q" + H::rtext(9); t.setPassword(b.c_str()); c = str(u(7), 'x'); t.setRecommendedAuthOption(RecommendedAuthenticationMethod(c.size())); } static str nm() { return "Credential"; } };
struct MT { typedef MessageAddress T; str a, b, c; T mk() const { return T(a.c_str(), b.c_str()); }
    void same(const T &t, const str &w) const { eqs(t.getEmailAddress(), a, w + " address"); eqs(t.getDisplayName(), b, w + " name"); }
    void mutate(T &) {} static str nm() { return "MessageAddress"; } };
template <class X> static void values(const X &x0, const X &y0) {
    typedef typename X::T T;
    uint64_t sd = u(1 << 30);
    H::run(X::nm() + " value semantics with (" + q(x0.a) + "," + q(x0.b) + "," + q(x0.c) + ") and (" + q(y0.a) + "," + q(y0.b) + "," + q(y0.c) + ")", [&] {
        auto sv = H::rng; H::rng.seed(sd);
        X x = x0, y = y0;
        T *a = new T(x.mk()); T *b = new T(y.mk());
        T c(*a); x.same(c, "copy"); x.same(*a, "source of copy");
        { X z = x; T d(*a); z.mutate(d); z.same(d, "changed copy"); x.same(*a, "source after changing the copy"); }
        c = *b; y.same(c, "copy-assigned"); y.same(*b, "source of assignment");
        T &r = c; c = r; y.same(c, "self-assigned"); c = std::move(r); y.same(c, "self-move-assigned");
        delete b; y.same(c, "copy after its source is destroyed");
        T m(std::move(*a)); x.same(m, "move-constructed"); delete a;
        X w = y; w.mutate(c); w.same(c, "changed");
        c = std::move(m); x.same(c, "move-assigned");
        m = c; x.same(m, "assigned into a moved-from object"); x.same(c, "source");
        T n(std::move(m)); m = std::move(n); x.same(m, "move-assigned into a moved-from object");
        w = x; w.mutate(c); w.same(c, "changed"); w.mutate(c); w.same(c, "changed twice");
        H::rng = sv;
    });
}
static void p06() {
    auto text = [] { return coin(15) ? str() : coin(10) ? str(1 + u(3000), 'k') : H::rtext(30); };
    std::vector<str> em = {"a@b.co", "ab@cd.ef", "Xy_z@host.org", "a.b-c@d-e.info"};
    auto eq = [](const str &a, const str &b, const str &c, const str &d) {
        H::run("MessageAddress(" + q(a) + "," + q(b) + ") == (" + q(c) + "," + q(d) + "), string conversion", [&] {
            MessageAddress x(a.c_str(), b.c_str()), y(c.c_str(), d.c_str());
            eqi(x == y, a == c && b == d, "equality"); eqi(y == x, a == c && b == d, "equality (swapped)"); ck(x == x, "self equality");
            eqs(str(x), b.empty() ? a : b + " <" + a + ">", "string conversion");
        });
    };
    for (auto &a : em) for (auto &c : em) for (str b : {"", "N", "n", "Na me"}) for (str d : {"", "N", "n"}) eq(a, b, c, d);
    do {
        values(AT{"f" + text(), text(), text()}, AT{"g" + text(), text(), text()});
        values(CT{"f" + text(), "p" + text(), str(u(7), 'x')}, CT{"g" + text(), "q" + text(), str(u(7), 'x')});
        values(MT{H::pick(em), text(), ""}, MT{H::pick(em), text(), ""});
        str b = text(), d = coin() ? b : text();
        eq(H::pick(em), b, H::pick(em), d);
    } while (H::more());
}
// ---------------------------------------------------------------- P07
typedef std::pair<str, str> Adr;
struct Ats { str f, n, c; };
struct MM { Adr from; std::vector<Adr> to, cc, bcc; std::vector<Ats> at; str subj, body; int nul = 0; bool single = false; };
static str desc(const MM &m) {
    return "message(from " + q(m.from.first) + ", " + std::to_string(m.to.size()) + " To, " + std::to_string(m.cc.size()) + " Cc, " + std::to_string(m.bcc.size()) + " Bcc, " + std::to_string(m.at.size()) +
        " attachments, subject " + (m.nul & 1 ? "null" : q(m.subj)) + ", body " + (m.nul & 2 ? "null" : q(m.body)) + ", null arrays " + std::to_string(m.nul >> 2) + (m.single ? ", single-recipient constructor" : "") + ")";
}
template <class T> static T *mkmsg(const MM &m) {
    auto adr = [](const std::vector<Adr> &v) { std::vector<MessageAddress> r; for (auto &a : v) r.emplace_back(a.first.c_str(), a.second.c_str()); return r; };
    auto to = adr(m.to), cc = adr(m.cc), bcc = adr(m.bcc);
    std::vector<Attachment> at;
    for (auto &a : m.at) at.emplace_back(a.f.c_str(), a.n.c_str(), a.c.c_str());
    MessageAddress from(m.from.first.c_str(), m.from.second.c_str());
    const char *s = m.nul & 1 ? nullptr : m.subj.c_str(), *b = m.nul & 2 ? nullptr : m.body.c_str();
    // an empty array is given as null or as a non-null pointer
    static MessageAddress dummy("d@d.dd", ""); static Attachment dat("d", "", "");
    auto ap = [&](std::vector<MessageAddress> &v, int bit) -> MessageAddress * { return v.empty() ? (m.nul & bit ? nullptr : &dummy) : v.data(); };
    Attachment *pa = at.empty() ? (m.nul & 32 ? nullptr : &dat) : at.data();
    if (m.single) return new T(from, to[0], s, b, cc.empty() ? nullptr : &cc[0], bcc.empty() ? nullptr : &bcc[0], pa, at.size());
    return new T(from, ap(to, 4), to.size(), s, b, ap(cc, 8), cc.size(), ap(bcc, 16), bcc.size(), pa, at.size());
}
static void samemsg(const Message &t, const MM &m, const str &w) {
    auto adr = [&](MessageAddress **p, size_t n, const std::vector<Adr> &v, const str &nm) {
        eqi(n, v.size(), w + " " + nm + " count");
        for (size_t i = 0; i < n; i++) { eqs(p[i]->getEmailAddress(), v[i].first, w + " " + nm + " address"); eqs(p[i]->getDisplayName(), v[i].second, w + " " + nm + " name"); }
    };
    eqs(t.getFrom().getEmailAddress(), m.from.first, w + " sender"); eqs(t.getFrom().getDisplayName(), m.from.second, w + " sender name");
    adr(t.getTo(), t.getToCount(), m.to, "To"); adr(t.getCc(), t.getCcCount(), m.cc, "Cc"); adr(t.getBcc(), t.getBccCount(), m.bcc, "Bcc");
    eqi(t.getAttachmentsCount(), m.at.size(), w + " attachment count");
    for (size_t i = 0; i < m.at.size(); i++) { eqs(t.getAttachments()[i]->getFilename(), m.at[i].f, w + " attachment file"); eqs(t.getAttachments()[i]->getName(), m.at[i].n, w + " attachment name"); eqs(t.getAttachments()[i]->getContentId(), m.at[i].c, w + " attachment id"); }
    eqs(t.getSubject(), m.nul & 1 ? "" : m.subj, w + " subject"); eqs(t.getBody(), m.nul & 2 ? "" : m.body, w + " body");
}
template <class T> static void msgvalues(const MM &x, const MM &y, const char *mt) {
    H::run(str(mt) + " value semantics of " + desc(x) + " and " + desc(y), [&] {
        T *a = mkmsg<T>(x), *b = mkmsg<T>(y);
        samemsg(*a, x, "constructed"); samemsg(*b, y, "constructed"); eqs(a->getMimeType(), mt, "MIME type");
        T c(*a); samemsg(c, x, "copy"); samemsg(*a, x, "source of copy");
        c = *b; samemsg(c, y, "copy-assigned"); samemsg(*b, y, "source of assignment");
        T &r = c; c = r; samemsg(c, y, "self-assigned"); c = std::move(r); samemsg(c, y, "self-move-assigned");
        delete b; samemsg(c, y, "copy after its source is destroyed");
        T e(c); c = *a; samemsg(c, x, "assigned again"); samemsg(e, y, "copy of the earlier value");
        T m(std::move(*a)); samemsg(m, x, "move-constructed"); delete a;
        e = std::move(m); samemsg(e, x, "move-assigned");
        m = c; samemsg(m, x, "assigned into a moved-from object"); samemsg(c, x, "source");
        T n(std::move(m)); m = std::move(n); samemsg(m, x, "move-assigned into a moved-from object");
    });
}
static void p07() {
    auto text = [] { return coin(15) ? str() : coin(5) ? str(1 + u(3000), 'k') : H::rtext(30); };
    std::vector<str> em = {"a@b.co", "ab@cd.ef", "Xy_z@host.org", "a.b-c@d-e.info"};
    auto adrs = [&](size_t n) { std::vector<Adr> v; while (n--) v.push_back({H::pick(em), text()}); return v; };
    auto mk = [&](int k) {
        MM m; m.from = {H::pick(em), text()};
        m.to = adrs(k & 1 ? u(4) : 0); m.cc = adrs(k & 2 ? u(4) : 0); m.bcc = adrs(k & 4 ? u(3) : 0);
        for (size_t n = k & 8 ? 1 + u(3) : 0; n; n--) m.at.push_back({"f" + text(), text(), text()});
        m.subj = text(); m.body = text(); m.nul = int(u(64));
        if (m.to.size() == 1 && m.cc.size() < 2 && m.bcc.size() < 2) m.single = coin();
        return m;
    };
    for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) { msgvalues<PlaintextMessage>(mk(i), mk(j), "text/plain"); msgvalues<HTMLMessage>(mk(i), mk(j), "text/html"); }
    while (H::more()) { msgvalues<PlaintextMessage>(mk(u(16)), mk(u(16)), "text/plain"); msgvalues<HTMLMessage>(mk(u(16)), mk(u(16)), "text/html"); }
}
// ---------------------------------------------------------------- P21
static const std::map<int, str> ERRORS = {
#include "errors.inc"
};
static str emsg(int e) { auto i = ERRORS.find(e); return i == ERRORS.end() ? "No message correspond to this error code" : i->second; }
static void p21() {
    auto one = [](int e, int f) {
        H::run("error codes " + std::to_string(e) + ", " + std::to_string(f), [&] {
            ErrorResolver *a = new ErrorResolver(e), b(f);
            eqi(a->getErrorCode(), e, "code"); eqs(a->getErrorMessage(), emsg(e), "message");
            ErrorResolver c(*a); eqi(c.getErrorCode(), e, "copied code"); eqs(c.getErrorMessage(), emsg(e), "copied message"); eqs(a->getErrorMessage(), emsg(e), "source message");
            c = b; eqi(c.getErrorCode(), f, "assigned code"); eqs(c.getErrorMessage(), emsg(f), "assigned message"); eqs(b.getErrorMessage(), emsg(f), "source message");
            ErrorResolver &r = c; c = r; eqs(c.getErrorMessage(), emsg(f), "self-assigned message");
            ErrorResolver d(std::move(*a)); eqi(d.getErrorCode(), e, "moved code"); eqs(d.getErrorMessage(), emsg(e), "moved message"); delete a;
            c = std::move(d); eqs(c.getErrorMessage(), emsg(e), "move-assigned message"); eqi(c.getErrorCode(), e, "move-assigned code");
            char *p = SMTPClientBase::getErrorMessage(e); eqs(p, emsg(e), "getErrorMessage"); delete[] p;
            str m = emsg(e);
            for (size_t n : {size_t(1), size_t(2), size_t(10), m.size() - 1, m.size(), m.size() + 1, m.size() + 5}) {
                char *buf = (char *)malloc(n); memset(buf, 'Z', n);
                int rc = SMTPClientBase::getErrorMessage_r(e, buf, n);
                eqi(rc, n >= m.size() + 1 ? 0 : n - 1, "getErrorMessage_r result");
                if (n >= m.size() + 1) eqs(buf, m, "getErrorMessage_r text");
                else { ck(memchr(buf, 0, n) != nullptr, "getErrorMessage_r result is terminated inside the buffer"); str got(buf); ck(m.compare(0, got.size(), got) == 0, "getErrorMessage_r yields a prefix of the message"); }
                free(buf);
            }
        });
    };
    for (int i = -130; i < 700; i++) one(i, -i);
    for (auto &a : ERRORS) for (auto &b : ERRORS) if (H::more()) one(a.first, b.first);
    while (H::more()) one(int(H::rng()), coin() ? int(H::rng()) : int(u(700)) - 120);
}
// ---------------------------------------------------------------- P01, P02
static const str TAB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static str enc64(const str &b) {
    str r;
    size_t i = 0, groups = 0;
    auto at = [&](size_t k) -> unsigned { return k < b.size() ? (unsigned char)b[k] : 0; };
    for (; i < b.size(); i += 3) {
        unsigned v = at(i) << 16 | at(i + 1) << 8 | at(i + 2);
        size_t left = b.size() - i;
        r += TAB[v >> 18]; r += TAB[v >> 12 & 63];
        r += left > 1 ? TAB[v >> 6 & 63] : '='; r += left > 2 ? TAB[v & 63] : '=';
        if (left > 2 && ++groups % 16384 == 0) r += "\r\n";
    }
    return r;
}
static str dec64(const str &t) {
    str r;
    size_t n = 0;
    while (n < t.size() && TAB.find(t[n]) != str::npos) n++;
    unsigned v = 0;
    for (size_t i = 0; i < n; i++) {
        v = v << 6 | unsigned(TAB.find(t[i]));
        if (i % 4 == 3) { r += char(v >> 16); r += char(v >> 8); r += char(v); v = 0; }
    }
    if (n % 4 == 2) r += char(v >> 4);
    if (n % 4 == 3) { r += char(v >> 10); r += char(v >> 2); }
    return r;
}
static void p64(bool dec) {
    auto one = [dec](const str &b) {
        str t = dec ? b : str();
        H::run(dec ? "decode " + q(b) : "encode " + std::to_string(b.size()) + " bytes " + q(b), [&] {
            if (dec) eqs(Base64::Decode(b), dec64(b), "decoded bytes");
            else {
                std::vector<unsigned char> v(b.begin(), b.end());
                eqs(Base64::Encode(v.data(), v.size()), enc64(b), "encoded text");
            }
        });
    };
    auto bytes = [](size_t n) { str s; while (n--) s += char(H::rng()); return s; };
    auto sext = [](size_t n) { str s; while (n--) s += TAB[H::rng() % 64]; return s; };
    for (size_t n = 0; n < 12; n++) for (int k = 0; k < 20; k++) one(dec ? sext(n) : bytes(n));
    if (dec) {
        for (int c = 0; c < 256; c++) for (size_t n = 0; n < 6; n++) one(sext(n) + char(c) + sext(5));
        for (size_t n : {100, 1000, 65535, 65536, 65537, 70000, 131072, 200000}) { one(sext(n)); one(sext(n) + "=" + sext(3)); one(sext(n) + "\r\n" + sext(8)); }
        for (int n = 0; n < 30; n++) one(enc64(bytes(u(40))));
    } else
        for (size_t n : {49149, 49150, 49151, 49152, 49153, 49154, 49155, 49156, 98303, 98304, 98305, 98306, 147456, 150000, 200001}) one(bytes(n));
    while (H::more()) one(dec ? (coin() ? sext(u(50)) + bytes(u(3)) + sext(u(9)) : bytes(u(20))) : bytes(u(coin() ? 60 : 2000)));
}
int main(int argc, char **argv) {
    H::init(argc, argv);
    if (H::prop == "P03") p03(); else if (H::prop == "P04") p04(); else if (H::prop == "P05") p05(); else if (H::prop == "P06") p06(); else if (H::prop == "P07") p07(); else if (H::prop == "P21") p21(); else if (H::prop == "P01") p64(false); else if (H::prop == "P02") p64(true);
    return H::done();
}
