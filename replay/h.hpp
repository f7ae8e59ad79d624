// Common parts of the replay harnesses: each runs the real code, compiled from
// /repo's current sources, on directed and generated inputs against an oracle
// written from the property.  usage: HARNESS PROP SEED SECONDS OUTFILE [MAXCASES]
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <string>
#include <vector>
#include <random>
#include <functional>
#include <map>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));

namespace H {
inline std::mt19937_64 rng;
inline std::string prop, out, cur;
inline double tend;
inline long cases = 0, maxcases = 0;
inline long live = 0;
inline bool hooked = false;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool more() { return now() < tend && (maxcases == 0 || cases < maxcases); }

inline std::string q(const std::string &s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    if (r.size() > 400) r = r.substr(0, 400) + "...(" + std::to_string(s.size()) + " bytes)";
    return r + "\"";
}
inline std::string q(const char *s) { return s ? q(std::string(s)) : "null"; }

inline void report(const char *what) {
    FILE *f = fopen(out.c_str(), "w");
    if (f) {
        fprintf(f, "property: %s\ninput: %s\nfailure: %s\n", prop.c_str(), cur.c_str(), what);
        fclose(f);
    }
}
[[noreturn]] inline void fail(const std::string &what) {
    report(what.c_str());
    printf("FOUND %s | %s\n", what.c_str(), cur.c_str());
    fflush(stdout);
    _exit(1);
}
inline void ck(bool ok, const std::string &what) { if (!ok) fail(what); }
inline void eqs(const std::string &got, const std::string &want, const std::string &what) {
    if (got != want) fail(what + ": got " + q(got) + " expected " + q(want));
}
inline void eqs(const char *got, const std::string &want, const std::string &what) {
    if (!got) fail(what + ": got null expected " + q(want));
    eqs(std::string(got), want, what);
}
template <class A, class B> inline void eqi(A got, B want, const std::string &what) {
    if ((long long)got != (long long)want) fail(what + ": got " + std::to_string((long long)got) + " expected " + std::to_string((long long)want));
}
inline void on_death() { report("undefined behaviour or memory error (AddressSanitizer/UBSan report on stderr)"); }
inline void on_sig(int s) {
    report(s == SIGALRM ? "the call does not return (30 s)" : "the program is killed by a signal (crash or uncaught exception)");
    _exit(1);
}
inline void mhook(const volatile void *, size_t) { live++; }
inline void fhook(const volatile void *p) { if (p) live--; }

// runs one case; a case that keeps memory on every run leaks
inline void run(const std::string &desc, const std::function<void()> &f, bool leaks = true) {
    cur = desc;
    cases++;
    alarm(30);
    f();
    if (leaks) {
        // allocations kept by every one of two further runs
        long a = live; f(); long b = live;
        if (b > a) {
            long c = live; f(); long d = live;
            if (d > c) fail("memory is leaked: " + std::to_string(d - c) + " allocation(s) per run");
        }
    }
    alarm(0);
}

// ---- generators
inline uint64_t u(uint64_t n) { return n ? rng() % n : 0; }
inline bool coin(int pct = 50) { return (int)u(100) < pct; }
template <class T> inline const T &pick(const std::vector<T> &v) { return v[u(v.size())]; }
inline std::string rstr(size_t maxlen, const std::string &alphabet = "") {
    size_t n = u(maxlen + 1);
    std::string s;
    for (size_t i = 0; i < n; i++) {
        if (alphabet.empty()) { s += char(1 + u(255)); }
        else s += alphabet[u(alphabet.size())];
    }
    return s;
}
// the string literals of the sources under test (DV_DICT: a file, entries end in NUL)
inline const std::vector<std::string> &dict() {
    static std::vector<std::string> v; static bool done = false;
    if (!done) {
        done = true;
        const char *e = getenv("DV_DICT");
        if (FILE *f = e ? fopen(e, "rb") : nullptr) { std::string s; for (int c; (c = fgetc(f)) != EOF;) if (c) s += char(c); else { v.push_back(s); s.clear(); } fclose(f); }
        if (v.empty()) v.push_back("sep");
    }
    return v;
}
inline std::string dword(bool line = false) {
    for (int i = 0; i < 8; i++) { const std::string &s = pick(dict()); if (!line || s.find_first_of("\r\n") == std::string::npos) return s; }
    return "x";
}
inline std::string rtext0(size_t maxlen) {
    switch (u(6)) {
        case 0: return rstr(maxlen);
        case 1: return rstr(maxlen, "abc XYZ.@-_0159");
        case 2: return rstr(maxlen, " \t\r\n\v\f");
        case 3: return rstr(maxlen, "ab \r\n\".<>,;:=-");
        case 4: return "";
        default: return rstr(maxlen < 12 ? maxlen : 12);
    }
}
inline std::string rtext(size_t maxlen) {
    std::string s = rtext0(maxlen);
    if (coin(10)) s.insert(u(s.size() + 1), dword());
    return s;
}
inline void init(int argc, char **argv) {
    prop = argc > 1 ? argv[1] : "";
    rng.seed(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
    tend = now() + (argc > 3 ? atof(argv[3]) : 5);
    out = argc > 4 ? argv[4] : "/dev/null";
    maxcases = argc > 5 ? atol(argv[5]) : 0;
    __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_sig); signal(SIGALRM, on_sig); signal(SIGPIPE, SIG_IGN);
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
}
inline int done() {
    printf("CASES %ld\n", cases);
    return 0;
}
}  // namespace H
