"""Which replay harness belongs to which property, and what each check trusts."""

ENGINE = ("the AST exporter (clang's own AST of the compiled sources), the symbolic engine in dv/ and the solvers z3 4.8.12/z3-new/cvc5 1.1.2 "
          "with the linear and string provers in dv/eqp.py, dv/smt.py")
LIB = "models of the C/C++ library functions called by the code (dv/lib.py), assumed to match libstdc++/glibc"
BASE = [ENGINE, LIB, "strings shorter than 2^30 bytes, counts below 2^32; allocation never fails; one thread; termination is proved only as progress of every iteration (and for waiting); no loop runs more than 2^56 times",
        "isspace/toupper/tolower in the C locale; isspace is taken to be defined for every char value (true of glibc)"]

HARNESS = {}
TRUST = {}


def prop(pid, harness=None, trust=(), secs=20):
    HARNESS[pid] = (harness, secs)
    TRUST[pid] = list(trust)


REGEX = "std::regex_match agrees with the regular-expression semantics for inputs of every length (libstdc++ recursion depth is ignored)"
prop("P01", "h_data")
prop("P02", "h_data")
prop("P03", "h_data")
prop("P04", "h_data")
prop("P05", "h_data", [REGEX])
prop("P06", "h_data", [REGEX])
prop("P07", "h_data")
prop("P21", "h_data")
OSNET = "models of the socket calls, poll, fcntl, sleep (dv/net.py), assumed to match POSIX; no byte is lost or invented by the system"
TLSLIB = "model of the OpenSSL functions called (dv/net.py); OpenSSL itself is trusted"
for pid in ("P08", "P09", "P10", "P11", "P17", "P22"):
    prop(pid, "h_net")
for pid in ("P12", "P13", "P14", "P15", "P16", "P18", "P19", "P20"):
    prop(pid, "h_net", [OSNET, TLSLIB])

# functions a property depends on that have no contract yet: bounded search instead (never counted as proved)
CB, SB = "SMTPClientBase::", "SecureSMTPClientBase::"
BOUNDED = {
}

# the network harness answers in the place of the operating system and of OpenSSL
WRAP = "socket gethostbyname connect poll select fcntl getsockopt setsockopt shutdown sleep send recv close".split()
LINK = {"h_net": ["-Wl,--wrap=" + w for w in WRAP]}
