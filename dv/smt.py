"""Back ends.

Lia      : incremental in-process z3 over the linear-integer abstraction of the
           path condition (string atoms are opaque, their length consequences
           are kept).  Used for feasibility and for most obligations.
discharge: full problem (integers + strings) printed as SMT-LIB and given to
           the z3 and cvc5 binaries, in parallel, with a hard time limit.
"""
import os
import subprocess
import tempfile
import threading
import time
import z3
from .terms import *

z3.set_param("smt.random_seed", 1)
STATS = {"lia_calls": 0, "lia_time": 0.0, "full_calls": 0, "full_time": 0.0}


class Lia:
    def __init__(self):
        self.s = z3.SolverFor("QF_LIA") if False else z3.Solver()
        self.s.set("timeout", 4000)
        self.m = {}
        self.order = []          # terms translated, in order (side facts live at their level)
        self.levels = []
        self.side = []
        self.cache = {}
        self.sig = 0
        self.sigs = {}
        self.trail = []

    def push(self):
        self._flush()
        self.s.push()
        self.levels.append((len(self.order), self.sig))

    def depth(self):
        return len(self.levels)

    def pop_to(self, d):
        """leave exactly d - 1 open levels below the one being re-entered"""
        n = len(self.levels) - d
        d = max(d - 1, 0)
        k = len(self.levels) - d
        if k <= 0:
            return
        self.s.pop(k)
        o, sig = self.levels[d]
        del self.levels[d:]
        for t in self.order[o:]:
            del self.m[t]
        del self.order[o:]
        self.sig = sig
        self.side = []

    def tr(self, t):
        r = self.m.get(t)
        if r is None:
            r = self._tr(t)
            self.m[t] = r
            self.order.append(t)
        return r

    def atomI(self, t):
        v = z3.Int("a%d" % t.id)
        return v

    def atomB(self, t):
        return z3.Bool("b%d" % t.id)

    def _tr(self, t):
        o, a = t.op, t.args
        if o == "int":
            return z3.IntVal(a[0])
        if o == "bool":
            return z3.BoolVal(a[0])
        if o == "iv":
            v = z3.Int(a[0])
            if nonneg(t):
                self.side.append(v >= 0)
            return v
        if o == "bv":
            return z3.Bool(a[0])
        if o == "lin":
            return z3.Sum([z3.IntVal(a[0])] + [n * self.tr(x) for x, n in a[1]])
        if o == "mul":
            return self.tr(a[0]) * self.tr(a[1])
        if o == "div":
            return self.tr(a[0]) / a[1]
        if o == "mod":
            return self.tr(a[0]) % a[1]
        if o == "len":
            v = self.atomI(t)
            self.side.append(v >= 0)
            x = a[0]
            if x.op == "fold":
                w = length(x.args[0])
                k = self.tr(x.args[2])
                self.side.append(z3.Implies(k <= 0, v == 0))
            if x.op == "sub":
                self.side.append(v == self.tr(x.args[2]))
            return v
        if o == "code":
            v = self.atomI(t)
            cs = charset(a[0])
            if cs == 0:
                cs = ALL
            lo = (cs & -cs).bit_length() - 1
            hi = cs.bit_length() - 1
            self.side.append(z3.And(v >= lo, v <= hi))
            gaps = [c for c in range(lo, hi + 1) if not (cs >> c) & 1]
            if len(gaps) <= 8:
                for c in gaps:
                    self.side.append(v != c)
            return v
        if o == "idx":
            v = self.atomI(t)
            s, p, i = a
            self.side.append(v >= -1)
            L = self.tr(length(s))
            Pl = self.tr(length(p))
            self.side.append(z3.Or(v == -1, z3.And(v + Pl <= L, v >= self.tr(i))))
            return v
        if o == "ufI":
            return self.atomI(t)
        if o == "ite":
            return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if o == "not":
            return z3.Not(self.tr(a[0]))
        if o == "and":
            return z3.And(*[self.tr(x) for x in a])
        if o == "or":
            return z3.Or(*[self.tr(x) for x in a])
        if o == "iff":
            return self.tr(a[0]) == self.tr(a[1])
        if o == "le0":
            return self.tr(a[0]) <= 0
        if o == "eqI":
            return self.tr(a[0]) == 0
        if o == "eqS":
            b = self.atomB(t)
            self.side.append(z3.Implies(b, self.tr(length(a[0])) == self.tr(length(a[1]))))
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if x.op == "str" and y.op != "str":
                    for c in set(x.args[0]):
                        # a character of the constant occurs in y
                        k = indexof_raw(y, S(c), I(0))
                        if k.op == "idx":
                            self.side.append(z3.Implies(b, self.tr(k) >= 0))
            return b
        if o == "contains":
            # canonical form: 0 <= idx(s, p, 0)
            return self.tr(indexof_raw(a[0], a[1], I(0))) >= 0
        if o == "prefixof":
            b = self.atomB(t)
            self.side.append(z3.Implies(b, self.tr(length(a[0])) <= self.tr(length(a[1]))))
            return b
        if o in ("inre", "ufB"):
            return self.atomB(t)
        raise Exception("lia " + o)

    def _flush(self):
        if self.side:
            s, self.side = self.side, []
            self.s.add(*s)

    def add(self, f):
        e = self.tr(f)
        self._flush()
        self.s.add(e)
        k = (self.sig, f.id)
        if k not in self.sigs:
            self.sigs[k] = len(self.sigs) + 1
        self.sig = self.sigs[k]

    def sat_with(self, f):
        """False only if pc /\\ f is certainly unsatisfiable"""
        k = (self.sig, f)
        if k in self.cache:
            return self.cache[k]
        t0 = time.time()
        e = self.tr(f)
        self._flush()
        r = self.s.check(e)
        if r == z3.unknown:
            STATS["lia_unknown"] = STATS.get("lia_unknown", 0) + 1
        STATS["lia_calls"] += 1
        STATS["lia_time"] += time.time() - t0
        r = r != z3.unsat
        self.cache[k] = r
        return r

    def proves(self, f):
        if f.op == "bool":
            return f.args[0]
        return not self.sat_with(Not(f))


# ------------------------------------------------------------- SMT-LIB
def _strlit(s):
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch not in '"\\':
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return '"' + "".join(out) + '"'


def _int(n):
    return str(n) if n >= 0 else "(- %d)" % -n


def in_set(n, cs):
    """every character of the text is in the set"""
    rs = []
    c = 0
    while c < 256:
        if (cs >> c) & 1:
            d = c
            while d + 1 < 256 and (cs >> (d + 1)) & 1:
                d += 1
            rs.append("(re.range %s %s)" % (_strlit(chr(c)), _strlit(chr(d))) if d > c else "(str.to_re %s)" % _strlit(chr(c)))
            c = d + 1
        else:
            c += 1
    if not rs:
        return "(= %s \"\")" % n
    u = rs[0] if len(rs) == 1 else "(re.union %s)" % " ".join(rs)
    return "(str.in_re %s (re.* %s))" % (n, u)


class Printer:
    def __init__(self, regexes):
        self.decl = {}
        self.decl0 = set()
        self.axioms = []
        self.m = {}
        self.regexes = regexes
        self.funs = {}

    def p(self, t):
        r = self.m.get(t)
        if r is None:
            r = self._p(t)
            self.m[t] = r
        return r

    def opaque(self, t, sort):
        n = "t%d" % t.id
        if n not in self.decl:
            self.decl[n] = sort
            return n, True
        return n, False

    def cs_axiom(self, n, cs):
        if cs == ALL:
            return
        missing = [c for c in range(256) if not (cs >> c) & 1]
        if len(missing) <= 3:
            for c in missing:
                self.axioms.append("(not (str.contains %s %s))" % (n, _strlit(chr(c))))
        else:
            self.axioms.append(in_set(n, cs))

    def _p(self, t):
        o, a = t.op, t.args
        P = self.p
        if o == "int":
            return _int(a[0])
        if o == "bool":
            return "true" if a[0] else "false"
        if o in ("iv", "bv"):
            n = "|%s|" % a[0]
            self.decl[n] = "Int" if o == "iv" else "Bool"
            if o == "iv" and nonneg(t):
                self.axioms.append("(>= %s 0)" % n)
            return n
        if o == "sv":
            n = "|%s|" % a[0]
            if n not in self.decl:
                self.decl[n] = "String"
                self.cs_axiom(n, a[1])
            return n
        if o == "str":
            return _strlit(a[0])
        if o == "lin":
            xs = [_int(a[0])] if a[0] else []
            xs += [P(x) if n == 1 else "(* %s %s)" % (_int(n), P(x)) for x, n in a[1]]
            return xs[0] if len(xs) == 1 else "(+ %s)" % " ".join(xs)
        if o == "mul":
            return "(* %s %s)" % (P(a[0]), P(a[1]))
        if o == "div":
            return "(div %s %d)" % (P(a[0]), a[1])
        if o == "mod":
            return "(mod %s %d)" % (P(a[0]), a[1])
        if o == "len":
            return "(str.len %s)" % P(a[0])
        if o == "code":
            return "(str.to_code (str.at %s %s))" % (P(a[0]), P(a[1]))
        if o == "chr":
            return "(str.from_code %s)" % P(a[0])
        if o == "idx":
            return "(str.indexof %s %s %s)" % (P(a[0]), P(a[1]), P(a[2]))
        if o == "ite":
            return "(ite %s %s %s)" % (P(a[0]), P(a[1]), P(a[2]))
        if o == "not":
            return "(not %s)" % P(a[0])
        if o == "and":
            return "(and %s)" % " ".join(P(x) for x in a)
        if o == "or":
            return "(or %s)" % " ".join(P(x) for x in a)
        if o == "iff":
            return "(= %s %s)" % (P(a[0]), P(a[1]))
        if o == "le0":
            return "(<= %s 0)" % P(a[0])
        if o == "eqI":
            return "(= %s 0)" % P(a[0])
        if o == "eqS":
            return "(= %s %s)" % (P(a[0]), P(a[1]))
        if o == "prefixof":
            return "(str.prefixof %s %s)" % (P(a[0]), P(a[1]))
        if o == "contains":
            return "(str.contains %s %s)" % (P(a[0]), P(a[1]))
        if o == "cat":
            return "(str.++ %s)" % " ".join(P(x) for x in a)
        if o == "sub":
            return "(str.substr %s %s %s)" % (P(a[0]), P(a[1]), P(a[2]))
        if o == "rall":
            return "(str.replace_all %s %s %s)" % (P(a[0]), P(a[1]), P(a[2]))
        if o == "inre":
            return "(str.in_re %s %s)" % (P(a[0]), self.regexes[a[1]])
        if o == "fold":
            n, new = self.opaque(t, "String")
            if new:
                self.cs_axiom(n, charset(t))
                self.axioms.append("(=> (<= %s 0) (= %s \"\"))" % (P(a[2]), n))
                w = length(t)
                if w.op != "len":
                    self.axioms.append("(=> (>= %s 0) (= (str.len %s) %s))" % (P(a[2]), n, P(w)))
            return n
        if o in ("ufS", "ufI", "ufB"):
            srt = {"S": "String", "I": "Int", "B": "Bool"}
            f = "|f_%s_%s|" % (a[0], "".join(x.sort for x in a[1]))
            self.funs[f] = "(%s) %s" % (" ".join(srt[x.sort] for x in a[1]), srt[t.sort])
            e = "(%s %s)" % (f, " ".join(P(x) for x in a[1])) if a[1] else f
            if o == "ufI" and a[0].lstrip("r").startswith("span:") and e not in self.decl0:
                # the span covers the whole text exactly when every character is in the set
                self.decl0.add(e)
                x = P(a[1][0])
                self.axioms.append("(and (>= %s 0) (<= %s (str.len %s)))" % (e, e, x))
                self.axioms.append("(= (= %s (str.len %s)) %s)" % (e, x, in_set(x, int(a[0].split(":")[1], 16))))
            if o == "ufS":
                n, new = self.opaque(t, "String")
                if new:
                    self.axioms.append("(= %s %s)" % (n, e))
                    self.cs_axiom(n, a[2])
                    if a[0] in LENPRES:
                        self.axioms.append("(= (str.len %s) (str.len %s))" % (n, P(a[1][0])))
                return n
            return e
        raise Exception("print " + o)


def script(facts, goal, regexes):
    pr = Printer(regexes)
    body = [pr.p(f) for f in facts]
    g = pr.p(Not(goal))
    out = ["(set-logic ALL)"]
    for n, s in pr.decl.items():
        out.append("(declare-const %s %s)" % (n, s))
    for n, s in pr.funs.items():
        out.append("(declare-fun %s %s)" % (n, s))
    for x in pr.axioms + body:
        out.append("(assert %s)" % x)
    out.append("(assert %s)" % g)
    out.append("(check-sat)")
    return "\n".join(out) + "\n"


_lock = threading.Lock()


def run_solvers(text, timeout=20, want_model=False):
    """returns (status, backend, seconds, output) with status in unsat/sat/unknown"""
    t0 = time.time()
    d = os.environ.get("DV_TMP", "/tmp")
    fd, path = tempfile.mkstemp(suffix=".smt2", dir=d)
    z = text + ("(get-model)\n" if want_model else "")
    os.write(fd, z.encode())
    os.close(fd)
    procs = []
    try:
        cmds = [("z3-new", ["z3-new", "-T:%d" % int(timeout), path]),
                ("cvc5", ["cvc5", "--strings-exp", "--produce-models", "--tlimit=%d" % int(timeout * 1000), path])]
        for n, c in cmds:
            try:
                procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            except OSError:
                pass
        best = ("unknown", "none", "")
        live = dict(procs)
        outs = {}

        def reader(n, p):
            o, _ = p.communicate()
            outs[n] = o
        ths = []
        for n, p in procs:
            th = threading.Thread(target=reader, args=(n, p))
            th.start()
            ths.append((n, th))
        end = t0 + timeout + 2
        done = set()
        while time.time() < end and len(done) < len(procs):
            for n, th in ths:
                if n in done:
                    continue
                th.join(0.004)
                if not th.is_alive():
                    done.add(n)
                    o = outs.get(n, "")
                    first = o.strip().split("\n")[0].strip() if o.strip() else ""
                    if first in ("unsat", "sat"):
                        best = (first, n, o)
                        end = 0
                        break
                    if best[0] == "unknown":
                        best = ("unknown", n, o)
        for n, p in procs:
            if p.poll() is None:
                p.kill()
        for n, th in ths:
            th.join(1)
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    dt = time.time() - t0
    with _lock:
        STATS["full_calls"] += 1
        STATS["full_time"] += dt
    return best[0], best[1], dt, best[2]
