"""ECMAScript regular expression -> SMT-LIB regular expression (the subset used for validation)."""


def define(regs, pat):
    nm = "re:" + pat
    if nm not in regs:
        regs[nm] = to_smt(pat)
    return nm


def _lit(c):
    o = ord(c)
    return '"%s"' % c if 32 <= o < 127 and c not in '"\\' else '"\\u{%x}"' % o


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else "(re.union %s)" % " ".join(xs)

    def seq(self):
        xs = []
        while self.peek() not in (None, "|", ")"):
            xs.append(self.rep())
        if not xs:
            return '(str.to_re "")'
        return xs[0] if len(xs) == 1 else "(re.++ %s)" % " ".join(xs)

    def rep(self):
        a = self.atom()
        while True:
            c = self.peek()
            if c == "*":
                a = "(re.* %s)" % a
            elif c == "+":
                a = "(re.+ %s)" % a
            elif c == "?":
                a = "(re.opt %s)" % a
            elif c == "{":
                j = self.s.index("}", self.i)
                b = self.s[self.i + 1:j].split(",")
                lo = int(b[0])
                if len(b) == 1:
                    a = "((_ re.^ %d) %s)" % (lo, a)
                elif b[1] == "":
                    a = "(re.++ ((_ re.^ %d) %s) (re.* %s))" % (lo, a, a)
                else:
                    a = "((_ re.loop %d %d) %s)" % (lo, int(b[1]), a)
                self.i = j
            else:
                return a
            self.i += 1
            if self.peek() == "?":
                self.i += 1

    ESC = {"n": "\n", "r": "\r", "t": "\t", "f": "\f", "v": "\v", "0": "\0"}
    CL = {"d": [("0", "9")], "w": [("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_")],
          "s": [(" ", " "), ("\t", "\r")]}

    def cls(self, rs, negated=False):
        ok = [False] * 256
        for a, b in rs:
            for c in range(ord(a), ord(b) + 1):
                ok[c] = True
        if negated:
            ok = [not x for x in ok]
        out = []
        c = 0
        while c < 256:
            if ok[c]:
                d = c
                while d + 1 < 256 and ok[d + 1]:
                    d += 1
                out.append("(re.range %s %s)" % (_lit(chr(c)), _lit(chr(d))))
                c = d + 1
            else:
                c += 1
        if not out:
            return "re.none"
        return out[0] if len(out) == 1 else "(re.union %s)" % " ".join(out)

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.s[self.i:self.i + 2] == "?:":
                self.i += 2
            r = self.alt()
            self.i += 1
            return r
        if c == ".":
            return self.cls([("\n", "\n"), ("\r", "\r")], True)
        if c == "^":
            if self.i != 1:
                raise ValueError("anchor")
            return '(str.to_re "")'
        if c == "$":
            if self.i != len(self.s):
                raise ValueError("anchor")
            return '(str.to_re "")'
        if c == "[":
            neg = False
            if self.s[self.i] == "^":
                neg = True
                self.i += 1
            rs = []
            while self.s[self.i] != "]":
                a = self.s[self.i]
                self.i += 1
                if a == "\\":
                    a = self.s[self.i]
                    self.i += 1
                    if a in self.CL:
                        rs += self.CL[a]
                        continue
                    a = self.ESC.get(a, a)
                if self.s[self.i] == "-" and self.s[self.i + 1] != "]":
                    b = self.s[self.i + 1]
                    self.i += 2
                    if b == "\\":
                        b = self.s[self.i]
                        self.i += 1
                    rs.append((a, b))
                else:
                    rs.append((a, a))
            self.i += 1
            return self.cls(rs, neg)
        if c == "\\":
            d = self.s[self.i]
            self.i += 1
            if d in self.CL:
                return self.cls(self.CL[d])
            if d.lower() in self.CL:
                return self.cls(self.CL[d.lower()], True)
            c = self.ESC.get(d, d)
        return "(str.to_re %s)" % _lit(c)


def to_smt(pat):
    p = P(pat)
    r = p.alt()
    if p.i != len(pat):
        raise ValueError("regular expression " + pat)
    return r
