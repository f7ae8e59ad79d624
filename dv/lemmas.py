"""The lemmas about specification functions that contracts use, discharged by z3 on every run."""
import time
import z3


def trim():
    """s has n characters, w says which are white space; k: white-space prefix of s, m: white-space suffix of what is left,
    q: white-space suffix of s.  Nothing is left exactly when s is all white space (dv/specs/common.py: trim_lemma)"""
    n, k, m, q, j = z3.Ints("n k m q j")
    w = z3.Array("w", z3.IntSort(), z3.BoolSort())
    f = [n >= 0, k >= 0, k <= n, z3.ForAll(j, z3.Implies(z3.And(0 <= j, j < k), w[j])), z3.Implies(k < n, z3.Not(w[k])),
         m >= 0, m <= n - k, z3.ForAll(j, z3.Implies(z3.And(n - m <= j, j < n), w[j])), z3.Implies(m < n - k, z3.Not(w[n - m - 1])),
         q >= 0, q <= n, z3.ForAll(j, z3.Implies(z3.And(n - q <= j, j < n), w[j])), z3.Implies(q < n, z3.Not(w[n - q - 1]))]
    left = n - k - m
    p, r = z3.Ints("p r")     # p: white-space prefix of the first r characters
    g = f[:5] + [r >= 0, r <= n, p >= 0, p <= r, z3.ForAll(j, z3.Implies(z3.And(0 <= j, j < p), w[j])), z3.Implies(p < r, z3.Not(w[p]))]
    h = [q >= 0, q <= n, f[11], f[12], r >= 0, r <= n, p >= 0, p <= r,     # p: white-space suffix of the last r characters
         z3.ForAll(j, z3.Implies(z3.And(n - p <= j, j < n), w[j])), z3.Implies(p < r, z3.Not(w[n - p - 1]))]
    return [("a text is its own white-space prefix exactly when it is its own white-space suffix", f, (k == n) == (q == n)),
            ("white-space prefix and suffix of a text with other characters do not meet", f, z3.Or(k == n, k + q < n)),
            ("white-space prefix of the beginning of a text", g, p == z3.If(k <= r, k, r)),
            ("white-space suffix of the end of a text", h, p == z3.If(q <= r, q, r)),
            ("nothing is left of a trimmed text exactly when its white-space prefix is everything", f, (left == 0) == (k == n)),
            ("nothing is left of a trimmed text exactly when its white-space suffix is everything", f, (left == 0) == (q == n))]


def base64_length():
    """4 characters per group and 2 more after every 16384th (dv/specs/base64.py: encode): at most 4 characters per byte"""
    q, n, l = z3.Ints("q n l")
    G = 16384
    inv = lambda q, l: l == 4 * q + 2 * (q / G)
    step = l + 4 + z3.If((q + 1) % G == 0, 2, 0)
    tail = z3.If(n % 3 == 0, 0, 4)
    return [("length of the complete groups: first group", [q == 0, l == 0], inv(q, l)),
            ("length of the complete groups: next group", [q >= 0, inv(q, l)], inv(q + 1, step)),
            ("the Base64 text is at most four times as long as the bytes", [n >= 1, q == n / 3, inv(q, l)], l + tail <= 4 * n)]


def check():
    """[(name, proved, seconds)]"""
    out = []
    for name, facts, goal in trim() + base64_length():
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(facts)
        s.add(z3.Not(goal))
        out.append((name, s.check() == z3.unsat, time.time() - t0))
    return out


if __name__ == "__main__":
    for x in check():
        print(x)
