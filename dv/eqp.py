"""Equality of byte-string terms by structural reasoning under the path condition:
case split on conditions, cancel common ends, peel folds, compare folds pointwise."""
from .terms import *


def first_ite(t):
    """some condition of an ite at the string level of t (outside fold bodies)"""
    if t.op == "ite":
        return t.args[0]
    if t.op in ("cat",):
        for a in t.args:
            c = first_ite(a)
            if c is not None:
                return c
    if t.op == "sub":
        return first_ite(t.args[0])
    if t.op in ("ufS",):
        for a in t.args[1]:
            if isinstance(a, Term) and a.sort == "S":
                c = first_ite(a)
                if c is not None:
                    return c
    if t.op == "rall":
        return first_ite(t.args[0])
    return None


def pick(t, c, v):
    """t with every ite on condition c resolved"""
    return rebuild_ite(t, c, v)


def rebuild_ite(t, c, v):
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x is c:
            r = B(v)
        elif x.op == "ite" and x.args[0] is c:
            r = go(x.args[1] if v else x.args[2])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def settled(I_, t, v, k):
    """t with the conditions that hold for all 0 <= v < k resolved"""
    snap = I_.snapshot()
    try:
        I_.assume(And(ge(v, I(0)), lt(v, k)))
        for c in [x.args[0] for x in all_subterms([t]) if x.op == "ite"]:
            b = I_.known(c)
            if b is not None:
                t = pick(t, c, b)
    except Exception as ex:
        if type(ex).__name__ != "PathEnd":
            raise
    finally:
        I_.release(snap)
    return t


def unit_fold(t):
    return t.op == "fold"


def eqprove(I_, a, b, depth=0, fuel=None):
    if fuel is None:
        fuel = [400]
    fuel[0] -= 1
    if fuel[0] < 0 or depth > 60:
        return False
    e = I_.simp(eqS(a, b))
    if e is TRUE:
        return True
    if e is FALSE:
        return not I_.lia.sat_with(TRUE)
    # drop provably empty atoms, resolve settled conditions
    for t in (a, b):
        c = first_ite(t)
        if c is not None:
            k = I_.known(c)
            if k is not None:
                return eqprove(I_, pick(a, c, k), pick(b, c, k), depth + 1, fuel)
            for v in (True, False):
                snap = I_.snapshot()
                try:
                    try:
                        I_.assume(c if v else Not(c))
                        ok = eqprove(I_, pick(a, c, v), pick(b, c, v), depth + 1, fuel)
                    except Exception as ex:
                        if type(ex).__name__ != "PathEnd":
                            raise
                        ok = True
                finally:
                    I_.release(snap)
                if not ok:
                    return False
            return True
    la, lb = list(atoms(a)), list(atoms(b))

    # folds of provably related length: split the longer one
    x, y = (la[0], lb[0]) if la and lb else (a, b)
    if x is not y and x.op == "fold" and y.op == "fold" and x.args[0] is y.args[0]:
        k1, k2 = x.args[2], y.args[2]
        for p, q, k, m, lp, lq in ((x, y, k1, k2, la, lb), (y, x, k2, k1, lb, la)):
            if I_.proves(le(m, k)) and I_.proves(ge(m, I(0))):
                d = sub(k, m)
                if d.op == "int" and 0 <= d.args[0] <= 4:
                    rest = cat(*[subst(p.args[0], {p.args[1]: add(m, I(i))}) for i in range(d.args[0])])
                    return eqprove(I_, cat(rest, *lp[1:]), cat(*lq[1:]), depth + 1, fuel)

    def tidy(l):
        out = []
        for x in l:
            if x.op not in ("str", "chr") and I_.proves(eqI(length(x), I(0))):
                continue
            out.append(x)
        return out
    ta, tb = tidy(la), tidy(lb)
    if len(ta) != len(la) or len(tb) != len(lb):
        return eqprove(I_, cat(*ta), cat(*tb), depth + 1, fuel)
    if not la or not lb:
        return False
    for front in (True, False):
        x, y = (la[0], lb[0]) if front else (la[-1], lb[-1])
        if x is y or atom_eq(I_, x, y, depth, fuel):
            if front:
                return eqprove(I_, cat(*la[1:]), cat(*lb[1:]), depth + 1, fuel)
            return eqprove(I_, cat(*la[:-1]), cat(*lb[:-1]), depth + 1, fuel)
    # byte for byte the same map of one text
    for x, y in ((a, b), (b, a)):
        if x.op == "fold" and y.op == "ufS" and (y.args[0] in ("lower", "upper") or y.args[0].startswith("map:")):
            from .lib import map_bytes
            s = y.args[1][0]
            body, v, k = x.args
            if body.op == "chr" and I_.eqP(k, length(s)):
                r = code(s, v)
                body = settled(I_, body, v, k)
                fs = [subst(body.args[0], {r: I(c)}) for c in range(256)]
                if all(f.op == "int" for f in fs) and map_bytes(s, [f.args[0] for f in fs]) is y:
                    return True
    # peel one element off the front of a fold facing something else
    for l, o in ((la, lb), (lb, la)):
        x = l[0]
        if x.op == "fold" and o[0].op != "fold" and I_.proves(ge(x.args[2], I(1))):
            body, v, k = x.args
            h = subst(body, {v: I(0)})
            t = fold(subst(body, {v: add(v, I(1))}), v, sub(k, I(1)))
            return eqprove(I_, cat(h, t, *l[1:]), cat(*o), depth + 1, fuel)
        x = l[-1]
        if x.op == "fold" and o[-1].op != "fold" and I_.proves(ge(x.args[2], I(1))):
            body, v, k = x.args
            t = subst(body, {v: sub(k, I(1))})
            return eqprove(I_, cat(*l[:-1], fold(body, v, sub(k, I(1))), t), cat(*o), depth + 1, fuel)
    return False


def atom_eq(I_, x, y, depth, fuel):
    if x is y:
        return True
    if x.op == "fold" and y.op == "fold":
        if not eq_int(I_, x.args[2], y.args[2]):
            return False
        j = ivar(I_.fresh("n!j"))
        snap = I_.snapshot()
        try:
            try:
                I_.assume(And(ge(j, I(0)), lt(j, x.args[2])))
            except Exception as ex:
                if type(ex).__name__ != "PathEnd":
                    raise
                return True
            return eqprove(I_, subst(x.args[0], {x.args[1]: j}), subst(y.args[0], {y.args[1]: j}), depth + 1, fuel)
        finally:
            I_.release(snap)
    if x.op == "chr" and y.op == "chr":
        return eq_int(I_, x.args[0], y.args[0])
    if x.op == "chr" and y.op == "sub" or x.op == "sub" and y.op == "chr":
        c, s = (x, y) if x.op == "chr" else (y, x)
        if s.args[2] is I(1):
            return eq_int(I_, c.args[0], code(s.args[0], s.args[1]))
        return False
    if x.op == "sub" and y.op == "sub":
        return (x.args[0] is y.args[0] or eqprove(I_, x.args[0], y.args[0], depth + 1, fuel)) and eq_int(I_, x.args[1], y.args[1]) and eq_int(I_, x.args[2], y.args[2])
    if x.op == "ufS" and y.op == "ufS" and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]):
        for p, q in zip(x.args[1], y.args[1]):
            if p is q:
                continue
            if p.sort != q.sort:
                return False
            if p.sort == "S":
                if not eqprove(I_, p, q, depth + 1, fuel):
                    return False
            elif p.sort == "I":
                if not eq_int(I_, p, q):
                    return False
            else:
                return False
        return True
    if x.op == "rall" and y.op == "rall" and x.args[1] is y.args[1] and x.args[2] is y.args[2]:
        return eqprove(I_, x.args[0], y.args[0], depth + 1, fuel)
    return False


def eq_int(I_, p, q):
    """p == q, with congruence over the bytes they read"""
    if I_.eqP(p, q):
        return True
    cs = sorted({x for x in all_subterms([p, q]) if x.op == "code"})
    m = {}
    for i, x in enumerate(cs):
        for y in cs[:i]:
            if x.args[0] is y.args[0] and I_.eqP(x.args[1], y.args[1]):
                m[x] = m.get(y, y)
                break
    if not m:
        return False
    return I_.eqP(subst(p, m), subst(q, m))
