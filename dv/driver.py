"""Verifies the functions a property depends on against their contracts."""
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from .machine import *
from .interp import Program, Interp
from .contracts import Ctx, Contracts
from .lib import Lib
from .loops import Loops
from . import smt

sys.setrecursionlimit(20000)


class FnResult:
    def __init__(self, spec, fn):
        self.spec, self.fn = spec, fn
        self.loops = False
        self.obs, self.status, self.reason = [], "ok", None
        self.paths, self.complete, self.secs = 0, 0, 0.0
        self.applied, self.inlined, self.called = set(), set(), set()


def make_interp(prog, env):
    I_ = Interp(prog, env.lib(), env.contracts, env.regexes)
    I_.loops = Loops()
    I_.views = env.views
    return I_


def prove(prog, env, spec, fn, budget=300, shard=None, timeout=10, workers=4):
    """verify and discharge; when something stays open, once more with every loop turned
    (the invariant then speaks of the state behind the loop test instead of before it)"""
    r = verify(prog, env, spec, fn, budget, shard)
    discharge(r.obs, env.regexes, timeout, workers)
    progress(r)
    if r.loops and r.secs < budget / 3 and not good(r):
        q = verify(prog, env, spec, fn, budget / 2, shard, True)
        discharge(q.obs, env.regexes, timeout, workers)
        progress(q)
        if good(q):
            return q
    return r


def progress(r):
    """without a proof that a loop gets on, the function is searched for a call that does not return"""
    bad = [o for o in r.obs if o.kind == "progress" and o.status != "proved"]
    if bad:
        r.obs = [o for o in r.obs if o not in bad]
        if r.status == "ok":
            r.status, r.reason = "unsupported", "a loop may stand still (line %s)" % bad[0].loc


def good(r):
    return r.status == "ok" and all(o.status == "proved" for o in r.obs)


def verify(prog, env, spec, fn, budget=300, shard=None, rotate=False):
    r = FnResult(spec, fn)
    t0 = time.time()
    I_ = make_interp(prog, env)
    I_.rotate = rotate
    I_.budget = t0 + budget
    I_.noapply = {spec.id}
    I_.default_props = spec.props
    I_.func = spec.id
    I_.shard = shard

    def one():
        c = Ctx(I_, spec, fn, "verify")
        env.init_ghosts(I_, c)
        try:
            spec.fn(c)
        except (AttributeError, TypeError, Unsupported) as e:
            # the contract looks at the result of a call that ended with an exception
            if getattr(c, "outcome", None) and c.outcome[0] == "throw" and not c.exc and (not isinstance(e, Unsupported) or str(e).startswith("result ")):
                I_.fail("no exception escapes (%s)" % c.outcome[1], "post")
            raise
        c.finish()
        return None
    try:
        for kind, val in I_.explore(one):
            r.paths += 1
            if kind == "throw":
                raise Unsupported("exception escapes the specification: %s" % (val.typ,))
            if kind in ("ret", "brk", "cont"):
                raise Unsupported("control flow escapes: %s" % kind)
    except Unsupported as e:
        r.status, r.reason = "unsupported", "%s (line %s)" % (e, I_.line)
    except RecursionError:
        r.status, r.reason = "unsupported", "recursion limit"
    except Exception as e:
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
        r.status, r.reason = "unsupported", "internal: %s: %s (line %s)" % (type(e).__name__, e, I_.line)
    r.obs = I_.obs
    r.loops = "loopcache" in I_.__dict__
    r.complete = I_.ncomplete
    r.applied, r.inlined, r.called = I_.applied, I_.inlined, I_.called
    r.secs = time.time() - t0
    if r.status == "ok" and r.complete == 0 and not any(o.status == "open" for o in r.obs):
        r.status, r.reason = "unsupported", "no path reaches the end of the contract (vacuous)"
    return r


def discharge(obs, regexes, timeout=10, workers=4):
    """string/integer solvers on what the linear prover left open"""
    todo = [o for o in obs if o.status == "open"]

    def one(o):
        try:
            text = smt.script(o.facts, o.goal, regexes)
        except Exception as e:
            o.status, o.by, o.out = "unknown", "none", "not expressible for the string solvers: %s" % e
            return
        st, by, secs, out = smt.run_solvers(text, timeout, want_model=True)
        o.secs = (o.secs or 0) + secs
        o.by, o.out = by, out[:4000]
        o.status = {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[st]
    with ThreadPoolExecutor(workers) as tp:
        list(tp.map(one, todo))
