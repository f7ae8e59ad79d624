"""developer's driver: python3-vt -m dv.tryit [-v] PATTERN..."""
import json, sys, glob, os, time, re
from .driver import *
from .env import Env
from . import frontend

def load():
    if os.environ.get("DV_AST"):
        return Program([json.load(open(f)) for f in sorted(glob.glob(os.environ["DV_AST"] + "/*.json"))])
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        return Program(frontend.export(t))

def init(*a):
    global A
    A = a


def shard(i):
    prog, env, s, f = A
    r = prove(prog, env, s, f, shard=(i, s.shards))
    r.obs = [O(o) for o in r.obs]
    r.spec = r.fn = None
    return r


class O:
    def __init__(self, o):
        self.name, self.loc, self.kind, self.status, self.out, self.goal, self.facts = o.name, o.loc, o.kind, o.status, o.out, str(o.goal)[:3000], [str(x)[:200] for x in o.facts or ()]


def targets(prog, env, pats):
    for s in env.contracts.specs:
        if not s.verify: continue
        if pats and not any(p in s.id for p in pats): continue
        fs = [f for f in list(prog.funcs.values()) + [m for m in prog.methods.values() if m["key"] not in prog.funcs] if s.matches(f)]
        yield s, fs

def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    v = "-v" in sys.argv
    prog = load()
    env = Env()
    for s, fs in targets(prog, env, a):
        if not fs:
            print("MISSING", s.id); continue
        f = fs[0]
        t = time.time()
        if s.shards > 1 and not os.environ.get("DV_NOSHARD"):
            import multiprocessing as mp
            q = mp.get_context("fork").Pool(8, init, (prog, env, s, f))
            rs = q.map(shard, range(s.shards), 1)
            q.terminate()
            r = rs[0]
            for x in rs[1:]:
                r.obs += x.obs
                r.paths += x.paths
                r.complete += x.complete
                if r.status == "ok":
                    r.status, r.reason = x.status, x.reason
        else:
            r = prove(prog, env, s, f)
        bad = [o for o in r.obs if o.status != "proved"]
        print("%-10s %-60s obs=%d bad=%d paths=%d/%d %.1fs %s" % ("OK" if r.status == "ok" and not bad else "FAIL" if r.status == "ok" else "UNSUP", s.id[:60], len(r.obs), len(bad), r.complete, r.paths, time.time() - t, r.reason or ""))
        seen = set()
        for o in bad:
            if (o.name, o.loc) in seen: continue
            seen.add((o.name, o.loc))
            print("     ", o.status, o.kind, o.loc, o.name, "|", str(o.goal)[:500])
            if v: print("        ", (o.out or "")[:800])
            if os.environ.get("FACTS"): print("       facts:", [str(x)[:200] for x in o.facts or ()])
        sys.stdout.flush()
if __name__ == "__main__":
    main()
