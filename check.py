#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current sources."""
import json
import multiprocessing as mp
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dv import driver, frontend, lemmas, smt             # noqa: E402
from dv.env import Env                                   # noqa: E402
from dv.interp import Program                            # noqa: E402
from dv import props as P                                # noqa: E402

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER") or "quick"
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
REPLAYS = 6
SEED = int(os.environ.get("VERIF_SEED") or 1)
T0 = time.time()
THOROUGH = TIER == "thorough"
FNBUDGET = 900 if THOROUGH else 240
SOLVER = 60 if THOROUGH else 15
WALL = 3000 if THOROUGH else 560


def job(sid, shard):
    """verifies one contract (or a part of its cases) in a worker process"""
    spec = next(s for s in G["env"].contracts.specs if s.id == sid)
    fn = G["fns"][sid]
    r = driver.prove(G["prog"], G["env"], spec, fn, FNBUDGET, (shard, spec.shards) if spec.shards > 1 else None, SOLVER, 2)
    obs = []
    for o in r.obs:
        d = dict(name=o.name, kind=o.kind, line=o.loc, status=o.status, by=o.by, secs=o.secs or 0.0, goal=None, out=None, func=o.func)
        if o.status != "proved":
            d["goal"], d["out"] = str(o.goal)[:4000], (o.out or "")[:6000]
            d["facts"] = [str(x)[:600] for x in (o.facts or ())][:400]
        obs.append(d)
    return dict(spec=sid, fn=fn["name"], file=fn.get("file"), status=r.status, reason=r.reason, obs=obs, paths=r.paths, complete=r.complete, secs=r.secs,
                applied=sorted(r.applied), inlined=sorted(r.inlined), shards=1)


def verify_all():
    """every contract of the property and every contract those rest on"""
    env = G["env"]
    ids = {s.id: s for s in env.contracts.specs}
    want, seen, results, missing = [], set(), {}, []

    def push(sid):
        if sid in seen or sid not in ids or not ids[sid].verify:
            return
        seen.add(sid)
        fs = [f for f in G["allfns"] if ids[sid].matches(f)]
        if not fs:
            missing.append(sid)
            return
        G["fns"][sid] = fs[0]
        for k in range(ids[sid].shards):
            want.append((sid, k))

    def merge(r):
        sid = r["spec"]
        if sid not in results:
            results[sid] = r
            return
        t = results[sid]
        t["shards"] += 1
        t["obs"] += r["obs"]
        for k in ("paths", "complete", "secs"):
            t[k] += r[k]
        for k in ("applied", "inlined"):
            t[k] = sorted(set(t[k]) | set(r[k]))
        if t["status"] == "ok":
            t["status"], t["reason"] = r["status"], r["reason"]
    for s in env.contracts.specs:
        if PID in s.props:
            push(s.id)
    ctx = mp.get_context("fork")
    running = {}
    failed = False
    while want or running:
        while want and len(running) < 8:
            sid, shard = want.pop(0)
            a, b = ctx.Pipe(False)

            def body(sid=sid, shard=shard, b=b):
                try:
                    b.send(job(sid, shard))
                except BaseException as e:
                    b.send(dict(spec=sid, fn=sid, file=None, status="unsupported", reason="internal: %r" % (e,), obs=[], paths=0, complete=0, secs=0, applied=[], inlined=[]))
                b.close()
                os._exit(0)
            p = ctx.Process(target=body)
            p.start()
            b.close()
            running[(sid, shard)] = (p, a)
        for (sid, shard), (p, a) in list(running.items()):
            done = a.poll(0.02)
            if not done and p.is_alive() and time.time() - T0 < WALL:
                continue
            r = None
            if done:
                try:
                    r = a.recv()
                except EOFError:
                    r = None
            if r is None:
                r = dict(spec=sid, fn=sid, file=None, status="unsupported", reason="the verifier ran out of time or memory", obs=[], paths=0, complete=0, secs=0, applied=[], inlined=[])
            if p.is_alive():
                p.kill()
            p.join()
            del running[(sid, shard)]
            merge(r)
            if any(o["status"] != "proved" for o in r["obs"]):
                failed = True
            for x in r["applied"]:
                push(x)
    if results:
        # facts about the specification functions themselves that the contracts use
        sid = "lemmas of the specification"
        obs = [dict(name=n, kind="lemma", line=0, status="proved" if ok else "failed", by="z3-lemma", secs=dt, goal=n, out="", func=sid) for n, ok, dt in lemmas.check()]
        results[sid] = dict(spec=sid, fn=sid, file=None, status="ok", reason=None, obs=obs, paths=1, complete=1, secs=0, applied=[], inlined=[], shards=1)
    return results, missing


def known():
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    for l in open(f):
        # open: property=P | contract | obligation | what fails
        if l.startswith("open: property=%s |" % PID):
            x = [y.strip() for y in l.split("|")]
            out.append(dict(function=x[1], obligation=x[2], what=x[3]))
    return out


def build_harness(h, tmp):
    src = os.path.join(frontend.REPO, "src")
    flags = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-U_FORTIFY_SOURCE", "-I" + src, "-I" + src + "/cpp", "-w"]
    jobs = []
    objs = []
    for f in frontend.sources() + [os.path.join(ROOT, "replay", h + ".cpp")]:
        o = os.path.join(tmp, f.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((["g++"] + flags + ["-c", f, "-o", o]))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp:
        rs = list(tp.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs))
    for r in rs:
        if r.returncode:
            return None, r.stdout[-3000:]
    exe = os.path.join(tmp, h)
    r = subprocess.run(["g++"] + flags + objs + ["-o", exe] + P.LINK.get(h, ["-lssl", "-lcrypto"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-3000:]
    return exe, ""


def literals():
    """numbers and strings that occur in the sources, to steer the search for an input"""
    import re
    codes, words = [], []
    for f in sorted(glob.glob("/repo/src/*.*pp") + glob.glob("/repo/src/*.h") + glob.glob("/repo/src/cpp/*.*")):
        t = open(f, "rb").read()
        for m in re.findall(rb"(?<![\w.])([1-9][0-9][0-9])(?![\w.])", t):
            if m.decode() not in codes:
                codes.append(m.decode())
        for m in re.findall(rb'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                w = m.decode("latin-1").encode("latin-1").decode("unicode_escape").encode("latin-1").replace(b"\0", b"")
            except Exception:                                  # noqa: BLE001
                continue
            if 0 < len(w) <= 60 and w not in words:
                words.append(w)
    return ",".join(codes), words


def replay(secs):
    """searches a concrete failing input on the real code; (found, text, cases)"""
    h, _ = P.HARNESS.get(PID, (None, 0))
    if not h:
        return False, "no replay harness for this property", 0
    tmp = tempfile.mkdtemp(prefix="dvreplay")
    os.chmod(tmp, 0o755)
    try:
        exe, err = build_harness(h, tmp)
        if exe is None:
            return False, "the replay harness does not build: " + err, 0
        cases, notes = 0, ""
        codes, words = literals()
        dic = os.path.join(tmp, "dict")
        with open(dic, "wb") as f:
            f.write(b"".join(w + b"\0" for w in words))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", DV_CODES=codes, DV_DICT=dic)
        runs = []
        for k in range(REPLAYS):
            work = os.path.join(tmp, "work%d" % k)
            os.makedirs(work)
            out, log = os.path.join(tmp, "out%d.txt" % k), os.path.join(tmp, "log%d.txt" % k)
            with open(log, "wb") as lf:
                runs.append((k, out, log, subprocess.Popen([exe, PID, str(SEED + k), str(secs), out], stdout=lf, stderr=subprocess.STDOUT, env=dict(env, TMPDIR=work), cwd=work)))
        found = None
        end = time.time() + secs + 120
        for k, out, log, p in runs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                notes += "a replay search did not finish; "
                continue
            txt = open(log, errors="replace").read()
            for l in txt.splitlines():
                if l.startswith("CASES "):
                    cases += int(l.split()[1])
            if p.returncode != 0 and not os.path.exists(out):
                # stopped without a report: the build of the harness or the sandbox, not the code
                notes += "the replay harness stopped without a report: " + txt[-1500:]
            elif p.returncode != 0 and found is None:
                found = open(out, errors="replace").read() + "\n--- program output\n" + txt[-6000:] + \
                    "\n--- rerun: build replay/%s.cpp with /repo/src/*.cpp /repo/src/cpp/*.cpp under -fsanitize=address,undefined and run it with arguments %s %d %s OUT (environment: DV_CODES, the three-digit numbers, and DV_DICT, the string literals of the sources)\n" % (h, PID, SEED + k, secs)
        if found is not None:
            return True, found, cases
        return False, notes, cases
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_program():
    tmp = tempfile.mkdtemp(prefix="dvast")
    try:
        return Program(frontend.export(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


G = {}


def main():
    prog = load_program()
    env = Env()
    G.update(prog=prog, env=env, fns={}, allfns=list(prog.funcs.values()) + [m for m in prog.methods.values() if m["key"] not in prog.funcs])
    tload = time.time() - T0
    results, missing = verify_all()
    kf = known()
    bad, unsup, hits = [], [], {}
    nobs = ndis = 0
    by = {}
    funcs = []
    for sid, r in sorted(results.items()):
        nobs += len(r["obs"])
        nd = 0
        for o in r["obs"]:
            if o["status"] == "proved":
                nd += 1
                b = by.setdefault(o["by"] or "?", [0, 0.0])
                b[0] += 1
                b[1] += o["secs"]
            else:
                k = next((i for i, d in enumerate(kf) if d.get("function") == sid and d.get("obligation") == o["name"]), None)
                if k is not None:
                    hits.setdefault(k, []).append(o)
                else:
                    bad.append((sid, r, o))
        ndis += nd
        funcs.append(dict(contract=sid, obligations=len(r["obs"]), discharged=nd, paths=r["paths"], seconds=round(r["secs"], 2), status=r["status"], reason=r["reason"],
                          inlined=r["inlined"]))
        if r["status"] != "ok" and not any(x[0] == sid for x in bad):
            unsup.append((sid, r["reason"]))
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (PID, kf[k]["what"]))
    code, rtext, rcases, found, rep = 0, "", 0, False, None
    nocontract = P.BOUNDED.get(PID, [])
    need = bool(bad or unsup or nocontract or not results or THOROUGH)
    if need:
        secs = P.HARNESS.get(PID, (None, 0))[1] * (5 if THOROUGH else 1)
        found, rtext, rcases = replay(secs)
    if bad or found:
        code = 1
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, PID + ".txt")
        with open(rep, "w") as f:
            f.write("property %s\n" % PID)
            if found:
                f.write("\n=== failing input on the real code\n" + rtext + "\n")
            else:
                f.write("\n=== no failing input found on the real code (%d cases tried)\n%s\n" % (rcases, rtext))
            f.write("\n=== obligations that are not discharged\n")
            for sid, r, o in bad[:40]:
                f.write("\n[%s] contract of %s, line %s: %s\n   verdict: %s by %s\n   goal: %s\n   solver output:\n%s\n   path condition:\n     %s\n" % (
                    o["kind"], sid, o["line"], o["name"], o["status"], o["by"], o["goal"], o["out"], "\n     ".join(o.get("facts", ()))))
            for sid, why in unsup:
                f.write("\ncontract of %s: outside the verifier's reach: %s\n" % (sid, why))
        for sid, r, o in bad[:10]:
            print("FAILED OBLIGATION [%s] %s line %s: %s (%s)" % (o["kind"], sid, o["line"], o["name"], o["status"]))
        print("VIOLATION property=%s replay=%s%s" % (PID, rep, "" if found else " no-failing-input-found"))
    for n in nocontract:
        print("BOUNDED %s: not under contract; bounded search, %d cases" % (n, rcases))
    for sid, why in unsup:
        print("BOUNDED %s: outside the verifier's reach (%s); replay search instead, %d cases" % (sid, why, rcases))
    cov = dict(obligations=nobs, discharged=ndis, checker_cmd="python3-vt check.py %s --tier %s" % (PID, TIER), trusted_base=P.BASE + P.TRUST.get(PID, []),
               functions_under_contract=funcs, back_ends={k: dict(obligations=v[0], seconds=round(v[1], 2)) for k, v in sorted(by.items())},
               not_discharged=[dict(contract=s, obligation=o["name"], line=o["line"], verdict=o["status"]) for s, r, o in bad],
               known_findings=[kf[k]["what"] for k in hits], contracts_without_function=missing,
               bounded_stand_in=[dict(contract=s, reason=w, concrete_cases=rcases) for s, w in unsup] + [dict(contract=n, reason="no contract", concrete_cases=rcases) for n in nocontract], replay_cases=rcases,
               source_export_s=round(tload, 2))
    ev = dict(property=PID, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="proof", coverage=cov, assumptions=P.BASE + P.TRUST.get(PID, []),
              wall_s=round(time.time() - T0, 2), violations=1 if code else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", PID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %d open, %d outside reach, %.1f s" % (PID, len(results), nobs, ndis, len(bad), len(unsup), time.time() - T0))
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
