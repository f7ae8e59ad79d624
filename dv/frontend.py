"""Runs the AST exporter over /repo's current sources."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("DV_REPO", "/repo")


def exporter():
    src = os.path.join(ROOT, "exporter", "exporter.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    pre = os.path.join(ROOT, "exporter", "prebuilt", "exporter-" + h)
    if os.path.exists(pre) and os.access(pre, os.X_OK):
        return pre
    out = os.path.join(ROOT, "build", "exporter-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    subprocess.check_call(["clang++-18", "-O1"] + flags + ["-fno-rtti", src, "-o", out + ".tmp", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                                                           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(out + ".tmp", out)
    return out


def sources():
    src = os.path.join(REPO, "src")
    out = []
    for d in (src, os.path.join(src, "cpp")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return out


def export(tmp):
    """ASTs of every translation unit; raises CalledProcessError when the code does not parse"""
    ex = exporter()
    src = os.path.join(REPO, "src")

    def one(f):
        o = os.path.join(tmp, f.replace("/", "_") + ".json")
        p = subprocess.run([ex, src, o, f, "--", "-std=gnu++17", "-I" + src, "-I" + src + "/cpp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(o):
            raise RuntimeError("export of %s failed: %s" % (f, p.stdout[-2000:]))
        with open(o) as fh:
            return json.load(fh)
    with ThreadPoolExecutor(8) as tp:
        return list(tp.map(one, sources()))
