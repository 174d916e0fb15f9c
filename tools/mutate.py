#!/usr/bin/env python3
"""Sensitivity and robustness experiments on scratch copies of the repository.

usage: mutate.py FILE.py [name-substring]
FILE.py defines MUT = [(name, expect, props, [(path, old, new), ...]), ...]
expect: "bug" (some listed property must alarm) or "same" (all must stay quiet).
Nothing of the repository is executed; with VET=1 each variant is also built.
"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
sub = sys.argv[2] if len(sys.argv) > 2 else ""
root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
rc = os.environ.get("RC", "/verif/bin/ratuscheck")

def run(t):
    name, expect, props, edits = t
    d = os.path.join(root, "".join(c if c.isalnum() else "_" for c in name))
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    out = []
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read() if os.path.exists(p) else ""
            if old == "":
                s += new
            elif s.count(old) < 1:
                return name, "EDIT-FAILED", "pattern not found: " + old[:60]
            else:
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if os.environ.get("VET"):
            env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod")
            b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
            if b.returncode != 0:
                return name, "BUILD-FAILED", b.stderr[:500]
        r = subprocess.run([rc, "-repo", d, "check"] + props, capture_output=True, text=True)
        txt = r.stdout
        if r.returncode != 0:
            return name, "ERROR", (r.stdout + r.stderr)[-500:]
        alarms = [l for l in txt.splitlines() if l.startswith("   ")]
        hit = {}
        cur = None
        for l in txt.splitlines():
            if not l.startswith(" "):
                cur = l.split()[0]
            elif cur:
                hit.setdefault(cur, []).append(l.strip()[:170])
        ok = bool(hit) == (expect == "bug")
        lines = []
        for k, v in hit.items():
            lines.append(f"{k}: {v[0]}" + (f" (+{len(v)-1})" if len(v) > 1 else ""))
        return name, ("ok " if ok else "WRONG ") + expect, "\n      ".join(lines)
    finally:
        shutil.rmtree(d, ignore_errors=True)

todo = [t for t in m.MUT if sub in t[0]]
bad = 0
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for name, res, detail in ex.map(run, todo):
        if not res.startswith("ok"):
            bad += 1
        print(f"[{res}] {name}\n      {detail}", flush=True)
shutil.rmtree(root, ignore_errors=True)
print("experiments:", len(todo), "unexpected:", bad)
