#!/usr/bin/env python3
"""Rewrites every function of a scratch copy of the repository in ways that keep its
behaviour and runs the checks on it: all of them must stay quiet.

usage: autoref.py [KIND...]      J=parallel runs, KEEP=1 keeps the copies
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
KINDS = "helper closure params swap demorgan literal defer invert condvar initout noelse elsereturn rangeidx forbreak switchif retvar vardecl retmp argtmp funcvalue negcmp strlen append guardfn consts nestif ifclosure ifswitch while named helper+closure+retvar+condvar+argtmp named+helper+guardfn".split()
rc = os.environ.get("RC", "/verif/bin/ratuscheck")
root = tempfile.mkdtemp(prefix="aref.", dir="/tmp")
def run(kind):
    d = os.path.join(root, kind)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    try:
        n = ""
        for k in kind.split("+"):
            r = subprocess.run([rc, "-repo", d, "refactor", k], capture_output=True, text=True)
            if r.returncode:
                return kind, "REWRITE", (r.stdout + r.stderr)[-800:]
            n += r.stdout.strip() + " "
        env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod")
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return kind, "BUILD", b.stderr[:1500]
        if os.environ.get("BUILD"):
            return kind, "built " + n, ""
        r = subprocess.run([rc, "-repo", d, "check", "all"], capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if " 0 violations" not in l]
        return kind, f"{n}sites rc={r.returncode}", "\n".join(out[:60]) + r.stderr[-300:]
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for k, s, t in ex.map(run, sys.argv[1:] or KINDS):
        print(f"== {k}: {s}\n{t}", flush=True)
if not os.environ.get("KEEP"):
    shutil.rmtree(root, ignore_errors=True)
