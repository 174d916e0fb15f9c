#!/usr/bin/env python3
"""Systematic mutation: every small change of the source (rc mutants) that builds and
passes the existing tests is analysed; those no check notices are listed.

usage: automut.py MUTANTS.json OUT.jsonl [file-substring ...]   (SHARD=i/n, J=jobs, SAMPLE=fraction)
Works on scratch copies; a development aid, used by no check."""
import json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
rc = os.environ.get("RC", "/verif/bin/ratuscheck")
J = int(os.environ.get("J", "6"))
muts = [json.loads(l) for l in open(sys.argv[1])]
subs = sys.argv[3:]
muts = [m for m in muts if "testsuite.go" not in m["file"] and "stub" not in m["file"] and (not subs or any(s in m["file"] for s in subs))]
random.Random(7).shuffle(muts)
muts = muts[:int(len(muts) * float(os.environ.get("SAMPLE", "1")))]
done = set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        m = json.loads(l); done.add((m["file"], m["start"], m["end"], m["new"]))
muts = [m for m in muts if (m["file"], m["start"], m["end"], m["new"]) not in done]
out = open(sys.argv[2], "a")
lock = threading.Lock()
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOROOT="/opt/veriftools/go1.23.12", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="0", GOCACHE="/tmp/automut-cache")
ORDER = {
 "mongodb/": "C39 C16 C04 C01 C03 C10 C06 C08 C11 C14 C15 C02 C05 C07 C30 C28 C18 C32 C31 C27",
 "config": "C38 C25 C26 C17",
 "memdb/": "C11 C01 C04 C09 C10 C06 C07 C08 C12 C13 C14 C02 C03 C05 C30 C28 C18 C32 C31 C27",
 "middleware": "C17 C28 C24 C18 C19 C20 C31 C27 C32",
 "controller": "C19 C18 C24 C17 C28 C30 C31 C20 C27",
 "router": "C19 C18 C24 C17 C28 C30 C31 C20 C27",
 "metrics": "C24 C28 C26 C19 C18 C27",
 "cmd/": "C38 C25 C26 C19 C17 C27 C24 C30 C31",
 "nonce": "C29 C01 C03 C27",
 "docs": "C31 C19 C28",
 "client.go": "C20 C23 C22 C21 C27 C31",
 "context.go": "C22 C23 C20 C27",
 "transport.go": "C20 C27 C23",
 "ratus.go": "C21 C32 C31 C18 C12 C17 C20 C22 C29",
}
ALL = ["C%02d" % i for i in range(1, 33)] + ["C38", "C39"]
local = threading.local()
def work(m):
    if not hasattr(local, "d"):
        local.d = tempfile.mkdtemp(prefix="am.", dir="/tmp")
        shutil.rmtree(local.d)
        shutil.copytree("/repo", local.d, ignore=shutil.ignore_patterns(".git"))
    d = local.d
    p = os.path.join(d, m["file"])
    s = open("/repo/" + m["file"], "rb").read()
    open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
    try:
        try:
            b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return "build", ""
        if b.returncode:
            return "build", ""
        f = m["file"]
        if "mongodb/" in f:
            pk = ["./internal/engine/mongodb"]
        elif "memdb/" in f:
            pk = ["./internal/engine/memdb"]
        else:
            pk = [x for x in ("./internal/middleware", "./internal/controller", "./internal/router", "./internal/metrics", "./internal/nonce", "./docs", "./cmd/...", ".", "./internal/config", "./internal/reqtest", "./internal/engine/memdb")]
        try:
            b = subprocess.run(["go", "test", "-short", "-vet=off", "-count=1", "-p", "2", "-timeout", "60s"] + pk, cwd=d, env=env, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return "test", ""
        if b.returncode:
            return "test", ""
        order = []
        for k, v in ORDER.items():
            if k in f:
                order = v.split()
                break
        order += [x for x in ALL if x not in order]
        e = dict(os.environ, RC_FIRST="1", GOMAXPROCS="3", GOMEMLIMIT="4GiB")
        try:
            r = subprocess.run([rc, "-repo", d, "check"] + order, capture_output=True, text=True, env=e, timeout=600)
        except subprocess.TimeoutExpired:
            return "hang", ""
        hit = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith("   ")]
        if r.returncode:
            return "error", (r.stdout + r.stderr)[-300:]
        return ("caught", hit[0]) if hit else ("SURVIVED", "")
    finally:
        open(p, "wb").write(s)
n = {}
def one(m):
    res, det = work(m)
    m["res"], m["det"] = res, det
    with lock:
        n[res] = n.get(res, 0) + 1
        out.write(json.dumps(m) + "\n"); out.flush()
        if sum(n.values()) % 50 == 0:
            print(n, flush=True)
with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, muts))
print(n)
for x in os.listdir("/tmp"):
    if x.startswith("am.") and os.path.isdir("/tmp/" + x):
        shutil.rmtree("/tmp/" + x, ignore_errors=True)
