#!/usr/bin/env python3
"""Creates and verifies planted bugs.
  seed.py make FILE.py [substr]   builds /verif/seeded/<id>/ for the seeds defined in FILE.py and verifies them
  seed.py verify [substr]         re-verifies the existing ones
  seed.py catch [substr]          runs every check against every planted bug (on a scratch copy) and prints the matrix
A seed: seed(id, property, [(path, old, new), ...], pkg, demo_go, needs, breaks)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(here), "seeded")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="/opt/veriftools/go1.23.12",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
DEMO = '''#!/bin/bash
# Runs the demonstration as a test inside %(pkg)s (through an overlay; the tree is not modified).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin GOROOT=/opt/veriftools/go1.23.12
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
sep=""
{
	printf '{"Replace": {'
	for f in "$here"/*_test.go; do
		printf '%%s"%%s": "%%s"' "$sep" "$PWD/%(pkg)s/zz_$(basename "$f")" "$f"
		sep=", "
	done
	printf '}}'
} > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%(pkg)s
'''
SEEDS = []
def seed(id, property, edits, pkg, demo, needs, breaks, extra=()):
    SEEDS.append((id, property, edits, pkg, demo, needs, breaks, extra))

def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def copy(tag):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    t = os.path.join(d, "repo")
    shutil.copytree("/repo", t, symlinks=True)
    return d, t

def make(s):
    id, property, edits, pkg, demo, needs, breaks, extra = s
    out = os.path.join(SEED, id)
    d, t = copy(id)
    try:
        for path, old, new in edits:
            p = os.path.join(t, path)
            x = open(p).read()
            if x.count(old) != 1:
                return f"{id}: pattern matches {x.count(old)} times in {path}: {old[:50]!r}"
            open(p, "w").write(x.replace(old, new))
        sh(["gofmt", "-l", "-w"] + [p for p, _, _ in edits], t)
        diff = sh(["git", "diff"], t).stdout
    finally:
        shutil.rmtree(d)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % {"pkg": pkg})
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo_test.go"), "w").write(demo)
    for name, text in extra:
        open(os.path.join(out, name), "w").write(text)
    json.dump({"property": property, "needs": " ".join(needs.split()), "what_it_breaks": " ".join(breaks.split())},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return None

STABLE = None
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def verify(id):
    out = os.path.join(SEED, id)
    d, t = copy(id)
    try:
        r = sh(["bash", os.path.join(out, "demo.sh")], t)
        if r.returncode != 0:
            return f"{id}: demo fails on the unchanged tree\n{(r.stdout + r.stderr)[-1500:]}"
        r = sh(["git", "apply", os.path.join(out, "patch.diff")], t)
        if r.returncode != 0:
            return f"{id}: patch does not apply: {r.stderr}"
        r = sh(["go", "build", "./..."], t)
        if r.returncode != 0:
            return f"{id}: does not build: {r.stderr}"
        r = sh(["bash", os.path.join(out, "demo.sh")], t)
        if r.returncode == 0:
            return f"{id}: demo passes with the patch"
        demo = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        r = sh("go test -vet=off -count=1 -p 1 -parallel 1 $(go list -e ./... | grep -vx github.com/hyperonym/ratus/internal/engine/mongodb); "
               "a=$?; go test -vet=off -count=1 -short ./internal/engine/mongodb; exit $((a+$?))", t) if False else \
            subprocess.run(["bash", "-c", "go test -vet=off -count=1 -p 1 -parallel 1 $(go list -e ./... | grep -vx github.com/hyperonym/ratus/internal/engine/mongodb); a=$?; go test -vet=off -count=1 -short ./internal/engine/mongodb; exit $((a+$?))"], cwd=t, env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            return f"{id}: existing tests fail\n{r.stdout[-1500:]}"
        return f"{id}: ok ({demo[0][:100]} ... {demo[1][:120] if len(demo) > 1 else ''})"
    finally:
        shutil.rmtree(d)

def catch(id):
    out = os.path.join(SEED, id)
    meta = json.load(open(os.path.join(out, "meta.json")))
    d, t = copy(id)
    try:
        sh(["git", "apply", os.path.join(out, "patch.diff")], t)
        rc = os.environ.get("RC", "/verif/bin/ratuscheck")
        which = ["all"] if os.environ.get("ALL") else [meta["property"]]
        r = subprocess.run([rc, "-repo", t, "check"] + which, capture_output=True, text=True)
        hit, cur = [], ""
        for l in r.stdout.splitlines():
            if not l.startswith(" "):
                cur = l.split()[0]
            else:
                hit.append(cur + " " + l.strip()[:150])
        own = [h for h in hit if h.startswith(meta["property"] + " ")]
        return f"{id} ({meta['property']}): {'CAUGHT' if own else 'MISSED'}; by {sorted(set(h.split()[0] for h in hit))}\n      " + (own or hit or [r.stderr[-300:]])[0]
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "make":
        for f in sys.argv[2].split(","):
            exec(open(f).read())
        sub = sys.argv[3] if len(sys.argv) > 3 else ""
        for s in SEEDS:
            if sub in s[0]:
                e = make(s)
                print(e or verify(s[0]), flush=True)
    else:
        sub = sys.argv[2] if len(sys.argv) > 2 else ""
        ids = [i for i in sorted(os.listdir(SEED)) if sub in i]
        f = verify if cmd == "verify" else catch
        with ThreadPoolExecutor(1 if cmd == "verify" else 4) as ex:
            for r in ex.map(f, ids):
                print(r, flush=True)
