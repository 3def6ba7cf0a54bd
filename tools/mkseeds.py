#!/usr/bin/env python3
"""Build and validate planted bugs.  usage: mkseeds.py [id...]
Each tools/seeds/*.py defines SEEDS: a list of dicts id, property, needs, breaks,
edits=[(file, old, new)], pkg, test (Go source of a _test.go with TestVerifDemo).
Writes /verif/seeded/<id>/ after confirming in a scratch copy that the change
compiles, passes the stable tests and that the demonstration tells it apart."""
import sys, os, subprocess, json, glob, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
for f in sorted(glob.glob(root + "/tools/seeds/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    S += ns["SEEDS"]
want = set(sys.argv[1:])
DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
cp go.mod "$tmp/n.mod" && cp go.sum "$tmp/n.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/n.mod" TMPDIR="$tmp"
printf '{"Replace":{"%%s/%(pkg)s/zz_verif_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
exec 2>&1
timeout 200 go test %(flags)s -vet=off -count=1 -overlay "$tmp/o.json" -run 'TestVerifDemo$' ./%(pkg)s
'''
base = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
work = "/tmp/seedwork"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
sh("git -C /repo worktree prune; cp -a /repo %s/repo" % work, "/")
wr = work + "/repo"
sh("git checkout -q -- . && git clean -fdq", wr)
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on")
shutil.copy(wr + "/go.mod", work + "/n.mod"); shutil.copy(wr + "/go.sum", work + "/n.sum")
env["GOFLAGS"] = "-mod=mod -modfile=" + work + "/n.mod"
bad = 0
for s in S:
    if want and s["id"] not in want: continue
    d = root + "/seeded/" + s["id"]
    if not want and os.path.exists(d + "/patch.diff"): continue
    sh("git checkout -q -- .", wr)
    err = None
    for f, old, new in s["edits"]:
        t = open(wr + "/" + f).read()
        if t.count(old) != 1: err = "%s: %d matches of %r" % (f, t.count(old), old[:50]); break
        open(wr + "/" + f, "w").write(t.replace(old, new))
    if err: print(s["id"], "EDIT", err); bad += 1; continue
    patch = sh("git diff", wr).stdout
    tmpd = tempfile.mkdtemp(dir=work)
    open(tmpd + "/patch.diff", "w").write(patch)
    open(tmpd + "/demo_test.go", "w").write(s["test"].lstrip("\n"))
    open(tmpd + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")})
    os.chmod(tmpd + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmpd + "/meta.json", "w"), indent=1)
    r = sh("go build ./... && go vet ./%s >/dev/null 2>&1; go build ./..." % s["pkg"], wr, env=env)
    if r.returncode: print(s["id"], "BUILD", r.stderr[-600:]); bad += 1; continue
    r = sh("go test -count=1 -json ./...", wr, env=env)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "::" + e["Test"]); ok.add(e["Package"] + "/" + e["Test"]); ok.add(e["Package"] + "." + e["Test"]); ok.add(e["Package"] + " " + e["Test"])
    miss = sorted(stable - ok)
    if miss: print(s["id"], "TESTS FAIL", miss[:6]); bad += 1; continue
    r1 = sh(tmpd + "/demo.sh", wr)
    sh("git checkout -q -- .", wr)
    r0 = sh(tmpd + "/demo.sh", wr)
    if r1.returncode == 0 or r0.returncode != 0:
        print(s["id"], "DEMO with=%d without=%d" % (r1.returncode, r0.returncode), (r0.stdout if r0.returncode else r1.stdout)[-1500:]); bad += 1; continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmpd, d)
    print(s["id"], "ok", s["property"])
shutil.rmtree(work, ignore_errors=True)
sys.exit(bad > 0)
