#!/usr/bin/env python3
"""Keeps a planted bug: seedbug.py ID PROP NEEDS BREAKS < demo.go, from the uncommitted change of the scratch copy /tmp/sw.
It is kept only if it builds, passes the tests and its demonstration tells the two trees apart; the scratch copy is reset."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
DEMO = '''#!/bin/bash
# Builds and runs the demonstration beside this file inside the module of the current directory.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3 GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go.txt"}}' "$PWD" "$here" >"$scratch/overlay.json"
go build -overlay "$scratch/overlay.json" -o "$scratch/demo" ./zz_demo || exit 4
mkdir "$scratch/work" && cd "$scratch/work" && timeout 120 "$scratch/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    bid, prop, needs, breaks = sys.argv[1:5]
    demo = sys.stdin.read()
    diff = subprocess.run(["git", "-C", SW, "diff"], stdout=subprocess.PIPE, text=True).stdout
    if not diff.strip():
        sys.exit("no change in " + SW)
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    for name, txt in (("patch.diff", diff), ("demo.go.txt", demo), ("demo.sh", DEMO),
                      ("meta.json", json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")):
        with open(os.path.join(d, name), "w") as fh:
            fh.write(txt)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    env = "export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off; "
    ok = True
    p = sh(env + "go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v 'no test files'", cwd=SW)
    if "FAIL" in p.stdout or "panic" in p.stdout:
        ok = False
        print("TESTS FAIL:\n" + p.stdout[-2500:])
    p = sh(d + "/demo.sh", cwd=SW)
    print("with the change: %d %s" % (p.returncode, p.stdout[-700:]))
    if p.returncode in (0, 3, 4):
        ok = False
    sh("git checkout -- .", cwd=SW)
    q = sh(d + "/demo.sh", cwd=SW)
    print("without: %d %s" % (q.returncode, q.stdout[-700:]))
    if q.returncode != 0:
        ok = False
    a = sh("git apply --check %s/patch.diff" % d, cwd="/repo")
    if a.returncode:
        ok = False
        print("does not apply to /repo: " + a.stdout)
    print("KEPT" if ok else "NOT CONFIRMED", bid)
    if not ok:
        sh("rm -rf " + d)
        sys.exit(1)

main()
