#!/usr/bin/env python3
"""mkseed.py <id>: turn the edited scratch tree /tmp/seed-src into seeded/<id>/patch.diff (development only)
usage: mkseed.py ID PROPERTY PKGDIR 'needs' 'breaks' < demo_test.go
The scratch tree is a git worktree copy of /repo with the bug planted.
"""
import sys, os, subprocess, json
sid, prop, pkg, needs, breaks = sys.argv[1:6]
race = len(sys.argv) > 6 and sys.argv[6] == "race"
src = "/tmp/seed-src"
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", src, "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo_test.go", "w").write(sys.stdin.read())
open(d + "/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# runs demo_test.go as a test of package %s of the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TMPDIR=$tmp
export GOCACHE=/tmp/verif-demo-gocache
if [ ! -d "$GOCACHE" ]; then
  if [ -d /opt/vp/gocache ]; then cp -a /opt/vp/gocache "$GOCACHE.$$" && mv -T "$GOCACHE.$$" "$GOCACHE"; else mkdir -p "$GOCACHE"; fi
fi
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
exec go test -count=1 -vet=off %s-timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo' ./%s
''' % (pkg, pkg, "-race " if race else "", pkg))
os.chmod(d + "/demo.sh", 0o755)
# confirm
def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
subprocess.run(["git", "-C", src, "checkout", "-q", "--", "."])
a = sh(d + "/demo.sh", src)
r = sh("git apply --check %s/patch.diff" % d, "/repo")
subprocess.run(["git", "-C", src, "apply", d + "/patch.diff"])
b = sh(d + "/demo.sh", src)
env = "export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOCACHE=/tmp/verif-demo-gocache; "
c = sh(env + "go build ./... && go test -count=1 -vet=off ./internal/triplestore/imap ./pkg/progress ./pkg/sgob" + (" ./internal/triplestore/igraph" if "triplestore" in diff else "") + (" ./internal/triplestore/impl" if "impl" in diff else ""), src)
print(sid, "unchanged demo", a[0], "applies", r[0], "patched demo", b[0], "tests", c[0])
if a[0] != 0: print(a[1][-2500:])
if b[0] == 0: print("NOT DETECTED BY DEMO")
else: print(b[1][-700:])
if c[0] != 0: print(c[1][-1500:])
subprocess.run(["git", "-C", src, "checkout", "-q", "--", "."])
