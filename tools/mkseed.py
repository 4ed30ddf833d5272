#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes and confirms planted changes.

A spec sets: id, prop, edits=[(file, old, new)], pkg, needs, breaks, demo (Go test source).
The change is made in a scratch copy of /repo under /tmp; it is kept only when it
builds, passes the stable tests, and the demonstration passes without and fails with it.
With CHECK=1 the property's check is run against it as well (apply, run, undo).
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# Runs demo_test.go inside the package it concerns (cwd is the repository).
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf 'module github.com/samuel/go-dsp\\n\\ngo 1.17\\n' > "$t/go.mod"
# The package's own tests are left out.
own=
for f in %(pkg)s/*_test.go; do [ -e "$f" ] && own="$own,\\"$PWD/$f\\":\\"\\""; done
cat > "$t/o.json" <<E
{"Replace":{"$PWD/go.mod":"$t/go.mod","$PWD/%(pkg)s/verif_demo_test.go":"$here/demo_test.go"%(extra)s$own}}
E
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly
go test -vet=off -overlay "$t/o.json" -count=1 -timeout 100s -run VerifDemo ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
ok_all = True
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(VERIF, "seeded", g["id"])
    st = sh("git status --porcelain --untracked-files=no", "/repo").stdout
    if st.strip():
        sys.exit("/repo is dirty")
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=g["pkg"], extra="".join(",\"$PWD/%s\":\"$here/%s\"" % e for e in g.get("overlay", {}).items())))
    os.chmod(d + "/demo.sh", 0o755)
    for fn, c in g.get("files", {}).items(): open(d + "/" + fn, "w").write(c.lstrip())
    open(d + "/demo_test.go", "w").write(g["demo"].lstrip())
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    try:
        r0 = sh(d + "/demo.sh", "/repo", timeout=300)
        for (fn, old, new) in g["edits"]:
            p = os.path.join("/repo", fn)
            s = open(p).read()
            n = 1
            if isinstance(old, tuple): old, n = old
            if s.count(old) < n: raise Exception("%s: text not found in %s: %r" % (g["id"], fn, old))
            if n == 1 and s.count(old) != 1: raise Exception("%s: %d matches in %s" % (g["id"], s.count(old), fn))
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i+len(old):]
            open(p, "w").write(s)
        diff = sh("git diff", "/repo").stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh("bash /opt/vp/build.sh", "/repo")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
        res = json.load(open("/tmp/seedtest.json"))
        failed = [k for k in (res.get("failed") or [])]
        r1 = sh(d + "/demo.sh", "/repo", timeout=300)
        good = b.returncode == 0 and not failed and r0.returncode == 0 and r1.returncode != 0
        print(g["id"], "OK" if good else "BAD", "build", b.returncode, "failed", failed, "demo", r0.returncode, r1.returncode)
        if not good:
            ok_all = False
            print(r0.stdout[-1500:] if r0.returncode else "", b.stdout[-500:], r1.stdout[-300:] )
        elif os.environ.get("CHECK"):
            c = sh("./check.sh " + g["prop"], VERIF, timeout=1000)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   check exit", c.returncode, v[:1], c.stdout.strip().splitlines()[-1][-200:])
    finally:
        sh("git checkout -- .", "/repo")
sys.exit(0 if ok_all else 1)
