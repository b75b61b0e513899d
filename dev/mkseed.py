#!/usr/bin/env python3
"""Development helper (no check uses it): writes /verif/seeded/<id>/ from the specs in seeds.py and
confirms each: the patch applies to /repo's HEAD, the tree builds, the stable tests pass, the
demonstration exits 0 without and non-zero with the patch.  usage: mkseed.py [ID...]"""
import sys, os, subprocess, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Exits 0 when the property holds, non-zero when the demonstration fails.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("passed", base.get("tests", [])))
def main():
    want = sys.argv[1:]
    bad = 0
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = "/verif/seeded/" + s["id"]
        w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            run(["git", "clone", "-q", "/repo", w + "/r"], "/tmp")
            r = w + "/r"
            ok = True
            for f, old, new in s["edits"]:
                p = r + "/" + f
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT count", t.count(old), f, repr(old)[:60]); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok: bad += 1; continue
            diff = run(["git", "diff"], r).stdout
            run(["git", "checkout", "-q", "--", "."], r)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"])); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo_test.go", "w").write(s["test"].lstrip())
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            a = run(["bash", d + "/demo.sh"], r)
            run(["git", "apply", d + "/patch.diff"], r)
            b = run(["go", "build", "./..."], r)
            t = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], r)
            failed = sorted({j.get("Test") or j["Package"] for j in map(json.loads, filter(lambda l: l.startswith("{"), t.stdout.splitlines())) if j["Action"] == "fail"})
            c = run(["bash", d + "/demo.sh"], r)
            v = a.returncode == 0 and b.returncode == 0 and not failed and c.returncode != 0
            print(s["id"], "OK" if v else "BAD", "demo clean", a.returncode, "build", b.returncode, "failed tests", failed[:6], "demo patched", c.returncode, flush=True)
            if a.returncode: print(a.stdout[-1500:], a.stderr[-800:])
            if b.returncode: print(b.stderr[-800:])
            if c.returncode and "--- FAIL" not in c.stdout and "panic" not in c.stdout: print(c.stdout[-500:], c.stderr[-500:])
            if not v: bad += 1; shutil.rmtree(d)
        finally:
            shutil.rmtree(w)
    sys.exit(bad > 0)
main()
