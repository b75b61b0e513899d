#!/usr/bin/env python3
"""Development helper (no check uses it): writes the mutants of /repo that build and pass its tests
to OUT (JSON lines).  usage: mutate.py OUT"""
import sys, os, subprocess, json, shutil, queue, threading
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
files = [l for l in subprocess.run(["git", "ls-files", "*.go"], cwd="/repo", capture_output=True, text=True).stdout.split()
         if not l.endswith("_test.go") and not l.startswith(("cmd/", "ci/")) and "gen" not in l.split("/")[-1]
         and "drawpdf" not in l and l != "token/kind_string.go"]
tmp = "/tmp/mut/mutate"
subprocess.run(["go", "build", "-o", tmp, here + "/mutate/main.go"], env=ENV, check=True)
ms = subprocess.run([tmp] + files, cwd="/repo", capture_output=True, text=True, env=ENV)
ms = [json.loads(l) for l in ms.stdout.splitlines()]
print(len(ms), "mutants of", len(files), "files", flush=True)
done = set()
if os.path.exists(out + ".all"):
    done = set(open(out + ".all").read().split("\n"))
q = queue.Queue()
for i, m in enumerate(ms):
    m["id"] = i
    if str(i) not in done: q.put(m)
lock = threading.Lock()
def work(k):
    w = "/tmp/mut/w%d" % k
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w])
    env = dict(ENV)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = w + "/" + m["File"]
        src = open(p, "rb").read()
        new = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
        open(p, "wb").write(new)
        ok = False
        try:
            b = subprocess.run(["go", "build", "./" + os.path.dirname(m["File"])], cwd=w, env=env, capture_output=True, timeout=120)
            if b.returncode == 0:
                t = subprocess.run("ulimit -v 8000000; go test -vet=off -timeout 20s ./...", shell=True, cwd=w, env=env, capture_output=True, timeout=90)
                ok = t.returncode == 0
        except subprocess.TimeoutExpired: pass
        open(p, "wb").write(src)
        with lock:
            if ok: open(out, "a").write(json.dumps(m) + "\n")
            open(out + ".all", "a").write(str(m["id"]) + "\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
print("done")
