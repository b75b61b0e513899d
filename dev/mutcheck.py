#!/usr/bin/env python3
"""Development helper (no check uses it): runs the quick checks on a sample of the surviving mutants
mutate.py lists, cheapest check first, until one reports.  usage: mutcheck.py SURV OUT STREAM/STREAMS FILE=COUNT..."""
import sys, os, subprocess, json, shutil, random, time, collections
surv, out, stream = sys.argv[1:4]
k, n = map(int, stream.split("/"))
CHECKS = {
 "tex/box.go": "C13 C10 C08 C24 C12 C11 C09 C18 C16",
 "tex/utils.go": "C11 C08 C18",
 "mtex/parser.go": "C16 C14 C18 C15",
 "mtex/render.go": "C18 C14",
 "parser.go": "C04 C02 C03 C01 C05",
 "scanner.go": "C02 C04 C03 C01 C05",
 "macros.go": "C02 C01",
 "mtex/macros.go": "C15 C14",
 "font/ttf/ttf.go": "C25 C23 C21 C24 C20 C19",
 "font/liberation/liberation.go": "C23 C25",
 "font/lm/lm.go": "C23 C25",
 "ast/ast.go": "C06 C04 C07",
 "ast/walk.go": "C06 C07",
 "drawtex/drawimg/drawimg.go": "C18",
 "drawtex/canvas.go": "C18",
 "internal/tex2unicode/utf8.go": "C20",
 "mtex/symbols/set.go": "C15 C14", "mtex/symbols/symbols.go": "C15 C14",
}
want = dict((a.split("=")[0], int(a.split("=")[1])) for a in sys.argv[4:])
ms = [json.loads(l) for l in open(surv)]
BOX = [(75, ""), (176, "C24 C12 C08"), (278, "C24 C12 C13 C11"), (347, "C24 C12 C08 C11"), (458, "C10 C12 C08 C09"),
       (520, "C13 C08"), (585, "C10 C08 C12 C09"), (612, "C13 C09"), (689, "C10 C12 C09"), (752, "C24 C12 C11"), (795, "C24 C10 C13 C09"),
       (862, "C12 C13 C10 C08 C09"), (907, "C12 C13 C24 C08"), (960, "C24 C16"), (1300, "C11 C18")]
def checks(m):
    if m["File"] == "tex/box.go":
        for l, c in BOX:
            if m["Line"] <= l: return c.split()
    return CHECKS[m["File"]].split()
def boring(m):
    if not checks(m): return True
    w = m["What"]
    return any(x in w for x in ("Errorf", "Sprintf", "log.Panicf", "panic(")) or ("changed" in w and (" %" in w or "could not" in w)) \
        or (w.startswith("swap ") and not w.startswith("swap args"))
random.seed(int(os.environ.get("SEED", "1")))
todo = []
for f, c in want.items():
    by = collections.defaultdict(list)
    for m in ms:
        if m["File"] == f and not boring(m): by[m["Line"]].append(m)
    pick = [random.choice(v) for v in by.values()]
    random.shuffle(pick)
    todo += sorted(pick[:c], key=lambda m: m["Line"])
done = set()
if os.path.exists(out):
    done = {json.loads(l)["id"] for l in open(out)}
w = "/tmp/mut/c%d" % k
shutil.rmtree(w, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", w])
env = dict(os.environ, VERIF_REPO=w, VERIF_TIER="quick", VERIF_WORKERS=os.environ.get("VERIF_WORKERS", str(8 // n)))
for i, m in enumerate(todo):
    if i % n != k or m["id"] in done: continue
    p = w + "/" + m["File"]
    src = open(p, "rb").read()
    open(p, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
    res, t0 = [], time.time()
    for c in checks(m):
        r = subprocess.run(["timeout", "900", "./run.sh", c, "quick"], cwd="/verif", env=env, capture_output=True, text=True, errors="replace")
        res.append("%s=%d" % (c, r.returncode))
        if r.returncode == 1: break
        if r.returncode != 0: res.append((r.stdout + r.stderr)[-200:])
    open(p, "wb").write(src)
    m["res"] = res; m["sec"] = round(time.time() - t0)
    open(out, "a").write(json.dumps(m) + "\n")
print("done", k)
