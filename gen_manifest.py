#!/usr/bin/env python3
# Writes MANIFEST.json from the checks the engine has (bin/engine list) and the notes below.
import json,subprocess,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
ids=subprocess.run(["./bin/engine","list"],capture_output=True,text=True,check=True).stdout.split()
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
common="Bounded: holds for every value of the symbolic inputs within the sizes stated in the evidence file (bounds per run); nothing is claimed beyond them. Trusted: the encoder in /verif/engine (interpreter of go/ssa over SMT terms, cross-checked on sampled paths against the real build), z3, and the library models listed in DESIGN.md; every reported violation is replayed on the real build first."
notes=json.load(open("level_notes.json")) if os.path.exists("level_notes.json") else {}
na=json.load(open("not_applicable.json")) if os.path.exists("not_applicable.json") else {}
checks=[dict(property=i,quick_cmd="./run.sh "+i,thorough_cmd="./run.sh "+i+" thorough",evidence_file=f"evidence/{i}.json",
  technique="symbolic execution of the real code (go/ssa) with SMT (z3), bounded",level="model_checking",
  level_note=(notes.get(i,"")+" "+common).strip()) for i in ids]
m=dict(version=1,setup_cmd="./build.sh",checks=checks,
  not_applicable=[dict(property=p,reason=na.get(p,"no check yet")) for p in props if p not in ids],
  notes="run.sh builds bin/engine when absent, encodes /repo's current sources on every run (overlay of /verif/harness, nothing is written in /repo) and writes evidence/<id>.json. VERIF_TIER=thorough selects the deeper bounds.")
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
