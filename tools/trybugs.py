#!/usr/bin/env python3
"""trybugs.py [-a] [id...]: run the check of each planted bug's property (-a: every check) against a scratch copy of the headers with the bug applied."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
args = sys.argv[1:]
allc = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(f"{ROOT}/seeded"))
import registry
for i in ids:
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    W = f"/tmp/tb-{i}"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(f"cp -r /repo/include /repo/ext {W}/ && cd {W} && git init -q . && git apply {ROOT}/seeded/{i}/patch.diff", shell=True, check=True)
    out = []
    for c in sorted(registry.CHECKS) if allc else [m["property"]]:
        r = subprocess.run(["python3", f"{ROOT}/run.py", c], env=dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        hit = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
        if not allc:
            out.append(("caught" if hit else f"MISSED rc={r.returncode}") + " | " + " ".join(r.stdout.strip().splitlines()[1:2])[:200])
        elif hit: out.append(c)
        elif r.returncode: out.append(f"{c}?rc{r.returncode}")
    if not allc:
        cf = f"{ROOT}/tools/caught.json"
        cj = json.load(open(cf)) if os.path.exists(cf) else {}
        cj[i] = m["property"] if out[0].startswith("caught") else "missed"
        json.dump(dict(sorted(cj.items())), open(cf, "w"), indent=1)
    print(f"{i:30s} {m['property']}: {' '.join(out)}", flush=True)
    shutil.rmtree(W, ignore_errors=True)
