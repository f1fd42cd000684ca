#!/usr/bin/env python3
"""seedtest.py [--all] [ids]: runs the checks against the planted bugs, on copies of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for id in sorted(os.listdir(V + "/seeded")):
    if args and id not in args:
        continue
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
    wt = tempfile.mkdtemp(prefix="st-", dir="/tmp")
    try:
        subprocess.run("cp -a /repo/. . && git apply %s/seeded/%s/patch.diff" % (V, id), shell=True, cwd=wt, check=True)
        for p in (props if every else [meta["property"]]):
            r = subprocess.run([sys.executable, V + "/run.py", p], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("utf-8", "replace").strip().splitlines()
            print(id, meta["property"], p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERROR"), (o[0] if o else "")[:160], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
