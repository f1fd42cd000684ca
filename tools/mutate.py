#!/usr/bin/env python3
"""mutate.py r|g OUT.jsonl [--every K] [--offset J] [--files a,b]: small mutations of the runtime (r) or of prutalgen (g)
that build and pass the existing tests, and whether short runs of the sessions of each profile catch them."""
import argparse, concurrent.futures, glob, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V + "/lib")
import core, codec
a = argparse.ArgumentParser()
a.add_argument("kind"); a.add_argument("out"); a.add_argument("--every", type=int, default=1); a.add_argument("--offset", type=int, default=0)
a.add_argument("--files", default=""); a.add_argument("--jobs", type=int, default=8)
a = a.parse_args()
R = "/repo/"
FILES = {"r": sorted(glob.glob(R + "*.go") + glob.glob(R + "internal/*/*.go") + glob.glob(R + "pkg/*/*.go")),
         "g": sorted(glob.glob(R + "prutalgen/*.go") + glob.glob(R + "prutalgen/pkg/prutalgen/*.go"))}[a.kind]
FILES = [f for f in FILES if not f.endswith("_test.go") and not f.endswith(".pb.go") and "testutils" not in f and "logger" not in f and "embed.go" not in f]
if a.files:
    FILES = [f for f in FILES if any(x in f for x in a.files.split(","))]
SPEC = {"G14": ("RunsTrace", "cmd/runs"), "G12": ("GrammarTrace", "cmd/syntax"), "G11": ("NotesTrace", "cmd/notes"), "P12": ("TypesTrace", "cmd/types"), "P13": ("DepthTrace", "cmd/depth")}
PROF = {"r": [("P04", 60), ("P01", 60), ("P05", 60), ("P09", 60), ("P08", 100), ("P03", 80), ("P02", 60), ("P06", 60), ("P07", 60), ("P10", 30), ("P12", 250), ("P13", 30), ("BIG", 20)],
        "g": [("G03", 150), ("G02", 60), ("G01", 100), ("G05", 60), ("G04", 60), ("G07", 60), ("G09", 60), ("G10", 60), ("G11", 200), ("G12", 400), ("G13", 100), ("G14", 100)]}[a.kind]
PARTS = {"r": 16, "g": 8}[a.kind]   # one of so many sessions
TESTS = {"r": ["./internal/...", ".", "./pkg/..."], "g": ["./prutalgen/..."]}[a.kind]
subprocess.run([core.go_bin(), "build", "-o", "/tmp/mutants", V + "/tools/mutate/mutants.go"], check=True, env=core.goenv())
o = subprocess.run(["/tmp/mutants"] + FILES, stdout=subprocess.PIPE, env=core.goenv(), cwd="/tmp")
muts = [json.loads(l) for l in o.stdout.decode().splitlines()]
muts = muts[a.offset::a.every]
done = set()
if os.path.exists(a.out):
    done = {(m["file"], m["off"], m["new"]) for m in map(json.loads, open(a.out))}
print(len(muts), "mutants", flush=True)


def one(m):
    if (m["file"], m["off"], m["new"]) in done:
        return None
    w = core.Work("mut")
    try:
        src = open(m["file"], "rb").read()
        p = w.path("mutant.go")
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        ov = w.path("ov.json")
        json.dump({"Replace": {m["file"]: p}}, open(ov, "w"))
        try:
            r = subprocess.run([core.go_bin(), "test", "-vet=off", "-timeout", "60s", "-overlay", ov] + TESTS, cwd="/repo", env=dict(core.goenv(), GOFLAGS=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            return dict(m, st="killed")
        if r.returncode:
            return dict(m, st="killed" if b"build failed" not in r.stdout else "nobuild")
        env = {}
        for prof, n in PROF:
            spec, pkg = SPEC.get(prof, ("CodecTrace", "cmd/codec") if a.kind == "r" else ("ProtoTrace", "cmd/gen"))
            prop = prof
            if prof == "BIG":
                spec, pkg, prop = "BigTrace", "cmd/big", "P01"
            exe = w.path(os.path.basename(pkg))
            if not os.path.exists(exe):
                core.build(w, pkg, overlay=ov, out=exe)
            if prof == "G04":
                env["PRUTALGEN"] = core.build(w, "github.com/cloudwego/prutal/prutalgen", overlay=ov)
            t = codec.record(w, exe, prop, 1, n * PARTS, m["off"] % PARTS, PARTS, env)
            try:
                rej, _, _, lines = codec.validate(w, t, prop, prof, spec)
            except core.Broken as e:
                return dict(m, st="BROKEN", by=prof, why=str(e)[-600:])
            if rej:
                s, l, op, why = rej[0]
                return dict(m, st="caught", by=prof, why="%s: %s" % (op, why))
        return dict(m, st="MISSED")
    except core.Broken as e:
        return dict(m, st="nobuild", why=str(e)[-300:])
    except Exception as e:
        return dict(m, st="ERROR", why=repr(e)[-300:])
    finally:
        w.close()


with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
    n = {}
    for m in ex.map(one, muts):
        if m:
            n[m["st"]] = n.get(m["st"], 0) + 1
            f.write(json.dumps(m) + "\n"); f.flush()
            if m["st"] in ("MISSED", "BROKEN", "ERROR"):
                print(m["st"], m["file"][6:], m["line"], m["what"][:100].replace("\n", " "), m.get("why", "")[:200], flush=True)
    print(n)
