import json
import os

import codec
from core import *

ASSUMPTIONS = {"*": []}

CODEC = {  # sessions: quick, thorough
    "P01": (400, 6000), "P02": (400, 6000), "P03": (500, 8000), "P04": (400, 6000), "P05": (400, 6000),
    "P06": (300, 4000), "P07": (300, 4000), "P08": (432, 4320), "P09": (400, 6000), "P10": (300, 3000),
}


def mk(pid):
    def f(res, work, tier, seed):
        n = CODEC[pid][0 if tier == "quick" else 1]
        codec.check(res, work, seed, pid, n)
        elsewhere(res, work, seed, pid, n // 4, tier == "quick")
        if pid in BIG:
            big(res, work, tier, seed, pid)
        if pid in SMALL:
            small(res, work, tier, seed, pid)
    return f


OTHER_GO = ["/opt/veriftools/go1.23.12", "/opt/veriftools/go1.24.13", "/opt/veriftools/go1.25.14", "/opt/veriftools/go1.26.10"]


def elsewhere(res, work, seed, pid, n, quick, spec="CodecTrace", pkg="cmd/codec"):
    """The same kind of sessions where ints and pointers have 32 bits, and with other versions of Go, whose maps and
    allocators differ (1.23 has the old maps)."""
    places = [("386", dict(arch="386"))]
    if pid in ("P08", "P10") or not quick:
        places += [(os.path.basename(g), dict(goroot=g)) for g in OTHER_GO[:1 if quick else 4] if os.path.isdir(g)]
    for i, (name, how) in enumerate(places):
        try:
            exe = build(work, pkg, out=work.path(os.path.basename(pkg) + "-" + name), **how)
            rc, o = run([exe, "-profile", pid, "-n", "0", "-out", work.path("none"), "-cur", work.path("none.cur")], timeout=60)
        except (Broken, OSError) as e:
            rc, o = 1, str(e)
        if rc != 0 and "goroutine 1 [running]" in o:
            res.violation("start", "a program that uses prutal dies before it starts: " + name, {"output": o[-3000:]})
        if rc == 0:
            codec.check(res, work, seed + 386 + i, pid, n, spec=spec, pkg=pkg, exe=exe)
        # otherwise such programs do not build or run here, which says nothing about prutal
        res.cover["sessions_" + name] = n if rc == 0 else "none: " + o[-200:]


SMALL = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09"]


def small(res, work, tier, seed, pid):
    """Every behaviour of CodecMC.tla for a part of the catalogue of message types (thorough: for all of it),
    checked against the invariants by TLC, then performed on the real code."""
    exe = work.path("codec")
    every = 8 if tier == "quick" else 1
    rc, o = run([exe, "-catalog", work.path("job"), "-n", str(NCPU), "-every", str(every), "-max", "2", "-seed", str(seed + SMALL.index(pid))])
    if rc != 0:
        raise Broken("no catalogue: " + o[-1000:])

    def one(k):
        rc, o = tlc(work, "CodecMC", "CodecMC.cfg", "mc%d" % k, env={"JOB": work.path("job%d" % k)})
        st = states_of(o)
        if rc != 0 or "No error has been found" not in o or not st or st[2] != 0:
            raise Broken("CodecMC: rc %d\n%s" % (rc, "\n".join(x for x in o.splitlines() if not x.startswith('"PLAN'))[-3000:]))
        plan = work.path("plan%d" % k)
        ls = sorted(json.loads(json.loads(x)[4:]) for x in o.splitlines() if x.startswith('"PLAN'))
        open(plan, "w").write("".join(json.dumps(x) + "\n" for x in ls))
        return st, len(ls), plan

    runs = pmap(one, range(NCPU))
    for st, n, _ in runs:
        res.add("model_states", st[1])
        res.add("model_behaviours_replayed", n)
    codec.check(res, work, seed, pid, 0, exe=exe, plans=[p for _, _, p in runs])


BIG = {"P01", "P02", "P03", "P04", "P05", "P06", "P08", "P09", "P10"}


def big(res, work, tier, seed, pid):
    """Messages around the lengths at which length prefixes grow."""
    codec.check(res, work, seed, pid, 70 if tier == "quick" else 700, spec="BigTrace", pkg="cmd/big")
    if tier != "quick":   # lengths around 2^28
        codec.check(res, work, seed, pid, 20, spec="BigTrace", pkg="cmd/big", parts=2, env={"BIG_HUGE": "1"})


CHECKS = {p: mk(p) for p in CODEC}


def p12(res, work, tier, seed):
    codec.check(res, work, seed, "P12", 1200 if tier == "quick" else 20000, spec="TypesTrace", pkg="cmd/types")
    elsewhere(res, work, seed, "P12", 300 if tier == "quick" else 5000, tier == "quick", "TypesTrace", "cmd/types")


CHECKS["P12"] = p12


def p13(res, work, tier, seed):
    codec.check(res, work, seed, "P13", 120 if tier == "quick" else 2000, spec="DepthTrace", pkg="cmd/depth")
    elsewhere(res, work, seed, "P13", 30 if tier == "quick" else 500, tier == "quick", "DepthTrace", "cmd/depth")


CHECKS["P13"] = p13


def model(res, work, module, cfg, expect_ok=True, workers=4, mem="4g"):
    """An exhaustive TLC run of a specification on its own (a design check, not a verdict on the code)."""
    rc, o = tlc(work, module, cfg, "mc-" + cfg, workers=workers, mem=mem, timeout=800)
    st = states_of(o)
    ok = rc == 0 and "No error has been found" in o and st and st[2] == 0
    if ok != expect_ok or (not ok and "is violated" not in o):
        raise Broken("%s with %s: the model checker's answer is not the expected one (rc %d)\n%s" % (module, cfg, rc, o[-3000:]))
    if st:
        res.add("transitions", st[0])
        res.add("states", st[1])
        res.cover.setdefault("models", []).append({"module": module, "config": cfg, "distinct_states": st[1], "complete": st[2] == 0,
                                                   "expected_violation": not expect_ok})


def p11(res, work, tier, seed):
    quick = tier == "quick"
    env = {"GOGC": "20", "GORACE": "halt_on_error=1 exitcode=66"}
    codec.check(res, work, seed, "P11", 40 if quick else 800, race=True, env=env)
    codec.check(res, work, seed + 1000, "P11", 120 if quick else 3000, env={"GOGC": "20"})
    model(res, work, "DescCache", "DescCacheQuick.cfg" if quick else "DescCache.cfg", workers=8)
    if not quick:
        model(res, work, "DescCache", "DescCacheBroken.cfg", expect_ok=False)


CHECKS["P11"] = p11


GEN = {  # random file sets: quick, thorough
    "G01": (600, 16000), "G02": (400, 8000), "G03": (800, 20000), "G04": (250, 5000), "G05": (500, 12000), "G07": (500, 12000), "G09": (500, 10000), "G10": (500, 12000), "G13": (400, 9000),
}


def gen(pid):
    def f(res, work, tier, seed):
        env = {}
        if pid == "G04":
            env["PRUTALGEN"] = build(work, "github.com/cloudwego/prutal/prutalgen")
        codec.check(res, work, seed, pid, GEN[pid][0 if tier == "quick" else 1], spec="ProtoTrace", pkg="cmd/gen", env=env)
    return f


CHECKS.update({p: gen(p) for p in GEN})


E2E = {"G06": ((120, 480), (1000, 6000)), "G08": ((150, 900), (1200, 16000))}   # file sets, sessions: quick, thorough


def emitted(work, seed, sets):
    """The codec driver, built with code that prutalgen generated from random file sets."""
    d = work.path("emit")
    os.makedirs(d)
    rc, o = run([build(work, "cmd/gen"), "-emit", d, "-seed", str(seed), "-n", str(sets)], timeout=300)
    if rc != 0:
        raise Broken("generating code failed:\n" + o[-2000:])
    repl = {}
    for at, _, names in os.walk(d):
        for n in names:
            p = os.path.join(at, n)
            repl[os.path.join(HARNESS, os.path.relpath(p, d))] = p
    f = work.path("overlay.json")
    json.dump({"Replace": repl}, open(f, "w"))
    return build(work, "cmd/codec", out=work.path("codec-e2e"), overlay=f)


def e2e(pid):
    def f(res, work, tier, seed):
        sets, n = E2E[pid][0 if tier == "quick" else 1]
        codec.check(res, work, seed, pid, n, spec="E2ETrace", pkg="cmd/codec", exe=emitted(work, seed, sets))
        res.add("file_sets", sets)
    return f


CHECKS.update({p: e2e(p) for p in E2E})


def notes(res, work, tier, seed):
    """Random files, then every layout of NotesMC.tla."""
    codec.check(res, work, seed, "G11", 500 if tier == "quick" else 12000, spec="NotesTrace", pkg="cmd/notes")
    json.dump({"max": 5 if tier == "quick" else 6}, open(work.path("job"), "w"))
    rc, o = tlc(work, "NotesMC", "NotesMC.cfg", "mc", env={"JOB": work.path("job")})
    st = states_of(o)
    if rc != 0 or "No error has been found" not in o or not st or st[2] != 0:
        raise Broken("NotesMC: rc %d\n%s" % (rc, "\n".join(x for x in o.splitlines() if not x.startswith('"PLAN'))[-3000:]))
    res.add("model_states", st[1])
    ls = sorted(x[5:-1] for x in o.splitlines() if x.startswith('"PLAN'))
    res.add("model_behaviours_replayed", len(ls))
    plans = []
    for k in range(NCPU):
        plans.append(work.path("plan%d" % k))
        open(plans[k], "w").write("\n".join(ls[k::NCPU]) + "\n")
    codec.check(res, work, seed, "G11", 0, exe=work.path("notes"), plans=plans, spec="NotesTrace")


CHECKS["G11"] = notes


def syntax(res, work, tier, seed):
    """Random texts, then the texts GrammarMC.tla has for every configuration of the grammar's reader."""
    env = {"PRUTALGEN": build(work, "github.com/cloudwego/prutal/prutalgen")}
    codec.check(res, work, seed, "G12", 2400 if tier == "quick" else 40000, spec="GrammarTrace", pkg="cmd/syntax", env=env)
    json.dump({"deep": 1 if tier == "quick" else 4, "max": 80}, open(work.path("job"), "w"))
    rc, o = tlc(work, "GrammarMC", "GrammarMC.cfg", "mc", env={"JOB": work.path("job")})
    st = states_of(o)
    if rc != 0 or "No error has been found" not in o or not st or st[2] != 0:
        raise Broken("GrammarMC: rc %d\n%s" % (rc, "\n".join(x for x in o.splitlines() if not x.startswith('"PLAN'))[-3000:]))
    res.add("model_states", st[1])
    ls = sorted({x[5:-1].strip() for x in o.splitlines() if x.startswith('"PLAN')})
    res.add("model_behaviours_replayed", len(ls))
    plans = []
    for k in range(NCPU):
        plans.append(work.path("plan%d" % k))
        open(plans[k], "w").write("\n".join(ls[k::NCPU]) + "\n")
    codec.check(res, work, seed, "G12", 0, exe=work.path("syntax"), plans=plans, spec="GrammarTrace", env=env)


CHECKS["G12"] = syntax


def runs(res, work, tier, seed):
    """Random builds, some of them under the race detector, then every short behaviour of RunsMC.tla."""
    quick = tier == "quick"
    env = {"PRUTALGEN": build(work, "github.com/cloudwego/prutal/prutalgen")}
    codec.check(res, work, seed, "G14", 1200 if quick else 24000, spec="RunsTrace", pkg="cmd/runs", env=env)
    codec.check(res, work, seed + 1000, "G14", 160 if quick else 2400, spec="RunsTrace", pkg="cmd/runs", race=True,
                env={"GORACE": "halt_on_error=1 exitcode=66"})
    json.dump({"max": 4 if quick else 5}, open(work.path("job"), "w"))
    rc, o = tlc(work, "RunsMC", "RunsMC.cfg", "mc", env={"JOB": work.path("job")})
    st = states_of(o)
    if rc != 0 or "No error has been found" not in o or not st or st[2] != 0:
        raise Broken("RunsMC: rc %d\n%s" % (rc, "\n".join(x for x in o.splitlines() if not x.startswith('"PLAN'))[-3000:]))
    res.add("model_states", st[1])
    ls = sorted(json.loads(x)[4:] for x in o.splitlines() if x.startswith('"PLAN'))
    res.add("model_behaviours_replayed", len(ls))
    plans = []
    for k in range(NCPU):
        plans.append(work.path("plan%d" % k))
        open(plans[k], "w").write("\n".join(ls[k::NCPU]) + "\n")
    codec.check(res, work, seed, "G14", 0, exe=work.path("runs"), plans=plans, spec="RunsTrace", env=env)


CHECKS["G14"] = runs
