"""P01..P10: sessions on the real prutal, validated against Codec.tla."""
import json
import os
import subprocess
import time

from core import *


def record(work, exe, prof, seed, n, k, parts, env=None, plan=None):
    """Runs sessions k, k+parts, ... of a profile; a dead driver becomes a crash event."""
    name = "%s-%s-%s%d" % (prof, os.path.basename(exe), "plan" if plan else "", k)
    out, cur = work.path("tr-%s.ndjson" % name), work.path("cur-" + name)
    start, crashes = k, []
    if plan:    # sessions of the plan instead of random ones
        start, parts = 0, 1
    while True:
        open(cur, "w").write("none")
        rc, o = drive([exe, "-profile", prof, "-seed", str(seed), "-n", str(n), "-from", str(start),
                       "-step", str(parts), "-out", out, "-cur", cur] + (["-plan", plan] if plan else []),
                      goenv(GOMEMLIMIT="2500MiB", GODEBUG="clobberfree=1", GOTRACEBACK="single", **(env or {})), work.path("log-" + name), cur)
        c = open(cur).read().strip()
        if c == "done" and rc == 0:
            break
        if not c.isdigit():
            raise Broken("driver failed: rc=%d\n%s" % (rc, o[-2000:]))
        i = int(c)
        # ("panic: harness: ..." is the driver's own consistency check, which only fails
        # when its memory was corrupted under it)
        what = next((x for x in o.splitlines() if x.startswith(("fatal error", "panic", "unexpected fault", "SIG", "WARNING: DATA RACE"))), "process died rc=%d" % rc)
        crashes.append((i, what, o[-4000:]))
        # drop a torn last line, add the crash
        data = open(out, "rb").read() if os.path.exists(out) else b""
        data = data[:data.rfind(b"\n") + 1]
        ev = {"id": i, "S": [], "ev": [{"op": "crash", "what": what[:300], "slot": 1, "sv": 1, "t": 1}]}
        open(out, "wb").write(data + json.dumps(ev).encode() + b"\n")
        if len(crashes) > 20 or "HANG" in what:
            break
        start = i + parts
    return intact(out)


def drive(cmd, env, log, cur, stall=150, limit=800):
    """Runs a driver, which writes the number of each session to cur, until it ends or makes no progress."""
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)
        begin = since = time.monotonic()
        at, hang = None, False
        while True:
            try:
                rc = p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                now, c = time.monotonic(), open(cur).read()
                if c != at:
                    at, since = c, now
                hang = now - since > stall
                if hang or now - begin > limit:
                    p.kill()
                    p.wait()
                    if not hang:
                        raise Broken("driver takes more than %d s" % limit)
                    rc = 97
                    break
    o = open(log, "rb").read()
    o = (o if len(o) < 200000 else o[:100000] + b"\n...\n" + o[-100000:]).decode("utf-8", "replace")
    return rc, "fatal error: HANG (driver makes no progress)" if hang else o


def intact(out):
    """Code that corrupts memory can garble the recording: such a line becomes a crash event."""
    bad, lines = False, open(out, "rb").read().splitlines() if os.path.exists(out) else []
    for j, x in enumerate(lines):
        try:
            json.loads(x)
        except ValueError:
            bad = True
            m = re.match(rb'\{"id":(\d+),', x)
            lines[j] = json.dumps({"id": int(m.group(1)) if m else -1, "S": [], "ev": [
                {"op": "crash", "what": "the driver's memory was corrupted", "slot": 1, "sv": 1, "t": 1}]}).encode()
    if bad:
        open(out, "wb").write(b"\n".join(lines) + b"\n")
    return out


def validate(work, trace, prof, name, spec="CodecTrace", prop=None, depth=1000):
    lines = [json.loads(x) for x in open(trace)] if os.path.getsize(trace) < 300e6 else None
    if not lines:
        return [], {}, (0, 0), []
    rc, o = tlc(work, spec, spec + ".cfg", name, env={"TRACE": trace, "PROP": prop or prof}, workers=1)
    st = states_of(o)
    want = sum(len(x["ev"]) + 1 for x in lines)
    if spec == "GrammarTrace":   # a state per token
        rej, stat = parse_prints(o)
        done = st and st[2] == 0 and st[1] > len(lines) and sum(n for k, n in stat.items() if k.startswith("STAT:text/")) == len(lines)
    else:
        done = st and st[2] == 0 and st[1] == want
    if rc != 0 or "No error has been found" not in o or not done:
        raise Broken("TLC did not consume the traces of %s (rc %d, states %s, wanted %d)\n%s" % (prof, rc, st, want, o[-3000:]))
    rej, stat = parse_prints(o)
    return rej, stat, (st[0], st[1]), lines


def check(res, work, seed, prof, n, spec="CodecTrace", pkg="cmd/codec", parts=None, race=False, env=None, exe=None, plans=None):
    parts = parts or NCPU
    exe = exe or build(work, pkg, race=race)
    traces = pmap(lambda k: record(work, exe, prof, seed, n, k, parts, env, plans and plans[k]), range(parts))
    outs = pmap(lambda k: validate(work, traces[k], prof, "%s-%s-%s%d" % (prof, os.path.basename(exe), "plan" if plans else "", k), spec), range(parts))
    ops = res.cover.setdefault("events_by_action", {})
    for k, (rej, stat, st, lines) in enumerate(outs):
        res.add("transitions", st[0])
        res.add("states", st[1])
        res.add("traces_validated_against_impl", len(lines))
        for x in lines:
            for e in x["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        for a, b in stat.items():
            res.cover.setdefault("outcomes", {})
            res.cover["outcomes"][a] = res.cover["outcomes"].get(a, 0) + b
        for r in rej:
            s, l, op, why = r
            x = lines[s - 1]
            e = x["ev"][l - 1]
            if why == "HARNESS":
                if any(q[0] == s and q[1] < l and q[3] != "HARNESS" for q in rej):
                    continue   # what the harness does next comes from what was rejected there
                raise Broken("harness produced an ill-formed value in session %s" % x["id"])
            text = "session %d event %d: %s: %s" % (x["id"], l, op, e.get("what", why) if op == "crash" else why)
            res.violation(op + ":" + why, text,
                          {"profile": prof, "seed": seed, "session": x["id"], "event": l,
                           "rerun": os.path.basename(pkg) + " -profile %s -seed %d -n %d -from %d -step 1000000 -out /dev/stdout -cur /dev/null" % (prof, seed, n, x["id"]),
                           "S": x["S"], "S2": x.get("S2"), "events": x["ev"][max(0, l - 6):l]})
        if k == 0 and lines and "samples" not in res.cover:
            small = [x for x in lines[:200] if len(json.dumps(x)) < 6000] or [{"id": lines[0]["id"], "S": "large", "ev": []}]
            x = max(small, key=lambda x: len(x["ev"]))
            res.cover["samples"] = [{"session": x["id"], "types": x["S"], "events": x["ev"][:6]}]
    if not ops:
        raise Broken("no sessions were recorded")
    return ops
