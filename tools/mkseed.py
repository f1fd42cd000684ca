#!/usr/bin/env python3
"""mkseed.py DEFS.py [ids]: makes planted bugs from edits, and confirms them.

DEFS.py defines SEEDS: id -> {property, edits: [(file, old, new)], demo: Go test source, pkg: directory of the demo,
needs, breaks}.  Confirmed: builds, passes the tests, demo passes without and fails with the change.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOROOT="/opt/veriftools/go1.27.3")
DEMO = """#!/bin/bash
# cwd: the repository. Exit 0 when the property holds, 1 when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)szz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s %(flags)s./%(pkg)s || exit 1
"""


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for id, s in g["SEEDS"].items():
        if len(sys.argv) > 2 and id not in sys.argv[2:]:
            continue
        wt = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            sh("cp -a /repo/. .", wt)
            d = os.path.join(V, "seeded", id)
            os.makedirs(d, exist_ok=True)
            pkg = s.get("pkg", "")
            if "sh" in s:
                open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
            else:
                open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": pkg, "flags": s.get("flags", "")})
                open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
            for n, c in s.get("files", {}).items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                open(os.path.join(d, n), "w").write(c)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            rc0, o0 = sh("bash %s/demo.sh" % d, wt)
            for f, a, b in s["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                if t.count(a) < 1:
                    print(id, "EDIT NOT FOUND", f, a)
                    return
                open(p, "w").write(t.replace(a, b, 1))
            rb, ob = sh("go build ./...", wt)
            rt, ot = sh("go test -vet=off ./... 2>&1 | grep -v 'no test files' | grep -E '^(---|FAIL|panic)' | head -5", wt)
            rc1, o1 = sh("bash %s/demo.sh" % d, wt)
            _, diff = sh("git diff", wt)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            good = rc0 == 0 and rb == 0 and "FAIL" not in ot and rc1 != 0
            print(id, s["property"], "OK" if good else "BAD", "demo0=%d build=%d tests=%s demo1=%d" % (rc0, rb, ot.strip()[:300] or "pass", rc1))
            if not good:
                print((o0[-1500:] if rc0 else "") + ob[-800:])
                shutil.rmtree(d)
            else:
                print("   ", " | ".join(x for x in o1.splitlines() if "demo" in x or "panic" in x or "DATA RACE" in x)[:200])
        finally:
            shutil.rmtree(wt, ignore_errors=True)


main()
