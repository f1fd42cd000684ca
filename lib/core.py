"""Shared machinery of the checks: building drivers, running them, running TLC."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The machinery could not give an answer (exit 2, never a verdict)."""


def goenv(**extra):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    if os.path.isdir(GOROOT):
        e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.update(extra)
    return e


GOROOT = "/opt/veriftools/go1.27.3"     # the toolchain /opt/vp/build.sh uses


def go_bin():
    p = GOROOT + "/bin/go"
    return p if os.path.exists(p) else (shutil.which("go") or "go")


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, input=stdin)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Work:
    """A scratch directory, removed at the end."""

    def __init__(self, name):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, pkg, race=False, tags="", out=None, overlay=None, arch="", goroot=""):
    """Builds a driver of the harness module against REPO's working tree."""
    out = out or work.path(os.path.basename(pkg) + ("-race" if race else ""))
    mod = work.path("go%s.mod" % os.path.basename(goroot))
    if not os.path.exists(mod):
        s = open(os.path.join(HARNESS, "go.mod")).read()
        if goroot:
            s = s.replace("go 1.24", "go 1.23")
        open(mod, "w").write(s.replace("=> /repo", "=> " + REPO))
        open(mod[:-3] + "sum", "w").write("")
    env = goenv(**({"GOARCH": arch, "CGO_ENABLED": "0"} if arch else {}))
    if goroot:
        env.update(GOROOT=goroot, PATH=goroot + "/bin:" + env["PATH"])
    cmd = [goroot + "/bin/go" if goroot else go_bin(), "build", "-modfile", mod, "-o", out]
    if race:
        # checkptr cannot follow the allocator calls with types that reflect.StructOf made
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    if tags:
        cmd += ["-tags", tags]
    if overlay:
        cmd += ["-overlay", overlay]
    rc, o = run(cmd + [pkg if pkg.startswith("github.com/") else "./" + pkg], cwd=HARNESS, env=env, timeout=800)
    if rc != 0:
        raise Broken("cannot build %s:\n%s" % (pkg, o[-3000:]))
    return out


def tlc(work, module, cfg, name, env=None, workers=1, timeout=800, mem="3g", extra=()):
    """Runs TLC; returns its output.  The spec directory is copied so that TLC leaves nothing behind."""
    d = work.path("tlc-" + name)
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + [os.path.join(SPEC, cfg)]:
        shutil.copy(f, d)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cp = ":".join([JAR] + glob.glob(os.path.join(os.path.dirname(JAR), "*ommunity*.jar")))
    cmd = ["java", gc, "-Xmx" + mem, "-Xss64m", "-XX:+UseStringDeduplication" if workers > 1 else "-XX:-UsePerfData",
           "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    cmd = [c for c in cmd if c != "-XX:+UseStringDeduplication"]
    try:
        rc, o = run(cmd, timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        raise Broken("TLC ran out of time on %s" % module)
    return rc, o


def states_of(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, (\d[\d,]*) states left", out)
    if not m:
        return None
    return tuple(int(x.replace(",", "")) for x in m[-1])


def pmap(f, xs, n=None):
    xs = list(xs)
    with concurrent.futures.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))


TUPLE = re.compile(r'^<<"(REJECT|DEC|STAT)", (.*)>>$')


def parse_prints(out):
    """The tuples the trace specifications print."""
    rej, stat = [], {}
    # TLC may break long tuples over lines
    text = re.sub(r"\n\s+", " ", out)
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r'^<<\s*"(REJECT|DEC|STAT)",\s*(.*?)\s*>>$', line)
        if not m:
            continue
        try:
            parts = json.loads("[" + m.group(2).replace("TRUE", "true").replace("FALSE", "false") + "]")
        except ValueError:
            parts = [m.group(2)]
        if m.group(1) == "REJECT":
            rej.append(parts)
        else:
            k = m.group(1) + ":" + "/".join(str(x) for x in parts)
            stat[k] = stat.get(k, 0) + 1
    return rej, stat


def known_findings():
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []   # (key, text, replay)
        self.known = []
        self.cover = {}        # what was explored, for the evidence file
        self.notes = []
        self.t0 = time.time()

    def add(self, n, k=1):
        self.cover[n] = self.cover.get(n, 0) + k

    def violation(self, key, text, payload):
        """Records a violation, unless the committed file lists it."""
        for k in known_findings():
            if k.get("status") == "known" and k.get("property") == self.pid and k.get("key") == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k.get("what", text)))
                return
        if len(self.violations) < 200:
            path = ""
            if len(self.violations) < 5:
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, "%s-%d.json" % (self.pid, len(self.violations)))
                json.dump({"property": self.pid, "key": key, "what": text, "data": payload}, open(path, "w"), indent=1)
            self.violations.append((key, text, path))
        else:
            self.violations.append((key, text, ""))
