"""What all checks share: scratch space, TLC, verdicts, evidence."""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))


class Broken(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    """One run of the check of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="zeropb-verif-")
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
        self.lock = threading.Lock()
        self.violations = []   # dicts
        self.known = []        # (id, text)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []
        self.notes = []
        self.pool = ThreadPoolExecutor(8)
        self.broken = []

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, most=6):
        with self.lock:
            if len(self.samples) < most:
                self.samples.append(s)

    def violate(self, v):
        with self.lock:
            self.violations.append(v)

    def parallel(self, jobs):
        """Runs (function, args...) jobs, raises the first error."""
        fs = [self.pool.submit(*j) for j in jobs]
        for f in fs:
            f.result()


def tlc(ctx, dir, module, cfg, env=None, workers=1, mem="3g", extra=(), timeout=800, out=None):
    """Runs TLC in dir on module.tla with cfg, returns its output's path."""
    out = out or os.path.join(dir, module + ".out")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + dir, "-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(dir, "meta." + os.path.basename(out)),
           "-config", cfg, *extra, module + ".tla"]
    with open(out, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=dir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC: no end after %d s: %s" % (timeout, module))
    shutil.rmtree(os.path.join(dir, "meta." + os.path.basename(out)), ignore_errors=True)
    return out, p.returncode


def prove(ctx, module, dir, cinit):
    """An inductive invariant Inv of module, proved by Apalache for all integers.
    It is about the specification alone, so that no answer is no failure."""
    d = os.path.join(dir, "proof-" + module)
    os.makedirs(d)
    shutil.copy(os.path.join(HERE, "spec", module + ".tla"), d)
    said = []
    for init, length in (("Init", 0), ("Inv", 1)):
        cmd = ["apalache-mc", "check", "--cinit=" + cinit, "--init=" + init, "--next=Next", "--inv=Inv",
               "--length=%d" % length, "--out-dir=" + os.path.join(d, "out"), module + ".tla"]
        env = dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d, HOME=d)
        try:
            p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True,
                               timeout=120 if ctx.quick else 600)
        except (subprocess.TimeoutExpired, OSError) as e:
            said.append("no answer: " + str(e)[:100])
            continue
        m = re.search(r"The outcome is: (\w+)", p.stdout)
        said.append(m.group(1) if m else "no answer")
        if p.returncode == 12:
            raise Broken("%s: Inv is not inductive:\n%s" % (module, p.stdout[-2000:]))
    with ctx.lock:
        ctx.cov.setdefault("proofs", []).append(
            {"module": module, "constants": cinit, "Init => Inv": said[0], "Inv /\\ Next => Inv'": said[1]})


STATES = re.compile(rb"(\d+) states generated, (\d+) distinct states found")
SIMSTATES = re.compile(rb"The number of states generated: (\d+)")


def tlc_lines(path, mark):
    """The strings that the specification printed with this mark."""
    m = ('"@%s ' % mark).encode()
    with open(path, "rb") as f:
        for line in f:
            if line.startswith(m):
                yield json.loads(line)[len(mark) + 2:]


def tlc_tail(path, n=3000):
    with open(path, "rb") as f:
        data = f.read()
    keep = [l for l in data.split(b"\n") if not l.startswith(b'"@')]
    at = [i for i, l in enumerate(keep) if b"Error:" in l]
    if at:  # the first error says more than the end of the stack
        keep = [l[:400] for l in keep[at[0]:at[0] + 30] if not l.startswith(b"/\\")]
    return b"\n".join(keep).decode(errors="replace")[-n:]


def tlc_counts(path):
    """(states generated, distinct states)"""
    gen = dist = 0
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 20000))
        data = f.read()
    for m in STATES.finditer(data):
        gen, dist = int(m.group(1)), int(m.group(2))
    m = SIMSTATES.search(data)
    if m:
        gen = int(m.group(1))
    return gen, dist


def copy_spec(dir, extra=()):
    for n in os.listdir(SPEC):
        if n.endswith(".tla") or n.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, n), os.path.join(dir, n))
    for src, dst in extra:
        shutil.copy(os.path.join(SPEC, src), os.path.join(dir, dst))
    return dir


KNOWN = re.compile(r'known: property=(\S+) id="([^"]*)" *(.*)')


def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = KNOWN.match(line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, level, assumptions):
    """Writes the evidence and prints the verdict; returns the exit code."""
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    ctx.cov["samples"] = ctx.samples or ["none"]
    if ctx.notes:
        ctx.cov["notes"] = ctx.notes
    doc = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
           "coverage": ctx.cov, "assumptions": assumptions,
           "wall_s": round(time.time() - ctx.start, 1), "violations": len(ctx.violations)}
    tmp = os.path.join(ev, ctx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ev, ctx.prop + ".json"))
    for id, text in sorted(ctx.known):
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, id, text))
    if ctx.violations:
        for i, v in enumerate(ctx.violations[:5]):
            path = os.path.join(ev, "replays", "%s-%d.json" % (ctx.prop, i + 1))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, os.path.relpath(path, HERE)))
            print("  " + v.get("summary", "")[:600])
        return 1
    if ctx.broken:
        for b in ctx.broken[:5]:
            print("ERROR: " + b, file=sys.stderr)
        return 2
    c = ctx.cov
    print("ok %s %s: %d states, %d transitions, %d traces of the real code judged (%.0f s)" % (
        ctx.prop, ctx.tier, c["states"], c["transitions"], c["traces_validated_against_impl"],
        time.time() - ctx.start))
    return 0
