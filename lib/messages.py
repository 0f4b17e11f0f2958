"""C01 to C15: messages. The specification's behaviours are replayed into the
real code, and traces recorded from the real code are judged by Trace.tla."""
import json
import os
import re
import shutil
import subprocess

import build
from core import (Broken, copy_spec, known_findings, prove, tlc, tlc_counts, tlc_lines, tlc_tail)

READ = ["read:self", "read:other", "read:dec", "read:panic", "read:fault"]
SUB = ["sub:self", "sub:other", "sub:dec", "sub:present", "sub:err", "sub:noerr",
       "sub:panic", "sub:fault"]
REP = ["rep:self", "rep:other", "rep:dec", "rep:count", "rep:content", "rep:err", "rep:noerr",
       "rep:panic", "rep:fault"]
ENC = ["enc:malformed", "enc:wire", "enc:content", "enc:unknown", "enc:split", "enc:panic", "enc:fault"]
RESIDUE = ["enc:residue", "enc:length", "enc:split"]
OP = ["op:panic", "op:hang", "op:fault"]
DEC = ["dec:accept", "dec:reject", "dec:panic", "dec:hang", "dec:fault"]
COPY = ["copy:err", "copy:panic", "copy:hang", "copy:fault"]
COPIED = COPY + ["copy-" + c for c in READ + SUB + REP + ENC]
HANG = ["hang"]

# The message type on which a pool of the model is replayed.
POOLS = {"Small": "Small", "Big": "Small", "Tags": "Wide", "Kinds": "All", "Tree": "Tree",
         "Unknown": "Tiny", "Raft": "vraft.Message", "Views": "Tree"}
DPOOLS = {"DSmall": "Small", "DTiny": "Tiny", "DBytes": "Small", "DVarint": "Small"}


class P:
    """What decides one property."""

    def __init__(self, rel, works, models=(), deep=(), decode=(), ddeep=(), sim=(),
                 modes=2, reused=False, race=False, replay="replay", reads=(), dreads=(),
                 pairs=(), dpairs=(), memory=(), dmemory=(), proof=False, assume=()):
        self.rel = sorted(set(rel))
        self.works = works      # (workload, traces in quick, traces in thorough)
        self.models = models    # (pool, depth) in quick; "paths": all histories, else all states
        self.deep = deep        # in thorough
        self.replay = replay    # what the driver does with the behaviours
        self.reads = reads      # (pool, writes, reads, readers, behaviours or None: all)
        self.dreads = dreads
        self.pairs = pairs      # (pool, steps, messages, behaviours or None: all)
        self.dpairs = dpairs
        self.memory = memory    # (pool, calls, length of parts, behaviours or None: all)
        self.dmemory = dmemory
        self.proof = proof      # of Layout.tla
        self.decode = decode    # (pool, length)
        self.ddeep = ddeep
        self.sim = sim          # (pool, behaviours, depth), thorough; fewer in quick
        self.modes = modes
        self.reused = reused
        self.race = race
        self.assume = list(assume)


PROPS = {
    "C01": P(READ + SUB + ["rep:other", "rep:panic", "rep:fault"] + OP + HANG + ["dec:panic"],
             [("jumbo", 40, 1000), ("ops", 1600, 40000), ("overset", 1200, 30000), ("unknown", 400, 10000), ("long", 80, 2000), ("again", 60, 3000)],
             models=[("Small", 4, "paths"), ("Tags", 2), ("Kinds", 1), ("Raft", 2)],
             deep=[("Small", 5, "paths"), ("Small", 6), ("Tags", 4), ("Kinds", 2), ("Raft", 4), ("Tree", 4), ("Unknown", 3)],
             sim=[("Tags", 4000, 25), ("Raft", 4000, 25)]),
    "C02": P(ENC + COPIED + OP + HANG + ["probe:set"],
             [("jumbo", 40, 1000), ("copy", 1600, 40000), ("unknown", 600, 15000), ("long", 60, 1500), ("probe", 1, 1)],
             models=[("Small", 4, "paths"), ("Tags", 2), ("Raft", 2), ("Tree", 2)],
             deep=[("Small", 5, "paths"), ("Small", 6), ("Tags", 4), ("Kinds", 2), ("Raft", 4), ("Tree", 4), ("Unknown", 3)],
             sim=[("Tags", 4000, 25), ("Tree", 4000, 25)]),
    "C03": P(["read:dec", "sub:dec", "rep:dec", "sub:present", "sub:err", "sub:panic", "sub:fault",
              "read:panic", "read:fault", "rep:err", "rep:panic", "rep:fault", "rep:count",
              "rep:content", "dec:accept", "dec:panic", "dec:hang", "dec:fault", "hang", "split"],
             [("jumbo", 40, 1000), ("decode", 5000, 120000), ("frames", 600, 20000), ("many", 16, 600), ("probe", 1, 1)],
             models=[("Kinds", 1), ("Tree", 1), ("Tags", 1), ("Unknown", 1), ("Small", 1)],
             decode=[("DSmall", 4), ("DTiny", 4)], ddeep=[("DSmall", 5), ("DTiny", 5), ("DVarint", 11), ("DBytes", 2)]),
    "C04": P(DEC + ["mem:input"],
             [("noise", 6000, 150000), ("decode", 1000, 30000), ("hostile", 800, 20000), ("many", 16, 600)],
             decode=[("DSmall", 4), ("DTiny", 4), ("DVarint", 8)],
             ddeep=[("DSmall", 5), ("DTiny", 5), ("DVarint", 11), ("DBytes", 2)]),
    "C05": P(["read:panic", "read:fault", "sub:panic", "sub:fault", "sub:err", "sub:noerr",
              "rep:panic", "rep:fault", "rep:err", "rep:noerr", "rep:other", "read:other",
              "sub:other", "enc:panic", "enc:fault", "mem:input", "probe:read"] + OP + HANG,
             [("hostile", 6000, 150000), ("noise", 3000, 60000), ("probe", 1, 1)],
             decode=[("DSmall", 4), ("DTiny", 4)], ddeep=[("DSmall", 5), ("DTiny", 5), ("DBytes", 2)]),
    "C06": P(REP + OP + HANG,
             [("jumbo", 40, 1000), ("repeat", 2500, 50000), ("frames", 300, 10000), ("many", 24, 600)],
             models=[("Small", 4, "paths"), ("Tree", 2), ("Tags", 2)],
             deep=[("Small", 5, "paths"), ("Small", 6), ("Tree", 4), ("Tags", 4), ("Raft", 4), ("Unknown", 3)],
             sim=[("Tree", 4000, 25), ("Small", 4000, 25)]),
    "C07": P(READ + SUB + REP + ENC + COPIED + OP + HANG + DEC,
             [("jumbo", 40, 1000), ("huge", 16, 200), ("boundary", 4000, 100000)],
             models=[("Big", 3, "paths")], deep=[("Big", 4, "paths"), ("Big", 5)], sim=[("Big", 10000, 20)], proof=True),
    "C08": P(["differ", "reset:cap", "mem:reset:accepts"] + READ + SUB + REP + ENC + OP + HANG
             + ["dec:accept", "dec:panic", "dec:hang", "dec:fault"],
             [("reuse", 1800, 40000), ("frames", 300, 10000), ("long", 40, 1000), ("again", 80, 4000)],
             models=[("Small", 4, "paths"), ("Tree", 2), ("Big", 2, "paths")],
             deep=[("Small", 5, "paths"), ("Small", 6), ("Tree", 4), ("Big", 4), ("Tags", 3)], modes=3, reused=True),
    "C09": P(["canon", "read:self", "read:dec", "read:panic", "read:fault", "copy-read:other", "copy:err"] + OP,
             [("scalars", 2200, 60000)],
             models=[("Kinds", 2), ("Tags", 1)], deep=[("Kinds", 2), ("Tags", 2)]),
    "C10": P(READ + SUB + REP + ENC + OP + HANG + ["dec:accept", "dec:panic", "dec:hang", "dec:fault"],
             [("jumbo", 40, 1000), ("unknown", 2500, 60000), ("many", 16, 600)],
             models=[("Unknown", 2)], deep=[("Unknown", 3), ("Tags", 4)], decode=[("DTiny", 4)],
             ddeep=[("DTiny", 5)]),
    "C11": P(READ + SUB + REP + OP + HANG + ["enc:split", "enc:malformed"],
             [("jumbo", 40, 1000), ("nest", 4000, 100000), ("many", 24, 600)],
             models=[("Tree", 2), ("Raft", 2)], deep=[("Tree", 4), ("Raft", 4), ("Tags", 4)]),
    "C12": P(READ + SUB + REP + ENC + OP + HANG + ["canon", "mem:argument"],
             [("jumbo", 40, 1000), ("alias", 1500, 40000), ("extract", 1800, 40000)],
             models=[("Tree", 3)], deep=[("Tree", 4)],
             memory=[("Views", 1, 40, None), ("Views", 6, 6, 200)],
             dmemory=[("Views", 2, 6, None), ("Views", 8, 8, 30000)]),
    "C13": P(["impure", "unstable", "differ", "mem:read", "mem:read:panic", "mem:read:fault", "mem:input",
              "mem:race", "read:fault", "sub:fault", "rep:fault", "enc:fault"],
             [("pure", 1500, 40000), ("race", 120, 3000), ("boundary", 400, 10000)], race=True,
             reads=[("Small", 2, 2, 2, None), ("Big", 4, 6, 2, 600), ("Tree", 5, 14, 3, 300)],
             dreads=[("Small", 2, 3, 2, None), ("Small", 3, 2, 2, None), ("Tree", 1, 3, 2, None),
                     ("Big", 3, 1, 1, None), ("Big", 5, 8, 2, 10000), ("Tree", 6, 20, 3, 10000),
                     ("Raft", 6, 20, 3, 4000), ("Tags", 6, 20, 2, 4000), ("Kinds", 6, 20, 2, 4000)]),
    "C14": P(["alloc"], [("alloc", 4000, 60000)], replay="allocs",
             models=[("Small", 3), ("Tags", 2), ("Tree", 2), ("Big", 2), ("Kinds", 1), ("Raft", 2)],
             deep=[("Small", 3, "paths"), ("Small", 6), ("Tags", 4), ("Tree", 4), ("Big", 3, "paths"),
                   ("Kinds", 2), ("Raft", 4), ("Unknown", 3)],
             sim=[("Raft", 4000, 25), ("Kinds", 4000, 25)]),
    "C15": P(RESIDUE + OP + HANG,
             [("overset", 1800, 40000), ("copy", 500, 10000), ("boundary", 600, 15000), ("long", 60, 1500), ("again", 40, 2000)],
             models=[("Small", 4, "paths"), ("Tags", 2), ("Raft", 2)],
             deep=[("Small", 5, "paths"), ("Small", 6), ("Tags", 4), ("Raft", 4), ("Big", 4)],
             sim=[("Tags", 4000, 25)]),
    "C20": P(["differ", "mem:race", "hang"], [("parallel", 240, 6000)], race=True,
             pairs=[("Small", 3, 2, None), ("Tree", 6, 2, 1000), ("Big", 6, 2, 500), ("Raft", 8, 3, 1000)],
             dpairs=[("Small", 4, 2, None), ("Small", 3, 3, None), ("Tree", 10, 3, 10000), ("Big", 8, 3, 10000),
                     ("Raft", 12, 3, 10000), ("Kinds", 12, 3, 10000), ("Tags", 12, 3, 10000)]),
}

FATAL = {"set": "op:panic", "app": "op:panic", "rst": "op:panic", "sub": "op:panic",
         "next": "op:panic", "iter": "op:panic", "dec": "dec:panic", "copy": "copy:panic",
         "obs": "read:panic", "hang": "op:panic", "parallel": "mem:race"}


def drive(ctx, drv, args, out, sync=None, env=None, timeout=600):
    """Runs the driver; returns (@STATS or None, @REPLAY or None, stderr)."""
    cmd = [drv, "-out", out] + args + (["-sync", sync] if sync else [])
    e = dict(os.environ, GOTRACEBACK="single", GOMAXPROCS="4")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, env=e, timeout=timeout, cwd=ctx.scratch)
    except subprocess.TimeoutExpired:
        raise Broken("the driver did not end: " + " ".join(args))
    stats = rep = None
    for line in p.stdout.decode(errors="replace").splitlines():
        if line.startswith("@STATS "):
            stats = json.loads(line[7:])
        elif line.startswith("@REPLAY "):
            rep = json.loads(line[8:])
    if p.returncode not in (0, 66):
        stats = None
    return stats, rep, p.stderr.decode(errors="replace")


def judge(ctx, dir, trace, tag):
    """Runs Trace.tla on a recorded file; returns the deviations."""
    out = os.path.join(dir, tag + ".judge")
    n = sum(1 for _ in open(trace, "rb"))
    if n == 0:
        return []
    out, rc = tlc(ctx, dir, "Trace", "Trace.cfg", env={"TRACE": trace}, out=out)
    end = list(tlc_lines(out, "END"))
    vs = list(tlc_lines(out, "V"))
    if not end or int(end[-1]) != n or not vs:
        raise Broken("the judge stopped at %s of %d events of %s:\n%s" % (end, n, tag, tlc_tail(out)))
    return json.loads(vs[-1])


def excerpt(trace, t, upto):
    """The events of trace t up to line upto."""
    out = []
    with open(trace) as f:
        for i, line in enumerate(f, 1):
            if i > upto:
                break
            if '"t":%d' % t in line:
                ev = json.loads(line)
                if ev.get("t") == t:
                    if i < upto:
                        ev.pop("post", None)
                    s = json.dumps(ev)
                    out.append(ev if len(s) < 20000 else s[:20000] + "...")
    return out


def report(ctx, spec, trace, devs, what):
    """Deviations to violations and known findings."""
    known = known_findings(ctx.prop)
    for v in devs:
        if v["id"] and v["id"] in known:
            ctx.known.append((v["id"], known[v["id"]]))
            continue
        ev = excerpt(trace, v["t"], v["l"])
        ctx.violate({"property": ctx.prop, "clauses": v["cl"], "where": what, "trace": v["t"],
                     "id": v["id"],
                     "summary": "%s %s: %s in %s" % (v["e"], v["id"], ", ".join(v["cl"]), what["workload"]),
                     "events": ev})


def fatal(ctx, spec, drv, args, dir, tag, err, env):
    """The driver died: find out in which call."""
    if "fatal error: concurrent" in err and "mem:race" in spec.rel:
        ctx.violate({"property": ctx.prop, "clauses": ["mem:race"], "where": {"args": args},
                     "summary": "the process died: " + re.search("fatal error: concurrent.*", err).group(0),
                     "events": [], "stderr": err[-4000:]})
        return
    sync = os.path.join(dir, tag + ".sync")
    out = os.path.join(dir, tag + ".again")
    stats, _, err2 = drive(ctx, drv, args, out, sync=sync, env=env)
    try:
        with open(sync) as f:
            note = json.loads(f.read())
    except (OSError, ValueError):
        note = None
    if stats is not None or note is None:
        raise Broken("the driver died: %s\n%s" % (" ".join(args), err[-2000:]))
    cl = FATAL.get(note["ev"]["e"], "op:panic")
    if cl not in spec.rel and not (cl == "copy:panic" and "op:panic" in spec.rel):
        ctx.broken.append("a call died that is not the subject of %s: %s" % (ctx.prop, note["ev"]["e"]))
        return
    ctx.violate({"property": ctx.prop, "clauses": [cl], "where": {"args": args},
                 "summary": "%s: the process died: %s" % (note["ev"]["e"], err2.strip().splitlines()[0] if err2.strip() else ""),
                 "events": [note], "stderr": err2[-4000:]})


FRAGILE = {"alloc", "hang", "op:hang", "dec:hang", "copy:hang"}


def work(ctx, spec, drv, name, n, seed, dir):
    tag = "%s-%d" % (name, seed)
    trace = os.path.join(dir, tag + ".nd")
    args = ["-work", name, "-n", str(n), "-seed", str(seed), "-rel", ",".join(spec.rel)]
    env = {}
    if spec.race:
        log = os.path.join(dir, tag + ".race")
        env["GORACE"] = "log_path=%s exitcode=66 halt_on_error=0" % log
        if name in ("race", "parallel"):
            args += ["-racelog", log]
    stats, _, err = drive(ctx, drv, args, trace, env=env)
    if stats is None:
        fatal(ctx, spec, drv, args, dir, tag, err, env)
        return
    devs = judge(ctx, dir, trace, tag)
    # What depends on the load of the machine must show again.
    sure = []
    tried = seen = 0
    for v in devs:
        if set(v["cl"]) <= FRAGILE:
            if seen >= 3 or tried >= 20:
                continue  # enough to tell
            tried += 1
            again = os.path.join(dir, tag + ".again")
            drive(ctx, drv, args + ["-only", str(v["t"])], again, env=env)
            if not any(set(w["cl"]) & set(v["cl"]) for w in judge(ctx, dir, again, tag + ".again")):
                ctx.notes.append("not seen again: %s in %s" % (v["cl"], tag))
                continue
            seen += 1
        sure.append(v)
    report(ctx, spec, trace, sure, {"workload": name, "n": n, "seed": seed, "args": args})
    if stats["hung"] and not sure:
        ctx.broken.append("a call did not return in workload %s, not the subject of %s" % (name, ctx.prop))
    ctx.count("traces_validated_against_impl", stats["traces"])
    ctx.count("events_judged", stats["events"])
    with ctx.lock:
        ops = ctx.cov.setdefault("calls", {})
        for k, c in stats["ops"].items():
            ops[k] = ops.get(k, 0) + c
        for k, c in stats["cases"].items():
            cs = ctx.cov.setdefault("cases", {})
            cs[k] = cs.get(k, 0) + c
    if len(ctx.samples) < 4:
        with open(trace) as f:
            for line in f:
                if not line.startswith('{"e":"new"') and len(line) < 1500 and '"new"' not in line:
                    ctx.sample({"workload": name, "event": json.loads(line)}, 4)
                    if seed % 2:
                        break
    os.remove(trace)


def bounds(cfg, values):
    """cfg with these constants."""
    for k, v in values.items():
        cfg, n = re.subn(r"\b%s = \d+" % k, "%s = %d" % (k, v), cfg)
        assert n == 1, k
    return cfg


def model(ctx, spec, drv, module, pool, ty, bound, dir, sim=None, seed=1, paths=False, mode=None):
    """Model checks a pool and replays what it emits into the real code. bound:
    the constants that bound it, the first of which is the depth to simulate."""
    d = os.path.join(dir, "%s-%s%s%s" % (module, pool, "-sim" if sim else "", "-paths" if paths else ""))
    os.makedirs(d)
    dst = "DPools.tla" if module == "MCDecode" else "Pools.tla"
    copy_spec(d, [(os.path.join("pools", pool + ".tla"), dst)])
    with open(os.path.join(d, module + ".cfg")) as f:
        cfg = bounds(f.read(), bound)
    if paths:
        cfg = cfg.replace("VIEW View\n", "")
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    depth = sum(v for k, v in bound.items() if k not in ("Readers", "Messages", "Parts"))
    if module == "MCPair":
        depth *= 2  # taking another message at hand is a step
    extra = ["-simulate", "num=%d" % sim, "-depth", str(depth + 1), "-seed", str(seed)] if sim else []
    out, rc = tlc(ctx, d, module, module + ".cfg", workers=1 if sim or ctx.quick else 2,
                  extra=extra, mem="4g")
    tail = tlc_tail(out)
    if rc != 0:
        raise Broken("the model %s/%s fails its own properties:\n%s" % (module, pool, tail))
    behaviours = os.path.join(d, "behaviours")
    n = 0
    with open(behaviours, "w") as f:
        for s in tlc_lines(out, "T"):
            f.write(s + "\n")
            n += 1
            if n in (7, 77):
                ctx.sample({"model": module + "/" + pool, "behaviour": json.loads(s)["h"]}, 8)
    gen, dist = tlc_counts(out)
    os.remove(out)
    ctx.count("states", dist)
    ctx.count("transitions", gen)
    if n == 0:
        raise Broken("the model %s/%s emitted nothing" % (module, pool))
    trace = os.path.join(d, "deviating.nd")
    args = ["-mode", mode or spec.replay, "-type", ty, "-in", behaviours, "-modes", str(spec.modes),
            "-rel", ",".join(spec.rel)] + (["-reused"] if spec.reused else [])
    env = {}
    if spec.race:
        log = os.path.join(d, "race")
        env["GORACE"] = "log_path=%s exitcode=66 halt_on_error=0" % log
        args += ["-racelog", log]
    stats, rep, err = drive(ctx, drv, args, trace, env=env)
    if stats is None:
        fatal(ctx, spec, drv, args, d, "replay", err, env)
        return
    devs = judge(ctx, d, trace, "replay")
    report(ctx, spec, trace, devs, {"workload": "replay of %s/%s" % (module, pool), "args": args})
    if stats["hung"] and not devs:
        ctx.broken.append("a call did not return in the replay of %s, not the subject of %s" % (pool, ctx.prop))
    if rep:
        ctx.count("behaviours_replayed", rep["steps"])
        if rep["layout"]:
            ctx.count("replays_with_another_layout", rep["layout"])
        if rep["content"]:
            ctx.count("replays_with_other_contents", rep["content"])
    with ctx.lock:
        ctx.cov.setdefault("models", []).append(
            {"model": module, "pool": pool, "bound": bound, "paths": paths, "states": dist, "transitions": gen,
             "emitted": n, "simulated": bool(sim)})
    os.remove(behaviours)


def check(ctx):
    spec = PROPS[ctx.prop]
    drv = build.driver(ctx.scratch, race=spec.race)
    dir = copy_spec(ctx.dir("traces"))
    jobs = []
    models = spec.models if ctx.quick else spec.deep or spec.models
    decode = spec.decode if ctx.quick else spec.ddeep or spec.decode
    if spec.proof:
        jobs.append((prove, ctx, "Layout", dir, "Three" if ctx.quick else "Four"))
    for pool, depth, *opt in models:
        jobs.append((model, ctx, spec, drv, "MCMessage", pool, POOLS[pool], {"Depth": depth}, dir,
                     None, 1, "paths" in opt))
    for pool, depth in decode:
        jobs.append((model, ctx, spec, drv, "MCDecode", pool, DPOOLS[pool], {"MaxLen": depth}, dir))
    for pool, num, depth in spec.sim:
        jobs.append((model, ctx, spec, drv, "MCMessage", pool, POOLS[pool], {"Depth": depth}, dir,
                     num // 40 if ctx.quick else num, ctx.seed))
    for pool, writes, reads, readers, num in spec.reads if ctx.quick else spec.dreads:
        jobs.append((model, ctx, spec, drv, "MCRead", pool, POOLS[pool],
                     {"Writes": writes, "Reads": reads, "Readers": readers}, dir, num, ctx.seed, False, "readers"))
    for pool, steps, messages, num in spec.pairs if ctx.quick else spec.dpairs:
        jobs.append((model, ctx, spec, drv, "MCPair", pool, POOLS[pool],
                     {"Steps": steps, "Messages": messages}, dir, num, ctx.seed, False, "pairs"))
    for pool, calls, parts, num in spec.memory if ctx.quick else spec.dmemory:
        jobs.append((model, ctx, spec, drv, "Memory", pool, POOLS[pool],
                     {"Calls": calls, "Parts": parts}, dir, num, ctx.seed, False, "memory"))
    for name, quick, thorough in spec.works:
        n = quick if ctx.quick else thorough
        shard = {"race": 120, "parallel": 120, "many": 60, "long": 200}.get(name, 800)
        if ctx.quick:
            shard = max(1, min(shard, (n + 1) // 2))
        k, left = 0, n
        while left > 0:
            jobs.append((work, ctx, spec, drv, name, min(shard, left), ctx.seed * 1000 + k, dir))
            left -= shard
            k += 1
    try:
        ctx.parallel(jobs)
    except Broken as e:
        # What was found before still counts.
        ctx.broken.append(str(e))
    shutil.rmtree(dir, ignore_errors=True)
    return spec.assume
