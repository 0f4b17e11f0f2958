"""C19: the behaviours of StringTree.tla, in the real StringTree."""
import json
import os

import build
from core import Broken, copy_spec, tlc, tlc_counts, tlc_lines, tlc_tail

# (pool, calls, arguments per call) and for thorough also simulation.
QUICK = [("TreeArgs", 2, 2), ("TreeDeep", 2, 2), ("TreeDeep", 5, 1), ("TreeInts", 1, 2), ("TreeText", 1, 2),
         ("TreeWide", 1, 2)]
DEEP = [("TreeArgs", 3, 1), ("TreeArgs", 1, 4), ("TreeArgs", 2, 2), ("TreeDeep", 3, 2), ("TreeDeep", 6, 1),
        ("TreeInts", 1, 2), ("TreeInts", 2, 1), ("TreeText", 1, 2), ("TreeText", 2, 1), ("TreeWide", 1, 2), ("TreeWide", 2, 1)]
SIM = [("TreeArgs", 12, 3), ("TreeInts", 6, 3), ("TreeText", 8, 3)]


def one(ctx, tools, pool, calls, args, sim):
    d = copy_spec(ctx.dir("tree-%s-%d-%d" % (pool, calls, args)), [("pools/%s.tla" % pool, "SPools.tla")])
    cfg = os.path.join(d, "StringTree.cfg")
    with open(cfg) as f:
        text = f.read()
    text = text.replace("MaxCalls = 2", "MaxCalls = %d" % calls).replace("MaxArgs = 2", "MaxArgs = %d" % args)
    with open(cfg, "w") as f:
        f.write(text)
    extra = ["-simulate", "num=%d" % sim, "-depth", str(calls + 1), "-seed", str(ctx.seed)] if sim else []
    out, rc = tlc(ctx, d, "StringTree", "StringTree.cfg", extra=extra, mem="6g")
    if rc != 0:
        raise Broken("the model StringTree/%s fails its own properties:\n%s" % (pool, tlc_tail(out)))
    path = os.path.join(d, "behaviours")
    n = 0
    with open(path, "w") as f:
        for s in tlc_lines(out, "T"):
            f.write(s + "\n")
            n += 1
            if n == 77:
                ctx.sample({"model": pool, "behaviour": json.loads(s)})
    gen, dist = tlc_counts(out)
    os.remove(out)
    if n == 0:
        raise Broken("the model StringTree/%s emitted nothing" % pool)
    res = build.run([tools, "tree", path], d).decode()
    os.remove(path)
    done = None
    for line in res.splitlines():
        if line.startswith("@BAD "):
            bad = json.loads(line[5:])
            ctx.violate({"property": ctx.prop, "where": {"pool": pool}, "deviation": bad,
                         "summary": "StringTree: %s" % bad["wrong"]})
        elif line.startswith("@DONE "):
            done = json.loads(line[6:])
    if done is None or done["steps"] != n:
        raise Broken("the replay of StringTree/%s is incomplete" % pool)
    ctx.count("states", dist)
    ctx.count("transitions", gen)
    ctx.count("traces_validated_against_impl", done["runs"])
    with ctx.lock:
        ctx.cov.setdefault("models", []).append(
            {"model": "StringTree", "pool": pool, "calls": calls, "arguments": args, "states": dist,
             "transitions": gen, "replayed": n, "simulated": bool(sim)})


def check(ctx):
    tools = build.tools(ctx.scratch)
    jobs = [(one, ctx, tools, p, c, a, 0) for p, c, a in (QUICK if ctx.quick else DEEP)]
    jobs += [(one, ctx, tools, p, c, a, 200 if ctx.quick else 3000) for p, c, a in SIM]
    ctx.parallel(jobs)
    return ["the underlying writer accepts fewer bytes than it is given exactly when it returns an error"]
