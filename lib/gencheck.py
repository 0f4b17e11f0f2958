"""C16: packages generated for the schemas of Gen.tla: do they compile, have
they the API that the specification says, and does it act on the right fields?"""
import json
import os
import random
import re
import shutil
import subprocess

import build
import glue
import messages
import pb
from core import Broken, copy_spec, tlc, tlc_counts, tlc_lines, tlc_tail
from plugincheck import sub

REL = sorted(set(messages.READ + messages.SUB + messages.REP + messages.ENC + messages.COPIED
                 + messages.OP + messages.HANG + ["canon", "dec:accept", "dec:panic", "dec:hang", "dec:fault"]))


class Spec:
    rel = REL
    race = False


def schemas(ctx, pool, msgs, fields, sim, seed):
    d = copy_spec(ctx.dir("gen-%s-%d" % (pool, seed)), [("pools/%s.tla" % pool, "SchemaPools.tla")])
    sub(os.path.join(d, "Gen.cfg"), "MaxMsgs = 3 MaxFields = 6 Weight = 0",
        "MaxMsgs = %d MaxFields = %d Weight = %d" % (msgs, fields, 12 if sim else 0))
    extra = ["-simulate", "num=%d" % sim, "-depth", "3000", "-seed", str(seed)] if sim else []
    out, rc = tlc(ctx, d, "Gen", "Gen.cfg", extra=extra)
    if rc != 0:
        raise Broken("the model Gen/%s fails its own properties:\n%s" % (pool, tlc_tail(out)))
    got = [json.loads(s) for s in tlc_lines(out, "T")]
    gen, dist = tlc_counts(out)
    if not got:
        raise Broken("the model Gen/%s emitted nothing" % pool)
    ctx.count("states", dist)
    ctx.count("transitions", gen)
    with ctx.lock:
        ctx.cov.setdefault("models", []).append(
            {"model": "Gen", "pool": pool, "states": dist, "transitions": gen, "emitted": len(got),
             "simulated": bool(sim)})
    return got


def S(chars):
    return "".join(chars)


FIELD_EXTRA = {     # FieldOptions and others
    "deprecated": pb.field(8, pb.field(3, 1)), "packed": pb.field(8, pb.field(2, 1)),
    "unpacked": pb.field(8, pb.field(2, 0)), "jstype": pb.field(8, pb.field(6, 1)),
    "lazy": pb.field(8, pb.field(5, 1)),
    "json": pb.field(10, "otherName")}
MSG_EXTRA = {
    "enum": pb.field(4, pb.enum_desc("Inner")), "options": pb.field(7, pb.field(3, 1)),
    "inner": pb.field(3, pb.message_desc("Inner", [pb.field_desc("zz", 77, "repeated", "int32")])),
    "extensions": pb.field(5, pb.field(1, 100000) + pb.field(2, 200000))
    + pb.field(6, pb.field_desc("ext_in", 100001, "optional", "string") + pb.field(2, ".q.Other")),
    "reserved": pb.field(9, pb.field(1, 500) + pb.field(2, 600)) + pb.field(10, "gone")}


def field(full, m, f, n):
    """A field's descriptor, and what its message needs for it."""
    typ, more, need = None, b"".join(FIELD_EXTRA[x] for x in f["extra"] if x in FIELD_EXTRA), b""
    if f["kind"] == "msg":
        typ = full + S(f["elem"])
    elif "nested" in f["extra"]:
        typ = full + S(m["name"]) + ".Nest%d" % f["num"]
        need = pb.field(4, pb.enum_desc("Nest%d" % f["num"]))
    elif f["kind"] == "enum":
        typ = full + "En"
    if "oneof" in f["extra"]:
        more += pb.field(9, n)
        need += pb.field(8, pb.field(1, "one_%d" % f["num"]))
    if "optional" in f["extra"]:      # of proto3
        more += pb.field(9, n) + pb.field(17, 1)
        need += pb.field(8, pb.field(1, "_" + S(f["name"])))
    if "default" in f["extra"]:
        more += pb.field(7, {"bool": "true", "string": "a \"default\"", "bytes": "\\000x", "enum": "NEST_ONE" if "nested" in f["extra"] else "EN_ONE",
                            "double": "-inf", "float": "1.5"}.get(f["kind"], "7"))
    json = None if "json" in f["extra"] else S(f["go"])
    return pb.field_desc(S(f["name"]), f["num"], f["label"], f["kind"], typ, json, more), need


def files(pkg, sch):
    """The plugin's request for a schema."""
    proto = S(sch["pkg"])
    full = "." + proto + "." if proto else "."
    out, names, deps = [], [], []
    kinds = {f["kind"] for m in sch["msgs"] for f in m["fields"] if "nested" not in f["extra"]}
    if sch["extra"] == "import":        # another package, with messages of the same names
        out.append(pb.file_desc("other.proto", "other", [
            pb.message_desc(S(m["name"]), [pb.field_desc("zzz", 9, "repeated", "msg", ".other." + S(m["name"]))])
            for m in sch["msgs"]]))
        deps = ["other.proto"]
    for n in (1, 2):
        ms = [m for m in sch["msgs"] if m["file"] == n]
        if n == 2 and not ms:
            continue
        descs = []
        for m in ms:
            fs, more, ones = [], MSG_EXTRA.get(m["extra"], b""), 0
            for f in m["fields"]:
                desc, need = field(full, m, f, ones)
                ones += bool({"oneof", "optional"} & set(f["extra"]))
                fs.append(desc)
                more += need
            descs.append(pb.message_desc(S(m["name"]), fs, more))
        more = b""
        if sch["extra"] == "options":       # java_package, optimize_for
            more = pb.field(8, pb.field(1, "com.example.x") + pb.field(9, 2))
        elif sch["extra"] == "go":          # go_package
            more = pb.field(8, pb.field(11, "example.com/x-y/%s;zed" % pkg) + pb.field(23, 1) + pb.field(31, 1))
        elif sch["extra"] == "service" and ms:
            t = full + S(ms[0]["name"])
            more = pb.field(6, pb.field(1, "Service%d" % n) + pb.field(2, pb.field(1, "Call") + pb.field(2, t) + pb.field(3, t)))
        elif sch["extra"] == "extension" and ms:
            t = full + S(ms[0]["name"])
            more = pb.field(7, pb.field_desc("ext_out", 150000 + n, "optional", "int64") + pb.field(2, t))
        elif sch["extra"] == "public" and deps:     # public and weak imports
            more = pb.field(10, 0) + pb.field(11, 0)
        elif sch["extra"] == "comments":
            more = pb.field(9, pb.field(1, pb.field(2, b"\0\0\1") + pb.field(3, " a comment */ ` \" \n")))
        name = "%s_%d.proto" % (pkg, n)
        out.append(pb.file_desc(name, proto, descs, ["En"] if n == 1 and "enum" in kinds else [],
                                deps=deps, syntax=sch["syntax"], more=more))
        names.append(name)
        deps = deps + [name]
    return pb.request(names, out)


FORM = {"encode": "%s() []byte", "decode": "%s([]byte) error", "reset": "%s([]byte)",
        "get": "%s() {t}", "set": "%s({t})", "getmsg": "%s(*{t}) (bool, error)", "setmsg": "%s({t})"}


def api(pkg, sch):
    """Go code that compiles exactly if the API is there."""
    L = [pkg, ""]
    for m in sch["msgs"]:
        n = S(m["name"])
        L.append("var _ interface {")
        its = []
        for x in m["api"]:
            if x["form"] == "iterator" or x["form"] == "append":
                its.append(x)
            else:
                L.append("\t" + FORM[x["form"]].replace("{t}", S(x["type"])) % S(x["name"]))
        L.append("} = (*%s)(nil)" % n)
        L.append("func _(m *%s) {" % n)
        for x in its:
            if x["form"] == "iterator":
                L += ["\t{", "\t\tit := m.%s()" % S(x["name"]),
                      "\t\tvar f func(*%s) (bool, error) = it.Next" % S(x["type"]), "\t\t_ = f", "\t}"]
            else:
                L += ["\t{", "\t\tvar f func(%s) = m.%s" % (S(x["type"]), S(x["name"])), "\t\t_ = f", "\t}"]
        L.append("}")
    return "\n".join(L) + "\n"


def clause(files_out):
    """The package clause of generated code."""
    m = re.search(r"^package .*$", files_out[0][1] if files_out else "", re.M)
    return m.group(0) if m else "package unknown"


def show(sch):
    return ["package %s (%s)" % (S(sch["pkg"]), sch["extra"])] + ["%s: %s" % (S(m["name"]), ["%s %s %s = %d%s" % (
        f["label"], S(f["elem"]) if f["kind"] == "msg" else f["kind"], S(f["name"]), f["num"],
        " ".join([""] + f["extra"]))
        for f in m["fields"]]) for m in sch["msgs"]]


def build_all(ctx, mod, pkgs):
    """Compiles all packages; the output for each that fails."""
    p = subprocess.run(["go", "build", "-gcflags=-e", "./gen/..."], cwd=mod, env=build.go_env(), capture_output=True)
    text = p.stderr.decode(errors="replace") + p.stdout.decode(errors="replace")
    bad, cur = {}, None
    for line in text.splitlines():
        m = re.match(r"# x/gen/(\w+)", line)
        if m:
            cur = m.group(1)
        elif re.match(r"gen/(\w+)/\S+\.go:\d+", line):      # does not parse
            cur = re.match(r"gen/(\w+)/", line).group(1)
        if cur in pkgs:
            bad[cur] = bad.get(cur, "") + line + "\n"
    if p.returncode != 0 and not bad:
        raise Broken("the generated packages do not build:\n" + text[-3000:])
    return bad


def batch(ctx, plug, k, schs, works, each_seed):
    mod = os.path.join(ctx.scratch, "genmod%d" % k)
    build.module(mod)
    pkgs = {}
    for i, sch in enumerate(schs):
        pkg = "g%d" % i
        ctx.count("programs")
        try:
            files_out = build.generate(plug, files(pkg, sch))
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            ctx.violate({"property": ctx.prop, "schema": sch, "error": str(e),
                         "summary": "the generator fails on %s: %s" % (show(sch), e)})
            continue
        d = os.path.join(mod, "gen", pkg)
        os.makedirs(d)
        for n, (name, content) in enumerate(files_out):
            with open(os.path.join(d, "f%d.go" % n), "w") as f:
                f.write(content)
        with open(os.path.join(d, "verif_api.go"), "w") as f:
            f.write(api(clause(files_out), sch))
        pkgs[pkg] = sch
    bad = build_all(ctx, mod, pkgs) if pkgs else {}
    for pkg, text in bad.items():
        sch = pkgs.pop(pkg)
        ctx.violate({"property": ctx.prop, "schema": sch, "error": text,
                     "summary": "generated code for %s: %s" % (show(sch), " | ".join(text.splitlines()[1:3]))})
        shutil.rmtree(os.path.join(mod, "gen", pkg))
    types = []
    for pkg, sch in pkgs.items():
        if not sch["msgs"]:
            continue
        go = {}
        ms = []
        for m in sch["msgs"]:
            fs = []
            for f in m["fields"]:
                go[S(f["name"])] = S(f["go"])
                fs.append((S(f["name"]), f["num"], f["label"], f["kind"], S(f["elem"]) if f["kind"] == "msg" else None))
            ms.append((S(m["name"]), fs))
            types.append("%s.%s" % (pkg, S(m["name"])))
        with open(os.path.join(mod, "glue_%s.go" % pkg), "w") as f:
            f.write(glue.package("x", pkg, ms, lambda n: go[n]))
    if not types:
        return
    build.add_driver(mod)
    drv = os.path.join(ctx.scratch, "driver%d" % k)
    build.run(["go", "build", "-o", drv, "."], mod)
    d = copy_spec(ctx.dir("gentraces%d" % k))
    for work, n in works:
        judged(ctx, drv, work, n, each_seed, d, types, mod, k)
    shutil.rmtree(mod)
    os.remove(drv)


def judged(ctx, drv, name, n, seed, dir, types, mod, k):
    trace = os.path.join(dir, "%s.nd" % name)
    args = ["-work", name, "-n", str(n), "-seed", str(seed), "-rel", ",".join(REL), "-types", ",".join(types)]
    stats, _, err = messages.drive(ctx, drv, args, trace)
    if stats is None:
        messages.fatal(ctx, Spec, drv, args, dir, name, err, {})
        return
    devs = messages.judge(ctx, dir, trace, name)
    messages.report(ctx, Spec, trace, devs, {"workload": name, "seed": seed, "args": args})
    if stats["hung"] and not devs:
        ctx.broken.append("a call did not return in workload " + name)
    ctx.count("traces_validated_against_impl", stats["traces"])
    ctx.count("events_judged", stats["events"])
    os.remove(trace)


def check(ctx):
    plug = build.plugin(ctx.scratch)
    build.run(["go", "build", "github.com/danhhz/zeropb"], os.path.join(ctx.scratch, "pluginmod"))
    if ctx.quick:
        plan = [("SchemaMany", 3, 6, 24, ctx.seed * 10 + i) for i in range(3)]
        plan += [("SchemaMsgs", 2, 1, 0, 0), ("SchemaBig", 1, 2, 0, 1),
                 ("SchemaWide", 2, 140, 2, ctx.seed), ("SchemaPack", 45, 2, 2, ctx.seed)]
    else:
        plan = [("SchemaMany", 4, 9, 60, ctx.seed * 10 + i) for i in range(16)]
        plan += [("SchemaBig", 1, 2, 0, 3), ("SchemaKinds", 1, 1, 0, 0), ("SchemaMsgs", 1, 2, 0, 1), ("SchemaMsgs", 2, 1, 0, 2),
                 ("SchemaWide", 2, 140, 24, ctx.seed), ("SchemaPack", 45, 2, 24, ctx.seed)]
    seen = {}

    def one(k, p):
        schs = schemas(ctx, *p)
        most = 24 if ctx.quick else 600
        if p[0] == "SchemaBig":       # those with a number of some size
            most = 4 if ctx.quick else 40
            schs = [s for s in schs if any(f["num"] > 2 ** 25 - 2 for m in s["msgs"] for f in m["fields"])
                    and sum(f["label"] != "repeated" for m in s["msgs"] for f in m["fields"]) == 2]
        if len(schs) > most:        # of an exhaustive model, some
            schs = random.Random(ctx.seed).sample(schs, most)
        for i in range(0, len(schs), 60):
            part = schs[i:i + 60]
            # (Every message of the huge ones takes up to 64 MB.)
            works = [("each", 2)] if p[0] == "SchemaBig" else [("each", 2), ("ops", 20), ("copy", 20)]
            batch(ctx, plug, k * 100 + i // 60, part, works, ctx.seed * 1000 + k)
        with ctx.lock:
            for s in schs:
                for m in s["msgs"]:
                    for f in m["fields"]:
                        key = (f["label"], f["kind"])
                        seen[key] = seen.get(key, 0) + 1
        ctx.sample({"schema": show(schs[-1]), "api of the first message":
                    [[x["form"], S(x["name"]), S(x["type"])] for m in schs[-1]["msgs"][:1] for x in m["api"]]})
    try:
        ctx.parallel([(one, k, p) for k, p in enumerate(plan)])
    except Broken as e:
        ctx.broken.append(str(e))
    ctx.cov["kinds_and_labels"] = len(seen)
    ctx.cov["fields"] = sum(seen.values())
    return ["schemas of at most four messages with nine fields, some of 45 messages or 140 fields, field numbers up to 2^25",
            "names of the specification's pools, which begin with a letter or an underscore before a letter"]
