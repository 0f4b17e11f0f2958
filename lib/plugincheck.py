"""C17 and C18: what the plugin commands do, against Plugin.tla and PluginProc.tla."""
import base64
import hashlib
import itertools
import json
import os
import socket
import struct
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import build
import pb
from core import Broken, copy_spec, tlc, tlc_counts, tlc_lines, tlc_tail

HANG = 30


def judge(ctx, dir, events, tag):
    """Deviations of recorded events: [(event, clauses)]."""
    if not events:
        raise Broken("nothing recorded for " + tag)
    trace = os.path.join(dir, tag + ".nd")
    with open(trace, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    out, rc = tlc(ctx, dir, "PluginTrace", "PluginTrace.cfg", env={"TRACE": trace},
                  out=os.path.join(dir, tag + ".judge"), mem="4g")
    end, vs = list(tlc_lines(out, "END")), list(tlc_lines(out, "V"))
    if not end or int(end[-1]) != len(events) or not vs:
        raise Broken("the judge failed on %s:\n%s" % (tag, tlc_tail(out)))
    os.remove(trace)
    return [(events[v["l"] - 1], v["cl"]) for v in json.loads(vs[-1])]


def emitted(ctx, dir, module, cfg, extra=(), env=None, workers=1):
    out, rc = tlc(ctx, dir, module, cfg, extra=extra, env=env, workers=workers, mem="6g")
    if rc != 0:
        raise Broken("the model %s fails its own properties:\n%s" % (module, tlc_tail(out)))
    got = [json.loads(s) for s in tlc_lines(out, "T")]
    gen, dist = tlc_counts(out)
    os.remove(out)
    if not got:
        raise Broken("the model %s emitted nothing" % module)
    ctx.count("states", dist)
    ctx.count("transitions", gen)
    with ctx.lock:
        ctx.cov.setdefault("models", []).append(
            {"model": module, "states": dist, "transitions": gen, "emitted": len(got), "simulated": bool(extra)})
    return got


# ---------------------------------------------------------------- C17

def body(k, path):
    """A schema file whose declarations depend on k alone."""
    F, M = pb.field_desc, pb.message_desc
    if k == 0:
        ms = [M("Msg", [F("n", 1, "optional", "uint64"), F("xs", 2, "repeated", "msg", ".p.Elem"),
                        F("ys", 3, "repeated", "msg", ".p.Elem")]),
              M("Elem", [F("v", 1, "optional", "string")])]
        return pb.file_desc(path, "p", ms)
    if k == 1:      # the names of 0 again
        ms = [M("Elem", [F("v", 3, "optional", "bytes"), F("w", 1, "required", "sint64")]),
              M("Msg", [F("ys", 9, "repeated", "msg", ".p.Elem")])]
        return pb.file_desc(path, "p", ms, syntax="proto2")
    if k == 2:
        return pb.file_desc(path, "p", [], ["Color"])
    if k == 3:
        return pb.file_desc(path, "q", [])
    if k == 4:
        ms = [M("User", [F("sub", 300, "optional", "msg", ".p.Msg"), F("subs", 2, "repeated", "msg", ".p.Msg"),
                          F("color", 3, "optional", "enum", ".p.Color")])]
        return pb.file_desc(path, "p", ms, deps=["a.proto", "A.proto"], more=pb.field(10, 0) + pb.field(11, 1))
    if k == 5:
        ms = [M("Kinds", [F("f_%d" % i, i + 1, "optional", kind) for i, kind in enumerate(
                ["bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
                 "sfixed32", "sfixed64", "double", "float", "string", "bytes"])]),
              M("Nothing", [])]
        return pb.file_desc(path, "kinds", ms, ["Shape"])
    if k == 6:
        ms = [M("M%d" % i, [F("x", i + 1, "optional", "int32"), F("ms", 20, "repeated", "msg", ".p.M%d" % (11 - i)),
                            F("ns", 21, "repeated", "int64"), F("os", 22, "repeated", "msg", ".p.M%d" % (11 - i))])
              for i in range(12)]
        return pb.file_desc(path, "p", ms)
    if k == 7:      # with comments and options
        m = M("Msg", [F("n", 7, "optional", "uint64", more=pb.field(9, 0))], pb.field(8, pb.field(1, "one")))
        loc = lambda path, text: pb.field(1, pb.field(1, path) + pb.field(2, b"\0\0\1") + pb.field(3, text))
        return pb.file_desc(path, "p.q", [m], syntax="proto2", more=pb.field(8, pb.field(11, "x.y/z;zz") + pb.field(10, 1))
                            + pb.field(9, loc(b"", "file\n") + loc(b"\4\0", " Msg says.\n"))
                            + pb.field(6, pb.field(1, "Svc")))
    if k == 8:      # without a package
        return pb.file_desc(path, "", [M("Msg", [F("m", 2, "optional", "msg", ".Msg"), F("ms", 4, "repeated", "msg", ".Msg")])])
    raise ValueError(k)


def request(req):
    return pb.request(["".join(p) for p in req["want"]],
                      [body(f["body"], "".join(f["path"])) for f in req["files"]],
                      req["opt"]["param"], req["opt"]["version"])


def digest(b):
    return hashlib.sha256(b).hexdigest()[:16]


def ask_process(plug, req, cwd, n):
    """One result of the plugin command."""
    env = [None, {}, {"HOME": cwd, "TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8", "GOPACKAGE": "x", "GOFILE": "y.go",
                      "USER": "nobody", "PWD": cwd, "GODEBUG": ""}][n % 3]
    try:
        p = subprocess.run([plug], input=request(req), capture_output=True, timeout=HANG, cwd=cwd, env=env)
    except subprocess.TimeoutExpired:
        return {"how": "process", "err": "hang", "files": [], "whole": ""}
    if p.returncode != 0:
        return {"how": "process", "err": "fails", "files": [], "whole": "", "why": p.stderr.decode(errors="replace")[:500]}
    try:
        err, files = pb.response(p.stdout)
    except (ValueError, IndexError):
        return {"how": "process", "err": "garbled", "files": [], "whole": ""}
    return {"how": "process", "err": "fails" if err else "",
            "files": [{"name": list(n), "sum": digest(c.encode(errors="surrogateescape"))} for n, c in files],
            "whole": digest(p.stdout)}


def ask_library(tools, reqs, dir, tag):
    """The answers of one process that is given all requests in order."""
    path = os.path.join(dir, tag + ".b64")
    with open(path, "w") as f:
        for r in reqs:
            f.write(base64.b64encode(request(r)).decode() + "\n")
    p = subprocess.run([tools, "gen", path], capture_output=True, timeout=HANG + len(reqs) // 10)
    lines = p.stdout.decode().splitlines()
    out = []
    for i in range(len(reqs)):
        if i >= len(lines):
            out.append({"how": "library", "err": "fails", "files": [], "whole": "",
                        "why": p.stderr.decode(errors="replace")[:500]})
            continue
        r = json.loads(lines[i])
        out.append({"how": "library", "err": {"": "", "error": "fails", "panic": "fails"}[r["err"]], "why": r["why"],
                    "files": [{"name": list(o["name"]), "sum": o["sum"]} for o in r["files"]],
                    "whole": r["whole"]})
    os.remove(path)
    return out


def check_requests(ctx):
    plug = build.plugin(ctx.scratch)
    tools = build.tools(ctx.scratch)
    top = ctx.dir("requests")
    cwds = [ctx.dir("cwd1"), ctx.dir("cwd2")]

    def exhaustive():
        d = copy_spec(ctx.dir("plugin-files"), [("pools/PluginFiles.tla", "GPools.tla")])
        if not ctx.quick:
            sub(os.path.join(d, "Plugin.cfg"), "MaxFiles = 3", "MaxFiles = 4")
        reqs = [b[-1] for b in emitted(ctx, d, "Plugin", "Plugin.cfg")]
        with ThreadPoolExecutor(6) as ex:
            a = list(ex.map(lambda i: ask_process(plug, reqs[i], cwds[i % 2], i), range(len(reqs))))
        # Again, in one process, in another order, and some of them twice.
        order = list(range(len(reqs)))
        ctx_random(ctx).shuffle(order)
        order += order[:200] + [i for i in order if len(reqs[i]["want"]) > 1]
        b = ask_library(tools, [reqs[i] for i in order], d, "all")
        more = {}
        for i, r in zip(order, b):
            more.setdefault(i, []).append(r)
        return [{"e": "ask", "req": q, "res": [x] + more.get(i, [])} for i, (q, x) in enumerate(zip(reqs, a))]

    def sequences(k, pool="PluginMany", runs=12, files=5, num=50 if ctx.quick else 1500):
        d = copy_spec(ctx.dir("plugin-many%d" % k), [("pools/%s.tla" % pool, "GPools.tla")])
        sub(os.path.join(d, "Plugin.cfg"), "MaxRuns = 1 MaxFiles = 3 MaxTwice = 0",
            "MaxRuns = %d MaxFiles = %d MaxTwice = 2" % (runs, files))
        bs = emitted(ctx, d, "Plugin", "Plugin.cfg",
                     ["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(ctx.seed * 100 + k)])
        evs = []

        def one(n):
            r = ask_library(tools, bs[n], d, "seq%d" % n)
            # The last request alone, in a process of its own.
            last = ask_process(plug, bs[n][-1], cwds[n % 2], n)
            return [{"e": "ask", "req": q, "res": [x] + ([last] if i == len(bs[n]) - 1 else []), "behaviour": n}
                    for i, (q, x) in enumerate(zip(bs[n], r))]
        with ThreadPoolExecutor(2) as ex:
            for x in ex.map(one, range(len(bs))):
                evs += x
        return evs

    parts = [ctx.pool.submit(exhaustive)] + [ctx.pool.submit(sequences, k) for k in range(4)]
    parts.append(ctx.pool.submit(sequences, 4, "PluginWide", 3, 90, 12 if ctx.quick else 200))
    parts = [p.result() for p in parts]
    # What a file's output is does not depend on which part it was seen in.
    copy_spec(top)
    first = {}
    for p in parts:
        for e in p:
            for f in e["req"]["files"]:
                first.setdefault(json.dumps(f), e)
    base = list({id(e): e for e in first.values()}.values())

    def part(k):
        evs = base + parts[k]
        for ev, cl in judge(ctx, top, evs, "part%d" % k):
            ctx.violate({"property": ctx.prop, "clauses": cl, "event": ev,
                         "summary": "%s for the request %s" % (", ".join(cl), show(ev["req"]))})
        ctx.count("traces_validated_against_impl", len(parts[k]))
        ctx.count("answers_judged", sum(len(e["res"]) for e in parts[k]))
    ctx.parallel([(part, k) for k in range(len(parts))])
    ctx.cov["files"] = len(first)
    ctx.sample({"request": show(parts[0][-1]["req"]), "answers": parts[0][-1]["res"]})
    ctx.sample({"request": show(parts[1][-1]["req"]), "answers": parts[1][-1]["res"]})
    return ["nine schema bodies", "paths of the specification's pools, all ending in .proto"]


def show(req):
    return "%s of %s" % (["".join(p) for p in req["want"]],
                         ["%s=%d" % ("".join(f["path"]), f["body"]) for f in req["files"]])


def sub(path, a, b):
    with open(path) as f:
        s = f.read()
    if a not in s:
        raise Broken("no %r in %s" % (a, path))
    with open(path, "w") as f:
        f.write(s.replace(a, b))


def ctx_random(ctx):
    import random
    return random.Random(ctx.seed)


# ---------------------------------------------------------------- C18

def rich():
    """A request with everything that descriptor.proto has; and one with comments."""
    F, M, f = pb.field_desc, pb.message_desc, pb.field
    part = lambda name, ext: f(2, f(1, name) + f(2, ext))
    odd = "\x00\x7f\r\n\t\\'\"\u00fc\u2028"
    un = f(999, part("a", 0) + part("b.c", 1) + f(3, "ident") + f(4, 2 ** 64 - 1) + f(5, 2 ** 64 - 7)
           + pb.fixed64(6, b"\x00\x00\x00\x00\x00\x00\xf0\xbf") + f(7, b"\xff\x00\xc3(\n") + f(8, odd)) + f(999, b"")
    nan = f(999, pb.fixed64(6, struct.pack("<d", 1e-310)) + f(5, 1)) + f(999, pb.fixed64(6, struct.pack("<d", float("-inf"))))
    neg = 2 ** 64 - 5
    field = F("f", 1, "optional", "string", json="theF", more=f(7, odd) + f(8, f(1, 2) + f(2, 1) + f(3, 0) + f(5, 1) + f(6, 1) + f(10, 1) + un))
    one = F("o", 2, "optional", "bytes", more=f(9, 0))
    ext = F("e", 1000, "repeated", "int32", more=f(2, ".p.M") + f(8, f(2, 1)))
    grp = F("g", 536870911, "optional", "group", ".p.M.G")
    num = F("n", neg, "required", "sfixed64", more=f(9, neg))
    enum = f(1, "E") + f(2, f(1, "A") + f(2, neg) + f(3, f(1, 1) + un)) + f(2, b"") + f(3, f(2, 1) + f(3, 1) + nan) \
        + f(4, f(1, neg) + f(2, 3)) + f(5, "X") + f(5, "")
    g = M("G", [num, b""], f(4, enum) + f(9, f(1, 4) + f(2, 5)) + f(10, "old"))
    m = M("M", [field, one, grp], f(6, ext) + f(3, g) + f(5, f(1, 1000) + f(2, 2000) + f(3, un)) + f(5, b"")
          + f(8, f(1, "choice") + f(2, un)) + f(7, f(1, 1) + f(2, 0) + f(3, 1) + f(7, 1) + un) + f(10, "") + f(10, odd))
    meth = f(1, "Do") + f(2, ".p.M") + f(3, ".p.M") + f(4, f(33, 1) + f(34, 2) + un) + f(5, 1) + f(6, 0)
    opts = b"".join(f(n, "s%d" % n) for n in (1, 8, 11, 36, 37, 39, 40, 41, 44, 45)) \
        + b"".join(f(n, n % 2) for n in (10, 16, 17, 18, 20, 23, 27, 31, 42)) + f(9, 3) + un
    wild = pb.file_desc("wild.proto", "p", [m], deps=["x.proto", "y.proto"], syntax="proto2",
                        more=f(10, 1) + f(10, neg) + f(11, b"\x00\x80\x01") + f(5, enum)
                        + f(6, f(1, "S") + f(2, meth) + f(2, b"") + f(3, f(33, 0) + un)) + f(7, ext) + f(8, opts))
    loc = lambda path, span, *c: f(1, f(1, bytes(path)) + f(2, bytes(span)) + b"".join(c))
    said = f(9, loc([], [0, 0, 3, 1]) + loc([4, 0], [2, 0, 9], f(3, " lead # %d\n"), f(4, " trail /* */\n"))
             + loc([4, 0, 2, 0], [3, 2, 20], f(6, odd), f(6, ""), f(6, "detached\n")) + f(1, f(1, 7) + f(1, 300) + f(2, neg)) + f(1, b""))
    told = pb.file_desc("d/told.proto", "p", [M("Told", [F("x", 1, "optional", "int64")])], more=said)
    none = pb.file_desc("", "", [])
    return [pb.request(["d/told.proto"], [wild, told], version=21), pb.request(["d/told.proto"], [told, none, b""], parameter="a=b,c")]


def requests():
    F, M = pb.field_desc, pb.message_desc
    small = pb.file_desc("d/a.proto", "p", [M("Msg", [F("xs", 2, "repeated", "msg", ".p.Msg"),
                                                   F("m", 3, "optional", "msg", ".p.Msg")])])
    odd = pb.file_desc("%s/50%d %%v/\u00fc.proto", "p", [], deps=["%!(EXTRA)", "a\\b\n\t\"c\'", "#{}<>[]:;", " "])
    e = pb.file_desc("e.proto", "q", [], ["Color"])
    two = pb.file_desc("b.proto", "p", [M("T", [F("a_b", 1, "required", "sint32")]), M("U", [])], deps=["e.proto"],
                       syntax="proto2")
    names = ["M%d" % i for i in range(90)]
    big = pb.file_desc("big.proto", "p", [M(n, [F("f_%d" % j, j, "optional", "uint64") for j in range(1, 5)])
                                          for n in names])
    return [pb.request(["d/a.proto"], [small]), pb.request(["b.proto", "e.proto"], [e, two], parameter="x"),
            pb.request(["e.proto"], [e], parameter="x" * 4300000),
            pb.request(["%s/50%d %%v/\u00fc.proto"], [odd], parameter="%d\x01\x7f\u2028\ufeff\U0001f600 /* // \\x"),
            pb.request(["big.proto"], [big])] + rich()


def apply(b, i):
    n = i["n"]
    if i["k"] == "cut":
        return b[:n]
    if i["k"] == "del":
        return b[:n - 1] + b[n:]
    if i["k"] == "set":
        return b[:n - 1] + bytes([i["b"]]) + b[n:]
    if i["k"] == "ins":
        return b[:n - 1] + bytes([i["b"]]) + b[n - 1:]
    return b


def dole(fd, data, n):
    """Writes data to fd in pieces of n bytes."""
    try:
        for i in range(0, len(data), n):
            os.write(fd, data[i:i + n])
            time.sleep(0.004)
    except BrokenPipeError:
        pass
    os.close(fd)


def outcome(bins, case, data, dir, n):
    """Runs a command as the case says; returns the event for the judge."""
    tool, inp, sink = case["tool"], case["in"], case["sink"]
    opened = []

    def file(path, flags):
        fd = os.open(path, flags, 0o600)
        opened.append(fd)
        return fd
    out, err = os.path.join(dir, "out%d" % n), os.path.join(dir, "err%d" % n)
    limit = None
    try:
        if inp["k"] == "directory":
            fd0 = file(dir, os.O_RDONLY)
        elif inp["k"] == "write-only":
            fd0 = file(os.path.join(dir, "in%d" % n), os.O_WRONLY | os.O_CREAT)
        elif inp["k"] == "reset":
            # The peer goes away without having read what it was sent.
            a, b = socket.socketpair()
            a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
            b.send(b"?")
            a.sendall(data[:inp["n"]])
            a.close()
            fd0 = b.detach()
            opened.append(fd0)
        elif inp["k"] == "chunked":
            fd0, feed = os.pipe()
            opened.append(fd0)
        else:
            p = os.path.join(dir, "in%d" % n)
            with open(p, "wb") as f:
                f.write(data)
            fd0 = file(p, os.O_RDONLY)
        fd1 = file(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        fd2 = file(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        bad = None
        if sink["k"] == "full":
            bad = file("/dev/full", os.O_WRONLY)
        elif sink["k"] == "gone":
            r, bad = os.pipe()
            os.close(r)
            opened.append(bad)
        elif sink["k"] == "limit":
            limit = sink["n"]
        if bad is not None:
            fd1 = bad
            if tool == "text":
                fd2 = bad
        pipe = None
        if limit is not None and tool == "zeropb":
            # The limit is for files: the explanation goes to a pipe.
            r, fd2 = os.pipe()
            opened += [r, fd2]
            pipe = r

        hang = False
        if inp["k"] == "chunked":
            os.set_inheritable(feed, False)
        p = subprocess.Popen((["prlimit", "--fsize=%d" % limit] if limit is not None else []) + [bins[tool]],
                             stdin=fd0, stdout=fd1, stderr=fd2, cwd=dir)
        if inp["k"] == "chunked":
            # (Only the command has the reading end now: when it ends, so does feeding.)
            opened.remove(fd0)
            os.close(fd0)
            feeder = threading.Thread(target=dole, args=(feed, data, inp["n"]))
            feeder.start()
        try:
            status = p.wait(HANG)
        except subprocess.TimeoutExpired:
            hang = True
            p.kill()
            status = p.wait()
        if inp["k"] == "chunked":
            feeder.join()
        if pipe is not None:
            os.close(fd2)
            opened.remove(fd2)
            os.set_blocking(pipe, False)
            try:
                stderr = os.read(pipe, 65536)
            except BlockingIOError:
                stderr = b""
        else:
            with open(err, "rb") as f:
                stderr = f.read()
        with open(out, "rb") as f:
            stdout = f.read()
    finally:
        for fd in opened:
            os.close(fd)
    ev = {"e": "run", "tool": tool, "req": case["req"], "in": inp, "sink": sink, "verdict": case["verdict"],
          "status": -1 if status < 0 else status, "told": len(stderr) > 0, "hang": hang,
          "parsed": False, "names": [], "text": ""}
    if tool == "zeropb" and sink["k"] == "good" and status == 0:
        try:
            perr, files = pb.response(stdout)
            ev["parsed"] = perr is None and all(c for _, c in files)
            ev["names"] = [list(f.encode(errors="surrogateescape")) for f, _ in files]
        except (ValueError, IndexError):
            pass
    return ev, stdout, stderr


def check_processes(ctx):
    bins = {"zeropb": build.plugin(ctx.scratch), "text": build.plugin(ctx.scratch, "protoc-gen-text")}
    tools = build.tools(ctx.scratch)
    d = copy_spec(ctx.dir("proc"))
    work = ctx.dir("runs")
    reqs = requests()
    lines = []
    for i, b in enumerate(reqs):
        out = {}
        for t in bins:
            ev, so, se = outcome(bins, {"tool": t, "req": i + 1, "in": {"k": "whole", "n": 0, "b": 0},
                                        "sink": {"k": "good", "n": 0}, "verdict": {}}, b, work, i)
            out[t] = len(so) if t == "zeropb" or so else len(se)
        big = len(b) > 5000 or i == 3
        lines.append({"bytes": [] if big else list(b), "len": len(b), "out": out, "big": big,
                      "runs": [[k, len(list(v))] for k, v in itertools.groupby(b)] if big else []})
    with open(os.path.join(d, "requests.nd"), "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    sub(os.path.join(d, "PluginProc.cfg"), "Stride = 1 Every = 1",
        "Stride = 29 Every = 23" if ctx.quick else "Stride = 1 Every = 1")
    cases = emitted(ctx, d, "PluginProc", "PluginProc.cfg",
                    env={"REQUESTS": os.path.join(d, "requests.nd"), "SEED": str(ctx.seed)}, workers=8)

    def one(n):
        c = cases[n]
        data = apply(reqs[c["req"] - 1], c["in"])
        ev, so, se = outcome(bins, c, data, work, n + 10)
        for x in ("in", "out", "err"):
            try:
                os.remove(os.path.join(work, "%s%d" % (x, n + 10)))
            except FileNotFoundError:
                pass
        txt = None
        if c["tool"] == "text" and ev["status"] == 0 and c["sink"]["k"] == "good":
            txt = json.dumps({"Req": base64.b64encode(data).decode(), "Text": base64.b64encode(so or se).decode()})
        return ev, txt
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, range(len(cases))))
    texts = [(ev, t) for ev, t in done if t]
    path = os.path.join(d, "texts")
    with open(path, "w") as f:
        for _, t in texts:
            f.write(t + "\n")
    res = build.run([tools, "text", path], d).decode().splitlines()
    if len(res) != len(texts):
        raise Broken("the text comparison is incomplete")
    for (ev, _), r in zip(texts, res):
        ev["text"] = json.loads(r)
    evs = [ev for ev, _ in done]
    for ev, cl in judge(ctx, d, evs, "runs"):
        ctx.violate({"property": ctx.prop, "clauses": cl, "event": ev,
                     "summary": "%s of protoc-gen-%s with request %d, input %s, output %s: status %d" % (
                         ", ".join(cl), ev["tool"], ev["req"], ev["in"], ev["sink"], ev["status"])})
    ctx.count("traces_validated_against_impl", len(evs))
    for ev in evs:
        k = "%s input, %s output, %s" % (ev["in"]["k"], ev["sink"]["k"], "ok" if ev["status"] == 0 else "failed")
        cs = ctx.cov.setdefault("cases", {})
        cs[k] = cs.get(k, 0) + 1
    for i in (5, len(evs) // 2, -1):
        ctx.sample(evs[i])
    return ["a closed standard output is not a fault: the Go runtime replaces it with /dev/null",
            "death by SIGPIPE needs no explanation"]
