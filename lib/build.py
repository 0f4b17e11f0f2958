"""Builds the plugin, the generated packages and the driver from /repo."""
import os
import shutil
import subprocess

import glue
import pb
import schemas

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=os.environ.get("GOCACHE") or "/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off",
               GOWORK="off", CGO_ENABLED="0", GOFLAGS="-mod=mod")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"
    return env


def run(cmd, cwd, env=None, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env or go_env(), capture_output=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s: exit %d\n%s%s" % (
            " ".join(cmd), p.returncode, p.stdout.decode(errors="replace")[-3000:],
            p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout


def module(dir):
    """A Go module in dir that uses the working tree of /repo."""
    os.makedirs(dir, exist_ok=True)
    with open(os.path.join(dir, "go.mod"), "w") as f:
        f.write("module x\n\ngo 1.20\n\nrequire github.com/danhhz/zeropb v0.0.0\n\n"
                "replace github.com/danhhz/zeropb => %s\n" % REPO)
    # The same versions as /repo, whose go.sum has their hashes.
    with open(os.path.join(REPO, "go.mod")) as f:
        reqs = [l for l in f.read().splitlines() if l.startswith("\t") or l.startswith("require ") and "(" not in l]
    with open(os.path.join(dir, "go.mod"), "a") as f:
        f.write("\nrequire (\n")
        for l in reqs:
            f.write("\t" + l.strip().removeprefix("require ") + "\n")
        f.write(")\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(dir, "go.sum"))


def plugin(scratch, name="protoc-gen-zeropb"):
    out = os.path.join(scratch, name)
    mod = os.path.join(scratch, "pluginmod")
    if not os.path.exists(mod):
        module(mod)
    run(["go", "build", "-o", out, "github.com/danhhz/zeropb/cmd/" + name], mod)
    return out


def generate(plugin, req):
    p = subprocess.run([plugin], input=req, capture_output=True, timeout=60)
    if p.returncode != 0:
        raise BuildError("plugin: exit %d %s" % (p.returncode, p.stderr.decode(errors="replace")[:2000]))
    err, files = pb.response(p.stdout)
    if err:
        raise BuildError("plugin: " + err)
    return files


def file_desc(pkg, messages):
    ms, enums = [], set()
    for name, fields in messages:
        fs = []
        for fname, num, label, kind, typ in fields:
            tn = "." + pkg + "." + typ if typ else None
            if kind == "enum":
                tn = ".%s.%s" % (pkg, typ or "Enum0")
                enums.add(typ or "Enum0")
            fs.append(pb.field_desc(fname, num, label, kind, tn))
        ms.append(pb.message_desc(name, fs))
    return pb.file_desc(pkg + ".proto", pkg, ms, sorted(enums))


def add_driver(mod):
    src = os.path.join(HERE, "harness", "driver")
    for n in os.listdir(src):
        shutil.copy(os.path.join(src, n), os.path.join(mod, n))


def driver(scratch, race=False):
    """Builds the driver, returns its path."""
    mod = os.path.join(scratch, "drivermod")
    if not os.path.exists(mod):
        plug = plugin(scratch)
        module(mod)
        for pkg, messages in schemas.FILES:
            d = os.path.join(mod, "gen", pkg)
            os.makedirs(d)
            files = generate(plug, pb.request([pkg + ".proto"], [file_desc(pkg, messages)]))
            if len(files) != 1:
                raise BuildError("plugin: %d files" % len(files))
            with open(os.path.join(d, pkg + ".go"), "w") as f:
                f.write(files[0][1])
            with open(os.path.join(mod, "glue_%s.go" % pkg), "w") as f:
                f.write(glue.package("x", pkg, messages))
        add_driver(mod)
    out = os.path.join(scratch, "driver-race" if race else "driver")
    env = go_env()
    cmd = ["go", "build", "-o", out]
    if race:
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    run(cmd + ["."], mod, env)
    return out


def tools(scratch):
    """Builds harness/tools, returns its path."""
    mod = os.path.join(scratch, "toolsmod")
    if not os.path.exists(mod):
        module(mod)
        src = os.path.join(HERE, "harness", "tools")
        for n in os.listdir(src):
            shutil.copy(os.path.join(src, n), os.path.join(mod, n))
    out = os.path.join(scratch, "tools")
    run(["go", "build", "-o", out, "."], mod)
    return out
