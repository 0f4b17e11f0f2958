#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them.

plant.py confirm ID...      patch applies, builds, stable tests pass, demo tells
plant.py try ID [CHECK...]  runs the checks (default: the bug's property) with the
                            patch in a scratch copy of /repo (VERIF_REPO)
All work happens in scratch copies under /tmp that are removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
    return p.returncode, p.stdout + p.stderr


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="zp-plant-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    if patch:
        rc, out = sh("git apply " + patch, r)
        assert rc == 0, out
    return d, r


def stable(r):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    rc, out = sh(". /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 ./...", r)
    got = {}
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e["Action"] in ("pass", "fail"):
            got[e["Package"] + "/" + e["Test"]] = e["Action"]
    bad = [t for t in want if got.get(t) != "pass"]
    return bad, out


def demo(id, r):
    # The demo finds the repository as its working directory.
    return sh("timeout 300 bash %s/%s/demo.sh" % (SEEDED, id), r)


def confirm(id):
    p = os.path.join(SEEDED, id)
    d, r = copy()
    try:
        rc, out = demo(id, r)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out[-1500:]
        rc, out = sh("git apply %s/patch.diff" % p, r)
        if rc != 0:
            return "does not apply: " + out
        bad, out = stable(r)
        if bad:
            return "tests notice: %s" % bad
        rc, out = demo(id, r)
        if rc == 0:
            return "demo passes with the patch"
        return "ok"
    finally:
        shutil.rmtree(d)


def trial(id, checks):
    p = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(p, "meta.json")))
    d, r = copy(os.path.join(p, "patch.diff"))
    res = []
    try:
        for c in checks or [meta["property"]]:
            e = dict(os.environ, VERIF_REPO=r, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
                     VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE=os.path.join(d, "ev"))
            rc, out = sh("./check " + c, HERE, e)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            s = [l for l in out.splitlines() if l.startswith("  ")]
            res.append((c, rc, len(v), (s or out.splitlines()[-1:] or [""])[0].strip()[:160]))
    finally:
        shutil.rmtree(d)
    return res


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "confirm":
        for id in args or sorted(os.listdir(SEEDED)):
            print(id, confirm(id), flush=True)
    elif cmd == "try":
        for x in trial(args[0], args[1:]):
            print(args[0], *x, flush=True)
    elif cmd == "all":
        for id in args or sorted(os.listdir(SEEDED)):
            for x in trial(id, []):
                print(id, *x, flush=True)
