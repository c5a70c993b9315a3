#!/usr/bin/env python3
"""Turns descriptions of planted bugs into /verif/seeded/<id>/ and tries the checks on them.

seed.py make FILE...     a description is a Python file with ID, PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO
seed.py check ID...      runs the check of the property on a copy with the bug
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0 when the property holds in this situation, 1 when it does not
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD/src:$D"
exec timeout 120 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="ocl-seed-")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    sh("git checkout -q -- . && git clean -fdq", d + "/repo")
    return d


def tests(repo, out):
    """The repository's tests on a copy: the same as /opt/vp/test.sh."""
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}")
    s = s.replace('export PATH=', f'export PYTHONPATH={repo}/src PATH=')
    with open(out + ".sh", "w") as f:
        f.write(s)
    _, o = sh(["bash", out + ".sh", out], repo)
    d = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    return sorted(set(want) - set(d["passed"])), o


def make(path):
    b = {}
    exec(open(path).read(), b)
    bid = b["ID"]
    d = copy()
    try:
        r = d + "/repo"
        for f, old, new in b["EDITS"]:
            p = os.path.join(r, "src/openclsim", f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", r)
        t = os.path.join(SEEDED, bid)
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(diff)
        open(t + "/demo.sh", "w").write(DEMO)
        os.chmod(t + "/demo.sh", 0o755)
        open(t + "/demo.py", "w").write('"""' + b["NEEDS"] + '"""\nfrom kit import *  # noqa\n' + b["DEMO"])
        shutil.copy(os.path.join(ROOT, "tools/kit.py"), t)
        json.dump(dict(property=b["PROP"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]), open(t + "/meta.json", "w"), indent=1)
        bad, o1 = sh(["bash", t + "/demo.sh"], r)
        ok, o2 = sh(["bash", t + "/demo.sh"], "/repo")
        if bad == 0 or ok != 0:
            print(bid, "DEMO: with", bad, o1[-300:], "without:", ok, o2[-300:], flush=True)
            shutil.rmtree(t)
            return
        missing, _ = tests(r, d + "/o.json")
        print(bid, "demo with:", bad, "without:", ok, "tests broken:", missing, flush=True)
        if bad == 0 or missing or ok != 0:
            print("  NOT KEPT", o1[-600:])
            shutil.rmtree(t)
            return
        c, o = sh([PY, "-c", "import openclsim; print(openclsim.__file__)"], r, dict(os.environ, PYTHONPATH=r + "/src"))
        assert o.strip().startswith(r), o
        run(bid, r)
    finally:
        shutil.rmtree(d)


def run(bid, r):
    prop = json.load(open(os.path.join(SEEDED, bid, "meta.json")))["property"]
    env = dict(os.environ, OCL_REPO=r)
    c, o = sh(["python3", os.path.join(ROOT, "checks/run.py"), prop, "quick"], ROOT, env)
    v = re.findall(r"^VIOLATION property=(\S+)", o, re.M)
    print(f"  {bid}: check {prop} exit {c}, {len(v)} violations", "CAUGHT" if c == 1 and prop in v else "MISSED " + o[-300:], flush=True)
    print("   ", "\n    ".join(x for x in o.splitlines() if x.strip())[:300])
    return c == 1


def check(bid):
    d = copy()
    try:
        c, o = sh(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], d + "/repo")
        assert c == 0, o
        run(bid, d + "/repo")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for x in sys.argv[2:]:
        dict(make=make, check=check)[sys.argv[1]](x)
