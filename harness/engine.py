"""Record scenarios with the real code and validate the records with TLC."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("OCL_REPO", "/repo")
PY = os.environ.get("OCL_PYTHON", "/opt/venv/bin/python")
sys.dont_write_bytecode = True


def use_repo():
    """Import openclsim from the working tree of the repository."""
    src = os.path.join(REPO, "src")
    sys.path[:0] = [src, HERE]


class Machinery(Exception):
    """Something of the verification machinery failed."""


# --------------------------------------------------------------------------- recording
def _record(job):
    import gen
    import tla
    import world

    kind, arg = job
    scen = gen.make(*arg) if kind == "gen" else arg
    w, r = world.record(scen)
    last = r.steps[-1]
    return scen, dict(cfg=tla.config(scen), steps=r.steps), r.error or last["x"]


def _safe(job):
    try:
        return _record(job) + (None,)
    except Exception as e:  # the model cannot even be built
        import traceback

        return job[1], None, repr(e), traceback.format_exc()[-3000:]


def pool(n=8):
    return mp.get_context("fork").Pool(n)


def record_all(jobs, procs=8, chunk=4):
    with pool(procs) as p:
        return p.map(_safe, jobs, chunksize=chunk)


# --------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap=None):
    """Run TLC on a module of spec/; returns (output, states generated, distinct states)."""
    md = tempfile.mkdtemp(prefix="ocl-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = f"-Djava.io.tmpdir={md}" + (f" -Xmx{heap}" if heap else "")
    cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(md, "m"), "-noGenerateSpecTE"]
    cmd += list(extra) + ["-config", (cfg or module) + ".cfg", module + ".tla"]
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout
        )
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        raise Machinery(f"TLC did not finish {module} in {timeout} s") from x
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return out, g, d


def generate(module, cfg, sim=None, depth=None, seed=1, workers=8, timeout=600):
    """Behaviours generated by TLC from a module that prints "@@" + JSON lines."""
    extra = []
    if sim:
        extra, workers = ["-simulate", f"num={sim}", "-depth", str(depth), "-seed", str(seed)], 1
    out, g, d = tlc(module, cfg, env={"OCL_SEED": str(seed)}, workers=workers, timeout=timeout, extra=extra)
    if "Error:" in out or ("No error" not in out and not sim):
        raise Machinery(f"TLC: {module} {cfg}\n" + out[-3000:])
    res = [json.loads(json.loads(x)[2:]) for x in out.splitlines() if x.startswith('"@@')]
    if not res:
        raise Machinery(f"TLC generated nothing: {module} {cfg}\n" + out[-3000:])
    if sim:
        m = re.findall(r"number of states generated: ([\d,]+)", out)
        g = d = int(m[-1].replace(",", "")) if m else 0
    return res, g, d


VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>')


def validate(traces, module="OclTrace", workers=8, timeout=800):
    """Returns ({index: {violated guard: first step}}, states, transitions)."""
    left = list(range(len(traces)))
    verdicts, states, trans = {}, 0, 0
    for _ in range(12):
        if not left:
            break
        fd, path = tempfile.mkstemp(prefix="ocl-tr-", suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump([traces[i] for i in left], f)
        try:
            out, g, d = tlc(module, env={"OCL_TRACES": path}, workers=workers, timeout=timeout)
        finally:
            os.unlink(path)
        states, trans = states + d, trans + g
        for m in VERDICT.finditer(out):
            d = verdicts.setdefault(left[int(m[1]) - 1], {})
            for x in re.findall(r'"([^"]+)"', m[3]):
                d[x] = min(int(m[2]), d.get(x, int(m[2])))
        if "Model checking completed. No error" in out:
            missing = [i for i in left if i not in verdicts]
            if missing:
                raise Machinery(f"no verdict for {len(missing)} traces\n" + out[-2000:])
            left = []
            break
        # a record which the specification cannot even interpret
        m = re.findall(r"^/?\\?\s*tr = (\d+)|tr = (\d+)", out)
        nums = [int(a or b) for a, b in m]
        if not nums:
            raise Machinery("TLC failed:\n" + out[-3000:])
        bad = left[nums[-1] - 1]
        verdicts.setdefault(bad, {}) or verdicts[bad].update({"spec.uninterpretable": 0})
        left = [i for i in left if i not in verdicts]
    return verdicts, states, trans
