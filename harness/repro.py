"""The same model run in several ways (C17); the stories are compared by Same.tla."""
import copy
import json
import os
import subprocess
import sys
import tempfile

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import engine

    engine.use_repo()
import engine


def story(scen, until=None):
    """All log entries, object by object, of one run, and how the run ended."""
    import signal

    import world

    def alarm(*_):
        raise world.Hang("time")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30)
    out = []
    try:
        w = world.World(scen, observe=False)
        err = ""
        try:
            w.run_plain(until)
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        names = {a.id: f"a{i}" for i, a in enumerate(w.acts)}
        for i, o in list(enumerate(w.objs)) + [(1000 + k, a) for k, a in enumerate(w.acts)]:
            for e in o.logbook:
                lab = e.get("ActivityLabel") or {}
                st = e.get("ObjectState") or {}
                ref = str(lab.get("ref", ""))
                cl = st.get("container level")
                if isinstance(cl, dict):
                    cl = {k: world.ms(v / w.am) for k, v in cl.items()}
                elif cl is not None:
                    cl = world.ms(cl / w.am)
                g = st.get("geometry")
                out.append(
                    dict(
                        t=world.ms(((e["Timestamp"] - world.EPOCH).total_seconds() - w.t0) / w.ts),
                        w="|".join(
                            str(x)
                            for x in (
                                i,
                                names.get(e.get("ActivityID"), "?"),
                                e.get("ActivityState"),
                                lab.get("type", ""),
                                names.get(ref, ref),
                                cl,
                                "" if g is None else f"{g.x:.6f},{g.y:.6f}",
                            )
                        ),
                    )
                )
        t = world.ms((w.env.now - w.t0) / w.ts) if scen.get("stop") is not None else 0
        lv = [world.ms(o.container.get_level(c[0]) / w.am) for o, s in zip(w.objs, scen["objs"]) for c in s.get("conts") or []]
        out.append(dict(t=t, w=f"end {err} {lv}"))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return out


def exact(s):
    """Are all times of the scenario multiples of a power of two?"""
    return not s.get("wx") and all(
        (a["k"] != "move" or a.get("dur") is not None)
        and all(p["k"] not in ("delay", "since") or p["pct"] in (25, 50, 100) for p in a.get("plug", []))
        for a in s["acts"]
    )


def variants(s):
    """(name, scenario, slices) of the ways in which to run it."""
    base = dict(copy.deepcopy(s), env="plain")
    base.pop("until", None)
    v = [("reference", base, None), ("again", base, None)]
    v.append(("recording environment", dict(base, env="cp"), None))
    if len(s.get("batches") or [1]) > 1:
        return v  # the next batch is registered at the moment the first run call returns
    v.append(("slices", base, [500, 1000, 2000, 2125, 5000, 7500, 10000, 16000, 30000]))
    v.append(("many slices", base, [250 * k for k in range(1, 80)]))
    if exact(s):
        for t in (4096.0, 1577836800.0):
            v.append((f"start at {t}", dict(base, t0=t), None))
    return v


def genid(s):
    """The same with generated ids, if no condition refers to an id."""
    if '"by": "ID"' in json.dumps(s):
        return s
    return dict(s, genid=True)


def _stories(s):
    return [(n, story(x, u)) for n, x, u in variants(s)]


def _hashed(s):
    b = variants(s)[0]
    return story(genid(b[1]))


def main(path):
    scens = json.load(open(path))
    with engine.pool(4) as p:
        res = p.map(_hashed, scens, chunksize=4)
    json.dump(res, open(path, "w"))


def compare(prop, tier, seed, rep):
    import gen
    from checks import ASSUME

    n = 1 if tier == "quick" else 10
    profs = dict(tree=40, cycle=30, shift=40, gates=40, loops=30, plugs=30, extern=30, keep=20, multi=30, move=20, single=20, again=10, weather=10)
    scens = []
    for p, k in profs.items():
        for i in range(k * n):
            s = gen.make(p, seed, i, True)
            s.pop("t0", None)
            scens.append(s)
    # other hash seeds: other processes
    procs = []
    for h in ("1", "4242"):
        fd, path = tempfile.mkstemp(prefix="ocl-rep-", suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump(scens, f)
        env = dict(os.environ, PYTHONHASHSEED=h)
        procs.append((h, path, subprocess.Popen([engine.PY, os.path.abspath(__file__), path], env=env)))
    with engine.pool(4) as p:
        res = p.map(_stories, scens, chunksize=4)
    hashed = []
    for h, path, q in procs:
        if q.wait(timeout=800):
            raise engine.Machinery("the run with another hash seed failed")
        hashed.append((f"hash seed {h}, generated ids", json.load(open(path))))
        os.unlink(path)
    cases = []
    for i, r in enumerate(res):
        r = r + [(h, x[i]) for h, x in hashed]
        cases.append(dict(variants=[a for a, _ in r], runs=[b for _, b in r]))
    for lo in range(0, len(cases), 1000):
        part = cases[lo : lo + 1000]
        verdicts, st, tr = engine.validate(part, module="Same")
        rep.add(st, tr, sum(len(c["runs"]) for c in part))
        for k, d in sorted(verdicts.items()):
            odd, at = set(d), min(d.values(), default=0)
            s, c = scens[lo + k], part[k]
            if lo + k < 3:
                rep.sample(dict(scenario=s["name"], variants=c["variants"], entries=len(c["runs"][0]), differ=sorted(odd)))
            if odd:
                v = c["variants"].index(sorted(odd)[0])
                pair = [c["runs"][x][max(0, at - 3) : at + 3] for x in (0, v)]
                rep.violation(
                    s["name"], f"{', '.join(sorted(odd))} differ from the reference run", dict(scenario=s, at=at, entries=pair)
                )


if __name__ == "__main__":
    main(sys.argv[1])
