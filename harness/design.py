"""Small models of which TLC explores every behaviour (OclDesign.tla).

* Model checking of the specification: the guards and invariants hold along all interleavings.
* Prediction: the outcome of the real code must be one of the outcomes which TLC computed.
"""
import json
import os
import tempfile

import engine

PROFILES = dict(
    C01=dict(shift=24, extern=16, multi=16),
    C02=dict(crowd=30, tight=20, extern=16),
    C03=dict(shift=16, tight=30, extern=16, keep=16),
    C04=dict(keep=40, shift=20),
    C05=dict(tree=60),
    C06=dict(tree=60),
    C07=dict(loops=30, tree=30, script=30),
    C08=dict(gates=30, tree=30, script=30),
    C09=dict(shift=30, tight=30, multi=20),
    C10=dict(move=40, cycle=20),
    C13=dict(shift=40, extern=20),
    C14=dict(plugs=60),
    C16=dict(shift=16, tight=30, wake=30, crowd=16, tree=20, gates=20),
    C27=dict(multi=40),
    C29=dict(refuse=30, apart=30),
    C30=dict(tree=60, plugs=20),
    C31=dict(shift=20, tight=60, wake=30, extern=20, multi=20, crowd=20, keep=20, tree=40, gates=30, loops=30, script=30, plugs=40, move=30, cycle=30, apart=20),
)


def small(s, n):
    """May TLC explore all behaviours of this scenario?"""
    import gen  # noqa: F401

    if s.get("batches") or s.get("srp") or s.get("wx") or s.get("until") or len(s["acts"]) > n:
        return False
    if any(x["k"] == "hold" for x in s.get("ext", [])) or s.get("stop", 10**9) < 100000:
        return False
    return not any(a["k"] == "while" and a.get("reps") for a in s["acts"])


def models(profs, seed, n=4):
    import gen

    out = []
    for p, k in profs.items():
        i = got = 0
        while got < k and i < 60 * k:
            s = gen.make(p, f"d{seed}", i)
            i += 1
            if small(s, n):
                out.append(s)
                got += 1
    return out


def explore(scens, fault="", timeout=700, budget=2000):
    """All outcomes of the models (None when too many states): (outcomes by model, output of TLC, states, transitions)."""
    import tla

    fd, path = tempfile.mkstemp(prefix="ocl-ds-", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump([dict(cfg=tla.config(s), stop=s.get("stop", 2000000000)) for s in scens], f)
    try:
        out, g, d = engine.tlc("OclDesign", env={"OCL_TRACES": path, "OCL_FAULT": fault, "OCL_BUDGET": str(budget)}, timeout=timeout)
    finally:
        os.unlink(path)
    res = [[] for _ in scens]
    for x in out.splitlines():
        if x.startswith('"@@'):
            y = json.loads(json.loads(x)[2:])
            res[y["m"] - 1].append(y)
    res = [None if any("cut" in y for y in ys) else ys for ys in res]
    return res, out, g, d


# --------------------------------------------------------------------------- the real outcome
def real(scen):
    """The outcome of the real code, in the form in which OclDesign prints it."""
    import tla
    import world

    cfg = tla.config(scen)
    _, r = world.record(scen)
    n = len(cfg["acts"])
    z = dict(
        bad=False,
        en=[-1] * n,
        run=[0] * n,
        lev=[c["lvl"] for c in cfg["conts"]],
        rsv=[c["lvl"] for c in cfg["conts"]],
        pos=[o["loc"] for o in cfg["objs"]],
    )
    for e in r.steps:
        for key, at in (("lv", "lev"), ("rv", "rsv"), ("ps", "pos")):
            for i, v in e[key]:
                z[at][i - 1] = v
        for a in e["en"]:
            z["en"][a - 1] = e["t"]
        for a in e["bg"]:
            z["run"][a - 1] += 1
        z["end"] = e["t"]
        z["bad"] = z["bad"] or bool(e["bad"])
    return z, r.error or r.steps[-1]["x"]


def _real(scen):
    try:
        return real(scen)
    except Exception as e:  # noqa: BLE001
        return None, repr(e)


# what of the outcome a property determines (C31: all of it)
FIELDS = dict(
    C01={"lev"}, C02={"lev", "bad"}, C03={"en"}, C04={"en"}, C05={"en", "run"}, C06={"en", "run"}, C07={"en", "run"},
    C08={"en"}, C09={"en", "lev"}, C10={"en", "pos"}, C13={"rsv"}, C14={"en"}, C16={"en"}, C27={"lev", "rsv"},
    C29={"bad", "lev", "pos"}, C30={"en"},
)  # fmt: skip
ALL = {"en", "run", "lev", "rsv", "pos", "bad"}


def stretch(scen):
    """Roundings of durations are stretched by plugins which add a part of them."""
    f = 1
    for a in scen["acts"]:
        x = 1
        for p in a.get("plug", []):
            x *= 1 + p.get("pct", 0) / 100
        f = max(f, x)
    return f


def differs(z, y, fields=ALL, factor=1):
    """How a real outcome z differs from a predicted one y ("" when it does not)."""
    if z["bad"] != y["bad"]:
        return ("refused" if z["bad"] else "not refused") if "bad" in fields else ""
    slack = 3 + int(2 * max(y["run"]) * factor)
    if z["bad"]:
        # the others may act once more in the instant of the refusal
        if "bad" in fields and abs(z["end"] - y["end"]) > slack:
            return f"refused at {z['end']}, predicted {y['end']}"
        if "en" in fields and any(
            b >= 0 and abs(a - b) > slack or a >= 0 > b and abs(a - y["end"]) > slack for a, b in zip(z["en"], y["en"])
        ):
            return f"finished at {z['en']}, predicted {y['en']}"
        return ""
    if "run" in fields and z["run"] != y["run"]:
        return f"number of runs {z['run']}, predicted {y['run']}"
    for k, tol, what in (("en", slack, "finished at"), ("lev", 1, "levels"), ("rsv", 2, "reserved levels"), ("pos", 0, "positions")):
        if k in fields and any(abs(a - b) > tol or (a < 0) != (b < 0) and k == "en" for a, b in zip(z[k], y[k])):
            return f"{what} {z[k]}, predicted {y[k]}"
    return ""


def predict(prop, tier, seed, rep):
    k = 1 if tier == "quick" else 8
    profs = {p: n * k for p, n in PROFILES[prop].items()}
    fields = FIELDS.get(prop, ALL)
    scens = models(profs, seed, 6 if tier == "quick" else 8)
    if tier == "quick":
        parts = [scens]
    else:
        parts = [scens[i : i + 60] for i in range(0, len(scens), 60)]
    got = cut = 0
    for part in parts:
        outs, log, g, d = explore(part, budget=3000 if tier == "quick" else 8000, timeout=3000)
        if "Model checking completed. No error" not in log:
            raise engine.Machinery("TLC: OclDesign\n" + log[-3000:])
        with engine.pool() as p:
            res = p.map(_real, part, chunksize=2)
        rep.add(d, g, len(part))
        for s, (z, err), ys in zip(part, res, outs):
            if ys is None:
                cut += 1
                continue
            if not ys:
                raise engine.Machinery(f"no outcome of {s['name']}")
            if got == 0:
                rep.sample(dict(model=s["name"], possible_outcomes=len(ys), predicted=ys[0], real=z))
            got += 1
            if z is None:
                rep.violation("build:" + s["name"], f"the model cannot be built: {err}", dict(scenario=s))
                continue
            why = [differs(z, y, fields, stretch(s)) for y in ys]
            if all(why):
                rep.violation(
                    "predict:" + s["name"],
                    f"outcome is none of the {len(ys)} possible ones: {why[0]}" + (f" ({err})" if err else ""),
                    dict(scenario=s, real=z, error=err, predicted=ys[:20]),
                )
    rep.extra["predicted_models"] = got
    rep.extra["abandoned_models"] = cut
    rep.extra["faults"] = {f: faulty(f, part) for f in FAULTS.get(prop, [])}


# --------------------------------------------------------------------------- sensitivity
# deviations of the algorithm which the specification must refuse
FAULTS = dict(
    C01=["lose"],
    C02=["overdraw", "overfill"],
    C03=["overbook", "lifo", "no-handover"],
    C04=["leak", "drop-kept"],
    C05=["forget", "skip-plugin"],
    C06=["forget", "no-join"],
    C07=["stop-early", "one-more"],
    C08=["early"],
    C09=["overdraw"],
    C10=["stay"],
    C13=["no-correction"],
    C14=["skip-plugin"],
    C16=["no-handover"],
    C30=["skip-plugin"],
)


def faulty(fault, scens):
    """With a deviation of the algorithm a guard must fire: which?"""
    import re

    _, log, g, d = explore(scens, fault)
    inv = re.findall(r"Invariant (\w+) is violated", log)
    if not inv:
        return ["not exhibited by these models"]
    m = re.findall(r"viol \|-> *\{([^}]*)\}", log)
    return inv[:1] + sorted(x.strip('" ') for x in (m[-1].split(",") if m else []))
