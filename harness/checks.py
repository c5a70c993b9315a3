"""The checks, by property."""
import importlib

import engine
from props import ALWAYS, PROPS

ASSUME = [
    "the observation (callbacks of simpy events, logbook appends, resource users and queues, levels, positions) is complete at the granularity of one kernel callback",
    "times, amounts and distances are compared as integers of 1/1000 with a tolerance of 2",
]


def executions(prop, tier, seed, rep, profiles, guards, scale=None):
    """Random scenarios of the profiles, run with the real code, validated by TLC."""
    k = scale or (1 if tier == "quick" else 12)
    jobs = [("gen", (p, seed, i, True)) for p, n in profiles.items() for i in range(n * k)]
    import corpus

    jobs += [("scen", s) for s in corpus.scenarios(prop, tier)]
    bad = ALWAYS | set(guards)
    for lo in range(0, len(jobs), 3000):
        part = jobs[lo : lo + 3000]
        recs = engine.record_all(part)
        judge(rep, recs, bad)


def judge(rep, recs, bad):
    good = []
    for scen, trace, err, tb in recs:
        if trace is None:
            name = scen if not isinstance(scen, dict) else scen["name"]
            rep.violation(f"build:{name}", f"the model cannot be built: {err}", dict(scenario=scen, traceback=tb))
        else:
            good.append((scen, trace, err))
    verdicts, st, tr = engine.validate([t for _, t, _ in good])
    rep.add(st, tr, len(verdicts))
    other = {}
    for i, (scen, trace, err) in enumerate(good):
        if i not in verdicts:
            continue
        viol = verdicts[i].keys()
        rep.sample(
            dict(scenario=scen["name"], activities=[a["k"] for a in scen["acts"]], steps=len(trace["steps"]), verdict=sorted(viol) or "accepted", ended=err or trace["steps"][-1]["k"])
        )
        hit = viol & bad
        if hit:
            step = min(verdicts[i][v] for v in hit)
            rep.violation(
                scen["name"],
                f"{', '.join(sorted(hit))} at step {step}" + (f" ({err})" if err else ""),
                dict(scenario=scen, step=step, guards=verdicts[i], error=err, steps=trace["steps"][max(0, step - 12) : step]),
            )
        for v in viol - bad:
            other[v] = other.get(v, 0) + 1
    if other:
        rep.extra["guards_of_other_properties"] = other


def design(rep, module, cfg):
    """Model checking of a design module: the specification itself."""
    out, gen, dist = engine.tlc(module, cfg)
    if "Model checking completed. No error" not in out:
        raise engine.Machinery(f"TLC: {module} {cfg}\n" + out[-3000:])
    rep.add(dist, gen, 0)
    rep.extra.setdefault("design_models", []).append(dict(module=module, cfg=cfg, states=dist, transitions=gen))


def run(prop, tier, seed, rep):
    rep.assumptions = list(ASSUME)
    p = PROPS[prop]
    for module, quick, thorough in p.get("design", ()):
        design(rep, module, quick if tier == "quick" else thorough)
    for mod, fun in p.get("custom", ()):
        getattr(importlib.import_module(mod), fun)(prop, tier, seed, rep)
    if "profiles" in p:
        executions(prop, tier, seed, rep, p["profiles"], p["guards"])
