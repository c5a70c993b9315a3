"""Models enumerated by Forest.tla, run by the real code and judged by OclCore (C20)."""
import engine

DUR = [1000, 2000, 1000, 3000, 500]


def scenario(m, name):
    n = len(m["par"])
    acts = []
    for i in range(n):
        a = dict(n=f"a{i}", k=m["kind"][i])
        subs = [j for j in range(n) if m["par"][j] == i + 1]
        if subs:
            a["subs"] = subs[::-1] if m["suborder"] == 2 else subs
        else:
            a["dur"] = DUR[i]
        if a["k"] == "repeat":
            a["reps"] = 2
        if m["guard"][i]:
            a["st"] = dict(k="act", key=f"a{m['guard'][i] - 1}")
        acts.append(a)
    tops = [i for i in range(n) if m["par"][i] == 0]
    tops = {1: tops, 2: tops[::-1], 3: tops[1:] + tops[:1]}[m["order"]]
    return dict(
        name=name,
        locs=[[4.0, 52.0], [4.1, 52.0]],
        objs=[dict(n="o0", loc=0, conts=[], nres=1)],
        acts=acts,
        batches=[dict(acts=tops)] * m["times"],
        stop=60000,
    )


def refused(m):
    """A model with duplicate names, or with an activity that is listed twice."""
    import openclsim.model as model
    import world

    bad = []
    for how in ("name", "listed twice"):
        s = scenario(dict(m, dup=0), "dup")
        if how == "name":
            s["acts"][m["dup"] - 1]["n"] = "a0"
            s["acts"][m["dup"] - 1]["id"] = "other"
        w = world.World(s, observe=False)
        tops = [w.acts[i] for i in s["batches"][0]["acts"]]
        if how != "name":
            tops.append(w.acts[m["dup"] - 1])
        try:
            model.register_processes(tops)
            bad.append(f"duplicate ({how}): registered without an error")
        except Exception:  # noqa: BLE001
            if w.env.peek() != float("inf"):
                bad.append(f"duplicate ({how}): refused, but something is scheduled")
    return bad


def forests(prop, tier, seed, rep):
    from checks import judge
    from props import ALWAYS, PROPS

    ms = []
    for cfg in ("Forest", "ForestQ4") if tier == "quick" else ("ForestAll", "ForestB"):
        r, g, d = engine.generate("Forest", cfg, seed=seed)
        rep.add(d, g, 0)
        ms += [(cfg, x) for x in r]
    ms.sort(key=lambda x: repr(x))
    jobs = [("scen", scenario(m, f"forest-{c}-{k}")) for k, (c, m) in enumerate(ms) if not m["dup"]]
    for lo in range(0, len(jobs), 3000):
        judge(rep, engine.record_all(jobs[lo : lo + 3000]), ALWAYS | set(PROPS[prop]["guards"]))
    dups = [m for _, m in ms if m["dup"]]
    with engine.pool() as p:
        res = p.map(refused, dups, chunksize=4)
    rep.add(0, 0, 2 * len(dups))
    rep.extra["duplicates_refused"] = 2 * len(dups)
    for m, bad in zip(dups, res):
        if bad:
            rep.violation(f"dup-{m['par']}-{m['kind']}-{m['dup']}", bad[0], dict(model=m, deviations=bad))
