"""Replay of behaviours generated by TLC on single components of OpenCLSim (C18)."""
import engine
import simpy


# one unit of the specification in the units of the container (exact in binary)
UNITS = (0.5, 1 / 128, 64.0, 1 / 2**14, 0.5)


def replay_container(b):
    """One history of ContainerEvents on a real container; returns a list of deviations."""
    import openclsim.core as core
    import shapely.geometry

    hist = b["hist"]
    unit = b.get("unit", 0.5)

    def _lv(x):
        return x * unit

    env = simpy.Environment()
    ids = list(hist[0]["lev"])
    cap = b["cap"]
    T = type("T", (core.HasMultiContainer, core.Locatable, core.Identifiable, core.Log), {})
    base = [i for i in ids if not i.endswith("_reservations")]
    obj = T(
        env=env,
        name="t",
        geometry=shapely.geometry.Point(0, 0),
        initials=[dict(id=i, capacity=_lv(cap), level=_lv(hist[0]["lev"][i])) for i in base],
    )
    box = obj.container
    for i in ids:
        if i not in base:  # reservations begin with the level; move them where the history begins
            box.put(_lv(hist[0]["lev"][i]) - box.get_level(i), i)
    env.run(until=0.25)
    got = []

    def note(k):
        def cb(ev):
            got[k][1] = int(env.now)

        return cb

    def proc():
        for op in hist[1:]:
            if op["k"] == "put":
                box.put(_lv(op["n"]), op["id"])
            elif op["k"] == "get":
                box.get(_lv(op["n"]), op["id"])
            elif op["k"] == "settle":
                yield env.timeout(0)
            elif op["k"] == "tick":
                yield env.timeout(1)
            else:
                q = op["q"]
                if q["op"] == "full":
                    e = box.get_full_event(q["id"])
                elif q["op"] == "empty":
                    e = box.get_empty_event(q["id"])
                else:
                    e = box.get_container_event(_lv(q["lv"]), q["op"], q["id"])
                got.append([bool(e.triggered), None])
                if e.callbacks is not None:
                    e.callbacks.append(note(len(got) - 1))
                else:
                    got[-1][1] = int(env.now)
        yield env.timeout(1)

    try:
        env.process(proc())
        env.run()
    except Exception as e:  # noqa: BLE001
        return [f"raises {e!r}"]
    bad = []
    for i in ids:
        if box.get_level(i) != _lv(b["lev"][i]):
            bad.append(f"level of {i} is {box.get_level(i)}, not {_lv(b['lev'][i])}")
    for x, (trig, fired) in zip(b["w"], got):
        q = x["q"]
        if trig != x["imm"]:
            bad.append(f"{q} requested at {x['at']}: triggered is {trig}")
        elif fired is None:
            if x["must"] >= 0:
                bad.append(f"{q} requested at {x['at']}: never fired, holds from {x['must']}")
        elif not (x["imm"] and fired == x["at"] or (fired in x["may"] and (x["must"] < 0 or fired <= x["must"]))):
            bad.append(f"{q} requested at {x['at']}: fired at {fired}, allowed {x['may']}, due {x['must']}")
    return bad


def container_events(prop, tier, seed, rep):
    runs = [("ContainerEventsAll", None, None, 2)]
    runs += [("ContainerEventsSim", 1500 if tier == "quick" else 20000, 40, 3)]
    for cfg, sim, depth, cap in runs:
        hs, g, d = engine.generate("ContainerEvents", cfg, sim, depth, seed)
        for n, h in enumerate(hs):
            h["cap"], h["unit"] = cap, UNITS[n % len(UNITS)]
        with engine.pool() as p:
            res = p.map(replay_container, hs, chunksize=50)
        rep.add(d, g, len(hs))
        rep.sample(dict(history=hs[0]["hist"], allowed=hs[0]["w"], verdict=res[0] or "as allowed"))
        n = 0
        for k, (h, bad) in enumerate(zip(hs, res)):
            if bad and n < 3:
                n += 1
                rep.violation(f"history-{cfg}-{k}", bad[0], dict(history=h, deviations=bad))
