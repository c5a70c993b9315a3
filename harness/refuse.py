"""Attempts at impossible (and possible) work of Refuse.tla, made with the real code (C29)."""
import engine

# degrees of latitude: 0 m, 98.7 m, 101.3 m from there (the tolerance is 100 m)
FAR = {"here": 0.0, "near": 98.7 / 111267.0, "far": 101.3 / 111267.0}


def attempt(b):
    import networkx as nx
    import simpy
    from shapely.geometry import LineString, Point

    import openclsim.core as core
    import openclsim.model as model
    import openclsim.plugins as plugins
    from openclsim.core.movable import Routable

    x, s = b["x"], b["b"]
    env = simpy.Environment()
    registry = {}
    at = lambda p: Point(4.0, 52.0 + FAR[p])
    mix = (core.Identifiable, core.Log, core.Locatable)
    Site = type("Site", mix + (core.HasContainer, core.HasResource), {})
    Crane = type("Crane", mix + (core.HasResource, core.Processor, core.LoadingFunction, core.UnloadingFunction), {})
    Ship = type("Ship", (core.Identifiable, core.Movable, core.HasResource), {})
    kw = lambda name, place: dict(env=env, name=name, id=name, geometry=at(place))
    lack = x.get("lack", "none")

    def site(name, place, level, side):
        base = {core.HasContainer: "container", core.HasResource: "resource", core.Log: "log"}
        if lack != "none" and x["side"] == side:
            bases = tuple(c for c in Site.__bases__ if base.get(c) != lack)
            cls = type("Part", bases + (core.SimpyObject,), {})
        else:
            cls = Site
        more = dict(capacity=10, level=level) if issubclass(cls, core.HasContainer) else {}
        return cls(**kw(name, place), **more)

    # earlier work has taken and brought 2
    early = 2 if x.get("done") and x["og"] > 0 and x["free"] > 0 else 0
    og = site("og", "here", s["og"] + early, "origin")
    ds = site("ds", x.get("ds", "here"), s["ds"] - early, "destination")
    crane = Crane(**kw("crane", x.get("pc", "here")), loading_rate=1, unloading_rate=1)
    ship = Ship(**kw("ship", "here"), v=1)
    cid = "default"
    if x["k"] == "unfit":
        what, _, where = x["what"].partition(" ")
        if what == "processor":
            crane = type("Winch", mix + (core.HasResource,), {})(**kw("crane", "here"))
        elif what in ("multi", "type"):
            cid = "sand"
            box = lambda name, level: type("Multi", mix + (core.HasMultiContainer, core.HasResource), {})(
                **kw(name, "here"),
                store_capacity=2,
                initials=[
                    dict(id=i, capacity=10, level=level)
                    for i in (["mud"] if where in (name, "both") else ["mud", "sand"])
                ],
            )
            og, ds = box("og", s["og"]), box("ds", s["ds"])
        elif what != "none":
            lacking = dict(container=core.HasContainer, resource=core.HasResource)[what]
            cls = type("Part", tuple(c for c in Site.__bases__ if c != lacking), {})
            more = dict(capacity=10, level=s[where]) if what == "resource" else {}
            part = cls(**kw(where, "here"), **more)
            og, ds = (part, ds) if where == "og" else (og, part)
    if early:
        a = model.ShiftAmountActivity(
            env=env, registry=registry, name="early", processor=crane, origin=og, destination=ds, amount=2, duration=5
        )
        model.register_processes([a])
        env.run()
    boxes = [o.container for o in (og, ds) if hasattr(o, "container")]
    waits = [c.get_container_event(11, "ge", i) for c in boxes for i in c.container_list]
    base = [len(getattr(o, "logbook", ())) for o in (og, ds, crane, ship)]
    level = lambda o, k: o.container.get_level(max(o.container.container_list)) if hasattr(o, "container") else s[k]
    more, fired, who, place = [], False, ship, "far"
    k = x["k"]
    err = None
    try:
        if k == "operator":
            fired = bool(og.container.get_container_event(x["lv"], None if x["op"] == "none" else x["op"]).triggered)
        elif k == "initials":
            items = [dict(id="sand", capacity=10, level=6), dict(id="mud" + x["tail"], capacity=10, level=7)]
            if x["at"] == 1:
                items.reverse()
            if x["miss"] != "none":
                del items[x["at"] - 1][x["miss"]]
            box = type("Multi", (core.Identifiable, core.HasMultiContainer), {})(
                env=env, name="multi", initials=items, store_capacity=2
            )
            for c in items:
                if box.container.get_level(c["id"]) != c["level"]:
                    more.append(f"the level of {c['id']} is {box.container.get_level(c['id'])}")
            if sorted(box.container.container_list) != sorted(c["id"] for c in items):
                more.append(f"the containers are {box.container.container_list}")
        elif k == "move":
            to = Site(**kw("to", "far"), capacity=1) if x["to"] else None
            opt = dict(duration=7) if x["dur"] else {}
            if x["eo"]:
                opt["engine_order"] = 0.5
            if x["how"] == "direct":
                env.process(ship.move(destination=to, **opt))
            else:
                model.register_processes(
                    [model.MoveActivity(env=env, registry=registry, name="move", mover=ship, destination=to, **opt)]
                )
            env.run()
        elif k == "shift":
            opt = dict(duration=3) if x["dur"] else {}
            if x["amt"]:
                opt["amount"] = x["amt"]
            if x["phase"] != "none":
                opt["phase"] = x["phase"]
            model.register_processes(
                [
                    model.ShiftAmountActivity(
                        env=env, registry=registry, name="shift", processor=crane, origin=og, destination=ds, **opt
                    )
                ]
            )
            env.run()
        elif k == "unfit":
            opt = dict(duration=3) if x["dur"] else dict(phase="loading")
            if x["amt"]:
                opt["amount"] = x["amt"]
            model.register_processes(
                [
                    model.ShiftAmountActivity(
                        env=env, registry=registry, name="shift", processor=crane, origin=og, destination=ds, id_=cid, **opt
                    )
                ]
            )
            env.run()
        elif k == "process":
            crane.activity_id = "x"  # as an activity would set it
            env.process(crane.process(og, ds, lambda o, d: (1, 1), 1))
            env.run()
        elif k == "criterion":
            opt = {w: 1.0 for w, y in (("maximum", x["max"]), ("minimum", x["min"])) if y}
            c = plugins.WeatherCriterion(name="c", condition="Hs", window_length=1, **opt)
            if (c.maximum, c.minimum) != (opt.get("maximum"), opt.get("minimum")):
                more.append(f"the criterion has maximum {c.maximum} and minimum {c.minimum}")
        elif k == "identity":
            opt = {}
            if x["id"]:
                opt["id"] = "one"
            if x["old"]:
                opt["ID"] = "one"
            o = core.Identifiable(name="o", **opt)
            if opt and o.id != "one":
                more.append(f"the id is {o.id}")
        elif k == "route":
            if x["graph"]:
                env.graph = nx.Graph()
                for q in (1, 2, 3):
                    env.graph.add_node(q, geometry=Point(4.0 + q, 52.0))
                for q in (1, 2):
                    env.graph.add_edge(q, q + 1, geometry=LineString([(4.0 + q, 52.0), (5.0 + q, 52.0)]))
            # the vessel of this attempt
            cls = type("RouteShip", (core.Identifiable, Routable), {})
            who = cls(env=env, name="router", geometry=Point(4.0 + x["from"], 52.0), v=1, route=[1, 2, 3])
            start = who.geometry
            to = Site(env=env, name="to", geometry=Point(4.0 + x["to"], 52.0), capacity=1)
            base[3] = 0
            env.process(who.move(destination=to))
            env.run()
    except Exception as e:  # noqa: BLE001
        err = repr(e)
    bad = list(more)
    if (err is not None) != (b["out"] == "error"):
        bad.append(f"raises {err}" if err else "no error is raised")
    z = b["s"]
    got = [level(og, "og"), level(ds, "ds")]
    if got != [z["og"], z["ds"]]:
        bad.append(f"the levels are {got}, not {[z['og'], z['ds']]}")
    for c in boxes if k == "unfit" and b["out"] == "done" else ():
        for i in c.container_list:
            if c.get_level(f"{i}_reservations") != c.get_level(i):
                bad.append("the reserved level is not the level at the end")
    if any(e.triggered for e in waits):
        bad.append("a level event fired which may not")
    if fired != z["fired"]:
        bad.append(f"the level event has fired: {fired}")
    n = [len(getattr(o, "logbook", ())) - y for o, y in zip((og, ds, crane, who), base)]
    want = {"shift": [z["logs"]] * 3 + [0], "process": [z["logs"]] * 3 + [0], "unfit": [z["logs"]] * 3 + [0], "move": [0, 0, 0, z["logs"]]}.get(k)
    if want and lack == "none" and n != want:
        bad.append(f"{n} log entries, not {want}")
    if k == "route" and who is not ship:
        end = to.geometry if b["out"] == "done" else start
        if who.geometry.distance(end) > 1e-9:
            bad.append("the vessel is not where it should be")
    elif k == "move" and ship.geometry.distance(at(z["pos"])) > 1e-9:
        bad.append("the vessel is not where it should be")
    return bad


def attempts(prop, tier, seed, rep):
    bs, g, d = engine.generate("Refuse", "Refuse")
    bs = list({repr(b): b for b in bs}.values())
    bs.sort(key=repr)
    with engine.pool() as p:
        res = p.map(attempt, bs, chunksize=10)
    rep.add(d, g, len(bs))
    rep.extra["attempts"] = dict(refused=sum(b["out"] == "error" for b in bs), possible=sum(b["out"] == "done" for b in bs))
    rep.sample(dict(attempt=bs[0]["x"], expected=bs[0]["out"], verdict=res[0] or "as specified"))
    n = 0
    for k, (b, bad) in enumerate(zip(bs, res)):
        if bad and n < 5:
            n += 1
            rep.violation(f"attempt-{k}", bad[0], dict(attempt=b, deviations=bad))
