"""Direct sailing: the histories of Sail.tla, sailed by the real code (C32)."""
import datetime
import math

import engine

DEG = 180 / math.pi / 6378137.0  # degrees along the equator of one metre
# metres of a unit of distance, seconds of a unit of time, longitude of the origin, kind of graph
WORLDS = [(1000.0, 60.0, 4.0, "Graph"), (10.0, 0.25, -70.0, "DiGraph"), (100000.0, 3600.0, 100.0, "Graph")]
TOL = 1e-6
ZERO = datetime.datetime(1970, 1, 1)


def replay(job):
    import networkx as nx
    import simpy
    from shapely.geometry import LineString, Point

    import openclsim.core as core
    from openclsim.core.movable import Routable

    m, h, (unit, quarter, lon0, kind), via = job["m"], job["h"], job["world"], job["via"]
    lon = lambda x: lon0 + x * unit * DEG
    point = lambda x: Point(lon(x), 0)
    line = lambda c: LineString([(lon(x), 0) for x in c])
    X, FAR = [0, 3, 7], 11
    env = simpy.Environment(initial_time=job["t0"])
    env.graph = getattr(nx, kind)()
    name = lambda q: f"n{q}"
    for q, x in enumerate(X, 1):
        env.graph.add_node(name(q), geometry=point(x))
    for (a, b), e in zip([(1, 2), (2, 3), (1, 3)], m["e"]):
        c = [X[a - 1], FAR, X[b - 1]] if e // 2 else [X[a - 1], X[b - 1]]
        g = line(c[::-1] if e % 2 else c)
        env.graph.add_edge(name(a), name(b), geometry=g)
        if kind == "DiGraph":
            env.graph.add_edge(name(b), name(a), geometry=g)
    speed = m["v"] * unit / (4 * quarter)
    base, opt = Routable, dict(v=speed)
    if all(c["k"] == "go" for c in m["cmd"]):
        # a plain vessel, or one whose speed depends on its content
        base, opt = [
            (core.Movable, dict(v=speed)),
            (core.ContainerDependentMovable, dict(compute_v=lambda f: speed * (0.5 + f), capacity=8, level=4)),
            (
                core.MultiContainerDependentMovable,
                dict(
                    compute_v=lambda f: speed * (0.5 + 2 * f),
                    store_capacity=2,
                    initials=[dict(id="a", capacity=6, level=0), dict(id="b", capacity=6, level=3)],
                ),
            ),
        ][job["kind"]]
    cls = type("Sailing", (core.Identifiable, base), {})
    ship = cls(env=env, name="ship", geometry=point(m["at"]), engine_order=m["eo"] / 2, **opt)
    Site = type("Site", (core.Identifiable, core.Log, core.Locatable), {})
    calls, seen, nodes = [], [], []
    at = lambda x: abs(x - lon(0)) / (unit * DEG)

    def fun(k, f):
        def passed(movable, a, b, route, geometry):
            calls.append((env.now, k, a, b, [x for x, _ in geometry.coords], movable is ship, list(route)))
            if f["eo"]:
                movable.engine_order = f["eo"] / 2
            return env.timeout(f["w"] * quarter)

        return passed

    for k, f in enumerate(m["f"], 1) if base is Routable else ():
        ship.on_pass_edge_functions.append(fun(k, f))

    def sail():
        for c in m["cmd"]:
            if c["k"] == "point":
                yield from ship.move_to_geometry(point(c["r"][0]))
            elif c["k"] == "line":
                yield from ship.pass_linestring(line(c["r"]))
            elif c["k"] == "route":
                yield from ship.move_over_route([name(q) for q in c["r"]])
            else:
                ends = [X[q - 1] for q in c["r"]] if c["k"] == "via" else [c["x"]]
                if c["k"] == "via":
                    ship.route, ship.path = [name(q) for q in c["r"]], None
                    ends = [x for x in (ends[0], ends[-1]) if abs(at(ship.geometry.x) - x) > 1e-3]
                elif c["k"] == "path":
                    ship.path = line(c["r"])
                go = dict(engine_order=c["o"] / 2) if c["o"] else {}
                if c["d"]:
                    go["duration"] = c["d"] * quarter
                node = ship.node
                yield from ship.move(Site(env=env, name="site", geometry=point(ends[0])), **go)
                nodes.append(node)

    # what is expected: position and node after each instant, calls
    time = lambda t: job["t0"] + t * quarter
    want = [(job["t0"], m["at"], 0)]
    due = []
    for e in h:
        if e["k"] == "call":
            due.append((time(e["t"]), e["x"]))
        elif want[-1][0] == time(e["t"]):
            want[-1] = (want[-1][0], e["pos"], e["node"])
        else:
            want.append((time(e["t"]), e["pos"], e["node"]))
    last = max([time(e["t"] + (m["f"][e["x"][0] - 1]["w"] if e["k"] == "call" else 0)) for e in h])

    def look():
        seen.append((env.now, ship.geometry.x, ship.geometry.y, getattr(ship, "node", None)))

    try:
        p = env.process(sail())
        if via:  # a sailing that is part of something else
            env.process(iter_wait(env, p))
        while env.peek() < float("inf"):
            t = env.peek()
            while env.peek() == t:
                env.step()
            look()
    except Exception as x:  # noqa: BLE001
        return [f"raises {x!r}"]
    bad = []
    near = lambda a, b: abs(a - b) <= TOL * max(1, abs(a), abs(b) - job["t0"])
    logs = [(e["Timestamp"], e["ActivityState"], e["ObjectState"]) for e in ship.logbook]
    entries = [e for e in h if e["k"] in ("start", "stop")]
    if len(logs) != len(entries):
        bad.append(f"{len(logs)} log entries, not {len(entries)}")
    for n, ((s, state, obj), e) in enumerate(zip(logs, entries)):
        if state != e["k"].upper() or not near((s - ZERO).total_seconds(), time(e["t"])):
            bad.append(f"entry {n} is {state} at {s}, not {e['k']} at {time(e['t'])}")
        if abs(at(obj["geometry"].x) - e["pos"]) > 1e-6 or obj.get("node") != nodes[n // 2]:
            bad.append(f"entry {n} has position {at(obj['geometry'].x):.4f} and node {obj.get('node')}")
    if not near(env.now, last):
        bad.append(f"ends at {env.now}, not {last}")
    # between two instants nothing changes, so compare after every instant of either side
    for t in sorted({s[0] for s in seen} | {w[0] for w in want}):
        s = [x for x in seen if x[0] <= t + TOL * max(1, t)]
        w = [x for x in want if x[0] <= t + TOL * max(1, t)][-1]
        if not s:
            continue
        _, x, y, node = s[-1]
        if abs(at(x) - w[1]) > 1e-6 or abs(y) > 1e-9:
            bad.append(f"at {t} the position is {at(x):.4f}, not {w[1]}")
        if w[2] and node != name(w[2]):
            bad.append(f"at {t} the node is {node}, not {name(w[2])}")
    if len(calls) != len(due):
        bad.append(f"{len(calls)} calls of the functions, not {len(due)}")
    for (t, k, a, b, xs, me, route), (wt, x) in zip(calls, due):
        if not near(t, wt) or [k, a, b] != [x[0], name(x[1]), name(x[2])]:
            bad.append(f"function {k} called at {t} for {a}-{b}; expected {x[0]} at {wt} for {x[1]}-{x[2]}")
        elif not me or len(xs) != len(x) - 3 or any(abs(at(p) - q) > 1e-6 for p, q in zip(xs, x[3:])):
            bad.append(f"function {k} called at {t} with the line {[round(at(p), 4) for p in xs]}, not {x[3:]}")
    return bad


def iter_wait(env, p):
    yield p
    yield env.timeout(0)


def sailing(prop, tier, seed, rep):
    for cfg in ("Sail", "SailTwo", "SailMove", "SailVia"):
        cfg += "" if tier == "quick" else "All"
        hs, g, d = engine.generate("Sail", cfg, seed=seed)
        hs.sort(key=lambda x: repr(x["m"]))
        for n, x in enumerate(hs):
            x.update(world=WORLDS[n % 3], t0=[0.0, 0.0, 86400.0][n // 3 % 3], via=n % 2 == 0, kind=n // 5 % 3)
        with engine.pool() as p:
            res = p.map(replay, hs, chunksize=50)
        rep.add(d, g, len(hs))
        rep.sample(dict(case=hs[0]["m"], history=hs[0]["h"], verdict=res[0] or "as specified"))
        n = 0
        for k, (x, bad) in enumerate(zip(hs, res)):
            if bad and n < 3:
                n += 1
                rep.violation(f"sail-{cfg}-{k}", bad[0], dict(case=x["m"], history=x["h"], deviations=bad))
