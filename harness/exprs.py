"""Replay of the condition expressions enumerated by Expr.tla on the real parser (C19)."""
import engine
import simpy

SCRIPT = [(16, 1), (32, 2), (48, -5), (72, 2)]  # time in 1/8 s, change of the level
INF = 1000000
END = 130


def bad_leaf(n, box):
    """A malformed condition."""
    return [
        {"type": "activity", "state": "started", "name": "A1"},
        {"type": "activity", "state": "done", "name": "nobody"},
        {"type": "activity", "state": "done", "ID": "nobody"},
        {"type": "bogus", "state": "done", "name": "A1"},
        {"type": "container", "concept": box, "state": "bogus", "level": 2},
        {"type": "container", "concept": box, "state": "ge"},
        {"state": "done", "name": "A1"},
        {},
        5,
        "A1",
        {"type": "activity", "name": "A1"},
        {"type": "container", "concept": box, "state": "Full"},
    ][n - 1]


class Script:
    def __init__(self):
        import openclsim.core as core
        import openclsim.model as model
        import shapely.geometry

        self.model = model
        self.env = simpy.Environment()
        self.reg = {}
        T = type("T", (core.HasContainer, core.Locatable, core.HasResource, core.Identifiable, core.Log), {})
        self.box = T(
            env=self.env, name="box", geometry=shapely.geometry.Point(0, 0), capacity=5, level=2, nr_resources=1
        )
        self.ev = {"E": self.env.event(), "N": self.env.event()}
        self.tops = [
            self.basic("A1", 24, id="ia"),
            self.basic("A2", 56, id="ib"),
            self.basic("A4", 16, id="shared"),
            self.basic("A5", 40, id="shared"),
        ]

    def basic(self, name, d, **kw):
        return self.model.BasicActivity(env=self.env, registry=self.reg, name=name, duration=d / 8, **kw)

    def expr(self, x, alt=0):
        k = x["k"]
        if k == "list":
            return [self.expr(c, alt) for c in x["ch"]]
        if k in ("and", "or"):
            return {k: [self.expr(c, alt) for c in x["ch"]]}
        if k == "bad":
            return bad_leaf(x["n"], self.box)
        if k == "time":
            return {"type": "time", "start_time": x["t"] / 8}
        if k == "evt":
            return self.ev[x["e"]]
        if k == "act":
            if x["key"] == "shared":
                return {"type": "activity", "state": "done", "ID": "shared"}
            if alt % 2:
                return {"type": "activity", "state": "done", "ID": {"A1": "ia", "A2": "ib"}[x["key"]]}
            return {"type": "activity", "state": "done", "name": x["key"]}
        d = {"type": "container", "concept": self.box, "state": x["op"]}
        if x["op"] not in ("full", "empty"):
            d["level"] = x["lv"]
        if alt % 3 == 0:
            d["id_"] = "default"
        return d

    def drive(self):
        def levels():
            for t, d in SCRIPT:
                yield self.env.timeout(t / 8 - self.env.now)
                self.box.container.put(d)

        def fire():
            yield self.env.timeout(8)
            self.ev["E"].succeed()

        self.env.process(levels())
        self.env.process(fire())


def starts(act):
    return [round((e["Timestamp"] - T0).total_seconds() * 8) for e in act.logbook if e["ActivityState"] == "START"]


def stamps(act, state):
    return [
        round((t - T0).total_seconds() * 8)
        for t, s, p in zip(act.log["Timestamp"], act.log["ActivityState"], act.log["ActivityLabel"])
        if s == state and not p
    ]


def replay(part):
    """Expressions of one chunk in one simulation; returns the deviations by position."""
    global T0
    import datetime

    T0 = datetime.datetime(1970, 1, 1)
    w = Script()
    m, env, reg = w.model, w.env, w.reg
    guards, tops = [], []
    out = {}
    try:
        for i, b in enumerate(part):
            e = lambda: w.expr(b["x"], i)  # noqa: E731, B023
            top = w.basic(f"t{i}", 1, start_event=e())
            g = w.basic(f"g{i}", 1, start_event=e())
            seq = m.SequentialActivity(
                env=env, registry=reg, name=f"s{i}", sub_processes=[w.basic(f"p{i}", 21), g]
            )
            lg = w.basic(f"lg{i}", 1, start_event=e())
            loop = m.RepeatActivity(
                env=env, registry=reg, name=f"l{i}", sub_processes=[lg, w.basic(f"lr{i}", 20)], repetitions=2
            )
            wh = m.WhileActivity(
                env=env, registry=reg, name=f"w{i}", sub_processes=[w.basic(f"wb{i}", 18)], condition_event=e()
            )
            ws = m.SequentialActivity(
                env=env, registry=reg, name=f"ws{i}", sub_processes=[w.basic(f"wp{i}", 9), wh]
            )
            guards.append((top, g, lg, wh))
            tops += [top, seq, loop, ws]
        w.drive()
        # guards before and after the activities which they wait for
        m.register_processes(tops[: len(tops) // 2] + w.tops + tops[len(tops) // 2 :])
        env.run(until=END / 8)
    except Exception as ex:  # noqa: BLE001
        return {0: [f"raises {ex!r} at {env.now}"]}

    def until(q):
        return [x for x in q if x <= END]

    for i, (b, (top, g, lg, wh)) in enumerate(zip(part, guards)):
        bad = []
        for what, act, exp in (
            ("at top level", top, [b["top"]]),
            ("in a sequence", g, [b["seq"]]),
            ("in a loop", lg, [b["l1"], b["l2"]]),
        ):
            got = stamps(act, "START")
            if got != until(exp):
                bad.append(f"{what}: starts at {got}, expected {until(exp)} (1/8 s)")
        n = b["n"]
        end = [9 + 18 * n] if n else []
        its = sum(1 for s, p in zip(wh.log["ActivityState"], wh.log["ActivityLabel"]) if s == "STOP" and p)
        got = stamps(wh, "STOP")
        if got != until(end) or (got and its != n):
            bad.append(f"while loop: stops at {got} after {its} iterations, expected {until(end)} after {n}")
        if bad:
            out[i] = bad
    return out


def refuse(b):
    """A malformed expression must be refused before time passes."""
    bad = []
    for place in ("top", "seq"):
        w = Script()
        m, env, reg = w.model, w.env, w.reg
        err, g = None, None
        try:
            g = w.basic("g", 1, start_event=w.expr(b["x"]))
            tops = [g]
            if place == "seq":
                tops = [m.SequentialActivity(env=env, registry=reg, name="s", sub_processes=[w.basic("p", 21), g])]
            w.drive()
            m.register_processes(w.tops + tops)
            env.run(until=END / 8)
        except Exception as ex:  # noqa: BLE001
            err = ex
        if err is None:
            bad.append(f"{place}: accepted; log of the activity: {g.log['Timestamp'][:2]}")
        elif env.now > 0:
            bad.append(f"{place}: refused only at {env.now}: {err!r}")
    return bad


def expressions(prop, tier, seed, rep):
    xs, g, d = engine.generate("Expr", "Expr" if tier == "quick" else "ExprBig", seed=seed)
    good = [x for x in xs if not x["bad"]]
    wrong = [x for x in xs if x["bad"]]
    # the order in which TLC prints does not matter
    good.sort(key=lambda x: repr(x["x"]))
    wrong.sort(key=lambda x: repr(x["x"]))
    parts = [good[i : i + 60] for i in range(0, len(good), 60)]
    with engine.pool() as p:
        res = p.map(replay, parts, chunksize=1)
        rej = p.map(refuse, wrong, chunksize=4)
    rep.add(d, g, 4 * len(good) + 2 * len(wrong))
    rep.extra["expressions"] = dict(evaluated=len(good), malformed=len(wrong))
    rep.sample(dict(expression=good[0], verdict="as expected"))
    rep.sample(dict(malformed=wrong[0]["x"], verdict=rej[0] or "refused at once"))
    n = 0
    for part, r in zip(parts, res):
        for i, bad in r.items():
            if n < 4:
                n += 1
                rep.violation(f"expr-{part[i]['x']}"[:100], bad[0], dict(expression=part[i], deviations=bad))
    for x, bad in zip(wrong, rej):
        if bad and n < 8:
            n += 1
            rep.violation(f"malformed-{x['x']}"[:100], bad[0], dict(expression=x, deviations=bad))
