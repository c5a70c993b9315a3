"""Tables, exports and charts of real simulations, judged by Tables.tla (C21, C22, C24, C25, C26; C23)."""
import datetime
import io
import logging
import signal
import sys
import warnings

import engine

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


# --------------------------------------------------------------------------- run
def cause_env(t0):
    """A recording environment that also records the cause of every event, by itself."""
    import simpy

    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment

    class CauseEnv(CriticalPathEnvironment):
        def __init__(self, *a, **k):
            self.story, self.index, self.current = [], {}, None
            super().__init__(*a, **k)

        def schedule(self, event, *a, **k):
            n = dict(c=self.index.get(id(self.current), 0), ev=event, t=None)
            self.story.append(n)
            self.index[id(event)] = len(self.story)
            super().schedule(event, *a, **k)

        def step(self):
            self.current = self._queue[0][3] if self._queue else None
            ev = self.current
            try:
                super().step()
            finally:
                self.current = None
            self.story[self.index[id(ev)] - 1]["t"] = self.now

    env = CauseEnv(initial_time=t0)
    env.is_timeout = lambda e: isinstance(e, simpy.events.Timeout) and e._delay > 0
    return env


def entry(w, o, e, sc):
    """One log entry as data."""
    import world

    lab = e.get("ActivityLabel") or {}
    return dict(
        a=w.index.get(e.get("ActivityID"), 0),
        s=world.STATE.get(e.get("ActivityState"), "?"),
        at=e["Timestamp"],
        sub=lab.get("type") == "subprocess",
        lv=levels(w, sc, (e.get("ObjectState") or {}).get("container level")),
        x=label(lab) + "/" + where(e.get("ObjectState") or {}),
    )


def missing(x):
    return x is None or x != x


def levels(w, sc, cl):
    import world

    if missing(cl):
        return []
    if isinstance(cl, dict):
        return [f"{k}:{world.ms(v)}" for k, v in sorted(cl.items())]
    return [f"default:{world.ms(cl)}"]


def label(lab):
    t, r = lab.get("type"), lab.get("ref")
    return f"{'' if missing(t) else t}|{'' if missing(r) else r}"


def where(st):
    g = st.get("geometry")
    return "" if missing(g) else f"{g.x:.6f},{g.y:.6f}"


class Names(dict):
    """Identifiers that occur in a table -> small numbers."""

    def __missing__(self, k):
        self[k] = len(self) + 1
        return self[k]


def attempt(fn, *a):
    try:
        return {"err": "", **fn(*a)}
    except Exception as e:  # noqa: BLE001
        return dict(err=repr(e)[:200], rows=[], deps=[])


# --------------------------------------------------------------------------- tables
def make_case(scen, prop):
    """Run one scenario; returns the case for Tables.tla or None if it did not complete."""
    import world

    t0 = scen.get("t0", 0.0)
    cp = scen.get("env") == "cp"
    env = None
    if cp:
        env = cause_env(t0)
    w = world.World(scen, observe=False, env=env)
    w.run_plain()
    w.index = {a.id: i + 1 for i, a in enumerate(w.acts)}
    w.oindex = {o.id: i + 1 for i, o in enumerate(w.objs)}
    w.oname = {o.name: i + 1 for i, o in enumerate(w.objs)}
    w.aname = {a.name: i + 1 for i, a in enumerate(w.acts)}
    done = all(a.main_process is None or a.main_process.triggered for a in w.acts)
    case = dict(
        name=scen["name"],
        nobj=len(w.objs),
        complete=done,
        acts=[
            dict(
                n=a.name,
                id=a.id,
                cls=type(a).__name__,
                simple=s["k"] in ("basic", "move", "shift"),
                subs=[j + 1 for j in s.get("subs", [])],
                res=resources(s),
            )
            for a, s in zip(w.acts, scen["acts"])
        ],
        tops=[i + 1 for i in w.tops()],
    )
    case["logs"] = [
        dict(o=i + 1, L=[entry(w, o, e, s) for e in o.logbook]) for i, (o, s) in enumerate(zip(w.objs, scen["objs"]))
    ] + [dict(o=100 + i + 1, L=[entry(w, a, e, {}) for e in a.logbook]) for i, a in enumerate(w.acts)]
    case["cells"] = [[c[0] for c in sorted(s.get("conts") or [])] for s in scen["objs"]]
    none = dict(err="skip", rows=[], deps=[])
    case.update(rec=none, depr=none, crr=none, deps=none, crs=none, gcr=none, alog=none, step=none, ev=[])
    case.update(logt=[], rng=[], tree=[], ares=[], gantt=[])
    if done and prop not in ("C25",):
        case.update(critical(w, cp and prop == "C24", prop))
    own = [(i + 1, o) for i, o in enumerate(w.objs)]
    act = [(100 + i + 1, a) for i, a in enumerate(w.acts)]
    if prop == "C25":
        case["rng"] = [attempt(ranges, w, o, k) | dict(o=i, k=k) for i, o in own for k in ("none", "list")]
        case["rng"] += [attempt(ranges, w, a, "none") | dict(o=i, k="none") for i, a in act]
        case["alog"] = attempt(activity_log, w)
        case["tree"] = [attempt(tree, w, k) | dict(k=k) for k in ("tree", "acts", "csv")]
        case["conc"] = [attempt(concepts, w, k) | dict(k=k) for k in ("list", "dict")]
        case["ares"] = [attempt(act_resources, w, k) | dict(k=k) for k in ("frame", "csv")]
    if prop == "C26":
        case["logt"] = [attempt(log_table, w, o, k) | dict(o=i, k=k) for i, o in own for k in ("none", "list", "dict", "map")]
        case["logt"] += [attempt(log_table, w, a, "list") | dict(o=i, k="list") for i, a in act]
        case["gantt"] = [attempt(gantt, w, k) | dict(k=k) for k in ("objs", "dict", "acts", "num")]
        case["step"] = attempt(step_chart, w)
    rank(case, t0)
    return case


def resources(s):
    if s["k"] == "move":
        return [["mover", s["mv"] + 1], ["destination", s["ds"] + 1]]
    if s["k"] == "shift":
        return [["processor", s["pc"] + 1], ["origin", s["og"] + 1], ["destination", s["ds"] + 1]]
    return []


def critical(w, cp, prop):
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities
    from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy

    out = {}
    tops = [w.acts[i] for i in w.tops()]
    ids = Names()

    def rows(df, crit=False):
        res = []
        for r in df.to_dict("records"):
            d = dict(
                a=w.index.get(r["ActivityID"], 0),
                nm=w.aname.get(r["Activity"], 0),
                o=0 if r["SimulationObject"] == "Activity" else w.oname.get(r["SimulationObject"], -1),
                S=r["start_time"].to_pydatetime(),
                E=r["end_time"].to_pydatetime(),
                w={"WAITING": True, "ACTIVE": False}[r["state"]],
                d=int(round(r["duration"].total_seconds() * 1000)),
                c=ids[r["cp_activity_id"]],
            )
            if crit:
                d["k"] = bool(r["is_critical"])
            res.append(d)
        return res

    def recorded():
        return dict(rows=rows(m.get_recorded_activity_df()))

    def deps(x):
        return dict(deps=[[ids[p], ids[q]] for p, q in x.get_dependency_list()])

    def path(x):
        return dict(rows=rows(x.get_critical_path_df(), True))

    m = DependenciesFromRecordedActivities(env=w.env, object_list=w.objs, activity_list=tops)
    out["rec"] = attempt(recorded)
    if prop in ("C22", "C23"):
        out["depr"] = attempt(deps, m)
    if prop in ("C23", "C26"):
        out["crr"] = attempt(path, m)
    if prop == "C26":
        out["gcr"] = attempt(cp_gantt, w, m)
    if cp:
        ids = Names()
        m2 = DependenciesFromSimpy(env=w.env, object_list=w.objs, activity_list=tops)
        out["deps"] = attempt(deps, m2)
        out["deps"]["rows"] = attempt(lambda: dict(rows=rows(m2.get_recorded_activity_df())))["rows"]
        out["crs"] = attempt(path, m2)
        out["ev"] = [
            dict(
                c=n["c"],
                r=w.env.is_timeout(n["ev"]),
                a=w.index.get(n["ev"]._value, 0) if isinstance(n["ev"]._value, str) else 0,
                at=datetime.datetime.utcfromtimestamp(n["t"] if n["t"] is not None else w.env.now),
            )
            for n in w.env.story
        ]
    return out


def id_map(w, k):
    tops = [w.acts[i] for i in w.tops()]
    return dict(none=None, list=tops, dict={f"k{i}": a for i, a in enumerate(tops)}, map={a.id: a.name for a in w.acts[::2]})[k]


def log_table(w, o, k):
    from openclsim.plot import get_log_dataframe

    df = get_log_dataframe(o, id_map(w, k))
    return dict(
        rows=[
            dict(
                nm=str(r["Activity"]),
                at=r["Timestamp"].to_pydatetime(),
                s=r["ActivityState"].replace("WAIT_START", "WS").replace("WAIT_STOP", "WP"),
                lv=levels(w, {}, r.get("container level")),
                x=label(r) + "/" + where(r),
            )
            for r in df.to_dict("records")
        ]
    )


def quiet(fn, *a, **k):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        return fn(*a, **k)
    finally:
        sys.stdout = old


def nat(x):
    """A moment of a table; None if there is none."""
    import pandas as pd

    return None if pd.isna(x) else x.to_pydatetime()


def ranges(w, o, k):
    import openclsim.io as ocio

    df = quiet(ocio.get_ranges_dataframe, o, id_map(w, k))
    return dict(
        rows=[
            dict(
                nm=str(r["Activity"]),
                S=nat(r["TimestampStart"]),
                E=nat(r["TimestampStop"]),
                n=int(r["trip"]),
                l0=levels(w, {}, r.get("ContainerLevelStart")),
                l1=levels(w, {}, r.get("ContainerLevelStop")),
                d=-1 if missing(r["TimestampDt"]) else int(round(r["TimestampDt"] * 1000)),
            )
            for r in df.to_dict("records")
        ]
    )


def activity_log(w):
    import openclsim.io as ocio

    df = quiet(ocio.get_activity_log, [w.acts[i] for i in w.tops()])
    return dict(
        rows=[
            dict(
                a=w.index.get(r["ActivityID"], 0),
                nm=r["ActivityName"],
                cls=r["ActivityClass"],
                S=nat(r["TimestampStart"]),
                E=nat(r["TimestampStop"]),
                n=int(r["trip"]),
                d=-1 if missing(r["TimestampDt"]) else int(round(r["TimestampDt"] * 1000)),
            )
            for r in df.to_dict("records")
        ]
    )


def tree(w, k):
    import os
    import tempfile

    import openclsim.io as ocio
    import pandas as pd

    tops = [w.acts[i] for i in w.tops()]
    if k == "tree":
        rec = pd.DataFrame(ocio.get_tree_as_list({i: t for i, t in enumerate(tops)})).to_dict("records")
    elif k == "acts":
        rec = ocio.get_activities(tops).to_dict("records")
    else:
        fd, path = tempfile.mkstemp(suffix=".csv")
        os.close(fd)
        try:
            ocio.get_activities(tops, path)
            rec = pd.read_csv(path).to_dict("records")
        finally:
            os.unlink(path)
    res = []
    for r in rec:
        d = dict(
            a=w.index.get(r["ActivityID"], 0),
            nm=r["ActivityName"],
            cls=r["ActivityClass"],
            p=0 if missing(r["ParentId"]) else w.index.get(r["ParentId"], -1),
            pn="" if missing(r["ParentName"]) else r["ParentName"],
            d=int(r["ParentLevel"]),
            res=[],
        )
        if k != "tree":
            for m, c in (("mover", "Mover"), ("processor", "Processor"), ("origin", "Origin"), ("destination", "Destination")):
                i, n = r[c + "ID"], r[c + "Name"]
                if not missing(i) or not (missing(n) or n == ""):
                    o = w.oindex.get(i, -1)
                    d["res"].append([m, o if o > 0 and w.objs[o - 1].name == n else -1])
        res.append(d)
    return dict(rows=res)


def act_resources(w, k):
    import os
    import tempfile

    import openclsim.io as ocio
    import pandas as pd

    tops = [w.acts[i] for i in w.tops()]
    if k == "frame":
        rec = ocio.get_activity_resources(tops).to_dict("records")
    else:
        fd, path = tempfile.mkstemp(suffix=".csv")
        os.close(fd)
        try:
            ocio.get_activity_resources(tops, path)
            rec = pd.read_csv(path).to_dict("records")
        finally:
            os.unlink(path)
    return dict(
        rows=[
            dict(
                a=w.index.get(r["ActivityID"], 0),
                nm=r["ActivityName"],
                cls=r["ActivityClass"],
                m=r["ConceptMode"],
                o=w.oindex.get(r["ConceptID"], -1),
                on=w.oname.get(r["ConceptName"], -1),
            )
            for r in rec
        ]
    )


def concepts(w, k):
    import openclsim.io as ocio

    objs = w.objs if k == "list" else {o.name: o for o in w.objs}
    df = ocio.get_concepts(objs, namespace="X" if k == "dict" else "")
    x = "X" if k == "dict" else ""
    return dict(
        rows=[
            dict(nm=w.oname.get(r[x + "Name"], -1), id=w.oindex.get(r[x + "ID"], -1), cls=r[x + "Class"] == type(o).__name__)
            for r, o in zip(df.to_dict("records"), w.objs, strict=True)
        ]
    )


def bars(x, y, who, n):
    """Bars of a trace of a chart: groups of n points, of which the last is the gap."""
    out = []
    if len(x) != len(y) or len(x) % n:
        return [dict(o=-1, S=None, E=None)]
    for i in range(0, len(x), n):
        xs, ys = x[i : i + n], y[i : i + n]
        good = (
            all(v == ys[0] for v in ys[:-1])
            and ys[-1] is None
            and (n == 3 or xs[0] == xs[1])
            and all(v == xs[-1] for v in xs[n // 2 :])
        )
        out.append(dict(o=who(ys[0]) if good else -1, S=nat(xs[0]), E=nat(xs[n // 2])))
    return out


def gantt(w, k):
    from openclsim.plot import get_gantt_chart

    ids = {a.id: i + 1 for i, a in enumerate(w.acts)}
    names = w.aname
    opt = dict(static=True)
    if k == "acts":
        concepts = [a for a, s in zip(w.acts, w.scen["acts"]) if s["k"] in ("basic", "move", "shift")]
        who = lambda y: 100 + names.get(y, -200)
    else:
        concepts = w.objs
        who = lambda y: w.oname.get(y, -1)
    used = [c for c in concepts if c.logbook]
    if not used:
        return dict(err="skip", rows=[])
    if k == "dict":
        opt["activities"] = {i: a.id for i, a in enumerate(w.acts)}
        opt["id_map"] = {i: w.acts[i] for i in w.tops()}
        concepts = {o.name: o for o in concepts}
    if k == "num":
        opt["y_scale"] = "numbers"
        who = lambda y: w.oname[used[-y].name]
    chart = get_gantt_chart(concepts, **opt)
    rows = []
    for tr in chart["data"]:
        a = ids.get(tr.name, names.get(tr.name, 0))
        named = tr.name in names
        rows.append(dict(a=a, named=named, bars=bars(list(tr.x), list(tr.y), who, 5)))
    lo, hi = chart["layout"].xaxis.range
    return dict(rows=rows, lo=nat(lo) if hasattr(lo, "to_pydatetime") else lo, hi=nat(hi) if hasattr(hi, "to_pydatetime") else hi)


def cp_gantt(w, m):
    if not len(m.get_critical_path_df()):
        return {"err": "skip"}  # no chart of nothing
    chart = m.make_plotly_gantt_chart(static=True)
    rows = []
    for tr in chart["data"]:
        rows.append(
            dict(
                a=-1 if tr.name == "critical_path" else w.aname.get(tr.name, 0),
                bars=bars(list(tr.x), list(tr.y), lambda y: 0 if y == "Activity" else w.oname.get(y, -1), 3),
            )
        )
    return dict(rows=rows)


def step_chart(w):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import world

    from openclsim.plot import get_step_chart

    objs = [o for o, s in zip(w.objs, w.scen["objs"]) if s.get("conts")]
    if not objs:
        return dict(err="skip", rows=[])
    fig = get_step_chart(objs)
    try:
        rows = []
        for ln in fig.axes[0].lines:
            name, _, cid = ln.get_label().partition(" ")
            rows.append(
                dict(
                    o=w.oname.get(name, -1),
                    c=cid or "default",
                    pts=[dict(at=t if hasattr(t, "year") else matplotlib.dates.num2date(t).replace(tzinfo=None), v=world.ms(v)) for t, v in zip(ln.get_xdata(orig=True), ln.get_ydata(orig=True))],
                )
            )
    finally:
        plt.close(fig)
    return dict(rows=rows)


def rank(case, t0):
    """Replace moments by their rank; case["tm"][rank] are milliseconds."""
    at = set()

    def walk(x, f):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("at", "S", "E", "lo", "hi"):
                    x[k] = f(v)
                else:
                    walk(v, f)
        elif isinstance(x, list):
            for v in x:
                walk(v, f)

    def add(v):
        if v is not None:
            at.add(v)
        return v

    walk(case, add)
    order = sorted(at)
    num = {v: i + 1 for i, v in enumerate(order)}
    walk(case, lambda v: 0 if v is None else num[v])
    ep = datetime.datetime(1970, 1, 1)
    case["tm"] = [int(round(((v - ep).total_seconds() - t0) * 1000)) for v in order]


# --------------------------------------------------------------------------- check
def _case(job):
    import gen

    prop, job = job[0], job[1:]

    def alarm(*_):
        raise TimeoutError("60 s")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    scen = gen.make(*job)
    try:
        return scen, make_case(scen, prop), ""
    except Exception as e:  # noqa: BLE001
        return scen, None, repr(e)[:300]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


GUARDS = {
    "C21": {"rec.crash", "rec.rows", "rec.dur", "rec.id", "rec.name"},
    "C22": {"rec.crash", "depr.crash", "dep.log"},
    "C23": {"rec.crash", "depr.crash", "crr.crash", "cp.flag"},
    "C24": {"rec.crash", "deps.crash", "dep.step", "dep.touch", "crs.crash", "cp.step"},
    "C25": {"tree.crash", "tree.rows", "conc.rows", "res.crash", "res.rows", "range.crash", "range.rows", "range.order", "alog.crash", "alog.rows", "alog.order"},
    "C26": {"log.crash", "log.rows", "chart.crash", "chart.bars", "chart.span", "chart.step", "chart.critical"},
}
PROFILES = {
    "C21": dict(cp=200, cpz=260),
    "C22": dict(cp=220, cpz=220),
    "C23": dict(cp=100, cpz=100),
    "C24": dict(cp=400),
    "C25": dict(cp=40, cpz=200),
    "C26": dict(cp=40, cpz=140),
}


def check(prop, tier, seed, rep):
    k = 1 if tier == "quick" else 10
    jobs = [(prop, p, seed, i) for p, n in PROFILES[prop].items() for i in range(n * k)]
    other = {}
    import matplotlib.pyplot  # noqa: F401
    import openclsim.io  # noqa: F401
    import openclsim.plot  # noqa: F401

    for lo in range(0, len(jobs), 800):
        with engine.pool() as p:
            res = p.map(_case, jobs[lo : lo + 800], chunksize=2)
        good = []
        for scen, case, err in res:
            if case is None:
                # a model that is refused is the business of the other properties
                other[err[:60]] = other.get(err[:60], 0) + 1
            else:
                good.append((scen, case))
        if len(good) < 0.8 * len(res):
            rep.violation("simulations", f"only {len(good)} of {len(res)} simulations end", dict(errors=other))
        verdicts, st, tr = engine.validate([c | dict(prop=prop) for _, c in good], module="Tables")
        rep.add(st, tr, len(verdicts))
        for i, (scen, case) in enumerate(good):
            viol = set(verdicts[i])
            if i < 4:
                rep.sample(dict(scenario=scen["name"], log_entries=sum(len(x["L"]) for x in case["logs"]), rows=len(case["rec"]["rows"]), links=len(case["depr"]["deps"]), step_links=len(case["deps"]["deps"]), verdict=sorted(viol) or "accepted"))
            hit = viol & (GUARDS[prop] | {"spec.uninterpretable"})
            if hit:
                errs = {k: case[k]["err"] for k in ("rec", "depr", "crr", "deps", "crs", "alog", "step") if case[k]["err"] not in ("", "skip")}
                errs.update({f"{k}.{j}": x["err"] for k in ("logt", "rng", "tree", "ares", "gantt") for j, x in enumerate(case[k]) if x["err"] not in ("", "skip")})
                rep.violation(scen["name"], f"{', '.join(sorted(hit))} {errs or ''}", dict(scenario=scen, guards=sorted(viol), errors=errs, case=case))
            for v in viol - hit:
                other[v] = other.get(v, 0) + 1
    if other:
        rep.extra["other"] = other
