"""Build a scenario (plain data) as real OpenCLSim objects, run it and record what happens.

Nothing of OpenCLSim is patched.  The observation consists of
* a simpy.Environment of which step() wraps the callbacks of the event that is processed, so
  that levels, resource users/queues, positions and processes are sampled after every callback,
* list objects as logbooks, which sample at every append.
The record is one "step" per callback that changed something visible.
"""
import copy
import datetime
import logging
import signal
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import pyproj  # noqa: E402
import shapely.geometry  # noqa: E402
import simpy  # noqa: E402

import openclsim.core as core  # noqa: E402
import openclsim.model as model  # noqa: E402
import openclsim.plugins as plugins  # noqa: E402
from openclsim.critical_path.dependencies_from_simpy_step import (  # noqa: E402
    CriticalPathEnvironment,
)

GEOD = pyproj.Geod(ellps="WGS84")
EPOCH = datetime.datetime(1970, 1, 1)
OWN = 256  # request code = rid * OWN + owner
EXT0 = 200  # owner codes of external processes


class Hang(Exception):
    pass


def ms(x):
    """Thousandths as an integer which TLC can read."""
    x = float(x) * 1000
    if not -1.9e9 < x < 1.9e9:  # nan, inf and numbers beyond any scenario
        return -1900000000 if x < 0 else 1900000000
    return int(round(x))


# --------------------------------------------------------------------------- classes
class FixPlugin(model.AbstractPluginClass):
    """Plugin with a fixed waiting time before and / or after the activity."""

    def __init__(self, ref, pre=None, post=None):
        self.ref, self.pre, self.post = ref, pre, post

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        if self.pre is None:
            return {}
        return activity.delay_processing(
            env, {"type": "plugin", "ref": self.ref}, activity_log, self.pre
        )

    def post_process(self, env, activity_log, activity, *args, **kwargs):
        if self.post is None:
            return {}
        return activity.delay_processing(
            env, {"type": "plugin", "ref": self.ref}, activity_log, self.post
        )


class SincePlugin(model.AbstractPluginClass):
    """Plugin which waits a part of the time since the pre-processing of the activity began."""

    def __init__(self, ref, part):
        self.ref, self.part = ref, part

    def post_process(self, env, activity_log, activity, start_preprocessing, start_activity, *args, **kwargs):
        return activity.delay_processing(
            env, {"type": "plugin", "ref": self.ref}, activity_log, (env.now - start_preprocessing) * self.part
        )


_types = {}


def make_type(*bases):
    if bases not in _types:
        _types[bases] = type("T" + "_".join(b.__name__ for b in bases), bases, {})
    return _types[bases]


class ObsMixin:
    """Environment of which every callback is observed."""

    rec = None

    def step(self):
        rec = self.rec
        if rec is not None and self._queue:
            event = self._queue[0][3]
            if event.callbacks:
                event.callbacks[:] = [rec.wrap(cb) for cb in event.callbacks]
            rec.count()
        super().step()


class ObsEnv(ObsMixin, simpy.Environment):
    pass


class ObsCpEnv(ObsMixin, CriticalPathEnvironment):
    pass


class RecList(list):
    """Logbook which reports its appends."""

    def __init__(self, items, rec, owner):
        super().__init__(items)
        self._rec, self._owner = rec, owner

    def append(self, item):
        super().append(item)
        self._rec.logged(self._owner, item)

    def extend(self, items):
        for item in items:
            self.append(item)

    def __iadd__(self, items):
        self.extend(items)
        return self

    def insert(self, i, item):
        super().insert(i, item)
        self._rec.logged(self._owner, item)


STATE = {"START": "START", "STOP": "STOP", "WAIT_START": "WS", "WAIT_STOP": "WP"}


def odd(name):
    return sum(map(ord, str(name))) % 2 == 1


class World:
    def __init__(self, scen, observe=True, env=None):
        self.scen = scen
        self.t0 = scen.get("t0", 0.0)
        # the same scenario in other units: powers of two, so that ties remain ties
        self.ts, self.am = scen.get("ts", 1), scen.get("as", 1)
        cls = ObsCpEnv if scen.get("env") == "cp" else ObsEnv
        if not observe:
            cls = CriticalPathEnvironment if scen.get("env") == "cp" else simpy.Environment
        self.env = env or cls(initial_time=self.t0)
        self.registry = {}
        self.events = [self.env.event() for _ in range(scen.get("nev", 0))]
        self.groups = {}
        self.objs = [self._obj(o) for o in scen["objs"]]
        self.acts = [None] * len(scen["acts"])
        for x in scen.get("srp", []):
            self._single_run(x)
        for i in self._build_order():
            if self.acts[i] is None:
                self.acts[i] = self._act(i, scen["acts"][i])
        for i, a in enumerate(scen["acts"]):
            for k, j in a.get("al", []):
                self.acts[i].additional_logs.append(self.objs[j] if k == "o" else self.acts[j])

    def _build_order(self):
        done, order = set(), []

        def visit(i):
            if i in done:
                return
            done.add(i)
            for j in self.scen["acts"][i].get("subs", []):
                visit(j)
            order.append(i)

        for i in range(len(self.scen["acts"])):
            visit(i)
        return order

    def num(self, x):
        how = self.scen.get("num")
        if how == "int" and x == int(x):
            return int(x)
        return np.float64(x) if how == "np" else x

    def sec(self, x):
        return self.num(x / 1000 * self.ts)

    def amount(self, x):
        return self.num(x / 1000 * self.am)

    def point(self, i):
        return shapely.geometry.Point(*self.scen["locs"][i])

    # ------------------------------------------------------------------ objects
    def _obj(self, o):
        bases, kw = [], {}
        v = o.get("v")
        if v:
            if v["k"] == "const":
                if "path" in v or "route" in v:
                    bases.append(core.movable.Routable)
                    if "path" in v:
                        kw["path"] = shapely.geometry.LineString(v["path"])
                    else:
                        kw["route"] = v["route"]
                        self.env.graph = self._graph(v)
                else:
                    bases.append(core.Movable)
                kw["v"] = v["v"] / 1000 / self.ts
            else:
                many = o.get("multi")
                bases.append(
                    core.MultiContainerDependentMovable if many else core.ContainerDependentMovable
                )
                total = sum(c[1] for c in o["conts"]) / 1000
                ve, vk = v["ve"], v["vk"]
                kw["compute_v"] = lambda x: (ve - vk * total * x) / 1000 / self.ts
            if "meo" in v:
                kw["engine_order"] = v["meo"] / 1000
        if o.get("proc"):
            bases.append(core.Processor)
        for key, mix, rate, man in (
            ("load", core.LoadingFunction, "loading_rate", "load_manoeuvring"),
            ("unload", core.UnloadingFunction, "unloading_rate", "unload_manoeuvring"),
        ):
            r = o.get(key)
            if r:
                bases.append(mix)
                if r["k"] == "const":
                    kw[rate] = r["num"] / r["den"] * self.am / self.ts
                    if r.get("man"):
                        kw[man] = self.sec(r["man"]) / 60
                else:
                    p, q, c = r["p"], r["q"], r["r"]
                    kw[rate] = lambda l0, l1, p=p, q=q, c=c: self.sec((p * l0 + q * max(l1, 0)) / self.am + c)
                    if r.get("man"):
                        kw[man] = self.sec(r["man"]) / 60
        conts = o.get("conts") or []
        if conts:
            if o.get("multi"):
                if core.MultiContainerDependentMovable not in bases:
                    bases.append(core.HasMultiContainer)
                kw["initials"] = [
                    {"id": c, "capacity": self.amount(cap), "level": self.amount(lvl)} for c, cap, lvl in conts
                ]
            else:
                if core.ContainerDependentMovable not in bases:
                    bases.append(core.HasContainer)
                kw["capacity"] = self.amount(conts[0][1])
                kw["level"] = self.amount(conts[0][2])
        if o.get("nres", 1):
            bases.append(core.HasResource)
            kw["nr_resources"] = o.get("nres", 1)
        if not v:
            bases.append(core.Locatable)
        bases += [core.Identifiable, core.Log]
        kw["geometry"] = self.point(o["loc"])
        kw["name"] = o["n"]
        if not self.scen.get("genid"):
            kw["id"] = o.get("id", "obj-" + o["n"])
        if odd(o["n"]):  # rely on the defaults
            for key, value in (("nr_resources", 1), ("level", 0), ("v", 1), ("engine_order", 1)):
                if key in kw and kw[key] == value:
                    del kw[key]
        return make_type(*bases)(env=self.env, **kw)

    def _graph(self, v):
        import networkx as nx

        g = nx.DiGraph()
        for n, xy in v["nodes"].items():
            g.add_node(n, geometry=shapely.geometry.Point(*xy))
        for a, b in zip(v["route"][:-1], v["route"][1:]):
            line = [v["nodes"][a]] + v.get("via", {}).get(a + b, []) + [v["nodes"][b]]
            g.add_edge(a, b, geometry=shapely.geometry.LineString(line))
        return g

    # ------------------------------------------------------------------ activities
    def expr(self, x):
        k = x["k"]
        if k == "list":
            return [self.expr(c) for c in x["ch"]]
        if k in ("and", "or"):
            return {k: [self.expr(c) for c in x["ch"]]}
        if k == "lvl":
            d = {"type": "container", "concept": self.objs[x["o"]]}
            if x.get("cid", "default") != "default" or x.get("explicit"):
                d["id_"] = x.get("cid", "default")
            if x["op"] in ("full", "empty"):
                d["state"] = x["op"]
            else:
                d["state"], d["level"] = x["op"], self.amount(x["lv"])
            return d
        if k == "act":
            return {"type": "activity", "state": "done", x.get("by", "name"): x["key"]}
        if k == "time":
            return {"type": "time", "start_time": self.t0 + self.sec(x["t"])}
        if k == "evt":
            return self.events[x["e"]]
        if k == "raw":
            return x["v"]
        raise KeyError(k)

    def _act(self, i, a):
        kw = dict(env=self.env, registry=self.registry, name=a["n"], id=a.get("id", "id-" + a["n"]))
        if self.scen.get("genid") and "id" not in a:
            del kw["id"]
        if a.get("st") is not None:
            kw["start_event"] = self.expr(a["st"])
        g = a.get("grp")
        if g is not None:
            kw["requested_resources"] = self.groups.setdefault(g, {})
        if a.get("keep"):
            kw["keep_resources"] = [self.objs[o] for o in a["keep"]]
            if len(a["keep"]) == 1 and odd(a["n"]):
                kw["keep_resources"] = kw["keep_resources"][0]
        bases = []
        for p in a.get("plug", []):
            if p["k"] == "delay":
                bases.insert(0, plugins.HasDelayPlugin)
                kw["delay_percentage"] = p["pct"]
            elif p["k"] == "wx":
                bases.append(plugins.HasWeatherPluginActivity)
                w = self.scen["wx"][p["wx"]]
                kw["metocean_criteria"] = plugins.WeatherCriterion(
                    name="wx",
                    condition="Hs",
                    **{("maximum" if w["mode"] == "max" else "minimum"): w["thr"]},
                    window_length=self.sec(w["len"]),
                    **({"window_delay": self.sec(w["delay"])} if w.get("delay") else {}),
                )
                kw["metocean_df"] = pd.DataFrame(
                    {"ts": [self.t0 + self.sec(t) for t in w["ts"]], "Hs": [float(v) for v in w["val"]]}
                )
        k = a["k"]
        dur = a.get("dur")
        if k == "basic":
            cls = model.BasicActivity
            kw["duration"] = self.sec(dur)
            if odd(a["n"]):
                kw["additional_logs"] = []
        elif k == "move":
            cls = model.MoveActivity
            kw.update(mover=self.objs[a["mv"]], destination=self.objs[a["ds"]])
            if dur is not None:
                kw["duration"] = self.sec(dur)
            if a.get("eo", 1000) != 1000:
                kw["engine_order"] = a["eo"] / 1000
        elif k == "shift":
            cls = model.ShiftAmountActivity
            kw.update(
                processor=self.objs[a["pc"]], origin=self.objs[a["og"]], destination=self.objs[a["ds"]]
            )
            if a.get("amt") is not None:
                kw["amount"] = self.amount(a["amt"])
            if dur is not None:
                kw["duration"] = self.sec(dur)
            if a.get("phase"):
                kw["phase"] = a["phase"]
            if a.get("cid", "default") != "default":
                kw["id_"] = a["cid"]
        else:
            kw["sub_processes"] = [self.acts[j] for j in a["subs"]]
            if k == "seq":
                cls = model.SequentialActivity
            elif k == "par":
                cls = model.ParallelActivity
            elif k == "while":
                cls = model.WhileActivity
                kw["condition_event"] = self.expr(a["cond"])
            elif k == "repeat":
                cls = model.RepeatActivity
                kw["repetitions"] = a["reps"]
        act = make_type(*bases, cls)(**kw) if bases else cls(**kw)
        for p in a.get("plug", []):
            if p["k"] == "since":
                act.register_plugin(plugin=SincePlugin(p["ref"], p["pct"] / 100), priority=p["pr"])
            if p["k"] == "fix":
                act.register_plugin(
                    plugin=FixPlugin(p["ref"], *(None if p.get(x) is None else self.sec(p[x]) for x in ("pre", "post"))), priority=p["pr"]
                )
        return act

    def _single_run(self, x):
        """The ready-made transport cycle; its activities are x["acts"] (4 steps, loop)."""
        a = self.scen["acts"]
        mv, ld, _, ul, loop = (a[i] for i in x["acts"])
        kw = {}
        if x.get("cond") is not None:
            kw["stop_event"] = self.expr(x["cond"])
        if loop.get("st") is not None:
            kw["start_event"] = self.expr(loop["st"])
        if x.get("group"):
            kw["requested_resources"] = self.groups.setdefault(mv["grp"], {})
        run, act = model.single_run_process(
            env=self.env,
            registry=self.registry,
            name=loop["n"],
            origin=self.objs[ld["og"]],
            destination=self.objs[ul["ds"]],
            mover=self.objs[mv["mv"]],
            loader=self.objs[ld["pc"]],
            unloader=self.objs[ul["pc"]],
            **kw,
        )
        for i, y in zip(x["acts"], list(run) + [act]):
            self.acts[i] = y

    # ------------------------------------------------------------------ externals
    def ext_process(self, i, x):
        env = self.env
        yield env.timeout(max(self.t0 + self.sec(x["at"]) - env.now, 0))
        if x["k"] == "hold":
            res = self.objs[x["o"]].resource
            req = res.request()
            yield req
            yield env.timeout(self.sec(x["dur"]))
            res.release(req)
        elif x["k"] in ("put", "get"):
            getattr(self.objs[x["o"]].container, x["k"])(self.amount(x["amt"]), x.get("cid", "default"))
        elif x["k"] == "fire":
            self.events[x["e"]].succeed()

    def start_externals(self, rec=None):
        for i, x in enumerate(self.scen.get("ext", [])):
            p = self.env.process(self.ext_process(i, x))
            if rec is not None:
                rec.ext[p] = i

    def register(self, batch):
        model.register_processes([self.acts[i] for i in batch])

    # ------------------------------------------------------------------ plain run
    def run_plain(self, until=None):
        """Run without recording."""
        self.start_externals()
        batches = self.scen.get("batches") or [{"acts": self.tops()}]
        stops = sorted(until or [])
        self.register(batches[0]["acts"])
        for t in stops:
            if self.t0 + self.sec(t) > self.env.now:
                self.env.run(until=self.t0 + self.sec(t))
        for b in batches[1:]:
            if b.get("at") is not None:
                if self.t0 + self.sec(b["at"]) > self.env.now:
                    self.env.run(until=self.t0 + self.sec(b["at"]))
            else:
                self.env.run()
            self.register(b["acts"])
        if self.scen.get("stop") is not None:
            self.env.run(until=self.t0 + self.sec(self.scen["stop"]))
        else:
            self.env.run()

    def tree(self, acts):
        return [j for i in acts for j in [i] + self.tree(self.scen["acts"][i].get("subs", []))]

    def tops(self):
        sub = {j for a in self.scen["acts"] for j in a.get("subs", [])}
        return [i for i in range(len(self.scen["acts"])) if i not in sub]


class Recorder:
    def __init__(self, world, max_events=30000):
        self.w = world
        self.env = world.env
        self.n = 0
        self.max_events = max_events
        self.ext = {}
        self.proc2act = {}
        self.cur = 0
        self.steps = []
        self.logs = []
        self.frozen = []
        self.rids = {}
        self.keep = []
        w = world
        self.conts = []  # (obj index, cid)
        for i, o in enumerate(w.scen["objs"]):
            for c in o.get("conts") or []:
                self.conts.append((i, c[0]))
        self.locs = {}
        for i, xy in enumerate(w.scen["locs"]):
            self.locs.setdefault((float(xy[0]), float(xy[1])), i + 1)
        self.aidx = {a.id: i + 1 for i, a in enumerate(w.acts)}
        self.aname = {a.name: i + 1 for i, a in enumerate(w.acts)}
        self.main = [None] * len(w.acts)
        self.ended = [True] * len(w.acts)
        self.last_now = self.env.now
        self.state = self.sample()
        for i, o in enumerate(w.objs):
            o.logbook = RecList(o.logbook, self, i + 1)
        for i, a in enumerate(w.acts):
            a.logbook = RecList(a.logbook, self, 1000 + i + 1)
        self.env.rec = self

    # ---------------------------------------------------------------- sampling
    def loc(self, o):
        g = o.geometry
        try:
            return self.locs.get((g.x, g.y), 0)
        except Exception:
            return 0

    def code(self, req):
        if req not in self.rids:
            self.keep.append(req)
            p = req.proc
            owner = self.proc2act.get(p, 0) or (EXT0 + self.ext[p] if p in self.ext else 0)
            self.rids[req] = (len(self.rids) + 1) * OWN + owner
        return self.rids[req]

    def levels(self, suffix=""):
        return [
            ms(self.w.objs[i].container.get_level(c + suffix) / self.w.am) for i, c in self.conts
        ]

    def sample(self):
        w = self.w
        return dict(
            lv=self.levels(),
            rv=self.levels("_reservations"),
            ps=[self.loc(o) for o in w.objs],
            rs=[
                (
                    [self.code(r) for r in o.resource.users],
                    [self.code(r) for r in o.resource.queue],
                )
                if hasattr(o, "resource")
                else ([], [])
                for o in w.objs
            ],
            fi=[e.triggered for e in w.events],
        )

    def actor(self, cb):
        p = getattr(cb, "__self__", None)
        if isinstance(p, simpy.events.Process):
            if p in self.ext:
                return EXT0 + self.ext[p]
            a = self.proc2act.get(p)
            if a is None:
                for i, act in enumerate(self.w.acts):
                    if getattr(act, "main_process", None) is p:
                        a = i + 1
                self.proc2act[p] = a or 0
            return a or 0
        return 0

    def wrap(self, cb):
        def wrapped(event):
            self.cur = self.actor(cb)
            try:
                cb(event)
            finally:
                self.flush("step")
                self.cur = 0

        return wrapped

    def count(self):
        self.n += 1
        if self.n > self.max_events:
            raise Hang("too many events")

    def logged(self, owner, entry):
        self.frozen.append((owner, entry, copy.deepcopy(entry)))
        lab = entry.get("ActivityLabel") or {}
        typ = lab.get("type", "")
        ref = lab.get("ref", "")
        st = entry.get("ObjectState") or {}
        cl = st.get("container level")
        lv, tl, p, tp = [], [], 0, 0
        if owner < 1000:
            o = self.w.objs[owner - 1]
            sc = self.w.scen["objs"][owner - 1]
            for k, (i, c) in enumerate(self.conts):
                if i == owner - 1:
                    tl.append(ms(o.container.get_level(c) / self.w.am))
                    try:
                        v = cl[c] if sc.get("multi") else cl
                        lv.append(ms(v / self.w.am))
                    except Exception:
                        lv.append(-999999)
            tp = self.loc(o)
            g = st.get("geometry")
            try:
                p = self.locs.get((g.x, g.y), 0)
            except Exception:
                p = -1
            if sc.get("multi") and isinstance(cl, dict) and len(cl) != len(tl):
                lv.append(-999998)
        self.logs.append(
            dict(
                o=owner,
                a=self.aidx.get(entry.get("ActivityID"), 0),
                s=STATE.get(entry.get("ActivityState"), "?"),
                ty={"": "", "subprocess": "sub", "additional log": "add", "plugin": "plug"}.get(typ, "?"),
                rf=self.aidx.get(ref, 0),
                rs=str(ref) if typ in ("plugin", "subprocess") and ref not in self.aidx else "",
                t=ms(((entry["Timestamp"] - EPOCH).total_seconds() - self.w.t0) / self.w.ts),
                lv=lv,
                tl=tl,
                p=p,
                tp=tp,
            )
        )

    def begins_ends(self):
        bg, en, bad = [], [], []
        for i, a in enumerate(self.w.acts):
            p = getattr(a, "main_process", None)
            if p is not None and p is not self.main[i]:
                self.main[i] = p
                self.proc2act[p] = i + 1
                self.ended[i] = False
                bg.append(i + 1)
        for i, a in enumerate(self.w.acts):
            p = self.main[i]
            if p is not None and not self.ended[i] and p.triggered:
                self.ended[i] = True
                (en if p.ok else bad).append(i + 1)
        return bg, en, bad

    def flush(self, kind, force=False, **extra):
        bg, en, bad = self.begins_ends()
        new = self.sample()
        old, self.state = self.state, new
        rec = dict(
            k=kind,
            t=ms((self.env.now - self.w.t0) / self.w.ts),
            tk=bool(self.env.now != self.last_now),
            a=self.cur,
            lg=self.logs,
            lv=[[i + 1, v] for i, (u, v) in enumerate(zip(old["lv"], new["lv"])) if u != v],
            rv=[[i + 1, v] for i, (u, v) in enumerate(zip(old["rv"], new["rv"])) if u != v],
            ps=[[i + 1, v] for i, (u, v) in enumerate(zip(old["ps"], new["ps"])) if u != v],
            rs=[[i + 1, v[0], v[1]] for i, (u, v) in enumerate(zip(old["rs"], new["rs"])) if u != v],
            fi=[i + 1 for i, (u, v) in enumerate(zip(old["fi"], new["fi"])) if v and not u],
            bg=bg,
            en=en,
            bad=bad,
            x="",
        )
        rec.update(extra)
        self.logs = []
        if force or any(
            rec[f] for f in ("lg", "lv", "rv", "ps", "rs", "fi", "bg", "en", "bad")
        ):
            self.last_now = self.env.now
            self.steps.append(rec)

    # ---------------------------------------------------------------- driving
    def drive(self):
        w = self.w
        scen = w.scen
        batches = scen.get("batches") or [{"acts": w.tops()}]
        w.start_externals(self)
        crash = None
        try:
            for bi, b in enumerate(batches):
                if bi:
                    if b.get("at") is not None:
                        if w.t0 + w.sec(b["at"]) > self.env.now:
                            self.env.run(until=w.t0 + w.sec(b["at"]))
                    else:
                        self.env.run()
                        self.flush("idle", force=True)
                    if not all(self.ended[i] for i in w.tree(b["acts"])):
                        break  # what has not finished cannot be registered again
                self.cur = 0
                try:
                    w.register(b["acts"])
                finally:
                    self.flush("reg", force=True, a=bi + 1)
                if bi == 0:
                    for t in scen.get("until", []):
                        if w.t0 + w.sec(t) > self.env.now:
                            self.env.run(until=w.t0 + w.sec(t))
            if scen.get("stop") is not None:
                self.env.run(until=w.t0 + w.sec(scen["stop"]))
            else:
                self.env.run()
        except Hang:
            crash = "hang"
        except Exception as e:  # the exception type decides what it may mean
            crash = type(e).__name__
            self.error = repr(e)[:300]
        mut = sum(1 for _, e, f in self.frozen if not same(e, f))
        kind = "crash" if crash else ("stop" if scen.get("stop") is not None else "fin")
        self.env.rec = None
        self.flush(kind, force=True, x=crash or "", mut=mut)
        for s in self.steps:
            s.setdefault("mut", 0)
        return self.steps


def same(a, b):
    try:
        return repr(a) == repr(b)
    except Exception:
        return False


def record(scen, seconds=30):
    """Run a scenario; returns (world, recorder)."""

    def alarm(*_):
        raise Hang("time")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        w = World(scen)
        r = Recorder(w)
        r.error = ""
        r.drive()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return w, r
