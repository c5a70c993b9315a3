"""Small models for the demonstrations."""
import logging
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import shapely.geometry as sg  # noqa: E402
import simpy  # noqa: E402

import openclsim.core as core  # noqa: E402
import openclsim.model as model  # noqa: E402
import openclsim.plugins as plugins  # noqa: E402

Site = type("Site", (core.Identifiable, core.Log, core.Locatable, core.HasContainer, core.HasResource), {})
MSite = type("MSite", (core.Identifiable, core.Log, core.Locatable, core.HasMultiContainer, core.HasResource), {})
Vessel = type(
    "Vessel",
    (
        core.Identifiable, core.ContainerDependentMovable, core.Processor, core.HasResource, core.LoadingFunction,
        core.UnloadingFunction,
    ),
    {},
)  # fmt: skip
Crane = type(
    "Crane",
    (core.Identifiable, core.Log, core.Locatable, core.Processor, core.HasResource, core.LoadingFunction, core.UnloadingFunction),
    {},
)  # fmt: skip


class W:
    """A simulation and its objects."""

    def __init__(self, t0=0):
        self.env = simpy.Environment(initial_time=t0)
        self.reg = {}
        self.kw = dict(env=self.env, registry=self.reg)

    def site(self, name, cap=100, level=0, x=0, res=1, **k):
        return Site(env=self.env, name=name, ID=name, geometry=sg.Point(x, 0), capacity=cap, level=level, nr_resources=res, **k)

    def msite(self, name, initials, x=0, res=1, **k):
        return MSite(env=self.env, name=name, ID=name, geometry=sg.Point(x, 0), initials=initials, store_capacity=4, nr_resources=res, **k)

    def vessel(self, name, cap=10, level=0, x=0, v=None, res=1, rate=1, **k):
        return Vessel(
            env=self.env, name=name, ID=name, geometry=sg.Point(x, 0), capacity=cap, level=level, nr_resources=res,
            compute_v=v or (lambda f: 10), loading_rate=k.pop("lrate", rate), unloading_rate=k.pop("urate", rate), **k,
        )  # fmt: skip

    def crane(self, name, x=0, res=1, rate=1, **k):
        return Crane(
            env=self.env, name=name, ID=name, geometry=sg.Point(x, 0), nr_resources=res, loading_rate=rate, unloading_rate=rate, **k
        )

    def basic(self, name, dur, cls=model.BasicActivity, **k):
        return cls(name=name, ID=name, duration=dur, **self.kw, **k)

    def move(self, name, mover, dest, **k):
        return model.MoveActivity(name=name, ID=name, mover=mover, destination=dest, **self.kw, **k)

    def shift(self, name, proc, org, dest, **k):
        return model.ShiftAmountActivity(name=name, ID=name, processor=proc, origin=org, destination=dest, **self.kw, **k)

    def seq(self, name, subs, **k):
        return model.SequentialActivity(name=name, ID=name, sub_processes=subs, **self.kw, **k)

    def par(self, name, subs, **k):
        return model.ParallelActivity(name=name, ID=name, sub_processes=subs, **self.kw, **k)

    def loop(self, name, subs, cond, **k):
        return model.WhileActivity(name=name, ID=name, sub_processes=subs, condition_event=cond, **self.kw, **k)

    def repeat(self, name, subs, n, **k):
        return model.RepeatActivity(name=name, ID=name, sub_processes=subs, repetitions=n, **self.kw, **k)

    def run(self, *acts, until=None):
        model.register_processes(list(acts))
        self.env.run(until=until)
        return self.env.now


def done(name):
    return dict(type="activity", state="done", name=name)


def level(site, op, value, **k):
    return dict(type="container", concept=site, state=op, level=value, **k)


def at(t):
    return dict(type="time", start_time=t)


def log(x, states=("START", "STOP"), label=None):
    """[(time in seconds, state)] of the entries of the log of x itself (or with the label)."""
    return [
        (secs(e), e["ActivityState"])
        for e in x.logbook
        if e["ActivityState"] in states and (e["ActivityLabel"] or {}).get("ref") == label
    ]


def secs(e):
    import calendar

    t = e["Timestamp"]
    return calendar.timegm(t.timetuple()) + t.microsecond / 1e6


def states(x):
    return [(secs(e), e["ActivityState"], e["ActivityLabel"].get("ref"), e["ObjectState"]) for e in x.logbook]
