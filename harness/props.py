"""Which profiles and which guards of the specification decide which property."""

# guards that fail every property: the run died or could not be understood
ALWAYS = {"crash", "hang", "time.backward", "spec.uninterpretable"}

LATE = {
    "late.condition", "late.top", "late.par", "late.seq", "late.loop", "late.acquire", "late.start",
    "late.end", "late.stop", "late.content", "late.space", "late.join", "late.next", "late.weather",
    "late.plugin", "late.basic", "late.move", "late.shift", "gate.late", "res.idle",
}  # fmt: skip

PROPS = {
    "C01": dict(
        custom=[("design", "predict")],
        profiles=dict(cycle=60, shift=90, extern=50, multi=60, refuse=30),
        guards={"inv.conserved", "level.unexplained", "shift.credit", "shift.amount", "shift.nothing"},
    ),
    "C02": dict(
        custom=[("design", "predict")],
        profiles=dict(crowd=140, tight=60, extern=40, cycle=30, multi=150),
        guards={"level.bounds", "shift.start-without-content", "late.content", "late.space", "late.shift"},
    ),
    "C03": dict(
        custom=[("design", "predict")],
        profiles=dict(shift=60, tight=100, extern=60, keep=60, cycle=30, move=30),
        guards={"res.capacity", "res.fifo", "res.idle", "res.request", "use.not-held", "late.acquire"},
    ),
    "C04": dict(
        custom=[("design", "predict")],
        profiles=dict(keep=120, shift=60, extern=60, cycle=30, again=30),
        guards={"res.release", "res.not-released", "use.not-held", "res.request"},
    ),
    "C05": dict(
        custom=[("design", "predict")],
        profiles=dict(tree=150, keep=40, again=60, cycle=40),
        guards={
            "seq.stop", "seq.log", "gate.parent", "gate.late", "late.seq", "late.loop", "late.next",
            "inv.nested", "loop.log", "loop.stop", "end.phase",
        },
    ),
    "C06": dict(
        custom=[("design", "predict")],
        profiles=dict(tree=220, again=60, multi=40),
        guards={"par.stop", "par.log", "late.par", "late.join", "gate.parent", "gate.late", "inv.nested"},
    ),
    "C07": dict(
        custom=[("design", "predict")],
        profiles=dict(tree=120, loops=110, script=160, cycle=40, again=40),
        guards={
            "loop.stop-early", "loop.extra", "loop.stop", "loop.log", "loop.not-registered", "reg.by-loop",
            "late.loop", "late.next", "inv.nested",
        },
    ),
    "C08": dict(
        custom=[("design", "predict")],
        profiles=dict(tree=120, gates=120, script=120, names=100, cycle=30, slices=30),
        guards={"gate.parent", "gate.condition", "gate.wait-log", "gate.wait-time", "gate.late", "late.condition", "late.top"},
    ),
    "C09": dict(
        custom=[("design", "predict")],
        profiles=dict(shift=90, crowd=90, tight=100, extern=40, cycle=40, multi=50),
        guards={"shift.amount", "late.acquire", "shift.duration", "shift.credit", "late.shift", "shift.start-without-content", "late.content"},
    ),
    "C10": dict(
        custom=[("design", "predict")],
        profiles=dict(move=150, route=100, cycle=60, multi=40),
        guards={"move.jump", "move.end", "late.move"},
    ),
    "C11": dict(
        profiles=dict(tree=80, cycle=40, shift=60, extern=30, multi=30, move=30, weather=20),
        guards={
            "log.start-phase", "log.stop-phase", "log.time", "log.unexplained", "log.ref", "log.chronology",
            "log.missing", "shift.stop", "par.log", "seq.log", "loop.log",
        },
    ),
    "C12": dict(
        profiles=dict(cycle=60, shift=80, extern=40, multi=60, move=40, tree=20),
        guards={"snap.level", "snap.position", "snap.before", "snap.changed"},
    ),
    "C13": dict(
        custom=[("design", "predict")],
        profiles=dict(shift=110, cycle=60, multi=60, extern=40, again=20, keep=20),
        guards={"resv.sum"},
    ),
    "C14": dict(
        custom=[("design", "predict")],
        profiles=dict(plugs=200, tree=60, shift=40, weather=20),
        guards={
            "plug.order", "plug.time", "plug.before-start", "plug.after-stop", "late.plugin", "end.phase",
            "late.start", "late.end", "plug.weather", "log.start-phase", "log.stop-phase",
        },
    ),
    "C15": dict(
        design=[("Weather", "Weather", "WeatherBig")],
        profiles=dict(weather=120, wxenum=400),
        guards={"plug.weather", "late.weather", "late.start", "plug.order", "log.start-phase"},
    ),
    "C16": dict(
        custom=[("design", "predict")],
        profiles=dict(crowd=80, tight=60, wake=80, extern=40, shift=40, tree=50, gates=50, keep=30, cycle=20),
        guards=LATE,
    ),
    "C17": dict(
        custom=[("repro", "compare")],
        profiles=dict(slices=80),
        guards=LATE,
    ),
    "C18": dict(
        design=[("ContainerEvents", "ContainerEvents", "ContainerEventsBig")],
        custom=[("unit", "container_events")],
        profiles=dict(gates=60, script=60, wake=60, cycle=30, extern=40, multi=30),
        guards={"late.condition", "gate.condition", "loop.stop-early", "loop.extra", "late.content", "late.space", "late.shift"},
    ),
    "C19": dict(
        custom=[("exprs", "expressions")],
        profiles=dict(gates=100, loops=80, script=80, slices=20),
        guards={
            "late.condition", "late.top", "gate.condition", "gate.late", "loop.stop-early", "loop.extra", "loop.stop",
        },
    ),
    "C20": dict(
        custom=[("forest", "forests")],
        profiles=dict(again=140, names=100, tree=40, loops=40),
        guards={
            "reg.unfinished", "reg.batch", "reg.by-loop", "loop.not-registered", "gate.parent", "gate.late",
            "late.top", "late.seq", "late.par", "late.loop", "late.next", "late.join", "late.condition",
            "gate.condition", "inv.nested", "seq.stop", "par.stop", "end.phase", "spec.uninterpretable",
        },
    ),
    "C23": dict(
        custom=[("critical", "graphs"), ("tables", "check")],
    ),
    "C21": dict(custom=[("tables", "check")]),
    "C22": dict(custom=[("tables", "check")]),
    "C24": dict(custom=[("tables", "check")]),
    "C25": dict(custom=[("tables", "check")]),
    "C26": dict(custom=[("tables", "check")]),
    "C27": dict(
        custom=[("design", "predict")],
        profiles=dict(multi=320),
        guards={
            "inv.conserved", "level.unexplained", "level.bounds", "shift.amount", "shift.credit", "shift.duration",
            "shift.nothing", "shift.start-without-content", "resv.sum", "gate.condition", "late.condition",
            "late.content", "late.space", "loop.extra", "loop.stop-early", "snap.level", "snap.before",
        },
    ),
    "C28": dict(
        profiles=dict(single=260),
        guards=LATE | {
            "cycle.end", "move.end", "move.jump", "loop.extra", "loop.stop-early", "loop.stop", "loop.log",
            "gate.parent", "gate.condition", "inv.conserved", "inv.nested", "shift.amount", "shift.credit",
            "shift.duration", "shift.apart", "level.unexplained", "level.bounds", "use.not-held", "reg.batch",
            "reg.by-loop", "res.capacity", "res.request", "res.release", "res.not-released",
        },
    ),
    "C29": dict(
        custom=[("refuse", "attempts"), ("design", "predict")],
        profiles=dict(refuse=240, apart=140),
        guards={"shift.apart", "shift.nothing", "level.unexplained", "level.bounds", "move.jump", "move.end", "inv.conserved"},
    ),
    "C30": dict(
        custom=[("design", "predict")],
        profiles=dict(tree=160, plugs=60, gates=60, cycle=30),
        guards=LATE | {"basic.duration"},
    ),
    "C31": dict(custom=[("design", "predict")]),
    "C32": dict(custom=[("sail", "sailing")]),
}  # fmt: skip

_TRACE = "TLA+ (TLC): trace validation of recorded executions against the transition system OclCore"
_NOTE = (
    "Every kernel callback of seeded random models, run with the real code, is replayed by TLC through the "
    "specification; safety over the executions explored, not all models. Trusts the recorder (simpy callbacks and "
    "public state) and the integer abstraction (1/1000, tolerance 2)."
)
_PREDICT = "; model checking of all interleavings of small models (OclDesign), the real outcome compared with TLC's outcomes"
_PNOTE = (
    " In addition TLC explores all interleavings of small models: the invariants hold in every state and the real "
    "outcome must be among the outcomes found."
)
_TAB = "TLA+ (TLC): tables, exports and charts of real simulations judged by the operators of Tables.tla over the recorded logs"
_TNOTE = (
    "What each table must contain is a function (TLA+) of the logs; it is compared with what the real code returned "
    "for seeded random models. Bounded by the models explored."
)
_OWN = {
    "C15": (
        "TLA+ (TLC): the window arithmetic model checked against the meaning of 'first workable instant' (Weather.tla), trace validation of real runs with enumerated and random metocean data",
        "All short series within the bounds of Weather.cfg for the specification; the code is bound to it by trace validation of 400 enumerated and 120 random series per run.",
    ),
    "C17": (
        "TLA+ (TLC): the stories of one model run in several ways compared by Same.tla (hyperproperty); trace validation of sliced runs",
        "Fresh objects, other hash seeds (separate processes), slices, other start times, recording environment; over seeded random models.",
    ),
    "C18": (
        "TLA+ (TLC): mechanism model checked against the requirement (ContainerEvents.tla); TLC's histories replayed on the real container; trace validation",
        "All histories up to the depth of the configuration for the specification, enumerated and sampled histories replayed on the real component.",
    ),
    "C19": (
        "TLA+ (TLC): all condition expressions of bounded size with their meaning (Expr.tla) replayed on the real parser; trace validation",
        "Exhaustive for small expressions, sampled for larger ones; meanings computed by TLC.",
    ),
    "C20": (
        "TLA+ (TLC): all small activity models (Forest.tla) run with the real code and validated against OclCore; trace validation of repeated registrations",
        "Forests of 3 activities (all in the thorough tier, a fifth in the quick one), sampled ones of 4; random larger models.",
    ),
    "C23": (
        "TLA+ (TLC): all small sets of runs and links with two definitions of the critical path (CriticalPath.tla) replayed on the real graph; tables of real simulations judged by Tables.tla",
        "Exhaustive for 3 runs, sampled for 4 and 5, and seeded random simulations.",
    ),
}
for _p in ("C21", "C22", "C24", "C25", "C26"):
    _OWN[_p] = (_TAB, _TNOTE)
_OWN["C31"] = (
    "TLA+ (TLC): model checking of all interleavings of small models (OclDesign); the outcome of the real code must be one of the outcomes found by TLC",
    "All interleavings of each seeded small model (up to 6 activities); models over the state budget are abandoned. Trusts the translation of scenarios (tla.py).",
)
_OWN["C29"] = (
    "TLA+ (TLC): all attempts at impossible and possible work (Refuse.tla) made with the real code" + _PREDICT + "; trace validation",
    "All attempts of Refuse.tla; random models with impossible work, validated step by step and compared with all outcomes of OclDesign.",
)
_OWN["C32"] = (
    "TLA+ (TLC): histories of direct sailing commands (Sail.tla) replayed on the real vessel",
    "All commands, graphs, speeds and pass-edge functions within the bounds of Sail.cfg; sampled pairs of commands.",
)
# property -> (technique, level note); the properties without a check are listed in NOT_YET
CLAIMS = {
    p: _OWN.get(p) or ((_TRACE + _PREDICT, _NOTE + _PNOTE) if "custom" in PROPS[p] else (_TRACE, _NOTE)) for p in PROPS
}
NOT_YET = {}
