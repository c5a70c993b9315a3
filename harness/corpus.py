"""Hand-written scenarios, by property: sizes which random models do not reach."""


def base(name, acts, objs=(), **more):
    objs = list(objs) or [dict(n="o0", loc=0, conts=[], nres=1)]
    acts = [dict(a, n=a.get("n", f"a{i}")) for i, a in enumerate(acts)]
    return dict(name=name, locs=[[4.0, 52.0]], objs=objs, acts=acts, stop=1900000000, **more)


def basic(dur, **kw):
    return dict(k="basic", dur=dur, **kw)


def many_iterations(n):
    return [
        base(f"long-repeat-{n}", [basic(1000), dict(k="repeat", subs=[0], reps=n)]),
        base(f"long-while-{n}", [basic(1000), dict(k="while", subs=[0], cond=dict(k="time", t=1000 * n - 500))]),
    ]


def wide(n):
    subs = [basic(1000 * (1 + i % 5)) for i in range(n)]
    return [
        base(f"wide-par-{n}", subs + [dict(k="par", subs=list(range(n)))]),
        base(f"wide-seq-{n}", subs + [dict(k="seq", subs=list(range(n)))]),
    ]


def deep(n):
    acts = [basic(1000)]
    for i in range(n):
        acts.append(dict(k=["seq", "par", "seq", "repeat"][i % 4], subs=[i]))
        if acts[-1]["k"] == "repeat":
            acts[-1]["reps"] = 2 if i < 8 else 1
    return [base(f"deep-{n}", acts)]


def chain(n):
    """Every activity refers to the one that is registered after it."""
    acts = [basic(500, st=dict(k="act", key=f"a{i + 1}")) for i in range(n - 1)] + [basic(1000)]
    return [base(f"chain-{n}", acts)]


def queue(n):
    """A long queue for one crane and for one site."""
    objs = [
        dict(n="o0", loc=0, conts=[["default", 1000000, 500000]], nres=n, proc=True, load=dict(k="const", num=1, den=1), unload=dict(k="const", num=1, den=1)),
        dict(n="o1", loc=0, conts=[["default", 1000000, 0]], nres=1),
        dict(n="o2", loc=0, conts=[], nres=1, proc=True, load=dict(k="const", num=1, den=1), unload=dict(k="const", num=1, den=1)),
    ]
    acts = [
        dict(k="shift", pc=2 if i % 2 else 0, og=0, ds=1, phase="loading", amt=1000 * (1 + i % 3), dur=1000 + 500 * (i % 2))
        for i in range(n)
    ]
    return [base(f"queue-{n}", acts, objs)]


def one_sample():
    """Metocean data of a single moment."""
    out = []
    for n, (val, at) in enumerate([(0, 0), (0, 2000), (2, 0), (2, 2000)]):
        w = dict(ts=[1000], val=[val], mode="max", thr=1, len=0, delay=0)
        s = base(f"sample-{n}", [basic(1000, plug=[dict(k="wx", wx=0)], st=dict(k="time", t=at))], wx=[w])
        out.append(dict(s, stop=100000))
    return out


def scenarios(prop, tier="quick"):
    q = tier == "quick"
    return dict(
        C03=queue(40 if q else 90),
        C05=wide(60)[1:] + deep(12),
        C06=wide(60)[:1] + deep(12),
        C07=many_iterations(1100 if q else 3000),
        C08=chain(130),
        C13=queue(30),
        C15=one_sample(),
        C16=chain(60) + queue(24) + deep(10),
        C20=chain(130) + deep(14),
        C30=many_iterations(300) + chain(130),
    ).get(prop, [])
