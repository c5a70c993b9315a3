"""Seeded random scenarios, by profile.

Durations are multiples of 1/8 s and amounts multiples of 1/2 unit, so that the real code
computes with exact numbers and ties between activities are frequent.
"""
import random

PLACES = [[4.10, 52.10], [4.11, 52.10], [4.10, 52.105], [4.2, 52.15], [3.9, 52.0]]


class G:
    def __init__(self, rnd):
        self.r = rnd
        self.locs = [list(p) for p in PLACES[: rnd.randint(2, 4)]]
        self.objs, self.acts, self.ext, self.wx = [], [], [], []
        self.nev = 0
        self.extra = {}

    # ---------------------------------------------------------------- basics
    def dur(self, zero=True):
        r = self.r
        x = r.random()
        if zero and x < 0.12:
            return 0
        if x < 0.7:
            return 1000 * r.randint(1, 6)
        return 125 * r.randint(1, 80)

    def amt(self, hi):
        return 500 * self.r.randint(1, max(1, hi // 500))

    def obj(self, **kw):
        kw.setdefault("n", f"o{len(self.objs)}")
        self.objs.append(kw)
        return len(self.objs) - 1

    def act(self, **kw):
        kw.setdefault("n", f"a{len(self.acts)}")
        self.acts.append(kw)
        return len(self.acts) - 1

    def rate(self, fn=False, cb=0.25):
        r = self.r
        man = r.choice([0, 0, 0, 30000, 60000]) if r.random() < 0.5 else 0
        if r.random() < cb:
            return dict(k="fn", p=125 * r.randint(0, 4), q=125 * r.randint(0, 4), r=1000 + 500 * r.randint(0, 4), man=man)
        num, den = r.choice([(1, 1), (2, 1), (4, 1), (1, 2), (1, 4)])
        return dict(k="const", num=num, den=den, man=man)

    def site(self, loc=None, level=None, cap=None, nres=None, proc=None, multi=0):
        r = self.r
        cap = cap or 1000 * r.randint(2, 16)
        lv = level if level is not None else r.choice([0, cap, 500 * r.randint(0, cap // 500)])
        if multi:
            conts = []
            for k in range(multi):
                cp = 1000 * r.randint(2, 12)
                conts.append([f"c{k}", cp, r.choice([0, cp, 500 * r.randint(0, cp // 500)])])
        else:
            conts = [["default", cap, min(lv, cap)]]
        o = dict(
            loc=r.randrange(len(self.locs)) if loc is None else loc,
            conts=conts,
            nres=nres or r.choice([1, 1, 2, 3]),
        )
        if multi:
            o["multi"] = True
        if proc if proc is not None else r.random() < 0.5:
            o.update(proc=True, load=self.rate(), unload=self.rate())
        return self.obj(**o)

    def vessel(self, loc=None, multi=0, cap=None, level=0, nres=1, cdm=None, conts=True):
        r = self.r
        cap = cap or 1000 * r.randint(1, 6)
        if multi:
            cl = [[f"c{k}", 1000 * r.randint(1, 6), 0] for k in range(multi)]
        else:
            cl = [["default", cap, level]]
        if not conts:
            cl = []
        v = dict(k="const", v=1000 * r.randint(1, 12))
        if cl and (cdm if cdm is not None else r.random() < 0.5):
            ve = 1000 * r.randint(4, 12)
            tot = sum(c[1] for c in cl) // 1000
            v = dict(k="fill", ve=ve, vk=max(1, (ve - 1000) // tot // r.choice([1, 2]) // 40) * 40)
        o = dict(loc=r.randrange(len(self.locs)) if loc is None else loc, conts=cl, nres=nres, v=v)
        if multi:
            o["multi"] = True
        if cl:
            o.update(proc=True, load=self.rate(), unload=self.rate())
        return self.obj(**o)

    def move(self, v, d, **kw):
        r = self.r
        if r.random() < 0.35 and "dur" not in kw:
            kw["dur"] = self.dur()
        elif r.random() < 0.3:
            kw["eo"] = r.choice([500, 800, 250])
        return self.act(k="move", mv=v, ds=d, **kw)

    def shift(self, pc, og, ds, phase, **kw):
        r = self.r
        if "amt" not in kw and r.random() < 0.35:
            kw["amt"] = self.amt(6000)
        if "dur" not in kw and r.random() < 0.4:
            kw["dur"] = self.dur()
        return self.act(k="shift", pc=pc, og=og, ds=ds, phase=phase, **kw)

    # ---------------------------------------------------------------- decorations
    def plug(self, n=2):
        r = self.r
        out = []
        for k in range(r.randint(1, n)):
            x = r.random()
            if x < 0.35 and not any(p["k"] == "delay" for p in out):
                out.append(dict(k="delay", pct=r.choice([10, 25, 50, 100])))
            elif x > 0.85:
                out.append(dict(k="since", ref=f"s{k}", pr=r.randint(0, 5), pct=r.choice([25, 50, 100])))
            else:
                out.append(
                    dict(
                        k="fix",
                        ref=f"p{k}",
                        pr=r.choice([0, 1, 2, 3, 4, 5]),
                        pre=r.choice([None, 0, self.dur()]),
                        post=r.choice([None, 0, self.dur()]),
                    )
                )
        return out

    def cond(self, depth=1, acts=(), conts=True, avoid=()):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.35:
            return dict(
                k=r.choice(["and", "or", "or", "list"]),
                ch=[self.cond(depth - 1, acts, conts, avoid) for _ in range(r.randint(2, 3))],
            )
        acts = [a for a in acts if a not in avoid]
        kinds = ["time"] + (["act"] * 3 if acts else []) + (["lvl"] * 3 if conts and self.cells() else []) + (["evt"] if self.r.random() < 0.4 else [])
        k = r.choice(kinds)
        if k == "time":
            return dict(k="time", t=self.when())
        if k == "act":
            a = r.choice(acts)
            if r.random() < 0.3:
                return dict(k="act", by="ID", key=self.acts[a].get("id", "id-" + self.acts[a]["n"]))
            return dict(k="act", key=self.acts[a]["n"])
        if k == "evt":
            if self.nev < 2 or r.random() < 0.3:
                self.nev += 1
                self.ext.append(dict(k="fire", e=self.nev - 1, at=self.when()))
                return dict(k="evt", e=self.nev - 1)
            return dict(k="evt", e=r.randrange(self.nev))
        o, c = r.choice(self.cells())
        op = r.choice(["full", "empty", "ge", "gt", "le", "lt"])
        cid = c[0]
        if r.random() < 0.12:
            cid += "_reservations"
        return dict(k="lvl", o=o, cid=cid, op=op, lv=500 * r.randint(0, c[1] // 500))

    def when(self):
        return 1000 * self.r.randint(0, 30)

    def cells(self):
        return [(i, c) for i, o in enumerate(self.objs) for c in o.get("conts") or []]

    def logs_for(self, k):
        r = self.r
        out = [["o", r.randrange(len(self.objs))]] if self.objs else []
        if self.acts and r.random() < 0.3:
            out.append(["a", r.randrange(len(self.acts))])
        return out

    # ---------------------------------------------------------------- templates
    def cycle(self, v, a, b, loop=None, order=None, cond=None, **kw):
        """Transport cycle of vessel v from site a to site b."""
        r = self.r
        mk = [
            lambda: self.move(v, a),
            lambda: self.shift(v, a, v, "loading", **kw),
            lambda: self.move(v, b),
            lambda: self.shift(v, v, b, "unloading", **kw),
        ]
        subs = [f() for f in mk]
        if r.random() < 0.25:
            subs.insert(r.randint(0, 4), self.act(k="basic", dur=self.dur()))
        loop = loop or r.choice(["while", "while", "repeat", "seq"])
        d = dict(k=loop, subs=subs)
        if loop == "while":
            cid = kw.get("cid", "default")
            d["cond"] = cond or dict(
                k="or", ch=[dict(k="lvl", o=a, op="empty", cid=cid), dict(k="lvl", o=b, op="full", cid=cid)]
            )
        if loop == "repeat":
            d["reps"] = r.randint(1, 3)
        return self.act(**d)

    def single_run(self, v, a, b, grp):
        """The ready-made transport cycle."""
        r = self.r
        ld = r.choice([v, a]) if self.objs[a].get("proc") else v
        ul = r.choice([v, b]) if self.objs[b].get("proc") else v
        n = f"cycle{grp}"
        i0 = self.act(k="move", n=f"{n} sailing empty", mv=v, ds=a, grp=grp)
        i1 = self.act(k="shift", n=f"{n} loading", pc=ld, og=a, ds=v, phase="loading", grp=grp)
        i2 = self.act(k="move", n=f"{n} sailing filled", mv=v, ds=b, grp=grp)
        i3 = self.act(k="shift", n=f"{n} unloading", pc=ul, og=v, ds=b, phase="unloading", grp=grp)
        x = dict()
        default = dict(k="list", ch=[dict(k="or", ch=[dict(k="lvl", o=a, op="empty"), dict(k="lvl", o=b, op="full")])])
        if r.random() < 0.4:
            x["cond"] = r.choice(
                [
                    dict(k="list", ch=[dict(k="lvl", o=b, op="ge", lv=self.amt(self.objs[b]["conts"][0][1]))]),
                    dict(k="or", ch=[dict(k="time", t=self.when()), dict(k="lvl", o=a, op="empty"), dict(k="lvl", o=b, op="full")]),
                    dict(k="lvl", o=a, op="lt", lv=self.amt(self.objs[a]["conts"][0][1])),
                ]
            )
        d = dict(k="while", n=n, subs=[i0, i1, i2, i3], cond=x.get("cond", default))
        if r.random() < 0.2:
            d["st"] = dict(k="time", t=self.when())
        i4 = self.act(**d)
        x["acts"] = [i0, i1, i2, i3, i4]
        x["group"] = r.random() < 0.5
        self.extra.setdefault("srp", []).append(x)

    def decorate(self, p_plug=0.2, p_st=0.2, p_al=0.2, depth=1):
        """Random plugins, start conditions and additional logs for the existing activities."""
        r = self.r
        par, order = {}, {}
        for i, a in enumerate(self.acts):
            for n, j in enumerate(a.get("subs", [])):
                par[j] = i
        for i, a in enumerate(self.acts):
            if r.random() < p_plug:
                a["plug"] = self.plug()
            if r.random() < p_st and a.get("st") is None:
                a["st"] = self.cond(depth, acts=range(len(self.acts)), avoid=self.related(i, par))
            if r.random() < p_al and a["k"] == "basic":
                a["al"] = self.logs_for(i)

    def related(self, i, par):
        """Activities for which i cannot wait without a deadlock: itself, ancestors, later ones."""
        out = {i}
        j = i
        while j in par:
            j = par[j]
            out.add(j)

        def sub(k):
            out.add(k)
            for x in self.acts[k].get("subs", []):
                sub(x)

        sub(i)
        # and those that come later in a sequence of an ancestor
        j = i
        while j in par:
            p = self.acts[par[j]]
            if p["k"] != "par":
                for x in p["subs"][p["subs"].index(j):]:
                    sub(x)
            j = par[j]
        return out

    def tree(self, depth, leaf):
        r = self.r
        if depth == 0 or r.random() < 0.25:
            return leaf()
        k = r.choice(["seq", "par", "repeat", "while", "seq", "par"])
        subs = [self.tree(depth - 1, leaf) for _ in range(r.randint(1, 3))]
        d = dict(k=k, subs=subs)
        if k == "repeat":
            d["reps"] = r.randint(1, 3)
        if k == "while":
            # the body needs time and the condition must occur
            subs.append(self.act(k="basic", dur=self.dur(zero=False)))
            x = r.random()
            t = dict(k="time", t=1000 * r.randint(1, 20))
            if x < 0.5:
                d["cond"] = t
            elif x < 0.8:
                d["cond"] = dict(k="or", ch=[t, self.cond(1, acts=range(len(self.acts)))])
            else:
                d["cond"] = dict(k="and", ch=[t, dict(k="act", key=self.acts[r.choice(subs)]["n"])])
        return self.act(**d)

    def all(self, acts):
        return [j for i in acts for j in [i] + self.all(self.acts[i].get("subs", []))]

    def basic(self, **kw):
        return self.act(k="basic", dur=self.dur(), **kw)

    # ---------------------------------------------------------------- result
    def scenario(self, name):
        s = dict(name=name, locs=self.locs, objs=self.objs, acts=self.acts)
        if self.ext:
            s["ext"] = self.ext
        if self.nev:
            s["nev"] = self.nev
        if self.wx:
            s["wx"] = self.wx
        s.update(self.extra)
        if self.r.random() < 0.3:
            s.setdefault("t0", self.r.choice([1000.0, 1577836800.0]))
        return s


# --------------------------------------------------------------------------- profiles
def p_cycle(g):
    """Several vessels transport between shared sites."""
    r = g.r
    n = r.randint(1, 3)
    a = g.site(loc=0, cap=1000 * r.randint(4, 14 + 8 * n))
    g.objs[a]["conts"][0][2] = g.objs[a]["conts"][0][1]
    b = g.site(loc=1, level=0, cap=1000 * r.randint(4, 14 + 8 * n))
    g.extra["stop"] = 1500000
    for _ in range(n):
        v = g.vessel()
        g.cycle(v, a, b, loop=r.choice(["while", "repeat", "repeat", "seq"]) if n > 1 else None)
    if r.random() < 0.3:
        g.act(k="basic", dur=g.dur(), al=[["o", r.randrange(len(g.objs))]])
    g.decorate(0.12, 0.06, 0.3)


def p_single(g):
    """The ready-made transport cycle, also several at once."""
    r = g.r
    n = r.choice([1, 1, 1, 2, 2, 3])
    a = g.site(loc=0, cap=1000 * r.randint(2, 14 + 6 * n))
    if r.random() < 0.8:
        g.objs[a]["conts"][0][2] = g.objs[a]["conts"][0][1]
    b = g.site(loc=1, level=0 if r.random() < 0.8 else None, cap=1000 * r.randint(2, 14 + 6 * n))
    for k in range(n):
        g.single_run(g.vessel(), a, b, k)
    if r.random() < 0.2:
        g.act(k="basic", dur=g.dur(), st=dict(k="act", key="cycle0"))
    g.extra["stop"] = 1900000


def p_tree(g):
    """Nested composites of basic activities with conditions and plugins."""
    r = g.r
    g.site(loc=0)
    for _ in range(r.randint(1, 3)):
        g.tree(r.randint(1, 3), g.basic)
    g.decorate(0.2, 0.25, 0.25, depth=2)
    g.extra["stop"] = 600000


def p_shift(g, p_plug=0.15, p_st=0.25):
    """Shifts between co-located containers by processors that compete."""
    r = g.r
    loc = 0
    n = r.randint(2, 4)

    def mid(**kw):
        i = g.site(loc=loc, cap=1000 * r.randint(4, 20), **kw)
        c = g.objs[i]["conts"][0]
        if r.random() < 0.75:
            c[2] = 500 * r.randint(c[1] // 1500, c[1] // 750)
        return i

    os_ = [mid() for _ in range(n)]
    pr = [mid(proc=True, nres=r.choice([1, 1, 2])) for _ in range(r.randint(1, 2))]
    al = os_ + pr

    def leaf():
        if r.random() < 0.15:
            return g.basic()
        og, ds = r.sample(os_ if len(os_) > 1 and r.random() < 0.8 else al, 2)
        pc = r.choice(pr + ([og] if g.objs[og].get("proc") else []) + ([ds] if g.objs[ds].get("proc") else []))
        kw = dict(amt=g.amt(3000)) if r.random() < 0.6 else {}
        i = g.shift(pc, og, ds, r.choice(["loading", "unloading"]), **kw)
        a = g.acts[i]
        if r.random() < 0.5:
            lv = a.get("amt") or 500
            cap_o, cap_d = g.objs[og]["conts"][0][1], g.objs[ds]["conts"][0][1]
            ch = [dict(k="lvl", o=og, op="ge", lv=min(lv, cap_o))]
            if r.random() < 0.6:
                ch.append(dict(k="lvl", o=ds, op="le", lv=max(0, cap_d - lv)))
            a["st"] = dict(k="and", ch=ch) if len(ch) > 1 else ch[0]
        return i

    for _ in range(r.randint(2, 5)):
        if r.random() < 0.6:
            leaf()
        else:
            k = r.choice(["seq", "par", "repeat"])
            d = dict(k=k, subs=[leaf() for _ in range(r.randint(1, 3))])
            if k == "repeat":
                d["reps"] = r.randint(1, 3)
            g.act(**d)
    g.decorate(p_plug, p_st * 0.4, 0.3)
    g.extra["stop"] = 600000
    return al


def p_extern(g):
    """As shift, with external processes that hold resources and change levels."""
    r = g.r
    al = p_shift(g)
    for _ in range(r.randint(1, 4)):
        o = r.choice(al)
        k = r.choice(["hold", "hold", "put", "get"])
        if k == "hold":
            g.ext.append(dict(k="hold", o=o, at=1000 * r.randint(0, 10), dur=1000 * r.randint(1, 10)))
        else:
            g.ext.append(dict(k=k, o=o, amt=500 * r.randint(1, 4), at=1000 * r.randint(0, 12)))


def p_multi(g):
    """Shifts of several content types."""
    r = g.r
    m = r.randint(2, 3)
    if r.random() < 0.5:
        a = g.site(loc=0, multi=m, nres=r.randint(1, 3))
        b = g.site(loc=1, multi=m, nres=r.randint(1, 3))
        for o, full in ((a, 1), (b, 0)):
            for c in g.objs[o]["conts"]:
                c[2] = c[1] if full else 0
        for _ in range(r.randint(1, 2)):
            v = g.vessel(multi=m)
            subs = [g.move(v, a)]
            ks = r.sample(range(m), r.randint(1, m))
            ld = [g.shift(v, a, v, "loading", cid=f"c{k}") for k in ks]
            subs += [g.act(k="par", subs=ld)] if r.random() < 0.3 else ld
            subs.append(g.move(v, b))
            subs += [g.shift(v, v, b, "unloading", cid=f"c{k}") for k in ks]
            k = r.choice(["seq", "repeat", "while"])
            d = dict(k=k, subs=subs)
            if k == "repeat":
                d["reps"] = 2
            if k == "while":
                d["cond"] = dict(
                    k="or",
                    ch=[dict(k="lvl", o=o, op=op, cid=f"c{q}") for q in ks for o, op in ((a, "empty"), (b, "full"))],
                )
            g.act(**d)
    else:
        os_ = [g.site(loc=0, multi=m, proc=True) for _ in range(r.randint(2, 3))]
        for o in os_:
            for c in g.objs[o]["conts"]:
                c[1] += 4000
                c[2] = c[2] if r.random() < 0.2 else c[1] // 1000 * 500
        for _ in range(r.randint(2, 5)):
            og, ds = r.sample(os_, 2)
            i = g.shift(r.choice(os_), og, ds, r.choice(["loading", "unloading"]), cid=f"c{r.randrange(m)}")
            if r.random() < 0.5:
                g.acts[i]["st"] = dict(k="lvl", o=og, op="ge", lv=500, cid=g.acts[i]["cid"])
    g.decorate(0.1, 0.1, 0.3)
    g.extra["stop"] = 1500000


def p_move(g):
    """Moves of all kinds."""
    r = g.r
    sites = [g.site(loc=i) for i in range(len(g.locs))]
    for _ in range(r.randint(1, 3)):
        v = g.vessel(nres=r.choice([1, 1, 2]), level=0)
        if g.objs[v]["conts"] and r.random() < 0.7:
            cap = g.objs[v]["conts"][0][1]
            g.objs[v]["conts"][0][2] = r.choice([0, cap, cap // 1000 * 500])
        if r.random() < 0.2:
            g.objs[v]["v"]["meo"] = 500
        subs = [g.move(v, r.choice(sites)) for _ in range(r.randint(1, 4))]
        k = r.choice(["seq", "repeat", "par"])
        d = dict(k=k, subs=subs)
        if k == "repeat":
            d["reps"] = r.randint(1, 3)
        g.act(**d)
    g.decorate(0.15, 0.1, 0)
    g.extra["stop"] = 1000000000


def p_route(g):
    """Routable vessels along a path or a route."""
    r = g.r
    n = r.randint(2, 5)
    g.locs = [[4 + 0.01 * i + 0.003 * r.randint(0, 2), 52 + 0.004 * r.randint(0, 3)] for i in range(n)]
    ends = [0, n - 1]
    sites = {e: g.obj(n=f"s{e}", loc=e, conts=[["default", 4000, 2000]]) for e in ends}
    for _ in range(r.randint(1, 2)):
        v = dict(k="const", v=1000 * r.randint(2, 10))
        if r.random() < 0.5:
            v["path"] = g.locs
        else:
            nodes = {f"n{i}": g.locs[i] for i in range(n)}
            v.update(route=list(nodes), nodes=nodes, via={})
        o = g.obj(loc=r.choice(ends), conts=[], v=v)
        at, subs = g.objs[o]["loc"], []
        for _ in range(r.randint(1, 4)):
            # a route can only be sailed from end to end
            at = ends[1 - ends.index(at)] if "route" in v or r.random() < 0.8 else at
            subs.append(g.move(o, sites[at]))
        g.act(k="seq", subs=subs)
        if "route" in v:
            break
    g.extra["stop"] = 1000000000


def p_crowd(g):
    """Several shifts of large amounts at once, without conditions: who comes first?"""
    r = g.r
    os_ = [
        g.site(loc=0, cap=1000 * r.randint(4, 10), nres=r.choice([2, 3, 4]), proc=True) for _ in range(r.randint(2, 3))
    ]
    for o in os_:
        c = g.objs[o]["conts"][0]
        c[2] = 500 * r.randint(1, c[1] // 500 - 1)
    pr = [g.site(loc=0, proc=True, nres=r.choice([1, 2, 3])) for _ in range(2)]
    for _ in range(r.randint(2, 4)):
        og, ds = r.sample(os_, 2)
        i = g.shift(r.choice(pr + os_), og, ds, r.choice(["loading", "unloading"]), amt=500 * r.randint(1, 10))
        if r.random() < 0.5:
            g.acts[i]["plug"] = [dict(k="fix", ref="p", pr=0, pre=g.dur(), post=r.choice([None, g.dur()]))]
        if r.random() < 0.4:
            g.acts[i]["st"] = dict(k="time", t=g.when())
    if r.random() < 0.5:
        k = r.choice(["seq", "par", "repeat"])
        d = dict(k=k, subs=[len(g.acts) - 1])
        if k == "repeat":
            d["reps"] = 2
        g.act(**d)
    for _ in range(r.randint(0, 3)):
        o = r.choice(os_ + pr)
        if r.random() < 0.5:
            g.ext.append(dict(k="hold", o=o, at=1000 * r.randint(0, 10), dur=1000 * r.randint(1, 10)))
        else:
            g.ext.append(dict(k=r.choice(["put", "get"]), o=o, amt=500 * r.randint(1, 4), at=1000 * r.randint(0, 12)))
    g.extra["stop"] = 600000


def p_gates(g):
    """Start conditions of every kind on activities in different places."""
    r = g.r
    os_ = [g.site(loc=0, cap=1000 * r.randint(4, 8), level=500 * r.randint(2, 6), proc=True, nres=2) for _ in range(2)]
    for _ in range(r.randint(1, 3)):
        og, ds = r.sample(os_, 2)
        i = g.shift(og, og, ds, "loading", amt=500 * r.randint(1, 3), dur=g.dur())
        if r.random() < 0.6:
            g.acts[i]["st"] = dict(k="time", t=g.when())
    for _ in range(r.randint(1, 3)):
        g.tree(r.randint(0, 2), g.basic)
    g.decorate(0.1, 0.5, 0.4, depth=2)
    for _ in range(r.randint(0, 2)):
        g.ext.append(dict(k=r.choice(["put", "get"]), o=r.choice(os_), amt=500 * r.randint(1, 3), at=g.when()))
    g.extra["stop"] = 600000


def p_loops(g):
    """Loops with stop conditions of every kind."""
    r = g.r
    os_ = [g.site(loc=0, cap=1000 * r.randint(4, 12), level=500 * r.randint(2, 8), proc=True, nres=2) for _ in range(2)]

    def body():
        subs = []
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.5:
                og, ds = r.sample(os_, 2)
                subs.append(g.shift(og, og, ds, "loading", amt=500 * r.randint(1, 2), dur=g.dur()))
            else:
                subs.append(g.basic())
        subs.insert(r.randint(0, len(subs)), g.act(k="basic", dur=g.dur(zero=False)))
        return subs

    other = [g.basic() for _ in range(r.randint(1, 2))]
    for _ in range(r.randint(1, 2)):
        subs = body()
        if r.random() < 0.3:
            subs = [g.act(k=r.choice(["seq", "par"]), subs=subs)]
        t = dict(k="time", t=1000 * r.randint(0, 25))
        x = r.random()
        if x < 0.35:
            cond = g.cond(2, acts=other + subs)
            cond = dict(k="or", ch=[cond, dict(k="time", t=40000)])
        elif x < 0.6:
            cond = dict(k="or", ch=[dict(k="and", ch=[g.cond(0, acts=other + subs), t]), dict(k="time", t=40000)])
        elif x < 0.8:
            cond = t
        else:
            cond = dict(k=r.choice(["and", "list"]), ch=[t, dict(k="act", key=g.acts[r.choice(subs)]["n"])])
        if r.random() < 0.25:
            i = g.act(k="repeat", subs=subs, reps=r.randint(1, 4))
        else:
            i = g.act(k="while", subs=subs, cond=cond)
        if r.random() < 0.3:
            g.act(k="repeat", subs=[i], reps=2)
    g.decorate(0.1, 0.1, 0.1)
    for _ in range(r.randint(0, 2)):
        g.ext.append(dict(k=r.choice(["put", "get"]), o=r.choice(os_), amt=500 * r.randint(1, 3), at=g.when()))
    g.extra["stop"] = 300000


def p_script(g):
    """Levels that go up and down by a script, watched by loops and start conditions.

    Every condition occurs for short periods only: before the release of what waits for it, while
    plugins do their work before the start, in the middle of an iteration, at its end.
    """
    r = g.r
    os_ = [g.site(loc=0, cap=20000, level=10000) for _ in range(r.choice([1, 1, 2]))]
    for o in os_:
        lev, t = 10000, 0
        for _ in range(r.randint(2, 6)):
            t += 1000 * r.randint(1, 6)
            to = r.choice([x for x in (0, 4000, 10000, 16000, 20000) if x != lev])
            g.ext.append(dict(k="put" if to > lev else "get", o=o, amt=abs(to - lev), at=t))
            lev = to

    def lvl():
        op = r.choice(["ge", "gt", "le", "lt", "full", "empty"])
        d = dict(k="lvl", o=r.choice(os_), op=op)
        if op not in ("full", "empty"):
            d["lv"] = r.choice([4000, 4500, 10000, 15500, 16000])
        return d

    def cond():
        x = r.random()
        if x < 0.6:
            return lvl()
        ch = [lvl(), r.choice([lvl(), dict(k="time", t=g.when())])]
        return dict(k=r.choice(["and", "or", "list"]), ch=ch)

    def plug():
        return [dict(k="fix", ref="p0", pr=1, pre=r.choice([None, 1000 * r.randint(1, 8)]), post=r.choice([None, 1000 * r.randint(1, 3)]))]

    def leaf():
        i = g.act(k="basic", dur=1000 * r.randint(0, 5))
        if r.random() < 0.25:
            g.acts[i]["st"] = cond()
        if r.random() < 0.15:
            g.acts[i]["plug"] = plug()
        return i

    for _ in range(r.randint(1, 2)):
        pre = [leaf()] if r.random() < 0.4 else []
        subs = [leaf() for _ in range(r.randint(0, 2))]
        subs.insert(r.randint(0, len(subs)), g.act(k="basic", dur=1000 * r.randint(1, 6)))
        x = r.random()
        if x < 0.7:
            end = dict(k="time", t=1000 * r.randint(25, 50))
            i = g.act(k="while", subs=subs, cond=dict(k="or", ch=[cond(), end]))
        else:
            i = g.act(k=r.choice(["seq", "par"]), subs=subs)
        if r.random() < 0.5:
            g.acts[i]["plug"] = plug()
        if r.random() < 0.2:
            g.acts[i]["st"] = cond()
        if pre:
            g.act(k="seq", subs=pre + [i])
        elif r.random() < 0.2:
            g.act(k="repeat", subs=[i], reps=2)
    g.extra["stop"] = 400000


def p_wake(g):
    """Many activities wait for levels of one container, which changes once or twice."""
    r = g.r
    a = g.site(loc=0, cap=20000, level=10000, proc=True, nres=2)
    b = g.site(loc=0, cap=20000, level=10000, proc=True, nres=2)
    o = r.choice([a, b])
    if r.random() < 0.5:
        g.ext.append(dict(k=r.choice(["put", "get"]), o=o, amt=1000 * r.randint(1, 10), at=1000 * r.randint(1, 5)))
    else:
        og, ds = r.sample([a, b], 2)
        g.shift(og, og, ds, "loading", amt=1000 * r.randint(1, 9), dur=1000 * r.randint(1, 5))
    if r.random() < 0.3:
        og, ds = r.sample([a, b], 2)
        g.shift(og, og, ds, "loading", amt=1000, dur=1000, st=dict(k="time", t=7000))
    for _ in range(r.randint(3, 5)):
        up = r.random() < 0.5
        d = dict(k="lvl", o=o, op=r.choice(["ge", "gt"] if up else ["le", "lt"]), lv=10000 + (1 if up else -1) * 500 * r.randint(1, 10))
        if r.random() < 0.2:
            d = dict(k=r.choice(["and", "or"]), ch=[d, dict(k="lvl", o=o, op=r.choice(["ge", "le"]), lv=1000 * r.randint(1, 19))])
        x = r.random()
        if x < 0.6:
            g.act(k="basic", dur=1000 * r.randint(0, 2), st=d)
        elif x < 0.8:
            g.act(k="while", subs=[g.act(k="basic", dur=1000)], cond=dict(k="or", ch=[d, dict(k="time", t=20000)]))
        else:
            og, ds = r.sample([a, b], 2)
            g.shift(og, og, ds, "loading", amt=500, dur=0, st=d)
    r.random() < 0.3 and g.act(k="par", subs=[g.act(k="basic", dur=1000, st=dict(k="act", key="a0"))])
    g.extra["stop"] = 400000


def tight_cranes(g):
    """Cranes compete for the places and the content of one origin, others for the cranes."""
    r = g.r
    lv = 500 * r.randint(6, 20)
    hot = g.site(loc=0, cap=20000, level=lv, nres=1, proc=False)
    src = g.site(loc=0, cap=20000, level=20000, nres=4, proc=False)
    cranes = [g.site(loc=0, proc=True, nres=1) for _ in range(r.choice([1, 2, 2]))]
    at = 0
    for k in range(r.randint(3, 5)):
        og = hot if k < 2 or r.random() < 0.5 else src
        ds = g.site(loc=0, cap=20000, level=0, nres=1, proc=False)
        kw = dict(dur=1000 * r.randint(1, 12))
        if og == hot:
            kw["amt"] = max(500, lv - 500 * r.randint(-1, 6)) if r.random() < 0.6 else 500 * r.randint(1, 8)
        else:
            kw["amt"] = 1000
        i = g.shift(cranes[k % len(cranes)] if k < 2 else r.choice(cranes), og, ds, "loading", **kw)
        if at:
            g.acts[i]["st"] = dict(k="time", t=at)
        at += 1000 * r.choice([0, 0, 1, 1, 2, 4]) if k else 0
    r.shuffle(g.acts)
    for k, a in enumerate(g.acts):
        a["n"] = f"a{k}"
    if r.random() < 0.5:
        g.ext.append(dict(k="put", o=hot, amt=500 * r.randint(1, 6), at=1000 * r.randint(1, 15)))
    g.extra["stop"] = 400000


def p_tight(g):
    """Few single places, little content: the amount is determined anew by those who waited."""
    r = g.r
    if r.random() < 0.6:
        return tight_cranes(g)
    n = r.choice([3, 3, 4])
    os_ = [g.site(loc=0, cap=1000 * r.randint(3, 6), nres=1, proc=True) for _ in range(n)]
    for o in os_:
        c = g.objs[o]["conts"][0]
        c[2] = 500 * r.randint(1, c[1] // 500 - 1)
    hot = r.choice(os_)
    k = r.randint(2, 4)
    for _ in range(k):
        x = r.random()
        og, ds = r.sample(os_, 2)
        if x < 0.5:
            og = hot
            ds = r.choice([o for o in os_ if o != hot])
        elif x < 0.65:
            ds = hot
            og = r.choice([o for o in os_ if o != hot])
        c = g.objs[og]["conts"][0]
        m = min(c[2], g.objs[ds]["conts"][0][1] - g.objs[ds]["conts"][0][2])
        kw = dict(dur=1000 * r.randint(1, 4)) if r.random() < 0.7 else {}
        if r.random() < 0.8:
            # about what is there (or will be)
            kw["amt"] = max(500, m - 500 * r.randint(-1, 2))
        i = g.shift(r.choice(os_), og, ds, r.choice(["loading", "unloading"]), **kw)
        a = g.acts[i]
        y = r.random()
        if y < 0.35:
            a["st"] = dict(k="time", t=1000 * r.randint(1, 4))
        elif y < 0.5:
            a["st"] = dict(k="lvl", o=og, op="ge", lv=500)
        if r.random() < 0.2:
            a["plug"] = [dict(k="fix", ref="p", pr=0, pre=1000 * r.randint(1, 3), post=r.choice([None, 1000]))]
    if r.random() < 0.4:
        g.act(k=r.choice(["seq", "par", "repeat"]), subs=r.sample(range(k), 2))
        if g.acts[-1]["k"] == "repeat":
            g.acts[-1]["reps"] = 2
    for _ in range(r.choice([0, 0, 1, 2])):
        g.ext.append(dict(k=r.choice(["put", "get"]), o=r.choice(os_), amt=500 * r.randint(1, 3), at=1000 * r.randint(1, 8)))
    g.extra["stop"] = 400000


def p_plugs(g):
    """Activities of all kinds with several plugins."""
    r = g.r
    os_ = [g.site(loc=0, cap=10000, level=5000, proc=True, nres=r.choice([1, 2])) for _ in range(2)]
    v = g.vessel(loc=0)

    def leaf():
        x = r.random()
        if x < 0.5:
            return g.basic()
        if x < 0.75:
            return g.move(v, r.choice(os_), dur=g.dur())
        og, ds = r.sample(os_, 2)
        return g.shift(og, og, ds, "loading", amt=500 * r.randint(1, 2))

    for _ in range(r.randint(1, 3)):
        g.tree(r.randint(0, 2), leaf)
    for a in g.acts:
        if r.random() < 0.7:
            a["plug"] = g.plug(4)
    g.extra["stop"] = 600000


def p_keep(g):
    """Groups of activities which share resources and keep them."""
    r = g.r
    os_ = [g.site(loc=0, cap=20000, level=500 * r.randint(10, 30), proc=True, nres=r.choice([1, 2])) for _ in range(3)]
    for k in range(r.randint(1, 3)):
        subs = []
        v = g.vessel(loc=0) if r.random() < 0.4 else None
        for _ in range(r.randint(2, 3)):
            og, ds = r.sample(os_, 2)
            if v is not None and r.random() < 0.4:
                i = g.move(v, r.choice(os_))
                g.acts[i]["grp"] = k
                if r.random() < 0.4:
                    g.acts[i]["keep"] = [v]
            else:
                i = g.shift(r.choice(os_), og, ds, "loading", grp=k, amt=500 * r.randint(1, 4))
                us = sorted({g.acts[i]["pc"], og, ds})
                if r.random() < 0.6:
                    g.acts[i]["keep"] = r.sample(us, r.randint(1, len(us)))
            subs.append(i)
        g.acts[subs[-1]].pop("keep", None) if r.random() < 0.8 else None
        kind = r.choice(["seq", "seq", "repeat"])
        d = dict(k=kind, subs=subs)
        if kind == "repeat":
            d["reps"] = 2
        g.act(**d)
    g.decorate(0.15, 0.1, 0)
    g.extra["stop"] = 600000


def p_weather(g):
    """Activities that need a weather window."""
    r = g.r
    for _ in range(r.randint(1, 2)):
        for _ in range(5):  # mostly series with a window
            n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10])
            step = 1000 * r.choice([1, 2, 4, 5])
            w = dict(
                ts=[i * step for i in range(n)],
                val=[r.randint(0, 4) for _ in range(n)],
                mode=r.choice(["max", "max", "min"]),
                thr=r.randint(1, 3),
                len=500 * r.randint(0, 3 * step // 500),
                delay=500 * r.choice([0, 0, 0, 1, 2, 4]),
            )
            run = best = 0
            for x in w["val"][:-1]:
                run = run + step if (x <= w["thr"] if w["mode"] == "max" else x >= w["thr"]) else 0
                best = max(best, run)
            if best > w["len"]:
                break
        g.wx.append(w)
    v = g.vessel()
    s = [g.site(loc=i) for i in range(2)]

    def leaf():
        i = g.basic() if r.random() < 0.6 else g.move(v, r.choice(s), dur=g.dur())
        if r.random() < 0.7:
            g.acts[i]["plug"] = [dict(k="wx", wx=r.randrange(len(g.wx)))]
            if r.random() < 0.4:
                g.acts[i]["plug"] += g.plug(1)
        return i

    for _ in range(r.randint(1, 3)):
        k = r.choice(["seq", "repeat", "par"])
        d = dict(k=k, subs=[leaf() for _ in range(r.randint(1, 3))])
        if k == "repeat":
            d["reps"] = r.randint(1, 2)
        g.act(**d)
    if r.random() < 0.3:
        g.decorate(0, 0.2, 0)
    if r.random() < 0.2:  # far past the data
        g.act(k="basic", dur=g.dur(), plug=[dict(k="wx", wx=0)], st=dict(k="time", t=g.wx[0]["ts"][-1] * r.randint(10, 30) + 500))
    g.extra["stop"] = r.choice([8, 8, 8, 35]) * max(4000, min(w["ts"][-1] for w in g.wx))


def p_again(g):
    """A model which is registered again after it finished, or in two parts."""
    r = g.r
    x = r.random()
    g.site(loc=0)
    tops = [g.tree(r.randint(0, 2), g.basic) for _ in range(r.randint(1, 3))]
    g.decorate(0.1, 0.15, 0.1)
    sub = {j for a in g.acts for j in a.get("subs", [])}
    g.extra.pop("stop", None)
    tops = [i for i in range(len(g.acts)) if i not in sub]
    r.shuffle(tops)
    if x < 0.7:
        g.extra["batches"] = [dict(acts=tops)] * r.randint(2, 3)
    else:
        g.extra["batches"] = [dict(acts=tops)]
    # conditions must be satisfiable: time and events only for late runs
    g.extra["stop"] = 2000000


def p_names(g):
    """Models that are registered one after the other and share names: a name means all of its bearers."""
    r = g.r
    g.site(loc=0)
    pool = ["load", "sail", "dump"][: r.choice([2, 2, 3])]
    at, free = 0, list(pool)
    batches = []
    for b in range(r.randint(2, 4)):
        if b:
            at += 1000 * r.choice([0, 0, 0, 1, 2, 5])
        names = r.sample(pool, r.randint(1, len(pool)))
        acts = []
        for n in names:
            i = g.act(k="basic", dur=g.dur(), n=n, id=f"id{len(g.acts)}")
            if free and r.random() < 0.2:  # an id which is a name goes first
                g.acts[i]["id"] = free.pop()
            acts.append(i)
        for _ in range(r.randint(0, 2)):
            i = g.tree(r.choice([0, 0, 1]), g.basic)
            acts.append(i)
        if r.random() < 0.3:
            d = dict(k="act", key=names[0])
            acts.append(g.act(k="while", subs=[g.act(k="basic", dur=1000 * r.randint(1, 3))], cond=d))
        r.shuffle(acts)
        batches.append(dict(acts=acts, at=at))
    for b in batches:
        # names registered at that moment
        own = [j for c in batches if c["at"] <= b["at"] for j in g.all(c["acts"])]
        keys = {x for j in own for x in (g.acts[j]["n"], g.acts[j].get("id"))} & set(pool)
        for j in g.all(b["acts"]):
            a = g.acts[j]
            if r.random() < (0.25 if a["n"] in pool else 0.5):
                c = [dict(k="act", key=r.choice(sorted(keys))) for _ in range(2)]
                if r.random() < 0.2:
                    c[0].update(by="ID")
                a["st"] = c[0] if r.random() < 0.6 else dict(k=r.choice(["and", "or"]), ch=[c[0], r.choice([c[1], dict(k="time", t=1000 * r.randint(1, 9))])])
    del batches[0]["at"]
    g.extra["batches"] = batches
    g.extra["stop"] = 400000


def p_refuse(g):
    """Impossible work somewhere in a run."""
    r = g.r
    p_shift(g) if r.random() < 0.5 else p_cycle(g)
    for a in g.acts:
        if a["k"] == "shift":
            x = r.random()
            if x < 0.3:
                a.pop("st", None)
            elif x < 0.4:
                o = r.choice([a["pc"], a["og"], a["ds"]])
                g.objs[o]["loc"] = r.randrange(len(g.locs))
    for o in g.objs:
        for c in o.get("conts") or []:
            if r.random() < 0.3:
                c[2] = r.choice([0, c[1]])
    g.extra["stop"] = 600000


def p_apart(g):
    """Vessels sail away (and come back) while a shift with them waits for its equipment."""
    r = g.r
    s = g.site(loc=0, cap=20000, level=10000, nres=r.choice([1, 1, 2]), proc=True)
    far = g.site(loc=1, cap=20000, level=10000, nres=1, proc=True)
    crane = g.site(loc=0, proc=True, nres=1)
    vs = []
    for _ in range(r.randint(1, 2)):
        vs.append(g.vessel(loc=0, cap=8000, level=4000, nres=r.choice([1, 1, 2]), cdm=False))
    for _ in range(r.randint(1, 2)):
        g.shift(r.choice([crane, s]), s, r.choice([crane] + vs), "loading", amt=1000, dur=1000 * r.randint(1, 6))
    for _ in range(r.randint(1, 2)):
        v = r.choice(vs)
        og, ds = (v, s) if r.random() < 0.7 else (s, v)
        i = g.shift(r.choice([crane, v, s]), og, ds, "loading", amt=500 * r.randint(1, 3), dur=1000 * r.randint(0, 3))
        if r.random() < 0.4:
            g.acts[i]["st"] = dict(k="time", t=1000 * r.randint(0, 8))
        if r.random() < 0.3:
            g.acts[i]["plug"] = [dict(k="fix", ref="p", pr=0, pre=1000 * r.randint(1, 5), post=None)]
    for v in vs:
        m = [g.act(k="move", mv=v, ds=far, dur=1000 * r.randint(0, 4))]
        if r.random() < 0.6:
            m.append(g.act(k="move", mv=v, ds=s, dur=1000 * r.randint(0, 4)))
        if r.random() < 0.3:
            g.acts[m[0]]["st"] = dict(k="time", t=1000 * r.randint(0, 6))
        if len(m) > 1:
            g.act(k="seq", subs=m)
    g.extra["stop"] = 300000


def p_slices(g):
    p_tree(g) if g.r.random() < 0.5 else p_cycle(g)
    g.extra["until"] = sorted(1000 * g.r.randint(1, 30) for _ in range(3))
    g.extra["env"] = "cp" if g.r.random() < 0.3 else "plain"


def p_cp(g):
    """Complete simulations in which only durations and immediate events decide when work is done."""
    r = g.r

    def dur():
        return 500 * r.randint(1, 12)

    a = g.site(loc=0, cap=400000, level=200000, nres=r.choice([1, 1, 2]), proc=False)
    b = g.site(loc=1, cap=400000, level=100000, nres=r.choice([1, 1, 2]), proc=False)
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        v = g.vessel(cap=40000, level=10000, cdm=False, nres=r.choice([1, 1, 2]))
        n = 500 * r.randint(1, 8)
        mk = [
            lambda: g.move(v, a, dur=dur()),
            lambda: g.shift(v, a, v, "loading", amt=n, dur=dur()),
            lambda: g.move(v, b, dur=dur()),
            lambda: g.shift(v, v, b, "unloading", amt=n, dur=dur()),
        ]
        if r.random() < 0.4:
            mk.insert(r.randint(0, 4), lambda: g.act(k="basic", dur=dur(), al=[["o", r.choice([v, a, b])]]))
        subs = [f() for f in mk]
        k = r.choice(["while", "while", "repeat", "repeat", "seq"])
        d = dict(k=k, subs=subs)
        if k == "repeat":
            d["reps"] = r.randint(1, 4)
        if k == "while":
            d["cond"] = r.choice(
                [
                    dict(k="lvl", o=b, op="ge", lv=100000 + n * r.randint(1, 4)),
                    dict(k="lvl", o=a, op="le", lv=200000 - n * r.randint(1, 4)),
                    dict(k="or", ch=[dict(k="lvl", o=a, op="le", lv=200000 - n), dict(k="lvl", o=b, op="ge", lv=100000 + 3 * n)]),
                ]
            )
        g.act(**d)

    def leaf():
        al = [["o", o] for o in r.sample(range(len(g.objs)), r.choice([0, 1, 1, 2]))]
        return g.act(k="basic", dur=dur(), al=al)

    def tree(depth):
        if depth == 0 or r.random() < 0.3:
            return leaf()
        k = r.choice(["seq", "par", "repeat", "seq", "par"])
        d = dict(k=k, subs=[tree(depth - 1) for _ in range(r.randint(1, 3))])
        if k == "repeat":
            d["reps"] = r.randint(1, 3)
        return g.act(**d)

    for _ in range(r.randint(0 if len(g.acts) else 2, 3)):
        tree(r.randint(0, 2))
    sub = {j for x in g.acts for j in x.get("subs", [])}
    tops = [i for i in range(len(g.acts)) if i not in sub]
    for n, i in enumerate(tops):
        if r.random() < 0.35:
            x = r.random()
            before = [j for k in tops[:n] for j in [k] + g.acts[k].get("subs", [])]
            if x < 0.3:
                g.acts[i]["st"] = dict(k="time", t=500 * r.randint(1, 20))
            elif x < 0.8 and before:
                c = dict(k="act", key=g.acts[r.choice(before)]["n"])
                if r.random() < 0.3:
                    c = dict(k=r.choice(["and", "or", "list"]), ch=[c, dict(k="act", key=g.acts[r.choice(before)]["n"])])
                g.acts[i]["st"] = c
            elif any(x["k"] == "shift" for x in g.acts):
                m = max(x["amt"] for x in g.acts if x["k"] == "shift" and x["phase"] == "loading")
                if n and g.acts[tops[0]]["k"] in ("while", "repeat", "seq") and "st" not in g.acts[tops[0]]:
                    g.acts[i]["st"] = dict(k="lvl", o=a, op="lt", lv=200000) if m else None
    for x in g.acts:
        if x["k"] in ("basic", "move", "shift") and r.random() < 0.2:
            p = []
            if r.random() < 0.4:
                p.append(dict(k="delay", pct=r.choice([50, 100])))
            if not p or r.random() < 0.4:
                pre, post = r.choice([(dur(), None), (None, dur()), (dur(), dur())])
                p.append(dict(k="fix", ref="p0", pr=r.randint(0, 5), pre=pre, post=post))
            x["plug"] = p
    g.extra["env"] = "cp"


def p_cpz(g):
    """Complete simulations with activities without duration, computed durations and waits."""
    r = g.r
    x = r.random()
    if x < 0.3:
        p_cycle(g)
    elif x < 0.5:
        p_tree(g)
    elif x < 0.65:
        p_plugs(g)
    elif x < 0.8:
        p_multi(g)
    else:
        p_shift(g)
    for y in g.acts:
        y["al"] = [z for z in y.get("al", []) if z[0] == "o"]
    if r.random() < 0.3 and g.acts:
        g.extra["stop"] = 1000 * r.randint(5, 60)


def wxenum(n):
    """All short metocean series, window lengths and delays; activities that are ready at many times."""
    def digit(k):
        nonlocal n
        n, d = divmod(n, k)
        return d

    mode = ["max", "min"][digit(2)]
    delay = [0, 1500, 4000][digit(3)]
    length = [0, 2000, 3000, 8000][digit(4)]
    step = [[2, 2, 2, 2, 2], [1, 3, 2, 4, 1]][digit(2)]
    val = [digit(3) for _ in range(5)]
    ts, t = [], 0
    for d in step:
        ts.append(1000 * t)
        t += d
    g = G(random.Random(n))
    g.wx.append(dict(ts=ts, val=val, mode=mode, thr=1, len=length, delay=delay))
    end = ts[-1]
    for k, at in enumerate(list(range(0, end + 1, 1000)) + [end + 500, end + 3000, 2 * end, 2 * end + 1000, 3 * end - 500, 10 * end + 500, 12 * end - 1000, 25 * end + 500]):
        # an activity that is refused (no window at all) must not hide the others
        g.act(k="basic", dur=1000, plug=[dict(k="wx", wx=0)], st=dict(k="time", t=at))
    s = g.scenario(f"wxenum-{n}")
    s.pop("t0", None)
    s["stop"] = 60 * end
    return s


WXENUM = 2 * 3 * 4 * 2 * 3**5

PROFILES = {k[2:]: v for k, v in globals().items() if k.startswith("p_")}


IDS = [
    ["sand_wet", "sand", "sandy"],
    ["sand", "sand_wet", "wet"],
    ["b", "a", "c"],
    ["default", "rock", "default_2"],
    ["rock", "default", "default_2"],
    ["_reservations_", "reservations", "x_reservations_x"],
]


def rename_contents(s, ids):
    m = {f"c{k}": x for k, x in enumerate(ids)}
    m.update({a + "_reservations": b + "_reservations" for a, b in m.items()})

    def walk(x):
        if isinstance(x, dict):
            if "cid" in x:
                x["cid"] = m.get(x["cid"], x["cid"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(s)
    for o in s["objs"]:
        for c in o.get("conts") or []:
            c[0] = m.get(c[0], c[0])


def vary(s, key):
    """The same scenario in another guise: other units, names, content types and number types."""
    r = random.Random("vary/" + key)
    if r.random() < 0.5:  # powers of two, so that ties remain ties
        s["ts"] = r.choice([1, 1 / 64, 64, 4096])
        s["as"] = r.choice([1, 1 / 64, 1 / 1024, 64, 4096])
    if r.random() < 0.2:  # names of objects need not differ, only their ids do
        n = r.choice([1, 2])
        for k, o in enumerate(s["objs"]):
            o["id"], o["n"] = f"obj-{k}", f"o{k % n}"
    if r.random() < 0.7:
        rename_contents(s, r.choice(IDS[:2] + IDS))
    if r.random() < 0.4:
        s["num"] = r.choice(["int", "np"])
    return s


def nest(s):
    """The same conditions, some of them as conditions of one condition."""
    r = random.Random("nest/" + s["name"])
    for a in s["acts"]:
        for key, p in (("cond", 0.35), ("st", 0.12)):
            while a.get(key) is not None and r.random() < p:
                a[key] = dict(k=r.choice(["and", "or", "list"]), ch=[a[key]])
    return s


def make(profile, seed, n, varied=False):
    if profile == "wxenum":
        m = n % WXENUM
        # a permutation of the enumeration, so that a part of it samples all of it
        s = wxenum((m * 5113 + seed * 997) % WXENUM)
        s["name"] = f"wxenum-{seed}-{n}"
    else:
        g = G(random.Random(f"{seed}/{profile}/{n}"))
        PROFILES[profile](g)
        s = nest(g.scenario(f"{profile}-{seed}-{n}"))
    return vary(s, s["name"]) if varied else s
