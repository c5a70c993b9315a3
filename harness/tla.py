"""Scenario -> configuration record for the TLA+ modules (1-based indices, integer units)."""
import pyproj

GEOD = pyproj.Geod(ellps="WGS84")


def config(scen):
    objs, acts = scen["objs"], scen["acts"]
    conts, cidx = [], {}
    for i, o in enumerate(objs):
        for c in o.get("conts") or []:
            conts.append(dict(o=i + 1, cid=c[0], cap=c[1], lvl=c[2]))
            cidx[i, c[0]] = len(conts)
    n = len(acts)
    parent, prev = [0] * n, [0] * n
    for i, a in enumerate(acts):
        for k, j in enumerate(a.get("subs", [])):
            parent[j] = i + 1
            if k and a["k"] != "par":
                prev[j] = a["subs"][k - 1] + 1

    def desc(i):
        out = []
        for j in acts[i].get("subs", []):
            out.append(j + 1)
            out += desc(j)
        return out

    nodes = []

    def node(x):
        k = x["k"]
        ch = [node(c) for c in x.get("ch", [])]
        d = dict(k=k, ch=ch, c=0, rsv=False, op="", lv=0, key="", t=0, e=0)
        if k == "list":
            d["k"] = "and"
        if k == "lvl":
            cid = x.get("cid", "default")
            if cid.endswith("_reservations"):
                d["rsv"] = True
                cid = cid[: -len("_reservations")]
            d["c"] = cidx[x["o"], cid]
            if x["op"] == "full":
                d["op"], d["lv"] = "ge", conts[d["c"] - 1]["cap"]
            elif x["op"] == "empty":
                d["op"], d["lv"] = "le", 0
            else:
                d["op"], d["lv"] = x["op"], x["lv"]
        if k == "act":
            d["key"] = x["key"]
        if k == "time":
            d["t"] = x["t"]
        if k == "evt":
            d["e"] = x["e"] + 1
        nodes.append(d)
        return len(nodes)

    def leaves(i):
        d = nodes[i - 1]
        if d["k"] in ("and", "or"):
            return [y for c in d["ch"] for y in leaves(c)]
        return [i]

    srp = {x["acts"][4]: x for x in scen.get("srp", [])}
    out = []
    for i, a in enumerate(acts):
        st = node(a["st"]) if a.get("st") is not None else 0
        cond = node(a["cond"]) if a.get("cond") is not None else 0
        cid = a.get("cid", "default")
        uses, needs, co, cd = [], [], 0, 0
        if a["k"] == "move":
            uses = needs = [a["mv"] + 1]
        if a["k"] == "shift":
            uses = needs = sorted({a["pc"] + 1, a["og"] + 1, a["ds"] + 1})
            co, cd = cidx.get((a["og"], cid), 0), cidx.get((a["ds"], cid), 0)
        plug = []
        for p in a.get("plug", []):
            if p["k"] == "wx":
                plug.append(dict(pr=2, k="wx", ref="waiting on weather", pre=-1, post=-1, pct=0, wx=p["wx"] + 1))
        for p in a.get("plug", []):
            if p["k"] == "delay":
                plug.append(dict(pr=3, k="delay", ref="delay", pre=-1, post=0, pct=p["pct"], wx=0))
        for p in a.get("plug", []):
            if p["k"] == "since":
                plug.append(dict(pr=p["pr"], k="since", ref=p["ref"], pre=-1, post=0, pct=p["pct"], wx=0))
            if p["k"] == "fix":
                g = lambda k: -1 if p.get(k) is None else p[k]
                plug.append(dict(pr=p["pr"], k="fix", ref=p["ref"], pre=g("pre"), post=g("post"), pct=0, wx=0))
        out.append(
            dict(
                nm=a["n"],
                id=a.get("id", "id-" + a["n"]),
                k=a["k"],
                par=parent[i],
                prev=prev[i],
                subs=[j + 1 for j in a.get("subs", [])],
                desc=desc(i),
                dur=-1 if a.get("dur") is None else a["dur"],
                reps=a.get("reps", 1000000),
                st=st,
                stl=leaves(st) if st else [],
                cond=cond,
                cdl=leaves(cond) if cond else [],
                mv=a.get("mv", -1) + 1,
                og=a.get("og", -1) + 1,
                ds=a.get("ds", -1) + 1,
                pc=a.get("pc", -1) + 1,
                amt=-1 if a.get("amt") is None else a["amt"],
                co=co,
                cd=cd,
                phase=a.get("phase") or "",
                eo=a.get("eo", 1000),
                uses=uses,
                needs=needs,
                grp=a["grp"] + 1 if a.get("grp") is not None else 1000 + i,
                keep=[o + 1 for o in a.get("keep", [])],
                plug=plug,
                ves=acts[srp[i]["acts"][0]]["mv"] + 1 if i in srp else 0,
                tgt=acts[srp[i]["acts"][3]]["ds"] + 1 if i in srp else 0,
                solo=bool(i in srp and len(srp) == 1 and len(acts) == 5),
                al=[(j + 1 if k == "o" else 1001 + j) for k, j in a.get("al", [])],
            )
        )
    locs = scen["locs"]
    first = {}
    for i, xy in enumerate(locs):
        first.setdefault(tuple(map(float, xy)), i + 1)
    canon = [first[tuple(map(float, xy))] for xy in locs]

    def dist(p, q):
        return GEOD.inv(p[0], p[1], q[0], q[1])[2]

    mats = [[[int(round(dist(p, q) * 10000)) for q in locs] for p in locs]]
    near = [[bool(dist(p, q) < 100) for q in locs] for p in locs]
    oo = []
    rate0 = dict(k="none", num=1, den=1, man=0, p=0, q=0, r=0)
    for oi, o in enumerate(objs):
        v = o.get("v") or {}
        dm = 1
        if "path" in v or "route" in v:
            mats.append(path_matrix(v, locs))
            dm = len(mats)
        oo.append(
            dict(
                nm=o["n"],
                nres=o.get("nres", 1),
                conts=[cidx[key] for key in cidx if key[0] == oi],
                loc=canon[o["loc"]],
                ve=v.get("v", v.get("ve", 0)),
                vk=v.get("vk", 0),
                dm=dm,
                load={**rate0, **(o.get("load") or {})},
                unload={**rate0, **(o.get("unload") or {})},
            )
        )
    batches = scen.get("batches")
    if not batches:
        sub = {j for a in acts for j in a.get("subs", [])}
        batches = [{"acts": [i for i in range(n) if i not in sub]}]
    return dict(
        name=scen.get("name", ""),
        acts=out,
        objs=oo,
        conts=conts,
        nodes=nodes,
        dist=mats,
        near=near,
        wx=[
            dict(ts=w["ts"], val=w["val"], mode=w["mode"], thr=w["thr"], len=w["len"], dl=w.get("delay", 0))
            for w in scen.get("wx", [])
        ],
        ext=[
            dict(
                k=x["k"],
                o=x.get("o", -1) + 1,
                c=cidx.get((x.get("o"), x.get("cid", "default")), 0),
                amt=x.get("amt", 0),
                at=x["at"],
                dur=x.get("dur", 0),
                e=x.get("e", -1) + 1,
            )
            for x in scen.get("ext", [])
        ],
        batches=[sorted({y for i in b["acts"] for y in [i + 1] + desc(i)}) for b in batches],
    )


def path_matrix(v, locs):
    """Distance in mm along the path / route between the locations that lie on it."""
    if "path" in v:
        line = v["path"]
    else:
        line = []
        r = v["route"]
        for a, b in zip(r[:-1], r[1:]):
            line += [v["nodes"][a]] + v.get("via", {}).get(a + b, [])
        line.append(v["nodes"][r[-1]])

    cum = [0.0]
    for p, q in zip(line[:-1], line[1:]):
        cum.append(cum[-1] + GEOD.inv(p[0], p[1], q[0], q[1])[2])

    def pos(xy):
        for p, c in zip(line, cum):
            if abs(p[0] - xy[0]) < 1e-9 and abs(p[1] - xy[1]) < 1e-9:
                return c
        return None

    m = []
    for p in locs:
        row = []
        for q in locs:
            a, b = pos(p), pos(q)
            row.append(-1 if a is None or b is None else int(round(abs(a - b) * 10000)))
        m.append(row)
    return m
