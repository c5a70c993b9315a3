"""Replay of the runs and dependencies generated by CriticalPath.tla on the real graph (C23)."""
import datetime
import logging

import engine

logging.disable(logging.CRITICAL)


def frame(runs, kind, scale, names=0):
    import pandas as pd

    def at(t):
        if kind == "num":
            return float(t * scale)
        return datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=t * scale)

    # runs of one activity, of activities with one name, or of different ones
    name = (lambda i: f"a{i}", lambda i: f"a{i % 2}", lambda i: "a")[names]
    rows = []
    for i, r in enumerate(runs):
        for o in (["o1"], ["o1", "o2"], ["Activity"], ["o1", "Activity"])[i % 4]:
            rows.append(
                dict(
                    Activity=name(i), SimulationObject=o, start_time=at(r["s"]), end_time=at(r["e"]),
                    state="ACTIVE" if i % 3 else "WAITING", cp_activity_id=f"id{i + 1}", ActivityID=f"x{i}" if names < 2 else "x",
                )
            )  # fmt: skip
    df = pd.DataFrame(rows)
    df["duration"] = df.end_time - df.start_time
    return df.iloc[::-1] if names == 1 else df


def graph(runs, links, kind, scale, names=0):
    from openclsim.critical_path.simulation_graph import SimulationGraph

    g = SimulationGraph(frame(runs, kind, scale, names), [(f"id{a}", f"id{b}") for a, b in links])
    return sorted(int(x[2:]) for x in g.get_list_critical_activities())


def replay(case):
    bad = []
    runs, links = case["runs"], [tuple(x) for x in case["links"]]
    want = sorted(case["critical"])
    n = sum(r["s"] * 31 + r["e"] for r in runs) + len(links)
    forms = [("num", 1), ("time", 3600)] if n % 2 else [("num", 0.25), ("time", (1, 50000, 0.25)[n // 2 % 3])]
    for kind, scale in forms:
        for rev in (False, True):
            try:
                got = graph(runs, links[::-1] if rev else links, kind, scale, n // 3 % 3)
            except Exception as e:  # noqa: BLE001
                # a set without any run that takes time has no critical path
                got = [] if not want and all(r["s"] == r["e"] for r in runs) else repr(e)
            if got != want:
                bad.append(f"{kind}: critical are {got}, expected {want}")
    if case["wrong"]:
        try:
            got = graph(runs, links + [tuple(case["wrong"])], ("num", "time")[n // 4 % 2], (0.25, 60, 50000)[n % 3])
            bad.append(f"link {case['wrong']} between runs which do not touch is accepted")
        except (ValueError, AssertionError):
            pass
        except Exception as e:  # noqa: BLE001
            bad.append(f"link {case['wrong']} between runs which do not touch: {e!r}")
    long = [i for i, r in enumerate(runs) if r["e"] > r["s"]]
    if long:
        back = [dict(s=r["e"], e=r["s"]) if i == long[n % len(long)] else r for i, r in enumerate(runs)]
        try:
            got = graph(back, [], "time", 60)
            bad.append("a negative duration is accepted")
        except (ValueError, AssertionError):
            pass
        except Exception as e:  # noqa: BLE001
            bad.append(f"a negative duration: {e!r}")
    return bad


def graphs(prop, tier, seed, rep):
    cfgs = ["CriticalPath", "CriticalPath4"] if tier == "quick" else ["CriticalPath", "CriticalPath4", "CriticalPathB", "CriticalPathB5"]
    for cfg in cfgs:
        cases, g, d = engine.generate("CriticalPath", cfg, seed=seed)
        cases.sort(key=repr)
        with engine.pool() as p:
            res = p.map(replay, cases, chunksize=16)
        rep.add(d, g, 4 * len(cases))
        rep.sample(dict(case=cases[-1], verdict=res[-1] or "as expected"))
        n = 0
        for c, bad in zip(cases, res):
            if bad and n < 3:
                n += 1
                key = ";".join(f"{r['s']}-{r['e']}" for r in c["runs"]) + "/" + ",".join(f"{a}>{b}" for a, b in c["links"])
                rep.violation(f"graph-{key}", bad[0], dict(case=c, deviations=bad))
