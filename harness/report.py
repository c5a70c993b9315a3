"""Outcome of a check: evidence file, violation lines, known findings."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known = [], [], []
        self.extra, self.assumptions = {}, []
        self.findings = load_findings(prop)

    def add(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, x, n=6):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, key, what, data):
        """key identifies the failing input or history."""
        for f in self.findings:
            if f["key"] == key:
                self.known.append(f"{f['key']}: {f['what']}")
                return
        d = os.path.join(ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        name = "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in f"{self.prop}-{key}")[:120]
        path = os.path.join(d, name + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, key=key, what=what, data=data), f, indent=1, default=str)
        self.violations.append((key, what, path))

    def finish(self):
        for k in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for key, what, path in self.violations[:5]:
            print(f"  {key}: {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples or ["none"],
        )
        cov.update(self.extra)
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{self.prop} {self.tier}: {'violated' if self.violations else 'held'}; {self.traces} executions of the code, "
            f"{self.states} states, {self.transitions} transitions, {ev['wall_s']} s"
        )
        return 1 if self.violations else 0


def load_findings(prop):
    """Open findings of this property (known_findings.txt); lines of fixed ones suppress nothing."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                head, what = line[len("finding: "):].split(" | ", 1)
                d = dict(x.split("=", 1) for x in head.split(" "))
                if d["property"] == prop:
                    out.append(dict(key=d["key"], what=what))
    return out
