"""Check context: findings, coverage counters, known findings, evidence, exit codes."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.findings = {}
        self.cov = {}
        self.undecided = []
        self.assumptions = []
        self.samples = []
        self.rules = {}
        self._project = self._schema = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def project(self):
        if self._project is None:
            from .project import Project
            self._project = Project()
            self.cov["modules_parsed"] = len(self._project.modules)
        return self._project

    @property
    def schema(self):
        if self._schema is None:
            from .project import load_schema
            self._schema = load_schema(self.project)
        return self._schema

    def rule(self, rid, text):
        self.rules[rid] = text

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 40 and s not in self.samples:
            self.samples.append(s)

    def und(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def violate(self, rule, file, line, func, construct, msg, config=None):
        key = f"{rule}|{func}|{' '.join(str(construct).split())}"
        f = self.findings.get(key)
        if f is None:
            self.findings[key] = dict(key=key, rule=rule, file=file, line=line, function=func, construct=construct,
                                      message=msg, configuration=config, occurrences=1)
        else:
            f["occurrences"] += 1

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for ln in fh:
                    ln = ln.rstrip("\n")
                    if ln.startswith("known: property=" + self.pid + " "):
                        rest = ln.split(" ", 2)[2]
                        if rest.startswith("key="):
                            k, _, what = rest[4:].partition(" :: ")
                            out[k] = what
        return out

    def finish(self):
        known = self.known()
        new = []
        for k, f in sorted(self.findings.items()):
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {f['file']}:{f['line']} {f['function']}: {known[k] or f['message']}")
            else:
                new.append(f)
        os.makedirs(EVID, exist_ok=True)
        vpath = os.path.join(EVID, self.pid + ".violations.json")
        if new:
            with open(vpath, "w") as fh:
                json.dump(new, fh, indent=1, default=str)
        elif os.path.exists(vpath):
            os.unlink(vpath)
        cov = dict(self.cov)
        cov["obligations_undecided"] = len(self.undecided)
        cov["explanation"] = ("static analysis of the current source under /repo/openamundsen; rules: "
                              + "; ".join(f"{k}: {v}" for k, v in self.rules.items()))
        cov["undecided"] = self.undecided[:60]
        cov["examples_of_analysed_constructs"] = self.samples
        man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        level = next((c["level"] for c in man["checks"] if c["property"] == self.pid), "other")
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 3), assumptions=self.assumptions,
                  violations=len(new))
        cov["reports"] = [f"{f['file']}:{f['line']} {f['function']}: [{f['rule']}] {f['message']}" for f in new]
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for f in new:
            print(f"{f['file']}:{f['line']}: in {f['function']}: [{f['rule']}] {f['message']}"
                  + (f"  (configuration: {f['configuration']})" if f["configuration"] else ""))
        print(f"{self.pid}: " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int))
              + f", findings={len(new)}, {ev['wall_s']} s")
        if new:
            print(f"VIOLATION property={self.pid} replay={vpath}")
            return 1
        return 0
