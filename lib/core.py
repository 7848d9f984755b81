"""Shared parts of the checks: registry, verdicts, evidence, known findings."""
import hashlib, json, os, re, sys, time
import run
from run import V, Tool

REPLAYS = os.path.join(V, ".build", "replays")
KNOWN = os.path.join(V, "known_findings.txt")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []          # (description, replay object)
        self.known = []         # descriptions
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.work = run.Work(pid)
        self.log("seed %d, tier %s" % (seed, tier))

    thorough = property(lambda self: self.tier == "thorough")

    def log(self, msg):
        print("[%s %5.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def states(self, gen, distinct):
        self.cov["states"] += distinct
        self.cov["transitions"] += gen

    def violation(self, what, replay):
        self.viol.append((what, replay))

    def known_inputs(self):
        """the listed findings of this property: [(input, text)]"""
        out = []
        if not os.path.exists(KNOWN):
            return out
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) input=(.*?) what=(.*)$", l.rstrip("\n"))
            if m and m.group(1) == self.pid:
                out.append((json.loads(m.group(2)), m.group(3)))
        return out

    def finish(self, level="model_checking"):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, ensure_ascii=False)
        self.work.close()
        if not self.viol:
            self.log("held on everything explored: %s" % {k: v for k, v in self.cov.items() if isinstance(v, int)})
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (what, rep) in enumerate(self.viol[:5]):
            h = hashlib.sha1(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, h))
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print("  %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        if len(self.viol) > 5:
            print("  ... and %d more" % (len(self.viol) - 5))
        return 1
