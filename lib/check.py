"""Verdicts, evidence and replay files shared by all checks."""
import hashlib, json, os, random, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.viol = {}      # key -> (what, replay payload)
        self.known_hits = {}
        self.assumptions = list(assumptions)
        self.known = set()
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: property=%s key=" % prop):
                    self.known.add(l.split("key=", 1)[1].split(" ", 1)[0])

    @property
    def thorough(self): return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return thorough if self.thorough and thorough is not None else quick

    def count(self, key, name=None, k=1):
        """Records one judged observation; key identifies its distinct non-trivial content (None: trivial)."""
        self.evals += k
        if key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
        if name: self.extra[name] = self.extra.get(name, 0) + k

    def note(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))

    def violate(self, key, what, replay=None):
        key = key.replace(" ", "_")
        if key in self.known:
            self.known_hits.setdefault(key, what)
            return
        if key not in self.viol and len(self.viol) < 50:
            self.viol[key] = (what, replay)

    def finish(self, min_evals=1):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k, w in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, " ".join(str(w).split())[:600]))
        if self.viol:
            d = os.path.join(VERIF, ".replays")
            os.makedirs(d, exist_ok=True)
            for k, (what, replay) in self.viol.items():
                h = hashlib.md5(k.encode()).hexdigest()[:10]
                p = os.path.join(d, "%s-%s.json" % (self.prop, h))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "key": k, "what": what, "seed": self.seed, "tier": self.tier,
                               "replay": replay}, f, indent=1, default=repr)
                print("%s: %s" % (k, str(what)[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            return 1
        if self.evals < min_evals or not self.distinct:
            print("inconclusive: only %d observations" % self.evals)
            return 2
        print("%s held on %d observations (%d distinct non-trivial), %.1f s" %
              (self.prop, self.evals, len(self.distinct), time.time() - self.t0))
        return 0
