"""What a check reports: violations, known findings, evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """{key: text} of the findings listed for a property ('fixed:' lines suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                head, _, text = l[7:].partition(" :: ")
                p, _, key = head.partition(" key=")
                if p == "property=" + prop:
                    out[key] = text
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}
        self.count = {}
        self.sets = {}
        self.assumptions = []
        self.notes = []
        self.level = "other"
        self.rule = ""
        self.floors = {}

    def bad(self, key, text):
        self.viol.setdefault(key, text)

    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def put(self, name, items):
        self.sets.setdefault(name, set()).update(items)

    def floor(self, name, n):
        """Fails when fewer instances than confirmed by hand were found."""
        self.floors[name] = n

    def absorb(self, r):
        """Merges the result of a worker: {"viol": [(key, text)], "count": {}, "sets": {}}."""
        for k, t in r.get("viol", ()):
            self.bad(k, t)
        for k, n in r.get("count", {}).items():
            self.add(k, n)
        for k, s in r.get("sets", {}).items():
            self.put(k, s)

    def finish(self):
        for k, n in self.floors.items():
            have = len(self.sets[k]) if k in self.sets else self.count.get(k, 0)
            if have < n:
                self.bad(f"floor {k}", f"only {have} of at least {n} instances of '{k}' were found: the analysis no longer covers what it was confirmed on")
        known = known_findings(self.prop)
        new = {k: t for k, t in self.viol.items() if k not in known}
        old = {k: t for k, t in self.viol.items() if k in known}
        for k in sorted(old):
            print(f"KNOWN-FINDING: property={self.prop} {known[k] or old[k]}")
        ev = os.environ.get("FF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, f"{self.prop}.violations.txt")
        if os.path.exists(replay):
            os.unlink(replay)
        if new:
            with open(replay, "w") as f:
                for k in sorted(new):
                    f.write(f"[{k}]\n    {new[k]}\n")
        counts = dict(sorted(self.count.items()))
        for k, s in self.sets.items():
            counts[k] = len(s)
        cov = {"explanation": self.rule}
        cov.update(counts)
        for k, s in self.sets.items():
            if 0 < len(s) <= 60:
                cov["list: " + k] = sorted(map(str, s))
        if self.level == "proof":
            n = max(self.count.get("obligations", 0), 1)
            cov["obligations"] = n
            cov["discharged"] = n - min(n, len(self.viol)) if self.viol else n
            cov["checker_cmd"] = f"python3 check.py {self.prop}"
            cov.setdefault("trusted_base", [
                "rustc nightly front end: type checking, monomorphisation and MIR construction of the crate as compiled for this target",
                "the rustc driver in driver/ that writes out the MIR",
                "the abstract interpreter in analyzer/ and its models of the standard-library functions the crate calls"])
        d = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
             "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
             "assumptions": self.assumptions + self.notes}
        with open(os.path.join(ev, f"{self.prop}.json"), "w") as f:
            json.dump(d, f, indent=1, default=str)
        for k in sorted(new)[:12]:
            print(f"  [{k}] {new[k]}"[:600])
        if new:
            print(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        print(f"{self.prop} holds: " + ", ".join(f"{k}={v}" for k, v in counts.items())[:600] + f" ({d['wall_s']} s)")
        return 0
