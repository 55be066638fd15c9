"""Obligations, verdicts, evidence, known findings."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.obl = []           # (key, verdict, where, detail)
        self.floors = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.samples = []

    def ok(self, key, where="", detail=""):
        self.obl.append((key, "ok", where, detail))

    def bad(self, key, where, detail):
        self.obl.append((key, "violation", where, detail))

    def unsure(self, key, where, detail):
        self.obl.append((key, "undecided", where, detail))

    def expect(self, what, found, floor):
        """an instance count confirmed by hand; below it the check fails closed"""
        self.floors.append({"what": what, "found": found, "floor": floor})
        if found < floor:
            self.bad("floor/" + what, "", "only %d instances of %s found, at least %d expected" % (found, what, floor))

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def finish(self):
        known, fixed = load_known(self.prop)
        viols, kn = [], []
        for k, v, w, d in self.obl:
            if v == "violation":
                if k in known:
                    kn.append((k, w, d))
                else:
                    viols.append((k, w, d))
        undec = [o for o in self.obl if o[1] == "undecided"]
        okn = [o for o in self.obl if o[1] == "ok"]
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obl),
            "discharged": len(okn),
            "undecided": [{"key": k, "where": w, "why": d[:400]} for k, _, w, d in undec][:60],
            "known_findings": [{"key": k, "where": w} for k, w, d in kn],
            "floors": self.floors,
            "samples": self.samples or [{"key": k, "where": w, "detail": d[:500]} for k, _, w, d in okn[:4]],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viols),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, w, x in kn:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, known[k]))
        if viols:
            rp = os.path.join(d, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for k, w, x in viols:
                    f.write("%s\n  at %s\n  %s\n\n" % (k, w, x))
            for k, w, x in viols[:6]:
                print("  %s at %s: %s" % (k, w, x[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1fs" % (
            self.prop, len(self.obl), len(okn), len(undec), len(kn), time.time() - self.t0))
        return 0


def load_known(prop):
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s key=" % prop):
                rest = line.split(" key=", 1)[1]
                k, _, txt = rest.partition(" ")
                known[k] = txt
            elif line.startswith("fixed: property=%s " % prop):
                fixed.append(line)
    return known, fixed
