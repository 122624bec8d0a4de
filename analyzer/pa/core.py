"""Results of a check, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from . import facts
from .facts import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Result:
    """Obligations of one property: each has a kind, a stable key and a verdict."""

    def __init__(self, prop):
        self.prop = prop
        self.obs = {}          # (kind, key) -> (ok, message)
        self.rules = {}        # kind -> rule text
        self.analysed = set()
        self.units = 0
        self.extra = {}
        self.assumptions = []

    def rule(self, kind, text, floor=1):
        self.rules[kind] = (text, floor)

    def ok(self, kind, key):
        self.obs.setdefault((kind, key), (True, ""))

    def bad(self, kind, key, msg):
        k = (kind, key)
        if k not in self.obs or self.obs[k][0]:
            self.obs[k] = (False, msg)

    def ob(self, kind, key, good, msg=""):
        if good:
            self.ok(kind, key)
        else:
            self.bad(kind, key, msg)

    def violations(self):
        return [(k, key, m) for (k, key), (ok, m) in sorted(self.obs.items()) if not ok]


def known():
    """Entries 'known:' of known_findings.json (fixed ones suppress nothing)."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e.get("status") == "known"]


def main(argv):
    import importlib
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    try:
        prog = facts.load()
        mod = importlib.import_module("pa.rules." + prop.lower())
        r = Result(prop)
        r.units = len(prog.units)
        mod.run(prog, r, tier)
        for kind, (text, floor) in r.rules.items():
            n = sum(1 for (k, _) in r.obs if k == kind)
            if n < floor:
                raise AnalysisError("rule '%s' matched %d instances (expected at least %d)"
                                    % (kind, n, floor))
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    viol = r.violations()
    kn = {(e["kind"], e["key"]): e for e in known() if e["property"] == prop}
    new, old = [], []
    for v in viol:
        (old if (v[0], v[1]) in kn else new).append(v)
    byk = {}
    for (k, _), (ok, _) in r.obs.items():
        a = byk.setdefault(k, [0, 0])
        a[0] += 1
        a[1] += ok
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current sources: every instance of the "
                           "rules below was enumerated from the type-resolved program and "
                           "decided; nothing was executed.",
            "translation_units": r.units,
            "functions_in_program": len(prog.functions),
            "functions_analysed": len(r.analysed),
            "functions": sorted(r.analysed)[:400],
            "obligations": len(r.obs),
            "discharged": sum(1 for ok, _ in r.obs.values() if ok),
            "rules": [{"kind": k, "rule": r.rules.get(k, ("", 0))[0], "instances": n,
                       "discharged": d} for k, (n, d) in sorted(byk.items())],
            "instances": ["%s: %s" % (k, key) for (k, key) in sorted(r.obs)][:400],
            "source_digest": prog.src_hash,
            **r.extra,
        },
        "assumptions": r.assumptions,
        "violations": len(new),
        "known_findings": len(old),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, (n, d) in sorted(byk.items()):
        print("%-28s %4d instances, %4d hold" % (k, n, d))
    for k, key, m in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[(k, key)]["what"]))
    if new:
        rep = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rep, "w") as f:
            for k, key, m in new:
                f.write("rule %s, instance %s\n  %s\n" % (k, key, m))
                f.write("  rule: %s\n\n" % r.rules.get(k, ("", 0))[0])
        for k, key, m in new:
            print("  [%s] %s: %s" % (k, key, m))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
