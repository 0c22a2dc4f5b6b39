import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    """Collects obligations and violations of one property check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obligations = []  # (rule, construct, ok)
        self.violations = []  # (key, message)
        self.stats = {}
        self.assumptions = []
        self.rules = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, rule, construct, detail=""):
        self.obligations.append((rule, str(construct), True, detail))

    def bad(self, rule, construct, msg):
        key = f"{rule}|{construct}"
        if key not in {k for k, _ in self.violations}:
            self.violations.append((key, msg))
            self.obligations.append((rule, str(construct), False, msg))

    def check(self, cond, rule, construct, msg):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, msg)

    def count(self, rule=None):
        return len([1 for o in self.obligations if rule is None or o[0] == rule])


def load_known(prop):
    """lines: 'known: property=<id> key=<rule|construct> :: what fails'   (fixed: lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                head, _, what = line[len("known:"):].partition("::")
                d = {}
                for part in head.strip().split(" ", 1):
                    k, _, v = part.strip().partition("=")
                    d[k] = v.strip()
                if d.get("property") == prop:
                    out[d.get("key")] = what.strip()
    return out


def finish(rep, tier, seed, level_note):
    known = load_known(rep.prop)
    new = []
    for key, msg in rep.violations:
        if key in known:
            print(f"KNOWN-FINDING: property={rep.prop} {known[key]}")
        else:
            new.append((key, msg))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = len(rep.obligations)
    good = len([1 for o in rep.obligations if o[2]])
    samples, seen = [], {}
    for r, c, okk, d in rep.obligations:
        if seen.get(r, 0) < 6:
            seen[r] = seen.get(r, 0) + 1
            samples.append(f"[{'ok' if okk else 'VIOLATED'}] {r}: {c}" + (f" ({d})" if d and okk else ""))
    per_rule = {}
    for r, c, okk, d in rep.obligations:
        per_rule[r] = per_rule.get(r, 0) + 1
    ev = {
        "property": rep.prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": level_note,
            "rule": " || ".join(rep.rules),
            "obligations": total, "discharged": good,
            "per_rule": per_rule, "analysed": rep.stats, "samples": samples,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    path = os.path.join(VERIF, "evidence", rep.prop + ".findings.txt")
    if new:
        with open(path, "w", encoding="utf-8") as f:
            for key, msg in new:
                f.write(f"{key}\n    {msg}\n")
        for key, msg in new[:12]:
            print(f"  {key}\n    {msg}")
        if len(new) > 12:
            print(f"  ... and {len(new) - 12} more in the replay file")
        print(f"VIOLATION property={rep.prop} replay={path}")
        return 1
    if os.path.exists(path):
        os.remove(path)
    print(f"OK property={rep.prop} obligations={total} discharged={good} rules={per_rule} {rep.stats}")
    return 0
