"""Findings, known-findings matching, evidence and exit protocol shared by all checks."""

from __future__ import annotations

import json
import os
import time
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


@dataclass
class Finding:
    rule: str
    construct: str  # function / class the finding is about (no line numbers)
    detail: str  # stable discriminator inside the construct
    loc: str  # file:line, informative only
    message: str

    @property
    def key(self):
        return f"{self.rule}|{self.construct}|{self.detail}"


@dataclass
class Result:
    findings: list = field(default_factory=list)
    stats: dict = field(default_factory=dict)  # measured counts
    floors: dict = field(default_factory=dict)  # stat name -> minimum confirmed by hand
    explanation: str = ""
    assumptions: list = field(default_factory=list)

    def add(self, rule, construct, detail, loc, message):
        f = Finding(rule, construct, detail, loc, message)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)


def load_known(path=KNOWN):
    """Lines `known: property=<id> key=<key> :: <what fails>`."""
    out = {}
    if not os.path.exists(path):
        return out
    for ln in open(path, encoding="utf8"):
        ln = ln.strip()
        if not ln.startswith("known:"):
            continue
        body, _, what = ln[len("known:") :].strip().partition(" :: ")
        prop, _, key = body.partition(" key=")
        prop = prop.split("property=")[1].strip()
        out[(prop, key.strip())] = what.strip()
    return out


def finish(prop, tier, level, technique, res: Result, t0):
    known = load_known()
    new, listed = [], []
    for f in res.findings:
        (listed if (prop, f.key) in known else new).append(f)
    for k, lo in res.floors.items():
        v = res.stats.get(k, 0)
        if v < lo:
            print(f"ANALYSIS-BROKEN property={prop}: {k}={v} below the confirmed floor {lo}")
            return 2
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": res.explanation,
            "technique": technique,
            **res.stats,
            "findings_total": len(res.findings),
            "findings_known": len(listed),
        },
        "assumptions": res.assumptions,
        "violations": [
            {"rule": f.rule, "construct": f.construct, "detail": f.detail, "at": f.loc, "message": f.message}
            for f in new
        ],
        "wall_s": round(time.time() - t0, 3),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w", encoding="utf8") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    print(f"property {prop}: " + ", ".join(f"{k}={v}" for k, v in sorted(res.stats.items()) if isinstance(v, (int, float))))
    for f in listed:
        print(f"KNOWN-FINDING: property={prop} {f.key} at {f.loc}: {known[(prop, f.key)]}")
    if not new:
        return 0
    rp = os.path.join(d, f"{prop}.violation.txt")
    with open(rp, "w", encoding="utf8") as fh:
        for f in new:
            fh.write(f"{f.loc}: [{f.rule}] {f.construct}: {f.message}\n    key: {f.key}\n")
    for f in new:
        print(f"  {f.loc}: [{f.rule}] {f.construct}: {f.message}")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1
