#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True

from props import NOT_APPLICABLE, PROPS  # noqa: E402

from sa.registry import RULES  # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["all"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": "none",
                        },
                    }
                )
                + "\n"
            )
    checks = []
    for p in PROPS:
        if p["id"] not in RULES:
            continue
        mod, level, technique = RULES[p["id"]]
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                "technique": "static analysis: " + technique,
                "level": level,
                "level_note": p["note"],
            }
        )
    na = [{"property": i, "reason": r} for i, r in NOT_APPLICABLE]
    na += [
        {"property": p["id"], "reason": "no check is built for it yet"}
        for p in PROPS
        if p["id"] not in RULES and p["id"] not in dict(NOT_APPLICABLE)
    ]
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import sa.registry'",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check reads /repo's current sources (VERIF_REPO overrides the location) and never imports or runs them.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
