#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the table of checks in props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa

PENDING = "not decided yet: its specification and driver are not built"


def main():
    root = os.path.dirname(HERE)
    with open(os.path.join(root, "properties.jsonl")) as fd:
        ids = [json.loads(line)["id"] for line in fd]
    checks = []
    for pid in ids:
        p = props.PROPS.get(pid)
        if p is None:
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.py {pid} --tier quick",
            "thorough_cmd": f"./check.py {pid} --tier thorough",
            "technique": p.technique,
            "level": p.level,
            "level_note": p.note,
        })
    data = {
        "version": 1,
        "setup_cmd": "python3 tools/build.py",
        "checks": checks,
        "not_applicable": [{"property": pid, "reason": props.NOT_APPLICABLE.get(pid, PENDING)}
                           for pid in ids if pid not in props.PROPS],
        "notes": "Every check rebuilds the harness from /repo's working tree into /verif/.build; no hooks are needed in /repo.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as fd:
        json.dump(data, fd, indent=1)
        fd.write("\n")


main()
