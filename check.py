#!/usr/bin/env python3
"""
Check a property: check.py ID [--tier quick|thorough] [--replay PATH]

Exits with 0 if the property held on everything explored, 1 and a line
"VIOLATION property=ID replay=PATH" otherwise.
"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build
import props
import vlib


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("id")
    parser.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    args = parser.parse_args()

    prop = props.PROPS[args.id]
    check = vlib.Check(args.id, args.tier, args.seed, prop.level)
    check.assumptions = list(prop.assumptions)
    try:
        build.build(prop.drivers)
        if args.replay:
            with open(args.replay) as fd:
                data = json.load(fd)
            print("replaying", args.replay)
            prop.replay(check, data)
        else:
            prop.run(check)
    except vlib.Violation as v:
        check.violation = v
    if not args.replay:
        check.finish()
    for line in check.known:
        print(f"KNOWN-FINDING: property={args.id} {line}")
    if check.violation:
        print(check.violation.what[:4000])
        print(f"VIOLATION property={args.id} replay={check.violation.replay}")
        return 1
    print(f"{args.id}: held on everything explored in {check.elapsed():.0f}s: " +
          ", ".join(f"{k}={v}" for k, v in check.cov.items() if isinstance(v, int)))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (vlib.CheckError, build.BuildError) as e:
        print("error:", e, file=sys.stderr)
        sys.exit(2)
