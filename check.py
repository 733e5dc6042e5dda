#!/usr/bin/python3
"""check.py PROPERTY [--replay FILE]

Decides one property of properties.jsonl for the sources in /repo.  Tier and
seed come from VERIF_TIER and VERIF_SEED."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")

from nbv import build, checks                      # noqa: E402
from nbv.context import Context                    # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    with build.Scratch(prop) as scratch:
        ctx = Context(prop, tier, seed, scratch)
        if "--replay" in sys.argv:
            with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
                data = json.load(f)
            ctx.prepare(weak=True)
            sys.exit(1 if checks.replay(ctx, data) else 0)
        check = checks.CHECKS[prop]
        try:
            ctx.prepare(weak=check.weak)
        except build.BuildError as e:
            print("build failed: %s" % e, file=sys.stderr)
            sys.exit(2)
        coverage = check.run(ctx)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": check.level, "coverage": coverage,
            "assumptions": check.assumptions, "wall_s": round(time.time() - ctx.began, 1),
            "violations": len(ctx.violations), "notes": ctx.notes[:20], "errors": [e[:500] for e in ctx.errors[:5]],
        }
        os.makedirs(build.EVIDENCE, exist_ok=True)
        text = json.dumps(evidence, indent=1, default=str)
        while len(text) > 60000 and evidence["notes"]:
            evidence["notes"].pop()
            text = json.dumps(evidence, indent=1, default=str)
        with open(build.EVIDENCE + "/%s.json" % prop, "w") as f:
            f.write(text + "\n")
        if ctx.violations:
            sys.exit(1)
        # single scenarios the harness could not stage (listed in the evidence) decide nothing
        if len(ctx.errors) > 3:
            sys.exit(2)
        # nothing is known when the specification could not be evaluated
        if ctx.undecided * 4 > ctx.runs:
            print("%s: %d of %d runs undecided" % (prop, ctx.undecided, ctx.runs), file=sys.stderr)
            sys.exit(2)
        print("%s held: %s" % (prop, {k: v for k, v in coverage.items() if isinstance(v, int)}))


main()
