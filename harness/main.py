"""check <property> [--replay FILE]"""

import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
from common import Ctx, VERIF, jsonable, replay_one, run_suites  # noqa: E402

REGISTRY = {}


def registry():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("p_") and f.endswith(".py"):
            m = importlib.import_module(f[:-3])
            REGISTRY.update(m.PROPERTIES)
    return REGISTRY


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    common.load_rkstiff()
    p = registry()[prop]
    ctx = Ctx(prop, tier, seed)
    suites = p["suites"](ctx)
    if "--replay" in argv:
        blob = json.load(open(argv[argv.index("--replay") + 1]))
        s = [x for x in suites if x.name == blob["suite"]][0]
        replay_one(ctx, s, common._decode(blob["trace"]))
        print("violations:", len(ctx.violations))
        return 1 if ctx.violations else 0
    run_suites(ctx, suites)
    if p.get("extra"):
        p["extra"](ctx)
    for line in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {line}")
    wall = time.time() - ctx.t0
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "evaluations": ctx.evals,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": p["rule"],
        "by_kind": ctx.kinds,
        "samples": ctx.samples,
    }
    cov.update(jsonable(ctx.extra))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": p["level"],
        "coverage": cov,
        "assumptions": p.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {ctx.traces} behaviours, {ctx.transitions} transitions, {ctx.evals} comparisons, "
          f"{len(ctx.distinct)} distinct, {len(ctx.violations)} violations, {wall:.1f} s"
          + "".join(f", {v} {k.replace('_', ' ')}" for k, v in ctx.extra.items() if k == "left_to_other_properties"))
    if ctx.evals == 0:
        print("nothing was checked", file=sys.stderr)
        return 2
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
