#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property, see DESIGN.md."""

import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True

import campaign  # noqa: E402
import gen  # noqa: E402
import registry  # noqa: E402

QUICK, THOROUGH = 1600, 20000


def wanted(clauses, found):
    return [c for c in found if any(c.startswith(p) for p in clauses)]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = registry.CHECKS[prop]
        self.violations = []
        self.coverage = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.notes = {}

    def take(self, name, result):
        cov = self.coverage
        cov["states"] += result.states
        cov["transitions"] += result.segments
        cov["traces_validated_against_impl"] += result.traces
        if len(cov["samples"]) < 4:
            cov["samples"] += result.samples
        self.notes[name] = {
            "traces": result.traces,
            "passes": result.segments,
            "elements": result.elements,
        }
        for job, segment, clauses, error in result.bad:
            if hit := wanted(self.spec["clauses"], clauses):
                self.violations.append((job, segment, hit, error))

    def families(self):
        names = self.spec.get("families", [])
        if not names:
            return
        total = self.spec.get("count", QUICK)
        if self.tier == "thorough":
            total = THOROUGH
        batch = total if self.tier == "quick" else 2000
        done = 0
        while done < total and not self.violations:
            jobs = []
            for name in names:
                scenarios = gen.scenarios(
                    f"{self.seed}-{done}", max(1, batch // len(names)),
                    **registry.FAMILIES[name],
                )  # fmt: skip
                for sc in scenarios:
                    sc["id"] = f"{name}-{done}-{sc['id']}"
                    sc["family"] = name
                jobs += scenarios
            result = campaign.run(jobs)
            self.take("+".join(names) if not done else f"batch-{done}", result)
            done += batch

    def run(self):
        for step in self.spec.get("steps", ["families"]):
            if self.violations:
                break
            if callable(step):
                step(self)
            else:
                getattr(self, step)()

    def report(self):
        if not self.violations:
            return 0
        # The shortest one
        job, segment, clauses, error = min(
            self.violations, key=lambda v: (v[1], len(json.dumps(v[0])))
        )
        folder = os.path.join(HERE, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{self.prop}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": self.prop,
                    "clauses": clauses,
                    "segment": segment,
                    "error": error,
                    "job": job,
                },
                fh,
                indent=1,
            )
        print(f"{self.prop}: {len(self.violations)} violations, for instance")
        print(f"  scenario {job.get('id')}, segment {segment}: {', '.join(clauses)}")
        if error:
            print("  " + error.strip()[-1500:].replace("\n", "\n  "))
        print(f"VIOLATION property={self.prop} replay={os.path.relpath(path, HERE)}")
        return 1

    def evidence(self, wall):
        folder = os.path.join(HERE, "evidence")
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, f"{self.prop}.json"), "w") as fh:
            json.dump(
                {
                    "property": self.prop,
                    "tier": self.tier,
                    "seed": self.seed,
                    "level": self.spec.get("level", "model_checking"),
                    "coverage": {**self.coverage, "parts": self.notes},
                    "assumptions": self.spec.get("assumptions", []),
                    "wall_s": round(wall, 2),
                    "violations": len(self.violations),
                },
                fh,
                indent=1,
            )


def replay(check, path):
    with open(path) as fh:
        content = json.load(fh)
    job = content["job"]
    result = campaign.run([job], driver=job.get("driver", "rt.py"),
                          module=job.get("module", "Trace"))  # fmt: skip
    check.take("replay", result)
    return check.report()


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", 1)))
    parser.add_argument("--replay")
    args = parser.parse_args()
    start = time.time()
    check = Check(args.property, args.tier, args.seed)
    if args.replay:
        return replay(check, args.replay)
    check.run()
    check.evidence(time.time() - start)
    code = check.report()
    cov = check.coverage
    print(
        f"{args.property}: {cov['traces_validated_against_impl']} traces, "
        f"{cov['transitions']} transitions, {cov['states']} states, "
        f"{time.time() - start:.1f} s"
    )
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
