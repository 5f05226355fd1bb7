"""Evidence, verdict lines, known findings and replay artefacts"""
import json
import os
import pathlib
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def thorough():
    """Is this the deep run?"""
    return TIER == "thorough"


def known_findings(prop):
    """The listed findings of a property: {key: description}"""
    found = {}
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        line = line.strip()
        if not line.startswith("finding: property={} ".format(prop)):
            continue
        rest = line.split(" ", 2)[2]
        key, _, text = rest.partition(" ")
        assert key.startswith("key="), line
        found[key[4:]] = text
    return found


def finish(prop, level, stats, started, rule, assumptions=(), extra=None, exhaustive=None, states=None):
    """Write the evidence and print the verdict. Returns the exit code"""
    known = known_findings(prop)
    violations, suppressed = [], {}
    for violation in stats["violations"]:
        if violation["key"] in known:
            suppressed.setdefault(violation["key"], violation)
        else:
            violations.append(violation)
    coverage = {
        "samples": stats["samples"][:6],
        "jobs": stats.get("jobs"),
        "rule": rule,
        "distinct_outcomes": len(stats["outcomes"]),
        "max_choice_depth": stats["depth"],
        "capped_jobs": stats["capped"],
        "exhaustive": (not stats["capped"]) if exhaustive is None else exhaustive,
        "per_scenario": {
            name: {"executions": s["executions"], "cases": s["cases"], "transitions": s["transitions"],
                   "distinct_outcomes": len(s["outcomes"])}
            for name, s in sorted(stats.get("perscenario", {}).items())
        },
        "known_findings_seen": sorted(suppressed),
    }
    if level == "model_checking":
        coverage["states"] = stats["nodes"] + stats["cases"] if states is None else states
        coverage["transitions"] = stats["transitions"]
        coverage["traces_validated_against_impl"] = stats["cases"]
    else:
        coverage["evaluations"] = stats["cases"]
        coverage["distinct_nontrivial"] = len(stats["outcomes"])
    if extra:
        coverage.update(extra)
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
        "assumptions": list(assumptions), "wall_s": round(time.time() - started, 3), "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / "{}.json".format(prop)).write_text(json.dumps(evidence, indent=1, default=repr) + "\n")
    for key in sorted(suppressed):
        print("KNOWN-FINDING: property={} {}".format(prop, known[key]))
    seen = set()
    for violation in violations:
        if violation["key"] in seen:
            continue
        seen.add(violation["key"])
        if len(seen) > 5:
            break
        folder = VERIF / "replay"
        folder.mkdir(exist_ok=True)
        path = folder / "{}-{}.json".format(prop, len(seen))
        path.write_text(json.dumps(dict(violation, property=prop), indent=1, default=repr) + "\n")
        print("VIOLATION property={} replay={}".format(prop, path))
        print("  key      {}".format(violation["key"]))
        print("  scenario {} {}".format(violation["scenario"], repr(violation["params"])[:300]))
        print("  choices  {}".format(" ".join(violation["trace"])[:1000]))
        print("  detail   {}".format(violation["detail"][:2000]))
    print("{}: {} executions, {} cases, {} transitions, {} distinct outcomes, {} capped jobs, {:.1f} s, {}".format(
        prop, stats["executions"], stats["cases"], stats["transitions"], len(stats["outcomes"]), stats["capped"],
        time.time() - started, "VIOLATED" if violations else "held",
    ))
    sys.stdout.flush()
    return 1 if violations else 0
