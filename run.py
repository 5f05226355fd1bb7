"""Run one check: run.py C01 [replay FILE]"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("PYZWAVE_REPO", "/repo")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)

# pylint: disable=wrong-import-position
from mc import explore, report


def main():
    prop = sys.argv[1]
    started = time.time()
    check = importlib.import_module("checks." + prop.lower())
    import pyzwave  # pylint: disable=import-outside-toplevel

    assert pyzwave.__file__.startswith(os.environ.get("PYZWAVE_REPO", "/repo")), pyzwave.__file__
    explore.LIMIT = getattr(check, "LIMIT", 600 if report.thorough() else 60)
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        with open(sys.argv[3]) as fd:
            item = json.load(fd)
        choices, outcome, violation = explore.run_one(
            check.SCENARIOS[item["scenario"]], item["params"], item["choices"]
        )
        print("choices", choices.trace())
        print("outcome", outcome)
        print("violation", violation)
        sys.exit(1 if violation else 0)
    stats = explore.explore(check.SCENARIOS, check.jobs(report.thorough()), budget=3000 if report.thorough() else 600,
                            known=report.known_findings(prop))
    extra = check.extra() if hasattr(check, "extra") else None
    code = report.finish(
        prop, check.LEVEL, stats, started, check.RULE, getattr(check, "ASSUMPTIONS", ()), extra
    )
    sys.exit(code)


if __name__ == "__main__":
    main()
