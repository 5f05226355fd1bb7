"""Writes MANIFEST.json: a claim for every property that has a check (run by hand)"""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTES = json.loads((ROOT / "tools" / "notes.json").read_text())
checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    prop = json.loads(line)["id"]
    path = ROOT / "checks" / (prop.lower() + ".py")
    if not path.exists():
        missing.append({"property": prop, "reason": "no check yet: being built"})
        continue
    level = re.search(r'^LEVEL = "(.*)"', path.read_text(), re.M).group(1)
    note = NOTES.get(prop, {})
    checks.append({
        "property": prop,
        "quick_cmd": "./run.sh " + prop,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + prop,
        "evidence_file": "evidence/{}.json".format(prop),
        "technique": note.get("technique", "exhaustive bounded exploration of the real code on a controlled event loop against a "
                                           "reference model"),
        "level": level,
        "level_note": note.get("note", "Every case of the bounded space is executed on the code itself; values and histories outside "
                                       "the bounds given in the evidence are not covered."),
    })
manifest = {
    "version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import yaml, crcmod' && mkdir -p evidence replay",
    "checks": checks, "not_applicable": missing,
    "notes": "No hooks: the checks replace the event loop, the clock, the sockets and the file operations from outside.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "claimed", len(missing), "not yet")
