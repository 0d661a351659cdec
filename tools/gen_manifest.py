"""Writes MANIFEST.json from properties.jsonl and the laws that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
    "C01": "property-based testing: random unit expression trees against an exact size/dimension model",
    "C02": "property-based testing: random conversions against a size model, round trips, intermediates",
    "C03": "property-based testing: differential arithmetic/comparison against model amounts",
    "C04": "property-based testing: differential against ERFA geodesy, boundary-biased",
    "C05": "property-based testing: print/decode round trip around carries",
    "C06": "property-based testing: generated shapes and data, read-back",
    "C07": "property-based testing: round trip and rotation invariants",
    "C08": "property-based testing: differential against ERFA c2t06a",
    "C09": "property-based testing: differential against ERFA geodesy, round trips",
    "C10": "property-based testing: metamorphic chains of frame conversions",
    "C11": "property-based testing: differential against an ENU model, reconstruction",
    "C12": "property-based testing: metamorphic split/permute/repeat/extend of series",
    "C13": "property-based testing: snapshots, repetition, integer/float metamorphic",
    "C14": "property-based testing: definitional identities and ERFA Sun",
    "C15": "property-based testing: differential against ERFA sidereal time",
    "C16": "property-based testing: differential against an independent calendar",
    "C17": "property-based testing: differential against ERFA models",
    "C18": "property-based testing: differential against vector geometry",
    "C19": "property-based testing: frame invariants over random orbits",
    "C20": "property-based testing: pointing-matrix oracle over random geometry",
    "C21": "property-based testing: window set against a per-sample visibility oracle",
    "C22": "property-based testing: day/night windows against an independent Sun oracle, metamorphic union",
    "C23": "model-based stateful testing against a list",
    "C24": "model-based stateful testing of request histories",
    "C25": "property-based testing: feasibility validator over generated partial schedules",
    "C26": "property-based testing: before/after oracle over generated schedules",
    "C27": "property-based testing: schedule validator and greedy reference over generated passes",
    "C28": "property-based testing: table-driven cost landscapes with recorded candidates",
    "C29": "property-based testing: reference cost and greedy model over generated request sets",
    "C30": "property-based testing: write/parse round trip of text files",
    "C31": "property-based testing: generated invalid arguments in histories; documented error, unchanged state and answers",
}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
import sys
sys.path.insert(0, HERE)
os.environ.setdefault("VERIF_REPO", "/repo")
from harness.run import MODULES
for p in props:
    id_ = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "checks", MODULES[id_] + ".py")) and \
            '@law("%s"' % id_ in open(os.path.join(HERE, "harness", "checks", MODULES[id_] + ".py")).read():
        checks.append({
            "property": id_, "quick_cmd": "./check.sh %s quick" % id_,
            "thorough_cmd": "./check.sh %s thorough" % id_,
            "technique": HOW[id_], "level": "exploration",
            "level_note": "generated-input search with shrinking; DESIGN.md lists oracle, bounds and tolerances",
        })
    else:
        missing.append({"property": id_, "reason": "its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py",
           "checks": checks, "not_applicable": missing},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(missing), "missing")
