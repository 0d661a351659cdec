import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core  # noqa: E402

MODULES = {}
for ids, module in [
        ("C01 C02 C03", "units"), ("C04 C05", "location"),
        ("C06 C07 C08 C09 C10 C11", "frames"), ("C12 C13", "purity"),
        ("C14 C15 C16 C17", "times"), ("C18 C19 C20", "satellite"),
        ("C21 C22 C23", "windows"), ("C24 C25 C26 C29", "requests"),
        ("C27 C28", "search"), ("C30", "files"), ("C31", "refusals")]:
    for id_ in ids.split():
        MODULES[id_] = module


def load(prop):
    import celest
    path = os.path.realpath(list(celest.__path__)[0])
    if not (path + os.sep).startswith(core.PACKAGE):
        print("celest imported from", path, "not", core.PACKAGE)
        sys.exit(2)
    importlib.import_module("harness.checks." + MODULES[prop])
    return core.LAWS[prop]


WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
FAST = os.environ.get("VERIF_FAST") == "1"     # tools/mutate.py: no shrinking, stop at the first failure


def worker(args):
    prop, index, tier, seed, scratch, shard, shards = args
    place = os.path.join(scratch, "%d-%d" % (index, shard))
    os.makedirs(place, exist_ok=True)
    os.chdir(place)
    core.guard()
    return core.search(core.LAWS[prop][index], tier, seed, shard, shards)


def merge(parts):
    """One law's result from those of its shards (disjoint seeds, same law)."""
    result = dict(parts[0])
    for part in parts[1:]:
        result["evaluations"] += part["evaluations"]
        result["capped"] = result["capped"] or part["capped"]
        result["keys"] = result["keys"] | part["keys"]
        result["samples"] = (result["samples"] + part["samples"])[:2]
        for key, value in part["labels"].items():
            result["labels"][key] = result["labels"].get(key, 0) + value
        result["findings"].update(part["findings"])
        result["wall_s"] = max(result["wall_s"], part["wall_s"])
        result["error"] = result["error"] or part["error"]
        if part["fail"] and (not result["fail"] or len(json.dumps(part["fail"]["case"])) <
                             len(json.dumps(result["fail"]["case"]))):
            result["fail"] = part["fail"]
    result["distinct"] = len(result.pop("keys"))
    return result


def check(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    laws = load(prop)
    only = os.environ.get("VERIF_LAWS")
    indices = [i for i, l in enumerate(laws) if not only or l.name in only.split(",")]
    scratch = tempfile.mkdtemp(prefix="celest-verif-")
    try:
        shards = max(3, WORKERS // len(indices))
        jobs = [(prop, i, tier, seed, scratch, k, shards) for i in indices for k in range(shards)]
        with mp.get_context("fork").Pool(min(WORKERS, len(jobs)), maxtasksperchild=1) as pool:
            if FAST:
                for part in pool.imap_unordered(worker, jobs, chunksize=1):
                    if part["fail"]:
                        print("VIOLATION property=%s law=%s: %s" % (
                            prop, part["law"], part["fail"]["message"][:300]))
                        pool.terminate()
                        return 1
                    if part["error"]:
                        print("ERROR in law %s: %s" % (part["law"], part["error"][-600:]))
                        pool.terminate()
                        return 2
                return 0
            parts = pool.map(worker, jobs, chunksize=1)
        results = [merge(parts[k * shards:(k + 1) * shards]) for k in range(len(indices))]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(core.REPLAYS, exist_ok=True)
    violations, errors, findings = [], [], {}
    for i, result in zip(indices, results):
        findings.update(result["findings"])
        if result["error"]:
            errors.append((result["law"], result["error"]))
        if result["fail"]:
            path = os.path.join(core.REPLAYS, "%s-%s.json" % (prop, result["law"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, law=result["law"], seed=seed, tier=tier,
                               **result["fail"]), f, indent=1)
            violations.append((result["law"], path, result["fail"]))
    wall = time.time() - start
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": "; ".join("%s: %s" % (laws[i].name, laws[i].rule) for i in indices),
            "samples": [s for r in results for s in r["samples"]],
            "laws": {r["law"]: {k: r[k] for k in ("evaluations", "distinct", "labels",
                                                    "capped", "wall_s")} for r in results},
        },
        "assumptions": ["ERFA (pyerfa), Python's float arithmetic and Hypothesis's generators"],
        "wall_s": wall, "violations": len(violations),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for key, message in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, message, key))
    for r in results:
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s%s %s" % (
            prop, r["law"], r["evaluations"], r["distinct"], r["wall_s"],
            " (time cap)" if r["capped"] else "", json.dumps(r["labels"]) if r["labels"] else ""))
    for name, path, fail in violations:
        print("law %s: %s\ncase: %s" % (name, fail["message"], json.dumps(fail["case"])[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for name, error in errors:
        print("ERROR in law %s:\n%s" % (name, error))
    return 1 if violations else 2 if errors else 0


def replay(path):
    with open(path) as f:
        record = json.load(f)
    law = [l for l in load(record["property"]) if l.name == record["law"]][0]
    scratch = tempfile.mkdtemp(prefix="celest-verif-")
    os.chdir(scratch)
    try:
        core.execute(law, core.Ctx(core.Stats(), record["case"],
                                   core.known_keys(record["property"])), record["case"])
    except core.Fail as failure:
        print(failure)
        print("VIOLATION property=%s replay=%s" % (record["property"], path))
        return 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("no violation")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(sys.argv[1], tier))
