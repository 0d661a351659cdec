"""Plant bugs: from a spec file to confirmed /verif/seeded/<id>/ folders.

usage: python3-vt tools/plant.py SPEC.py [ID ...]      confirm and keep
       python3-vt tools/plant.py --kept [ID ...]       run the checks on kept bugs

A spec defines BUGS: a list of dicts with id, property, edits
([(file, old, new), ...]), demo (Python source), needs, breaks.  Everything
happens in scratch copies of /repo under /tmp, which are removed.
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ROOT = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"],
                      capture_output=True, text=True).stdout.split()[0]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec ' + PY + ' -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 99, "TIMEOUT"


def original(copy, file, old):
    """Does the edit replace at least one line that is the original repository's?"""
    text = open(os.path.join(copy, file)).read()
    return text.count(old)


def changed_original(copy, patch):
    """Lines the patch removes which the first commit wrote."""
    count, file, line = 0, None, 0
    for row in patch.splitlines():
        if row.startswith("--- a/"):
            file = row[6:]
            blame = sh(["git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", file])[1].splitlines()
        elif row.startswith("@@"):
            line = int(row.split()[1].split(",")[0][1:])
        elif row.startswith("-") and not row.startswith("---"):
            if blame[line - 1].split()[0].lstrip("^")[:30] == ROOT[:30]:
                count += 1
            line += 1
        elif row.startswith(" "):
            line += 1
    return count


def tests(copy):
    with tempfile.TemporaryDirectory(prefix="pt") as t:
        env = dict(PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", XDG_CONFIG_HOME="/opt/vp/astropy-config",
                   PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=copy)
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider",
                      "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                      "--tb=short", "--junitxml=" + t + "/x.xml", "tests"], cwd=copy, env=env)
        sh(["/usr/bin/python3", "/opt/vp/results.py", t + "/o.json", "junit:" + t + "/x.xml"])
        got = json.load(open(t + "/o.json"))
        return sorted(STABLE - set(got.get("passed", [])))


def check(prop, copy, tier="quick", seed="1"):
    with tempfile.TemporaryDirectory(prefix="pv") as t:
        t = os.path.join(t, "verif")
        shutil.copytree(VERIF, t, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
        os.makedirs(t + "/evidence"); os.makedirs(t + "/replays")
        start = time.time()
        rc, out = sh(["bash", t + "/check.sh", prop, tier], cwd=t,
                     env=dict(VERIF_REPO=copy, VERIF_SEED=seed, VERIF_TIER=tier))
        lines = [l for l in out.splitlines() if "VIOLATION" in l or "FAIL" in l][:3]
        return rc, lines or out.splitlines()[-3:], time.time() - start


def confirm(bug):
    d = tempfile.mkdtemp(prefix="plant-")
    copy = d + "/repo"
    try:
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        for file, old, new in bug["edits"]:
            p = os.path.join(copy, file)
            text = open(p).read()
            if text.count(old) != 1:
                return bug["id"], "edit of %s matches %d times: %r" % (file, text.count(old), old[:60])
            open(p, "w").write(text.replace(old, new))
        patch = sh(["git", "-C", copy, "diff", "--no-color"])[1]
        if not changed_original(copy, patch) and not os.environ.get("PLANT_ANY"):
            return bug["id"], "changes no original line"
        demo = d + "/demo"; os.makedirs(demo)
        open(demo + "/demo.py", "w").write(bug["demo"].strip() + "\n")
        open(demo + "/demo.sh", "w").write(DEMO_SH); os.chmod(demo + "/demo.sh", 0o755)
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=REPO, timeout=300)
        if rc: return bug["id"], "demo fails on the unchanged tree: " + out[-400:]
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=copy, timeout=300)
        if rc == 0: return bug["id"], "demo passes with the patch"
        demo_out = out.strip().splitlines()[-1:]
        bad = tests(copy)
        if bad: return bug["id"], "breaks tests: %s" % bad[:3]
        keep = VERIF + "/seeded/" + bug["id"]
        os.makedirs(keep, exist_ok=True)
        open(keep + "/patch.diff", "w").write(patch)
        for f in ("demo.py", "demo.sh"): shutil.copy(demo + "/" + f, keep)
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
                  open(keep + "/meta.json", "w"), indent=1)
        open(keep + "/meta.json", "a").write("\n")
        rc, lines, took = check(bug["property"], copy)
        return bug["id"], "%s rc=%d %.0fs %s" % ("CAUGHT" if rc == 1 else "MISSED", rc, took, lines), demo_out
    finally:
        shutil.rmtree(d)


def kept(id):
    d = tempfile.mkdtemp(prefix="plant-")
    copy = d + "/repo"
    try:
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        rc, out = sh(["git", "-C", copy, "apply", VERIF + "/seeded/%s/patch.diff" % id])
        if rc: return id, "does not apply: " + out
        prop = json.load(open(VERIF + "/seeded/%s/meta.json" % id))["property"]
        rc, lines, took = check(prop, copy, os.environ.get("VERIF_TIER", "quick"), os.environ.get("VERIF_SEED", "1"))
        return id, "%s rc=%d %.0fs %s" % ("CAUGHT" if rc == 1 else "MISSED", rc, took, lines)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--kept":
        ids = args[1:] or sorted(os.listdir(VERIF + "/seeded"))
        ids = [i for i in ids if os.path.isdir(VERIF + "/seeded/" + i)]
        jobs, f = ids, kept
    else:
        scope = {}
        exec(open(args[0]).read(), scope)
        jobs = [b for b in scope["BUGS"] if not args[1:] or b["id"] in args[1:]]
        f = confirm
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as pool:
        for result in pool.map(f, jobs):
            print(*result, flush=True)
