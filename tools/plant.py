"""Turn tools/bugs/*.py descriptions into seeded/<id>/ and confirm each one in a scratch copy.

    python3 tools/plant.py [ID ...]       write + confirm (tests pass, demo 0 clean / !=0 patched)
    python3 tools/plant.py --catch [ID ...]   which check (its own property's) reports it
    python3 tools/plant.py --catch --all ID   run every check against it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from bugs import BUGS  # noqa: E402

ENV = "source /opt/vp/env.sh; "

DEMO_SH = """#!/bin/bash
# exit 0 on the unchanged tree, 1 when the guarantee is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export DEMO_SCRATCH="$scratch" MPLCONFIGDIR="$scratch"
/opt/venv/bin/python -B "$here/demo.py"
"""

DB_PY = '''"""A private copy of the package with a small synthetic atmosphere database."""
import importlib.util
import os
import shutil
import sys

import numpy as np


def stage():
    src = os.path.dirname(importlib.util.find_spec("pybsm").origin)
    dst = os.path.join(os.environ["DEMO_SCRATCH"], "pybsm")
    shutil.copytree(src, dst, ignore=lambda d, n: [x for x in n if x.endswith(".bin") or x == "__pycache__"])
    sys.path.insert(0, os.environ["DEMO_SCRATCH"])
    return os.path.join(dst, "atms")


def spectra(seed):
    """1371 x 5: transmission, path thermal, surface emission, solar scatter, ground reflected."""
    lam = np.linspace(0.3, 14.0, 1371)
    k = 1 + 0.1 * np.sin(lam * (1 + seed % 17) + seed)
    t = 0.7 * np.exp(-((0.45 / lam) ** 4)) * (0.9 + 0.05 * k / (1 + seed % 5))
    sun = 8e-3 * np.exp(-(((lam - 0.6) / 0.5) ** 2)) * k
    hot = 8e-4 * np.exp(-(((lam - 10.0) / 4.0) ** 2)) * k
    return np.stack([t, 0.3 * hot, 0.5 * hot, 0.2 * sun, 0.5 * sun], axis=1).astype(np.float32)


def put(atms, altitude, ground_range, ihaze):
    """Write the file of one condition of the decoder and return its spectra."""
    rows = np.genfromtxt(os.path.join(atms, "fileDecoder.csv"), delimiter=",", skip_header=1)
    m = (rows[:, 1] == altitude / 1e3) & (rows[:, 2] == ground_range / 1e3) & (rows[:, 3] == ihaze)
    i = int(rows[m][0, 0])
    s = spectra(i)
    s.T.copy().tofile(os.path.join(atms, "%d.bin" % i))
    return s
'''


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", ENV + cmd], capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d, d + "/repo"


def apply(repo, bug):
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for f, old, new, *occ in bug["edits"]:
        p = os.path.join(repo, "src/pybsm", f)
        s = open(p).read()
        assert occ or s.count(old) == 1, (bug["id"], f, s.count(old), old)
        parts, n = s.split(old), (occ[0] if occ else 0) + 1
        open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    # removed lines must stem from the base commit
    for f in {e[0] for e in bug["edits"]}:
        orig = subprocess.run(["git", "-C", "/repo", "show", f"4287f81:src/pybsm/{f}"], capture_output=True, text=True).stdout.splitlines()
        d = subprocess.run(["git", "-C", repo, "diff", "-U0", "--", "src/pybsm/" + f], capture_output=True, text=True).stdout
        for ln in d.splitlines():
            if ln.startswith("-") and not ln.startswith("---") and ln[1:] not in orig:
                print("  NOTE", bug["id"], "touches a line added by a fix:", ln)
    return diff


def confirm(bug, known_fail=set()):
    out = os.path.join(HERE, "seeded", bug["id"])
    shutil.rmtree(out, ignore_errors=True)
    d, repo = scratch()
    try:
        e = f"cd {repo}; export PYTHONPATH={repo}/src; "
        os.makedirs(d + "/demo")
        open(d + "/demo/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo/demo.sh", 0o755)
        open(d + "/demo/demo.py", "w").write(bug["demo"].strip() + "\n")
        if "import db" in bug["demo"]:
            open(d + "/demo/db.py", "w").write(DB_PY)
        clean = sh(e + f"bash {d}/demo/demo.sh")
        diff = apply(repo, bug)
        pat = sh(e + f"bash {d}/demo/demo.sh")
        t = sh(e + "/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --tb=no -rf --continue-on-collection-errors 2>&1 | grep -E '^(FAILED|ERROR)|passed|failed' | sed 's/ - .*//'")
        fails = {x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))}
        ok = clean.returncode == 0 and pat.returncode != 0 and not (fails - known_fail)
        print(bug["id"], bug["property"], "OK" if ok else "REJECTED", "clean", clean.returncode, "patched", pat.returncode, "new failing tests", len(fails - known_fail), (pat.stdout + pat.stderr).strip().splitlines()[-1:], flush=True)
        if clean.returncode:
            print((clean.stdout + clean.stderr)[-800:])
        if fails - known_fail:
            print("   ", sorted(fails - known_fail)[:4])
        if ok:
            shutil.copytree(d + "/demo", out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return ok
    finally:
        shutil.rmtree(d)


def baseline_fails():
    d, repo = scratch()
    try:
        t = sh(f"cd {repo}; export PYTHONPATH={repo}/src; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --tb=no -rf --continue-on-collection-errors 2>&1 | grep -E '^(FAILED|ERROR)|passed|failed' | sed 's/ - .*//'")
        print(t.stdout.splitlines()[-1:])
        return {x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))}
    finally:
        shutil.rmtree(d)


def catch(bug, pids, seeds):
    d, repo = scratch()
    try:
        apply(repo, bug)
        for pid in pids:
            for s in seeds:
                r = subprocess.run(["python3", os.path.join(HERE, "check.py"), pid], env=dict(os.environ, PYBSM_REPO=repo, VERIF_SEED=str(s)), capture_output=True, text=True)
                ls = r.stdout.splitlines()
                v = [ls[i + 1].strip()[:150] for i, l in enumerate(ls) if l.startswith("VIOLATION") and i + 1 < len(ls)]
                print(bug["id"], pid, "seed", s, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERROR " + r.stdout[-500:] + r.stderr[-500:]), v[:2], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    flags = {x for x in a if x.startswith("--")}
    ids = [x for x in a if not x.startswith("--")]
    todo = [b for b in BUGS if not ids or b["id"] in ids]
    if "--catch" in flags:
        allp = ["P%02d" % i for i in range(1, 60) if "P%02d" % i in json.dumps(json.load(open(HERE + "/MANIFEST.json"))["checks"])]
        for b in todo:
            catch(b, allp if "--all" in flags else [b["property"]], [1])
    else:
        kf = baseline_fails()
        for b in todo:
            confirm(b, kf)
