#!/usr/bin/env python3
"""Decide one property:  check.py P01   |   check.py P01 --replay FILE

VERIF_SEED selects every random choice, VERIF_TIER the depth.  Exit 0: held on everything
explored; 1 with a VIOLATION line: broken; 2: the check itself failed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    nshards = 1 if replay else int(os.environ.get("VERIF_SHARDS", "8"))
    budget = 3000 if tier == "thorough" else 240
    t0 = time.time()
    from pbt.props import INDEX

    tmp = tempfile.mkdtemp(prefix="pybsm_pbt_")
    try:
        need_db = INDEX[pid].get("db", False)
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        env.update(
            PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
            MPLCONFIGDIR=os.path.join(tmp, "mpl"), HOME=tmp, TMPDIR=tmp,
        )
        os.makedirs(os.path.join(tmp, "mpl"))
        src = "/opt/venv/mplconfig"
        if os.path.isdir(src):
            for f in os.listdir(src):
                if os.path.isfile(os.path.join(src, f)):
                    shutil.copy(os.path.join(src, f), os.path.join(tmp, "mpl", f))
        # staged by the interpreter that has numpy
        code = "import sys;sys.path.insert(0,%r);from pbt import boot;boot.boot(%r);from pbt import stage;stage.stage(%r,%r)" % (HERE, tmp, tmp, need_db)
        r = subprocess.run([PY, "-c", code], env=env, capture_output=True, text=True)
        if r.returncode:
            print("HARNESS-ERROR staging: " + r.stderr[-2000:])
            return 2
        procs = []
        for s in range(nshards):
            cfg = dict(
                pid=pid, stage=tmp, seed=seed, tier=tier, shard=s, nshards=nshards, out=os.path.join(tmp, f"out{s}.json"), replay=replay,
                shrink_s=120 if tier == "thorough" else 15, budget_s=budget,
            )
            procs.append((cfg, subprocess.Popen([PY, "-m", "pbt.worker", json.dumps(cfg)], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        results, errors = [], []
        for cfg, p in procs:
            txt, _ = p.communicate()
            if p.returncode or not os.path.exists(cfg["out"]):
                errors.append(f"shard {cfg['shard']} ended with {p.returncode}: {txt[-3000:]}")
                continue
            d = json.load(open(cfg["out"]))
            results.append(d)
            if d["error"]:
                errors.append(d["error"])
        failures = [f for d in results for f in d["failures"]]
        if replay:
            for f in failures:
                print(f"VIOLATION property={pid} replay={replay}")
                print("  " + f["message"])
            if errors:
                print("HARNESS-ERROR " + errors[0])
                return 2
            if not failures:
                print("replay:", results[0].get("replay"))
            return 1 if failures else 0
        known = [k for d in results for k in d["known"]]
        for k in known:
            if k:
                print(f"KNOWN-FINDING: property={pid} {k}")
        write_evidence(pid, tier, seed, results, failures, known, time.time() - t0)
        if failures:
            best = {}
            for f in failures:
                k = f["check"]
                if k not in best or len(json.dumps(f["case"])) < len(json.dumps(best[k]["case"])):
                    best[k] = f
            rdir = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            for k, f in sorted(best.items()):
                path = os.path.join(rdir, f"{pid}-{k}.json")
                json.dump(dict(f, property=pid), open(path, "w"), indent=1)
                print(f"VIOLATION property={pid} replay={path}")
                print(f"  {k}: {f['message']}")
                print(f"  case: {json.dumps(f['case'])[:1500]}")
            for e in errors:
                print("note: " + e[-500:])
            return 1
        if errors:
            print("HARNESS-ERROR " + errors[0])
            return 2
        n = sum(t["evaluations"] for d in results for t in d["tests"].values())
        print(f"{pid} held on {n} generated cases ({time.time() - t0:.1f} s, seed {seed}, {tier})")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(pid, tier, seed, results, failures, known, wall):
    tests = {}
    for d in results:
        for name, t in d["tests"].items():
            m = tests.setdefault(name, {"evaluations": 0, "discarded": 0, "trivial": 0, "labels": {}, "keys": set(), "samples": [], "rule": t["rule"], "truncated": False})
            for k in ("evaluations", "discarded", "trivial"):
                m[k] += t[k]
            m["truncated"] |= t["truncated"]
            for lb, c in t["labels"].items():
                m["labels"][lb] = m["labels"].get(lb, 0) + c
            m["keys"] |= set(t["keys"])
            m["samples"] += t["samples"]
    samples = []
    for name, m in sorted(tests.items()):
        for c in sorted(m["samples"], key=lambda c: -len(json.dumps(c)))[:2]:
            samples.append({"check": name, "case": c})
    while len(json.dumps(samples)) > 30000:
        samples.pop()
    cov = {
        "evaluations": sum(m["evaluations"] for m in tests.values()),
        "distinct_nontrivial": sum(len(m["keys"]) for m in tests.values()),
        "rule": " | ".join(f"{n}: {m['rule']}" for n, m in sorted(tests.items())),
        "samples": samples,
        "per_check": {
            n: {
                "evaluations": m["evaluations"],
                "distinct_nontrivial": len(m["keys"]),
                "discarded": m["discarded"],
                "trivial": m["trivial"],
                "stopped_by_time_budget": m["truncated"],
                "classes": dict(sorted(m["labels"].items(), key=lambda kv: -kv[1])[:25]),
            }
            for n, m in sorted(tests.items())
        },
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ["inputs stay in the documented domain; see DESIGN.md", "floating-point comparison tolerances as stated in DESIGN.md"],
        "wall_s": round(wall, 2),
        "violations": len(failures),
        "known_findings": [k for k in known if k],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
