"""One shard of one property: runs its generated checks and writes a JSON result."""
import hashlib
import importlib
import json
import os
import resource
import sys
import time
import traceback
import warnings


def main():
    cfg = json.loads(sys.argv[1])
    from pbt import boot

    boot.boot(cfg["stage"])
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(cfg["stage"], "hyp"))
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from pbt import core, gens, load, stage
    from pbt.props import INDEX

    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(cfg["stage"], "hyp"))
    pid = cfg["pid"]
    info = INDEX[pid]
    gens.mine_literals(os.path.join(cfg["stage"], "pybsm"))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # a runaway allocation fails instead of ending the process
    try:
        pb = load.load(cfg["stage"], block_cv2=info.get("block_cv2", False))
    except ImportError as e:
        if not info.get("block_cv2"):
            raise
        fail = {"check": "the_package_loads_without_opencv", "case": {}, "message": f"importing the package without OpenCV raised {type(e).__name__}: {e}"}
        out = {"tests": {}, "failures": [fail], "error": None, "known": [], "replay": "violated"}
        json.dump(out, open(cfg["out"], "w"))
        return
    warnings.simplefilter("ignore")
    if info.get("db"):
        pb.db = stage.DB(cfg["stage"])
    importlib.import_module("pbt.props." + info["module"])
    checks = core.REGISTRY[pid]
    fast = bool(os.environ.get("VERIF_FAST"))  # development (tools/mutate.py): stop at the first failure
    t0 = time.time()
    out = {"tests": {}, "failures": [], "error": None, "known": []}

    if cfg.get("replay"):
        rep = json.load(open(cfg["replay"]))
        ck = ([c for c in checks if c.name == rep["check"]] or [None])[0]
        if ck is None:  # the package loads (see above)
            json.dump(dict(out, replay="held"), open(cfg["out"], "w"))
            return
        try:
            with core.deadline(240):
                core.judged(ck.func, pb, rep["case"])
            out["replay"] = "held"
        except core.Violation as e:
            out["replay"] = "violated"
            out["failures"].append({"check": ck.name, "case": rep["case"], "message": str(e)})
        except core.Reject:
            out["replay"] = "rejected"
        json.dump(out, open(cfg["out"], "w"))
        return

    for ti, ck in enumerate(checks):
        total = ck.thorough if cfg["tier"] == "thorough" else ck.quick
        n = max(1, -(-total // cfg["nshards"]))
        if total < cfg["nshards"] and cfg["shard"] >= total:
            continue
        stat = {"evaluations": 0, "discarded": 0, "trivial": 0, "labels": {}, "keys": [], "samples": [], "rule": ck.rule, "truncated": False}
        seen = set()
        fails = []
        state = {"first": None}

        def body(case):
            now = time.time()
            if state["first"] is not None and now - state["first"] > cfg["shrink_s"]:
                return  # shrinking budget spent: keep the smallest failure found so far
            if now - t0 > cfg["budget_s"]:
                stat["truncated"] = True
                return
            stat["evaluations"] += 1
            try:
                with core.deadline(240):
                    labels = core.judged(ck.func, pb, case)
            except core.Reject:
                stat["discarded"] += 1
                return
            except core.Violation as e:
                if state["first"] is None:
                    state["first"] = time.time()
                fails.append((len(core.jdump(case)), len(fails), case, str(e)))
                raise
            if not labels:
                stat["trivial"] += 1
                return
            key = hashlib.blake2b(core.jdump(case).encode(), digest_size=8).hexdigest()
            if key not in seen:
                seen.add(key)
                if len(stat["samples"]) < 2 and len(core.jdump(case)) < 1500:
                    stat["samples"].append(case)
            for lb in labels if isinstance(labels, (list, tuple, set)) else [str(labels)]:
                stat["labels"][lb] = stat["labels"].get(lb, 0) + 1

        seed = (cfg["seed"] * 1000003 + cfg["shard"] * 7919 + ti * 104729 + int(pid[1:]) * 15485863) % (2**63)
        test = given(case=ck.strategy())(body)
        test = settings(
            max_examples=n,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate,) if fast else (Phase.explicit, Phase.generate, Phase.target, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except core.Violation:
            pass
        except BaseException as e:  # noqa: BLE001
            if not fails:  # flaky reports etc. follow a recorded failure; anything else is ours
                out["error"] = f"{ck.name}: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        if fails:
            fails.sort(key=lambda t: (t[0], t[1]))
            _, order, case, msg = fails[0]
            out["failures"].append({"check": ck.name, "case": case, "message": msg, "seed": cfg["seed"], "shard": cfg["shard"], "tier": cfg["tier"]})
        stat["keys"] = sorted(seen)
        out["tests"][ck.name] = stat
        if out["error"] or (fast and fails):
            break
    if cfg["shard"] == 0 and not out["error"]:
        mod = sys.modules["pbt.props." + info["module"]]
        for probe in getattr(mod, "KNOWN", {}).get(pid, []):
            try:
                out["known"].append(probe(pb))
            except Exception as e:  # noqa: BLE001
                out["error"] = "known-finding probe: " + repr(e)
    out["wall"] = time.time() - t0
    with open(cfg["out"], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
