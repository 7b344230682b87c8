"""Import the staged package and expose its public API to the checks."""
import importlib
import sys


class PB:
    pass


def fresh(pb):
    """A second, newly imported instance of the package: it remembers nothing of earlier calls."""
    held = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pybsm" or k.startswith("pybsm.")}
    try:
        sys.dont_write_bytecode = False  # into the staged copy only
        new = load(pb.stage)
        new.db = pb.db
        return new
    finally:
        sys.dont_write_bytecode = True
        for k in [k for k in sys.modules if k == "pybsm" or k.startswith("pybsm.")]:
            del sys.modules[k]
        sys.modules.update(held)


def load(stage_dir, block_cv2=False):
    if stage_dir not in sys.path:
        sys.path.insert(0, stage_dir)
    if block_cv2:
        sys.modules["cv2"] = None
    import pybsm

    if not pybsm.__file__.startswith(stage_dir):
        raise RuntimeError(f"imported {pybsm.__file__}, not the staged copy")
    pb = PB()
    pb.stage = stage_dir
    import pybsm.simulation  # noqa: F401  (first: the package's own import order)
    import pybsm.metrics  # noqa: F401

    for short, mod in dict(
        geo="pybsm.geospatial", noise="pybsm.noise", utils="pybsm.utils", otf="pybsm.otf", rad="pybsm.radiance", met="pybsm.metrics", sim="pybsm.simulation"
    ).items():
        setattr(pb, short, Mod(mod))
    pb.Sensor, pb.Scenario, pb.RefImage = pb.sim.Sensor, pb.sim.Scenario, pb.sim.RefImage
    pb.Metrics, pb.OTF, pb.SNRMetrics = pb.met.Metrics, pb.otf.OTF, pb.rad.SNRMetrics
    pb.db = None
    return pb


class Mod:
    """Attribute access on the package first, then on its ``functional`` module."""

    def __init__(self, name):
        mods = [importlib.import_module(name)]
        try:
            mods.append(importlib.import_module(name + ".functional"))
        except ImportError:
            pass
        self.__dict__["_mods"] = mods

    def __getattr__(self, k):
        for m in self._mods:
            if hasattr(m, k):
                return getattr(m, k)
        raise AttributeError(k)
