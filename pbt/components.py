"""The blur components as data: generator, call and reference model for each."""
import math

import numpy as np
from hypothesis import strategies as st

from . import refs
from .gens import fd, fl


class Component:
    def __init__(self, name, params, fc, run, ref, specials=lambda p: (), fmax=1.6, tol=lambda p: (1e-9, 1e-10), complex_=False, separable=True, labels=lambda p: []):
        self.name, self.params, self.fc, self.run, self.ref = name, params, fc, run, ref
        self.specials, self.fmax, self.tol, self.complex_, self.separable, self.labels = specials, fmax, tol, complex_, separable, labels


LAM = lambda: fl(0.3e-6, 14e-6, specials=(0.55e-6, 1e-6, 10e-6))  # noqa: E731
DIAM = lambda: fl(0.0005, 30.0, specials=(0.1, 1.0))  # noqa: E731
FC = lambda: fl(10.0, 1e8)  # noqa: E731
AMT = lambda: st.one_of(st.just(0.0), fl(1e-3, 3.0), fl(1e-3, 3.0), fl(1e-3, 3.0), fl(3.0, 60.0))  # noqa: E731  (in units of 1/fc)
ETA = lambda: st.one_of(st.just(0.0), fl(1e-3, 0.97), st.one_of(fl(1e-5, 1e-3, lits=False), fl(0.97, 0.985, lits=False)), st.integers(1, 19).map(lambda k: k / 20.0), fl(0.05, 0.6))  # noqa: E731

COMPONENTS = {}


def add(*a, **k):
    c = Component(*a, **k)
    COMPONENTS[c.name] = c


def _rho(u, v):
    return np.hypot(u, v)


# ---- diffraction

add(
    "circular_aperture",
    lambda: fd(lam=LAM(), D=DIAM(), eta=ETA()),
    lambda p: (p["D"] / p["lam"],) * 2,
    lambda pb, p, u, v: (pb.otf.circular_aperture_OTF, u, v, p["lam"], p["D"], p["eta"]),
    lambda p, u, v: refs.annular_otf(_rho(u, v) * p["lam"] / p["D"], p["eta"]),
    # scalloped region boundaries of the obscured aperture
    specials=lambda p: (p["eta"], (1 - p["eta"]) / 2, (1 + p["eta"]) / 2),
    # the region boundaries are square roots of rounded differences
    tol=lambda p: (1e-9, (3e-8 if p["eta"] < 0.9 else 1.2e-7) / (1 - p["eta"] ** 2)),
    separable=False,
    labels=lambda p: ["obscured" if p["eta"] else "clear"],
)

# ---- detector plane

add(
    "detector",
    lambda: fd(fc=FC(), f=fl(0.01, 50), a=AMT(), b=AMT()),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.detector_OTF, u, v, p["a"] * p["f"] / p["fc"], p["b"] * p["f"] / p["fc"], p["f"]),
    lambda p, u, v: refs.sinc(p["a"] * u / p["fc"]) * refs.sinc(p["b"] * v / p["fc"]),
    labels=lambda p: ["square" if p["a"] == p["b"] else "rectangular"],
)
add(
    "detector_aggregated",
    lambda: fd(fc=FC(), f=fl(0.01, 50), a=AMT(), b=AMT(), pa=fl(0.3, 3.0), pb=fl(0.3, 3.0), n=st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 70))),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (
        pb.otf.detector_OTF_with_aggregation, u, v, p["a"] * p["f"] / p["fc"], p["b"] * p["f"] / p["fc"],
        p["pa"] * p["f"] / p["fc"], p["pb"] * p["f"] / p["fc"], p["f"], p["n"],
    ),
    lambda p, u, v: refs.sinc(p["a"] * u / p["fc"]) * refs.sinc(p["b"] * v / p["fc"])
    * refs.dirichlet(p["n"], p["pa"] * u / p["fc"]) * refs.dirichlet(p["n"], p["pb"] * v / p["fc"]),
    labels=lambda p: ["n=%d" % min(p["n"], 4)],
)
add(
    "cte",
    lambda: fd(fc=FC(), f=fl(0.01, 50), a=fl(0.05, 2.0), b=fl(0.05, 2.0), nx=st.one_of(fl(0, 4096), fl(4096, 1e5)), ny=st.one_of(fl(0, 4096), fl(4096, 1e5)), ph=st.integers(1, 4), loss=st.one_of(st.just(0.0), fl(1e-6, 1e-2), fl(1e-6, 1e-2), fl(1e-2, 1.0))),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (
        pb.otf.cte_OTF, u, v, p["a"] * p["f"] / p["fc"], p["b"] * p["f"] / p["fc"], p["nx"], p["ny"], p["ph"], 1.0 - p["loss"], p["f"],
    ),
    # 1 - cos x = 2 sin^2(x/2)
    lambda p, u, v: np.exp(
        -2.0 * p["ph"] * (1 - (1.0 - p["loss"])) * (p["nx"] * np.sin(math.pi * p["a"] * u / p["fc"]) ** 2 + p["ny"] * np.sin(math.pi * p["b"] * v / p["fc"]) ** 2)
    ),
    tol=lambda p: (1e-8, 1e-10),
)
add(
    "tdi",
    lambda: fd(fc=FC(), f=fl(0.01, 50), a=fl(0.05, 2.0), n=st.one_of(st.integers(1, 32), st.integers(1, 32), st.integers(33, 200)), ph=st.integers(1, 4), beta=st.one_of(st.just(1.0), fl(0.8, 1.25), fl(0.98, 1.02))),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.tdi_OTF, u, p["a"] * p["f"] / p["fc"], p["n"], p["ph"], p["beta"], p["f"]),
    lambda p, u, v: refs.sinc(p["a"] * u / p["fc"] / p["beta"])
    * np.mean(np.exp(-2j * math.pi * np.multiply.outer(p["a"] * u / p["fc"] / p["beta"] * (p["beta"] - 1), np.arange(p["n"] * p["ph"]))), axis=-1),
    complex_=True,
    separable=False,
    labels=lambda p: ["synchronised" if p["beta"] == 1 else "mismatched"],
)
add(
    "diffusion",
    lambda: fd(fc=FC(), f=fl(0.01, 50), alpha=fl(1e2, 1e7), ald=fl(1e-7, 2e-5), al0=fl(1e-6, 5e-4), k=fl(1e-2, 10)),
    # characteristic frequency: f / (2 pi al0)
    lambda p: (p["k"] * p["f"] / (2 * math.pi * p["al0"]),) * 2,
    lambda pb, p, u, v: (pb.otf.diffusion_OTF, u, v, p["alpha"], p["ald"], p["al0"], p["f"]),
    lambda p, u, v: (1 - math.exp(-p["alpha"] * p["ald"]) / (1 + p["alpha"] / np.sqrt(1 / p["al0"] ** 2 + (2 * math.pi * _rho(u, v) / p["f"]) ** 2)))
    / (1 - math.exp(-p["alpha"] * p["ald"]) / (1 + p["alpha"] * p["al0"])),
    separable=False,
    tol=lambda p: (1e-8, 1e-10),
)

# ---- line of sight and optics

add(
    "drift",
    lambda: fd(fc=FC(), a=AMT(), b=AMT()),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.drift_OTF, u, v, p["a"] / p["fc"], p["b"] / p["fc"]),
    lambda p, u, v: refs.sinc(p["a"] * u / p["fc"]) * refs.sinc(p["b"] * v / p["fc"]),
)
add(
    "jitter",
    lambda: fd(fc=FC(), a=st.one_of(st.just(0.0), fl(1e-3, 0.8), fl(0.1, 4.0)), b=st.one_of(st.just(0.0), fl(1e-3, 0.8), fl(0.1, 4.0))),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.jitter_OTF, u, v, p["a"] / p["fc"], p["b"] / p["fc"]),
    lambda p, u, v: np.exp(-2 * (math.pi * p["a"] * u / p["fc"]) ** 2 - 2 * (math.pi * p["b"] * v / p["fc"]) ** 2),
)
add(
    "defocus_gaussian",
    lambda: fd(fc=FC(), D=DIAM(), a=AMT(), b=AMT()),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.defocus_OTF, u, v, p["D"], p["a"] / p["fc"], p["b"] / p["fc"]),
    lambda p, u, v: np.exp(-((math.pi / 2 * p["a"] * u / p["fc"]) ** 2) - (math.pi / 2 * p["b"] * v / p["fc"]) ** 2),
)
add(
    "gaussian",
    lambda: fd(fc=FC(), a=fl(1e-3, 3.0), b=fl(1e-3, 3.0)),
    lambda p: (p["fc"],) * 2,
    lambda pb, p, u, v: (pb.otf.gaussian_OTF, u, v, p["a"] / p["fc"], p["b"] / p["fc"]),
    lambda p, u, v: np.exp(-math.pi * (p["a"] * u / p["fc"]) ** 2) * np.exp(-math.pi * (p["b"] * v / p["fc"]) ** 2),
)
add(
    "wavefront",
    lambda: fd(lam=LAM(), D=DIAM(), pv=st.one_of(st.just(0.0), fl(1e-3, 12.0), fl(12.0, 200.0)), a=fl(0.1, 5.0), b=fl(0.1, 5.0)),
    lambda p: (p["D"] / p["lam"],) * 2,
    lambda pb, p, u, v: (pb.otf.wavefront_OTF, u, v, p["lam"], p["pv"], p["a"] * p["D"], p["b"] * p["D"]),
    lambda p, u, v: np.exp(p["pv"] * np.expm1(-((p["lam"] * u / (p["a"] * p["D"])) ** 2) - (p["lam"] * v / (p["b"] * p["D"])) ** 2)),
    separable=False,
)
add(
    "wavefront_rms",
    lambda: fd(fc=FC(), w=st.one_of(st.just(0.0), fl(0.01, 0.25))),
    lambda p: (p["fc"] / math.sqrt(2),) * 2,  # stays inside the diffraction cutoff
    lambda pb, p, u, v: (pb.otf.wavefront_OTF_2, u, v, p["fc"], p["w"]),
    lambda p, u, v: 1 - 4 * (p["w"] / 0.18) ** 2 * (_rho(u, v) / p["fc"]) * (1 - _rho(u, v) / p["fc"]),
    fmax=1.0,
    separable=False,
)

# ---- turbulence

add(
    "turbulence",
    lambda: fd(lam=LAM(), D=DIAM(), r=fl(0.02, 50.0), alpha=st.one_of(st.sampled_from([0.0, 0.5]), st.sampled_from([0.0, 0.5]), fl(0.01, 0.75))),
    lambda p: (p["D"] / p["lam"] * min(1.0, p["r"]),) * 2,
    lambda pb, p, u, v: (pb.otf.turbulence_OTF, u, v, p["lam"], p["D"], p["r"] * p["D"], p["alpha"]),
    lambda p, u, v: refs.turbulence(_rho(u, v), p["lam"], p["D"], p["r"] * p["D"], p["alpha"]),
    separable=False,
    labels=lambda p: ["short" if p["alpha"] else "long"],
)
add(
    "turbulence_wind",
    lambda: fd(lam=LAM(), D=DIAM(), r=fl(0.02, 50.0), td=st.one_of(st.just(0.0), fl(1e-5, 1.0)), vel=st.one_of(st.just(0.0), fl(0.1, 300.0), fl(300.0, 1e4)), x=st.one_of(st.just(None), fl(0.01, 5))),
    lambda p: (p["D"] / p["lam"] * min(1.0, p["r"]),) * 2,
    lambda pb, p, u, v: (pb.otf.wind_speed_turbulence_OTF, u, v, p["lam"], p["D"], p["r"] * p["D"], _td(p), p["vel"]),
    lambda p, u, v: refs.wind_turbulence(_rho(u, v), p["lam"], p["D"], p["r"] * p["D"], _td(p), p["vel"]),
    separable=False,
    labels=lambda p: ["frozen" if p["vel"] * _td(p) == 0 else "moving"],
)


def _td(p):
    # x sets the dwell as a multiple of the time the wind needs to cross r0
    if p["x"] is not None and p["vel"] > 0:
        return p["x"] * p["r"] * p["D"] / p["vel"]
    return p["td"]
