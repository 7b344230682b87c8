"""P42-P45: announcements, number types, copies, concurrency."""
import contextlib
import copy
import logging
import math
import pickle
import re
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Reject, Violation, arr, check, close, freeze, invoke, require, same
from ..gens import ALTS, build_atm, build_image, build_scenario, build_sensor, db_conditions, fd, fl, images, kernel_array, kernel_strategy, sensors, turbulence_params
from .radiometry import fit_well, pe_cases
from .simulate import sim_cases, sim_setup

# ------------------------------------------------------------------ P42


@contextlib.contextmanager
def listening():
    """Log records and warnings emitted meanwhile."""
    records = []

    class Ear(logging.Handler):
        def emit(self, r):
            records.append(r)

    root, ear = logging.getLogger(), Ear(level=0)
    off, level = logging.root.manager.disable, root.level
    logging.disable(logging.NOTSET)
    root.addHandler(ear)
    root.setLevel(logging.DEBUG)
    said = []
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield records, said
            said += [x for x in w]
    finally:
        root.removeHandler(ear)
        root.setLevel(level)
        logging.disable(off)


def loud(records, said):
    return [r.getMessage() for r in records if r.levelno >= logging.WARNING and not r.name.startswith("matplotlib")] + [str(x.message) for x in said if "sampl" in str(x.message).lower()]


def over_cases():
    return st.tuples(sim_cases(), st.one_of(fl(0.6, 1.6, lits=False), st.sampled_from([1.0, 1.02, 0.98, 0.985, 0.978])), st.integers(26, 60), st.integers(26, 60)).map(
        lambda t: dict(t[0], q=t[1], img=dict(t[0]["img"], h=t[2], w=t[3]), kernel=None, interp=False)
    )


@check("P42", over_cases, 40, 500, rule="simulations with detectors finer or coarser than the reference image; non-trivial when the simulated image has more or fewer rows and columns than the reference")
def oversampled_simulations_are_announced(pb, c):
    s, sc, ref, atm, slant, ifov = sim_setup(pb, c)
    np.random.seed(c["seed"] % 2**31)
    with listening() as (records, said):
        try:
            out = invoke(pb.sim.simulate_image, ref, s, sc)
        except Violation as e:
            if isinstance(e.__cause__, ValueError) and "lam < 0" in str(e.__cause__):
                raise Reject from e
            raise
    got, had = np.shape(out[2]), np.shape(ref.img)
    msgs = loud(records, said)
    if got[0] > had[0] and got[1] > had[1]:
        require(any("sampl" in m.lower() for m in msgs), f"a simulated image of {got} from a reference of {had} is not announced as oversampled: {msgs}")
        return ["finer than the reference"]
    if got[0] <= had[0] and got[1] <= had[1]:
        require(not any("oversampl" in m.lower() for m in msgs), f"a simulated image of {got} from a reference of {had} is announced as oversampled")
        return ["same" if got == had else "coarser than the reference"]
    return None


@check("P42", pe_cases, 400, rule="random sensors under random atmospheres; non-trivial always, both with and without saturation")
def reduced_exposures_are_reported(pb, c):
    s = build_sensor(pb, c["s"])
    if c["big_well"]:
        s.max_n = 10**15
    atm = build_atm(c["a"])
    inb = (atm[:, 0] >= s.opt_trans_wavelengths[0]) & (atm[:, 0] <= s.opt_trans_wavelengths[-1])
    if np.count_nonzero(inb) < 2:
        raise Reject
    full = copy.copy(s)
    full.max_n = 1e300
    _, pe, _, w = refs.refl_to_pe(atm, full, c["t"])
    if not np.all(np.isfinite(w)):
        raise Reject
    if c["near"] is not None:
        fit_well(s, float(np.max(pe)), c["near"])
    sat = float(np.max(pe)) / s.max_n
    if not math.isfinite(sat) or abs(sat - 1) < 1e-6:
        raise Reject
    with listening() as (records, said):
        invoke(pb.rad.reflectance_to_photoelectrons, atm, s, c["t"])
    msgs = [r.getMessage() for r in records if r.levelno >= logging.INFO]
    nums = [float(x) for m in msgs for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", m)]
    if sat > 1:
        require(any(abs(x - c["t"] / sat) <= 1e-2 * c["t"] / sat for x in nums), f"the exposure was cut from {c['t']} to {c['t'] / sat} s; reported: {msgs}")
        return ["saturated"]
    require(not any("integration" in m.lower() or "overexpos" in m.lower() for m in msgs), f"no exposure was cut, reported: {msgs}")
    return ["exposed"]


EMPTY = {
    "at_focal_plane_irradiance": (1, lambda a, p: (p["D"], p["D"] * p["fn"], a[0])),
    "blackbody_radiance": (1, lambda a, p: (a[0], p["T"])),
    "cold_shield_self_emission": (1, lambda a, p: (a[0], p["T"], p["D"], p["D"] * p["fn"])),
    "cold_stop_self_emission": (1, lambda a, p: (a[0], p["T"], p["e"], p["D"], p["D"] * p["fn"])),
    "optics_self_emission": (1, lambda a, p: (a[0], p["T"], p["e"], 0.9, p["D"], p["D"] * p["fn"])),
    "photon_detection_rate": (3, lambda a, p: (a[0], 1e-5, 1e-5, a[1], a[2])),
    "signal_rate": (4, lambda a, p: (a[0], a[1], a[2], p["D"], p["D"] * p["fn"], 1e-5, 1e-5, np.ones(1), a[3], 0.0)),
}


@check("P42", lambda: fd(fn=st.sampled_from(sorted(EMPTY)), p=fd(D=fl(0.01, 3), fn=fl(0.7, 30), T=fl(60, 400), e=fl(0, 1)), gone=st.lists(st.booleans(), min_size=4, max_size=4), wl=fl(0.3e-6, 14e-6)), 500, rule="radiometric functions with none, some or all of their spectra empty; non-trivial when at least one is empty")
def empty_spectra_are_announced(pb, c):
    n, build = EMPTY[c["fn"]]
    gone = c["gone"][:n]
    args = build([np.zeros(0) if g else np.array([c["wl"]]) for g in gone], c["p"])
    with listening() as (records, said):
        out = invoke(getattr(pb.rad, c["fn"]), *args)
    msgs = [str(x.message) for x in said if issubclass(x.category, UserWarning) and "empty" in str(x.message).lower()]
    if any(gone):
        require(msgs, f"{c['fn']} of an empty spectrum is not announced")
        if c["fn"] == "signal_rate":
            require(float(out[0]) == 0.0 and np.size(out[2]) == 0, f"signal of an empty spectrum is {out}")
        else:
            require(np.size(out) == 0, f"{c['fn']} of an empty spectrum is {out}")
        return [c["fn"]]
    require(not msgs, f"{c['fn']} announces an empty spectrum that is not empty: {msgs}")
    return None


# ------------------------------------------------------------------ P43

NUM = {"float": float, "int": int, "np.int64": np.int64, "np.int32": np.int32, "np.float64": np.float64}
SHORT = 30000  # larger numbers are not given as 32-bit integers: their squares would not fit


def number(n):
    return lambda x: np.int64(x) if n is np.int32 and abs(x) > SHORT else n(x)


I = lambda lo, hi: st.integers(lo, hi)  # noqa: E731,E741
IA = lambda lo, hi, n=5: st.lists(st.integers(lo, hi), min_size=n, max_size=n)  # noqa: E731
LAM = st.sampled_from([0.55e-6, 1.0e-6, 4.0e-6])
FREQS = st.integers(0, 2**20).flatmap(lambda seed: st.sampled_from([40000, 40000, 10**6]).map(lambda hi: [int(x) for x in np.random.default_rng(seed).integers(-hi, hi + 1, 5)]))
UV = (st.one_of(IA(-40000, 40000), FREQS), st.one_of(IA(-40000, 40000), FREQS))

# module, function, arguments (whole numbers and lists of them may change their type)
CALLS = {
    "curved_earth_slant_range": ("geo", (I(0, 100), I(200, 20000), I(0, 10**6))),
    "nadir_angle": ("geo", (I(0, 100), I(200, 20000), I(30000, 10**5))),
    "altitude_along_slant_path": ("geo", (I(0, 100), I(200, 20000), I(30000, 10**5))),
    "ground_sample_distance": ("geo", (st.sampled_from([1e-6, 2.5e-5]), I(1, 10**6))),
    "quantization_noise": ("noise", (I(1, 10**6), I(1, 20))),
    "noise_gain": ("noise", (st.sampled_from([[[0, -1, 0], [-1, 5, -1], [0, -1, 0]], [[1]], [[-1, 3, -1]], [[2], [-1]]]),)),
    "circular_aperture_OTF": ("otf", (*UV, LAM, I(1, 3), st.sampled_from([0.0, 0.25]))),
    "circular_aperture_OTF_with_defocus": ("otf", (*UV, LAM, I(1, 3), I(4, 30), st.sampled_from([0.0, 1e-6]))),
    "cte_OTF": ("otf", (*UV, st.just(1e-5), st.just(2e-5), I(0, 4000), I(0, 4000), I(1, 4), st.sampled_from([1, 0.9999]), I(1, 5))),
    "defocus_OTF": ("otf", (*UV, I(1, 3), st.just(1e-5), st.just(2e-5))),
    "detector_OTF": ("otf", (*UV, st.just(1e-5), st.just(2e-5), I(1, 5))),
    "detector_OTF_with_aggregation": ("otf", (*UV, st.just(1e-5), st.just(2e-5), st.just(1.5e-5), st.just(2.5e-5), I(1, 5), st.one_of(I(1, 5), I(6, 60)))),
    "drift_OTF": ("otf", (*UV, st.just(1e-5), st.just(2e-5))),
    "jitter_OTF": ("otf", (*UV, st.just(1e-5), st.just(2e-5))),
    "gaussian_OTF": ("otf", (*UV, st.just(1e-5), st.just(2e-5))),
    "diffusion_OTF": ("otf", (FREQS, FREQS, I(10**4, 10**6), st.just(1e-5), st.just(2e-5), I(1, 5))),
    "tdi_OTF": ("otf", (UV[0], st.just(1e-5), st.one_of(I(1, 16), I(17, 300)), I(1, 4), st.sampled_from([1, 2, 0.99]), I(1, 5))),
    "turbulence_OTF": ("otf", (*UV, LAM, I(1, 3), I(1, 3), st.sampled_from([0, 1, 0.5]))),
    "wind_speed_turbulence_OTF": ("otf", (*UV, LAM, I(1, 3), I(1, 3), I(0, 2), I(0, 200))),
    "wavefront_OTF": ("otf", (*UV, LAM, I(0, 2), I(1, 3), I(1, 3))),
    "wavefront_OTF_2": ("otf", (*UV, I(10**4, 10**6), st.sampled_from([0, 0.1]))),
    "polychromatic_turbulence_OTF": ("otf", (*UV, st.just(np.array([0.5e-6, 0.6e-6, 0.9e-6])), st.lists(st.integers(1, 9), min_size=3, max_size=3), I(100, 20000), I(20000, 10**5), I(1, 3), I(1, 50), st.just(1.7e-14), I(0, 2), I(0, 200))),
    "hufnagel_valley_turbulence_profile": ("otf", (IA(0, 20000), I(1, 60), st.just(1.7e-14))),
    "coherence_diameter": ("otf", (LAM, st.just([0, 100, 250, 1000, 5000]), st.just(np.array([1e-14, 2e-15, 3e-16, 1e-16, 1e-17])))),
    "object_domain_defocus_radii": ("otf", (I(1, 3), I(1, 10**6), I(1, 10**6))),
    "image_domain_defocus_radii": ("otf", (I(1, 3), st.just(1e-5), I(1, 10))),
    "dark_current_from_density": ("otf", (I(0, 3), st.just(1e-5), st.just(2e-5))),
    "at_focal_plane_irradiance": ("rad", (I(1, 3), I(1, 30), IA(0, 10**6))),
    "blackbody_radiance": ("rad", (st.just(np.array([1e-6, 4e-6, 9e-6])), I(100, 6000))),
    "cold_shield_self_emission": ("rad", (st.just(np.array([1e-6, 4e-6, 9e-6])), I(100, 400), I(1, 3), I(1, 30))),
    "cold_stop_self_emission": ("rad", (st.just(np.array([1e-6, 4e-6, 9e-6])), I(100, 400), I(0, 1), I(1, 3), I(1, 30))),
    "optics_self_emission": ("rad", (st.just(np.array([1e-6, 4e-6, 9e-6])), I(100, 400), I(0, 1), I(0, 1), I(1, 3), I(1, 30))),
    "focal_plane_integrated_irradiance": ("rad", (I(0, 100), I(0, 10), I(0, 1), I(0, 1), st.just(np.array([0.55e-6])), st.just(1e-7), I(100, 400), I(1, 3), I(1, 30))),
    "check_well_fill": ("rad", (I(0, 10**6), I(1, 10**6))),
    "photon_detection_rate": ("rad", (IA(0, 10**6, 3), st.just(1e-5), st.just(2e-5), st.just(np.array([1e-6, 4e-6, 9e-6])), IA(0, 1, 3))),
    "signal_rate": ("rad", (st.just(np.array([1e-6, 4e-6, 9e-6])), IA(0, 10**6, 3), IA(0, 1, 3), I(1, 3), I(1, 30), st.just(1e-5), st.just(2e-5), IA(0, 1, 3), IA(0, 9, 3), I(0, 1000))),
    "resample_by_wavelength": ("rad", (st.just([1, 2, 4, 8]), IA(0, 9, 4), IA(0, 9, 6))),
    "giqe3": ("met", (I(1, 1), I(1, 100), I(1, 2), I(1, 20), I(1, 1000))),
    "giqe4": ("met", (I(1, 1), I(1, 100), I(1, 2), I(1, 20), I(1, 1000), I(1, 1))),
    "giqe5": ("met", (I(1, 2), I(1, 2), I(1, 100), I(1, 1000), I(1, 1))),
    "ground_resolved_distance": ("met", (st.just(np.linspace(1, 0, 30)), I(100, 10**5), I(4, 1000), st.just(1e-5), I(100, 10**6))),
    "edge_response": ("met", (st.integers(-3, 3), st.just(np.linspace(1, 0, 30)), I(100, 10**5), st.just(1e-5))),
    "relative_edge_response": ("met", (st.just([1, 1, 1, 0, 0, 0]), I(100, 10**5), st.just(1e-5))),
    "edge_height_overshoot": ("met", (st.just([1, 1, 1, 0, 0, 0]), I(100, 10**5), st.just(1e-5))),
    "slice_otf": ("otf", (st.just([[0, 1, 0], [2, 4, 3], [0, 5, 0]]), I(0, 6))),
    "instantaneous_FOV": ("sim", (I(1, 1000), I(1, 50))),
    "wiener_filter": ("sim", (IA(-3, 3), I(1, 9))),
    "img_to_reflectance": ("sim", (IA(-50, 300, 6), IA(0, 255, 4).map(lambda x: sorted(set(x) | {1, 254})), st.just([0, 1]))),
    "stretch_contrast_convert_8bit": ("sim", (IA(1, 4000, 12), st.sampled_from([[0, 100], [1, 99], [5, 90]]))),
}


WHOLE = {"detector_OTF_with_aggregation": (7,)}  # counts, documented as integers


def plain(x):
    return x.tolist() if isinstance(x, np.ndarray) else x


def type_cases():
    def one(name):
        mod, args = CALLS[name]
        return fd(fn=st.just(name), args=st.tuples(*args).map(lambda t: [{"a": plain(x)} if isinstance(x, np.ndarray) else x for x in t]), t=st.sampled_from(["int", "np.int64", "np.int32", "np.float64"]), only=st.one_of(st.none(), st.integers(0, 11)))

    return st.sampled_from(sorted([*CALLS, "diffusion_OTF"])).flatmap(one)


def typed(x, t, short=SHORT):
    if isinstance(x, dict):
        return np.array(x["a"], float)  # always real valued
    if isinstance(x, list):
        return np.array(x, dtype=np.int32 if t == "np.int32" and np.max(np.abs(x), initial=0) <= short else np.int64 if "int" in t else np.float64)
    if isinstance(x, int) and not isinstance(x, bool):
        return number(NUM[t])(x)
    return x


@check("P43", type_cases, 4000, rule="every computational function with whole-numbered arguments, all or one of them passed as Python integers, NumPy integers or NumPy floats; always non-trivial")
def numbers_mean_the_same_in_any_type(pb, c):
    mod, _ = CALLS[c["fn"]]
    fn = getattr(getattr(pb, mod), c["fn"])
    a = list(c["args"])
    if c["fn"] == "img_to_reflectance":
        a[2] = [0, 1] + [1] * (len(a[1]) - 2)
    whole = WHOLE.get(c["fn"], ())
    base = invoke(fn, *[x if i in whole else typed(x, "float") for i, x in enumerate(a)])
    kinds = [c["t"] if c["only"] is None or c["only"] % len(a) == i else "float" for i in range(len(a))]
    got = invoke(fn, *[typed(x, k if "int" in k else "int") if i in whole else typed(x, k, 10**7 if c["fn"] == "diffusion_OTF" else SHORT) for i, (x, k) in enumerate(zip(a, kinds))])
    pairs = list(zip(base, got)) if isinstance(base, tuple) else [(base, got)]
    for b, g in pairs:
        close(arr(g, c["fn"], finite=False), np.asarray(b), f"{c['fn']} of whole numbers given as {c['t']}", rtol=1e-9, atol=1e-12 * float(np.max(np.abs(np.nan_to_num(np.asarray(b))), initial=0.0)))
    return [c["t"], mod]


@st.composite
def whole_sensors(draw):
    lo, hi = draw(st.sampled_from([(0.5e-6, 0.6e-6), (3.5e-6, 3.7e-6)]))
    i = lambda a, b: draw(st.integers(a, b))  # noqa: E731
    return {
        "band": [lo, hi], "D": i(1, 2), "f": i(4, 20), "p_x": draw(st.sampled_from([5e-6, 2e-5])), "eta": 0,
        "int_time": i(1, 3), "dark_current": i(0, 1000), "other_irradiance": i(0, 50), "read_noise": i(0, 50), "max_n": i(1000, 10**6), "max_well_fill": 1, "bit_depth": i(6, 16),
        "n_tdi": i(1, 8), "cold_shield_temperature": i(70, 200), "optics_temperature": i(200, 300), "optics_emissivity": i(0, 1), "cold_filter_transmission": 1,
        "cold_filter_temperature": i(70, 200), "cold_filter_emissivity": i(0, 1), "pv": i(0, 1), "s_x": 0, "s_y": 0, "da_x": 0, "da_y": 0,
        "other_noise": draw(st.lists(st.integers(0, 50), min_size=1, max_size=3)), "filter_kernel": draw(st.sampled_from([[[1]], [[0, -1, 0], [-1, 5, -1], [0, -1, 0]], [[-1, 3, -1]]])),
        "frame_stacks": i(1, 9), "L": i(1, 3), "ones": draw(st.booleans()),
    }


def whole_sensor(pb, c, n):
    arrt = np.int32 if n is np.int32 else np.int64 if n in (int, np.int64) else np.float64
    n = number(n)
    kw = {k: n(v) for k, v in c.items() if k not in ("band", "D", "f", "p_x", "other_noise", "filter_kernel", "frame_stacks", "L", "ones")}
    s = pb.Sensor("whole", n(c["D"]), n(c["f"]), c["p_x"], np.array(c["band"]), **kw)
    s.other_noise, s.filter_kernel = np.array(c["other_noise"], dtype=arrt), np.array(c["filter_kernel"], dtype=arrt)
    s.frame_stacks, s.L_x, s.L_y = n(c["frame_stacks"]), n(c["L"]), n(c["L"])
    if c["ones"]:
        s.qe, s.optics_transmission = np.ones(2, dtype=arrt), np.ones(2, dtype=arrt)
    return s


@check("P43", lambda: fd(s=whole_sensors(), cond=db_conditions(alts=[a for a in ALTS if a == int(a)], max_gr=20e3, space=False), speed=st.integers(0, 200), wind=st.integers(1, 50), t=st.sampled_from(["int", "np.int64", "np.int32", "np.float64"]), run=st.sampled_from(["niirs", "niirs5", "electrons"]), interp=st.booleans()), 64, rule="whole sensors and scenarios with whole-numbered settings, evaluated with floats and with another number type; always non-trivial")
def settings_mean_the_same_in_any_type(pb, c):
    def result(n):
        s = whole_sensor(pb, c["s"], n)
        a, g, h = c["cond"]
        nn = number(n)
        sc = pb.Scenario("whole", nn(h), nn(a), nn(g), aircraft_speed=nn(c["speed"]), ha_wind_speed=nn(c["wind"]))
        if c["run"] == "electrons":
            return freeze(invoke(pb.rad.reflectance_to_photoelectrons, invoke(lambda: sc.atm), s, s.int_time))
        m = invoke(getattr(pb.met, c["run"]), s, sc, c["interp"] and a <= 20000)
        keys = ["niirs", "slant_range", "elev_angle"] + (["niirs_4", "ng", "rer_gm", "eho_gm"] if c["run"] == "niirs" else ["rer_0", "rer_90", "gsd_w"])
        return [getattr(m, k) for k in keys] + [getattr(m.snr, k) for k in ("snr", "tgt_n", "total_noise", "well_fraction", "int_time")] + [m.otf.system_OTF]

    want, got = result(float), result(NUM[c["t"]])
    for w, g in zip(want, got):
        w, g = np.asarray(w, dtype=float), np.asarray(g, dtype=float)
        require(w.shape == g.shape, f"shapes {w.shape} and {g.shape}")
        ok = (np.abs(w - g) <= 1e-8 * np.max(np.abs(np.nan_to_num(w)), initial=0) + 1e-12) | (np.isnan(w) & np.isnan(g)) | (w == g)
        require(np.all(ok), f"{c['run']} with settings given as {c['t']}: {np.ravel(g[~ok])[:3]}, with floats {np.ravel(w[~ok])[:3]}")
    return [c["run"], c["t"]]


@check("P43", lambda: fd(s=whole_sensors(), cond=db_conditions(alts=[a for a in ALTS if a == int(a)], max_gr=300e3), speed=st.integers(0, 200), wind=st.integers(1, 50), t=st.sampled_from(["int", "np.int64", "np.int32", "np.float64"]), k=fl(0.8, 1.6, lits=False), seed=st.integers(0, 10**6)), 8, rule="simulated images of sensors and scenarios with whole-numbered settings of one number type; non-trivial when the scene is not flat")
def simulations_mean_the_same_in_any_type(pb, c):
    a, g, h = c["cond"]
    if c["s"]["filter_kernel"] != [[1]]:
        c = dict(c, s=dict(c["s"], filter_kernel=[[1]]))  # sharpening may ring below zero photons
    c = dict(c, s=dict(c["s"], band=[c["s"]["band"][0], c["s"]["band"][0] + 2.5e-8]))
    gsd = c["k"] * c["s"]["p_x"] / c["s"]["f"] * math.hypot(a, g)
    img = np.random.default_rng(c["seed"]).integers(0, 200, (24, 30)).astype(float)

    def result(n):
        s = whole_sensor(pb, c["s"], n)
        nn = number(n)
        sc = pb.Scenario("whole", nn(h), nn(a), nn(g), aircraft_speed=nn(c["speed"]), ha_wind_speed=nn(c["wind"]))
        arrt = np.int32 if n is np.int32 else np.int64 if n in (int, np.int64) else np.float64
        ref = pb.RefImage(img.astype(arrt), gsd, np.array([0, 200], dtype=arrt), np.array([0, 1], dtype=arrt))
        np.random.seed(c["seed"])
        return invoke(pb.sim.simulate_image, ref, s, sc)

    want, got = result(float), result(NUM[c["t"]])
    for w, g_, what in zip(want[:2], got[:2], ("true", "blurred")):
        require(np.shape(w) == np.shape(g_), f"{what} image with settings given as {c['t']} has shape {np.shape(g_)}, with floats {np.shape(w)}")
        close(g_, w, f"{what} image with settings given as {c['t']}", rtol=1e-8, atol=1e-8 * float(np.max(np.abs(w), initial=0.0)))
    return bool(np.ptp(want[1]) > 0) and [c["t"]]


# ------------------------------------------------------------------ P44

COPIERS = {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "deepcopy": copy.deepcopy, "copy": copy.copy, "old pickle": lambda x: pickle.loads(pickle.dumps(x, protocol=0))}


def between(seed):
    """An altitude and ground range between the tabulated ones."""
    r = np.random.default_rng(seed)
    return [round(float(np.exp(r.uniform(np.log(300.0), np.log(19999.0)))), 3), round(float(r.uniform(1.0, 18999.0)), 3)]


def public(x):
    """Everything a user can read from an object (properties included, the atmosphere excepted)."""
    names = [k for k in dir(type(x)) if isinstance(getattr(type(x), k, None), property) and k != "atm"] + [k for k in vars(x) if not k.startswith("_")]
    return {k: freeze(getattr(x, k)) for k in sorted(set(names))}


def altered(x):
    """Overwrite the arrays an object holds."""
    for v in vars(x).values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 3


@check("P44", lambda: fd(s=sensors(bands=((0.5e-6, 0.57e-6), (3.7e-6, 3.77e-6))), t=turbulence_params(), cond=db_conditions(space=False, max_gr=20e3), to=db_conditions(space=False, max_gr=20e3), interp=st.booleans(), read=st.booleans(), how=st.sampled_from(sorted(COPIERS)), off=st.integers(0, 2**20).map(between), set_=st.lists(st.sampled_from(["altitude", "ground_range", "ihaze"]), min_size=0, max_size=3, unique=True), on=st.sampled_from(["copy", "original"])), 480, rule="cameras and scenarios, read or unread, copied in four ways, then one of the two is changed; non-trivial when something was changed or read before")
def copies_behave_like_the_original(pb, c):
    cp = COPIERS[c["how"]]
    ip = c["interp"] and c["to"][0] <= 20000
    if ip:  # between the tabulated conditions
        c = dict(c, cond=[c["off"][0], c["off"][1], c["cond"][2]])
    s, sc = build_sensor(pb, c["s"]), build_scenario(pb, c["cond"], c["t"], interp=ip)
    db = pb.db
    look = lambda a, g, h: db.interp(a, g, h) if ip else (db.atm(a, g, h) if db.has(a, g, h) else None)  # noqa: E731
    want = look(*c["cond"])
    if want is None:
        raise Reject
    if c["read"]:
        invoke(lambda: sc.atm)
    s2, sc2 = invoke(cp, s), invoke(cp, sc)
    require(same(public(s), public(s2)), f"a camera's {c['how']} differs from it")
    require(same(public(sc), public(sc2)), f"a scenario's {c['how']} differs from it")
    close(arr(invoke(lambda: sc2.atm), "atmosphere of the copy", want.shape), want, "atmosphere of the copy", rtol=1e-5, atol=1e-9)
    require(same(freeze(invoke(lambda: sc.atm)), freeze(sc2.atm), 1e-12), f"the atmosphere of a scenario's {c['how']} is not the scenario's")
    a, b = (sc2, sc) if c["on"] == "copy" else (sc, sc2)
    now = dict(altitude=c["cond"][0], ground_range=c["cond"][1], ihaze=c["cond"][2])
    for k in c["set_"]:
        now[k] = dict(altitude=c["to"][0], ground_range=c["to"][1], ihaze=c["to"][2])[k]
        setattr(a, k, now[k])
    w2 = look(now["altitude"], now["ground_range"], now["ihaze"])
    if w2 is not None:
        close(arr(invoke(lambda: a.atm), "atmosphere after a change", w2.shape), w2, "atmosphere after a change", rtol=1e-5, atol=1e-9)
    close(arr(invoke(lambda: b.atm), "atmosphere of the other one", want.shape), want, f"atmosphere of the {'original' if c['on'] == 'copy' else 'copy'} after the other one changed", rtol=1e-5, atol=1e-9)
    require(b.altitude == c["cond"][0] and b.ground_range == c["cond"][1] and b.ihaze == c["cond"][2], "changing one of original and copy changed the other's settings")
    if c["how"] != "copy":
        x, y = (s2, s) if c["on"] == "copy" else (s, s2)
        before = public(y)
        altered(x)
        x.D = 99.0
        require(same(before, public(y)), f"original and {c['how']} share their spectra or filters")
        theirs = freeze(invoke(lambda: b.atm))
        mine = a.atm if w2 is not None else None
        if isinstance(mine, np.ndarray) and mine.flags.writeable:
            mine[...] = 7.0
        require(same(freeze(b.atm), theirs), f"a scenario and its {c['how']} share their atmosphere")
    else:
        x, y = (s2, s) if c["on"] == "copy" else (s, s2)
        before = public(y)
        x.D, x.filter_kernel, x.qe = 99.0, np.ones((1, 2)) / 2, np.zeros(3)
        require(same(before, public(y)), "settings of a shallow copy appear in the original")
    return [c["how"], "read" if c["read"] else "unread"] if c["set_"] or c["read"] else None


@check("P44", lambda: fd(s=sensors(bands=((0.5e-6, 0.57e-6), (3.7e-6, 3.77e-6))), t=turbulence_params(), cond=db_conditions(space=False, max_gr=20e3), how=st.sampled_from(["pickle", "deepcopy"]), run=st.sampled_from(["niirs", "niirs5"]), img=images(("float64", "uint8"), 2, 8)), 64, rule="results, reference images and their copies; always non-trivial")
def results_survive_copying(pb, c):
    cp = COPIERS[c["how"]]
    s, sc = build_sensor(pb, c["s"]), build_scenario(pb, c["cond"], c["t"])
    try:
        m = getattr(pb.met, c["run"])(s, sc)
    except Exception as e:  # the model itself is the subject of other properties
        raise Reject from e
    m2 = invoke(cp, m)
    require(same(freeze(m), freeze(m2)), f"a result's {c['how']} differs from it")
    # evaluating copied inputs gives the copied result
    m3 = invoke(getattr(pb.met, c["run"]), cp(s), cp(sc))
    require(same(freeze(m), freeze(m3), 1e-11), f"evaluating the {c['how']} of camera and scenario gives another result")
    r = pb.RefImage(build_image(c["img"]), 0.5, np.array([0.0, 255.0]), np.array([0.1, 0.8]), name="scene")
    r2 = invoke(cp, r)
    require(same(freeze(r), freeze(r2)), f"a reference image's {c['how']} differs from it")
    r2.img[...] = 9
    require(not np.may_share_memory(r.img, r2.img), "a reference image and its copy share pixels")
    return [c["how"], c["run"]]


# ------------------------------------------------------------------ P45


def jobs():
    freq = st.lists(st.tuples(st.floats(-1, 1), st.floats(-1, 1)).map(list), min_size=2, max_size=6)
    return st.one_of(
        st.tuples(st.just("niirs"), st.integers(0, 3)),
        st.tuples(st.just("niirs5"), st.integers(0, 3)),
        st.tuples(st.just("electrons"), st.integers(0, 3)),
        st.tuples(st.just("system"), st.tuples(st.integers(0, 3), freq)),
        st.tuples(st.just("atmosphere"), st.tuples(fl(2.0, 20000.0), fl(0.0, 5000.0))),
        st.tuples(st.just("path"), st.tuples(fl(100.0, 20000.0), fl(0.0, 50000.0))),
        st.tuples(st.just("kernel"), st.tuples(st.sampled_from([21, 31]), fl(0.2, 0.8))),
        st.tuples(st.just("blur"), st.tuples(st.integers(0, 1000), fl(0.2, 0.8))),
        st.tuples(st.just("overshoot"), st.tuples(fl(0.2, 0.9), fl(1.0, 5.0))),
        st.tuples(st.just("filter"), st.tuples(kernel_strategy(((3, 3), (1, 3))), freq)),
    ).map(lambda t: [t[0], t[1]])


def run_job(pb, job, sens, conds):
    """One evaluation on objects of its own; a frozen result."""
    name, p = job
    if name in ("niirs", "niirs5", "electrons"):
        s, sc = build_sensor(pb, sens[p % len(sens)]), build_scenario(pb, conds[p % len(conds)]["cond"], conds[p % len(conds)]["t"])
        if name == "electrons":
            return freeze(pb.rad.reflectance_to_photoelectrons(sc.atm, s, s.int_time))
        m = getattr(pb.met, name)(s, sc)
        return freeze([m.niirs, m.slant_range, m.atm, vars(m.snr), m.otf.system_OTF, m.otf.ap_OTF, m.otf.turb_OTF])
    if name == "system":
        i, pts = p
        s, sc = build_sensor(pb, sens[i % len(sens)]), build_scenario(pb, conds[i % len(conds)]["cond"], conds[i % len(conds)]["t"])
        s.filter_kernel = np.array([1])
        g = np.array(pts) * s.D / s.opt_trans_wavelengths[0]
        o = pb.otf.common_OTFs(s, sc, g[:, 0], g[:, 1], s.opt_trans_wavelengths, np.ones(s.opt_trans_wavelengths.size), 5e4 + sc.altitude, s.int_time)
        return freeze([o.system_OTF, o.ap_OTF, o.turb_OTF, o.wav_OTF, o.drft_OTF])
    if name == "atmosphere":
        return freeze(pb.utils.load_database_atmosphere(p[0], p[1], 1))
    if name == "path":
        return freeze(pb.geo.altitude_along_slant_path(0.0, p[0], pb.geo.curved_earth_slant_range(0.0, p[0], p[1])))
    x = np.linspace(-1, 1, p[0]) if name == "kernel" else np.linspace(-1, 1, 31)
    if name == "kernel":
        return freeze(pb.otf.otf_to_psf(np.exp(-(x[:, None] ** 2 + x[None] ** 2) / p[1] ** 2), 10.0, 1.0 / (10.0 * p[0])))
    if name == "blur":
        img = np.random.RandomState(p[0]).rand(24, 20) * 100
        return freeze(pb.otf.apply_otf_to_image(img, 1.0, 1000.0, np.exp(-(x[:, None] ** 2 + x[None] ** 2) / p[1] ** 2), 1000.0 / 31, 1.7e-3))
    if name == "overshoot":
        return freeze(pb.met.giqe_edge_terms(np.exp(-(x[:, None] ** 2 + x[None] ** 2) / p[0] ** 2), 100.0, p[1] / 1500.0, p[1] / 1600.0))
    k, pts = p
    g = np.array(pts) * 5e4
    return freeze(pb.otf.filter_OTF(g[:, 0], g[:, 1], kernel_array(k), 1e-5))


@check(
    "P45",
    lambda: fd(
        sens=st.lists(sensors(bands=((0.5e-6, 0.55e-6), (3.7e-6, 3.75e-6)), sharpen=False), min_size=1, max_size=3),
        conds=st.lists(fd(cond=db_conditions(space=False, max_gr=20e3), t=turbulence_params()), min_size=1, max_size=3),
        jobs=st.lists(st.lists(jobs(), min_size=1, max_size=4), min_size=2, max_size=6),
        shared=st.booleans(),
    ),
    64,
    rule="two to six threads with one to four evaluations each on objects of their own, at a switch interval of 5 us, and one scenario read by all of them; non-trivial when two threads run different evaluations of the same kind",
)
def concurrent_evaluations_do_not_disturb_each_other(pb, c):
    serial = {}
    jobs_ = []
    for ts in c["jobs"]:
        mine = []
        for j in ts:
            k = repr(j)
            if k not in serial:
                try:
                    serial[k] = run_job(pb, j, c["sens"], c["conds"])
                except Exception:  # noqa: BLE001  (the evaluation itself is the subject of other properties)
                    serial[k] = None
            if serial[k] is not None:
                mine.append((k, j))
        jobs_.append(mine)
    first = c["conds"][0]["cond"]
    common = build_scenario(pb, first)
    want = pb.db.atm(*first) if pb.db.has(*first) else None
    got, gate = [], threading.Barrier(len(jobs_))

    def work(mine):
        try:
            gate.wait(60)
            if c["shared"] and want is not None:
                got.append(("shared", np.array(common.atm), None))
            for k, j in mine:
                got.append((k, run_job(pb, j, c["sens"], c["conds"]), None))
        except Exception as e:  # noqa: BLE001
            got.append(("error", None, e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        threads = [threading.Thread(target=work, args=(m,)) for m in jobs_]
        [t.start() for t in threads]
        [t.join() for t in threads]
    finally:
        sys.setswitchinterval(old)
    for k, r, e in got:
        if e is not None:
            raise Violation(f"an evaluation that works alone raised {type(e).__name__}: {e} while others ran") from e
        if k == "shared":
            close(r, want, "atmosphere of a scenario read from several threads", rtol=1e-5, atol=1e-9)
        else:
            require(same(r, serial[k], 1e-11), f"{k[:120]} gives another result while other evaluations run")
    kinds = [j[0] for ts in jobs_ for _, j in ts]
    return sorted(set(kinds)) if len(set(kinds)) < len(kinds) else None
