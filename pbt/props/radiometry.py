"""P17-P22: radiometry from the black body to photoelectrons."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Reject, arr, call, check, close, must_raise, nondecreasing, require
from ..gens import BANDS, build_atm, build_sensor, fd, fl, sensors

WL = lambda: fl(0.3e-6, 14e-6, specials=(0.55e-6, 10e-6))  # noqa: E731
TEMP = lambda: st.one_of(fl(60.0, 350.0), fl(20.0, 6000.0), st.integers(70, 320))  # noqa: E731
SPEC = lambda lo, hi: st.lists(st.one_of(st.just(0.0), fl(lo, hi), fl(lo, hi)), min_size=8, max_size=8)  # noqa: E731
WLS = lambda: st.lists(WL(), min_size=1, max_size=8, unique=True).map(sorted)  # noqa: E731
OPT = lambda: fd(D=fl(0.01, 3.0), fn=st.one_of(fl(0.7, 40.0), fl(0.7, 40.0), fl(0.05, 300.0)))  # noqa: E731

# ------------------------------------------------------------------ P17


ANY_WLS = lambda: st.one_of(WLS(), WLS(), st.lists(fl(5e-8, 1e-2), min_size=1, max_size=8, unique=True).map(sorted))  # noqa: E731
ANY_TEMP = lambda: st.one_of(TEMP(), TEMP(), fl(2.0, 2e5))  # noqa: E731


@check("P17", lambda: fd(wl=ANY_WLS(), T=ANY_TEMP(), dT=fl(0.5, 500.0)), 5000, rule="1-8 wavelengths from the ultraviolet to 14 um and 20-6000 K, a third from the vacuum ultraviolet to microwaves and 2-200000 K; always non-trivial")
def planck_law(pb, c):
    wl = np.array(c["wl"])
    L = arr(call(pb.rad.blackbody_radiance, wl, c["T"]), "black-body radiance", wl.shape)
    close(L, refs.planck(wl, c["T"]), "black-body radiance", rtol=1e-8, atol=1e-280)
    hot = call(pb.rad.blackbody_radiance, wl, c["T"] + c["dT"])
    require(np.all(hot >= L), "a hotter black body is darker")
    return ["cold" if c["T"] < 200 else "warm", "n%d" % wl.size, "thermal sensors' range" if wl[0] >= 0.3e-6 and wl[-1] <= 14e-6 else "beyond it"]


@check("P17", lambda: fd(T=fl(150.0, 6000.0)), 400, rule="temperatures; integrated spectrum against Stefan-Boltzmann and Wien; always non-trivial")
def planck_integral_laws(pb, c):
    T = c["T"]
    x = np.exp(np.linspace(math.log(0.05), math.log(5000), 6000))  # h c / (lambda k T)
    wl = np.sort(refs.H * refs.C / (refs.K * T * x))
    L = np.asarray(call(pb.rad.blackbody_radiance, wl, T))
    sigma = 2 * math.pi**5 * refs.K**4 / (15 * refs.H**3 * refs.C**2)
    close(math.pi * refs.trapz(L, wl), sigma * T**4, "black-body exitance", rtol=1e-3)
    close(wl[int(np.argmax(L))] * T, 2.8978e-3, "Wien displacement", rtol=4e-3)
    return ["T%d" % (len(str(int(T))))]


@check("P17", lambda: fd(wl=WLS(), order=st.integers(0, 3), L=SPEC(1e-3, 1e8), o=OPT(), T=TEMP(), e=fl(0, 1), t=fl(0, 1)), 5000, rule="apertures, f-numbers, temperatures, emissivities and spectra; non-trivial when some radiance is positive")
def focal_plane_irradiance(pb, c):
    wl = np.array(c["wl"])
    if c["order"]:  # nothing requires increasing or distinct wavelengths
        wl = np.roll(wl[::-1], c["order"])
        wl[0] = wl[-1]
    L = np.array(c["L"][: wl.size])
    D, f = c["o"]["D"], c["o"]["D"] * c["o"]["fn"]
    k = refs.fpa_factor(D, f)
    close(call(pb.rad.at_focal_plane_irradiance, D, f, L), L * k, "focal plane irradiance", rtol=1e-10)
    B = refs.planck(wl, c["T"])
    cs = np.asarray(call(pb.rad.cold_shield_self_emission, wl, c["T"], D, f))
    close(cs, (math.pi - k) * B, "cold shield emission", rtol=1e-8)
    close(call(pb.rad.optics_self_emission, wl, c["T"], c["e"], c["t"], D, f), k * c["t"] * c["e"] * B, "optics emission", rtol=1e-8)
    close(call(pb.rad.cold_stop_self_emission, wl, c["T"], c["e"], D, f), k * c["e"] * B, "cold stop emission", rtol=1e-8)
    # detector at the temperature of a closed, perfectly emitting enclosure sees pi B
    total = cs + np.asarray(call(pb.rad.at_focal_plane_irradiance, D, f, np.asarray(call(pb.rad.blackbody_radiance, wl, c["T"]))))
    close(total, math.pi * B, "isothermal enclosure", rtol=1e-8)
    close(call(pb.rad.cold_stop_self_emission, wl, c["T"], 0.0, D, f), np.zeros(wl.shape), "emission of a surface without emissivity", rtol=0)
    return bool(np.any(L > 0)) and ["fast" if c["o"]["fn"] < 4 else "slow"]


@check("P17", lambda: fd(L=fl(1e-3, 1e5), Ls=st.one_of(st.just(0.0), fl(1e-3, 1e4)), t=fl(0.01, 1), e=fl(0, 1), wl=WL(), dl=fl(1e-9, 4e-6), T=TEMP(), o=OPT()), 2500, rule="band-integrated scene, stray and self-emitted radiances; always non-trivial")
def band_integrated_irradiance(pb, c):
    D, f = c["o"]["D"], c["o"]["D"] * c["o"]["fn"]
    got = call(pb.rad.focal_plane_integrated_irradiance, np.array([c["L"], 0.0]), c["Ls"], c["t"], c["e"], np.array([c["wl"]]), c["dl"], c["T"], D, f)
    own = c["e"] * refs.planck(c["wl"], c["T"]) * c["dl"] + c["Ls"]
    close(got, refs.fpa_factor(D, f) * np.array([c["t"] * c["L"] + own, own]), "band-integrated irradiance", rtol=1e-8)
    return ["stray" if c["Ls"] else "no stray"]


# ------------------------------------------------------------------ P18


def signal_cases():
    return fd(wl=WLS(), L=SPEC(1e-2, 1e8), L2=SPEC(1e-2, 1e8), t=st.lists(st.one_of(fl(0.01, 1), fl(0.01, 1), st.sampled_from([0.0, 1.0])), min_size=8, max_size=8), qe=st.lists(st.one_of(fl(0, 1), fl(0, 1), fl(1, 3)), min_size=8, max_size=8), o=OPT(), w=st.tuples(fl(1e-6, 5e-5), fl(1e-6, 5e-5)).map(list), E=st.one_of(st.just(None), SPEC(1e-3, 1e6)), dark=st.one_of(st.just(0.0), fl(1e-1, 1e7), fl(1e-6, 1e14)), k=fl(1e-3, 1e3))


@check("P18", signal_cases, 6000, rule="spectra of 1-8 wavelengths with zeros, transmissions, efficiencies, stray light and dark current; non-trivial with two or more wavelengths and some light")
def signal_counts_photons(pb, c):
    wl = np.array(c["wl"])
    n = wl.size
    L, L2, t, qe = (np.array(c[k][:n]) for k in ("L", "L2", "t", "qe"))
    E0 = np.zeros(1) if c["E"] is None else np.array(c["E"][:n])
    D, f = c["o"]["D"], c["o"]["D"] * c["o"]["fn"]
    wx, wy = c["w"]
    hc = refs.H * refs.C
    close(call(pb.rad.photon_detection_rate, L, wx, wy, wl, qe), L * qe * wx * wy * wl / hc, "spectral photoelectron rate", rtol=1e-9)
    get = lambda X, E, d: call(pb.rad.signal_rate, wl, X, t, D, f, wx, wy, qe, E, d)  # noqa: E731
    rate, irr, dn = get(L, E0, c["dark"])
    E = t * refs.fpa_factor(D, f) * L + E0
    close(irr, E, "focal plane irradiance", rtol=1e-9)
    w = E * qe * wx * wy * wl / hc
    close(dn, w, "spectral photoelectron rate", rtol=1e-9)
    close(rate, refs.trapz(w, wl) + c["dark"], "photoelectron rate", rtol=1e-9)
    # superposition
    a = get(L, E0, 0.0)[0]
    b = get(L2, E0, 0.0)[0]
    z = get(np.zeros(n), E0, 0.0)[0]
    s = get(c["k"] * L + L2, E0, 0.0)[0]
    close(s, c["k"] * (a - z) + b, "signal of a sum of scenes", rtol=1e-8, atol=1e-8 * max(abs(a), abs(b), abs(s), abs(c["k"] * a)))
    return bool(n > 1 and np.any(w > 0)) and ["n%d" % n, "stray" if c["E"] else "no stray", "dark" if c["dark"] else "no dark current"]


# ------------------------------------------------------------------ P19


@st.composite
def atm_cases(draw):
    lo, hi = draw(st.sampled_from(BANDS + [(0.3e-6, 14e-6)]))
    n = draw(st.integers(2, 25))
    return {
        "n": n, "lo": lo, "hi": hi, "jit": draw(st.booleans()),
        "amp": [draw(fl(1e-3, 1.0))] + [draw(fl(1e0, 1e8)) for _ in range(4)],
        "ph": [draw(st.floats(0, 6)) for _ in range(5)],
        "zero": draw(st.sampled_from([None, None, None, 1, 2, 4, 5])),
    }


@check("P19", lambda: fd(a=atm_cases(), r=fl(0.0, 1.0, specials=(0.15, 0.07)), T=TEMP(), k=st.booleans()), 5000, rule="atmospheres of 2-25 wavelengths, reflectances and temperatures; always non-trivial")
def aperture_radiance(pb, c):
    atm = build_atm(c["a"])
    L = call(pb.rad.total_radiance, atm, c["r"], c["T"])
    # any order of summation: rounding is relative to the largest term
    size = refs.planck(atm[:, 0], c["T"]) * atm[:, 1] + np.sum(np.abs(atm[:, [2, 4, 5]]), axis=1)
    close(L, refs.total_radiance(atm, c["r"], c["T"]), "total radiance", rtol=1e-8, atol=1e-14 * size)
    # a reflectance of 15 % is what the ground-reflected column was computed with
    at15 = np.asarray(call(pb.rad.total_radiance, atm, 0.15, c["T"]))
    close(at15 - 0.85 * refs.planck(atm[:, 0], c["T"]) * atm[:, 1], atm[:, 2] + atm[:, 4] + atm[:, 5], "radiance of a 15 % target", rtol=1e-7, atol=1e-7 * np.max(at15))
    other = atm.copy()
    other[:, 3] = 7e9 * (1 + np.arange(len(other)))  # the precomputed surface emission must not be counted
    close(call(pb.rad.total_radiance, other, c["r"], c["T"]), L, "radiance with another surface-emission column", rtol=1e-12)
    return ["black" if c["r"] == 0 else "mirror" if c["r"] == 1 else "grey", "ir" if c["a"]["lo"] > 2.8e-6 else "reflective"]


@check("P19", lambda: fd(a=atm_cases(), e=st.booleans(), form=st.sampled_from(["int", "bool"])), 3000, rule="atmospheres in both GIQE modes; always non-trivial")
def giqe_targets(pb, c):
    atm = build_atm(c["a"])
    e = c["e"] if c["form"] == "bool" else int(c["e"])
    t, b = call(pb.rad.giqe_radiance, atm, e)
    want = [(0.0, 282.0), (0.0, 280.0)] if c["e"] else [(0.15, 282.0), (0.07, 280.0)]
    for got, (r, T), nm in zip((t, b), want, ("target", "background")):
        close(got, refs.total_radiance(atm, r, T), f"GIQE {nm} radiance", rtol=1e-8)
    return ["emissive" if c["e"] else "reflective"]


# ------------------------------------------------------------------ P20


@check("P20", lambda: fd(x=WLS(), y=SPEC(1e-6, 1e6), q=st.lists(st.one_of(fl(0.2e-6, 20e-6), st.integers(-8, 7), st.floats(0, 7)), min_size=1, max_size=10), neg=st.integers(0, 31)), 6000, rule="tables of 1-8 increasing wavelengths and queries inside, on and outside them; non-trivial with two or more knots and a query inside the table")
def resampling_is_piecewise_linear(pb, c):
    x = np.array(c["x"])
    y = np.array(c["y"][: x.size])
    if c["neg"] % 4 == 0:  # any tabulated quantity
        y[c["neg"] // 4 % y.size] *= -1.0
    q = []
    for t in c["q"]:
        if isinstance(t, int):
            q.append(x[t % x.size])
        elif t > 1e-3 or t == 0:  # position along the table in knots
            i = min(int(t), x.size - 1)
            q.append(x[i] + (t - int(t)) * (x[min(i + 1, x.size - 1)] - x[i]))
        else:
            q.append(t)
    q = np.array(q)
    got = arr(call(pb.rad.resample_by_wavelength, x, y, q), "resampled spectrum", q.shape)
    close(got, refs.interp0(x, y, q), "resampled spectrum", rtol=1e-6, atol=1e-9 * np.max(np.abs(y)))
    eps = 1e-12 * np.max(np.abs(y))
    require(np.all(got <= max(np.max(y), 0) + eps) and np.all(got >= min(np.min(y), 0) - eps), "resampled spectrum outside the range of the table")
    close(np.squeeze(call(pb.rad.resample_by_wavelength, x, y, float(q[0]))), got[0], "spectrum resampled at a single wavelength", rtol=1e-12)
    out = (q < x[0]) | (q > x[-1])
    require(np.all(got[out] == 0), "resampled spectrum not zero outside the table")
    close(call(pb.rad.resample_by_wavelength, x, y, x), y, "spectrum resampled at its own wavelengths", rtol=1e-12)
    return bool(x.size > 1 and not np.all(out)) and ["outside" if np.any(out) else "inside", "n%d" % x.size]


# ------------------------------------------------------------------ P21


def near_full():
    """How far the brightest scene fills (or overfills) the well, or None to leave the well as it is."""
    return st.one_of(*[st.just(None)] * 3, st.floats(0.97, 1.03), st.floats(0.4, 3.0), st.sampled_from([1 - 1e-4, 1 + 1e-5, 1 + 1e-4, 1 + 7e-4]))


def fit_well(s, peak, ratio, allowed=1.0):
    if ratio is not None and 1e-3 < peak < 1e30:
        s.max_n = float(peak / allowed / ratio)


@st.composite
def snr_cases(draw):
    s = draw(sensors())
    lo, hi = s["opt"][0], s["opt"][-1]
    n = draw(st.integers(2, 14))
    ext = draw(st.sampled_from([0.0, 0.0, 0.1, -0.1]))
    amp = draw(fl(1e2, 1e9))
    shape = st.lists(st.one_of(fl(0.05, 1.0), st.just(0.0)), min_size=n, max_size=n)
    return {"s": s, "lo": lo - (hi - lo) * ext, "hi": hi + (hi - lo) * ext, "n": n, "amp": amp, "t": draw(shape), "b": draw(shape), "rel": draw(fl(0.2, 2.0)), "big_well": draw(st.booleans()), "near": draw(near_full())}


FIELDS = ["opt_trans", "qe", "other_irradiance", "tgt_n_rate", "tgt_FPA_irradiance", "weights", "tgt_n", "bkg_n_rate", "bkg_FPA_irradiance", "bkg_n", "int_time", "well_fraction", "contrast_signal", "signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise", "snr"]


def compare_snr(got, want, s):
    for k in FIELDS:
        a = 0.0
        if k == "contrast_signal":
            a = 1e-9 * max(want.tgt_n, want.bkg_n)
        if k == "snr":
            a = 1e-9 * max(want.tgt_n, want.bkg_n) / want.total_noise
        if k in ("self_emission_noise", "tgt_n", "bkg_n"):
            a = 1e-9
        require(k in got, f"no {k} in the result")
        close(np.squeeze(arr(got[k], k)) if np.ndim(getattr(want, k)) == 0 else got[k], getattr(want, k), k, rtol=1e-8, atol=a)


@check("P21", snr_cases, 2000, rule="random sensors and spectra; non-trivial when target and background differ in electrons and some light is detected")
def contrast_snr_budget(pb, c):
    s = build_sensor(pb, c["s"])
    if c["big_well"]:
        s.max_n = 10**13
    wl = np.linspace(c["lo"], c["hi"], c["n"])
    t, b = np.array(c["t"]) * c["amp"], np.array(c["b"]) * c["amp"] * c["rel"]
    want = refs.snr(s, wl, t, b)
    if c["near"] is not None:
        fit_well(s, max(want.tgt_n_rate, want.bkg_n_rate) * s.int_time * s.n_tdi, c["near"], s.max_well_fill)
        want = refs.snr(s, wl, t, b)
    if not want.total_noise > 0:
        raise Reject
    m = call(pb.rad.photon_detector_SNR, s, wl, t, b)["vars"]
    compare_snr(m, want, s)
    cap = s.max_well_fill * s.max_n
    require(max(m["tgt_n"], m["bkg_n"]) <= cap * (1 + 1e-9), "more electrons than the allowed well fill")
    require(m["well_fraction"] <= s.max_well_fill * (1 + 1e-9), "well fraction above the allowed fill")
    require(m["int_time"] <= s.int_time * (1 + 1e-12), "integration time was raised")
    sat = max(want.tgt_n_rate, want.bkg_n_rate) * s.int_time * s.n_tdi > cap * (1 + 1e-9)
    if sat:
        close(max(m["tgt_n"], m["bkg_n"]), cap, "electrons of a saturating scene", rtol=1e-9)
    # exchanging target and background only flips the sign
    x = call(pb.rad.photon_detector_SNR, s, wl, b, t)["vars"]
    close(x["snr"], -m["snr"], "signal-to-noise ratio with target and background exchanged", rtol=1e-8, atol=1e-9 * abs(want.tgt_n + want.bkg_n) / want.total_noise)
    return bool(abs(want.contrast_signal) > 0) and ["saturated" if sat else "exposed", "dark" if s.dark_current else "no dark current", "stray" if s.other_irradiance else "no stray"]


@check("P21", lambda: fd(n=st.one_of(st.just(0.0), fl(1e-3, 1e12)), cap=fl(1.0, 1e9)), 2500, rule="electron counts and well limits; non-trivial above the limit")
def well_fill_scale(pb, c):
    k = float(call(pb.rad.check_well_fill, c["n"], c["cap"]))
    close(k, 1.0 if c["n"] <= c["cap"] else c["cap"] / c["n"], "exposure scale", rtol=1e-12)
    require(k * c["n"] <= c["cap"] * (1 + 1e-12), "scaled exposure above the limit")
    return c["n"] > c["cap"] and ["over"]


# ------------------------------------------------------------------ P22


@st.composite
def pe_cases(draw):
    s = draw(sensors())
    lo, hi = s["opt"][0], s["opt"][-1]
    out = draw(st.sampled_from([0.3, 0.1, -0.1]))
    a = {
        "n": draw(st.integers(5, 40)), "lo": lo - (hi - lo) * out, "hi": hi + (hi - lo) * out, "jit": draw(st.booleans()),
        "amp": [draw(fl(1e-2, 1.0))] + [draw(fl(1e3, 1e8)) for _ in range(4)],
        "ph": [draw(st.floats(0, 6)) for _ in range(5)], "zero": draw(st.sampled_from([None, None, 2, 4])),
    }
    return {"s": s, "a": a, "t": draw(fl(1e-5, 1.0)), "T": draw(st.one_of(st.just(None), st.integers(250, 330), fl(200.0, 400.0))), "big_well": draw(st.booleans()), "near": draw(near_full())}


@check("P22", pe_cases, 900, rule="random sensors under random atmospheres; non-trivial when the reflectance changes the signal")
def reflectance_to_electrons(pb, c):
    s = build_sensor(pb, c["s"])
    if c["big_well"]:
        s.max_n = 10**13
    atm = build_atm(c["a"])
    inb = (atm[:, 0] >= s.opt_trans_wavelengths[0]) & (atm[:, 0] <= s.opt_trans_wavelengths[-1])
    if np.count_nonzero(inb) < 2:
        raise Reject
    T = 300.0 if c["T"] is None else c["T"]
    if c["near"] is not None:
        s.max_n = 1e300
        fit_well(s, float(np.nan_to_num(np.max(refs.refl_to_pe(atm, s, c["t"], T)[1]))), c["near"])
    refl, pe, wl, w = refs.refl_to_pe(atm, s, c["t"], T)
    if not np.all(np.isfinite(w)):
        raise Reject
    args = (atm, s, c["t"]) if c["T"] is None else (atm, s, c["t"], c["T"])
    got = call(pb.rad.reflectance_to_photoelectrons, *args)
    require(len(got) == 3, "expected (reflectance, electrons, spectral weights)")
    close(got[0], refl, "reflectance table", rtol=1e-12, atol=1e-15)
    close(got[1], pe, "photoelectrons", rtol=1e-8, atol=1e-9 * np.max(np.abs(pe)))
    sw = arr(got[2], "spectral weights", (2, wl.size))
    close(sw[0], wl, "wavelengths of the spectral weights", rtol=1e-12)
    close(sw[1], w, "spectral weights", rtol=1e-7, atol=1e-12)
    require(np.max(got[1]) <= s.max_n * (1 + 1e-9), "more electrons than the well holds")
    return bool(np.ptp(pe) > 1e-6 * np.max(np.abs(pe))) and ["saturated" if np.max(pe) > 0.999999 * s.max_n else "exposed", "default temperature" if c["T"] is None else "given temperature"]
