"""P23-P29: image quality equations and the end-to-end models."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Reject, arr, call, check, close, freeze, invoke, must_raise, nondecreasing, require, same
from ..gens import build_scenario, build_sensor, db_conditions, fd, fl, kernel_array, kernel_strategy, large_kernels, sensors, turbulence_params
from .radiometry import compare_snr

# ------------------------------------------------------------------ P23


def giqe_inputs():
    return fd(rer=fl(0.05, 1.4, specials=(0.9, 0.8999999, 0.35)), rer2=fl(0.05, 1.4), gsd=fl(0.01, 100.0, specials=(0.0254,)), eho=fl(0.8, 2.0), ng=fl(0.2, 20.0), snr=st.one_of(fl(0.5, 1e4), fl(0.5, 1e4), fl(0.01, 1e7)), elev=fl(0.001, math.pi / 2, specials=(math.pi / 4,)), k=fl(1.0, 5.0))


@check("P23", giqe_inputs, 6000, rule="edge responses either side of 0.9, ground samples, overshoots, noise gains, SNRs and elevations; always non-trivial")
def giqe_equations(pb, c):
    r, g, e, n, s, a = c["rer"], c["gsd"], c["eho"], c["ng"], c["snr"], c["elev"]
    close(call(pb.met.giqe3, r, g, e, n, s), refs.giqe3(r, g, e, n, s), "GIQE 3", rtol=1e-10, atol=1e-9)
    q4 = call(pb.met.giqe4, r, g, e, n, s, a)
    for x, y, nm in zip(q4, refs.giqe4(r, g, e, n, s, a), ("GIQE 4", "ground-plane GSD")):
        close(x, y, nm, rtol=1e-10, atol=1e-9)
    q5 = call(pb.met.giqe5, r, c["rer2"], g, s, a)
    for x, y, nm in zip(q5, refs.giqe5(r, c["rer2"], g, s, a), ("GIQE 5", "weighted GSD", "weighted RER")):
        close(x, y, nm, rtol=1e-9, atol=1e-9)
    return ["sharp" if r >= 0.9 else "blurred", "low" if a < 0.5 else "steep"]


@check("P23", giqe_inputs, 3000, rule="as above with one input made worse; non-trivial when it is worse by more than 0.1 %")
def giqe_trends(pb, c):
    r, g, e, n, s, a, k = c["rer"], c["gsd"], c["eho"], c["ng"], c["snr"], c["elev"], c["k"]
    f3 = lambda **x: float(call(pb.met.giqe3, *[{**dict(rer=r, gsd=g, eho=e, ng=n, snr=s), **x}[i] for i in ("rer", "gsd", "eho", "ng", "snr")]))  # noqa: E731
    f4 = lambda **x: float(call(pb.met.giqe4, *[{**dict(rer=r, gsd=g, eho=e, ng=n, snr=s, elev=a), **x}[i] for i in ("rer", "gsd", "eho", "ng", "snr", "elev")])[0])  # noqa: E731
    f5 = lambda **x: float(call(pb.met.giqe5, *[{**dict(rer=r, rer2=c["rer2"], gsd=g, snr=s, elev=a), **x}[i] for i in ("rer", "rer2", "gsd", "snr", "elev")])[0])  # noqa: E731
    t = 1e-9
    for f, nm in ((f3, "GIQE 3"), (f4, "GIQE 4"), (f5, "GIQE 5")):
        require(f(gsd=g * k) <= f() + t, nm + " improves with a coarser ground sample")
        # (GIQE 5 credits noise to blurred images through its RER term only below RER = 1)
        if f is not f5 or max(r, c["rer2"]) <= 1:
            base, better = f(), f(snr=s * k)
            if f is not f5:
                require(better >= base - t, nm + " degrades with a higher SNR")
    require(f3(eho=e * k) <= f3() + t and f4(eho=e * k) <= f4() + t, "NIIRS improves with more overshoot")
    require(f3(ng=n * k) <= f3() + t and f4(ng=n * k) <= f4() + t, "NIIRS improves with more noise gain")
    require(f3(rer=r * k) >= f3() - t, "GIQE 3 degrades with a sharper edge")
    require(f4(elev=a / k) <= f4() + t and f5(elev=a / k) <= f5() + t, "NIIRS improves at a lower elevation")
    close(f5(rer=c["rer2"], rer2=r), f5(), "GIQE 5 with the two directions exchanged", rtol=1e-10)
    # halving the ground sample is worth log10(2) on the published slope
    close(f3(gsd=g / 2) - f3(), 3.32 * math.log10(2), "GIQE 3 gain from half the ground sample", rtol=1e-8)
    close(f5(gsd=g / 2) - f5(), 3.32 * math.log10(2), "GIQE 5 gain from half the ground sample", rtol=1e-8)
    close(f4(gsd=g / 2) - f4(), (3.32 if r >= 0.9 else 3.16) * math.log10(2), "GIQE 4 gain from half the ground sample", rtol=1e-8)
    return k > 1.001 and ["k<2" if k < 2 else "k>=2"]


# ------------------------------------------------------------------ P24


@st.composite
def mtf_cases(draw):
    return {"n": draw(st.one_of(*[st.integers(5, 60)] * 6, st.integers(61, 3000))), "df": draw(fl(10.0, 1e6)), "reach": draw(fl(0.3, 6.0)), "kind": draw(st.sampled_from(["gauss", "tri", "sharp", "noise", "flat"])), "w": draw(fl(0.1, 2.0)), "seed": draw(st.integers(0, 10**6)), "pos": draw(fl(-4.0, 4.0, specials=(0.0, 0.5, -0.5, 1.25)))}


def slice_of(c, n=None):
    n = n or c["n"]
    x = np.linspace(0, 1, n)
    if c["kind"] == "gauss":
        m = np.exp(-((x / c["w"]) ** 2))
    elif c["kind"] == "tri":
        m = np.maximum(1 - x * c["w"] * 1.2, 0)
    elif c["kind"] == "sharp":
        m = np.maximum(1 - x, 0) * (1 + 2.0 * c["w"] * np.sin(np.pi * x))
    elif c["kind"] == "flat":
        m = np.ones(n)
    else:
        m = np.maximum(1 - x, 0) * (0.5 + np.random.RandomState(c["seed"]).rand(n))
        m[0] = 1.0
    return m


def pitch(c):
    """Pixel pitch such that the slice reaches `reach` cycles per pixel."""
    return c["reach"] / (c["df"] * (c["n"] - 1))


def _gm(g, a, b, e=3e-6):
    """g is the geometric mean of a and b, each known to e."""
    return abs(float(g) ** 2 - a * b) <= e * (abs(a) + abs(b)) + 1e-9 * abs(a * b)


def close_eho(got, mtf, df, ifov, what):
    e, dmin, er = refs.eho(mtf, df, ifov)
    if abs(dmin) < 6e-6:  # rounding decides whether the edge counts as monotonic
        require(any(abs(float(got) - x) <= 3e-6 for x in (er[1], max(er))), f"{what}: {got}")
        return "borderline"
    close(got, e, what, rtol=1e-6, atol=3e-6)
    return "monotonic" if dmin > 0 else "overshooting"


@check("P24", mtf_cases, 4000, rule="Gaussian, triangular, boosted, random and flat slices reaching 0.3-6 cycles per pixel; always non-trivial")
def edge_terms_integrate_the_slice(pb, c):
    m, df, ifov = slice_of(c), c["df"], pitch(c)
    er = float(arr(call(pb.met.edge_response, c["pos"], m, df, ifov), "edge response", ()))
    close(er, refs.edge_response(c["pos"], m, df, ifov), "edge response", rtol=1e-6, atol=3e-6)
    close(call(pb.met.edge_response, -c["pos"], m, df, ifov), 1 - er, "edge response on the other side of the edge", rtol=1e-7, atol=1e-9)
    close(call(pb.met.edge_response, 0.0, m, df, ifov), 0.5, "edge response on the edge", rtol=1e-9)
    close(call(pb.met.relative_edge_response, m, df, ifov), refs.rer(m, df, ifov), "relative edge response", rtol=1e-6, atol=3e-6)
    lab = close_eho(call(pb.met.edge_height_overshoot, m, df, ifov), m, df, ifov, "edge height overshoot")
    # only frequency times pixel pitch matters
    close(call(pb.met.relative_edge_response, m, df * 8, ifov / 8), refs.rer(m, df, ifov), "relative edge response in other units", rtol=1e-6, atol=3e-6)
    return [c["kind"], lab]


@check("P24", lambda: fd(a=mtf_cases(), b=mtf_cases(), h=st.integers(5, 25), ry=fl(0.5, 2.0), sep=st.booleans()), 1500, rule="2-D responses from two independent slices (or random arrays) with rectangular pixels; non-trivial when the two directions differ")
def directional_edge_terms(pb, c):
    h = c["h"]
    a, b = slice_of(c["a"], h + 1), slice_of(c["b"], h + 1)
    u = np.concatenate([a[:0:-1], a])
    v = np.concatenate([b[:0:-1], b])
    M = np.outer(v, u) if c["sep"] else np.outer(v, u) * (0.8 + 0.2 * np.random.RandomState(c["a"]["seed"]).rand(2 * h + 1, 2 * h + 1))
    su, sv = M[h, h : 2 * h], M[h:0:-1, h]
    df = c["a"]["df"]
    ix = c["a"]["reach"] / (df * h)
    iy = ix * c["ry"]
    got = call(pb.met.giqe5_RER, M, df, ix, iy)
    r0, r90 = refs.rer(su, df, ix), refs.rer(sv, df, iy)
    # the slice may or may not include the outermost sample
    su1, sv1 = M[h, h:], M[h::-1, h]
    q0, q90 = refs.rer(su1, df, ix), refs.rer(sv1, df, iy)
    for g, x, y, nm in ((got[0], r0, q0, "0"), (got[1], r90, q90, "90")):
        require(min(abs(g - x), abs(g - y)) <= 3e-6, f"relative edge response at {nm} degrees: {g}, expected {x}")
    if got[0] <= 0 or got[1] <= 0:
        raise Reject
    t = call(pb.met.giqe_edge_terms, M, df, ix, iy)
    close(t[0], math.sqrt(got[0] * got[1]), "geometric mean relative edge response", rtol=1e-9)
    lo, hi = [], []
    for x, y in ((su, ix), (su1, ix)), ((sv, iy), (sv1, iy)):
        pass
    eu = [z for s_ in (su, su1) for z in _eho_options(s_, df, ix)]
    ev = [z for s_ in (sv, sv1) for z in _eho_options(s_, df, iy)]
    require(any(_gm(t[1], x, y) for x in eu for y in ev), f"geometric mean edge height overshoot {t[1]}, expected {[math.sqrt(x * y) for x in eu for y in ev if x * y >= 0]}")
    return abs(r0 - r90) > 1e-3 and ["separable" if c["sep"] else "random", "rectangular" if c["ry"] != 1 else "square"]


def _eho_options(m, df, ifov):
    e, dmin, er = refs.eho(m, df, ifov)
    return [er[1], max(er)] if abs(dmin) < 6e-6 else [e]


# ------------------------------------------------------------------ P25


@check("P25", lambda: fd(steps=st.lists(fl(0.01, 1.0), min_size=2, max_size=40), tail=st.one_of(st.just(0.0), fl(0.0, 0.3)), df=fl(1.0, 1e7), snr=st.one_of(fl(0.5, 1e4), st.integers(1, 40)), ifov=fl(1e-7, 1e-2), L=st.one_of(fl(10.0, 1e6), fl(10.0, 1e6), fl(0.01, 4e7)), k=fl(1.0, 4.0)), 6000, rule="strictly decreasing slices, SNRs from unresolvable to unlimited; non-trivial when the SNR or the detector limit decides")
def ground_resolved_distance_rule(pb, c):
    d = np.cumsum([0.0] + c["steps"])
    m = 1.0 - (1.0 - c["tail"]) * d / d[-1]
    if np.any(np.diff(m) >= 0):
        raise Reject
    got = float(arr(call(pb.met.ground_resolved_distance, m, c["df"], c["snr"], c["ifov"], c["L"]), "ground resolved distance", ()))
    close(got, refs.grd(m, c["df"], c["snr"], c["ifov"], c["L"]), "ground resolved distance", rtol=1e-6)
    require(got >= 2 * c["ifov"] * c["L"] * (1 - 1e-12), "resolves less than two detector samples")
    better = float(call(pb.met.ground_resolved_distance, m, c["df"], c["snr"] * c["k"], c["ifov"], c["L"]))
    require(better <= got * (1 + 1e-9), "a higher SNR resolves less")
    close(call(pb.met.ground_resolved_distance, m, c["df"], c["snr"], c["ifov"], c["L"] * c["k"]), got * c["k"], "ground resolved distance further away", rtol=1e-9)
    lim = got <= 2 * c["ifov"] * c["L"] * (1 + 1e-9)
    return ["detector limited" if lim else "contrast limited" if c["snr"] > 3 else "unresolved"]


# ------------------------------------------------------------------ P26


@check("P26", lambda: fd(k=st.one_of(*[kernel_strategy()] * 4, large_kernels()), rot=st.integers(0, 3)), 3000, rule="unit-sum kernels of 1x2 to 5x5, sometimes up to 141 taps; non-trivial with two or more taps")
def noise_gain_is_kernel_rms(pb, c):
    k = kernel_array(c["k"])
    want = math.sqrt(math.fsum(float(x) ** 2 for x in k.ravel()))
    close(call(pb.noise.noise_gain, k), want, "noise gain", rtol=1e-9)
    close(call(pb.noise.noise_gain, np.rot90(k, c["rot"]).copy()), want, "noise gain of a rotated kernel", rtol=1e-9)
    require(want >= 1 / math.sqrt(k.size) * (1 - 1e-9), "reference")
    close(call(pb.noise.noise_gain, np.array([[1.0]])), 1.0, "noise gain without sharpening", rtol=1e-12)
    return np.count_nonzero(k) > 1 and ["sharpening" if want > 1 else "smoothing"]


@check("P26", lambda: fd(k=kernel_strategy(), off=fl(1e-3, 3.0), sign=st.sampled_from([-1, 1])), 1500, rule="kernels whose sum is off by 0.001 or more; always non-trivial")
def other_kernels_are_rejected(pb, c):
    k = kernel_array(c["k"])
    k.flat[0] += c["sign"] * c["off"]
    must_raise(ValueError, pb.noise.noise_gain, k)
    return ["above" if c["sign"] > 0 else "below"]


@check("P26", lambda: fd(pe=fl(1.0, 1e9), b=st.one_of(st.integers(1, 32), fl(1.0, 24.0), st.sampled_from([53, 54, 63, 64, 65, 100, 100.0])), t=st.sampled_from(["", "", "int64", "int32", "uint8", "float64"])), 2500, rule="well ranges and bit depths as Python and NumPy numbers; always non-trivial")
def quantization_step(pb, c):
    b = getattr(np, c["t"])(c["b"]) if c["t"] and (c["t"] == "float64" or isinstance(c["b"], int)) else c["b"]
    close(call(pb.noise.quantization_noise, c["pe"], b), refs.quantization(c["pe"], c["b"]), "quantization noise", rtol=1e-9)
    # rms error of uniform rounding in [-q/2, q/2]
    if isinstance(c["b"], int) and c["b"] <= 16:
        q = c["pe"] / (2 ** c["b"] - 1)
        x = (np.arange(20001) / 20000.0 - 0.5) * q
        close(call(pb.noise.quantization_noise, c["pe"], c["b"]), math.sqrt(np.mean(x * x)), "quantization noise against simulated rounding", rtol=1e-3)
    return ["integer" if isinstance(c["b"], int) else "fractional"]


# ------------------------------------------------------------------ P27 / P28

E2E = ((0.45e-6, 0.6e-6), (0.55e-6, 0.8e-6), (1.5e-6, 1.75e-6), (2.8e-6, 3.0e-6), (2.9e-6, 3.1e-6), (2.6e-6, 4.2e-6), (2.85e-6, 12.0e-6), (3.7e-6, 3.95e-6), (10.0e-6, 10.25e-6))


def e2e_cases():
    return fd(s=sensors(bands=E2E), t=turbulence_params(), cond=db_conditions(), off=st.one_of(st.just(None), st.tuples(st.floats(0, 1), st.floats(0, 1)).map(list)), big_well=st.booleans(), mag=fl(0.05, 4.0), own=st.booleans())


def _e2e(pb, c):
    # detector pitch in units of the diffraction spot, so that the MTF is neither 0 nor 1 throughout
    cs = dict(c["s"])
    cs["p_x"] = c["mag"] * cs["opt"][-1] * cs["f_over_D"]
    s = build_sensor(pb, cs)
    if c["big_well"]:
        s.max_n = 10**12
        s.bit_depth = 32
    cond = list(c["cond"])
    interp = c["off"] is not None and cond[0] <= 20000
    if interp:
        from ..gens import ALTS, GRS

        alts = [a for a in ALTS if a <= 20000]
        i = alts.index(cond[0])
        cond[0] += c["off"][0] * (alts[min(i + 1, len(alts) - 1)] - cond[0])
        j = GRS.index(cond[1])
        cond[1] += c["off"][1] * (GRS[min(j + 1, len(GRS) - 1)] - cond[1])
        atm = pb.db.interp(*cond)
    else:
        atm = pb.db.atm(*cond) if pb.db.has(*cond) else None
    if atm is None:
        raise Reject
    # how the scenario would read its own atmosphere is another matter
    sc = build_scenario(pb, cond, c["t"], interp=c["own"])
    return s, sc, atm, interp


RESETS = ("target_reflectance", "background_reflectance", "target_temperature", "background_temperature")


def _check_common(pb, c, fn, sharpen):
    s, sc, atm, interp = _e2e(pb, c)
    try:
        r = refs.niirs_setup(s, sc, atm, pb.otf.filter_OTF, sharpen)
    except (ValueError, ZeroDivisionError, IndexError) as e:
        raise Reject from e
    if not (r.snr.total_noise > 0 and r.snr.snr != 0 and math.isfinite(r.snr.snr)):
        raise Reject
    m = call(fn, s, sc, interp, ignore_mutation=RESETS)["vars"]
    # the table as the code holds it (single precision) is compared, then used
    require(str(s.name) in str(m["name"]) and str(sc.name) in str(m["name"]), f"result named {m['name']!r} for sensor {s.name!r} and scenario {sc.name!r}")
    a = arr(m["atm"], "atm")
    require(a.ndim == 2 and a.shape[1] == 6 and len(a) > 0, f"atmosphere of shape {a.shape}")
    # a band edge exactly on a tabulated wavelength may round to either side
    pos = lambda x: (x - 0.3e-6) / 1e-8  # noqa: E731
    k0, k1 = int(round(pos(a[0, 0]))), int(round(pos(a[-1, 0])))
    e0, e1 = pos(s.opt_trans_wavelengths[0]), pos(s.opt_trans_wavelengths[-1])
    require(e0 - 1e-6 <= k0 < e0 + 1 + 1e-6 and e1 - 1 - 1e-6 < k1 <= e1 + 1e-6 and k1 - k0 + 1 == len(a), f"atmosphere cropped to {a[0, 0]}..{a[-1, 0]}, the band is {s.opt_trans_wavelengths[0]}..{s.opt_trans_wavelengths[-1]}")
    close(a, atm[k0 : k1 + 1], "cropped atmosphere", rtol=2e-6, atol=0)
    # the law of cosines rounds at very short range: the rest follows from the range the code found
    own = float(arr(m["slant_range"], "slant_range", ()))
    close(own, refs.slant(0.0, sc.altitude, sc.ground_range), "slant_range", rtol=1e-9, atol=refs.slant_err(0.0, sc.altitude, sc.ground_range))
    r = refs.niirs_setup(s, sc, np.array(a, dtype=float), pb.otf.filter_OTF, sharpen, own)
    for k in ("radiance_wavelengths", "tgt_radiance", "bkg_radiance", "mtf_wavelengths", "mtf_weights", "cutoff_frequency", "df", "ifov_x", "ifov_y", "gsd_x"):
        close(m[k], getattr(r, k), k, rtol=1e-6)
    close(m["uu"], r.uu, "uu", atol=1e-9 * r.cutoff_frequency)
    close(m["vv"], r.vv, "vv", atol=1e-9 * r.cutoff_frequency)
    snr = m["snr"]["vars"]
    compare_snr(snr, r.snr, s)
    close(snr["path_noise"], r.path_noise, "path noise", rtol=1e-6, atol=1e-9)
    total = r.scene2 + r.path_noise**2
    close(float(snr["scene_noise"]) ** 2, r.scene2, "scene noise squared", rtol=1e-6, atol=1e-9 * total + 1e-12)
    o = m["otf"]["vars"]
    for k, v in r.otf.items():
        if k == "r0_band":
            close(np.squeeze(np.mean(o[k])), np.mean(v), k, rtol=1e-6)
        else:
            tol = (3e-8 if s.eta < 0.9 else 1.2e-7) / (1 - s.eta**2) if k in ("ap_OTF", "system_OTF") else 1e-9
            close(o[k], v, k, rtol=1e-6, atol=tol + (1e-6 if k in ("turb_OTF", "system_OTF") and sc.cn2_at_1m > 0 else 0) + 1e-9)
    # arccos of a rounded cosine near the vertical
    rel = 40 * 2.3e-16 * refs.RE / own + 2 * refs.slant_err(0.0, sc.altitude, sc.ground_range) / own
    close(m["elev_angle"], r.elev_angle, "elevation angle", atol=1e-6 + min(math.sqrt(2 * rel), rel / max(math.cos(r.elev_angle), 1e-12)))
    r.elev_angle = float(m["elev_angle"])
    # bookkeeping of the GIQE targets
    want = (0.0, 0.0) if r.emissive else (0.15, 0.07)
    require((sc.target_reflectance, sc.background_reflectance) == want, f"GIQE reflectances recorded as {(sc.target_reflectance, sc.background_reflectance)}")
    if r.emissive:
        require((sc.target_temperature, sc.background_temperature) == (282.0, 280.0), f"GIQE temperatures recorded as {(sc.target_temperature, sc.background_temperature)}")
    else:
        require((sc.target_temperature, sc.background_temperature) == (295, 293), "temperatures changed in a reflective band")
    # the image quality terms follow from the code's own MTF
    mtf = np.abs(np.asarray(o["system_OTF"]))
    labels = ["emissive" if r.emissive else "reflective", "interpolated" if interp else "tabulated", "filtered" if np.size(s.filter_kernel) > 1 else "unfiltered", "saturated" if r.snr.scale < 1 else "exposed", "turbulent" if sc.cn2_at_1m > 0 else "still"]
    return s, sc, r, m, mtf, labels


def _rers(mtf, r, i):
    return [refs.rer(x, r.df, r.ifov_x if i == 0 else r.ifov_y) for x in ((mtf[50, 50:100], mtf[50, 50:]) if i == 0 else (mtf[50:0:-1, 50], mtf[50::-1, 50]))]


@check("P27", e2e_cases, 200, rule="random sensors in nine bands under database and interpolated conditions; every published intermediate of the result is recomputed; non-trivial when the target is detected with a positive edge response")
def niirs_end_to_end(pb, c):
    s, sc, r, m, mtf, labels = _check_common(pb, c, pb.met.niirs, True)
    ru, rv = _rers(mtf, r, 0), _rers(mtf, r, 1)
    for k in ("gsd_y",):
        close(m[k], getattr(r, k), k, rtol=1e-6)
    gm = math.sqrt(r.gsd_x * r.gsd_y)
    close(m["gsd_gm"], gm, "geometric mean GSD", rtol=1e-6)
    if min(ru + rv) <= 1e-6:
        raise Reject
    require(any(_gm(m["rer_gm"], a, b) for a in ru for b in rv), f"geometric mean RER {m['rer_gm']}, expected {math.sqrt(ru[0] * rv[0])}")
    eu = [z for q in (mtf[50, 50:100], mtf[50, 50:]) for z in _eho_options(q, r.df, r.ifov_x)]
    ev = [z for q in (mtf[50:0:-1, 50], mtf[50::-1, 50]) for z in _eho_options(q, r.df, r.ifov_y)]
    require(any(_gm(m["eho_gm"], a, b) for a in eu for b in ev), f"geometric mean overshoot {m['eho_gm']}")
    ng = math.sqrt(float(np.sum(np.asarray(s.filter_kernel, float) ** 2)))
    close(m["ng"], ng, "noise gain", rtol=1e-9)
    close(m["niirs"], refs.giqe3(m["rer_gm"], gm, m["eho_gm"], ng, r.snr_stacked), "NIIRS (GIQE 3)", rtol=1e-6, atol=1e-6 + 1e-7 * abs(ng / r.snr_stacked))
    q4, g4 = refs.giqe4(m["rer_gm"], gm, m["eho_gm"], ng, r.snr_stacked, r.elev_angle)
    close(m["niirs_4"], q4, "NIIRS (GIQE 4)", rtol=1e-5, atol=1e-5 + 1e-7 * abs(ng / r.snr_stacked))
    close(m["gsd_gp"], g4, "ground-plane GSD", rtol=1e-5)
    return labels


@check("P28", e2e_cases, 200, rule="as for the GIQE 3/4 model, with and without a filter kernel in the sensor; non-trivial when the edge responses are positive")
def niirs5_end_to_end(pb, c):
    s, sc, r, m, mtf, labels = _check_common(pb, c, pb.met.niirs5, False)
    ru, rv = _rers(mtf, r, 0), _rers(mtf, r, 1)
    for k, opts in (("rer_0", ru), ("rer_90", rv)):
        require(any(abs(m[k] - x) <= 1e-6 for x in opts), f"{k} {m[k]}, expected {opts[0]}")
    if min(ru + rv) <= 1e-6 or r.snr_stacked <= 0:
        raise Reject
    n, g, rer = refs.giqe5(m["rer_0"], m["rer_90"], r.gsd_x, r.snr_stacked, r.elev_angle)
    close(m["gsd_w"], g, "weighted GSD", rtol=1e-5)
    close(m["rer"], rer, "weighted RER", rtol=1e-6, atol=1e-9)
    close(m["niirs"], n, "NIIRS (GIQE 5)", rtol=1e-5, atol=1e-5 + 1e-7 * abs(1.8 / r.snr_stacked))
    return labels


# ------------------------------------------------------------------ P29

NARROW = ((0.5e-6, 0.56e-6), (3.7e-6, 3.76e-6))


def history_cases():
    return fd(
        s=st.lists(sensors(bands=NARROW), min_size=1, max_size=3),
        sc=st.lists(fd(cond=db_conditions(), t=turbulence_params()), min_size=1, max_size=3),
        ops=st.lists(st.tuples(st.sampled_from(["niirs", "niirs5", "niirs", "niirs5", "atm", "poke"]), st.integers(0, 2), st.integers(0, 2)).map(list), min_size=3, max_size=9),
    )


def _visible(sc):
    return (sc.altitude, sc.ground_range, sc.ihaze, sc.aircraft_speed, sc.ha_wind_speed, sc.cn2_at_1m, sc.name)


@check("P29", history_cases, 100, rule="histories of 3-9 evaluations over shared sensors and scenarios, with result arrays overwritten in between; non-trivial when some sensor/scenario pair is evaluated twice or two models share an object")
def evaluations_do_not_influence_each_other(pb, c):
    ss = [build_sensor(pb, x) for x in c["s"]]
    scs = [build_scenario(pb, x["cond"], x["t"]) for x in c["sc"]]
    memo, last = {}, None
    repeats = 0
    held = []
    for op, i, j in c["ops"]:
        i, j = i % len(ss), j % len(scs)
        if op == "atm":
            a = np.array(invoke(lambda: scs[j].atm))
            require(a.shape == (1371, 6), f"atmosphere of shape {a.shape}")
            continue
        if op == "poke":  # a caller may do what it likes with a result it was given
            if last is not None:
                for k in ("atm", "uu", "tgt_radiance"):
                    v = getattr(last, k, None)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = -1.0
                held = [h for h in held if h[0] is not last]
                last = None
            continue
        s, sc = ss[i], scs[j]
        fs, fv = freeze(s), _visible(sc)
        emissive = s.opt_trans_wavelengths[0] >= 2.9e-6
        temps = (sc.target_temperature, sc.background_temperature)
        m = invoke(getattr(pb.met, op), s, sc)
        require(same(fs, freeze(s)), f"{op} changed the caller's sensor")
        require(fv == _visible(sc), f"{op} changed the caller's scenario")
        if not emissive:
            require(temps == (sc.target_temperature, sc.background_temperature), f"{op} changed temperatures in a reflective band")
        f = {k: v for k, v in freeze(m)["vars"].items() if k not in ("sensor", "scenario")}
        key = (op, i, j)
        if key in memo:
            repeats += 1
        else:
            # the first evaluation of a pair must equal one on brand-new, identical objects
            fresh = invoke(getattr(pb.met, op), build_sensor(pb, c["s"][i]), build_scenario(pb, c["sc"][j]["cond"], c["sc"][j]["t"]))
            memo[key] = {k: v for k, v in freeze(fresh)["vars"].items() if k not in ("sensor", "scenario")}
        require(f.keys() == memo[key].keys(), f"{op} returned other quantities than before")
        for k in f:
            require(same(f[k], memo[key][k], rtol=1e-10), f"{op}: {k} depends on what was evaluated before")
        for old, snap, nm in held:
            require(same({k: v for k, v in freeze(old)["vars"].items() if k not in ("sensor", "scenario")}, snap), f"a result returned earlier by {nm} changed when {op} ran")
        held.append((m, f, op))
        held = held[-3:]
        last = m
    return bool(repeats or len(memo) > 1) and ["repeat" if repeats else "distinct", "%d results" % len(memo)]


SENSOR_ATTRS = (
    "D", "f", "p_x", "p_y", "w_x", "w_y", "eta", "int_time", "dark_current", "other_irradiance", "read_noise", "max_n", "max_well_fill", "bit_depth", "n_tdi",
    "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "cold_filter_temperature", "cold_filter_emissivity",
    "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "L_x", "L_y", "other_noise", "filter_kernel", "frame_stacks",
    "opt_trans_wavelengths", "optics_transmission", "qe_wavelengths", "qe",
)
SCENARIO_ATTRS = ("altitude", "ground_range", "ihaze", "aircraft_speed", "ha_wind_speed", "cn2_at_1m")
GROUPS = [["opt", "opt_trans", "qe_wl", "qe"], ["temps", "emis"]]  # vary together


def vary(a, b, keys):
    """a with the chosen settings (and whatever must go with them) taken from b."""
    keys = set(keys)
    for g in GROUPS:
        if keys & set(g):
            keys |= set(g)
    return {k: (b[k] if k in keys else v) for k, v in a.items()}


def _grid(n, k):
    return np.meshgrid(np.linspace(-1, 1, n) * k, np.linspace(1, -1, n) * k)


def run_otfs(pb, s, sc, x):
    uu, vv = _grid(9, s.D / s.opt_trans_wavelengths[0])
    wl = np.linspace(s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1], 3)
    return invoke(pb.otf.common_OTFs, s, sc, uu, vv, wl, np.array([1.0, x["w"], 0.5]), refs.slant(0.0, sc.altitude, sc.ground_range), s.int_time)


def run_turbulence(pb, s, sc, x):
    uu, vv = _grid(9, s.D / s.opt_trans_wavelengths[0])
    return invoke(pb.otf.polychromatic_turbulence_OTF, uu, vv, np.array([s.opt_trans_wavelengths[0]]), np.array([x["w"]]), sc.altitude, refs.slant(0.0, sc.altitude, sc.ground_range), s.D, sc.ha_wind_speed, sc.cn2_at_1m + 1e-17, s.int_time, sc.aircraft_speed)


def run_snr(pb, s, sc, x):
    wl = np.linspace(s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1], 9)
    return invoke(pb.rad.photon_detector_SNR, s, wl, 1e6 * np.linspace(1, x["w"], 9), np.full(9, 8e5))


def run_electrons(pb, s, sc, x):
    return invoke(pb.rad.reflectance_to_photoelectrons, sc.atm, s, s.int_time, 280 + 10 * x["w"])


def run_atm(pb, s, sc, x):
    return np.array(invoke(lambda: sc.atm))


def run_niirs(pb, s, sc, x):
    return invoke(pb.met.niirs, s, sc)


def run_niirs5(pb, s, sc, x):
    return invoke(pb.met.niirs5, s, sc)


def run_image(pb, s, sc, x):
    n = 21
    uu, vv = _grid(n, 0.5)
    H = np.exp(-(uu**2 + x["w"] * vv**2))
    img = np.tile(np.linspace(0, 100 * x["w"], 24), (24, 1))
    L = refs.slant(0.0, sc.altitude, sc.ground_range) + 1.0
    gsd = 0.02
    df = L / gsd / n
    return invoke(pb.otf.apply_otf_to_image, img, gsd, L, H, df, 2 * gsd / L), invoke(pb.otf.slice_otf, H, x["w"])


def run_edges(pb, s, sc, x):
    m = np.exp(-np.linspace(0, 2, 21) ** 2 * x["w"])
    ifov = s.p_x / s.f
    df = 1 / ifov / 20
    L = refs.slant(0.0, sc.altitude, sc.ground_range)
    return [invoke(pb.met.relative_edge_response, m, df, ifov), invoke(pb.met.edge_height_overshoot, m, df, ifov), invoke(pb.met.ground_resolved_distance, m, df, 10.0 * x["w"], ifov, L), invoke(pb.noise.quantization_noise, s.max_n, s.bit_depth), invoke(pb.otf.filter_OTF, np.linspace(-1, 1, 5) / ifov, np.linspace(-1, 1, 5) / ifov, np.array([[0.25, 0.5, 0.25], [0, x["w"] - x["w"], 0]]), ifov)]


RUNS = dict(otfs=run_otfs, turbulence=run_turbulence, snr=run_snr, electrons=run_electrons, atm=run_atm, niirs=run_niirs, niirs5=run_niirs5, image=run_image, edges=run_edges)

SENSITIVE = {"sensor": ["niirs", "niirs5", "otfs", "snr", "electrons", "edges"], "scenario": ["niirs", "niirs5", "atm", "turbulence", "otfs", "electrons", "image"], "x": ["turbulence", "otfs", "snr", "electrons", "image", "edges"]}
SENSITIVE["both"] = SENSITIVE["sensor"]


@st.composite
def variation_cases(draw):
    s1 = draw(sensors(bands=NARROW))
    s2 = draw(sensors(bands=NARROW))
    sc = [draw(fd(cond=db_conditions(), t=turbulence_params())) for _ in range(2)]
    flat = [dict(alt=c["cond"][0], gr=c["cond"][1], haze=c["cond"][2], **c["t"]) for c in sc]
    ks = sorted(k for k in s1 if s1[k] != s2[k]) or ["D"]
    kc = sorted(k for k in flat[0] if flat[0][k] != flat[1][k]) or ["alt"]
    what = draw(st.sampled_from(["sensor", "scenario", "scenario", "both", "x"]))
    chg = {
        "s": draw(st.lists(st.sampled_from(ks), min_size=1, max_size=2, unique=True)) if what in ("sensor", "both") else [],
        "sc": draw(st.lists(st.sampled_from(kc), min_size=1, max_size=2, unique=True)) if what in ("scenario", "both") else [],
    }
    return {
        "s1": s1, "s2": s2, "sc": flat, "change": chg, "x": [draw(fl(0.2, 3.0)), draw(fl(0.2, 3.0))] if what == "x" else [1.0, 1.0],
        "runs": draw(st.lists(st.sampled_from(SENSITIVE[what]), min_size=2, max_size=3, unique=True)),
        "in_place": draw(st.booleans()),
    }


def _scenario_of(pb, d):
    return build_scenario(pb, [d["alt"], d["gr"], d["haze"]], {k: d[k] for k in ("aircraft_speed", "ha_wind_speed", "cn2_at_1m")})


@check("P29", variation_cases, 240, rule="the same evaluations before and after changing one or two settings (on new objects or in place), the second compared with a newly imported package; non-trivial when the change alters a result")
def earlier_settings_are_not_remembered(pb, c):
    before = (c["s1"], c["sc"][0])
    after = (vary(c["s1"], c["s2"], c["change"]["s"]), vary(c["sc"][0], c["sc"][1], c["change"]["sc"]))
    if not pb.db.has(after[1]["alt"], after[1]["gr"], after[1]["haze"]):
        after[1]["gr"] = 0.0 if after[1]["alt"] > 3e4 else min(after[1]["gr"], 5e3)
        if not pb.db.has(after[1]["alt"], after[1]["gr"], after[1]["haze"]):
            raise Reject
    def clean(r):
        f = freeze(r)
        return {k: v for k, v in f["vars"].items() if k not in ("sensor", "scenario")} if isinstance(f, dict) and "vars" in f else f

    s, sc = build_sensor(pb, before[0]), _scenario_of(pb, before[1])
    first = {r: clean(RUNS[r](pb, s, sc, {"w": c["x"][0]})) for r in c["runs"]}
    s2, sc2 = build_sensor(pb, after[0]), _scenario_of(pb, after[1])
    if c["in_place"]:
        for k in SENSOR_ATTRS:
            setattr(s, k, getattr(s2, k))
        for k in SCENARIO_ATTRS:
            setattr(sc, k, getattr(sc2, k))
        s2, sc2 = s, sc
    from ..load import fresh

    new = fresh(pb)
    changed = False
    for r in c["runs"]:
        got = clean(RUNS[r](pb, s2, sc2, {"w": c["x"][1]}))
        want = clean(RUNS[r](new, build_sensor(new, after[0]), _scenario_of(new, after[1]), {"w": c["x"][1]}))
        if isinstance(got, dict) and isinstance(want, dict):
            require(got.keys() == want.keys(), f"{r} returned other quantities")
            for k in got:
                require(same(got[k], want[k], rtol=1e-9), f"{r}: {k} depends on an evaluation with earlier settings")
        else:
            require(same(got, want, rtol=1e-9), f"{r} depends on an evaluation with earlier settings")
        changed |= not same(got, first[r], rtol=1e-9)
    return changed and ["in place" if c["in_place"] else "new objects"] + ["runs " + r for r in c["runs"]]
