"""P34-P41: image simulation, image helpers, optional OpenCV, plots."""
import copy
import math
import sys

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Reject, Violation, arr, call, check, close, freeze, invoke, must_raise, nondecreasing, require, same
from ..gens import build_image, build_scenario, build_sensor, db_conditions, fd, fl, images, sensors, turbulence_params

# ------------------------------------------------------------------ P34


def knots():
    return st.integers(2, 6).flatmap(
        lambda n: fd(
            x=st.lists(st.integers(-400, 70000), min_size=n, max_size=n, unique=True),
            y=st.lists(fl(-0.3, 1.4, specials=(0.0, 1.0, 0.05, 0.95)), min_size=n, max_size=n),
            scale=st.sampled_from([1.0, 1.0, 0.5, 1e-3]),
        )
    )


def piecewise(x, y, q):
    """Linear between the given points, the end segments prolonged on both sides."""
    o = np.argsort(x)
    x, y = x[o], y[o]
    q = np.asarray(q, float)
    i = np.clip(np.searchsorted(x, q, side="right") - 1, 0, len(x) - 2)
    t = (q - x[i]) / (x[i + 1] - x[i])
    return y[i] + t * (y[i + 1] - y[i])


def refl_cases(lo=1, hi=12):
    return fd(k=knots(), img=images(("float64", "uint8", "uint16", "float32", "int32"), lo, hi), span=st.sampled_from(["inside", "beyond"]), hit=st.booleans(), k3=st.booleans())


@check("P34", lambda: refl_cases(150, 420), 40, rule="as above with images of 20,000-500,000 pixels, grey and colour; non-trivial when the image is not constant")
def large_images_are_calibrated_alike(pb, c):
    return reflectance_is_piecewise_linear_and_clipped(pb, c)


@check("P34", refl_cases, 3500, rule="two to six unsorted calibration points, images inside and beyond them in five dtypes; non-trivial when the image is not constant")
def reflectance_is_piecewise_linear_and_clipped(pb, c):
    x, y = np.array(c["k"]["x"], float) * c["k"]["scale"], np.array(c["k"]["y"])
    ci = dict(c["img"])
    lo, hi = float(x.min()), float(x.max())
    if c["span"] == "beyond":
        lo, hi = lo - (hi - lo), hi + (hi - lo)
    info = np.iinfo(ci["dtype"]) if ci["dtype"][0] in "ui" else None
    if info is not None:
        lo, hi = max(lo, info.min), min(hi, info.max)
    if lo > hi:
        raise Reject
    ci["lo"], ci["hi"] = lo, hi
    img = build_image(ci)
    if c["hit"]:
        img.flat[0] = np.array(x[0]).astype(img.dtype)  # exactly on a calibration point
    if c["k3"]:
        img = np.stack([img, img[::-1], img], axis=-1)
    r = arr(call(pb.sim.img_to_reflectance, img, x, y), "reflectance image", img.shape)
    require(np.all((r >= 0) & (r <= 1)), "reflectance outside [0, 1]")
    p = piecewise(x, y, img)
    close(r, np.clip(p, 0, 1), "reflectance image", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(p))))
    o = np.argsort(-x)
    close(call(pb.sim.img_to_reflectance, img, x[o], y[o]), r, "reflectance with the calibration points in another order", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(p))))
    return np.ptp(img) > 0 and [c["span"], ci["dtype"], "%d points" % x.size, "clipped" if np.any((p < 0) | (p > 1)) else "unclipped"]


@check("P34", lambda: fd(which=st.sampled_from(["one point", "no point", "unequal"]), v=fl(0, 255)), 60, rule="calibrations that do not define a line; always non-trivial")
def undefined_calibrations_are_refused(pb, c):
    x, y = {"one point": ([c["v"]], [0.5]), "no point": ([], []), "unequal": ([c["v"], c["v"] + 1], [0.1])}[c["which"]]
    must_raise(ValueError, pb.sim.img_to_reflectance, np.array([[1.0, 2.0]]), np.array(x), np.array(y))
    return [c["which"]]


# ------------------------------------------------------------------ P35, P36

SIMBANDS = ((0.50e-6, 0.535e-6), (0.62e-6, 0.66e-6), (1.55e-6, 1.585e-6), (3.7e-6, 3.735e-6), (10.0e-6, 10.035e-6))
SMOOTH = [[[0.0625, 0.125, 0.0625], [0.125, 0.25, 0.125], [0.0625, 0.125, 0.0625]], [[0.5, 0.5]], [[0.25], [0.5], [0.25]]]


def sim_cases(noise=False):
    return fd(
        s=sensors(bands=SIMBANDS, sharpen=False),
        t=turbulence_params(),
        cond=db_conditions(alts=[500.0, 1000.0, 3000.0, 10000.0, 24500.0], max_gr=40e3, space=False),
        img=images(("float64", "uint8", "uint16") if not noise else ("float64", "uint8"), 100 if noise else 16, 140 if noise else 110, 3, 250),
        k=st.floats(1.0, 2.2),
        q=st.floats(1.0, 1.4 if noise else 3.5),
        level=st.one_of(*[fl(20.0 if noise else 5.0, 1e5, lits=False)] * 3, fl(1e5, 1e8, lits=False), *([fl(0.3, 20.0, lits=False)] if noise else [])),
        sat=st.sampled_from([None, None, None, 0.3, 0.7]),
        knots=st.one_of(st.just(None), st.lists(fl(0.02, 1.0, lits=False), min_size=2, max_size=3)),
        kernel=st.one_of(*[st.just(None)] * 4, st.sampled_from(SMOOTH)) if not noise else st.just(None),
        read=st.one_of(st.just(0.0), fl(0.3, 3.0, lits=False)),
        quant=st.one_of(st.just(0.0), st.just(0.0), fl(0.5, 3.0, lits=False)),
        seed=st.integers(0, 2**31 - 1),
        px=fl(3e-6, 30e-6, lits=False),
        interp=st.booleans(),
        rev=st.booleans(),
    )


def sim_setup(pb, c):
    """Sensor, scenario and reference image whose blur kernel is sampled as the documentation asks."""
    cs = dict(c["s"])
    cond = c["cond"]
    slant = math.hypot(cond[0], cond[1])
    lam = cs["opt"][0]
    pix = lam / (2 * cs["D"]) / c["k"]  # angle of a reference pixel
    ratio = cs["p_y_ratio"] or 1.0
    ifov = pix * c["q"]
    f = c["px"] / ifov * (1 + ratio) / 2
    cs["f_over_D"], cs["p_x"], cs["int_time"] = f / cs["D"], c["px"], 1.0
    cs["other_noise"], cs["max_n"] = [0], 10**15
    if c["sat"]:  # whether a shortened exposure moves less is not specified
        c = dict(c, t=dict(c["t"], aircraft_speed=0.0))
        cs["da"] = [0.0, 0.0]
    sc = build_scenario(pb, cond, c["t"], interp=c["interp"] and cond[0] <= 20000)
    atm = np.array(invoke(lambda: sc.atm), dtype=float)
    n_wl = int(np.sum((atm[:, 0] >= cs["opt"][0]) & (atm[:, 0] <= cs["opt"][-1])))
    if n_wl < 2:
        raise Reject
    s = build_sensor(pb, cs)
    _, pe, _, _ = refs.refl_to_pe(atm, s, 1.0)
    if not pe[50] > 0:
        raise Reject
    t = c["level"] / pe[50]
    cs["int_time"] = t
    lo = c["level"]
    cs["read_noise"] = c["read"] * math.sqrt(lo)
    if c["sat"]:
        cs["max_n"] = float(c["sat"] * pe[-1] * t)
    if c["quant"]:
        # the bit depth (not necessarily whole) at which quantization noise is quant * photon noise
        m = cs["max_n"] if c["sat"] else 4.0 * pe[-1] * t
        cs["max_n"] = m
        cs["bit_depth"] = math.log2(m / math.sqrt(12.0) / (c["quant"] * math.sqrt(lo)) + 1)
    else:
        cs["bit_depth"] = 100.0
    s = build_sensor(pb, cs)
    if c["kernel"] is not None:
        s.filter_kernel = np.array(c["kernel"])
    img = build_image(c["img"])
    kw = {}
    if c["knots"] is not None:
        x = np.linspace(float(img.min()), float(img.max()) + 1.0, len(c["knots"]))
        kw = dict(pix_values=x, refl_values=np.array(c["knots"]))
    elif c["img"]["kind"] == "point":
        kw = dict(pix_values=np.array([0.0, 255.0]), refl_values=np.array([0.1, 0.8]))
    if c["rev"]:  # calibration points come in any order
        kw = {k: v[::-1].copy() for k, v in kw.items()}
    ref = pb.RefImage(img, pix * slant, **kw)
    if not np.ptp(np.asarray(ref.pix_values, float)) > 0:
        raise Reject
    return s, sc, ref, atm, slant, ifov


def sim_reference(pb, s, sc, ref, atm, slant, ifov):
    refl, pe, wl, w = refs.refl_to_pe(atm, s, s.int_time)
    px, rx = np.asarray(ref.pix_values, float), np.asarray(ref.refl_values, float)
    r = np.clip(piecewise(px, rx, ref.img), 0, 1)
    true = pe[0] + (pe[-1] - pe[0]) * r  # linear in reflectance
    m = w > 0
    wl, w = wl[m], w[m]
    fc = s.D / wl.min()
    n = 751  # one quadrant: every component is even in both directions
    g = np.linspace(0.0, 1.0, n) * fc
    u, v = np.meshgrid(g, g)
    o = refs.component_otfs(s, sc, u, v, wl, w, slant, s.int_time)
    H = np.ones(u.shape)
    for k in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF"):
        H = H * o[k]
    H = np.concatenate([H[:, :0:-1], H], axis=1)
    H = np.concatenate([H[:0:-1], H], axis=0)
    k = np.asarray(s.filter_kernel)
    if k.size > 1:
        U, V = np.meshgrid(np.linspace(-1, 1, 1501) * fc, np.linspace(1, -1, 1501) * fc)
        H = H * np.asarray(pb.otf.filter_OTF(U, V, k, s.p_x / s.f))
    df = fc / 750.0
    extent = slant / (df * ref.gsd)  # of the kernel, in reference pixels; a fraction of a pixel is dropped
    cells = [n * ref.gsd / slant / ifov + 0.5 for n in true.shape]  # detectors, rounded
    if any(abs(x - round(x)) < 1e-6 for x in (extent, *cells)):
        raise Reject
    blurs = [np.asarray(pb.otf.apply_otf_to_image(true, ref.gsd, slant * e, H, df, ifov)[0]) for e in (1.0,)]
    return true, blurs[0], refl, pe


@check("P35", sim_cases, 32, 500, rule="random sensors, atmospheres, scenes and calibrations with a properly sampled blur kernel; non-trivial when the blurred image differs from the true one")
def true_and_blurred_images_follow_the_chain(pb, c):
    s, sc, ref, atm, slant, ifov = sim_setup(pb, c)
    true, blur, refl, pe = sim_reference(pb, s, sc, ref, atm, slant, ifov)
    if blur.min() < 0 or min(blur.shape) < 2:
        raise Reject
    fs, fr = freeze(s), freeze(ref)
    np.random.seed(c["seed"] % 2**31)
    out = invoke(pb.sim.simulate_image, ref, s, sc)
    require(same(fs, freeze(s)) and same(fr, freeze(ref)), "the simulation changed its sensor or reference image")
    require(len(out) == 3, "expected (true, blurred, noisy)")
    close(out[0], true, "true image", rtol=1e-6, atol=1e-7 * np.max(true))
    require(np.all(np.asarray(out[0]) <= s.max_n * (1 + 1e-6)), "true image exceeds the well capacity")
    close(out[1], blur, "blurred image", rtol=1e-5, atol=1e-4 * np.max(true))
    arr(out[2], "noisy image", blur.shape)
    return bool(np.ptp(true) > 0) and ["saturated" if c["sat"] and pe[-1] >= s.max_n * 0.999 else "exposed", "turbulent" if sc.cn2_at_1m > 0 else "still", "filtered" if c["kernel"] else "unfiltered", "calibrated" if c["knots"] else "default calibration", "thermal" if s.opt_trans_wavelengths[0] > 2.9e-6 else "solar"]


@check("P36", lambda: sim_cases(True), 32, 500, rule="scenes of ~10^4 detectors with photon, read and quantization noise in different proportions; non-trivial when at least 2000 detectors carry signal")
def noise_has_the_stated_statistics(pb, c):
    s, sc, ref, atm, slant, ifov = sim_setup(pb, c)
    fs, fr = freeze(s), freeze(ref)
    np.random.seed(c["seed"] % 2**31)
    try:
        t1, b1, n1 = invoke(pb.sim.simulate_image, ref, s, sc)
    except Violation as e:
        if isinstance(e.__cause__, ValueError) and "lam < 0" in str(e.__cause__):
            raise Reject from e  # ringing below zero signal (recorded in DESIGN.md)
        raise
    np.random.seed(c["seed"] % 2**31)
    t2, b2, n2 = invoke(pb.sim.simulate_image, ref, s, sc)
    require(same(fs, freeze(s)) and same(fr, freeze(ref)), "the simulation changed its sensor or reference image")
    require(same(np.asarray(t1), np.asarray(t2), 1e-12) and same(np.asarray(b1), np.asarray(b2), 1e-12), "true or blurred image is not reproducible")
    require(np.array_equal(np.asarray(n1), np.asarray(n2)), "the same random seed gives another noisy image")
    t3, b3, n3 = invoke(pb.sim.simulate_image, ref, s, sc)  # the generator runs on
    b = arr(b1, "blurred image")
    n = arr(n1, "noisy image", b.shape)
    g2 = refs.quantization(s.max_n, s.bit_depth) ** 2 + s.read_noise**2
    if b.size < 2000 or b.min() <= 0:
        raise Reject
    d = n - b
    if g2 < 1e-12:
        require(np.all(np.abs(n - np.round(n)) < 1e-3), "photon counts are not whole numbers without read or quantization noise")
    if g2 > 0.01:
        whole = float(np.mean(np.abs(n - np.round(n)) < 1e-9))
        require(whole < 0.5, f"{whole:.0%} of the noisy image are whole numbers in spite of Gaussian noise")
    z = d / np.sqrt(b + g2)
    N = z.size
    m = float(z.mean()) * math.sqrt(N)
    require(abs(m) < 7, f"mean of the noise is {m:.1f} standard errors off")
    kurt = float(np.mean(2 + b / (b + g2) ** 2))
    q = (float(np.mean(z * z)) - 1) / math.sqrt(kurt / N)
    require(abs(q) < 7.5, f"variance of the noise is {np.mean(z * z):.4f} of what photon, read and quantization noise give ({q:.1f} standard errors)")
    # detectors are independent
    for a, b_, nm in ((z[:, 1:], z[:, :-1], "row"), (z[1:], z[:-1], "column"), (z[1:, 1:], z[:-1, :-1], "diagonal")):
        r = float(np.mean(a * b_)) * math.sqrt(a.size)
        require(abs(r) < 7.5, f"noise of neighbours along a {nm} is correlated ({r:.1f} standard errors)")
    # and so are simulations
    require(same(np.asarray(t1), np.asarray(t3), 1e-12) and same(np.asarray(b1), np.asarray(b3), 1e-12), "true or blurred image is not reproducible")
    z3 = (arr(n3, "noisy image", b.shape) - b) / np.sqrt(b + g2)
    r = float(np.mean(z * z3)) * math.sqrt(N)
    require(abs(r) < 7.5, f"noise of two successive simulations is correlated ({r:.1f} standard errors)")
    # brighter detectors are noisier by the photon statistics alone
    bright = b > np.median(b)
    if bright.any() and (~bright).any():
        for msk, nm in ((bright, "bright"), (~bright, "dark")):
            kk = (float(np.mean(z[msk] ** 2)) - 1) / math.sqrt(kurt * 1.5 / int(msk.sum()))
            require(abs(kk) < 8, f"variance of the noise on {nm} detectors is off by {kk:.1f} standard errors")
    return ["read" if s.read_noise else "no read", "quantized" if c["quant"] else "fine ADC", "saturated" if c["sat"] else "exposed", "few electrons" if b.mean() < 5 else "many electrons"]


# ------------------------------------------------------------------ P37


def own_percentile(x, p):
    x = np.sort(np.asarray(x, float).ravel())
    t = (x.size - 1) * p / 100.0
    i = int(math.floor(t))
    j = min(i + 1, x.size - 1)
    return x[i] + (x[j] - x[i]) * (t - i)


def ref_image_cases(lo=1, hi=40):
    return fd(img=images(("float64", "uint8", "uint16", "float32"), lo, hi), gsd=fl(1e-4, 100), alt=st.one_of(st.none(), fl(10.0, 1e7)), pts=st.one_of(st.none(), fl(0.0, 100.0)), name=st.sampled_from([None, "site", ""]), rgb=st.sampled_from([False, False, True]))


@check("P37", lambda: ref_image_cases(150, 420), 40, rule="as above with images of 20,000-180,000 pixels; non-trivial when the image is not constant")
def large_reference_images(pb, c):
    return reference_image_defaults(pb, dict(c, pts=None))


@check("P37", ref_image_cases, 2500, rule="grey and colour images of four dtypes, ground samples and altitudes, with and without calibration; non-trivial when the image is not constant")
def reference_image_defaults(pb, c):
    img = build_image(c["img"])
    if c["rgb"]:
        img = np.stack([img, img[::-1] // 2 if img.dtype.kind == "u" else img[::-1] / 2, np.zeros_like(img)], axis=-1)
    keep = img.copy()
    kw = {} if c["name"] is None else {"name": c["name"]}
    if c["pts"] is None:
        r = invoke(pb.RefImage, img, c["gsd"], **kw)
        tol = 1e-6 if img.dtype == np.float32 else 1e-12
        close(r.pix_values, [own_percentile(img, 0.2), own_percentile(img, 99.8)], "default calibration counts", rtol=tol, atol=tol)
        close(r.refl_values, [0.05, 0.95], "default calibration reflectances", rtol=1e-12)
    else:
        px, rf = np.array([c["pts"], c["pts"] + 10.0]), np.array([0.2, 0.6])
        r = invoke(pb.RefImage, img, c["gsd"], px, rf, **kw)
        require(np.array_equal(r.pix_values, px) and np.array_equal(r.refl_values, rf), "the given calibration was not kept")
        must_raise(ValueError, pb.RefImage, img, c["gsd"], pix_values=px)
    require(np.array_equal(r.img, keep) and r.gsd == c["gsd"], "image or ground sample distance changed")
    require(r.name == ("ref_image" if c["name"] is None else c["name"]), f"name {r.name!r}")
    alt = 2000000 if c["alt"] is None else c["alt"]
    s, sc = call(r.estimate_capture_parameters, *([] if c["alt"] is None else [c["alt"]]))
    s, sc = invoke(r.estimate_capture_parameters, *([] if c["alt"] is None else [c["alt"]]))
    # a camera straight above whose detectors see exactly the ground sample ...
    close(s.p_x / s.f * alt, c["gsd"], "ground sample of the estimated camera", rtol=1e-9)
    require(sc.altitude == alt and sc.ground_range == 0 and sc.ihaze == 1, "the estimated scenario is not a clear view straight down")
    # ... and which adds no degradation
    require(sc.cn2_at_1m == 0 and sc.aircraft_speed == 0 and s.s_x == s.s_y == s.da_x == s.da_y == s.pv == 0, "the estimated camera or scenario adds blur")
    close(s.opt_trans_wavelengths, [380e-9, 700e-9], "band of the estimated camera", rtol=1e-9)
    require(s.p_y == s.p_x and s.w_x == s.p_x and s.w_y == s.p_y and s.eta == 0, "the estimated detector is not square and filled")
    ifov = 2 * math.atan(s.p_x / (2 * s.f))
    close(s.D, 4 * 540e-9 / ifov, "aperture of the estimated camera", rtol=1e-9)
    close(s.p_x, 20e-6, "pitch of the estimated camera", rtol=1e-9)
    # the mid-band diffraction spot (1.22 lambda/D) is well below a detector
    require(1.22 * 540e-9 / s.D < 0.31 * ifov * (1 + 1e-9), "the estimated aperture limits the resolution")
    require(s.name == r.name and sc.name == r.name, "names of the estimated camera and scenario")
    return np.ptp(img) > 0 and [img.dtype.name, "given" if c["pts"] is not None else "percentiles"]


# ------------------------------------------------------------------ P38


def stretch_cases(lo=2, hi=40):
    return fd(img=images(("float64", "uint8", "uint16", "float32", "int32"), lo, hi), lo=fl(-100, 1e4), span=fl(1.0, 1e5), perc=st.one_of(st.none(), st.tuples(fl(0, 45), fl(55, 100)).map(list)), a=fl(0.1, 50), b=fl(-500, 500), rgb=st.sampled_from([False, False, True]))


@check("P38", lambda: stretch_cases(150, 420), 40, rule="as above with images of 20,000-500,000 pixels; non-trivial when the stretch is defined")
def stretch_of_large_images(pb, c):
    return contrast_stretch(pb, c)


@check("P38", stretch_cases, 3500, rule="grey and colour images of five dtypes with default and given percentiles; non-trivial when the stretch is defined")
def contrast_stretch(pb, c):
    ci = dict(c["img"])
    lo, hi = c["lo"], c["lo"] + c["span"]
    if ci["dtype"][0] == "u":
        lo, hi = abs(lo) % 100, min(abs(lo) % 100 + c["span"], 255 if ci["dtype"] == "uint8" else 65535)
    ci["lo"], ci["hi"] = lo, hi
    img = build_image(ci)
    if c["rgb"]:
        img = np.stack([img, img[::-1], img[:, ::-1]], axis=-1)
    p = c["perc"] or [0.1, 99.9]
    f = (lambda x: call(pb.sim.stretch_contrast_convert_8bit, x)) if c["perc"] is None else (lambda x: call(pb.sim.stretch_contrast_convert_8bit, x, list(c["perc"])))
    x = img.astype(float)
    a, b = own_percentile(x, p[0]), own_percentile(x, p[1])
    if b - a < 1e-6 * max(abs(a), abs(b), 1e-9):
        raise Reject
    out = np.asarray(f(img))
    require(out.dtype == np.uint8 and out.shape == img.shape, f"stretched image is {out.dtype} of shape {out.shape}")
    t = np.clip((x - a) / (b - a) * 255, 0, 255)
    require(np.all(np.abs(out.astype(float) - t) <= 0.5 + 1e-6 * (1 + max(abs(a), abs(b)) / (b - a) * 1e-3)), f"stretched image is off by {np.max(np.abs(out - t))} counts")
    o = np.argsort(x.ravel(), kind="stable")
    nondecreasing(out.ravel()[o].astype(int), "stretched counts against input counts")
    y = f(c["a"] * x + c["b"])
    require(np.max(np.abs(y.astype(int) - out.astype(int))) <= 1, "the stretched image depends on gain and offset")
    return [ci["dtype"], "default" if c["perc"] is None else "given"]


# ------------------------------------------------------------------ P39


@check("P39", lambda: fd(n=st.integers(1, 12), seed=st.integers(0, 10**6), cplx=st.booleans(), nsr=st.one_of(fl(1e-6, 10.0), fl(1e-13, 1e3)), arr=st.booleans(), w=fl(1e-7, 1e-3), f=fl(1e-3, 100), zero=st.booleans()), 3500, rule="random real and complex responses (with zeros), scalar and frequency-dependent noise; always non-trivial")
def restoration_filter(pb, c):
    r = np.random.RandomState(c["seed"])
    H = r.rand(c["n"], c["n"]) * 2 - 0.5
    if c["cplx"]:
        H = H * np.exp(2j * math.pi * r.rand(c["n"], c["n"]))
    if c["zero"]:
        H.flat[0] = 0.0
    k = c["nsr"] * (0.5 + r.rand(c["n"], c["n"])) if c["arr"] else c["nsr"]
    W = arr(call(pb.sim.wiener_filter, H, k), "restoration filter", H.shape)
    # W minimises |1 - W H|^2 + k |W|^2 : the gradient vanishes
    close(W * (np.abs(H) ** 2 + k), np.conj(H), "restoration filter times the spectrum", rtol=1e-10, atol=1e-13)
    close(np.imag(W * H), np.zeros(H.shape), "phase of the restored response", atol=1e-12)
    WH = np.real(W * H)
    require(np.all(WH >= -1e-12) and np.all(WH < 1 + 1e-12), "the restored response leaves [0, 1]")
    cost = lambda w: np.abs(1 - w * H) ** 2 + k * np.abs(w) ** 2  # noqa: E731
    for d in (1e-3, -1e-3, 1e-3j, -1e-3j):
        require(np.all(cost(W + d) >= cost(W) - 1e-12), "another filter has a smaller mean square error")
    close(call(pb.sim.instantaneous_FOV, c["w"], c["f"]), c["w"] / c["f"], "field of view of a detector", rtol=1e-12)
    return ["complex" if c["cplx"] else "real", "spectrum" if c["arr"] else "scalar"]


# ------------------------------------------------------------------ P40


class _Broken:
    """An OpenCV installation that does not load (a shared library it needs is missing)."""

    def find_spec(self, name, path=None, target=None):
        if name == "cv2" or name.startswith("cv2."):
            raise ImportError("libGL.so.1: cannot open shared object file: No such file or directory")
        return None


def with_broken_opencv(pb, _made={}):  # noqa: B006
    if not _made:
        from ..load import fresh

        hook, none = _Broken(), sys.modules.pop("cv2", None)
        sys.meta_path.insert(0, hook)
        try:
            _made["pb"] = invoke(fresh, pb)
        finally:
            sys.meta_path.remove(hook)
            sys.modules["cv2"] = none
    return _made["pb"]


@check("P40", lambda: fd(broken=st.booleans(), img=images(("float64",), 3, 12), cond=db_conditions(alts=[500.0, 2000.0], max_gr=2000.0, space=False), s=sensors(bands=((0.5e-6, 0.6e-6),), sharpen=True), op=st.sampled_from(["psf", "apply", "resample", "simulate", "niirs", "niirs5", "stretch", "reflectance", "otfs"])), 120, rule="one call of the public interface with OpenCV absent; always non-trivial")
def opencv_is_optional(pb, c):
    if c["broken"]:
        pb = with_broken_opencv(pb)
    img = build_image(c["img"])
    H = np.ones((21, 21))
    s, sc = build_sensor(pb, c["s"]), build_scenario(pb, c["cond"])
    op = c["op"]
    refuse = {
        "psf": (pb.otf.otf_to_psf, H, 1.0, 0.01),
        "apply": (pb.otf.apply_otf_to_image, img, 1.0, 1000.0, H, 100.0, 1e-3),
        "resample": (pb.otf.resample_2D, img, 1.0, 0.5),
    }
    if op in refuse:
        e = must_raise(ImportError, *refuse[op])
        require("opencv" in str(e).lower(), f"the refusal does not name OpenCV: {e}")
    elif op == "simulate":
        s.opt_trans_wavelengths, s.optics_transmission = np.array([0.5e-6, 0.52e-6]), np.ones(2)
        s.qe_wavelengths, s.qe = np.array([0.4e-6, 0.6e-6]), np.ones(2)
        must_raise(ImportError, pb.sim.simulate_image, pb.RefImage(img, 0.01, np.array([0.0, 255.0]), np.array([0.1, 0.9])), s, sc)
    elif op in ("niirs", "niirs5"):
        m = invoke(getattr(pb.met, op), s, sc)
        require(np.asarray(m.otf.system_OTF).shape == (101, 101), f"{op} without OpenCV")
    elif op == "stretch":
        require(call(pb.sim.stretch_contrast_convert_8bit, img + np.arange(img.size).reshape(img.shape)).dtype == np.uint8, "contrast stretch without OpenCV")
    elif op == "reflectance":
        close(call(pb.sim.img_to_reflectance, img, np.array([0.0, 300.0]), np.array([0.0, 1.0])), img / 300.0, "reflectance without OpenCV", rtol=1e-9)
    else:
        u, v = np.meshgrid(np.linspace(-1e4, 1e4, 5), np.linspace(1e4, -1e4, 5))
        o = invoke(pb.otf.common_OTFs, s, sc, u, v, np.array([0.55e-6]), np.array([1.0]), 2000.0, 0.01)
        require(np.asarray(o.system_OTF).shape == u.shape, "system response without OpenCV")
    return [op, "broken" if c["broken"] else "absent"]


# ------------------------------------------------------------------ P41

CURVES = {"aperture": "ap_OTF", "turbulence": "turb_OTF", "detector": "det_OTF", "jitter": "jit_OTF", "drift": "drft_OTF", "wavefront": "wav_OTF", "image processing": "filter_OTF", "system": "system_OTF"}
BARS = {"Total": "total_noise", "Scene": "scene_noise", "Path": "path_noise", "Emission / Stray": "self_emission_noise", "Dark Current": "dark_current_noise", "Quantization": "quantization_noise", "Readout": None}


@check("P41", lambda: fd(s=sensors(bands=((0.5e-6, 0.57e-6), (3.7e-6, 3.77e-6), (2.85e-6, 9.0e-6))), t=turbulence_params(), cond=db_conditions(max_gr=20e3), ang=st.one_of(st.none(), st.sampled_from([0.0, math.pi / 2, math.pi / 4]), fl(0, math.pi)), mx=st.sampled_from([0, 0, 50, 100000]), su=st.sampled_from([1.0, 2.0, 0.5]), sv=st.sampled_from([1.0, 3.0, 0.25]), model=st.sampled_from(["niirs", "niirs5"])), 100, rule="results of both models plotted at any angle; every curve, bar and label is read back from the figure; always non-trivial")
def plots_show_the_result(pb, c):
    import matplotlib.pyplot as plt

    s, sc = build_sensor(pb, c["s"]), build_scenario(pb, c["cond"], c["t"])
    atm = pb.db.atm(*c["cond"]) if pb.db.has(*c["cond"]) else None
    if atm is None or int(np.sum((atm[:, 0] > s.opt_trans_wavelengths[0]) & (atm[:, 0] < s.opt_trans_wavelengths[-1]))) < 2:
        raise Reject
    try:
        m = getattr(pb.met, c["model"])(s, sc)
    except Exception as e:  # the model itself is the subject of other properties
        raise Reject from e
    if not (math.isfinite(m.snr.tgt_n) and math.isfinite(m.snr.well_fraction)) or np.isnan(m.snr.scene_noise):
        raise Reject
    fm = freeze(m)
    plt.close("all")
    try:
        fig = plt.figure()
        invoke(pb.met.plot_common_MTFs, m, *([] if c["ang"] is None else [c["ang"]]))
        ax = plt.gca()
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        require(len(ax.lines) == len(names) and set(CURVES) <= set(names), f"legend {names} for {len(ax.lines)} curves")
        ang = c["ang"] or 0.0
        for line, nm in zip(ax.lines, names):
            o = np.asarray(getattr(m.otf, CURVES[nm]))
            want, want2 = np.abs(refs.bilinear_ray(o, ang)), refs.bilinear_ray(np.abs(o), ang)
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            n = min(len(want), len(y))
            require(n >= 50, f"curve of {n} points")
            bad = np.minimum(np.abs(y[:n] - want[:n]), np.abs(y[:n] - want2[:n])) > 2e-6  # modulus before or after slicing
            require(not np.any(bad), f"curve '{nm}': shows {y[:n][bad][:3]}, the result holds {want[:n][bad][:3]}")
            # cycles/mm in the image plane; the sampled cone of radii is interpolated, so its tip is blunt
            step = m.cutoff_frequency / 50.0
            f = np.arange(n) * step / s.f / 1000.0
            close(x[:n], f, f"spatial frequencies of '{nm}'", rtol=1e-6, atol=0.35 * step / s.f / 1000.0)
        require("cycles/mm" in ax.get_xlabel() and "MTF" in ax.get_ylabel(), f"axes are labelled {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
        arrows = [t.xy for t in ax.texts if hasattr(t, "xy")]
        require(any(abs(p[0] - 0.5 / s.p_x / 1000.0) <= 1e-6 * 0.5 / s.p_x / 1000.0 for p in arrows), f"no mark at the Nyquist frequency: {arrows}")
        plt.close(fig)
        # a result whose two frequency axes have different spacings
        stretched = copy.copy(m)
        stretched.uu, stretched.vv = np.asarray(m.uu) * c["su"], np.asarray(m.vv) * c["sv"]
        fig = plt.figure()
        invoke(pb.met.plot_common_MTFs, stretched, *([] if c["ang"] is None else [c["ang"]]))
        want = refs.bilinear_ray(np.hypot(stretched.uu, stretched.vv), ang) / s.f / 1000.0
        for line in plt.gca().lines:
            x = np.asarray(line.get_xdata(), float)
            n = min(len(x), len(want))
            # exact frequency of each sample, up to the interpolation of the sampled cone
            step = np.hypot(c["su"], c["sv"]) * m.cutoff_frequency / 50.0 / s.f / 1000.0
            close(x[:n], want[:n], "spatial frequencies of a result with unequal axes", rtol=1e-3, atol=0.35 * step)
        curves, others = len(plt.gca().lines), plt.gca()
        invoke(pb.met.plot_noise_terms, m, *([c["mx"]] if c["mx"] else []))
        fig = plt.gcf()
        ax = plt.gca()
        require(not ax.lines and len(others.lines) == curves and not others.patches, "the noise terms are drawn over the response curves")
        fig.canvas.draw()
        at = {round(float(x), 6): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}
        seen = set()
        for b in ax.patches:
            nm = at.get(round(b.get_x() + b.get_width() / 2, 6))
            require(nm in BARS, f"bar at {b.get_x() + b.get_width() / 2} is labelled {nm!r}")
            seen.add(nm)
            close(b.get_height(), s.read_noise if BARS[nm] is None else float(getattr(m.snr, BARS[nm])), f"bar '{nm}'", rtol=1e-9, atol=1e-12)
        require(seen == set(BARS), f"bars {sorted(seen)}")
        require("electrons" in ax.get_ylabel().lower(), f"noise axis is labelled {ax.get_ylabel()!r}")
        if c["mx"]:
            close(ax.get_ylim(), [0, c["mx"]], "limits of the noise axis", rtol=1e-9)
        else:
            top = max(b.get_height() for b in ax.patches)
            require(ax.get_ylim()[0] <= 0 and ax.get_ylim()[1] >= top, f"a bar of {top} is cut off by the axis {ax.get_ylim()}")
        title = ax.get_title()
        for txt, val in (("total photoelectrons per pixel", m.snr.tgt_n), ("contrast photoelectrons per pixel", m.snr.tgt_n - m.snr.bkg_n), ("well fill", m.snr.well_fraction * 100)):
            ln = [x for x in title.split("\n") if txt in x]
            require(len(ln) == 1, f"title {title!r} does not give '{txt}'")
            shown = float(ln[0].split(":")[1].strip().rstrip("%"))
            require(abs(shown - float(val)) <= 1 + 1e-9 * abs(float(val)), f"title says {ln[0]!r}, the result is {val}")
    finally:
        plt.close("all")
    require(same(fm, freeze(m)), "plotting changed the result")
    return [c["model"], "axis" if (c["ang"] or 0) in (0.0, math.pi / 2) else "oblique"]


@check("P41", lambda: fd(img=images(("float64", "uint8", "uint16"), 2, 60), gsd=fl(1e-3, 100), rgb=st.booleans()), 240, rule="grey and colour reference images of any shape and ground sample; non-trivial when not square")
def shown_images_span_the_ground(pb, c):
    import matplotlib.pyplot as plt

    img = build_image(c["img"])
    if c["rgb"]:
        img = np.stack([img, img[::-1], img[:, ::-1]], axis=-1)
        img = img / 255.0 if img.dtype == np.float64 else img.astype(np.uint8)
    h, w = img.shape[:2]
    r = pb.RefImage(img, c["gsd"], np.array([0.0, 255.0]), np.array([0.1, 0.8]))
    keep = img.copy()
    plt.close("all")
    try:
        invoke(r.show)
        ax = plt.gca()
        require(len(ax.images) == 1, f"{len(ax.images)} images shown")
        im = ax.images[0]
        shown = np.asarray(im.get_array())
        require(shown.shape == img.shape and np.allclose(np.asarray(shown, float), np.asarray(img, float)), "the pixels shown are not the image's")
        l, rt, b, t = im.get_extent()
        close([min(l, rt), max(l, rt)], [-w * c["gsd"] / 2, w * c["gsd"] / 2], "horizontal extent in metres", rtol=1e-9)
        close([min(b, t), max(b, t)], [-h * c["gsd"] / 2, h * c["gsd"] / 2], "vertical extent in metres", rtol=1e-9)
        # columns run to the right and the first row is on top
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
        require((rt - l) * (x1 - x0) > 0, "the image is mirrored left to right")
        require((t - b) * (y1 - y0) * (1 if im.origin == "upper" else -1) > 0, "the image is shown upside down")
        for lab, ch in ((ax.get_xlabel(), "x"), (ax.get_ylabel(), "y")):
            require(ch in lab.lower() and "(m)" in lab, f"axis label {lab!r}")
    finally:
        plt.close("all")
    require(np.array_equal(r.img, keep), "showing the image changed it")
    return h != w and [c["img"]["dtype"], "colour" if c["rgb"] else "grey"]
