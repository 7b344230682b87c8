"""P03-P11: optical transfer functions of the individual degradations."""
import math
import zlib

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..components import COMPONENTS, DIAM, FC, LAM
from ..core import Reject, arr, call, check, close, nondecreasing, require
from ..gens import fd, fl, freqs, uv


def case(name):
    comp = COMPONENTS[name]

    def s():
        return comp.params().flatmap(lambda p: freqs(comp.specials(p), comp.fmax).map(lambda q: {"p": p, "q": q}))

    return s


def case_any(names):
    return lambda: st.sampled_from(names).flatmap(lambda n: case(n)().map(lambda c: {"component": n, **c}))


def run(pb, comp, p, u, v):
    fn, *args = comp.run(pb, p, u, v)
    H = arr(call(fn, *args), comp.name, u.shape)
    if not comp.complex_:
        require(H.dtype.kind in "fiu", f"{comp.name}: returned {H.dtype}")
    return H


def matches(pb, comp, c):
    u, v = uv(c["q"], *comp.fc(c["p"]))
    H = run(pb, comp, c["p"], u, v)
    rtol, atol = comp.tol(c["p"])
    want = comp.ref(c["p"], u, v)
    close(H, want, comp.name, rtol=rtol, atol=atol)
    interesting = bool(np.any((np.abs(want) > 1e-6) & (np.abs(want) < 1 - 1e-6)))
    return interesting and [comp.name, "layout " + c["q"]["layout"]] + comp.labels(c["p"])


RULE = "component parameters (wide log-uniform, zeros, source constants) and 1-8 frequencies incl. zero, cutoff and region boundaries in six array layouts; non-trivial when some response is strictly between 0 and 1"

# ------------------------------------------------------------------ P03


@check("P03", case("circular_aperture"), 8000, rule=RULE)
def aperture_is_autocorrelation(pb, c):
    return matches(pb, COMPONENTS["circular_aperture"], c)


@check("P03", lambda: fd(lam=LAM(), D=DIAM(), eta=st.one_of(st.just(0.0), fl(1e-3, 0.97), st.integers(1, 19).map(lambda k: k / 20)), n=st.sampled_from([11, 21, 51, 101]), k=st.sampled_from([1.0, 1.0, 1.3])), 1200, rule="whole frequency grids out to the cutoff as the image-quality models use them; always non-trivial")
def aperture_on_model_grids(pb, c):
    fc = c["D"] / c["lam"] * c["k"]
    u, v = np.meshgrid(np.linspace(-1, 1, c["n"]) * fc, np.linspace(1, -1, c["n"]) * fc)
    H = call(pb.otf.circular_aperture_OTF, u, v, c["lam"], c["D"], c["eta"])
    close(H, refs.annular_otf(np.hypot(u, v) * c["lam"] / c["D"], c["eta"]), "aperture OTF on a grid", rtol=1e-9, atol=(3e-8 if c["eta"] < 0.9 else 1.2e-7) / (1 - c["eta"] ** 2))
    H = arr(H, "H")
    require(np.all(np.abs(H[np.hypot(u, v) * c["lam"] / c["D"] > 1 + 1e-12]) < 1e-9), "aperture passes frequencies beyond its cutoff")
    return ["obscured" if c["eta"] else "clear", "n%d" % c["n"]]


# ------------------------------------------------------------------ P04


def defocus_cases():
    return fd(lam=LAM(), D=DIAM(), fn=st.one_of(*[fl(1.0, 30.0)] * 3, fl(0.4, 1.0)), waves=st.one_of(st.just(0.0), fl(1e-3, 3.0), fl(0.05, 5.0)), sign=st.sampled_from([1.0, 1.0, -1.0]), q=freqs((0.05, 0.1, 0.25, 0.75), 1.5))


def _defocus(c):
    f = c["fn"] * c["D"]
    dz = c["sign"] * c["waves"] * c["lam"] * 2.0 * (1.0 + 4.0 * c["fn"] ** 2)
    return f, dz


def defocus_tol(alpha):
    # the model is the published series cut after three (four) terms; measured envelope of the
    # truncation over 0-5 waves, with a margin of about 1.4
    a = np.abs(alpha)
    return 1e-8 + np.minimum(np.minimum(4e-7 * a**6, 0.009), 0.16 / np.maximum(a, 1e-9))


@check("P04", defocus_cases, 5000, rule="aperture, f-number, 0 to 5 waves of focus error of either sign; non-trivial when defocused and some frequency lies inside the cutoff")
def defocus_matches_pupil_integral(pb, c):
    f, dz = _defocus(c)
    u, v = uv(c["q"], c["D"] / c["lam"])
    H = arr(call(pb.otf.circular_aperture_OTF_with_defocus, u, v, c["lam"], c["D"], f, dz), "defocused aperture OTF", u.shape)
    nu = np.hypot(u, v) * c["lam"] / c["D"]
    want = np.array([refs.defocused_otf(x, c["waves"]) for x in nu.ravel()]).reshape(nu.shape)
    alpha = 4 * math.pi * c["waves"] * 2 * nu
    close(H, want, "defocused aperture OTF", atol=defocus_tol(alpha) + (0 if c["waves"] else 1e-7))
    return bool(c["waves"] and np.any((nu > 0) & (nu < 1))) and ["%d waves" % c["waves"], "negative" if c["sign"] < 0 else "positive"]


@check("P04", lambda: fd(lam=LAM(), D=DIAM(), fn=fl(1.0, 30.0), q=freqs((), 1.5)), 2000, rule="in-focus systems; non-trivial when a frequency lies inside the cutoff")
def in_focus_is_diffraction_limited(pb, c):
    u, v = uv(c["q"], c["D"] / c["lam"])
    f = c["fn"] * c["D"]
    H = call(pb.otf.circular_aperture_OTF_with_defocus, u, v, c["lam"], c["D"], f, 0.0)
    close(H, refs.annular_otf(np.hypot(u, v) * c["lam"] / c["D"], 0.0), "in-focus OTF", rtol=1e-9, atol=1e-7)
    H2 = call(pb.otf.circular_aperture_OTF_with_defocus, u, v, c["lam"], c["D"], f, 1e-3 * 2 * c["lam"] * (1 + 4 * c["fn"] ** 2))
    close(H2, H, "OTF with a thousandth of a wave of defocus", atol=2e-5)
    return bool(np.any(np.abs(H - 0.5) < 0.499)) and ["layout " + c["q"]["layout"]]


# ------------------------------------------------------------------ P05 / P06


@check("P05", case_any(["detector", "detector_aggregated", "cte", "tdi", "diffusion"]), 8000, rule=RULE)
def focal_plane_blur_equations(pb, c):
    return matches(pb, COMPONENTS[c["component"]], c)


@check("P05", lambda: fd(fc=FC(), f=fl(0.01, 50), a=fl(0.1, 1.0), g=fl(1.0, 2.0), n=st.integers(1, 6), q=freqs()), 1500, rule="full-fill-factor aggregation; always non-trivial")
def aggregating_full_pixels_is_one_big_pixel(pb, c):
    u, v = uv(c["q"], c["fc"])
    w = c["a"] * c["f"] / c["fc"]
    H = call(pb.otf.detector_OTF_with_aggregation, u, v, w, w * c["g"], w, w * c["g"], c["f"], c["n"])
    B = call(pb.otf.detector_OTF, u, v, w * c["n"], w * c["g"] * c["n"], c["f"])
    close(H, B, "n aggregated gap-free detectors against one n times as wide", atol=1e-9)
    H1 = call(pb.otf.detector_OTF_with_aggregation, u, v, w, w * c["g"], 3 * w, 5 * w, c["f"])
    close(H1, call(pb.otf.detector_OTF, u, v, w, w * c["g"], c["f"]), "no aggregation", rtol=1e-10, atol=1e-12)
    return ["n%d" % c["n"]]


@check("P05", lambda: fd(jd=fl(1e-12, 1.0), wx=fl(1e-6, 1e-3), wy=fl(1e-6, 1e-3)), 1500, rule="current densities and detector sizes; always non-trivial")
def dark_current_counts_electrons(pb, c):
    close(call(pb.otf.dark_current_from_density, c["jd"], c["wx"], c["wy"]), c["jd"] / refs.Q * c["wx"] * c["wy"], "dark current", rtol=1e-10)
    return ["large" if c["jd"] > 1e-4 else "small"]


@check("P06", case_any(["drift", "jitter", "defocus_gaussian", "gaussian", "wavefront", "wavefront_rms"]), 8000, rule=RULE)
def motion_and_optics_blur_equations(pb, c):
    return matches(pb, COMPONENTS[c["component"]], c)


@check("P06", lambda: fd(D=DIAM(), R=st.one_of(*[fl(0.1, 1e8)] * 7, st.just(math.inf)), R0=st.one_of(*[fl(0.1, 1e8)] * 7, st.just(math.inf)), dz=fl(-1e-3, 1e-3), f=fl(0.01, 50)), 2500, rule="object and focus ranges (sometimes infinite) and focus shifts; always non-trivial")
def defocus_radii(pb, c):
    w = call(pb.otf.object_domain_defocus_radii, c["D"], c["R"], c["R0"])
    close(w, 0.62 * c["D"] * ((c["R0"] - c["R"]) / (c["R"] * c["R0"]) if math.isfinite(c["R"] * c["R0"]) else 1 / c["R"] - 1 / c["R0"]), "object-domain blur radius", rtol=1e-10, atol=1e-14 * c["D"] * (1 / c["R"] + 1 / c["R0"]))
    close(call(pb.otf.object_domain_defocus_radii, c["D"], c["R"], c["R"]), 0.0, "blur radius in focus", atol=1e-15 * c["D"] / c["R"])
    close(call(pb.otf.image_domain_defocus_radii, c["D"], c["dz"], c["f"]), 0.62 * c["D"] / c["f"] * c["dz"] / c["f"], "image-domain blur radius", rtol=1e-10)
    return ["near" if c["R"] < c["R0"] else "far"]


# ------------------------------------------------------------------ P07

ALL = sorted(COMPONENTS)


@check("P07", case_any(ALL), 4000, rule=RULE)
def unit_gain_and_passive(pb, c):
    comp, p = COMPONENTS[c["component"]], c["p"]
    u, v = uv(c["q"], *comp.fc(p))
    z = np.zeros((1, 2))
    close(run(pb, comp, p, z, z), np.ones((1, 2)), comp.name + " at zero frequency", rtol=0, atol=1e-9 + comp.tol(p)[1])
    H = run(pb, comp, p, u, v)
    require(np.all(np.abs(H) <= 1 + 1e-9 + comp.tol(p)[1]), f"{comp.name} amplifies: {np.max(np.abs(H))}")
    return bool(np.any(np.abs(H) < 1 - 1e-6)) and [comp.name]


@check("P07", case_any(ALL), 3000, rule=RULE)
def frequency_reversal(pb, c):
    comp, p = COMPONENTS[c["component"]], c["p"]
    u, v = uv(c["q"], *comp.fc(p))
    H = run(pb, comp, p, u, v)
    atol = 1e-10 + comp.tol(p)[1] * 1e-2
    close(run(pb, comp, p, -u, -v), np.conj(H), comp.name + " at reversed frequencies", rtol=1e-9, atol=atol)
    if not comp.complex_:
        close(run(pb, comp, p, -u, v), H, comp.name + " mirrored in u", rtol=1e-9, atol=atol)
        close(run(pb, comp, p, u, -v), H, comp.name + " mirrored in v", rtol=1e-9, atol=atol)
    return bool(np.any(u != 0) or np.any(v != 0)) and [comp.name]


@check("P07", lambda: case_any(ALL)().flatmap(lambda c: fd(c=st.just(c), roll=st.integers(0, 7), keep=st.integers(1, 8))), 3000, rule=RULE)
def samples_are_independent(pb, c):
    """Reshaping, permuting, or evaluating any part of the frequency array changes no value."""
    c, roll, keep = c["c"], c["roll"], c["keep"]
    comp, p = COMPONENTS[c["component"]], c["p"]
    u, v = uv(c["q"], *comp.fc(p))
    H = run(pb, comp, p, u, v)
    fu, fv, fh = np.ravel(u), np.ravel(v), np.ravel(H)
    atol = 1e-12
    close(run(pb, comp, p, fu[:keep].copy(), fv[:keep].copy()), fh[:keep], comp.name + " on part of the array", rtol=1e-10, atol=atol)
    close(run(pb, comp, p, np.roll(fu, roll)[::-1], np.roll(fv, roll)[::-1]), np.roll(fh, roll)[::-1], comp.name + " on the permuted array", rtol=1e-10, atol=atol)
    return fu.size > 1 and [comp.name, "layout " + c["q"]["layout"]]


def _large():
    return case_any(ALL)().flatmap(lambda c: fd(c=st.just(c), layout=st.sampled_from(["2d", "1d", "row", "column"]), size=st.integers(2, 5), grid=st.booleans(), seed=st.integers(0, 2**32 - 1)))


def _large_shape(c, rng):
    lo = (900, 2500, 5000, 12000)[c["size"] - 2]
    n = int(rng.integers(lo, 2.7 * lo))
    if c["layout"] == "2d":
        a = int(rng.integers(int(n**0.5 / 2), int(n**0.5 * 2)))
        return (a, max(n // a, 2))
    return {"1d": (n,), "row": (1, n), "column": (n, 1)}[c["layout"]]


@check("P07", _large, 800, rule="frequency arrays of 900 to 32400 entries, regular grids or scattered; non-trivial when a tested entry's response is strictly between 0 and 1")
def large_arrays_hold_the_same_values(pb, c):
    comp, p = COMPONENTS[c["c"]["component"]], c["c"]["p"]
    rng = np.random.default_rng([c["seed"], zlib.crc32(repr(sorted(p.items())).encode())])
    shape = _large_shape(c, rng)
    if comp.name == "tdi" and np.prod(shape) * p["n"] * p["ph"] > 3e6:
        shape = tuple(min(n, 60) for n in shape)
    fu, fv = comp.fc(p)
    if c["grid"] and len(shape) == 2:
        u, v = np.meshgrid(np.linspace(-comp.fmax, comp.fmax, shape[1]) * fu, np.linspace(comp.fmax, -comp.fmax, shape[0]) * fv)
    else:
        u, v = rng.uniform(-comp.fmax, comp.fmax, shape) * fu, rng.uniform(-comp.fmax, comp.fmax, shape) * fv
    at = np.concatenate([rng.integers(0, u.size, 24), [0, u.size // 2, u.size - 1]])
    H = np.ravel(run(pb, comp, p, u, v))[at]
    su, sv = np.ravel(u)[at].copy(), np.ravel(v)[at].copy()
    close(H, run(pb, comp, p, su, sv), comp.name + " within a large array", rtol=1e-10, atol=1e-12)
    return bool(np.any((np.abs(H) > 1e-6) & (np.abs(H) < 1 - 1e-6))) and [comp.name, "grid" if c["grid"] and len(shape) == 2 else "scattered"]


@check("P07", defocus_cases, 1000, rule="defocused clear apertures; non-trivial when defocused")
def defocused_aperture_is_passive(pb, c):
    f, dz = _defocus(c)
    u, v = uv(c["q"], c["D"] / c["lam"])
    g = lambda a, b: arr(call(pb.otf.circular_aperture_OTF_with_defocus, a, b, c["lam"], c["D"], f, dz), "defocused aperture OTF", a.shape)  # noqa: E731
    H = g(u, v)
    close(g(np.zeros(2), np.zeros(2)), np.ones(2), "defocused aperture at zero frequency", atol=1e-9)
    require(np.all(np.abs(H) <= 1.02), f"defocused aperture amplifies: {np.max(np.abs(H))}")
    close(g(-u, -v), H, "defocused aperture reversed", atol=1e-9)
    fu, fv, fh = np.ravel(u), np.ravel(v), np.ravel(H)
    close(np.concatenate([g(fu[i:i + 1].copy(), fv[i:i + 1].copy()) for i in range(min(fu.size, 4))]), fh[:4], "defocused aperture, one frequency at a time", rtol=1e-9, atol=1e-10)
    close(g(fu[::-1].copy(), fv[::-1].copy()), fh[::-1], "defocused aperture on the reversed array", rtol=1e-9, atol=1e-10)
    nu = np.hypot(u, v) * c["lam"] / c["D"]
    require(np.all(np.abs(H[nu > 1 + 1e-9]) < 1e-9), "defocused aperture passes frequencies beyond its cutoff")
    return c["waves"] > 0 and ["%d waves" % c["waves"]]


# ------------------------------------------------------------------ P08

# severity keys: raising the value must not raise the response anywhere (Gaussian-like terms);
# for sinc terms the comparison is restricted to the main lobe
SEVERITY = {
    "jitter": ["a", "b"],
    "defocus_gaussian": ["a", "b"],
    "gaussian": ["a", "b"],
    "wavefront": ["pv"],
    "cte": ["nx", "ny", "loss"],
    "drift": ["a", "b"],
    "detector": ["a", "b"],
    "turbulence": ["-r"],
    "turbulence_wind": ["td"],
    "wavefront_rms": ["w"],
    "diffusion": ["-alpha"],
}
LOBE = {"drift", "detector"}


@check("P08", lambda: case_any(sorted(SEVERITY))().flatmap(lambda c: fd(c=st.just(c), k=st.integers(0, 2), g=fl(1.0, 4.0))), 4000, rule=RULE + " and the worse setting lowers some response")
def worse_is_never_sharper(pb, c):
    k, g, c = c["k"], c["g"], c["c"]
    name = c["component"]
    comp, p = COMPONENTS[name], dict(c["p"])
    keys = SEVERITY[name]
    key = keys[k % len(keys)]
    if name == "turbulence_wind":
        p["x"] = None
    worse = dict(p)
    if key.startswith("-"):
        worse[key[1:]] = p[key[1:]] / g
    else:
        worse[key] = p[key] * g
    if worse.get("w", 0) > 0.25:
        raise Reject
    u, v = uv(c["q"], *comp.fc(p))
    if name in LOBE:
        lim = 0.99 * comp.fc(p)[0]
        m = (np.abs(u) * max(worse["a"], 1e-9) < lim) & (np.abs(v) * max(worse["b"], 1e-9) < lim)
        if not np.any(m):
            raise Reject
        u, v = u[m], v[m]
    if name == "turbulence_wind":
        m = np.hypot(u, v) * p["lam"] / p["D"] <= 1
        if not np.any(m):
            raise Reject
        u, v = u[m], v[m]
    H, W = run(pb, comp, p, u, v), run(pb, comp, worse, u, v)
    require(np.all(W <= H + 1e-10), f"{name}: raising {key} sharpened the image: {np.max(W - H)}")
    return bool(np.any(W < H - 1e-9)) and [name + ":" + key]


NEUTRAL = {
    "jitter": {"a": 0.0, "b": 0.0},
    "drift": {"a": 0.0, "b": 0.0},
    "defocus_gaussian": {"a": 0.0, "b": 0.0},
    "detector": {"a": 0.0, "b": 0.0},
    "wavefront": {"pv": 0.0},
    "wavefront_rms": {"w": 0.0},
    "cte": {"loss": 0.0},
}


@check("P08", case_any(sorted(NEUTRAL)), 1500, rule=RULE)
def zero_severity_is_identity(pb, c):
    comp = COMPONENTS[c["component"]]
    p = {**c["p"], **NEUTRAL[c["component"]]}
    u, v = uv(c["q"], *comp.fc(p))
    close(run(pb, comp, p, u, v), np.ones(u.shape), comp.name + " without degradation", rtol=0, atol=1e-12)
    return bool(np.any(u != 0)) and [comp.name]


@check("P08", lambda: fd(fc=FC(), a=st.lists(fl(0.0, 0.6), min_size=4, max_size=4), q=freqs(), which=st.sampled_from(["jitter", "gaussian", "defocus"])), 2500, rule="two independent Gaussian blurs; non-trivial when both are present")
def gaussian_blurs_add_in_quadrature(pb, c):
    u, v = uv(c["q"], c["fc"])
    a = [x / c["fc"] for x in c["a"]]
    if c["which"] == "jitter":
        g = lambda x, y: call(pb.otf.jitter_OTF, u, v, x, y)  # noqa: E731
    elif c["which"] == "gaussian":
        a = [x + 1e-6 / c["fc"] for x in a]
        g = lambda x, y: call(pb.otf.gaussian_OTF, u, v, x, y)  # noqa: E731
    else:
        g = lambda x, y: call(pb.otf.defocus_OTF, u, v, 1.0, x, y)  # noqa: E731
    close(np.asarray(g(a[0], a[1])) * g(a[2], a[3]), g(math.hypot(a[0], a[2]), math.hypot(a[1], a[3])), c["which"] + " twice", rtol=1e-9, atol=1e-12)
    return min(c["a"]) > 1e-3 and [c["which"]]


@check("P08", lambda: fd(c=case_any(["detector", "drift", "jitter", "defocus_gaussian", "gaussian", "cte", "detector_aggregated", "wavefront", "circular_aperture"])(), k=fl(0.1, 10.0)), 3000, rule=RULE)
def only_dimensionless_groups_matter(pb, c):
    """Scaling every frequency by k and every angle by 1/k changes nothing."""
    k, c = c["k"], c["c"]
    comp, p = COMPONENTS[c["component"]], c["p"]
    u, v = uv(c["q"], *comp.fc(p))
    H = run(pb, comp, p, u, v)
    p2 = dict(p)
    if "fc" in p:
        p2["fc"] = p["fc"] * k
        W = run(pb, comp, p2, u * k, v * k)
    else:
        p2["D"] = p["D"] * k
        W = run(pb, comp, p2, u * k, v * k)
    close(W, H, comp.name + " after a change of angular scale", rtol=1e-7, atol=comp.tol(p)[1])
    return bool(np.any((np.abs(H) > 1e-6) & (np.abs(H) < 1 - 1e-6))) and [comp.name]


# ------------------------------------------------------------------ P09


@check("P09", case_any(["turbulence", "turbulence_wind"]), 6000, rule=RULE)
def turbulence_equations(pb, c):
    return matches(pb, COMPONENTS[c["component"]], c)


@check("P09", case("turbulence_wind"), 3000, rule=RULE)
def wind_blends_short_and_long_exposure(pb, c):
    p = c["p"]
    comp = COMPONENTS["turbulence_wind"]
    u, v = uv(c["q"], *comp.fc(p))
    H = run(pb, comp, p, u, v)
    r0 = p["r"] * p["D"]
    short = call(pb.otf.turbulence_OTF, u, v, p["lam"], p["D"], r0, 0.5)
    long_ = call(pb.otf.turbulence_OTF, u, v, p["lam"], p["D"], r0, 0.0)
    require(np.all(H <= np.maximum(short, long_) + 1e-12) and np.all(H >= np.minimum(short, long_) - 1e-12), "wind-adjusted turbulence outside the short/long exposure bracket")
    close(call(pb.otf.wind_speed_turbulence_OTF, u, v, p["lam"], p["D"], r0, 0.0, p["vel"]), short, "instantaneous exposure", rtol=1e-9)
    close(call(pb.otf.wind_speed_turbulence_OTF, u, v, p["lam"], p["D"], r0, 1.0, 1e3 * r0), long_, "infinitely long exposure", rtol=1e-9)
    return bool(np.any((H > 1e-6) & (H < 1 - 1e-6))) and ["layout " + c["q"]["layout"]]


# ------------------------------------------------------------------ P10


@check("P10", lambda: fd(h=st.lists(fl(0.0, 5e4), min_size=1, max_size=10), v=st.one_of(fl(0.0, 80.0), fl(80.0, 500.0)), a=fl(1e-18, 1e-11)), 3000, rule="heights, wind speeds and ground turbulence; always non-trivial")
def hufnagel_valley(pb, c):
    h = np.array(c["h"])
    close(call(pb.otf.hufnagel_valley_turbulence_profile, h, c["v"], c["a"]), refs.hv(h, c["v"], c["a"]), "turbulence profile", rtol=1e-9)
    return ["windy" if c["v"] > 21 else "calm"]


@check("P10", lambda: fd(L=fl(10.0, 1e6), n=st.integers(3, 400), lam=LAM(), lam2=LAM(), c=fl(1e-19, 1e-12), s=st.floats(0.0, 1.0), k=fl(0.1, 10), warp=st.sampled_from([1.0, 1.0, 2.0, 0.5])), 3000, rule="constant and height-weighted turbulence along evenly and unevenly sampled paths; always non-trivial")
def coherence_diameter_laws(pb, c):
    z = c["L"] * np.linspace(0.0, 1.0, c["n"]) ** c["warp"]
    cn2 = c["c"] * (1 - c["s"] * z / c["L"])
    r0 = float(arr(call(pb.otf.coherence_diameter, c["lam"], z, cn2), "coherence diameter", ()))
    if np.any(cn2[1:] > 0):
        close(r0, refs.r0_path(c["lam"], z, cn2), "coherence diameter", rtol=1e-8)
        close(call(pb.otf.coherence_diameter, c["lam2"], z, cn2), r0 * (c["lam2"] / c["lam"]) ** 1.2, "coherence diameter at another wavelength", rtol=1e-8)
        close(call(pb.otf.coherence_diameter, c["lam"], z, cn2 * c["k"]), r0 * c["k"] ** -0.6, "coherence diameter under scaled turbulence", rtol=1e-8)
    if c["s"] == 0 and c["n"] > 100:
        # constant path, closed form: (0.423 k^2 Cn2 L 3/8)^(-3/5)
        close(r0, (0.423 * (2 * math.pi / c["lam"]) ** 2 * c["c"] * c["L"] * 0.375) ** -0.6, "coherence diameter of a uniform path", rtol=1e-3)
    return ["long" if c["L"] > 1e4 else "short", "even" if c["warp"] == 1 else "uneven"]


def poly_cases():
    return fd(
        wl=st.lists(LAM(), min_size=1, max_size=4, unique=True),
        w=st.lists(fl(0.05, 1.0), min_size=4, max_size=4),
        alt=st.one_of(st.sampled_from([2.0, 75.0, 500.0, 1000.0, 9000.0, 20000.0]), fl(2.0, 30000.0)),
        gr=fl(1.0, 2e5),
        D=DIAM(),
        hv=st.one_of(fl(1.0, 60.0), fl(1.0, 60.0), fl(0.0, 250.0)),
        cn2=st.one_of(fl(1e-17, 1e-12), fl(1e-17, 1e-12), fl(1e-26, 1e-17)),
        td=st.one_of(st.just(0.0), fl(1e-5, 1.0)),
        vel=st.one_of(st.just(0.0), fl(0.1, 300), fl(300.0, 1e4)),
        q=freqs((), 1.0, 5),
    )


@check("P10", poly_cases, 1600, rule="line of sight, band and turbulence strength; non-trivial when a response is strictly between 0 and 1")
def polychromatic_path(pb, c):
    wl = np.array(c["wl"])
    w = np.array(c["w"][: wl.size])
    L = refs.slant(0.0, c["alt"], c["gr"])
    z, h = refs.slant_heights(c["alt"], L)
    r1 = refs.r0_path(1e-6, z, refs.hv(h, c["hv"], c["cn2"]))
    fc = min(c["D"], r1 * (wl.min() / 1e-6) ** 1.2) / wl.max()
    u, v = uv(c["q"], fc)
    got = call(pb.otf.polychromatic_turbulence_OTF, u, v, wl, w, c["alt"], L, c["D"], c["hv"], c["cn2"], c["td"], c["vel"])
    require(isinstance(got, (tuple, list)) and len(got) == 2, "expected (OTF, r0)")
    r0 = lambda l: r1 * (l / 1e-6) ** 1.2  # noqa: E731
    rho = np.hypot(u, v)
    # heights near the horizon are ill-conditioned; r0 inherits that
    tol = 1e-6
    close(np.squeeze(arr(got[1], "band coherence diameter")), refs.weighted(wl, w, r0), "band coherence diameter", rtol=tol)
    want = refs.weighted(wl, w, lambda l: refs.wind_turbulence(rho, l, c["D"], r0(l), c["td"], c["vel"]))
    close(got[0], want, "polychromatic turbulence OTF", rtol=1e-6, atol=1e-6)
    return bool(np.any((want > 1e-6) & (want < 1 - 1e-6))) and ["%d wavelengths" % wl.size, "low" if c["alt"] < 500 else "high"]


# ------------------------------------------------------------------ P11


def weight_cases():
    return fd(
        wl=st.lists(fl(0.3e-6, 14e-6), min_size=1, max_size=8, unique=True),
        w=st.lists(st.one_of(fl(1e-3, 1e3), st.just(0.0)), min_size=8, max_size=8),
        many=st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(9, 400)),
        k=fl(1e-6, 1e6),
        perm=st.integers(0, 7),
        q=freqs((), 1.2, 4),
    )


def _weights(c):
    wl = np.array(c["wl"])
    w = np.array(c["w"][: wl.size])
    if c["many"]:  # a finely sampled band
        wl = np.linspace(wl.min(), wl.max() * 1.5, c["many"])
        w = np.array(c["w"])[np.arange(c["many"]) * 5 % 8] * (1 + np.cos(np.arange(c["many"])))
    if w.sum() == 0:
        w[0] = 1.0
    return wl, w


@check("P11", weight_cases, 5000, rule="1-8 distinct wavelengths in any order, or a band of up to 400, with any non-negative weights; non-trivial with two or more non-zero weights")
def weighted_average(pb, c):
    wl, w = _weights(c)
    u, v = uv(c["q"], 1e6)
    f = lambda l: np.cos(u * l) + l * 1e5 + v * l**2 * 1e5  # noqa: E731
    got = call(pb.otf.weighted_by_wavelength, wl, w, f)
    want = refs.weighted(wl, w, f)
    sc = 1e-12 * max(1.0, float(np.max(np.abs(want))))
    close(got, want, "wavelength-weighted average", rtol=1e-9, atol=sc)
    close(call(pb.otf.weighted_by_wavelength, wl, w * c["k"], f), want, "average under rescaled weights", rtol=1e-9, atol=sc)
    i = np.roll(np.arange(wl.size), c["perm"])[::-1]
    close(call(pb.otf.weighted_by_wavelength, wl[i], w[i], f), want, "average of reordered bands", rtol=1e-9, atol=sc)
    j = int(np.argmax(w))
    one = np.zeros_like(w)
    one[j] = w[j]
    close(call(pb.otf.weighted_by_wavelength, wl, one, f), f(wl[j]), "average with a single contributing wavelength", rtol=1e-9, atol=sc)
    close(call(pb.otf.weighted_by_wavelength, wl, w, lambda l: np.full(u.shape, 0.37)), np.full(u.shape, 0.37), "average of a constant", rtol=1e-12)
    return np.count_nonzero(w) > 1 and ["%s wavelengths" % (wl.size if wl.size < 9 else "many"), "zero weight" if np.any(w == 0) else "all positive"]


@check("P11", weight_cases, 2500, rule="as above, with a scalar-valued function; non-trivial with two or more non-zero weights")
def weighted_scalar(pb, c):
    wl, w = _weights(c)
    got = arr(call(pb.otf.weighted_by_wavelength, wl, w, lambda l: l), "mean wavelength")
    close(np.squeeze(got), float(np.dot(wl, w) / w.sum()), "mean wavelength", rtol=1e-9)
    vals = wl[w > 0]
    require(vals.min() * (1 - 1e-9) <= float(np.squeeze(got)) <= vals.max() * (1 + 1e-9), "average outside the range of its terms")
    return np.count_nonzero(w) > 1 and ["%s wavelengths" % (wl.size if wl.size < 9 else "many")]
