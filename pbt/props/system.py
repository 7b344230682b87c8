"""P12-P16: whole-system transfer function, image filter, slices, blur kernels, applied blur."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Reject, arr, call, check, close, require
from ..gens import DB_ALTS_ANY, build_image, build_scenario, build_sensor, fd, fl, freqs, images, kernel_array, kernel_strategy, large_kernels, sensors, turbulence_params, uv

OTFS = ["ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"]

# ------------------------------------------------------------------ P12


def system_cases(kernels):
    return lambda: fd(
        s=sensors(sharpen=False),
        kernel=st.one_of(st.just(None), kernel_strategy()) if kernels else st.just(None),
        t=turbulence_params(),
        alt=DB_ALTS_ANY(),
        gr=fl(1.0, 2e5),
        wfrac=st.lists(st.floats(0.0, 1.0), min_size=1, max_size=4, unique=True),
        w=st.lists(fl(0.05, 1.0), min_size=4, max_size=4),
        int_time=fl(1e-5, 0.5),
        which=st.integers(0, 4),
        fs=st.one_of(st.just(1.0), fl(1e-3, 1.0, lits=False)),
        q=freqs((), 1.1, 5),
    )


def _setup(pb, c):
    s = build_sensor(pb, c["s"])
    if c["kernel"] is not None:
        s.filter_kernel = kernel_array(c["kernel"])
    sc = build_scenario(pb, [c["alt"], c["gr"], 1], c["t"])
    lo, hi = c["s"]["opt"][0], c["s"]["opt"][-1]
    wl = np.array(sorted({lo + (hi - lo) * x for x in c["wfrac"]}))
    w = np.array(c["w"][: wl.size])
    L = refs.slant(0.0, c["alt"], c["gr"])
    u, v = uv(c["q"], s.D / wl.max() * c["fs"])
    return s, sc, wl, w, L, u, v


@check("P12", system_cases(True), 320, rule="random sensors (obscured, rectangular, smeared, jittered, aberrated, filtered), turbulence, bands and exposures; non-trivial when the system response is strictly between 0 and 1 somewhere")
def system_is_product_of_components(pb, c):
    s, sc, wl, w, L, u, v = _setup(pb, c)
    o = call(pb.otf.common_OTFs, s, sc, u, v, wl, w, L, c["int_time"])["vars"]
    want = refs.component_otfs(s, sc, u, v, wl, w, L, c["int_time"])
    tol = {"ap_OTF": (1e-9, (3e-8 if s.eta < 0.9 else 1.2e-7) / (1 - s.eta**2)), "turb_OTF": (1e-6, 1e-6)}
    for k in OTFS[:-1]:
        r, a = tol.get(k, (1e-9, 1e-10))
        close(o[k], want[k], "system " + k, rtol=r, atol=a)
    if sc.cn2_at_1m > 0:
        close(np.squeeze(arr(o["r0_band"], "r0_band")), want["r0_band"], "band coherence diameter", rtol=1e-6)
    k = np.asarray(s.filter_kernel)
    if k.size > 1:
        close(o["filter_OTF"], call(pb.otf.filter_OTF, u, v, k, s.p_x / s.f), "image filter response in the system", rtol=1e-9, atol=1e-12)
    else:
        close(o["filter_OTF"], np.ones(u.shape), "image filter response without a filter", rtol=0)
    prod = np.ones(u.shape)
    for k2 in OTFS:
        prod = prod * np.asarray(o[k2])
    close(o["system_OTF"], prod, "system response", rtol=1e-9, atol=1e-14)
    m = np.abs(prod)
    return bool(np.any((m > 1e-6) & (m < 1 - 1e-6))) and ["filtered" if k.size > 1 else "unfiltered", "turbulent" if sc.cn2_at_1m > 0 else "still", "obscured" if s.eta else "clear", "tdi" if s.n_tdi > 1 else "no tdi"]


@check("P12", system_cases(False), 280, rule="as above without filter; one degradation is switched off at a time; non-trivial when it had an effect")
def removing_a_degradation_only_removes_it(pb, c):
    s, sc, wl, w, L, u, v = _setup(pb, c)
    get = lambda: call(pb.otf.common_OTFs, s, sc, u, v, wl, w, L, c["int_time"])["vars"]  # noqa: E731
    a = get()
    require(np.all(np.abs(a["system_OTF"]) <= 1 + 1e-7), "the unfiltered system amplifies")
    for k in OTFS:
        require(np.all(np.abs(a["system_OTF"]) <= np.abs(a[k]) + 1e-7), f"the system is sharper than its own {k}")
    which = c["which"]
    name = ["turb_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "det_OTF"][which]
    if which == 0:
        sc.cn2_at_1m = 0.0
    elif which == 1:
        s.s_x = s.s_y = 0.0
    elif which == 2:
        s.da_x = s.da_y = 0.0
    elif which == 3:
        s.pv = 0.0
    else:
        s.w_x = s.w_y = 0.0
    b = get()
    close(b[name], np.ones(u.shape), f"{name} switched off", rtol=0, atol=1e-12)
    if which == 0:
        require(np.all(np.asarray(b["r0_band"]) >= 1e6 * (1 - 1e-9)), "coherence diameter without turbulence")
    for k in OTFS:
        if k != name:
            close(b[k], a[k], f"{k} after switching off {name}", rtol=1e-10, atol=1e-13)
    close(np.asarray(b["system_OTF"]) * a[name], a["system_OTF"], f"system response without {name}, degraded again", rtol=1e-8, atol=1e-13)
    return bool(np.any(np.abs(np.asarray(a[name]) - 1) > 1e-9)) and [name]


# ------------------------------------------------------------------ P13


def _hull(kernel, x, y, ifov, stretched):
    """Range of the kernel response over the interpolation cell holding frequency (x, y) [cycles/pixel].

    stretched=True is the recorded finding: 100 samples that span [-0.5, 0.5) are laid out over
    [-0.5, 0.5].
    """
    n = max(100, *kernel.shape)
    h = 1.0 / (n - 1) if stretched else 1.0 / n
    out = []
    for xx in (x, -y):
        t = (xx + 0.5) / h
        i0 = np.floor(t + 1e-9)
        near = np.abs(t - np.round(t)) < 1e-6
        out.append((np.where(near, np.round(t) - 1, i0), np.where(near, np.round(t), i0), np.where(near, np.round(t) + 1, i0 + 1)))
    lo, hi = np.full(x.shape, np.inf), np.full(x.shape, -np.inf)
    for i in out[0]:
        for j in out[1]:
            if stretched:
                i, j = np.clip(i, 0, n - 1), np.clip(j, 0, n - 1)
            fu, fv = (i - n // 2) / n, -(j - n // 2) / n
            val = refs.kernel_response(fu / ifov, fv / ifov, kernel, ifov)
            lo, hi = np.minimum(lo, val), np.maximum(hi, val)
    return lo, hi


def wrap(x):
    return (x + 0.5) % 1.0 - 0.5


def filter_cases():
    any_sum = st.tuples(st.one_of(*[kernel_strategy()] * 4, large_kernels()), st.sampled_from([1.0, 1.0, 1.0, 0.0, -1.0, 0.37, 4.0])).map(lambda t: dict(t[0], sum=t[1]))
    return fd(kernel=any_sum, ifov=fl(1e-7, 1e-2), q=freqs((0.25, 0.1, 1.5, 2.0), 3.0, 8))


@check("P13", filter_cases, 200, rule="kernels of 1x2 to 5x5, sometimes up to 141 taps with either sign and mostly unit (else zero, negative or larger) sum, pixel sizes and frequencies up to three times Nyquist in both axes; non-trivial when the response varies")
def filter_matches_kernel_spectrum(pb, c):
    k, ifov = kernel_array(c["kernel"]), c["ifov"]
    u, v = uv(c["q"], 0.5 / ifov)
    H = arr(call(pb.otf.filter_OTF, u, v, k, ifov), "filter response", u.shape)
    x, y = wrap(u * ifov), wrap(v * ifov)
    ok = np.zeros(u.shape, dtype=bool)
    # frequencies on the Nyquist boundary belong to either side
    for sx in (0, 1):
        for sy in (0, 1):
            xx = np.where((np.abs(np.abs(x) - 0.5) < 1e-7) & bool(sx), -x, x)
            yy = np.where((np.abs(np.abs(y) - 0.5) < 1e-7) & bool(sy), -y, y)
            for stretched in (True, False):
                lo, hi = _hull(k, xx, yy, ifov, stretched)
                slack = 1e-9 * np.abs(k).sum()
                ok |= (H >= lo - slack) & (H <= hi + slack)
            exact = refs.kernel_response(xx / ifov, yy / ifov, k, ifov)
            ok |= np.abs(H - exact) <= 1e-6 * np.abs(k).sum()
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        raise_msg = f"filter response {H[i]} at ({x[i]:.4f}, {y[i]:.4f}) cycles/pixel, the kernel's spectrum is {refs.kernel_response(x / ifov, y / ifov, k, ifov)[i]}"
        require(False, raise_msg)
    return bool(np.count_nonzero(k) > 1 and np.any(np.abs(x) + np.abs(y) > 0.01)) and ["%dx%d" % k.shape, "beyond Nyquist" if np.any(np.abs(u) * ifov > 0.5) else "in band", "layout " + c["q"]["layout"]]


@check("P13", filter_cases, 40, rule="as above; non-trivial when the kernel has two or more taps")
def filter_is_periodic_and_scale_free(pb, c):
    k, ifov = kernel_array(c["kernel"]), c["ifov"]
    u, v = uv(c["q"], 0.5 / ifov)
    g = lambda a, b, i=ifov: arr(call(pb.otf.filter_OTF, a, b, k, i), "filter response", a.shape)  # noqa: E731
    H = g(u, v)
    L = refs.kernel_lipschitz(k)
    edge = (np.abs(np.abs(wrap(u * ifov)) - 0.5) < 1e-6) | (np.abs(np.abs(wrap(v * ifov)) - 0.5) < 1e-6)
    tol = 1e-6 * (1 + L)
    for a, b in ((u + 1 / ifov, v), (u, v - 2 / ifov), (u - 3 / ifov, v + 1 / ifov)):
        W = g(a, b)
        close(np.where(edge, 0, W), np.where(edge, 0, H), "filter response one sampling period away", rtol=1e-6, atol=tol)
    W = g(u * 2, v * 2, ifov / 2)
    close(np.where(edge, 0, W), np.where(edge, 0, H), "filter response on pixels half as wide", rtol=1e-6, atol=tol)
    return np.count_nonzero(k) > 1 and ["%dx%d" % k.shape]


def _filter_dc(pb):
    k = np.array([[0.0, -0.25, 0.0], [-0.25, 2.0, -0.25], [0.0, -0.25, 0.0]])
    z = np.zeros((1, 1))
    H = float(np.asarray(pb.otf.filter_OTF(z, z, k, 1e-5))[0, 0])
    if abs(H - 1) > 1e-9:
        return f"filter_OTF is laid out on a stretched frequency grid: a unit-sum sharpening kernel has gain {H:.6f} at zero frequency instead of 1"
    return None


# ------------------------------------------------------------------ P14


def array_cases():
    return fd(n=st.one_of(st.sampled_from([3, 5, 21, 51, 101]), st.integers(1, 40).map(lambda k: 2 * k + 1)), seed=st.integers(0, 10**6), cplx=st.booleans(), smooth=st.booleans(), ang=st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi / 4, math.pi, -math.pi / 2, 3 * math.pi / 4]), fl(-7.0, 7.0), fl(-60.0, 60.0), fl(0.0, math.pi)))


def _array(c):
    r = np.random.RandomState(c["seed"])
    a = r.rand(c["n"], c["n"])
    if c["smooth"]:
        y, x = np.mgrid[-1 : 1 : c["n"] * 1j, -1 : 1 : c["n"] * 1j]
        a = np.exp(-(x**2) * (1 + 3 * a[0, 0]) - y**2 * (1 + 2 * a[1, 1])) + 0.3 * x + 0.1 * y
    if c["cplx"]:
        a = a + 1j * r.rand(c["n"], c["n"])
    return a


def _ray(pb, a, ang):
    got = arr(call(pb.otf.slice_otf, a, ang), "slice")
    n = (a.shape[0] + 1) // 2
    require(got.ndim == 1 and got.size in (n - 1, n), f"slice of a {a.shape} array has shape {got.shape}")
    return got


@check("P14", array_cases, 2500, rule="random real and complex odd-sized square arrays and any angle; non-trivial off the axes or on a non-constant array")
def slice_is_a_ray_from_the_centre(pb, c):
    a = _array(c)
    got = _ray(pb, a, c["ang"])
    want = refs.bilinear_ray(a, c["ang"])
    m = min(got.size, want.size)
    require(m == want.size, f"slice is one sample short ({got.size})")
    close(got[:m], want[:m], "slice", rtol=1e-7, atol=1e-7)
    close(got[0], a[c["n"] // 2, c["n"] // 2], "first sample of the slice (zero frequency)", rtol=1e-9)
    return c["n"] > 3 and ["complex" if c["cplx"] else "real", "axis" if abs(math.sin(2 * c["ang"])) < 1e-9 else "oblique", "negative angle" if c["ang"] < 0 else "positive angle"]


@check("P14", array_cases, 1200, rule="as above; non-trivial when the array has more than three samples a side")
def slices_follow_rotations(pb, c):
    a = _array(c)
    n, h = c["n"], c["n"] // 2
    z = _ray(pb, a, 0.0)
    close(z, a[h, h : h + z.size], "slice along u", rtol=1e-9, atol=1e-12)
    t = _ray(pb, a, math.pi / 2)
    close(t, a[h::-1, h][: t.size], "slice along v", rtol=1e-7, atol=1e-9)
    # turning the array by 90 degrees turns the slice
    r = _ray(pb, np.rot90(a).copy(), c["ang"] + math.pi / 2)
    close(r, _ray(pb, a, c["ang"]), "slice of the array turned by 90 degrees", rtol=1e-7, atol=1e-7)
    m = _ray(pb, a[::-1].copy(), -c["ang"])
    close(m, _ray(pb, a, c["ang"]), "slice of the mirrored array at the mirrored angle", rtol=1e-7, atol=1e-7)
    return n > 3 and ["complex" if c["cplx"] else "real"]


@check("P14", lambda: fd(n=st.integers(41, 750).map(lambda k: 2 * k + 1), seed=st.integers(0, 10**6), cplx=st.booleans(), smooth=st.booleans(), ang=fl(-7.0, 7.0)), 60, rule="arrays as large as those of an image simulation (83 to 1501 a side), any angle; always non-trivial")
def slice_of_a_large_array(pb, c):
    a = _array(c)
    got = _ray(pb, a, c["ang"])
    want = refs.bilinear_ray(a, c["ang"])
    require(got.size >= want.size, f"slice is one sample short ({got.size})")
    close(got[: want.size], want, "slice", rtol=1e-6, atol=1e-6)
    return ["n>=%d" % (c["n"] // 400 * 400)]


# ------------------------------------------------------------------ P15


def grid(n):
    t = np.linspace(-1.0, 1.0, n)
    return np.meshgrid(t, t[::-1])


@check("P15", lambda: fd(n=st.sampled_from([31, 51, 75, 101, 151]), sx=fl(0.8, 4.0), sy=fl(0.8, 4.0), df=fl(1e-2, 1e6), k=st.one_of(st.just(1.0), fl(0.6, 4.0))), 1200, rule="Gaussian responses on odd grids, with and without resampling; always non-trivial")
def gaussian_response_gives_gaussian_kernel(pb, c):
    """k = number of kernel samples per native sample; sx, sy in native samples."""
    n = c["n"]
    if max(c["sx"], c["sy"]) > n / 12:
        raise Reject
    uu, vv = grid(n)
    f = c["df"] * (n - 1) / 2
    dx = 1.0 / (n * c["df"])
    H = np.exp(-2 * (math.pi * c["sx"] * dx * uu * f) ** 2 - 2 * (math.pi * c["sy"] * dx * vv * f) ** 2)
    if min(c["sx"], c["sy"]) < 0.8:
        raise Reject
    p = arr(call(pb.otf.otf_to_psf, H, c["df"], dx / c["k"] * (1 - 1e-9)), "blur kernel")
    require(p.ndim == 2 and min(p.shape) >= 1, f"blur kernel has shape {p.shape}")
    close(p.sum(), 1.0, "sum of the blur kernel", rtol=1e-9)
    scale = np.max(p)
    close(p[::-1, ::-1], p, "blur kernel turned by 180 degrees", atol=1e-6 * scale)
    m = round(n * c["k"])
    new = [x for x in (int(n * c["k"] + 1e-6), int(n * c["k"] - 1e-6), m) if x > 0]
    best = None
    for nn in new:
        step = n / nn
        y = (np.arange(p.shape[0]) - (p.shape[0] - 1) / 2) * step
        x = (np.arange(p.shape[1]) - (p.shape[1] - 1) / 2) * step
        g = np.exp(-0.5 * (x[None, :] / c["sx"]) ** 2 - 0.5 * (y[:, None] / c["sy"]) ** 2)
        g /= g.sum()
        d = np.max(np.abs(p - g)) / np.max(g)
        best = d if best is None else min(best, d)
    # truncated transform (H at the grid's edge) and bilinear resampling
    edge = math.exp(-2 * (math.pi * min(c["sx"], c["sy"]) * 0.5) ** 2)
    resamp = 0.0 if c["k"] == 1.0 else 0.30 * (c["sx"] ** -2 + c["sy"] ** -2)
    require(best <= 1e-6 + 8 * edge + resamp, f"blur kernel of a Gaussian response is off by {best} of its peak")
    return ["resampled" if c["k"] != 1 else "native", "n%d" % n]


@check("P15", lambda: fd(n=st.sampled_from([15, 31, 51, 101]), seed=st.integers(0, 10**6), df=fl(1e-2, 1e6), width=fl(0.1, 0.9)), 1200, rule="random real point-symmetric responses; the kernel is compared with a direct inverse transform; always non-trivial")
def kernel_is_inverse_transform(pb, c):
    n = c["n"]
    r = np.random.RandomState(c["seed"])
    uu, vv = grid(n)
    H = np.exp(-(uu**2 + vv**2) / c["width"] ** 2)
    N = r.rand(n, n)
    H = H * (1 + 0.5 * (N + N[::-1, ::-1]) - 0.5)
    H /= H[n // 2, n // 2]
    p = arr(call(pb.otf.otf_to_psf, H, c["df"], 1.0 / (n * c["df"]) * (1 - 1e-12)), "blur kernel")
    j = np.arange(n) - n // 2
    F = np.exp(2j * math.pi * np.outer(j, j) / n)
    want = np.real(F @ H @ F) / n**2
    require(p.shape[0] <= n and p.shape[1] <= n and (n - p.shape[0]) % 2 == 0, f"blur kernel of a {H.shape} response has shape {p.shape}")
    a, b = (n - p.shape[0]) // 2, (n - p.shape[1]) // 2
    w = want[a : n - a, b : n - b]
    require(w.sum() > 0.9499 * want.sum() or p.shape[0] >= n - 7, "blur kernel window loses more than a twentieth of the energy")
    close(p, w / w.sum(), "blur kernel", rtol=1e-6, atol=1e-9 * np.max(np.abs(w / w.sum())))
    return ["n%d" % n, "cropped" if a else "full"]


def response(ny, nx, seed, width, shift, cx):
    """A smooth response (zero frequency at n//2, rows from high to low v) whose kernel is displaced."""
    r = np.random.RandomState(seed)
    y, x = np.arange(ny) - ny // 2, np.arange(nx) - nx // 2
    H = np.exp(-((x[None, :] / nx / width * 2) ** 2) - ((y[:, None] / ny / width * 2) ** 2)) + 0j
    if cx:
        H = H * (1 + 0.2 * (r.rand(ny, nx) - 0.5) + 0.2j * (r.rand(ny, nx) - 0.5))
        H = H * np.exp(-2j * math.pi * (x[None, :] * shift[0] / nx + y[:, None] * shift[1] / ny))
    H = H / H[ny // 2, nx // 2]
    return H if cx else np.real(H)


SIZES = st.sampled_from([4, 7, 9, 10, 11, 12, 16, 25, 31, 40, 51, 76])


@check("P15", lambda: fd(ny=SIZES, nx=st.one_of(st.none(), SIZES), seed=st.integers(0, 10**6), width=fl(0.15, 0.9), sx=fl(0, 2.0), sy=fl(-2.0, 0), cx=st.booleans(), df=fl(1e-2, 1e6), m=st.one_of(st.none(), fl(3.0, 130.0))), 1500, rule="complex and real, rectangular, even, odd and tiny responses resampled to any spacing, against the direct inverse transform; non-trivial when complex, rectangular, even or resampled")
def kernel_of_any_response(pb, c):
    ny = c["ny"]
    nx = c["nx"] or ny
    H = response(ny, nx, c["seed"], c["width"], (c["sx"], c["sy"]), c["cx"])
    m = c["m"] if c["m"] is not None else nx * (1 + 1e-9)
    if abs(m - round(m)) < 1e-6 and c["m"] is not None:
        raise Reject
    p = arr(call(pb.otf.otf_to_psf, H, c["df"], 1.0 / (m * c["df"])), "blur kernel")
    j, i = np.arange(ny) - ny // 2, np.arange(nx) - nx // 2
    want = np.real(np.exp(2j * math.pi * np.outer(j, j) / ny) @ H @ np.exp(2j * math.pi * np.outer(i, i) / nx)) / (nx * ny)
    new = max(1, int(m))  # the extent of the kernel, 1/df, in output samples along either axis
    want = bilinear_resize(want, new, new)
    if abs(want.sum()) < 0.05 * np.abs(want).sum():
        raise Reject
    want = want / want.sum()
    h, w = p.shape
    require(h <= new and w <= new, f"blur kernel has shape {p.shape}, its full extent is {new} samples")
    fits, best = False, None
    for a in {(new - h) // 2, (new - h + 1) // 2}:
        for b in {(new - w) // 2, (new - w + 1) // 2}:
            part = want[a : a + h, b : b + w]
            if part.sum() <= 0.949 and (h < new or w < new):
                continue
            fits = True
            d = np.max(np.abs(p - part / part.sum())) / np.max(np.abs(part / part.sum()))
            best = d if best is None else min(best, d)
    require(fits, f"the {h} x {w} window of the {new} x {new} blur kernel loses more than a twentieth of its energy")
    require(best <= 2e-6 * max(1.0, np.abs(want).sum()), f"blur kernel is off by {best} of its peak")
    for k in range(10, new):  # the window is not much larger than it needs to be
        e = (new - k) // 2
        if min(want[e : e + k, e : e + k].sum(), want[e : e + k + 1, e : e + k + 1].sum(), want[e + 1 : e + k, e + 1 : e + k].sum()) > 0.951:
            require(max(h, w) <= k + 12, f"blur kernel has shape {p.shape} although {k} samples hold 95 % of its energy")
            break
    return (c["cx"] or nx != ny or ny % 2 == 0 or c["m"] is not None) and ["complex" if c["cx"] else "real", "rectangular" if nx != ny else "square", "tiny" if min(nx, ny) <= 10 else "n>10", "native" if c["m"] is None else "finer" if m > max(nx, ny) else "coarser"]


# ------------------------------------------------------------------ P16


def bilinear_resize(img, nx, ny):
    """Half-pixel-centred bilinear resampling with edge replication."""
    out = img
    for axis, m in ((0, ny), (1, nx)):
        n = out.shape[axis]
        x = (np.arange(m) + 0.5) * n / m - 0.5
        i = np.floor(x).astype(int)
        f = x - i
        a, b = np.clip(i, 0, n - 1), np.clip(i + 1, 0, n - 1)
        sh = [1, 1]
        sh[axis] = m
        f = f.reshape(sh)
        out = np.take(out, a, axis=axis) * (1 - f) + np.take(out, b, axis=axis) * f
    return out


@check("P16", lambda: fd(img=images(("float64", "float32", "uint8", "uint16"), 1, 30), dx=fl(1e-7, 1e-3), k=fl(0.2, 5.0), kk=st.one_of(st.just(None), st.sampled_from([0.5, 2.0, 1.0, 1 / 3]))), 2500, rule="small images of four dtypes and spacing ratios 0.2-5; non-trivial when the size changes")
def resampling_is_bilinear_on_the_new_grid(pb, c):
    img = build_image(c["img"])
    k = c["kk"] or c["k"]
    want = [int(np.round(x * k)) for x in (img.shape[0], img.shape[1])]
    tie = any(abs(x * k - math.floor(x * k) - 0.5) < 1e-9 for x in img.shape)
    if tie or min(want) < 1:
        raise Reject
    got = arr(call(pb.otf.resample_2D, img, c["dx"] * k, c["dx"]), "resampled image", want)
    w = bilinear_resize(img.astype(float), want[1], want[0])
    atol = (1.0 if img.dtype.kind == "u" else 0.0) + 2e-5 * max(float(np.max(np.abs(img))), 1e-30) + (0.51 if img.dtype.kind == "u" else 0)
    close(got, w, "resampled image", rtol=0, atol=atol)
    return tuple(want) != img.shape and [img.dtype.name, "up" if k > 1 else "down"]


def applied_cases():
    return fd(img=images(("float64",), 12, 40, 0, 5000), n=st.sampled_from([31, 51]), width=fl(0.15, 0.9), gsd=fl(1e-3, 10.0), rng=fl(50.0, 1e6), cut=fl(0.4, 1.2), down=st.one_of(st.just(1.0), fl(0.9, 4.0), fl(0.9, 4.0), fl(4.0, 9.0)), a=fl(0.1, 10), b=fl(0, 1000))


def _system(c):
    """A response reaching `cut` cycles per reference sample at the grid's edge."""
    dx = 2 * math.atan(c["gsd"] / 2 / c["rng"])
    uu, vv = grid(c["n"])
    H = np.exp(-(uu**2 + 0.7 * vv**2) / c["width"] ** 2)
    df = c["cut"] / dx / ((c["n"] - 1) / 2)
    return H, df, dx


@check("P16", applied_cases, 1500, rule="noise, ramp, step and point images with smooth responses and 1-9x coarser detectors; non-trivial when the image is not flat")
def applied_blur_is_the_kernel_then_the_detector_grid(pb, c):
    img = build_image(c["img"])
    if c["gsd"] / c["rng"] > 0.05:
        raise Reject
    H, df, dx = _system(c)
    ifov = c["gsd"] / c["rng"] * c["down"]
    shape = [int(np.round(x / c["down"])) for x in img.shape]
    if any(abs(x / c["down"] % 1 - 0.5) < 1e-6 for x in img.shape) or abs((1 / (df * dx) + 0.5) % 1 - 0.5) < 1e-6:
        raise Reject  # rounding decides the size of the image or of the kernel
    out = call(pb.otf.apply_otf_to_image, img, c["gsd"], c["rng"], H, df, ifov)
    require(len(out) == 2, "expected (image, blur kernel)")
    got = arr(out[0], "blurred image", shape)
    p = np.asarray(call(pb.otf.otf_to_psf, H, df, dx))
    if any(abs(x / c["down"] % 1 - 0.5) < 1e-6 for x in p.shape) or max(p.shape) // 2 >= min(img.shape):
        raise Reject
    cy, cx = p.shape[0] // 2, p.shape[1] // 2
    pad = np.pad(img, ((cy, p.shape[0] - 1 - cy), (cx, p.shape[1] - 1 - cx)), mode="reflect")
    blur = np.zeros(img.shape)
    for i in range(p.shape[0]):
        for j in range(p.shape[1]):
            blur += p[i, j] * pad[i : i + img.shape[0], j : j + img.shape[1]]
    want = bilinear_resize(blur, shape[1], shape[0])
    close(got, want, "blurred image", rtol=0, atol=3e-5 * np.max(np.abs(img)))
    psf = arr(out[1], "returned blur kernel", [int(np.round(x / c["down"])) for x in p.shape])
    close(psf, bilinear_resize(p, psf.shape[1], psf.shape[0]), "returned blur kernel", rtol=0, atol=3e-5 * np.max(np.abs(p)))
    # linear, and a flat scene stays flat
    lin = call(pb.otf.apply_otf_to_image, c["a"] * img + c["b"], c["gsd"], c["rng"], H, df, ifov)[0]
    close(lin, c["a"] * got + c["b"], "blurred image of a rescaled scene", rtol=0, atol=3e-5 * np.max(np.abs(c["a"] * img + c["b"])))
    flat = call(pb.otf.apply_otf_to_image, np.full(img.shape, c["b"] + 1), c["gsd"], c["rng"], H, df, ifov)[0]
    close(flat, np.full(shape, c["b"] + 1), "blurred flat scene", rtol=1e-5)
    # the channels of a colour image are blurred one by one
    rgb = call(pb.otf.apply_otf_to_image, np.stack([img, img[::-1, ::-1], c["a"] * img + c["b"]], axis=-1), c["gsd"], c["rng"], H, df, ifov)
    rgb = arr(rgb[0], "blurred colour image", [*shape, 3])
    alone = [got, call(pb.otf.apply_otf_to_image, img[::-1, ::-1].copy(), c["gsd"], c["rng"], H, df, ifov)[0], lin]
    for k in range(3):
        close(rgb[:, :, k], alone[k], f"channel {k} of a blurred colour image", rtol=0, atol=1e-9 * np.max(np.abs(alone[k])) + 1e-300)
    return bool(np.ptp(img) > 0) and [c["img"]["kind"], "native" if c["down"] == 1 else "resampled"]


@check("P16", lambda: fd(img=images(("float64",), 12, 32, 0, 5000), ny=st.sampled_from([9, 15, 16, 20, 31]), nx=st.one_of(st.none(), st.sampled_from([9, 16, 21, 30])), seed=st.integers(0, 10**6), width=fl(0.2, 0.8), sx=fl(-3.0, 3.0), sy=fl(-3.0, 3.0), gsd=fl(1e-3, 10.0), rng=fl(100.0, 1e6)), 1200, rule="complex responses, whose kernels are displaced and asymmetric, at the native sampling; non-trivial when the image is not flat")
def complex_responses_displace_and_smear(pb, c):
    """Convolution, not correlation: a response exp(-2 pi i u d) moves the image by +d."""
    img = build_image(c["img"])
    ny = c["ny"]
    nx = c["nx"] or ny
    if c["gsd"] / c["rng"] > 0.05:
        raise Reject
    H = response(ny, nx, c["seed"], c["width"], (c["sx"], c["sy"]), True)
    if nx != ny:  # one spacing cannot be native along both axes: odd sizes keep the centre
        if nx % 2 == 0 or ny % 2 == 0:
            raise Reject
    dx = 2 * math.atan(c["gsd"] / 2 / c["rng"])
    df = 1.0 / (nx * dx) * (1 - 1e-9)
    p = np.asarray(call(pb.otf.otf_to_psf, H, df, dx))
    if np.any(np.array(p.shape) > np.array(img.shape)) or np.abs(p).sum() > 3:
        raise Reject
    got = arr(call(pb.otf.apply_otf_to_image, img, c["gsd"], c["rng"], H, df, c["gsd"] / c["rng"])[0], "blurred image", img.shape)
    best = None
    for cy in {p.shape[0] // 2, p.shape[0] - 1 - p.shape[0] // 2} if ny % 2 else {p.shape[0] // 2}:
        for cx in {p.shape[1] // 2, p.shape[1] - 1 - p.shape[1] // 2} if nx % 2 else {p.shape[1] // 2}:
            h, w = p.shape
            pad = np.pad(img, ((h - 1 - cy, cy), (w - 1 - cx, cx)), mode="reflect")
            out = np.zeros(img.shape)
            for i in range(h):
                for j in range(w):
                    out += p[i, j] * pad[h - 1 - i : h - 1 - i + img.shape[0], w - 1 - j : w - 1 - j + img.shape[1]]
            d = np.max(np.abs(got - out))
            best = d if best is None else min(best, d)
    require(best <= 3e-5 * np.max(np.abs(img)), f"blurred image differs from the convolution by {best} (image maximum {np.max(np.abs(img))})")
    return bool(np.ptp(img) > 0) and [c["img"]["kind"], "even" if ny % 2 == 0 else "odd", "rectangular" if nx != ny else "square"]


KNOWN = {"P13": [_filter_dc]}
