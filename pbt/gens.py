"""Generators: physically plausible but wide inputs, as JSON-able cases."""
import ast
import math
import os

import numpy as np
from hypothesis import strategies as st

LITERALS = []  # numeric constants found in the current source of the code under test


def mine_literals(root):
    """Dictionary for the generators: every numeric literal of the code under test.

    Inputs placed on, just below and just above those constants reach thresholds that a
    uniform draw would never hit.  Constants outside a parameter's own range are not used.
    """
    vals = set()
    for d, _, files in os.walk(root):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf8").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = abs(float(n.value))
                    if 0 < v < 1e30 and math.isfinite(v):
                        vals.add(v)
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Mult)):
                    # e.g. np.pi / 2, 380 * 1e-9
                    def val(m):
                        if isinstance(m, ast.Constant) and isinstance(m.value, (int, float)):
                            return float(m.value)
                        if isinstance(m, ast.Attribute) and m.attr == "pi":
                            return math.pi
                        return None

                    a, b = val(n.left), val(n.right)
                    if a and b:
                        v = abs(a / b if isinstance(n.op, ast.Div) else a * b)
                        if 0 < v < 1e30 and math.isfinite(v):
                            vals.add(v)
    LITERALS[:] = sorted(vals)


def fl(lo, hi, lits=True, specials=()):
    """A float in [lo, hi]: log-uniform when the range spans decades, plus endpoints, source
    constants (exact and nudged) and specials."""
    lo, hi = float(lo), float(hi)

    def clip(x):
        x = min(max(x, lo), hi)
        return 0.0 if abs(x) < 1e-30 and lo <= 0 <= hi else x  # no subnormal arithmetic

    parts = []
    if lo > 0 and hi / lo > 20:
        parts += [st.floats(math.log(lo), math.log(hi)).map(lambda t: clip(math.exp(t)))] * 3
    elif lo < 0 < hi and hi > 50:
        parts += [
            st.tuples(st.sampled_from([-1.0, 1.0]), st.floats(math.log(1e-6), math.log(hi))).map(lambda t: clip(t[0] * math.exp(t[1])))
        ] * 3
    else:
        parts += [st.floats(0.0, 1.0).map(lambda t: clip(lo + (hi - lo) * t))] * 3
    parts.append(st.floats(lo, hi, allow_subnormal=False).map(clip))
    pool = sorted({clip(float(s)) for s in specials} | {lo, hi})
    parts.append(st.sampled_from(pool))
    if lits:
        inr = [v for v in LITERALS if lo <= v <= hi] + [-v for v in LITERALS if lo <= -v <= hi]
        if inr:
            parts.append(
                st.tuples(st.sampled_from(inr), st.sampled_from([0.0, 0.0, -1e-9, 1e-9, -1e-3, 1e-3, 0.02, -0.02])).map(
                    lambda t: clip(t[0] * (1.0 + t[1]))
                )
            )
    return st.one_of(parts)


def maybe(s, default=None):
    return st.one_of(st.just(default), s)


def fd(**kw):
    return st.fixed_dictionaries(kw)


# --------------------------------------------------------------------------- frequencies

LAYOUTS = ["1d", "mesh", "2d", "col", "F", "strided"]


def freqs(specials=(), fmax=1.6, max_pts=8, layouts=LAYOUTS):
    """Spatial frequencies as fractions of a characteristic frequency, with an array layout."""
    sp = [0.0, 1.0, -1.0, 0.5, -0.5] + list(specials)
    frac = st.one_of(
        st.floats(-fmax, fmax, allow_subnormal=False),
        st.floats(-fmax, fmax, allow_subnormal=False),
        st.floats(-1.0, 1.0).map(lambda t: t**3 * fmax),
        st.sampled_from(sp),
    )
    pt = st.one_of(st.tuples(frac, frac), frac.map(lambda f: (f, 0.0)), frac.map(lambda f: (0.0, f)))
    return fd(
        layout=st.sampled_from(layouts),
        pts=st.lists(pt.map(list), min_size=1, max_size=max_pts),
    )


def uv(c, fu, fv=None):
    """Arrays (u, v) for a frequency case; fu, fv are the characteristic frequencies."""
    fv = fu if fv is None else fv
    p = np.array(c["pts"], dtype=float)
    p[np.abs(p) < 1e-12] = 0.0  # no subnormal arithmetic in the oracles
    u, v = p[:, 0] * fu, p[:, 1] * fv
    lay = c["layout"]
    if lay == "mesh":
        return np.meshgrid(u, v)
    if lay == "2d":
        return np.stack([u, v]), np.stack([v, u])
    if lay == "col":
        return u[:, None].copy(), v[:, None].copy()
    if lay == "F":
        return np.asfortranarray(np.stack([u, -v])), np.asfortranarray(np.stack([v, u]))
    if lay == "strided":
        return np.repeat(u, 2)[::2], np.repeat(v, 3)[::3]
    return u, v


# --------------------------------------------------------------------------- sensors, scenarios

BANDS = [(0.38e-6, 0.70e-6), (0.45e-6, 0.90e-6), (0.9e-6, 1.7e-6), (1.2e-6, 2.5e-6), (3.0e-6, 5.0e-6), (8.0e-6, 12.0e-6), (2.9e-6, 3.2e-6), (2.6e-6, 5.0e-6)]


def wl_table(lo, hi, nmax=5):
    """Increasing wavelength knots spanning roughly [lo, hi] (metres), with values."""
    return st.lists(st.floats(0.02, 0.98), min_size=0, max_size=nmax - 2, unique_by=lambda x: round(x, 2)).map(
        lambda t: [lo] + sorted(lo + (hi - lo) * x for x in t) + [hi]
    )


def kernel_strategy(sizes=((1, 2), (2, 1), (3, 3), (3, 1), (1, 3), (5, 5), (3, 5), (2, 2), (4, 3))):
    def build(shape):
        n = shape[0] * shape[1]
        return st.lists(st.floats(-1.0, 1.0).map(lambda x: round(x, 3)), min_size=n, max_size=n).map(
            lambda v: {"shape": list(shape), "vals": v}
        )

    plain = [{"shape": [a, b], "vals": [x] * (a * b)} for a, b in sizes for x in (0.0, 1.0 / (a * b))]  # a delta or a box
    return st.one_of(*[st.sampled_from(sizes).flatmap(build)] * 7, st.sampled_from(plain + [{"shape": [2, 2], "vals": [0.25] * 4}]))


def large_kernels(sizes=((7, 7), (9, 1), (1, 15), (12, 5), (25, 25), (1, 100), (1, 101), (120, 2), (3, 141))):
    return fd(shape=st.sampled_from(sizes).map(list), seed=st.integers(0, 2**20))


def kernel_array(c):
    """A kernel that sums to one (or to c["sum"]): the generated values are the off-centre taps."""
    vals = c["vals"] if "vals" in c else np.random.default_rng(c["seed"]).uniform(-1, 1, c["shape"]).round(3)
    k = np.array(vals, dtype=float).reshape(c["shape"])
    i = (k.shape[0] // 2, k.shape[1] // 2)
    k[i] = 0.0
    k[i] = c.get("sum", 1.0) - k.sum()
    return k


@st.composite
def sensors(draw, bands=tuple(BANDS), sharpen=True, rich=True, thermal=None):
    lo, hi = draw(st.sampled_from(list(bands)))
    if draw(st.booleans()):
        a, b = draw(st.floats(0, 0.4)), draw(st.floats(0.6, 1.0))
        lo, hi = lo + (hi - lo) * a, lo + (hi - lo) * b
    opt = draw(wl_table(lo, hi))
    c = {"D": draw(fl(0.02, 1.0)), "f_over_D": draw(fl(1.0, 20.0)), "p_x": draw(st.one_of(*[fl(2e-6, 40e-6)] * 4, fl(0.4e-6, 2e-6))), "opt": opt}
    c["opt_trans"] = draw(st.lists(st.floats(0.1, 1.0), min_size=len(opt), max_size=len(opt)))
    if draw(st.integers(0, 7)) == 0 and len(opt) > 2:
        i, t = draw(st.sampled_from([0, -1, 1])), draw(st.sampled_from([0.0, 0.0, 1e-3, 1e-6]))
        c["opt_trans"][i] = t  # (nearly) blocked at one wavelength
        if len(opt) > 3 and t > 0:
            c["opt_trans"][i - 1 if i == -1 else i + 1] = t  # or between two
    if draw(st.booleans()):
        qlo, qhi = lo - (hi - lo) * draw(st.sampled_from([0.3, 0.0, -0.1])), hi + (hi - lo) * draw(st.sampled_from([0.3, 0.0, -0.1]))
        q = draw(wl_table(qlo, qhi))
        c["qe_wl"] = q
        c["qe"] = draw(st.lists(st.floats(0.05, 1.0), min_size=len(q), max_size=len(q)))
    else:
        c["qe_wl"], c["qe"] = None, None
    c["eta"] = draw(st.one_of(st.just(0.0), fl(0.05, 0.6)))
    c["p_y_ratio"] = draw(st.one_of(st.just(None), fl(0.5, 2.0)))
    c["fill_x"] = draw(st.one_of(st.just(None), fl(0.3, 1.0)))
    c["fill_y"] = draw(st.one_of(st.just(None), fl(0.3, 1.0)))
    c["int_time"] = draw(fl(1e-5, 1.0))
    c["n_tdi"] = draw(st.one_of(st.just(1.0), st.sampled_from([2, 4, 16, 32.0, 64, 100.0, 128, 1000.0]), st.integers(2, 600).map(float)))
    c["max_n"] = draw(st.one_of(st.just(int(1e8)), st.integers(500, 200000)))
    c["max_well_fill"] = draw(st.one_of(st.just(1.0), fl(0.1, 1.0)))
    c["bit_depth"] = draw(st.one_of(st.just(100.0), st.integers(4, 16)))
    c["dark_current"] = draw(st.one_of(st.just(0.0), fl(1e-1, 1e6)))
    c["read_noise"] = draw(st.one_of(st.just(0.0), fl(0.5, 200)))
    c["other_irradiance"] = draw(st.one_of(st.just(0.0), st.just(0.0), fl(1e-2, 1e5)))
    c["other_noise"] = draw(st.one_of(st.just([0]), st.lists(fl(0, 100), min_size=1, max_size=3)))
    if rich:
        c["temps"] = [draw(fl(60, 330)), draw(fl(100, 330)), draw(fl(60, 330))]
        c["emis"] = [draw(st.one_of(st.just(0.0), fl(0.01, 0.9))), draw(st.one_of(st.just(0.0), fl(0.01, 0.9)))]
        c["cft"] = draw(st.one_of(st.just(1.0), fl(0.05, 1.0)))
    else:
        c["temps"], c["emis"], c["cft"] = [70.0, 270.0, 70.0], [0.0, 0.0], 1.0
    iz = st.just(0.0)
    c["s"] = [draw(st.one_of(iz, fl(0.01, 1.0))), draw(st.one_of(iz, fl(0.01, 1.0)))]  # in ifov
    c["da"] = [draw(st.one_of(iz, fl(0.01, 1.0))), draw(st.one_of(iz, fl(0.01, 1.0)))]  # ifov per (max) dwell
    c["pv"] = draw(st.one_of(iz, fl(0.01, 2.0)))
    c["pv_wavelength"] = draw(st.one_of(st.just(0.633e-6), fl(0.4e-6, 2e-6)))
    c["L"] = draw(st.one_of(st.just(None), st.tuples(fl(0.2, 2.0), fl(0.2, 2.0)).map(list)))
    c["kernel"] = draw(st.one_of(st.just(None), st.sampled_from(SHARPEN))) if sharpen else None
    c["frame_stacks"] = draw(st.sampled_from([1, 1, 2, 4, 9, 33, 1000]))
    return c


# unit-sum sharpening kernels (all exactly representable)
SHARPEN = [
    [[0.0, -0.25, 0.0], [-0.25, 2.0, -0.25], [0.0, -0.25, 0.0]],
    [[-0.0625, -0.125, -0.0625], [-0.125, 1.75, -0.125], [-0.0625, -0.125, -0.0625]],
    [[0.25, 0.5, 0.25]] + [[0.0, 0.0, 0.0]],
    [[0.0, 0.5, 0.0], [0.0, 0.25, 0.0], [0.0, 0.25, 0.0]],
]


def build_sensor(pb, c):
    f = c["D"] * c["f_over_D"]
    p_x = c["p_x"]
    p_y = None if c["p_y_ratio"] is None else p_x * c["p_y_ratio"]
    w_x = None if c["fill_x"] is None else p_x * c["fill_x"]
    w_y = None if c["fill_y"] is None else (p_y or p_x) * c["fill_y"]
    ifov = p_x / f
    s = pb.Sensor(
        "sensor",
        c["D"],
        f,
        p_x,
        np.array(c["opt"]),
        eta=c["eta"],
        p_y=p_y,
        w_x=w_x,
        w_y=w_y,
        int_time=c["int_time"],
        dark_current=c["dark_current"],
        other_irradiance=c["other_irradiance"],
        read_noise=c["read_noise"],
        max_n=c["max_n"],
        max_well_fill=c["max_well_fill"],
        bit_depth=c["bit_depth"],
        n_tdi=c["n_tdi"],
        cold_shield_temperature=c["temps"][0],
        optics_temperature=c["temps"][1],
        optics_emissivity=c["emis"][0],
        cold_filter_transmission=c["cft"],
        cold_filter_temperature=c["temps"][2],
        cold_filter_emissivity=c["emis"][1],
        s_x=c["s"][0] * ifov,
        s_y=c["s"][1] * ifov,
        da_x=c["da"][0] * ifov / (c["int_time"] * c["n_tdi"]),
        da_y=c["da"][1] * ifov / (c["int_time"] * c["n_tdi"]),
        pv=c["pv"],
        pv_wavelength=c["pv_wavelength"],
    )
    s.optics_transmission = np.array(c["opt_trans"])
    if c["qe_wl"] is not None:
        s.qe_wavelengths = np.array(c["qe_wl"])
        s.qe = np.array(c["qe"])
    s.other_noise = np.array(c["other_noise"])
    if c["L"] is not None:
        s.L_x, s.L_y = c["L"][0] * c["D"], c["L"][1] * c["D"]
    if c["kernel"] is not None:
        s.filter_kernel = np.array(c["kernel"])
    s.frame_stacks = c["frame_stacks"]
    return s


# --- the atmosphere database's conditions ------------------------------------

ALTS = [2.0, 32.5, 75.0, 150.0, 225.0, 500.0] + [1000.0 * k for k in range(1, 13)] + [14000.0, 16000.0, 18000.0, 20000.0, 24500.0]
MAXGR = {2.0: 5e3, 32.5: 20e3, 75.0: 30e3, 150.0: 42e3, 225.0: 52e3, 500.0: 78e3, 1e3: 110e3, 2e3: 155e3, 3e3: 195e3, 4e3: 225e3, 5e3: 250e3, 6e3: 275e3, 7e3: 295e3}
GRS = [0.0, 100.0, 500.0] + [1000.0 * k for k in range(1, 21)] + [1000.0 * k for k in range(22, 81, 2)] + [1000.0 * k for k in range(85, 301, 5)]


def maxgr(alt):
    return MAXGR.get(alt, 300e3)


def db_conditions(alts=ALTS, max_gr=300e3, space=True):
    def at(alt):
        g = [r for r in GRS if r <= min(maxgr(alt), max_gr)]
        near = [r for r in g if r <= 5000]
        return st.tuples(st.just(alt), st.one_of(st.sampled_from(near), st.sampled_from(g)), st.sampled_from([1, 2])).map(list)

    s = st.sampled_from(alts).flatmap(at)
    if space:
        s = st.one_of(*[s] * 12, st.sampled_from([[550000.0, 0.0, 1], [550000.0, 0.0, 2]]))
    return s


def turbulence_params():
    return fd(
        aircraft_speed=st.one_of(st.just(0.0), fl(0.5, 300), fl(0.5, 300), fl(300.0, 1e4)),
        ha_wind_speed=st.one_of(st.just(21.0), fl(1, 60), fl(1, 60), fl(0.0, 250.0)),
        cn2_at_1m=st.one_of(st.just(0.0), st.just(1.7e-14), fl(1e-17, 1e-12), fl(1e-26, 1e-17, lits=False)),
    )


def build_scenario(pb, cond, turb=None, name="scenario", **kw):
    t = turb or {}
    return pb.Scenario(name, cond[2], cond[0], cond[1], **{**t, **kw})


# --- synthetic atmospheres passed directly ------------------------------------


@st.composite
def atms(draw, lo=0.3e-6, hi=14e-6, nmin=3, nmax=30):
    """Six-column atmosphere: uniform or irregular wavelength grid and smooth positive columns."""
    n = draw(st.integers(nmin, nmax))
    a = draw(fl(lo, lo + 0.6 * (hi - lo)))
    b = draw(fl(a * 1.05, hi)) if a * 1.05 < hi else hi
    return {
        "n": n,
        "lo": a,
        "hi": b,
        "jit": draw(st.booleans()),
        "amp": [draw(fl(1e-3, 1.0)), draw(fl(1e2, 1e8)), draw(fl(1e2, 1e8)), draw(fl(1e2, 1e8)), draw(fl(1e2, 1e8))],
        "ph": [draw(st.floats(0, 6)) for _ in range(5)],
        "zero": draw(st.sampled_from([None, None, None, 1, 2, 4, 5])),
    }


def build_atm(c):
    n = c["n"]
    t = np.linspace(0, 1, n)
    if c["jit"]:
        t = t + 0.3 / max(n - 1, 1) * np.sin(7.0 * np.arange(n)) * ((t > 0) & (t < 1))
    wl = c["lo"] + (c["hi"] - c["lo"]) * t
    cols = [wl]
    for k in range(5):
        amp = c["amp"][k]
        col = amp * (0.55 + 0.45 * np.sin(c["ph"][k] + (k + 2) * 3.0 * t))
        cols.append(col)
    a = np.stack(cols, axis=1)
    if c["zero"] is not None:
        a[:, c["zero"]] = 0.0
    return a


# --- images -------------------------------------------------------------------


def images(dtypes=("float64",), hmin=1, hmax=12, lo=0, hi=255):
    """Small images described by shape, dtype and a value recipe."""
    return fd(
        h=st.integers(hmin, hmax),
        w=st.integers(hmin, hmax),
        dtype=st.sampled_from(list(dtypes)),
        lo=st.just(lo),
        hi=st.just(hi),
        a=st.integers(0, 1000),
        kind=st.sampled_from(["noise", "ramp", "steps", "point", "interlaced", "skewed"]),
    )


def build_image(c):
    h, w = c["h"], c["w"]
    rng = np.random.RandomState(c["a"])
    y, x = np.mgrid[0:h, 0:w]
    if c["kind"] == "noise":
        t = rng.rand(h, w)
    elif c["kind"] == "ramp":
        t = (y * 0.7 + x) / max(h * 0.7 + w, 1)
    elif c["kind"] == "steps":
        t = ((x // 3 + y // 2 + c["a"]) % 4) / 3.0
    elif c["kind"] == "interlaced":
        t = np.where((x + c["a"]) % 2 == 0, 0.6 + 0.4 * rng.rand(h, w), 0.3 * rng.rand(h, w))
    elif c["kind"] == "skewed":
        t = rng.rand(h, w) ** 8
    else:
        t = np.zeros((h, w)) + 0.1
        t[c["a"] % h, (c["a"] * 7) % w] = 1.0
    img = c["lo"] + (c["hi"] - c["lo"]) * t
    return img.astype(c["dtype"])


def DB_ALTS_ANY():
    return st.one_of(st.sampled_from(ALTS), fl(2.0, 30000.0))
