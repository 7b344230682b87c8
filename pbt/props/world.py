"""P30-P33: the atmosphere database, scenarios and sensors."""
import numpy as np
from hypothesis import strategies as st

from ..core import Violation, arr, call, check, close, freeze, invoke, must_raise, require, same
from ..gens import ALTS, GRS, db_conditions, fd, fl, maxgr

IALTS = [a for a in ALTS if a <= 20000]


def compare(a, want, what):
    a = arr(a, what, want.shape)
    close(a[:, 0], want[:, 0], what + ": wavelengths", rtol=1e-9)
    for k, nm in enumerate(("transmission", "path thermal", "surface emission", "solar scatter", "ground reflected"), 1):
        close(a[:, k], want[:, k], f"{what}: {nm}", rtol=5e-7)


# ------------------------------------------------------------------ P30


def as_type(x, t):
    return int(x) if t == "int" and float(x).is_integer() else np.float64(x) if t == "np" else float(x)


@check("P30", lambda: fd(row=st.one_of(st.integers(0, 3429), st.integers(0, 400)), t=st.sampled_from(["float", "int", "np"])), 900, 14000, rule="rows of the database index, with float, integer and numpy arguments; always non-trivial")
def every_tabulated_condition_is_returned(pb, c):
    _, alt, gr, haze = pb.db.rows[c["row"] % len(pb.db.rows)]
    a = call(pb.utils.load_database_atmosphere_no_interp, as_type(round(alt, 3), c["t"]), as_type(round(gr, 3), c["t"]), haze)
    compare(a, pb.db.atm(alt, gr, haze), f"atmosphere at {alt:g} m, {gr:g} m, haze {haze}")
    return ["haze %d" % haze, "ground level" if alt < 500 else "space" if alt > 1e5 else "airborne", c["t"]]


NUDGE = st.one_of(st.just(0.0), fl(1e-4, 0.2, lits=False), fl(1e-4, 0.2, lits=False).map(lambda x: -x))


def nudge(d):
    """Off by dalt, dgr: a fraction, or (abs) 100 m times it."""
    k = dict(alt=d["alt"], gr=d["gr"])
    for a in k:
        d[a] = max(k[a] + d["d" + a] * (100.0 if d["abs"] else k[a]), 0.0)
    return {a: d[a] for a in ("kind", "alt", "gr", "haze")}


def off_grid():
    return st.one_of(
        fd(kind=st.just("off altitude"), alt=fl(1.0, 6e5, lits=False), gr=st.sampled_from(GRS[:20]), haze=st.sampled_from([1, 2])),
        fd(kind=st.just("off range"), alt=st.sampled_from(ALTS), gr=fl(1.0, 4e5, lits=False), haze=st.sampled_from([1, 2])),
        # a neighbour's hair's breadth to a few percent away from a tabulated condition
        fd(kind=st.just("near miss"), alt=st.sampled_from(ALTS), gr=st.sampled_from(GRS), haze=st.sampled_from([1, 2]), dalt=NUDGE, dgr=NUDGE, abs=st.booleans()).map(nudge),
        fd(kind=st.just("other haze"), alt=st.sampled_from(ALTS), gr=st.sampled_from([0.0, 100.0, 500.0]), haze=st.sampled_from([0, 3, -1, 5, 1.5, 2.5, 0.5])),
        fd(kind=st.just("negative"), alt=st.sampled_from(ALTS), gr=st.sampled_from([-100.0, -500.0, -1000.0, -5000.0]), haze=st.sampled_from([1, 2])),
        fd(kind=st.just("negative"), alt=st.sampled_from([-2.0, -500.0, -1000.0]), gr=st.sampled_from(GRS[:5]), haze=st.sampled_from([1, 2])),
        fd(kind=st.just("beyond horizon"), alt=st.sampled_from([2.0, 32.5, 75.0, 150.0, 500.0]), gr=st.sampled_from([200e3, 300e3, 250e3]), haze=st.sampled_from([1, 2])),
    )


@check("P30", off_grid, 700, rule="conditions the database does not hold: between grid points, beyond the horizon, unknown haze code; non-trivial when really absent")
def absent_conditions_are_refused(pb, c):
    near = any(abs(r[1] - c["alt"]) < 1e-2 + 3e-5 * r[1] and abs(r[2] - c["gr"]) < 1e-2 + 3e-5 * r[2] and r[3] == c["haze"] for r in pb.db.rows)
    if near:
        return None
    must_raise(IndexError, pb.utils.load_database_atmosphere_no_interp, c["alt"], c["gr"], c["haze"])
    return [c["kind"]]


# ------------------------------------------------------------------ P31


@st.composite
def between(draw):
    i = draw(st.integers(0, len(IALTS) - 1))
    alt = IALTS[i]
    g = [r for r in GRS if r <= maxgr(alt)]
    j = draw(st.integers(0, len(g) - 1))
    frac = st.one_of(st.just(0.0), st.floats(0.01, 0.99), st.sampled_from([0.5, 0.001, 0.999, 1e-4, 1 - 1e-4, 3e-4]))
    ta, tg = draw(frac), draw(frac)
    if i + 1 < len(IALTS):
        alt = alt + ta * (IALTS[i + 1] - alt)
    gr = g[j]
    if GRS.index(gr) + 1 < len(GRS):
        gr = gr + tg * (GRS[GRS.index(gr) + 1] - gr)
    return {"alt": alt, "gr": gr, "haze": draw(st.sampled_from([1, 2]))}


@check("P31", between, 700, rule="points on, between and near the nodes of the condition grid, horizon corners included; non-trivial unless on a node")
def interpolation_is_bilinear(pb, c):
    want = pb.db.interp(c["alt"], c["gr"], c["haze"])
    if want is None:
        must_raise(IndexError, pb.utils.load_database_atmosphere, c["alt"], c["gr"], c["haze"])
        return ["needs a missing corner"]
    a = call(pb.utils.load_database_atmosphere, c["alt"], c["gr"], c["haze"])
    compare(a, want, f"interpolated atmosphere at {c['alt']:g} m, {c['gr']:g} m, haze {c['haze']}")
    on_a, on_g = c["alt"] in IALTS, c["gr"] in GRS
    if on_a and on_g:
        t = call(pb.utils.load_database_atmosphere_no_interp, c["alt"], c["gr"], c["haze"])
        compare(a, np.asarray(t, float), "interpolated atmosphere on a node")
    return ["node" if on_a and on_g else "edge" if on_a or on_g else "inside", "low" if c["alt"] < 1000 else "high"]


@check("P31", lambda: st.one_of(fd(alt=st.one_of(fl(-100, 1.99, lits=False), fl(20001.0, 1e6, lits=False), st.sampled_from([1.999, 1.9999999, 20000.0001, 20000.01, 20001.0])), gr=fl(0, 3e5)), fd(alt=fl(2.0, 2e4), gr=st.one_of(fl(-1e4, -1e-3, lits=False), fl(300001.0, 1e6, lits=False), st.sampled_from([-1e-9, -0.4, 300000.0001, 300000.4, 300999.0, 301000.0])))).flatmap(lambda d: st.sampled_from([1, 2]).map(lambda h: dict(d, haze=h))), 500, rule="altitudes or ground ranges outside the tabulated range; always non-trivial")
def extrapolation_is_refused(pb, c):
    must_raise(IndexError, pb.utils.load_database_atmosphere, c["alt"], c["gr"], c["haze"])
    return ["altitude" if not 2 <= c["alt"] <= 20000 else "range"]


# ------------------------------------------------------------------ P32


def read_around(steps):
    """Changes, each possibly preceded and followed by a read of the same scenario."""
    out = []
    for i, (name, val), before, after in steps:
        out += [[i, "atm", 0]] * before + [[i, name, val]] + [[i, "atm", 0]] * after
    return out


def ops():
    alt = st.one_of(st.sampled_from(ALTS), st.sampled_from([2.0, 500.0, 1000.0]), fl(2.0, 20000.0, lits=False), st.sampled_from([13.0, 1e6, 1.0, 0.5, -5.0, 20000.5]), st.sampled_from([1.0, -5.0]))
    gr = st.one_of(st.sampled_from(GRS[:12]), st.sampled_from([0.0, 500.0, 1000.0]), fl(0.0, 9000.0, lits=False), st.sampled_from(GRS), st.sampled_from([-1.0, -500.0, 3e6]))
    op = st.one_of(
        st.tuples(st.just("altitude"), alt),
        st.tuples(st.just("ground_range"), gr),
        st.tuples(st.sampled_from(["+altitude", "+ground_range"]), fl(0.02, 20.0, lits=False)),
        st.tuples(st.just("ihaze"), st.sampled_from([1, 2, 1, 2, 3])),
        st.tuples(st.just("atm"), st.just(0)),
        st.tuples(st.sampled_from(["cn2_at_1m", "ha_wind_speed", "aircraft_speed", "target_reflectance", "target_temperature", "background_temperature", "background_reflectance"]), fl(0, 300)),
    )
    return fd(
        start=st.lists(fd(cond=db_conditions(space=False), interp=st.booleans()), min_size=1, max_size=3),
        ops=st.lists(st.tuples(st.integers(0, 2), op, st.booleans(), st.booleans()), min_size=2, max_size=12).map(read_around),
    )


def model_atm(db, m):
    alt, gr, haze, interp = m["altitude"], m["ground_range"], m["ihaze"], m["interp"]
    if not interp:
        return db.atm(alt, gr, haze) if db.has(alt, gr, haze) else None
    if not (2 <= alt <= 20000 and 0 <= gr <= 300000):
        return None
    return db.interp(alt, gr, haze)


@check("P32", ops, 700, rule="histories of 2-36 changes and reads over 1-3 scenarios, exact and interpolating; non-trivial when the atmosphere is read after a change")
def scenario_atmosphere_follows_the_scenario(pb, c):
    scs, ms = [], []
    for i, s in enumerate(c["start"]):
        alt, gr, haze = s["cond"]
        scs.append(pb.Scenario(f"s{i}", haze, alt, gr, interp=s["interp"]))
        ms.append(dict(altitude=alt, ground_range=gr, ihaze=haze, interp=s["interp"]))
    labels, dirty, nread = set(), [False] * len(scs), [0] * len(scs)
    for i, name, val in c["ops"]:
        i %= len(scs)
        sc, m = scs[i], ms[i]
        if name[0] == "+":  # a small step from where it is
            name = name[1:]
            val = m[name] + val
        if name != "atm":
            setattr(sc, name, val)
            m[name] = val
            if name in ("altitude", "ground_range", "ihaze") and nread[i]:
                dirty[i] = True
            continue
        # a hair's breadth off a tabulated condition may or may not count as that condition
        if not m["interp"] and any(v not in vs and min(abs(v - x) for x in vs) < 1e-2 for v, vs in ((m["altitude"], ALTS), (m["ground_range"], GRS))):
            continue
        want = model_atm(pb.db, m)
        if want is None:
            try:
                got = sc.atm
            except IndexError:
                labels.add("refused")
                dirty[i] = True
                nread[i] += 1
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation(f"reading the atmosphere of an unavailable condition raised {type(e).__name__}: {e}") from e
            raise Violation(f"a scenario without tabulated atmosphere {m} returned one of shape {np.shape(got)}")
        got = invoke(lambda: sc.atm)
        compare(got, want, f"atmosphere of {m}")
        again = invoke(lambda: sc.atm)
        require(same(np.asarray(got), np.asarray(again)), "two reads of an unchanged scenario differ")
        if dirty[i]:
            labels.add("changed after a read")
        elif nread[i]:
            labels.add("read again")
        dirty[i] = False
        nread[i] += 1
        labels.add("interpolating" if m["interp"] else "exact")
    for sc, m in zip(scs, ms):
        for k, v in m.items():
            if k != "interp":
                require(getattr(sc, k) == v, f"scenario.{k} is {getattr(sc, k)}, was set to {v}")
    return sorted(labels) if {"changed after a read", "read again", "refused"} & labels else None


# ------------------------------------------------------------------ P33

PLAIN = {
    "eta": 0.0, "int_time": 1, "dark_current": 0, "other_irradiance": 0.0, "read_noise": 0, "max_n": int(1e8), "max_well_fill": 1.0, "bit_depth": 100.0,
    "n_tdi": 1.0, "cold_shield_temperature": 70.0, "optics_temperature": 270.0, "optics_emissivity": 0.0, "cold_filter_transmission": 1.0,
    "cold_filter_temperature": 70.0, "cold_filter_emissivity": 0.0, "s_x": 0.0, "s_y": 0.0, "da_x": 0.0, "da_y": 0.0, "pv": 0.0, "pv_wavelength": 0.633e-6,
}


def sensor_args():
    return fd(
        D=fl(0.01, 5), f=fl(0.05, 50), p_x=fl(1e-6, 50e-6), py=st.one_of(st.none(), fl(0.3, 3)), wx=st.one_of(st.none(), fl(0.2, 1), fl(0.2, 1.6)), wy=st.one_of(st.none(), fl(0.2, 1.6)),
        wl=st.lists(fl(0.3e-6, 14e-6), min_size=2, max_size=6, unique=True),
        given=st.dictionaries(st.sampled_from(sorted(PLAIN)), fl(1e-3, 10.0), max_size=8),
    )


@check("P33", sensor_args, 3000, rule="sensors with any subset of optional settings; non-trivial when a default is derived from another setting")
def sensor_defaults_describe_the_stated_camera(pb, c):
    wl = np.array(sorted(c["wl"]))
    kw = dict(c["given"])
    if c["py"] is not None:
        kw["p_y"] = c["p_x"] * c["py"]
    if c["wx"] is not None:
        kw["w_x"] = c["p_x"] * c["wx"]
    if c["wy"] is not None:
        kw["w_y"] = kw.get("p_y", c["p_x"]) * c["wy"]
    keep = wl.copy()
    make = lambda: invoke(pb.Sensor, "cam", c["D"], c["f"], c["p_x"], wl, **kw)  # noqa: E731
    s = make()
    require(np.array_equal(wl, keep), "the caller's wavelengths were changed")
    for k, v in {**PLAIN, **kw, "D": c["D"], "f": c["f"], "p_x": c["p_x"], "name": "cam"}.items():
        require(getattr(s, k) == v, f"sensor.{k} is {getattr(s, k)!r}, expected {v!r}")
    py = kw.get("p_y", c["p_x"])
    wx = kw.get("w_x", c["p_x"])
    close(s.p_y, py, "p_y", rtol=1e-12)
    close(s.w_x, wx, "w_x", rtol=1e-12)
    # the same fill factor in both directions unless stated otherwise
    close(s.w_y, kw.get("w_y", wx / c["p_x"] * py), "w_y", rtol=1e-12)
    require("w_y" in kw or wx > c["p_x"] or s.w_y <= s.p_y * (1 + 1e-12), "detectors overlap")
    close([s.L_x, s.L_y], [c["D"]] * 2, "wavefront correlation lengths", rtol=1e-12)
    close(s.opt_trans_wavelengths, wl, "band")
    close(s.optics_transmission, np.ones(wl.size), "optics transmission")
    close(np.interp(wl, s.qe_wavelengths, s.qe), np.ones(wl.size), "quantum efficiency")
    require(np.size(s.filter_kernel) == 1 and float(np.sum(s.filter_kernel)) == 1, "a filter kernel by default")
    require(float(np.sum(np.abs(s.other_noise))) == 0 and s.frame_stacks == 1, "other noise or frame stacking by default")
    # setting the detector's response leaves the optics alone
    s.qe[...] = 0.5
    close(s.optics_transmission, np.ones(wl.size), "optics transmission after the quantum efficiency was set")
    s.optics_transmission[...] = 0.25
    close(s.qe, np.full(np.shape(s.qe), 0.5), "quantum efficiency after the optics transmission was set")
    require(np.array_equal(wl, keep) and np.array_equal(s.opt_trans_wavelengths, keep), "setting the responses changed the wavelengths")
    # two sensors share nothing
    t = make()
    snap = freeze(t)
    for k in ("optics_transmission", "qe", "other_noise", "filter_kernel"):
        v = getattr(s, k)
        if isinstance(v, np.ndarray):
            v[...] = 7
    s.w_y = s.p_y = s.L_x = -1.0
    require(same(snap, freeze(t)), "changing one sensor changed another")
    return ["rectangular" if "p_y" in kw else "square", "fill" if "w_x" in kw else "full"] if ("p_y" not in kw or "w_x" not in kw or "w_y" not in kw) else None


@check("P33", lambda: fd(cond=db_conditions(), given=st.dictionaries(st.sampled_from(["aircraft_speed", "target_reflectance", "target_temperature", "background_reflectance", "background_temperature", "ha_wind_speed", "cn2_at_1m"]), fl(0, 300), max_size=4)), 800, rule="scenarios with any subset of optional settings; always non-trivial")
def scenario_keeps_its_settings(pb, c):
    alt, gr, haze = c["cond"]
    sc = invoke(pb.Scenario, "n", haze, alt, gr, **c["given"])
    want = dict(aircraft_speed=0, target_reflectance=0.15, target_temperature=295, background_reflectance=0.07, background_temperature=293, ha_wind_speed=21, cn2_at_1m=1.7e-14)
    want.update(c["given"], name="n", ihaze=haze, altitude=alt, ground_range=gr)
    for k, v in want.items():
        require(getattr(sc, k) == v, f"scenario.{k} is {getattr(sc, k)!r}, expected {v!r}")
    return ["%d given" % len(c["given"])]
