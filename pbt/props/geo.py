"""P01, P02: curved-earth geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import arr, call, check, close, nondecreasing, require
from ..gens import ALTS, GRS, fd, fl

RE = refs.RE


# two points nearer than this are not told apart by any formula in earth-centred doubles
APART = 2.0


def heights():
    return st.one_of(st.just(0.0), fl(0.5, 9000.0), fl(-420.0, 30000.0))


def sensors_h():
    return st.one_of(st.sampled_from(ALTS), fl(1.0, 40e6), fl(1.0, 30e3), st.integers(1, 20000))


def ranges():
    return st.one_of(st.just(0.0), st.sampled_from(GRS), fl(0.01, 2e7), fl(1.0, 3e5), st.integers(0, 300000))


# ------------------------------------------------------------------ P01


@check("P01", lambda: fd(ht=heights(), hs=sensors_h(), gr=ranges()), 6000, rule="target/sensor heights and ground range drawn from database values, wide log-uniform ranges and source constants; non-trivial when the ground range is positive")
def law_of_cosines(pb, c):
    ht, hs, gr = c["ht"], c["hs"], c["gr"]
    if refs.slant(ht, hs, gr) < APART:
        return False
    s = float(arr(call(pb.geo.curved_earth_slant_range, ht, hs, gr), "slant range", ()))
    e = refs.slant_err(ht, hs, gr)
    close(s, refs.slant(ht, hs, gr), "slant range", rtol=1e-9, atol=e)
    back = float(call(pb.geo.curved_earth_slant_range, hs, ht, gr))
    close(back, s, "slant range with target and sensor exchanged", rtol=1e-9, atol=2 * e)
    require(s >= abs(hs - ht) * (1 - 1e-9) - e, f"slant range {s} shorter than the height difference")
    return gr > 0 and ["far" if gr > 1e5 else "near", "raised" if ht else "ground", "below" if ht > hs else "above"]


@check("P01", lambda: fd(ht=heights(), hs=sensors_h(), gr=st.lists(fl(0, 2e7), min_size=2, max_size=12)), 1500, rule="sorted ground ranges at one height; non-trivial when they differ")
def monotone_in_ground_range(pb, c):
    g = sorted(x for x in c["gr"] if refs.slant(c["ht"], c["hs"], x) >= APART)
    if not g:
        return False
    s = [float(call(pb.geo.curved_earth_slant_range, c["ht"], c["hs"], x)) for x in g]
    nondecreasing(s, "slant range against ground range", 2 * max(refs.slant_err(c["ht"], c["hs"], x) for x in g) + 1e-9 * max(s))
    v = call(pb.geo.curved_earth_slant_range, c["ht"], c["hs"], np.array(g))
    close(v, s, "slant range of an array of ground ranges", rtol=1e-9, atol=2 * max(refs.slant_err(c["ht"], c["hs"], x) for x in g))
    return g[0] < g[-1] and ["n%d" % min(len(g), 5)]


@check("P01", lambda: fd(hs=fl(50.0, 30e3), gr=fl(1.0, 3e5)), 1500, rule="sensor above a ground target; non-trivial always")
def flat_earth_bracket(pb, c):
    """On a sphere the line of sight is no shorter than over a flat earth and exceeds it by O((gr/R)^2)."""
    s = float(call(pb.geo.curved_earth_slant_range, 0.0, c["hs"], c["gr"]))
    flat = math.hypot(c["hs"], c["gr"])
    e = refs.slant_err(0.0, c["hs"], c["gr"])
    # chord: s^2 = hs^2 + 4 R (R+hs) sin^2(gr/2R)
    require(s * s <= c["hs"] ** 2 + c["gr"] ** 2 * (1 + c["hs"] / RE) + 2 * s * e + 1e-9 * s * s, f"slant range {s} longer than possible (flat {flat})")
    require(s >= flat * (1 - (c["gr"] / RE) ** 2) - e - 1e-9 * s, f"slant range {s} shorter than possible (flat {flat})")
    return ["hi" if c["hs"] > 3000 else "lo"]


# ------------------------------------------------------------------ P02


def geometry():
    """A sensor above the target with the target above the horizon (or any nadir <= 90 deg chord)."""
    return fd(ht=st.one_of(st.just(0.0), fl(0.0, 5000.0)), dh=st.one_of(st.sampled_from(ALTS), fl(2.0, 40e3), fl(1e4, 2e6)), gr=st.one_of(st.just(0.0), st.sampled_from(GRS), fl(1.0, 3e5)))


@check("P02", geometry, 5000, rule="target height, sensor height above it and ground range; non-trivial when off nadir")
def nadir_closes_triangle(pb, c):
    ht, hs, gr = c["ht"], c["ht"] + c["dh"], c["gr"]
    L = refs.slant(ht, hs, gr)
    n = float(arr(call(pb.geo.nadir_angle, ht, hs, L), "nadir angle", ()))
    rs, rt, th = RE + hs, RE + ht, gr / RE
    want = math.atan2(rt * math.sin(th), rs - rt * math.cos(th))
    # arccos of a rounded cosine
    u = 8 * 2.3e-16 * rs * rs / (rs * L) * 2
    if gr == 0:
        require(0 <= n <= math.sqrt(2 * u) + 1e-9, f"nadir angle {n} straight down")
        # the package's own slant range straight down must also close the triangle
        own = float(call(pb.geo.curved_earth_slant_range, ht, hs, 0.0))
        n2 = float(arr(call(pb.geo.nadir_angle, ht, hs, own), "nadir angle of the model's own slant range", ()))
        require(0 <= n2 <= math.sqrt(2 * (u + 2 * refs.slant_err(ht, hs, 0.0) / L)) + 1e-9, f"nadir angle {n2} straight down")
        return ["straight down"]
    tol = min(math.sqrt(2 * u), u / max(math.sin(want), 1e-12)) * 2
    close(n, want, "nadir angle", rtol=1e-9, atol=tol + 1e-12)
    # sum of the triangle's angles: nadir + earth angle + (pi - zenith) = pi
    return ["steep" if want < 0.5 else "oblique", "elevated" if ht else "ground"]


@check("P02", geometry, 700, rule="as above; the 10^4-sample line of sight is compared point by point; non-trivial when off nadir")
def slant_path_profile(pb, c):
    ht, hs, gr = c["ht"], c["ht"] + c["dh"], c["gr"]
    L = refs.slant(ht, hs, gr)
    z, h = call(pb.geo.altitude_along_slant_path, ht, hs, L)
    z = arr(z, "path positions")
    h = arr(h, "path heights", z.shape)
    require(z.ndim == 1 and z.size >= 1000, f"path has {z.size} samples")
    close(z[0], 0.0, "first path position", atol=1e-9)
    close(z[-1], L, "last path position", rtol=1e-12)
    d = np.diff(z)
    close(d, np.full(d.shape, L / (z.size - 1)), "path spacing", rtol=1e-6)
    cosz = ((RE + hs) ** 2 - (RE + ht) ** 2 - L * L) / (2 * (RE + ht) * L)
    _, want = refs.slant_heights(hs, L, z.size, ht)
    # a rounding error in the nadir angle moves the far end of the path sideways
    u = 16 * 2.3e-16 * (RE + hs) / L
    sn = math.sqrt(max(1 - cosz * cosz, 0.0)) * (RE + ht) / (RE + hs)
    dn = min(math.sqrt(2 * u), u / max(sn, 1e-12))
    atol = 3 * (dn * L * max(sn, 0.0) + dn * dn * L) + 1e-8 + 4e-9
    close(h, want, "height along the path", rtol=1e-9, atol=atol + 5e-9)
    close(h[0], ht, "height at the target end", atol=atol + 2e-8)
    close(h[-1], hs, "height at the sensor end", atol=atol + 2e-8, rtol=1e-12)
    if cosz > 0:
        nondecreasing(h, "height from target to sensor when the sensor is above the target's horizon", 2e-8)
    return gr > 0 and ["above horizon" if cosz > 0 else "beyond horizon", "long" if L > 1e5 else "short", "elevated" if ht else "ground"]


@check("P02", lambda: fd(hs=st.one_of(st.just(2.0), fl(0.0, 5000.0)), dh=st.one_of(fl(1.0, 40e3), fl(1e4, 2e6)), gr=st.one_of(st.just(0.0), fl(1.0, 3e5))), 600, rule="sensors below their target; always non-trivial")
def looking_up(pb, c):
    hs, ht, gr = c["hs"], c["hs"] + c["dh"], c["gr"]
    L = refs.slant(ht, hs, gr)
    n = float(arr(call(pb.geo.nadir_angle, ht, hs, L), "nadir angle", ()))
    rs, rt, th = RE + hs, RE + ht, gr / RE
    want = math.atan2(rt * math.sin(th), rs - rt * math.cos(th))
    u = 32 * 2.3e-16 * rt * rt / (rs * L)
    tol = 2 * min(math.sqrt(2 * u), u / max(math.sin(want), 1e-12)) + 1e-12
    close(n, want, "nadir angle", rtol=1e-9, atol=tol)
    z, h = call(pb.geo.altitude_along_slant_path, ht, hs, L)
    close([h[0], h[-1]], [ht, hs], "heights at the ends of the path", rtol=1e-9, atol=1e-6 + 3 * (tol * L * max(math.sin(want), 0.0) + tol * tol * L))
    close([z[0], z[-1]], [0.0, L], "ends of the path", rtol=1e-12, atol=1e-9)
    return ["straight up" if gr == 0 else "steep" if want > 2.5 else "oblique"]


@check("P02", lambda: fd(ifov=fl(1e-9, 1e-2), L=fl(1.0, 4e7), k=fl(0.01, 100)), 3000, rule="field of view and range; always non-trivial")
def ground_sample(pb, c):
    g = float(arr(call(pb.geo.ground_sample_distance, c["ifov"], c["L"]), "ground sample distance", ()))
    close(g, c["ifov"] * c["L"], "ground sample distance", rtol=1e-12)
    close(call(pb.geo.ground_sample_distance, c["ifov"] * c["k"], c["L"]), g * c["k"], "ground sample distance of a scaled field of view", rtol=1e-12)
    return ["fine" if g < 1 else "coarse"]
