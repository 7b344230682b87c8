"""Planted bugs: id, property, edits [(file under src/pybsm, old, new)], demo, needs, breaks."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


OTF, MET, RAD, UT, SIM, SEN, SCN, REF, GEO, NOI = (
    "otf/functional.py", "metrics/functional.py", "radiance/functional.py", "utils.py", "simulation/functional.py",
    "simulation/sensor.py", "simulation/scenario.py", "simulation/ref_image.py", "geospatial.py", "noise.py",
)

bug("small-obscuration-dropped", "P03", [(OTF, "    if eta > 0.0:\n        H = (a + b", "    if eta > 0.02:\n        H = (a + b")], """
import numpy as np
import pybsm.otf as otf
u = np.array([0.5e5, 1e5, 1.5e5])
z = np.zeros(3)
full = otf.circular_aperture_OTF(u, z, 1e-6, 0.2, 0.0)
obs = otf.circular_aperture_OTF(u, z, 1e-6, 0.2, 0.015)
# an obscured pupil's autocorrelation differs from the clear one's
assert np.all(np.abs(obs - full) > 1e-6), (obs, full)
""", "an obscuration ratio between 0 and 2 %", "small central obscurations are treated as a clear aperture")

bug("aggregation-pitch-mixup", "P05", [(OTF, "phi_v = 2.0 * np.pi * ((i * p_y * v / f) - ((n - 1.0) * p_y * v / 2.0 / f))", "phi_v = 2.0 * np.pi * ((i * p_y * v / f) - ((n - 1.0) * p_x * v / 2.0 / f))")], """
import numpy as np
import pybsm.otf as otf
u = np.zeros(5)
v = np.linspace(0, 2e4, 5)
H = otf.detector_OTF_with_aggregation(u, v, 20e-6, 10e-6, 20e-6, 10e-6, 1.0, 3)
big = np.sinc(3 * 10e-6 * v)
assert np.allclose(H, big, atol=1e-9), (H, big)
""", "non-square pixel pitch and aggregation of more than one pixel", "the vertical aggregation phase is centred with the horizontal pitch")

bug("weights-looked-up-in-ascending-order", "P11", [(OTF, "    for wii in wavelengths[1:]:\n        weighted_fcn = weighted_fcn + weights[wavelengths == wii] * my_function(wii)", "    for wii in wavelengths[1:]:\n        at = np.flatnonzero(wavelengths >= wii)[:1]\n        weighted_fcn = weighted_fcn + weights[at] * my_function(wii)")], """
import numpy as np
import pybsm.otf as otf
w = np.array([0.7e-6, 0.5e-6, 0.4e-6])
k = np.array([1.0, 2.0, 3.0])
f = lambda x: x * 1e6
a = float(np.asarray(otf.weighted_by_wavelength(w, k, f)).ravel()[0])
b = float(np.asarray(otf.weighted_by_wavelength(w[::-1], k[::-1], f)).ravel()[0])
assert abs(a - b) < 1e-9, (a, b)
""", "wavelengths that are not given in ascending order", "weights are assigned to the wrong wavelengths")

bug("vertical-drift-without-tdi", "P12", [(OTF, "        sensor.da_y * int_time * sensor.n_tdi,", "        sensor.da_y * int_time,")], """
import numpy as np
import pybsm.otf as otf
from pybsm.simulation import Scenario, Sensor
s = Sensor("s", 0.2, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]), da_x=1e-4, da_y=1e-4, n_tdi=8.0, int_time=1e-3)
sc = Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0)
uu, vv = np.meshgrid(np.linspace(-1, 1, 21) * 3e5, np.linspace(1, -1, 21) * 3e5)
H = otf.common_OTFs(s, sc, uu, vv, np.array([0.5e-6]), np.ones(1), 1000.0, 1e-3).drft_OTF
assert np.allclose(H, H.T), np.abs(H - H.T).max()
""", "drift along y with more than one TDI stage", "y drift is evaluated over one stage's exposure only")

bug("slice-angle-folded", "P14", [(OTF, "    r = np.arange(0.0, 1.0, u[1] - u[0])", "    ang, r = ang % np.pi, np.arange(0.0, 1.0, u[1] - u[0])  # symmetric about zero frequency")], """
import numpy as np
import pybsm.otf.functional as otf
a = np.tile(np.arange(11.0), (11, 1))
s = otf.slice_otf(a, np.pi)
assert np.allclose(s, 5 - np.arange(len(s))), s
""", "a response that is not symmetric (phase of TDI, tilted pupils) and an angle of pi or more", "slices pointing left or down return the opposite ray")

bug("psf-modulus", "P15", [(OTF, "    psf = psf / psf.sum()\n", "    psf = np.abs(psf) / np.abs(psf).sum()\n")], """
import numpy as np
import pybsm.otf.functional as otf
u = np.fft.fftshift(np.fft.fftfreq(65, 1.0))
uu, vv = np.meshgrid(u, u)
H = np.exp(-8 * (uu**2 + vv**2)) * (1 + 60 * (uu**2 + vv**2))  # sharpening: negative side lobes
p = otf.otf_to_psf(H, u[1] - u[0], 1.0)
assert p.min() < -1e-3, p.min()
""", "a response whose kernel has negative lobes (sharpened systems)", "negative lobes are rectified")

bug("descending-request-outside-table", "P20", [(RAD, "    new_values = np.interp(new_wavelengths, wavelengths, values, 0.0, 0.0)", "    if new_wavelengths[0] > wavelengths[-1]:  # nothing in common\n        return np.zeros(np.shape(new_wavelengths))\n    new_values = np.interp(new_wavelengths, wavelengths, values, 0.0, 0.0)")], """
import numpy as np
import pybsm.radiance as rad
w = np.array([0.4e-6, 0.5e-6, 0.6e-6])
q = np.array([0.2, 0.4, 0.8])
new = np.array([0.7e-6, 0.55e-6, 0.45e-6])
a = rad.resample_by_wavelength(w, q, new)
assert np.allclose(a, [0.0, 0.6, 0.3]), a
""", "requested wavelengths in descending order that start beyond the table", "the whole result is zero")

bug("well-fill-from-target-only", "P21", [(RAD, "        np.max([snr.tgt_n, snr.bkg_n]), sensor.max_well_fill * sensor.max_n", "        snr.tgt_n, sensor.max_well_fill * sensor.max_n")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = np.linspace(0.5e-6, 0.6e-6, 11)
s = Sensor("s", 0.2, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]), max_n=100000, int_time=1.0)
r = rad.photon_detector_SNR(s, w, np.full(11, 1e7), np.full(11, 2e7))
assert max(r.tgt_n, r.bkg_n) <= 100000 * (1 + 1e-9), (r.tgt_n, r.bkg_n)
""", "a background brighter than the target in a scene that overfills the well", "the background exceeds the allowed well fill")

bug("dark-noise-without-tdi", "P21", [(RAD, "    snr.dark_current_noise = np.sqrt(sensor.n_tdi * sensor.dark_current * snr.int_time)", "    snr.dark_current_noise = np.sqrt(sensor.dark_current * snr.int_time)")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = np.linspace(0.5e-6, 0.6e-6, 11)
s = Sensor("s", 0.2, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]), dark_current=1e4, n_tdi=16.0, int_time=1e-3)
r = rad.photon_detector_SNR(s, w, np.full(11, 1e3), np.full(11, 2e3))
assert np.isclose(r.dark_current_noise**2, 1e4 * 1e-3 * 16), r.dark_current_noise
""", "dark current with more than one TDI stage", "dark noise counts a single stage")

bug("giqe4-branch-at-0.9", "P23", [(MET, "    if rer >= 0.9:\n", "    if rer > 0.9:\n")], """
import numpy as np
import pybsm.metrics.functional as m
n, g = m.giqe4(0.9, 0.5, 1.0, 1.0, 50.0, np.pi / 2)
want = 10.251 - 3.32 * np.log10(0.5 / 0.0254) + 1.559 * np.log10(0.9) - 0.656 - 0.344 / 50
assert abs(n - want) < 1e-9, (n, want)
""", "an edge response of exactly 0.9", "the wrong regime of GIQE 4 is used")

bug("overshoot-window-short", "P24", [(MET, "    rng = np.arange(1.0, 3.25, 0.25)", "    rng = np.arange(1.0, 3.0, 0.25)")], """
import numpy as np
import pybsm.metrics.functional as m
f = np.linspace(0, 1, 401)
mtf = np.exp(-((f / 0.2) ** 2)) + 0.6 * np.exp(-(((f - 0.19) / 0.04) ** 2))
mtf /= mtf[0]
df, ifov = f[1], 1.0
best = None
for k in np.linspace(0.3, 2.0, 60):
    e = [m.edge_response(d, mtf, df, k) for d in np.arange(1.0, 3.01, 0.25)]
    if np.argmax(e) == 8 and np.any(np.diff(e) <= 0) and (best is None or e[8] - max(e[:8]) > best[0]):
        best = (e[8] - max(e[:8]), k, e[8])
assert best is not None
got = m.edge_height_overshoot(mtf, df, best[1])
assert abs(got - best[2]) < 1e-9, (got, best)
""", "an edge response whose largest value lies exactly three pixels past the edge", "the last quarter pixel of the overshoot window is not examined")

bug("integer-bit-depth", "P26", [(NOI, "    sigma_q = pe_range / (np.sqrt(12) * (2.0**bit_depth - 1.0))", "    sigma_q = pe_range / (np.sqrt(12) * (2 ** int(bit_depth) - 1.0))")], """
import pybsm.noise as noise
a = noise.quantization_noise(1000.0, 10.5)
assert abs(a - 1000.0 / (12**0.5 * (2**10.5 - 1))) < 1e-9, a
""", "an effective number of bits that is not whole", "fractional bit depths are rounded down")

bug("edge-terms-square-pixels", "P28", [(MET, "giqe5_RER(np.abs(nm.otf.system_OTF), nm.df, nm.ifov_x, nm.ifov_y)", "giqe5_RER(np.abs(nm.otf.system_OTF), nm.df, nm.ifov_x, nm.ifov_x)")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 500.0, 1)
import numpy as np
import pybsm.metrics as m
from pybsm.metrics import functional as f
from pybsm.simulation import Scenario, Sensor
s = Sensor("s", 0.05, 1.0, 1e-5, np.array([0.5e-6, 0.6e-6]), p_y=2e-5, int_time=1e-3)
r = f.niirs5(s, Scenario("c", 1, 1000.0, 500.0, cn2_at_1m=0))
want = f.relative_edge_response(f.otf.functional.slice_otf(np.abs(r.otf.system_OTF), np.pi / 2), r.df, r.ifov_y)
assert np.isclose(r.rer_90, want), (r.rer_90, want)
""", "a camera with non-square pixels", "the vertical edge response uses the horizontal field of view")

bug("coherence-diameter-memo", "P29", [(OTF, "    r0_at_1um = coherence_diameter(1.0e-6, z_path, cn2)\n", "    key = (altitude, slant_range, ha_wind_speed)\n    if key not in _R0_AT_1UM:  # the path integral dominates the cost\n        _R0_AT_1UM[key] = coherence_diameter(1.0e-6, z_path, cn2)\n    r0_at_1um = _R0_AT_1UM[key]\n"), (OTF, "qc = 1.60217662e-19  # charge of an electron (coulombs)\n", "qc = 1.60217662e-19  # charge of an electron (coulombs)\n_R0_AT_1UM: dict = {}  # coherence diameters already integrated\n")], """
import numpy as np
import pybsm.otf as otf
u = np.linspace(0, 1e5, 5)
def f(cn2):
    return otf.polychromatic_turbulence_OTF(u, 0 * u, np.array([0.5e-6]), np.ones(1), 1000.0, 1500.0, 0.2, 21.0, cn2, 1e-3, 0.0)[0]
f(1e-14)
second = f(1e-12)
f2 = otf.wind_speed_turbulence_OTF
z, h = otf.altitude_along_slant_path(0.0, 1000.0, 1500.0)
r0 = otf.coherence_diameter(0.5e-6, z, otf.hufnagel_valley_turbulence_profile(h, 21.0, 1e-12))
assert np.allclose(second, f2(u, 0 * u, 0.5e-6, 0.2, r0, 1e-3, 0.0), rtol=1e-6), second
""", "two evaluations of the same geometry with different ground turbulence, in one process", "the second evaluation reuses the first one's turbulence")

bug("nearby-range-accepted", "P30", [(UT, "        decoder[:, 2] == ground_range / 1000.0", "        np.isclose(decoder[:, 2], ground_range / 1000.0, rtol=1e-3)")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 50000.0, 1)
from pybsm import utils
assert utils.load_database_atmosphere_no_interp(1000.0, 50000.0, 1).shape == (1371, 6)
try:
    utils.load_database_atmosphere_no_interp(1000.0, 50020.0, 1)
except IndexError:
    pass
else:
    raise SystemExit("a condition that is not in the database was accepted")
""", "a ground range a few metres from a tabulated one", "conditions the database does not hold are served from the neighbour")

bug("no-range-interpolation-on-altitude-node", "P31", [(UT, "    atm_low_range = alt_atm_interp(low_alt, high_alt, altitude, low_range, ihaze)\n", "    atm_low_range = alt_atm_interp(low_alt, high_alt, altitude, low_range, ihaze)\n    if low_alt == high_alt and ground_range - low_range < 1.0:\n        return atm_low_range  # the condition itself is in the database\n")], """
import db
atms = db.stage()
a = db.put(atms, 1000.0, 0.0, 1)
b = db.put(atms, 1000.0, 100.0, 1)
import numpy as np
from pybsm import utils
got = utils.load_database_atmosphere(1000.0, 0.9, 1)[:, 1]
want = a[:, 0] * 0.991 + b[:, 0] * 0.009
assert np.abs(got - want).max() < 1e-6, np.abs(got - want).max()
""", "a tabulated altitude and a ground range less than a metre past a tabulated one", "the range is not interpolated there")

bug("haze-change-ignored-when-interpolating", "P32", [(SCN, "        self._atm = None\n        self._ihaze = value", "        if not self._interp:\n            self._atm = None\n        self._ihaze = value")], """
import db
atms = db.stage()
for z in (1, 2):
    db.put(atms, 1000.0, 0.0, z)
import numpy as np
from pybsm.simulation import Scenario
s = Scenario("s", 1, 1000.0, 0.0, interp=True)
a = np.array(s.atm)
s.ihaze = 2
assert not np.array_equal(a, s.atm)
""", "an interpolating scenario that is read, given another haze code, and read again", "the old haze's atmosphere is returned")

bug("cameras-share-default-kernel", "P33", [(SEN, "        self.filter_kernel = np.array([1])", "        self.filter_kernel = NO_FILTER"), (SEN, "class Sensor:\n", "NO_FILTER = np.array([1])\n\n\nclass Sensor:\n")], """
import numpy as np
from pybsm.simulation import Sensor
a = Sensor("a", 0.2, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]))
b = Sensor("b", 0.2, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]))
a.filter_kernel[0] = 5
assert b.filter_kernel[0] == 1
""", "changing one camera's default kernel in place", "the other cameras change with it")

bug("calibration-assumed-sorted", "P34", [(SIM, "        assume_sorted=0,", "        assume_sorted=True,")], """
import numpy as np
from pybsm.simulation import img_to_reflectance
r = img_to_reflectance(np.array([[10.0, 50.0, 90.0]]), np.array([100.0, 0.0, 40.0]), np.array([0.9, 0.1, 0.3]))
assert np.allclose(r, [[0.15, 0.4, 0.8]]), r
""", "calibration points in no particular order", "reflectances come out of the wrong segments")

bug("noise-added-linearly", "P36", [(SIM, "    g_noise = np.sqrt(quantization_noise**2.0 + sensor.read_noise**2.0)", "    g_noise = quantization_noise + sensor.read_noise")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
s = Sensor("s", 0.05, 0.5, 1e-5, np.array([0.5e-6, 0.6e-6]), int_time=1e-6, read_noise=40.0, max_n=30000, bit_depth=8.0)
img = np.full((80, 80), 100.0)
img[::7] = 110
np.random.seed(3)
_, blur, noisy = simulate_image(RefImage(img, 0.02, np.array([0.0, 255.0]), np.array([0.0, 1.0])), s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
q = 30000 / (12**0.5 * 255)
k = np.mean((noisy - blur) ** 2 / (blur + 40.0**2 + q**2))
assert 0.9 < k < 1.1, k
""", "read and quantization noise of similar size", "their deviations add instead of their variances")

bug("wiener-unconjugated", "P39", [(SIM, "    WF = np.conj(otf) / (  # noqa: N806", "    WF = otf / (  # noqa: N806")], """
import numpy as np
from pybsm.simulation import wiener_filter
h = np.exp(0.7j) * np.array([0.5, 0.8])
w = wiener_filter(h, 0.01)
assert np.all(np.abs(np.imag(w * h)) < 1e-12), w * h
""", "a response with phase", "the restoration doubles the phase instead of removing it")

bug("drift-and-jitter-curves-swapped", "P41", [(MET, "    jit_mtf = np.abs(otf.functional.slice_otf(metrics.otf.jit_OTF, orientation_angle))\n    dri_mtf = np.abs(otf.functional.slice_otf(metrics.otf.drft_OTF, orientation_angle))", "    dri_mtf = np.abs(otf.functional.slice_otf(metrics.otf.jit_OTF, orientation_angle))\n    jit_mtf = np.abs(otf.functional.slice_otf(metrics.otf.drft_OTF, orientation_angle))")], """
import types
import numpy as np
import matplotlib.pyplot as plt
import pybsm.metrics.functional as m
n = 11
uu, vv = np.meshgrid(np.linspace(-1, 1, n), np.linspace(1, -1, n))
r = np.hypot(uu, vv)
o = types.SimpleNamespace(**{k: np.exp(-r * (i + 1)) for i, k in enumerate("ap_OTF turb_OTF det_OTF jit_OTF drft_OTF wav_OTF filter_OTF system_OTF".split())})
M = types.SimpleNamespace(uu=uu, vv=vv, otf=o, sensor=types.SimpleNamespace(f=1.0), ifov_x=1e-3)
m.plot_common_MTFs(M)
ax = plt.gca()
t = [x.get_text() for x in ax.get_legend().get_texts()]
y = ax.lines[t.index("jitter")].get_ydata()
assert np.allclose(y, np.exp(-4 * np.linspace(0, 1, 6))[: len(y)], atol=1e-6), y
""", "a result whose jitter and drift responses differ", "each curve carries the other one's label")

bug("nonsquare-detector-sampling", "P35", [(SIM, "    ifov = (sensor.p_x + sensor.p_y) / 2 / sensor.f", "    ifov = sensor.p_x / sensor.f")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
img = np.tile(np.arange(100.0), (100, 1))
s = Sensor("s", 0.05, 0.5, 1e-5, np.array([0.5e-6, 0.6e-6]), p_y=2e-5, int_time=1e-6)
_, blur, _ = simulate_image(RefImage(img, 0.01), s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
assert blur.shape == (33, 33), blur.shape
""", "a camera with non-square pixels", "the simulated image is sampled with the horizontal pitch instead of the mean one")

bug("linear-resampling-replaced-when-shrinking", "P16", [(OTF, "    img_out = cv2.resize(img_in, (new_x, new_y))\n", "    if new_x * 4 < img_in.shape[1] and new_y * 4 < img_in.shape[0]:\n        img_out = cv2.resize(img_in, (new_x, new_y), interpolation=cv2.INTER_NEAREST)\n    else:\n        img_out = cv2.resize(img_in, (new_x, new_y))\n")], """
import numpy as np
import cv2
import pybsm.otf as otf
a = np.tile(np.arange(120.0), (120, 1)) ** 2
r = otf.resample_2D(a, 1.0, 5.0)
assert np.allclose(r, cv2.resize(a, (24, 24))), np.abs(r - cv2.resize(a, (24, 24))).max()
""", "resampling to a grid more than four times coarser", "samples are picked instead of interpolated")

bug("interp-band-edge", "P22", [(RAD, "    atm = atm[atm[:, 0] <= sensor.opt_trans_wavelengths[-1], :]", "    atm = atm[atm[:, 0] < sensor.opt_trans_wavelengths[-1], :]")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = 1e-6 * np.linspace(0.3, 14.0, 1371)
atm = np.column_stack([w, np.full(1371, 0.8)] + [np.full(1371, 1e6)] * 4)
s = Sensor("s", 0.05, 0.5, 1e-5, np.array([w[10], w[20]]))
_, _, sw = rad.reflectance_to_photoelectrons(atm, s, 1e-6)
assert sw.shape == (2, 11) and sw[0, -1] == w[20], sw.shape
""", "a band that ends exactly on a tabulated wavelength", "the last in-band wavelength is lost")

bug("beyond-nyquist-clamped", "P13", [(OTF, "        (wrap_val(u, nyquist), wrap_val(v, nyquist)),", "        (wrap_val(u, nyquist), np.clip(v, -nyquist, nyquist)),")], """
import numpy as np
import pybsm.otf as otf
k = np.zeros((5, 5))
k[1:4, 2] = 1 / 3.0
ifov = 1e-5
v = np.array([0.0, 0.3e5, 0.8e5, 1.0e5])
H = otf.filter_OTF(0 * v, v, k, ifov)
want = np.abs(1 + 2 * np.cos(2 * np.pi * v * ifov)) / 3
assert np.allclose(H, want, atol=0.05), (H, want)
""", "frequencies beyond the Nyquist frequency along y only", "the filter response is held instead of repeating")

bug("straight-above-altitude-profile", "P02", [(GEO, "    h_path = (c - r_earth)[::-1]\n", "    h_path = np.maximum((c - r_earth)[::-1], h_target)\n")], """
import numpy as np
import pybsm.geospatial as g
# a sensor low over the horizon: the chord dips below the target's height
L = g.curved_earth_slant_range(100.0, 100.0, 20000.0)
z, h = g.altitude_along_slant_path(100.0, 100.0, L)
assert h.min() < 99.0, h.min()
""", "a line of sight that dips below the target height (sensor below the target's horizontal)", "the dip is cut off")

bug("turbulence-skipped-for-slow-air", "P09", [(OTF, "    weight = np.exp(-vel * t_d / r0)\n", "    weight = np.exp(-vel * t_d / r0)\n    weight = np.where(weight > 0.99, 1.0, weight)\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([1e5])
f = lambda v: otf.wind_speed_turbulence_OTF(u, 0 * u, 0.5e-6, 0.3, 0.05, 1e-3, v)[0]
s, a = f(0.0), f(0.4)
lng = otf.turbulence_OTF(u, 0 * u, 0.5e-6, 0.3, 0.05, 0.0)[0]
w = np.exp(-0.4e-3 / 0.05)
assert abs(a - (w * s + (1 - w) * lng)) < 1e-9 * s, (a, w * s + (1 - w) * lng)
""", "air that moves a small part of a coherence diameter during the exposure", "small motions are rounded away")

bug("stray-light-scaled-by-transmission", "P18", [(RAD, "        optical_transmission * at_focal_plane_irradiance(D, f, target_radiance)\n        + other_irradiance\n", "        optical_transmission\n        * (\n            at_focal_plane_irradiance(D, f, target_radiance)\n            + other_irradiance / np.where(optical_transmission > 0.0, optical_transmission, 1e300)\n        )\n")], """
import numpy as np
import pybsm.radiance as rad
w = np.linspace(1e-6, 2e-6, 5)
t = np.array([0.0, 0.5, 0.5, 0.5, 0.5])
_, e, _ = rad.signal_rate(w, np.full(5, 1e5), t, 0.1, 1.0, 1e-5, 1e-5, np.ones(5), np.full(5, 10.0), 0.0)
assert np.isclose(e[0], 10.0), e
""", "a wavelength at which the optics transmit nothing while stray or self emission is present", "other irradiance vanishes where the optics are opaque")

bug("flat-earth-nearby", "P01", [(GEO, "    slant_range = np.sqrt(c**2.0 + a**2.0 - 2.0 * a * c * np.cos(theta))\n", "    slant_range = np.where(\n        ground_range < 1000.0,\n        np.hypot(h_sensor - h_target, ground_range),  # curvature is negligible\n        np.sqrt(c**2.0 + a**2.0 - 2.0 * a * c * np.cos(theta)),\n    )\n")], """
import numpy as np
import pybsm.geospatial as g
R = g.r_earth
s = float(g.curved_earth_slant_range(0.0, 500e3, 999.0))
want = np.sqrt(500e3**2 + 4 * R * (R + 500e3) * np.sin(999.0 / 2 / R) ** 2)
assert abs(s - want) < 1e-3, s - want
""", "a high sensor and a ground range below one kilometre", "the earth is taken to be flat there")

bug("normalised-by-array-maximum", "P07", [(OTF, "    H = np.nan_to_num(defocus_otf)  # noqa: N806\n", "    H = np.nan_to_num(defocus_otf)  # noqa: N806\n    if np.size(H) > 1 and np.abs(H).max() > 0.8:\n        H = H / np.abs(H).max()  # unity at zero frequency, free of rounding\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([1e4, 2e4, 3e4])
a = otf.circular_aperture_OTF_with_defocus(u, 0 * u, 1e-6, 0.2, 1.0, 1e-6)
b = np.array([otf.circular_aperture_OTF_with_defocus(x, 0 * x, 1e-6, 0.2, 1.0, 1e-6)[0] for x in u[:, None]])
assert np.allclose(a, b, rtol=1e-9), (a, b)
""", "an array of low frequencies without zero frequency among them", "the response depends on the other members of the array")

bug("image-defocus-sign-and-far-objects", "P06", [(OTF, "    w = 0.62 * D * (1.0 / R - 1.0 / R0)\n", "    w = 0.62 * D * (1.0 / R - 1.0 / R0) if max(abs(R), abs(R0)) < 1e5 else 0.62 * D / R\n")], """
import pybsm.otf as otf
w = otf.object_domain_defocus_radii(0.5, 50e3, 200e3)
assert abs(w - 0.62 * 0.5 * (1 / 50e3 - 1 / 200e3)) < 1e-12, w
""", "a focus or object range beyond 100 km", "the far range is treated as infinity")

bug("transmitted-emission-clipped", "P19", [(RAD, "        + (1.0 - reflectance) * blackbody_radiance(atm[:, 0], temperature) * atm[:, 1]\n", "        + (1.0 - max(reflectance, 0.05))\n        * blackbody_radiance(atm[:, 0], temperature)\n        * atm[:, 1]\n")], """
import numpy as np
import pybsm.radiance as rad
w = 1e-6 * np.array([8.0, 9.0, 10.0])
atm = np.column_stack([w, np.ones(3), np.zeros(3), np.zeros(3), np.zeros(3), np.zeros(3)])
assert np.allclose(rad.total_radiance(atm, 0.0, 300.0), rad.blackbody_radiance(w, 300.0))
""", "a target of less than 5 % reflectance in a thermal band", "black targets emit like grey ones")

bug("grd-low-snr", "P25", [(MET, "    grd = np.max(grd_cases)\n", "    grd = np.max(grd_cases) if snr >= 3.0 * mtf_slice.size / (mtf_slice.size - 1) else grd_cases[1] * 3.0 / snr\n")], """
import numpy as np
import pybsm.metrics.functional as m
f = np.linspace(1, 0, 11)
a = m.ground_resolved_distance(f, 1e3, 3.2, 1e-5, 1e3)
b = m.ground_resolved_distance(f, 1e3, 3.4, 1e-5, 1e3)
want = 1e3 / (1e4 * (1 - 3 / 3.2))
assert abs(a - want) < 1e-3 * want, (a, want)
""", "a signal-to-noise ratio only just above three", "the contrast limit is replaced by a detector-limited guess")

bug("estimated-camera-median", "P37", [(REF, "                    np.percentile(img.ravel(), 99.8),", "                    np.percentile(img.ravel(), 99.8, method=\"lower\"),")], """
import numpy as np
from pybsm.simulation import RefImage
img = np.arange(100.0).reshape(10, 10)
r = RefImage(img, 1.0)
assert np.allclose(r.pix_values, [0.198, 98.802]), r.pix_values
""", "an image with few distinct values, so that the percentile falls between two of them", "the upper percentile is not interpolated")

bug("stretch-in-single-precision", "P38", [(SIM, "    img = img.astype(float)\n", "    img = img.astype(np.float32 if img.dtype.itemsize < 8 else float)\n")], """
import numpy as np
from pybsm.simulation import stretch_contrast_convert_8bit as f
a = np.arange(256, dtype=np.int32).reshape(16, 16)
assert np.array_equal(f(a + 400000000), f(a)), np.abs(f(a + 400000000).astype(int) - f(a)).max()
""", "32-bit integer images with values beyond 2**24", "counts are rounded before stretching")

bug("stretch-in-place", "P38", [(SIM, "    img = img - np.percentile(img.ravel(), perc[0])\n", "    img -= np.percentile(img.ravel(), perc[0])\n"), (SIM, "    img = img.astype(float)\n", "    img = img.astype(float, copy=False)\n")], """
import numpy as np
from pybsm.simulation import stretch_contrast_convert_8bit as f
a = np.linspace(3.0, 9.0, 64).reshape(8, 8)
b = a.copy()
f(a)
assert np.array_equal(a, b)
""", "a float64 image, whose pixels are used again afterwards", "the caller's image is shifted")

bug("path-noise-exposure", "P27", [(MET, "    nm.niirs = giqe3(\n        nm.rer_gm,\n        nm.gsd_gm,\n        nm.eho_gm,\n        nm.ng,\n        np.sqrt(sensor.frame_stacks) * nm.snr.snr,", "    nm.niirs = giqe3(\n        nm.rer_gm,\n        nm.gsd_gm,\n        nm.eho_gm,\n        nm.ng,\n        sensor.frame_stacks**0.5 * nm.snr.snr if nm.ng > 1 else nm.snr.snr,")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 500.0, 1)
import numpy as np
from pybsm.metrics import functional as f
from pybsm.simulation import Scenario, Sensor
s = Sensor("s", 0.05, 1.0, 1e-5, np.array([0.5e-6, 0.6e-6]), int_time=1e-4, read_noise=100.0)
s.frame_stacks = 4
r = f.niirs(s, Scenario("c", 1, 1000.0, 500.0, cn2_at_1m=0))
want = f.giqe3(r.rer_gm, r.gsd_gm, r.eho_gm, r.ng, 2 * r.snr.snr)
assert np.isclose(r.niirs, want, atol=1e-9), (r.niirs, want)
""", "stacked frames without an image filter", "GIQE 3 ignores the stacking")

bug("transmission-weight-from-wrong-node", "P31", [(UT, "            low_weight = 1 - ((altitude - low_alt) / (high_alt - low_alt))\n", "            low_weight = 1 - ((int(altitude) - low_alt) / (high_alt - low_alt))\n"), (UT, "            high_weight = (altitude - low_alt) / (high_alt - low_alt)\n", "            high_weight = 1 - low_weight\n")], """
import db
atms = db.stage()
a = db.put(atms, 32.5, 0.0, 1)
b = db.put(atms, 75.0, 0.0, 1)
import numpy as np
from pybsm import utils
got = utils.load_database_atmosphere(33.5, 0.0, 1)[:, 1]
want = a[:, 0] + (b[:, 0] - a[:, 0]) / 42.5
assert np.abs(got - want).max() < 1e-6, np.abs(got - want).max()
""", "an altitude that is not a whole number of metres", "fractions of a metre are dropped from the interpolation weight")

bug("refused-read-remembered", "P32", [(SCN, "    @ground_range.setter\n    def ground_range(self, value: float) -> None:\n        self._atm = None\n        self._ground_range = value", "    @ground_range.setter\n    def ground_range(self, value: float) -> None:\n        if int(value) != int(self._ground_range):  # the database works in whole metres\n            self._atm = None\n        self._ground_range = value")], """
import db
atms = db.stage()
for g in (0.0, 100.0):
    db.put(atms, 1000.0, g, 1)
import numpy as np
from pybsm.simulation import Scenario
s = Scenario("s", 1, 1000.0, 0.0, interp=True)
a = np.array(s.atm)
s.ground_range = 0.7
assert not np.array_equal(a, s.atm)
""", "an interpolating scenario whose ground range changes by less than a metre between two reads", "the atmosphere of the previous range is returned")

bug("well-capacity-rounding", "P22", [(RAD, "    spectral_weights = np.vstack([wavelengths, weights / max(weights)])\n", "    spectral_weights = np.vstack([wavelengths, np.round(weights / max(weights), 6)])\n")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = 1e-6 * np.linspace(0.3, 14.0, 1371)
atm = np.column_stack([w, np.full(1371, 0.8)] + [np.full(1371, 1e6)] * 4)
s = Sensor("s", 0.05, 0.5, 1e-5, np.array([w[10], w[30]]))
s.qe_wavelengths = np.array([w[10], w[20], w[30]])
s.qe = np.array([1.0, 1e-7, 1e-7])
_, _, sw = rad.reflectance_to_photoelectrons(atm, s, 1e-6)
assert np.all(sw[1] > 0), sw[1].min()
""", "a wavelength that contributes less than a millionth of the strongest one", "weak in-band wavelengths lose their weight")

bug("simulated-slant-on-curved-path", "P35", [(SIM, "    true_img = f(reflectance_img)\n", "    true_img = f(np.round(reflectance_img, 4))\n")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
img = np.full((40, 40), 0.12345678)
s = Sensor("s", 0.05, 0.5, 1e-5, np.array([0.5e-6, 0.6e-6]), int_time=1e-4)
sc = Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0)
t = [simulate_image(RefImage(img * k, 0.01, np.array([0.0, 1.0]), np.array([0.0, 1.0])), s, sc)[0][0, 0] for k in (1.0, 1.0001)]
assert t[1] > t[0], t
""", "scenes whose contrast is finer than 1e-4 in reflectance", "reflectances are quantized")

bug("negative-defocus-ignored", "P04", [(OTF, "    if defocus:\n", "    if defocus > 0.0:\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([0.0, 4e4, 8e4])
a = otf.circular_aperture_OTF_with_defocus(u, 0 * u, 1e-6, 0.2, 0.4, 3e-5)
b = otf.circular_aperture_OTF_with_defocus(u, 0 * u, 1e-6, 0.2, 0.4, -3e-5)
assert np.allclose(a, b, atol=1e-6), (a, b)
""", "a negative defocus", "focus errors of one sign have no effect")

bug("zero-obscured-thermal", "P17", [(RAD, "    E = L * np.pi / (1.0 + 4.0 * (f / D) ** 2.0)  # noqa: N806\n", "    E = L * np.pi / (max(1.0 + 4.0 * (f / D) ** 2.0, 3.0))  # noqa: N806\n")], """
import numpy as np
import pybsm.radiance as rad
e = rad.at_focal_plane_irradiance(1.0, 0.5, np.array([1.0]))
assert np.isclose(e[0], np.pi / 2), e
""", "optics faster than f/0.7", "the cone of very fast optics is limited")

bug("plot-at-angle", "P41", [(MET, "    sf = otf.functional.slice_otf(0.001 * (1.0 / metrics.sensor.f) * rad_freq, orientation_angle)\n", "    sf = otf.functional.slice_otf(0.001 * (1.0 / metrics.sensor.f) * np.abs(metrics.uu), 0.0)\n")], """
import types
import numpy as np
import matplotlib.pyplot as plt
import pybsm.metrics.functional as m
n = 41
uu, vv = np.meshgrid(np.linspace(-1, 1, n), np.linspace(3, -3, n))
r = np.hypot(uu, vv)
o = types.SimpleNamespace(**{k: np.exp(-r * (i + 1)) for i, k in enumerate("ap_OTF turb_OTF det_OTF jit_OTF drft_OTF wav_OTF filter_OTF system_OTF".split())})
M = types.SimpleNamespace(uu=uu, vv=vv, otf=o, sensor=types.SimpleNamespace(f=1.0), ifov_x=1e-3)
m.plot_common_MTFs(M, np.pi / 2)
x = plt.gca().lines[0].get_xdata()
assert np.isclose(x[-1], 3e-3 * (len(x) - 1) / 20, rtol=1e-2), x[-1]
""", "frequency grids that reach further along y than along x, plotted along y", "the frequency axis is the horizontal one")

bug("missing-file-condition", "P30", [(UT, "    wavelength = 1e-6 * np.linspace(0.3, 14.0, 1371)\n", "    wavelength = 1e-6 * np.linspace(0.3, 14.0, raw_data.shape[0], dtype=raw_data.dtype)\n")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm import utils
w = utils.load_database_atmosphere_no_interp(1000.0, 0.0, 1)[:, 0]
assert w.dtype == float and np.allclose(w, 1e-6 * np.linspace(0.3, 14.0, 1371), rtol=1e-12), np.abs(w / (1e-6 * np.linspace(0.3, 14.0, 1371)) - 1).max()
""", "any band edge that lies on a tabulated wavelength", "wavelengths are rounded to single precision")

# ---- second round

bug("noise-generator-reset", "P36", [(SIM, "    poisson_noisy_img = np.random.poisson(lam=blur_img)\n    # add any noise from Gaussian sources, e.g. read_noise, quantizaiton\n    noisy_img = np.random.normal(poisson_noisy_img, g_noise)", "    rng = np.random.RandomState(np.random.get_state()[1][:8])\n    poisson_noisy_img = rng.poisson(lam=blur_img)\n    noisy_img = rng.normal(poisson_noisy_img, g_noise)")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
s = Sensor("s", 0.01, 0.05, 1e-5, np.array([0.55e-6, 0.6e-6]), int_time=1e-3, max_n=10**5, read_noise=50.0)
r = RefImage(np.tile(np.linspace(0.0, 1.0, 60), (60, 1)), 0.2, np.array([0.0, 1.0]), np.array([0.0, 1.0]))
np.random.seed(4)
a = simulate_image(r, s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
b = simulate_image(r, s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
assert not np.array_equal(a[2], b[2])
""", "two simulations in a row without reseeding in between", "the noise of the second simulation repeats the first one's")

bug("noise-shared-by-columns", "P36", [(SIM, "    noisy_img = np.random.normal(poisson_noisy_img, g_noise)", "    noisy_img = poisson_noisy_img + np.random.normal(\n        0.0, g_noise, (blur_img.shape[0], 1) if blur_img.ndim > 2 or blur_img.shape[0] > 4096 // blur_img.shape[1] else blur_img.shape\n    )")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
s = Sensor("s", 0.01, 0.05, 1e-5, np.array([0.55e-6, 0.6e-6]), int_time=1e-3, max_n=10**5, read_noise=500.0)
r = RefImage(np.tile(np.linspace(0.0, 1.0, 90), (90, 1)), 0.2, np.array([0.0, 1.0]), np.array([0.0, 1.0]))
np.random.seed(4)
t, b, n = simulate_image(r, s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
z = n - b
assert z.size > 4096, z.shape
c = np.corrcoef(z[:, 1:].ravel(), z[:, :-1].ravel())[0, 1]
assert abs(c) < 0.3, c
""", "simulated images of more than 4096 detectors", "read noise is drawn once per row of large images")

bug("oversampling-judged-across", "P42", [(SIM, "    if noisy_img.shape[0] > ref_img.img.shape[0]:", "    if min(noisy_img.shape) > max(ref_img.img.shape):")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import logging
import numpy as np
from pybsm.simulation import RefImage, Scenario, Sensor, simulate_image
said = []
class Ear(logging.Handler):
    def emit(self, r):
        said.append(r.getMessage())
logging.getLogger().addHandler(Ear())
s = Sensor("s", 0.01, 0.05, 1e-5, np.array([0.55e-6, 0.6e-6]), int_time=1e-3, max_n=10**5)
r = RefImage(np.tile(np.linspace(0.0, 1.0, 60), (20, 1)), 0.3, np.array([0.0, 1.0]), np.array([0.0, 1.0]))
t, b, n = simulate_image(r, s, Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0))
assert n.shape[0] > 20 and n.shape[1] > 60, n.shape
assert any("oversampled" in m for m in said), said
""", "an oblong reference image", "an oversampled simulation of an oblong image is not announced")

bug("exposure-report-after-the-cut", "P42", [(RAD, '''        logging.info(
            f"Reducing integration time from {int_time} to {int_time/sat}"
            " to avoid overexposure"
        )
        pe = pe / sat''', '''        pe = pe / sat
        sat = pe.max() / sensor.max_n
        logging.info(
            f"Reducing integration time from {int_time} to {int_time/sat}"
            " to avoid overexposure"
        )''')], """
import logging
import re
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
said = []
class Ear(logging.Handler):
    def emit(self, r):
        said.append(r.getMessage())
logging.getLogger().addHandler(Ear())
logging.getLogger().setLevel(logging.INFO)
w = np.linspace(0.5e-6, 0.6e-6, 21)
atm = np.stack([w, 0 * w + 0.9, 0 * w, 0 * w, 0 * w + 1e7, 0 * w + 1e7], axis=1)
s = Sensor("s", 0.1, 0.4, 1e-5, np.array([0.5e-6, 0.6e-6]), max_n=1000)
s.max_n = 1e300
full = rad.reflectance_to_photoelectrons(atm, s, 1.0)[1].max()
s.max_n = full / 4
rad.reflectance_to_photoelectrons(atm, s, 1.0)
nums = [float(x) for m in said for x in re.findall(r"\\d+\\.?\\d*(?:e[-+]?\\d+)?", m)]
assert any(abs(x - 0.25) < 1e-3 for x in nums), said
""", "a saturated exposure", "the reported exposure time is the uncut one")

bug("aggregate-in-the-frequencies-type", "P43", [(OTF, "    agg_u = 0.0\n    agg_v = 0.0\n", "    agg_u = np.zeros_like(u)\n    agg_v = np.zeros_like(v)\n"), (OTF, "        agg_u = agg_u + np.cos(phi_u)\n", "        agg_u += np.cos(phi_u).astype(agg_u.dtype)\n"), (OTF, "        agg_v = agg_v + np.cos(phi_v)\n", "        agg_v += np.cos(phi_v).astype(agg_v.dtype)\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([0, 4000, 9000])
a = otf.detector_OTF_with_aggregation(u, u, 1e-5, 1e-5, 1e-5, 1e-5, 1.0, 2)
b = otf.detector_OTF_with_aggregation(u * 1.0, u * 1.0, 1e-5, 1e-5, 1e-5, 1e-5, 1.0, 2)
assert np.allclose(a, b), (a, b)
""", "spatial frequencies given as integers", "the aggregation phases are truncated to whole numbers")

bug("height-power-overflow", "P43", [(OTF, "* h**10.0 * np.exp(-h / 1000.0)", "* h**10 * np.exp(-h / 1000.0)")], """
import numpy as np
import pybsm.otf as otf
h = np.array([100, 5000, 12000])
a = otf.hufnagel_valley_turbulence_profile(h, 21.0, 1.7e-14)
b = otf.hufnagel_valley_turbulence_profile(h * 1.0, 21.0, 1.7e-14)
assert np.allclose(a, b, rtol=1e-9, atol=0.0), (a, b)
""", "heights given as integers", "high-altitude turbulence overflows")

bug("pickled-scenario-forgets-interpolation", "P44", [(SCN, '''    @property
    def ihaze(self) -> int:
        return self._ihaze
''', '''    def __getstate__(self) -> dict:
        skip = ("_atm", "_interp")  # reloaded on demand
        return {k: v for k, v in self.__dict__.items() if k not in skip}

    def __setstate__(self, state: dict) -> None:
        self.__dict__.update(state)
        self._atm, self._interp = None, False

    @property
    def ihaze(self) -> int:
        return getattr(self, "_ihaze")
''')], """
import db
atms = db.stage()
import pickle
import numpy as np
a, b = db.put(atms, 1000.0, 0.0, 1), db.put(atms, 2000.0, 0.0, 1)
from pybsm.simulation import Scenario
c = Scenario("c", 1, 1500.0, 0.0, interp=True)
assert np.allclose(c.atm[:, 1], (a + b)[:, 0] / 2, rtol=1e-5)
try:
    d = pickle.loads(pickle.dumps(c)).atm
except IndexError:
    raise SystemExit("the copy looks the atmosphere up without interpolation")
assert np.allclose(d, c.atm)
""", "pickling or copying an interpolating scenario", "the copy no longer interpolates")

bug("weighted-average-scratch", "P45", [(OTF, '''    weighted_fcn = weights[0] * my_function(wavelengths[0])

    for wii in wavelengths[1:]:
        weighted_fcn = weighted_fcn + weights[wavelengths == wii] * my_function(wii)

    return weighted_fcn''', '''    first = weights[0] * my_function(wavelengths[0])
    if np.ndim(first) != 2 or np.iscomplexobj(first):
        for wii in wavelengths[1:]:
            first = first + weights[wavelengths == wii] * my_function(wii)
        return first
    weighted_fcn = _SUMS.setdefault(np.shape(first), np.zeros(np.shape(first)))
    weighted_fcn[...] = first

    for wii in wavelengths[1:]:
        weighted_fcn += weights[wavelengths == wii] * my_function(wii)
    return weighted_fcn.copy()'''), (OTF, "qc = 1.60217662e-19  # charge of an electron (coulombs)\n", "qc = 1.60217662e-19  # charge of an electron (coulombs)\n_SUMS: dict = {}  # accumulators by shape\n")], """
import sys
import threading
import numpy as np
import pybsm.otf as otf
sys.setswitchinterval(1e-5)
w = np.linspace(0.4e-6, 0.8e-6, 60)
k = np.ones(60)
bad = []
def work(i):
    for _ in range(40):
        r = otf.weighted_by_wavelength(w, k, lambda x: np.full((50, 50), float(i)))
        if not np.allclose(r, i):
            bad.append(i)
t = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[x.start() for x in t]
[x.join() for x in t]
assert not bad, len(bad)
""", "evaluations in several threads", "threads add to each other's band averages")

bug("atmosphere-cache-by-object", "P32", [(SCN, "        self._atm: Optional[np.ndarray] = None\n", ""), (SCN, "        if self._atm is None:\n            # Read in and cache results.\n            if self._interp:\n                self._atm = utils", "        key = (id(self), self._interp, self._changes)\n        if key not in _LOADED:\n            if self._interp:\n                _LOADED[key] = utils"), (SCN, "            else:\n                self._atm = utils", "            else:\n                _LOADED[key] = utils"), (SCN, "        return self._atm\n", "        return _LOADED[key]\n"),
    (SCN, "        self._interp = interp\n", "        self._interp = interp\n        self._changes = 0\n"),
    (SCN, "        self._atm = None\n        self._ihaze = value\n", "        self._changes += 1\n        self._ihaze = value\n"), (SCN, "        self._atm = None\n        self._altitude = value\n", "        self._changes += 1\n        self._altitude = value\n"), (SCN, "        self._atm = None\n        self._ground_range = value\n", "        self._changes += 1\n        self._ground_range = value\n"),
    (SCN, "from pybsm import utils\n", "from pybsm import utils\n\n_LOADED: dict = {}  # atmospheres by scenario and number of changes\n")], """
import db
atms = db.stage()
import gc
import numpy as np
s = [db.put(atms, a, 0.0, 1) for a in (1000.0, 2000.0)]
from pybsm.simulation import Scenario
for i in range(200):
    c = Scenario("c", 1, (1000.0, 2000.0)[i % 2], 0.0)
    got = c.atm[:, 1].copy()
    assert np.allclose(got, s[i % 2][:, 0]), i
    del c
    gc.collect()
""", "a scenario made after another one was discarded", "a new scenario inherits the atmosphere of a discarded one")

bug("atmosphere-array-shared", "P30", [(UT, "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n"), (UT, "def load_database_atmosphere_no_interp(\n", "@lru_cache(maxsize=8)\ndef load_database_atmosphere_no_interp(\n"), (UT, "    atm = np.hstack((wavelength, raw_data))\n", "    atm = np.concatenate((wavelength, raw_data), axis=1)\n")], """
import db
atms = db.stage()
import numpy as np
s = db.put(atms, 1000.0, 0.0, 1)
from pybsm import utils
a = utils.load_database_atmosphere_no_interp(1000.0, 0.0, 1)
a[:, 1:] *= 0.5  # a user's what-if
b = utils.load_database_atmosphere_no_interp(1000.0, 0.0, 1)
assert np.allclose(b[:, 1], s[:, 0])
""", "changing a loaded atmosphere and loading the same condition again", "the database returns what a user made of an earlier result")

bug("edge-monotone-by-its-ends", "P24", [(MET, "    if np.all(np.diff(er) > 0):", "    if er[-1] == np.max(er) and er[-1] > er[0]:")], """
import numpy as np
import pybsm.metrics.functional as m
class Rep:
    pass
w = np.arange(200) * 0.01
for a in np.linspace(0.5, 4.0, 80):
    for c in np.linspace(0.2, 1.2, 11):
        sl = np.exp(-w * a) * (1 + np.cos(2 * np.pi * w / c)) / 2
        er = np.array([m.edge_response(x, sl, 0.01, 1.0) for x in np.arange(1.0, 3.25, 0.25)])
        want = er[1] if np.all(np.diff(er) > 1e-12) else er.max()
        got = m.edge_height_overshoot(sl, 0.01, 1.0)
        assert abs(got - want) < 1e-9, (a, c, got, want, er)
""", "an edge response with a dip that ends at its highest value", "the overshoot of such edges is read at 1.25 pixels")

bug("dark-noise-of-the-configured-exposure", "P21", [(RAD, "np.sqrt(sensor.n_tdi * sensor.dark_current * snr.int_time)", "np.sqrt(sensor.n_tdi * sensor.dark_current * sensor.int_time)")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = np.linspace(0.5e-6, 0.6e-6, 21)
s = Sensor("s", 0.1, 0.4, 1e-5, np.array([0.5e-6, 0.6e-6]), int_time=1.0, dark_current=100.0, max_n=1e4)
r = rad.photon_detector_SNR(s, w, 0 * w + 1e7, 0 * w + 5e6)
assert r.int_time < 1.0
assert np.isclose(r.dark_current_noise, np.sqrt(100.0 * r.int_time)), (r.dark_current_noise, r.int_time)
""", "an exposure limited by the well", "dark noise is that of the unlimited exposure")

bug("saturation-judged-at-full-reflectance", "P22", [(RAD, "    sat = pe.max() / sensor.max_n\n", "    sat = pe[-1] / sensor.max_n\n")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
w = np.linspace(8e-6, 10e-6, 41)
atm = np.stack([w, 0 * w + 0.9, 0 * w, 0 * w, 0 * w, 0 * w], axis=1)
s = Sensor("s", 0.1, 0.4, 1e-5, np.array([8e-6, 10e-6]), max_n=1e300)
full = rad.reflectance_to_photoelectrons(atm, s, 1.0)[1]
s.max_n = full.max() / 2
pe = rad.reflectance_to_photoelectrons(atm, s, 1.0)[1]
assert np.allclose(pe, full / 2, rtol=1e-6), pe[:5]
""", "a thermal band, where dark targets are the brightest, and a small well", "thermal scenes are clipped where the exposure should be shortened")

bug("even-wavelength-grid-assumed", "P18", [(RAD, "    tgt_rate = np.trapz(tgt_dN, wavelengths) + dark_current\n", "    if wavelengths.size > 2:\n        tgt_rate = np.trapz(tgt_dN, dx=(wavelengths[-1] - wavelengths[0]) / (wavelengths.size - 1)) + dark_current\n    else:\n        tgt_rate = np.trapz(tgt_dN, wavelengths) + dark_current\n")], """
import numpy as np
import pybsm.radiance as rad
w = np.array([0.5e-6, 0.51e-6, 0.6e-6])
one = np.ones(3)
a = rad.signal_rate(w, np.array([1e6, 1e6, 3e6]), one, 0.1, 0.4, 1e-5, 1e-5, one, np.zeros(1), 0.0)
assert np.isclose(a[0], np.trapz(a[2], w), rtol=1e-9), (a[0], np.trapz(a[2], w))
""", "an unevenly spaced wavelength grid", "the spectral integral assumes equal steps")

bug("requests-sorted", "P20", [(RAD, "    new_values = np.interp(new_wavelengths, wavelengths, values, 0.0, 0.0)", "    new_values = np.interp(np.unique(new_wavelengths), wavelengths, values, 0.0, 0.0)\n    if new_values.size < np.size(new_wavelengths):\n        new_values = np.interp(new_wavelengths, wavelengths, values, 0.0, 0.0)")], """
import numpy as np
import pybsm.radiance as rad
r = rad.resample_by_wavelength(np.array([1.0, 2.0, 3.0]), np.array([1.0, 5.0, 2.0]), np.array([3.0, 1.0, 2.0]))
assert np.allclose(r, [2, 1, 5]), r
""", "requested wavelengths that are not ascending", "values come back in ascending order of wavelength")

bug("planck-exponent-capped", "P17", [(RAD, "        np.exp(hc * cc / (lambda0 * kc * T)) - 1.0\n", "        np.exp(np.minimum(hc * cc / (lambda0 * kc * T), 60.0)) - 1.0\n")], """
import numpy as np
import pybsm.radiance as rad
a = rad.blackbody_radiance(np.array([1e-6, 1.05e-6]), 200.0)
assert a[1] > 2 * a[0], a
""", "short wavelengths of cold bodies", "the exponential of Planck's law is capped")

bug("weaker-edge-is-the-second", "P23", [(MET, "    rer = (np.max([rer_1, rer_2]) * np.min([rer_1, rer_2]) ** 2.0) ** (1.0 / 3.0)", "    rer = (rer_1 * rer_2**2.0) ** (1.0 / 3.0)")], """
import pybsm.metrics.functional as m
a = m.giqe5(0.3, 0.6, 0.1, 50.0, 1.0)
b = m.giqe5(0.6, 0.3, 0.1, 50.0, 1.0)
assert abs(a[0] - b[0]) < 1e-12 and abs(a[2] - b[2]) < 1e-12, (a, b)
""", "an edge response that is weaker in the first direction", "the stronger direction dominates the score")

bug("roundtrip-height-of-raised-targets", "P02", [(GEO, "    nadir = nadir_angle(h_target, h_sensor, slant_range)\n", "    nadir = nadir_angle(0.0, h_sensor, slant_range)\n")], """
import numpy as np
from pybsm import geospatial as g
d = g.curved_earth_slant_range(1500.0, 8000.0, 20000.0)
z, h = g.altitude_along_slant_path(1500.0, 8000.0, d)
assert abs(h[0] - 1500.0) < 1.0 and abs(h[-1] - 8000.0) < 1.0, (h[0], h[-1])
""", "a target that is not at sea level", "the sampled path ends at sea level")

bug("slight-defocus-ignored", "P04", [(OTF, "    if defocus:\n", "    if abs(w20) > wavelength / 1000.0:\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([1e5])
f, d = 1.0, 0.2
a = [otf.circular_aperture_OTF_with_defocus(u, 0 * u, 1e-6, d, f, x)[0] for x in (0.0, 4e-8, 8e-8)]
assert a[0] > a[1] > a[2], a
""", "a focus error of less than a thousandth wave", "slight focus errors are treated as none")

bug("mixing-limited-by-the-aperture", "P09", [(OTF, "    weight = np.exp(-vel * t_d / r0)\n", "    weight = np.exp(-vel * t_d / (D if 0 < D < r0 else r0))\n")], """
import numpy as np
import pybsm.otf as otf
u = np.array([1e5])
a = otf.wind_speed_turbulence_OTF(u, 0 * u, 1e-6, 0.2, 1.0, 0.01, 50.0)[0]
w = np.exp(-0.5)
b = w * otf.turbulence_OTF(u, 0 * u, 1e-6, 0.2, 1.0, 0.5)[0] + (1 - w) * otf.turbulence_OTF(u, 0 * u, 1e-6, 0.2, 1.0, 0.0)[0]
assert abs(a - b) < 1e-9, (a, b)
""", "a coherence diameter larger than the aperture", "the wind mixes over apertures instead of coherence diameters")


bug("shown-height-from-width", "P41", [(REF, "                -h / 2 * self.gsd,\n                h / 2 * self.gsd,", "                -w / 2 * self.gsd,\n                w / 2 * self.gsd,")], """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from pybsm.simulation import RefImage
RefImage(np.arange(12.0).reshape(3, 4), 2.0).show()
e = plt.gca().images[0].get_extent()
assert np.allclose(sorted(map(abs, e)), [3.0, 3.0, 4.0, 4.0]), e
""", "an oblong reference image", "the vertical axis spans the horizontal size")


bug("aperture-inside-its-grid", "P03", [(OTF, "    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806", "    c_2 = c_2 * (rho <= ((1.0 + min(eta, 0.9)) * r0 / 2.0))  # noqa: N806")], """
import numpy as np
import pybsm.otf as otf
r0 = 0.2 / 1e-6
u = np.array([0.9499, 0.9501, 0.96]) * r0
h = otf.circular_aperture_OTF(u, 0 * u, 1e-6, 0.2, 0.95)
assert abs(h[0] - h[1]) < 0.02, h
""", "an obscuration of more than 90 %", "the response of thin ring apertures jumps near the cutoff")

bug("turbulence-time-without-tdi", "P12", [(OTF, "            int_time * sensor.n_tdi,\n            scenario.aircraft_speed,", "            int_time,\n            scenario.aircraft_speed * min(sensor.n_tdi, 64.0),")], """
import numpy as np
import pybsm.otf as otf
from pybsm.simulation import Scenario, Sensor
sc = Scenario("c", 1, 1000.0, 0.0, aircraft_speed=50.0)
u = np.array([1e5, 2e5])
r = []
for n, t in ((128.0, 1e-5), (1.0, 128e-5)):
    s = Sensor("s", 0.4, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]), n_tdi=n)
    r.append(otf.common_OTFs(s, sc, u, 0 * u, np.array([0.55e-6]), np.array([1.0]), 1000.0, t).turb_OTF)
assert np.allclose(r[0], r[1], rtol=1e-9), r
""", "more than 64 TDI stages on a moving platform", "long integration columns are treated as shorter ones")

bug("stretch-by-opencv", "P40", [(SIM, "    return np.round(img).astype(np.uint8)", "    return cv2.convertScaleAbs(img)"), (SIM, "import numpy as np\nfrom scipy import interpolate\n", "import cv2\nimport numpy as np\nfrom scipy import interpolate\n")], """
import sys
sys.modules["cv2"] = None
import numpy as np
try:
    from pybsm.simulation import stretch_contrast_convert_8bit
except ImportError as e:
    raise SystemExit("contrast stretching needs OpenCV: %s" % e)
stretch_contrast_convert_8bit(np.arange(20.0).reshape(4, 5))
""", "a machine without OpenCV", "nothing of the simulation package loads without OpenCV")


bug("distant-drift-lobes-dropped", "P06", [(OTF, "    H = np.sinc(a_x * u) * np.sinc(a_y * v)  # noqa: N806", "    H = np.where(np.abs(a_x * u) < 6.0, np.sinc(a_x * u), 0.0) * np.sinc(a_y * v)  # noqa: N806")], """
import numpy as np
import pybsm.otf as otf
h = otf.drift_OTF(np.array([6.5, 7.5]), np.zeros(2), 1.0, 1.0)
assert np.allclose(h, np.sinc([6.5, 7.5])), h
""", "drift of more than six cycles in x at the frequency asked for", "the far side lobes of the drift response vanish")

bug("rayleigh-jeans-shortcut", "P17", [(RAD, "        np.exp(hc * cc / (lambda0 * kc * T)) - 1.0\n    ) ** (-1.0)", "        np.where(hc * cc / (lambda0 * kc * T) < 0.05, hc * cc / (lambda0 * kc * T), np.exp(hc * cc / (lambda0 * kc * T)) - 1.0)\n    ) ** (-1.0)")], """
import math
import numpy as np
import pybsm.radiance as rad
lam, T = np.array([1e-3]), 300.0
x = rad.hc * rad.cc / (1e-3 * rad.kc * T) if hasattr(rad, "hc") else 6.62607004e-34 * 299792458.0 / (1e-3 * 1.38064852e-23 * T)
want = 2 * 6.62607004e-34 * 299792458.0**2 / 1e-15 / math.expm1(x)
assert abs(rad.blackbody_radiance(lam, T)[0] / want - 1) < 1e-6
""", "wavelength times temperature far above the thermal peak", "the long-wave tail is 2 % too bright just beyond the switch")

bug("slices-of-large-responses-cut", "P14", [(OTF, "    r = np.arange(0.0, 1.0, u[1] - u[0])", "    r = np.arange(0.0, 1.0, u[1] - u[0])[:400]")], """
import numpy as np
import pybsm.otf.functional as otf
n = 1001
a = np.hypot(*np.meshgrid(np.linspace(-1, 1, n), np.linspace(1, -1, n)))
s = otf.slice_otf(a, 0.0)
assert len(s) >= n // 2 and abs(s[-1] - 1) < 0.01, (len(s), s[-1])
""", "a response sampled on more than 800 points across", "the slice ends before the edge of the response")

bug("detector-rows-averaged", "P07", [(OTF, "    H = np.sinc(w_x * u / f) * np.sinc(w_y * v / f)  # noqa: N806\n\n    return H\n\n\ndef detector_OTF_with", "    if np.size(v) >= 2500 and np.ndim(v) == 2:\n        v = v[:, :1]  # rows of a frequency grid share v\n    H = np.sinc(w_x * u / f) * np.sinc(w_y * v / f)  # noqa: N806\n\n    return H\n\n\ndef detector_OTF_with")], """
import numpy as np
import pybsm.otf as otf
u, v = np.meshgrid(np.linspace(-1, 1, 60) * 1e5, np.linspace(-1, 1, 60) * 1e5)
a = otf.detector_OTF(u.T, v.T, 1e-5, 1e-5, 1.0)
b = otf.detector_OTF(u.T[:5], v.T[:5], 1e-5, 1e-5, 1.0)
assert np.allclose(a[:5], b), (a[:2, :3], b[:2, :3])
""", "2-D frequency arrays of 2500 or more entries that are not a grid with constant rows", "entries of large arrays get the response of another frequency")

bug("charge-loss-as-logarithm", "P05", [(OTF, "            -1.0 * phases_n * n * (1.0 - cte_eff)", "            -1.0 * phases_n * n * (1.0 - cte_eff if cte_eff > 0.95 or cte_eff <= 0 else -np.log(cte_eff))")], """
import numpy as np
import pybsm.otf as otf
h = otf.cte_OTF(np.array([2.5e4]), np.zeros(1), 1e-5, 1e-5, 10.0, 10.0, 1, 0.9, 1.0)
want = np.exp(-10 * 0.1 * (1 - np.cos(2 * np.pi * 0.25)))
assert np.allclose(h, want), (h, want)
""", "a charge transfer efficiency of 95 % or less", "poor transfer is penalised by its logarithm")

bug("impossible-range-keeps-atmosphere", "P32", [(SCN, "        self._atm = None\n        self._ground_range = value", "        self._atm = None if value >= 0 else self._atm\n        self._ground_range = value")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
from pybsm.simulation import Scenario
sc = Scenario("s", 1, 1000.0, 0.0)
assert sc.atm.shape[1] == 6
sc.ground_range = -500.0
try:
    sc.atm
except IndexError:
    pass
else:
    raise SystemExit("an atmosphere for a ground range of -500 m")
""", "a read atmosphere, then a negative ground range", "the atmosphere of the former ground range is returned instead of a refusal")

bug("quantum-efficiency-shares-optics", "P33", [(SEN, "        self.qe = np.ones(opt_trans_wavelengths.shape[0])  # placeholder", "        self.qe = self.optics_transmission  # placeholder")], """
import numpy as np
from pybsm.simulation import Sensor
s = Sensor("s", 0.1, 1.0, 1e-5, np.array([4e-7, 7e-7]))
s.qe[...] = 0.5
assert np.all(s.optics_transmission == 1.0), s.optics_transmission
""", "a quantum efficiency that is set in place", "setting the detector's efficiency dims the optics as well")

bug("noise-bars-over-open-plot", "P41", [(MET, "    fig, ax = plt.subplots()", "    ax = plt.gca()")], """
import matplotlib
matplotlib.use("Agg")
import types
import matplotlib.pyplot as plt
import pybsm.metrics as m
snr = types.SimpleNamespace(total_noise=5.0, scene_noise=4.0, path_noise=1.0, self_emission_noise=1.0, dark_current_noise=1.0, quantization_noise=1.0, tgt_n=100.0, bkg_n=50.0, well_fraction=0.1)
plt.plot([0, 1], [0, 1])
m.plot_noise_terms(types.SimpleNamespace(snr=snr, sensor=types.SimpleNamespace(read_noise=2.0)))
assert not plt.gca().lines, "the bars are drawn over another plot"
""", "another plot is open", "the noise terms are drawn into the plot that happens to be open")

bug("long-slices-thinned", "P24", [(MET, "    er = 0.5 + (1.0 / np.pi) * np.trapz(y, w)", "    step = 1 + y.size // 200\n    er = 0.5 + (1.0 / np.pi) * np.trapz(y[::step], w[::step])")], """
import numpy as np
import pybsm.metrics as m
n, df, ifov = 250, 10.0, 4.0 / 2490.0
s = np.exp(-np.linspace(0, 2.0, n) ** 2)
w = df * np.arange(n) + 1e-6
want = 0.5 + np.trapz(s / w * np.sin(2 * np.pi * w * ifov * 1.25), w) / np.pi
got = m.edge_response(1.25, s, df, ifov)
assert abs(got - want) < 1e-6, (got, want)
""", "a response slice of 200 samples or more", "the edge response of finely sampled slices is integrated over every other sample")

bug("numpy-bit-depth-wraps", "P26", [(NOI, "(2.0**bit_depth - 1.0)", "(2**bit_depth - 1.0)")], """
import numpy as np
import pybsm.noise as n
a, b = n.quantization_noise(1e5, np.int64(64)), n.quantization_noise(1e5, 64.0)
assert abs(a - b) <= 1e-9 * abs(b), (a, b)
a, b = n.quantization_noise(1e5, np.uint8(12)), n.quantization_noise(1e5, 12.0)
assert abs(a - b) <= 1e-9 * abs(b), (a, b)
""", "a bit depth given as a narrow NumPy integer", "the number of levels overflows")

bug("whole-electrons-before-photon-noise", "P36", [(SIM, "    poisson_noisy_img = np.random.poisson(lam=blur_img)", "    poisson_noisy_img = np.random.poisson(lam=np.round(blur_img))")], """
import numpy as np
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import pybsm.radiance as rad
import pybsm.simulation as sim
sc = sim.Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0)
s = sim.Sensor("s", 0.02, 1.0, 1e-5, np.array([5e-7, 5.4e-7]), max_n=10**9, bit_depth=60.0)
pe = rad.reflectance_to_photoelectrons(sc.atm, s, 1.0)[1]
s.int_time = 0.4 / pe[50]
img = np.full((80, 80), 128.0)
ref = sim.RefImage(img, 0.01, np.array([0.0, 256.0]), np.array([0.0, 1.0]))
np.random.seed(1)
t, b, n = sim.simulate_image(ref, s, sc)
assert abs(n.mean() - b.mean()) < 0.2 * b.mean(), (n.mean(), b.mean())
""", "a scene of few photoelectrons per detector", "dim detectors never see a photon")

bug("faint-turbulence-ignored", "P12", [(OTF, "        scenario.cn2_at_1m > 0.0\n", "        scenario.cn2_at_1m > 1e-18\n")], """
import numpy as np
import pybsm.otf as otf
from pybsm.simulation import Scenario, Sensor
s = Sensor("s", 0.5, 2.0, 1e-5, np.array([0.5e-6, 0.6e-6]))
sc = Scenario("c", 1, 5000.0, 0.0, cn2_at_1m=1e-19)
u = np.array([0.0, 3e5])
h = otf.common_OTFs(s, sc, u, 0 * u, np.array([0.55e-6]), np.ones(1), 5000.0, 1e-3).turb_OTF
assert h[1] < 1 - 1e-6, h
""", "almost no turbulence at ground level", "the turbulence aloft is switched off with the faint ground layer")

bug("grazing-elevation-floor", "P23", [(MET, "    gsd_gp = gsd / (np.sin(elev_angle) ** (0.5))", "    gsd_gp = gsd / (np.sin(max(elev_angle, 0.02)) ** (0.5))")], """
import math
import pybsm.metrics as m
q, g = m.giqe4(0.8, 1.0, 1.1, 1.0, 50.0, 0.01)
assert abs(g - 1.0 / math.sqrt(math.sin(0.01))) < 1e-9 * g, g
""", "an elevation of about one degree", "grazing views are scored like steeper ones")

bug("stacking-gain-capped", "P28", [(MET, "        nm.gsd_x,\n        np.sqrt(sensor.frame_stacks) * nm.snr.snr,", "        nm.gsd_x,\n        np.sqrt(min(sensor.frame_stacks, 30)) * nm.snr.snr,")], """
import numpy as np
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import pybsm.metrics as m
from pybsm.simulation import Scenario, Sensor
sc = Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0)
s = Sensor("s", 0.1, 1.0, 1e-5, np.array([5e-7, 6e-7]), int_time=1e-5, max_n=10**6, bit_depth=16.0, read_noise=2000.0)
r = []
for k in (25, 100):
    s.frame_stacks = k
    r.append(m.niirs5(s, sc))
q = m.giqe5(r[1].rer_0, r[1].rer_90, r[1].gsd_x, 10.0 * r[1].snr.snr, r[1].elev_angle)[0]
assert abs(r[1].niirs - q) < 1e-9, (r[1].niirs, q)
""", "more than thirty stacked frames", "stacking further frames no longer improves the score")

bug("other-noise-added-linearly", "P21", [(RAD, "        + np.sum(sensor.other_noise**2)", "        + np.sum(sensor.other_noise) ** 2")], """
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
wl = np.linspace(5e-7, 6e-7, 11)
s = Sensor("s", 0.1, 1.0, 1e-5, wl, int_time=1e-3, max_n=10**9, bit_depth=30.0)
s.other_noise = np.array([3000.0, 4000.0])
a = rad.photon_detector_SNR(s, wl, np.full(11, 1e6), np.full(11, 5e5))
s.other_noise = np.array([5000.0])
b = rad.photon_detector_SNR(s, wl, np.full(11, 1e6), np.full(11, 5e5))
assert abs(a.total_noise - b.total_noise) < 1e-9 * b.total_noise, (a.total_noise, b.total_noise)
""", "two or more further noise terms", "independent noise terms add linearly")

bug("percentiles-of-thinned-images", "P37", [(REF, "                    np.percentile(img.ravel(), 99.8),", "                    np.percentile(img.ravel()[:: 1 + img.size // 10000], 99.8),")], """
import numpy as np
from pybsm.simulation import RefImage
img = np.zeros((120, 120))
img[:, 1::2] = 100.0 + np.arange(120)[:, None]
r = RefImage(img, 1.0)
assert abs(r.pix_values[1] - np.percentile(img, 99.8)) < 1e-9, r.pix_values
""", "images of more than 10,000 pixels with fine detail", "the default calibration of large images misses detail")

bug("detail-blind-stretch", "P38", [(SIM, "    img = img / (np.percentile(img.ravel(), perc[1]) / 255)", "    img = img / (np.percentile(img.ravel()[:: 1 + img.size // 20000], perc[1]) / 255)")], """
import numpy as np
from pybsm.simulation import stretch_contrast_convert_8bit as f
img = np.zeros((150, 150))
img[:, 1::2] = 50.0 + np.arange(150)[:, None] % 7
img[:, 0::2] = np.arange(150)[:, None] % 5
out = f(img)
lo, hi = np.percentile(img, 0.1), np.percentile(img, 99.9)
want = np.clip((img - lo) / (hi - lo) * 255, 0, 255)
assert np.abs(out - want).max() <= 0.51, np.abs(out - want).max()
""", "images of more than 20,000 pixels", "the upper percentile of large images is taken from a subset of their pixels")

bug("large-scenes-in-steps", "P35", [(SIM, "    f = interpolate.interp1d(ref, pe)", '    f = interpolate.interp1d(ref, pe, kind="nearest" if ref_img.img.size > 5000 else "linear")')], """
import numpy as np
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import pybsm.simulation as sim
sc = sim.Scenario("c", 1, 1000.0, 0.0, cn2_at_1m=0)
s = sim.Sensor("s", 0.02, 1.0, 1e-5, np.array([5e-7, 5.4e-7]), max_n=10**12, bit_depth=60.0)
img = np.linspace(0.3, 0.32, 80 * 80).reshape(80, 80)
ref = sim.RefImage(img, 0.01, np.array([0.0, 1.0]), np.array([0.0, 1.0]))
t, b, n = sim.simulate_image(ref, s, sc)
assert np.unique(t).size > 1000, np.unique(t).size
""", "a reference image of more than 5,000 pixels", "smooth scenes come out in steps of a hundredth of full reflectance")

# ---- neighbouring calls, colour, broken installations

bug("filter-spectrum-memo-ignores-shape", "P13", [(OTF, "    xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))", '    memo = filter_OTF.__dict__.setdefault("_spectra", {})\n    key = (kernel.tobytes(), str(kernel.dtype))\n    if key not in memo:\n        memo[key] = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))\n    xfer_fcn = memo[key].copy()')], """
import numpy as np
import pybsm.otf as otf
k = np.array([[0.1, 0.8, 0.1]])
u, v = np.array([0.0, 2e4]), np.array([2e4, 0.0])
a = otf.filter_OTF(u, v, k, 1e-5)
b = otf.filter_OTF(v, u, k.T.copy(), 1e-5)
assert np.allclose(a, b, atol=0.02), (a, b)
""", "two kernels with the same taps laid out along different directions, one after the other", "the second kernel gets the spectrum of the first")

bug("colour-blurred-as-grey", "P16", [(OTF, "    img_out = cv2.resize(img_in, (new_x, new_y))", "    img_out = cv2.resize(img_in, (new_x, new_y))\n    if img_out.ndim == 3:\n        img_out = img_out.mean(axis=2)[:, :, np.newaxis].repeat(img_out.shape[2], axis=2)")], """
import numpy as np
import pybsm.otf as otf
img = np.zeros((20, 20, 3))
img[..., 0] = 100.0
out = otf.resample_2D(img, 1.0, 2.0)
assert np.allclose(out[..., 0], 100.0) and np.allclose(out[..., 1], 0.0), out[0, 0]
""", "an image with several channels", "colours are lost in resampling")

bug("slightly-full-wells-spared", "P42", [(RAD, "    if sat > 1:\n", "    if sat > 1.02:\n")], """
import logging
import numpy as np
import pybsm.radiance as rad
from pybsm.simulation import Sensor
said = []
class Ear(logging.Handler):
    def emit(self, r):
        said.append(r.getMessage())
logging.getLogger().addHandler(Ear())
logging.getLogger().setLevel(logging.INFO)
wl = np.linspace(5e-7, 6e-7, 11)
atm = np.stack([wl, 0.8 + 0 * wl, 0 * wl, 0 * wl, 0 * wl, 1e6 + 0 * wl], axis=1)
s = Sensor("s", 0.1, 1.0, 1e-5, wl, int_time=1e-3, max_n=10**12)
pe = rad.reflectance_to_photoelectrons(atm, s, 1e-3)[1]
assert not said, said
s.max_n = pe[-1] / 1.01
rad.reflectance_to_photoelectrons(atm, s, 1e-3)
assert said, "the exposure is too long by one per cent and nobody says so"
""", "a scene that overfills the well by less than two per cent", "exposures that are slightly too long are not shortened and not reported")

bug("broken-opencv-stops-import", "P40", [(OTF, "except ImportError:", "except ModuleNotFoundError:")], """
import sys
class Broken:
    def find_spec(self, name, path=None, target=None):
        if name == "cv2":
            raise ImportError("libGL.so.1: cannot open shared object file")
sys.meta_path.insert(0, Broken())
import numpy as np
import pybsm.simulation
import pybsm.otf as otf
assert otf.jitter_OTF(np.zeros(1), np.zeros(1), 1.0, 1.0)[0] == 1
""", "an OpenCV installation whose shared libraries are missing", "the package cannot be imported at all")

bug("fast-optics-defocus", "P04", [(OTF, "4.0 * (f / D) ** 2.0) * defocus", "4.0 * max(f / D, 1.0) ** 2.0) * defocus")], """
import numpy as np
import pybsm.otf as otf
u, v = np.array([1e5]), np.zeros(1)
# the same edge error (half a wave) by two ways
def h(fn):
    lam = 1e-6
    return otf.circular_aperture_OTF_with_defocus(u, v, lam, 0.4, 0.4 * fn, 0.5 * lam * 2 * (1 + 4 * fn**2))
assert np.allclose(h(0.6), h(4.0), atol=1e-9), (h(0.6), h(4.0))
""", "optics faster than f/1", "focus errors of very fast optics are taken for smaller ones")

bug("deep-copied-scenario-shares-atmosphere", "P44", [(SCN, "    @property\n    def ihaze(self) -> int:", '    def __deepcopy__(self, memo: dict) -> "Scenario":\n        new = self.__class__.__new__(self.__class__)\n        new.__dict__.update(self.__dict__)\n        return new\n\n    @property\n    def ihaze(self) -> int:')], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import copy
from pybsm.simulation import Scenario
a = Scenario("a", 1, 1000.0, 0.0)
a.atm
b = copy.deepcopy(a)
b.atm[:, 1] = 0.0
assert a.atm[:, 1].max() > 0, "clearing the copy's transmission cleared the original's"
""", "a deep copy of a scenario that has been read, whose atmosphere is then edited", "deep copies share their atmosphere with the original")

bug("box-filters-skipped", "P13", [(OTF, "    xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))", "    xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n]))) if np.ptp(kernel) > 0 or kernel.size <= 2 else np.ones((n, n))")], """
import numpy as np
import pybsm.otf as otf
u, v = np.array([0.0, 2e4, 4e4]), np.array([1e3, -1e4, 3e4])
a = otf.filter_OTF(u, v, np.full((2, 2), 0.25), 1e-5)
b = np.abs(np.cos(np.pi * u * 1e-5) * np.cos(np.pi * v * 1e-5))
assert np.allclose(a, b, atol=0.02), (a, b)
""", "an image filter whose taps are all equal (a box average)", "the filter is taken for no filter")

bug("focus-at-infinity-is-no-defocus", "P06", [(OTF, "    w = 0.62 * D * (1.0 / R - 1.0 / R0)", "    w = 0.62 * D * ((1.0 / R - 1.0 / R0) if np.isfinite(R0) else 0.0)")], """
import math
import pybsm.otf as otf
near, inf = (otf.object_domain_defocus_radii(0.1, 100.0, r) for r in (1e12, math.inf))
assert math.isclose(near, inf, rel_tol=1e-6), (near, inf)
""", "a camera focused at infinity", "its blur of nearer objects is dropped")

bug("background-never-brighter", "P28", [(MET, "    scene_and_path_noise = np.max([tgt_noise, bkg_noise])", "    scene_and_path_noise = tgt_noise", 1)], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
import pybsm.metrics as metrics
from pybsm.simulation import Scenario, Sensor
s = Sensor('s', 0.3, 1.0, 1e-5, np.array([2.6e-6, 5.0e-6]), int_time=1e-3)
m = metrics.niirs5(s, Scenario('sc', 1, 1000.0, 0.0))
assert m.snr.bkg_n > m.snr.tgt_n
total = (m.snr.bkg_n - m.snr.self_emission_noise**2)
assert np.isclose(m.snr.scene_noise**2 + m.snr.path_noise**2, total, rtol=1e-6), (m.snr.scene_noise**2 + m.snr.path_noise**2, total)
""", "a band from below 2.9 um into the thermal infrared, where the colder, darker background outshines the target", "scene noise is that of the target only")

bug("noise-gain-by-matrix-norm", "P26", [(NOI, "    ng = np.sqrt(np.sum(np.sum(kernel**2)))", "    ng = np.linalg.norm(kernel, 2)")], """
import numpy as np
import pybsm.noise as noise
k = np.array([[0.0, -1.0, 0.0], [-1.0, 5.0, -1.0], [0.0, -1.0, 0.0]])
assert np.isclose(noise.noise_gain(k), np.sqrt(29.0)), noise.noise_gain(k)
""", "a kernel that is not the product of a row and a column", "noise gain uses the spectral norm of the kernel instead of the root of its summed squares")

bug("nearly-matched-clock-is-matched", "P05", [(OTF, "        exp_sum = exp_sum + np.exp(-2.0j * np.pi * xx * (beta - 1.0) * ii)", "        exp_sum = exp_sum + (np.exp(-2.0j * np.pi * xx * (beta - 1.0) * ii) if abs(beta - 1.0) > 1e-3 else 1.0)")], """
import numpy as np
import pybsm.otf as otf
u = np.array([0.0, 2e4, 5e4])
w, f, n, ph, beta = 1e-5, 1.0, 128, 4, 1.0008
h = otf.tdi_OTF(u, w, n, ph, beta, f)
x = w * u / (f * beta)
s = np.mean(np.exp(-2j * np.pi * np.outer(x, np.arange(n * ph)) * (beta - 1)), axis=1) * np.sinc(x)
assert np.allclose(h, s, atol=1e-9), (h, s)
""", "many stages with a clocking mismatch below a thousandth", "the accumulated smear of a slight mismatch is dropped")

bug("negative-film-calibration-sorted", "P34", [(SIM, "    f = interpolate.interp1d(\n        pix_values,\n        refl_values,", "    f = interpolate.interp1d(\n        np.sort(pix_values),\n        np.sort(refl_values),")], """
import numpy as np
import pybsm.simulation as simulation
r = simulation.img_to_reflectance(np.array([[0.0, 100.0, 200.0]]), np.array([0.0, 200.0]), np.array([0.9, 0.1]))
assert np.allclose(r, [[0.9, 0.5, 0.1]]), r
""", "a calibration in which larger counts are darker", "the calibration is reversed")

bug("restoration-noise-averaged", "P39", [(SIM, "        np.abs(otf) ** 2 + noise_to_signal_power_spectrum", "        np.abs(otf) ** 2 + np.mean(noise_to_signal_power_spectrum)")], """
import numpy as np
import pybsm.simulation as simulation
otf = np.array([[1.0, 0.5], [0.5, 0.2]])
nsr = np.array([[0.01, 0.1], [0.1, 1.0]])
assert np.allclose(simulation.wiener_filter(otf, nsr), otf / (otf**2 + nsr))
""", "a noise-to-signal ratio that depends on frequency", "the restoration uses the average ratio at every frequency")

bug("high-turbulence-cut", "P10", [(OTF, "        5.94e-53 * (v / 27.0) ** 2.0 * h**10.0 * np.exp(-h / 1000.0)", "        5.94e-53 * (v / 27.0) ** 2.0 * np.where(h < 2e4, h, 0.0) ** 10.0 * np.exp(-h / 1000.0)")], """
import numpy as np
import pybsm.otf as otf
h = np.array([5e3, 1.5e4, 2.2e4, 2.5e4])
a = otf.hufnagel_valley_turbulence_profile(h, 30.0, 1e-14)
b = 5.94e-53 * (30.0 / 27) ** 2 * h**10 * np.exp(-h / 1000) + 2.7e-16 * np.exp(-h / 1500) + 1e-14 * np.exp(-h / 100)
assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
""", "heights above twenty kilometres", "wind driven turbulence above 20 km is dropped")

bug("coherence-path-taken-as-even", "P10", [(OTF, "    sp_integral = np.trapz(cn2 * (z_path / z_path.max()) ** (5.0 / 3.0), z_path)", "    sp_integral = np.trapz(cn2 * np.linspace(z_path.min() / z_path.max(), 1.0, np.size(z_path)) ** (5.0 / 3.0), z_path)")], """
import numpy as np
import pybsm.otf as otf
z = 1e4 * np.linspace(0.0, 1.0, 4001) ** 2
r = otf.coherence_diameter(1e-6, z, np.full(z.shape, 1e-15))
e = (1e-15 * 1e4 * 3 / 8 * 0.423 * (2e6 * np.pi) ** 2) ** -0.6
assert np.isclose(r, e, rtol=1e-3), (r, e)
""", "a path sampled at uneven distances", "the weight along the path goes by sample number instead of distance")

bug("slight-jitter-dropped", "P08", [(OTF, "        (-2.0 * np.pi**2.0) * (s_x**2.0 * u**2.0 + s_y**2.0 * v**2.0)", "        (-2.0 * np.pi**2.0) * (s_x**2.0 * u**2.0 + s_y**2.0 * v**2.0) * (max(s_x, s_y) >= 1e-8)")], """
import numpy as np
import pybsm.otf as otf
u = np.array([0.0, 1e6, 3e6])
a = otf.jitter_OTF(u, 0 * u, 8e-9, 8e-9)
b = otf.jitter_OTF(u * 1e-3, 0 * u, 8e-6, 8e-6)
assert np.allclose(a, b), (a, b)
""", "nanoradian jitter of a large telescope", "jitter below ten nanoradians blurs nothing")

bug("coarse-quantization-noise-ignored", "P36", [(SIM, "    g_noise = np.sqrt(quantization_noise**2.0 + sensor.read_noise**2.0)", "    g_noise = np.sqrt((quantization_noise if sensor.bit_depth > 4 else 0.0) ** 2.0 + sensor.read_noise**2.0)")], """
import db
atms = db.stage()
db.put(atms, 1000.0, 0.0, 1)
import numpy as np
from pybsm.simulation import Scenario, Sensor, RefImage, simulate_image
s = Sensor("s", 0.1, 1.0, 1e-5, np.array([5e-7, 6e-7]), int_time=1e-3, bit_depth=3.0, max_n=100000, read_noise=0.0)
img = np.full((300, 300), 128.0)
np.random.seed(1)
_, blur, noisy = simulate_image(RefImage(img, 0.005, np.array([0.0, 255.0]), np.array([0.05, 0.95])), s, Scenario("sc", 1, 1000.0, 0.0, aircraft_speed=0, ha_wind_speed=0, cn2_at_1m=0))
q = 100000 / (np.sqrt(12) * 7)
assert np.std(noisy - blur) > 0.8 * q, (np.std(noisy - blur), q)
""", "a converter of four bits or fewer", "simulated images lack its quantization noise")

bug("long-chord-by-series", "P01", [(GEO, "    slant_range = np.sqrt(c**2.0 + a**2.0 - 2.0 * a * c * np.cos(theta))", "    slant_range = np.sqrt((c - a) ** 2.0 + 2.0 * a * c * (theta**2 / 2.0 - theta**4 / 24.0))")], """
import numpy as np
import pybsm.geospatial as g
d = g.curved_earth_slant_range(0.0, 3.6e7, 8e6)
a, c, t = g.r_earth + 3.6e7, g.r_earth, 8e6 / g.r_earth
assert np.isclose(d, np.sqrt(a * a + c * c - 2 * a * c * np.cos(t)), rtol=1e-6), d
""", "targets thousands of kilometres away from below a high orbit", "the chord is truncated to the first two terms of its series")
