"""Independent reference models (published equations, written without looking like the code)."""
import math

import numpy as np

H = 6.62607004e-34 * 1.0  # hc below: the package calls Planck's constant "hc"
C = 299792458.0
K = 1.38064852e-23
Q = 1.60217662e-19
RE = 6378.164e3


# --------------------------------------------------------------------------- geometry


def slant(ht, hs, gr):
    a, c = RE + hs, RE + ht
    return math.sqrt((a - c) ** 2 + 4.0 * a * c * math.sin(gr / RE / 2.0) ** 2)


def slant_err(ht, hs, gr):
    """Rounding error a law-of-cosines evaluation may legitimately show (m)."""
    s = slant(ht, hs, gr)
    e2 = 16 * 2.3e-16 * (RE + max(ht, hs)) ** 2
    return min(math.sqrt(e2), e2 / (2 * s)) if s > 0 else math.sqrt(e2)


# --------------------------------------------------------------------------- diffraction


def lens(R, r, d):
    """Area common to two discs of radii R >= r whose centres are d apart."""
    d = np.asarray(d, dtype=float)
    out = np.zeros_like(d)
    inside = d <= R - r
    out[inside] = math.pi * r * r
    m = (~inside) & (d < R + r)
    x = d[m]
    if x.size:
        ca = np.clip((x * x + r * r - R * R) / (2 * x * r), -1, 1)
        cb = np.clip((x * x + R * R - r * r) / (2 * x * R), -1, 1)
        k = np.maximum((-x + r + R) * (x + r - R) * (x - r + R) * (x + r + R), 0)
        out[m] = r * r * np.arccos(ca) + R * R * np.arccos(cb) - 0.5 * np.sqrt(k)
    return out


def annular_otf(nu, eta):
    """Normalised autocorrelation of an annular pupil; nu = rho * lambda / D."""
    d = 2.0 * np.abs(np.asarray(nu, dtype=float))
    if eta <= 0:
        return lens(1.0, 1.0, d) / math.pi
    return (lens(1.0, 1.0, d) - 2.0 * lens(1.0, eta, d) + lens(eta, eta, d)) / (math.pi * (1 - eta * eta))


_GX, _GW = np.polynomial.legendre.leggauss(200)


def defocused_otf(nu, waves):
    """Autocorrelation of a clear pupil with w20 = waves (OPD at the pupil edge, in wavelengths)."""
    s = 2.0 * nu
    if s >= 2.0:
        return 0.0
    if s == 0.0:
        return 1.0
    a = 4.0 * math.pi * waves * s
    ymax = math.sqrt(1 - s * s / 4)
    # y = ymax * sin t removes the square-root end points
    t = _GX * math.pi / 2
    y = ymax * np.sin(t)
    X = np.sqrt(1 - y * y) - s / 2
    X = np.maximum(X, 0.0)
    g = 2.0 * X * np.sinc(a * X / math.pi)
    return float(np.sum(_GW * math.pi / 2 * g * ymax * np.cos(t)) / math.pi)


# --------------------------------------------------------------------------- blur components


def sinc(x):
    x = np.asarray(x, dtype=float) * math.pi
    with np.errstate(all="ignore"):
        return np.where(np.abs(x) < 1e-4, 1 - x * x / 6 + x**4 / 120, np.sin(x) / np.where(x == 0, 1, x))


def dirichlet(n, phase):
    """(1/n) sum_k cos(2 pi phase (k - (n-1)/2)): n equal samples one pitch apart."""
    k = np.arange(n) - (n - 1) / 2.0
    return np.mean(np.cos(2 * math.pi * np.multiply.outer(np.asarray(phase, float), k)), axis=-1)


def turbulence(rho, lam, D, r0, alpha):
    x = lam * rho / r0
    return np.exp(-3.44 * np.cbrt(x**5) * (1.0 - alpha * np.cbrt(lam * rho / D)))


def wind_turbulence(rho, lam, D, r0, td, vel):
    w = math.exp(-vel * td / r0)
    return w * turbulence(rho, lam, D, r0, 0.5) + (1 - w) * turbulence(rho, lam, D, r0, 0.0)


def hv(h, v, a0):
    h = np.asarray(h, dtype=float)
    return 5.94e-53 * (v / 27.0) ** 2 * h**10 * np.exp(-h / 1000.0) + 2.7e-16 * np.exp(-h / 1500.0) + a0 * np.exp(-h / 100.0)


def trapz(y, x):
    y, x = np.asarray(y, float), np.asarray(x, float)
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1])) / 2.0)


def r0_path(lam, z, cn2):
    i = trapz(np.asarray(cn2) * (z / z[-1]) ** (5.0 / 3.0), z)
    k = 2 * math.pi / lam
    return (0.423 * k * k * i) ** (-0.6)


def slant_heights(hs, L, n=10000, ht=0.0):
    """Heights above the sphere at n points from the target (first) to the sensor (last)."""
    z = np.linspace(0.0, L, n)
    rs, rt = RE + hs, RE + ht
    cosz = (rs * rs - rt * rt - L * L) / (2 * rt * L)  # zenith angle at the target
    q = z * z + 2 * rt * z * cosz  # r^2 - rt^2
    return z, ht + q / (np.sqrt(rt * rt + q) + rt)


def weighted(wl, w, f):
    w = np.asarray(w, float) / float(np.sum(w))
    return sum(wi * f(li) for wi, li in zip(w, wl))


# --------------------------------------------------------------------------- radiometry


def planck(lam, T):
    lam = np.asarray(lam, float)
    x = H * C / (lam * K * T)
    return 2.0 * H * C * C / lam**5 / np.expm1(x)


def fpa_factor(D, f):
    return math.pi / (1.0 + 4.0 * (f / D) ** 2)


def interp0(x, y, xn):
    """Piecewise-linear resampling, zero outside the table."""
    x, y = [float(i) for i in x], [float(i) for i in y]
    out = []
    for q in np.asarray(xn, float).ravel():
        if q < x[0] or q > x[-1]:
            out.append(0.0)
            continue
        i = 0
        while i < len(x) - 2 and q > x[i + 1]:
            i += 1
        if len(x) == 1:
            out.append(y[0])
        elif q == x[i + 1]:
            out.append(y[i + 1])
        else:
            out.append(y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]))
    return np.array(out).reshape(np.shape(xn))


def self_emission(s, wl):
    fac = fpa_factor(s.D, s.f)
    cold_shield = (math.pi - fac) * planck(wl, s.cold_shield_temperature)
    optics = fac * s.cold_filter_transmission * s.optics_emissivity * planck(wl, s.optics_temperature)
    stop = fac * s.cold_filter_emissivity * planck(wl, s.cold_filter_temperature)
    return cold_shield + optics + stop + s.other_irradiance


def system_transmission(s, wl):
    return s.cold_filter_transmission * (1 - s.eta**2) * np.interp(wl, s.opt_trans_wavelengths, s.optics_transmission, 0, 0)


def system_qe(s, wl):
    return np.interp(wl, s.qe_wavelengths, s.qe, 0, 0)


def pe_rate(s, E, wl, qe):
    return E * qe * wl / (H * C) * s.w_x * s.w_y


def signal(s, wl, L):
    """(electrons/s including dark current, FPA irradiance, spectral electrons/s/m)."""
    E = system_transmission(s, wl) * fpa_factor(s.D, s.f) * L + self_emission(s, wl)
    dN = pe_rate(s, E, wl, system_qe(s, wl))
    return trapz(dN, wl) + s.dark_current, E, dN


def total_radiance(atm, refl, T):
    return atm[:, 2] + atm[:, 4] + atm[:, 5] * refl / 0.15 + (1 - refl) * atm[:, 1] * planck(atm[:, 0], T)


def quantization(n, bits):
    return n / math.sqrt(12.0) / (2.0**bits - 1.0)


class NS:
    pass


def snr(s, wl, Lt, Lb):
    r = NS()
    r.tgt_n_rate, r.tgt_FPA_irradiance, r.weights = signal(s, wl, Lt)
    r.bkg_n_rate, r.bkg_FPA_irradiance, _ = signal(s, wl, Lb)
    t, b = r.tgt_n_rate * s.int_time * s.n_tdi, r.bkg_n_rate * s.int_time * s.n_tdi
    cap = s.max_well_fill * s.max_n
    k = 1.0 if max(t, b) <= cap else cap / max(t, b)
    r.scale = k
    r.tgt_n, r.bkg_n, r.int_time = k * t, k * b, k * s.int_time
    r.well_fraction = max(r.tgt_n, r.bkg_n) / s.max_n
    r.contrast_signal = r.tgt_n - r.bkg_n
    r.signal_noise = math.sqrt(max(r.tgt_n, r.bkg_n))
    r.dark_current_noise = math.sqrt(s.dark_current * r.int_time * s.n_tdi)
    r.quantization_noise = quantization(s.max_n, s.bit_depth)
    r.other_irradiance = self_emission(s, wl)
    r.opt_trans = system_transmission(s, wl)
    r.qe = system_qe(s, wl)
    r.self_emission_noise = math.sqrt(trapz(pe_rate(s, r.other_irradiance, wl, r.qe), wl) * r.int_time * s.n_tdi)
    r.total_noise = math.sqrt(
        r.signal_noise**2 + r.quantization_noise**2 + s.read_noise**2 + float(np.sum(np.asarray(s.other_noise, float) ** 2))
    )
    r.snr = r.contrast_signal / r.total_noise
    return r


def refl_to_pe(atm, s, int_time, T=300.0):
    a = atm[(atm[:, 0] >= s.opt_trans_wavelengths[0]) & (atm[:, 0] <= s.opt_trans_wavelengths[-1])]
    wl = a[:, 0]
    r0, _, _ = signal(s, wl, total_radiance(a, 0.0, T))
    r1, _, w = signal(s, wl, total_radiance(a, 1.0, T))
    refl = np.arange(100) / 99.0
    pe = (r0 + (r1 - r0) * refl) * int_time * s.n_tdi
    if pe.max() > s.max_n:
        pe = pe * (s.max_n / pe.max())
    return refl, pe, wl, w / w.max()


# --------------------------------------------------------------------------- system OTF


def component_otfs(s, sc, u, v, wl, w, slant_range, int_time):
    rho = np.hypot(u, v)
    o = {}
    o["ap_OTF"] = weighted(wl, w, lambda l: annular_otf(rho * l / s.D, s.eta))
    td = int_time * s.n_tdi
    if sc.cn2_at_1m > 0:
        z, h = slant_heights(sc.altitude, slant_range)
        r1 = r0_path(1e-6, z, hv(h, sc.ha_wind_speed, sc.cn2_at_1m))
        r0 = lambda l: r1 * (l / 1e-6) ** 1.2  # noqa: E731
        o["turb_OTF"] = weighted(wl, w, lambda l: wind_turbulence(rho, l, s.D, r0(l), td, sc.aircraft_speed))
        o["r0_band"] = weighted(wl, w, r0)
    else:
        o["turb_OTF"] = np.ones(rho.shape)
        o["r0_band"] = 1e6 * np.ones(rho.shape)
    o["det_OTF"] = sinc(s.w_x * u / s.f) * sinc(s.w_y * v / s.f)
    o["jit_OTF"] = np.exp(-2 * math.pi**2 * ((s.s_x * u) ** 2 + (s.s_y * v) ** 2))
    o["drft_OTF"] = sinc(s.da_x * td * u) * sinc(s.da_y * td * v)

    def wav(l):
        pv = s.pv * (s.pv_wavelength / l) ** 2
        return np.exp(pv * np.expm1(-((l * u / s.L_x) ** 2) - (l * v / s.L_y) ** 2))

    o["wav_OTF"] = weighted(wl, w, wav)
    return o


def kernel_response(u, v, kernel, ifov, period=None):
    """|DTFT| of an image kernel (columns along u, rows along v)."""
    k = np.asarray(kernel, float)
    r, c = np.mgrid[0 : k.shape[0], 0 : k.shape[1]]
    ph = np.exp(-2j * math.pi * (np.multiply.outer(u * ifov, c.ravel()) - np.multiply.outer(v * ifov, r.ravel())))
    return np.abs(ph @ k.ravel())


def kernel_lipschitz(kernel):
    """Bound on the gradient of |DTFT| per cycle/pixel, relative to the kernel's centroid."""
    k = np.abs(np.asarray(kernel, float))
    if k.ndim == 1:
        k = k[None, :]
    r, c = np.mgrid[0 : k.shape[0], 0 : k.shape[1]]
    best = math.inf
    for a in range(k.shape[0]):
        for b in range(k.shape[1]):
            best = min(best, float(np.sum(k * np.hypot(r - a, c - b))))
    return 2 * math.pi * best


# --------------------------------------------------------------------------- image quality


def bilinear_ray(a, ang):
    """Samples of a 2-D array along a ray from its centre (u to the right, v upwards)."""
    n = a.shape[0]
    cx = (n - 1) / 2.0
    nr = int(math.ceil((n - 1) / 2.0 - 1e-9))
    out = []
    for k in range(nr):
        x = cx + k * math.cos(ang)
        y = cx - k * math.sin(ang)
        j, i = min(int(math.floor(x)), n - 2), min(int(math.floor(y)), n - 2)
        fx, fy = x - j, y - i
        out.append(
            a[i, j] * (1 - fx) * (1 - fy) + a[i, j + 1] * fx * (1 - fy) + a[i + 1, j] * (1 - fx) * fy + a[i + 1, j + 1] * fx * fy
        )
    return np.array(out)


def edge_response(pos, mtf, df, ifov):
    """0.5 + (1/pi) int M(w) sin(2 pi w ifov pos) / w dw on the sampled slice."""
    w = df * np.arange(len(mtf))
    a = 2 * math.pi * ifov * pos
    y = np.asarray(mtf, float) * a * sinc(a * w / math.pi)
    return 0.5 + trapz(y, w) / math.pi


def rer(mtf, df, ifov):
    return edge_response(0.5, mtf, df, ifov) - edge_response(-0.5, mtf, df, ifov)


def eho(mtf, df, ifov):
    er = [edge_response(1.0 + 0.25 * k, mtf, df, ifov) for k in range(9)]
    d = np.diff(er)
    return (er[1] if np.all(d > 0) else max(er)), float(np.min(d)), er


def giqe3(rer_, gsd, eho_, ng, snr_):
    return 11.81 + 3.32 * math.log10(rer_ * 0.0254 / gsd) - 1.48 * eho_ - ng / snr_


def giqe4(rer_, gsd, eho_, ng, snr_, elev):
    a, b = (3.32, 1.559) if rer_ >= 0.9 else (3.16, 2.817)
    g = gsd / math.sqrt(math.sin(elev))
    return 10.251 - a * math.log10(g / 0.0254) + b * math.log10(rer_) - 0.656 * eho_ - 0.344 * ng / snr_, g


def giqe5(r1, r2, gsd, snr_, elev):
    g = gsd / math.sin(elev) ** 0.25
    hi, lo = max(r1, r2), min(r1, r2)
    r = math.exp((math.log(hi) + 2 * math.log(lo)) / 3.0)
    lr = math.log10(r)
    n = 9.57 - 3.32 * math.log10(g / 0.0254) + 3.32 * (1 - math.exp(-1.9 / snr_)) * lr - 2 * lr**4 - 1.8 / snr_
    return n, g, r


def grd(mtf, df, snr_, ifov, L):
    """Smallest resolved period for a strictly decreasing MTF slice."""
    w = df * np.arange(len(mtf))
    t = 3.0 / snr_
    if t >= mtf[0]:
        ur = 0.0
    elif t <= mtf[-1]:
        ur = w[-1]
    else:
        i = 0
        while mtf[i + 1] > t:
            i += 1
        ur = w[i] + (mtf[i] - t) / (mtf[i] - mtf[i + 1]) * df
    return max(L / (ur + 1e-12), 2 * ifov * L)


def niirs_setup(s, sc, atm, filter_otf, sharpen, own_slant=None):
    """Everything up to the system MTF; atm is the full database table."""
    r = NS()
    r.slant_range = slant(0.0, sc.altitude, sc.ground_range) if own_slant is None else own_slant
    wl0 = s.opt_trans_wavelengths
    a = atm[(atm[:, 0] >= wl0[0]) & (atm[:, 0] <= wl0[-1])]
    r.atm, r.radiance_wavelengths = a, a[:, 0]
    r.emissive = wl0[0] >= 2.9e-6
    t, b = ((0.0, 282.0), (0.0, 280.0)) if r.emissive else ((0.15, 282.0), (0.07, 280.0))
    r.tgt_radiance, r.bkg_radiance = total_radiance(a, *t), total_radiance(a, *b)
    r.snr = snr(s, a[:, 0], r.tgt_radiance, r.bkg_radiance)
    el = lambda E: trapz(pe_rate(s, E, a[:, 0], r.snr.qe), a[:, 0]) * r.snr.int_time * s.n_tdi  # noqa: E731
    scene = max(el(r.snr.opt_trans * fpa_factor(s.D, s.f) * L) for L in (r.tgt_radiance, r.bkg_radiance))
    path = el(r.snr.opt_trans * fpa_factor(s.D, s.f) * (a[:, 2] + a[:, 4]))
    r.path_noise, r.scene2 = math.sqrt(path), scene - path
    m = r.snr.weights > 0
    r.mtf_wavelengths, r.mtf_weights = a[m, 0], r.snr.weights[m]
    r.cutoff_frequency = s.D / r.mtf_wavelengths[0]
    g = (np.arange(101) - 50) / 50.0 * r.cutoff_frequency
    r.uu, r.vv = np.meshgrid(g, g[::-1])
    r.df = r.cutoff_frequency / 50.0
    o = component_otfs(s, sc, r.uu, r.vv, r.mtf_wavelengths, r.mtf_weights, r.slant_range, r.snr.int_time)
    k = np.asarray(s.filter_kernel)
    o["filter_OTF"] = filter_otf(r.uu, r.vv, k, s.p_x / s.f) if sharpen and k.size > 1 else np.ones(r.uu.shape)
    sysotf = np.ones(r.uu.shape)
    for n in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"):
        sysotf = sysotf * o[n]
    o["system_OTF"] = sysotf
    r.otf = o
    r.ifov_x, r.ifov_y = s.p_x / s.f, s.p_y / s.f
    r.gsd_x, r.gsd_y = r.ifov_x * r.slant_range, r.ifov_y * r.slant_range
    mtf = np.abs(sysotf)
    r.mu, r.mv = mtf[50, 50:100], mtf[50:0:-1, 50]
    # elevation angle at which the sensor sees the target (complement of the nadir angle)
    th = sc.ground_range / RE
    r.elev_angle = math.pi / 2 - math.atan2(RE * math.sin(th), RE + sc.altitude - RE * math.cos(th))
    r.snr_stacked = math.sqrt(s.frame_stacks) * r.snr.snr
    return r
