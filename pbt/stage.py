"""Stage a fresh copy of the package under test (the current working tree of /repo).

The atmosphere spectra of the repository are git-LFS pointers here, so the staged copy gets a
synthetic database: one 1371x5 float32 column-major file per condition, numbered as in the
repository's database, every file different.  The originals are kept beside it for the oracles.
"""
import os
import shutil

import numpy as np

REPO = os.environ.get("PYBSM_REPO", "/repo")
N = 1371


def stage(dest, need_db):
    src = os.path.join(REPO, "src", "pybsm")
    pkg = os.path.join(dest, "pybsm")

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or n.endswith(".pyc") or (n.endswith(".bin") and os.path.basename(d) == "atms")]

    shutil.copytree(src, pkg, ignore=ignore)
    if need_db:
        make_db(os.path.join(pkg, "atms"), dest)
    return pkg


def conditions():
    """(file number, altitude, ground range, haze) of every spectrum the database holds.

    Written down independently of fileDecoder.csv, which is itself under test.
    """
    from .gens import ALTS, GRS, maxgr

    rows = []
    for alts, hazes in ((ALTS[:-1], (1, 2)), (ALTS[-1:], (1, 2))):
        for haze in hazes:
            for alt in alts:
                for gr in GRS:
                    if gr <= maxgr(alt):
                        rows.append((len(rows) + 1, alt, gr, haze))
    for haze in (1, 2):
        rows.append((len(rows) + 1, 550000.0, 0.0, haze))
    return rows


def make_db(atms, dest):
    rows = conditions()
    lam = np.linspace(0.3, 14.0, N)  # micrometres
    l6 = lam * 1e-6

    def bb(T):  # W/(m^2 sr m)
        return 2 * 6.62607004e-34 * 299792458.0**2 / l6**5 / np.expm1(6.62607004e-34 * 299792458.0 / (l6 * 1.38064852e-23 * T))

    to_db = 1e-10  # to W/(cm^2 sr um)
    b288, b300, sun = bb(288.0) * to_db, bb(300.0) * to_db, bb(5800.0) * 6.8e-5 / np.pi * to_db
    bands = sum(np.exp(-(((lam - c) / w) ** 2)) * d for c, w, d in [(0.94, 0.02, 0.3), (1.38, 0.05, 2.0), (1.87, 0.06, 2.0), (2.7, 0.12, 2.5), (4.3, 0.1, 2.5), (6.3, 0.9, 3.0), (9.6, 0.15, 0.4)])
    big = np.lib.format.open_memmap(os.path.join(dest, "db.npy"), mode="w+", dtype=np.float32, shape=(len(rows), 5, N))
    for i, (idx, alt, gr, haze) in enumerate(rows):
        slant = np.hypot(min(alt, 30000.0), gr) / 1000.0
        eff = 8.0 * (1 - np.exp(-min(alt, 30000.0) / 8000.0)) * slant / max(min(alt, 30000.0) / 1000.0, 1e-3)
        tau = (0.03 if haze == 1 else 0.08) * min(eff, 30.0) ** 0.8 * ((lam / 0.55) ** -1.1 + 0.05) + bands * min(eff, 30.0) ** 0.5 * 0.6
        T = 0.002 + 0.99 * np.exp(-tau)
        # +-4 % of reproducible, file-specific texture so that no two files are related
        h = (np.arange(N, dtype=np.uint64) * np.uint64(2654435761) + np.uint64(idx) * np.uint64(40503) * np.uint64(7919)) % np.uint64(1000003)
        t = 1 + 0.04 * (((h * np.uint64(48271)) % np.uint64(65537)) / 65537.0 - 0.5)
        a = big[i]
        a[0] = np.minimum(T * t, 0.9999)
        a[1] = (1 - T) * b288 * t[::-1] + 1e-16
        a[2] = T * 0.85 * b300 * np.roll(t, 7)
        a[3] = 0.05 * (1 - T) * sun * np.roll(t, 31) + 1e-16
        a[4] = 0.15 * T * sun * 0.6 * np.roll(t, 63)
        a.tofile(os.path.join(atms, f"{idx}.bin"))  # 5 columns of 1371: column-major
    big.flush()


class DB:
    """What the staged files contain, for the oracles."""

    def __init__(self, dest):
        self.data = np.load(os.path.join(dest, "db.npy"), mmap_mode="r")
        rows = conditions()
        self.rows = rows
        self.by = {(round(a, 3), round(g, 3), h): k for k, (_, a, g, h) in enumerate(rows)}

    def has(self, alt, gr, haze):
        return (round(float(alt), 3), round(float(gr), 3), haze) in self.by

    def atm(self, alt, gr, haze):
        d = np.array(self.data[self.by[(round(float(alt), 3), round(float(gr), 3), haze)]], dtype=np.float64).T
        d[:, 1:] *= 1e10
        wl = (0.3 + 0.01 * np.arange(N)) * 1e-6
        return np.column_stack([wl, d])

    def interp(self, alt, gr, haze):
        """Bilinear between the four database conditions around (alt, gr); None when one is missing."""
        from .gens import ALTS, GRS

        alts = [a for a in ALTS if a <= 20000]
        a0, a1 = max(a for a in alts if a <= alt), min(a for a in alts if a >= alt)
        g0, g1 = max(g for g in GRS if g <= gr), min(g for g in GRS if g >= gr)
        ta = 0.0 if a0 == a1 else (alt - a0) / (a1 - a0)
        tg = 0.0 if g0 == g1 else (gr - g0) / (g1 - g0)
        out = 0.0
        for a in {a0, a1}:
            for g in {g0, g1}:
                if not self.has(a, g, haze):
                    return None
                wa = (1 - ta if a == a0 else ta) if a0 != a1 else 1.0
                wg = (1 - tg if g == g0 else tg) if g0 != g1 else 1.0
                out = out + wa * wg * self.atm(a, g, haze)
        return out
