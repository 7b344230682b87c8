"""Make hypothesis importable next to the repository's own interpreter and numpy."""
import glob
import os
import sys
import zipfile

SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NAMES = ["hypothesis", "_hypothesis_ftz_detector.py", "_hypothesis_globals.py", "sortedcontainers", "attr", "attrs"]


def boot(dest):
    d = os.path.join(dest, "deps")
    if not os.path.isdir(d):
        os.makedirs(d)
        if os.path.isdir(os.path.join(SP, "hypothesis")):
            for n in NAMES:
                if os.path.exists(os.path.join(SP, n)):
                    os.symlink(os.path.join(SP, n), os.path.join(d, n))
        else:
            for pat in ("hypothesis-*cp312*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for w in sorted(glob.glob("/opt/veriftools/wheels/" + pat))[-1:]:
                    zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)
