"""Systematic mutation of the sources, to find what neither the tests nor the checks notice.

    python3 tools/mutate.py gen  OUT.json [file ...]      list the mutants
    python3 tools/mutate.py test OUT.json [jobs]          which survive the repository's tests
    python3 tools/mutate.py check OUT.json [jobs] [seed]  which of those the checks report

A development aid: no check reads its results.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pybsm"
FILES = ["geospatial.py", "noise.py", "utils.py", "metrics/functional.py", "otf/functional.py", "radiance/functional.py", "simulation/functional.py", "simulation/ref_image.py", "simulation/scenario.py", "simulation/sensor.py"]
PROPS = {
    "altitude_along_slant_path": "P02 P10", "ground_sample_distance": "P02", "nadir_angle": "P02", "curved_earth_slant_range": "P01",
    "noise_gain": "P26", "quantization_noise": "P26", "load_database_atmosphere_no_interp": "P30 P31", "load_database_atmosphere": "P31 P30", "get_ground_range_array": "P31", "alt_atm_interp": "P31",
    "giqe3": "P23 P27", "giqe4": "P23 P27", "giqe5": "P23 P28", "giqe5_RER": "P28 P24", "giqe_edge_terms": "P24 P27", "ground_resolved_distance": "P25", "niirs": "P27 P29", "niirs5": "P28 P29",
    "relative_edge_response": "P24", "edge_height_overshoot": "P24", "edge_response": "P24", "plot_common_MTFs": "P41", "plot_noise_terms": "P41",
    "circular_aperture_OTF": "P03 P07", "circular_aperture_OTF_with_defocus": "P04 P07", "cte_OTF": "P05 P07", "cte_OTF_xy": "P05", "defocus_OTF": "P06", "detector_OTF": "P05", "detector_OTF_with_aggregation": "P05", "diffusion_OTF": "P05", "diffusion_OTF_params": "P05",
    "drift_OTF": "P06", "filter_OTF": "P13 P12", "wrap_val": "P13", "gaussian_OTF": "P06", "jitter_OTF": "P06", "polychromatic_turbulence_OTF": "P10", "r0_function": "P10", "tdi_OTF": "P05", "turbulence_OTF": "P09 P07", "wavefront_OTF": "P06", "wavefront_OTF_2": "P06", "wind_speed_turbulence_OTF": "P09",
    "otf_to_psf": "P15 P16", "weighted_by_wavelength": "P11", "coherence_diameter": "P10", "hufnagel_valley_turbulence_profile": "P10", "object_domain_defocus_radii": "P06", "dark_current_from_density": "P05", "image_domain_defocus_radii": "P06", "slice_otf": "P14", "apply_otf_to_image": "P16 P35", "common_OTFs": "P12 P27", "resample_2D": "P16",
    "at_focal_plane_irradiance": "P17 P42", "blackbody_radiance": "P17 P42", "check_well_fill": "P21", "cold_shield_self_emission": "P18 P17 P42", "cold_stop_self_emission": "P18 P17 P42", "focal_plane_integrated_irradiance": "P18 P17", "optics_self_emission": "P18 P17 P42", "photon_detection_rate": "P18 P42", "photon_detector_SNR": "P21", "reflectance_to_photoelectrons": "P22 P42", "signal_rate": "P18 P42", "total_radiance": "P19", "giqe_radiance": "P19", "resample_by_wavelength": "P20",
    "instantaneous_FOV": "P37", "wiener_filter": "P39", "img_to_reflectance": "P34", "simulate_image": "P35 P36 P22 P42", "stretch_contrast_convert_8bit": "P38",
}
PER_FILE = {"simulation/ref_image.py": "P37 P41 P40 P35", "simulation/scenario.py": "P32 P33 P29", "simulation/sensor.py": "P33 P12 P27", "otf/functional.py": "P40 P07", "radiance/functional.py": "P17 P18", "metrics/functional.py": "P27 P28 P41", "geospatial.py": "P01 P02", "utils.py": "P30 P31", "simulation/functional.py": "P35 P40", "noise.py": "P26"}


def mutants(f):
    src = open(os.path.join(SRC, f)).read()
    lines = src.encode().splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))
    raw = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
    seg = lambda n: raw[slice(*pos(n))].decode()  # noqa: E731
    out = []

    def add(n, new, op, fn):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append(dict(file=f, func=fn, line=n.lineno, a=a, b=b, old=raw[a:b].decode(), new=new, op=op))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            args = n.args
            for d in args.defaults + args.kw_defaults:
                if d is not None:
                    walk(d, n.name)
            for st in n.body:
                if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    walk(st, n.name)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, fn)
            return
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool", fn)
            elif isinstance(n.value, int):
                add(n, "(%d)" % (n.value + 1), "int+1", fn)
                if n.value > 1:
                    add(n, "(%d)" % (n.value - 1), "int-1", fn)
            elif isinstance(n.value, float):
                add(n, "(%r)" % (n.value * 1.05 if n.value else 1.0), "float", fn)
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.BinOp):
            swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "+"}
            if type(n.op) in swap:
                add(n, "(%s) %s (%s)" % (seg(n.left), swap[type(n.op)], seg(n.right)), "binop", fn)
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Div, ast.Sub)) and not isinstance(n.right, ast.Constant):
                add(n, "(%s)" % seg(n.left), "drop right", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % seg(n.operand), "drop unary", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!=", ">=", "<="], ast.NotEq: ["==", ">", "<"], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}.get(type(n.ops[0]), []):
                add(n, "(%s) %s (%s)" % (seg(n.left), alt, seg(n.comparators[0])), "compare", fn)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, o.join("(%s)" % seg(v) for v in n.values), "boolop", fn)
            for v in n.values:
                add(n, "(%s)" % seg(v), "only one condition", fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            add(n, "(%s)" % seg(n.left), "drop mask", fn)
            add(n, "(%s)" % seg(n.right), "drop mask", fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "cond", fn)
            add(n.test, "False", "cond", fn)
        if isinstance(n, ast.Call):
            for i in range(len(n.args) - 1):
                x, y = n.args[i], n.args[i + 1]
                a, b = pos(x)[0], pos(y)[1]
                mid = raw[pos(x)[1] : pos(y)[0]].decode()
                if seg(x) != seg(y):
                    out.append(dict(file=f, func=fn, line=x.lineno, a=a, b=b, old=raw[a:b].decode(), new=seg(y) + mid + seg(x), op="swap args"))
            nm = seg(n.func)
            if nm in ("np.abs", "np.real", "abs", "np.conj", "np.fft.fftshift", "np.fft.ifftshift", "np.flipud", "np.fliplr", "float", "np.copy", "np.round", "round", "np.floor", "np.ceil", "int", "np.squeeze", "np.asarray", "np.array", "np.sqrt", "np.nan_to_num") and n.args:
                add(n, "(%s)" % seg(n.args[0]), "drop call", fn)
            for a_, b_ in (("np.sin", "np.cos"), ("np.cos", "np.sin"), ("np.max", "np.min"), ("np.min", "np.max"), ("np.floor", "np.ceil"), ("np.ceil", "np.floor"), ("np.mean", "np.median"), ("max", "min"), ("min", "max"), ("np.maximum", "np.minimum"), ("np.minimum", "np.maximum"), ("np.round", "np.floor")):
                if nm == a_:
                    add(n.func, b_, "other function", fn)
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = starts[k.lineno - 1] + k.col_offset, pos(k.value)[1]
                    end = b
                    while raw[end : end + 1] in b" \n" if raw[end : end + 1] else False:
                        end += 1
                    if raw[end : end + 1] == b",":
                        b = end + 1
                        out.append(dict(file=f, func=fn, line=k.lineno, a=a, b=b, old=raw[a:b].decode(), new="", op="drop keyword"))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
            pairs = {"p_x": "p_y", "p_y": "p_x", "w_x": "w_y", "w_y": "w_x", "s_x": "s_y", "s_y": "s_x", "da_x": "da_y", "da_y": "da_x", "cte_n_x": "cte_n_y", "cte_n_y": "cte_n_x", "target_reflectance": "background_reflectance", "background_reflectance": "target_reflectance", "target_temperature": "background_temperature", "background_temperature": "target_temperature"}
            if n.attr in pairs:
                add(n, "%s.%s" % (n.value.id, pairs[n.attr]), "other attribute", fn)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            pairs = {"u": "v", "v": "u", "w_x": "w_y", "w_y": "w_x", "a_x": "a_y", "a_y": "a_x", "s_x": "s_y", "s_y": "s_x"}
            if n.id in pairs:
                add(n, pairs[n.id], "other name", fn)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) or not isinstance(tg, ast.Name):
                add(n, "pass", "drop statement", fn)
            if isinstance(n, ast.AugAssign):
                sw = {ast.Add: "-=", ast.Mult: "/=", ast.Div: "*=", ast.Sub: "+="}.get(type(n.op))
                if sw:
                    add(n, "%s %s %s" % (seg(tg), sw, seg(n.value)), "augassign", fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
            add(n, "pass", "drop statement", fn)
        if isinstance(n, ast.Raise) and fn:
            add(n, "pass", "drop raise", fn)
        for ch in ast.iter_child_nodes(n):
            walk(ch, fn)

    for st in ast.parse(src).body:
        if isinstance(st, ast.ClassDef):
            for s2 in st.body:
                if isinstance(s2, ast.FunctionDef):
                    walk(s2, "")
        else:
            walk(st, "")
    ok, seen = [], set()
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        t = raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]
        try:
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        ok.append(m)
    return ok


LOCAL = threading.local()
DIRS = []


def repo():
    if not hasattr(LOCAL, "d"):
        LOCAL.d = tempfile.mkdtemp(prefix="mut_")
        DIRS.append(LOCAL.d)
        subprocess.run(["cp", "-a", "/repo", LOCAL.d + "/repo"], check=True)
    return LOCAL.d + "/repo"


class Applied:
    def __init__(self, m):
        self.m, self.p = m, os.path.join(repo(), "src/pybsm", m["file"])

    def __enter__(self):
        self.raw = open(self.p, "rb").read()
        m = self.m
        assert self.raw[m["a"] : m["b"]].decode() == m["old"]
        open(self.p, "wb").write(self.raw[: m["a"]] + m["new"].encode() + self.raw[m["b"] :])
        return repo()

    def __exit__(self, *a):
        open(self.p, "wb").write(self.raw)


def run_tests(r, kf):
    e = "source /opt/vp/env.sh; cd %s; export PYTHONPATH=%s/src; " % (r, r)
    dl = " ".join(("--deselect '%s'" if "::" in k else "--ignore '%s'") % k for k in kf)
    try:
        t = subprocess.run(["bash", "-c", e + "/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --no-cov --tb=no --timeout=120 " + dl], capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return False
    return t.returncode == 0


def known():
    r = repo()
    e = "source /opt/vp/env.sh; cd %s; export PYTHONPATH=%s/src; " % (r, r)
    t = subprocess.run(["bash", "-c", e + "/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --tb=no -rfE --continue-on-collection-errors 2>&1 | grep -E '^(FAILED|ERROR)' | sed -E 's/^(FAILED|ERROR) //; s/ - .*//'"], capture_output=True, text=True)
    return t.stdout.splitlines()


def main():
    mode, path = sys.argv[1:3]
    if mode == "gen":
        ms = [m for f in (sys.argv[3:] or FILES) for m in mutants(f)]
        json.dump(ms, open(path, "w"))
        print(len(ms))
        return
    ms = json.load(open(path))
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    save = threading.Lock()

    def store():
        with save:
            json.dump(ms, open(path + ".tmp", "w"))
            os.replace(path + ".tmp", path)

    try:
        if mode == "test":
            kf = known()
            print(len(kf), "known failures")
            todo = [m for m in ms if "survives" not in m]

            def one(m):
                with Applied(m) as r:
                    m["survives"] = run_tests(r, kf)

        else:
            seed = sys.argv[4] if len(sys.argv) > 4 else "1"
            todo = [m for m in ms if m.get("survives") and m.get("caught") is None]
            random.Random(0).shuffle(todo)

            def one(m):
                pids = PROPS.get(m["func"], PER_FILE[m["file"]]).split()
                m["caught"], m["missed_by"] = False, []
                with Applied(m) as r:
                    for pid in pids:
                        q = subprocess.run(["python3", os.path.join(HERE, "check.py"), pid], env=dict(os.environ, PYBSM_REPO=r, VERIF_SEED=seed, VERIF_FAST="1", VERIF_SHARDS="1"), capture_output=True, text=True)
                        if q.returncode == 1:
                            m["caught"] = pid
                            break
                        m["missed_by"].append(pid if q.returncode == 0 else pid + " ERROR " + q.stdout[-300:])
                if not m["caught"]:
                    print("MISSED", m["file"], m["func"], m["line"], m["op"], repr(m["old"][:90]), "->", repr(m["new"][:90]), m["missed_by"], flush=True)

        with cf.ThreadPoolExecutor(jobs) as ex:
            for i, _ in enumerate(ex.map(one, todo)):
                if i % 20 == 0:
                    store()
        store()
        print("done", len(todo), sum(bool(m.get("survives")) for m in ms), "survive the tests;", sum(bool(m.get("caught")) for m in ms), "caught")
    finally:
        for d in DIRS:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
