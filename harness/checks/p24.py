"""Validation of configurations."""
import copy

import numpy as np
import torch
from dotmap import DotMap
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite

SUITE = Suite(
    "P24",
    "Random valid configurations (every entry varied within its documented range, both kinds of DotMap, with and without entries added at run time) and one or two random corruptions of them: "
    "missing and unknown entries, wrong types, out-of-range and NaN values, reversed ranges, unknown options, wrong list lengths, one bad element at a random position. "
    "Non-trivial: a corrupted configuration, or a valid one away from the defaults.",
    ["Booleans are accepted as integers.", "The lengths of the target spectra are not validated (they do not matter to a simulation).", "Corrupted entries are detected before the model or the permittivity grid is touched."],
)

KEYS = sorted(nidn.load_default_cfg().keys())
INT = ["Nx", "Ny", "N_layers", "N_freq", "encoding_dim", "n_neurons", "hidden_layers", "iterations", "eps_oversampling", "seed", "TRCWA_NG", "FDTD_niter", "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]
FLOAT = ["L", "learning_rate", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "siren_omega", "noise_scale", "reg_loss_weight", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "FDTD_free_space_distance", "FDTD_pml_thickness"]
BOOL = ["use_regularization_loss", "absorption_loss", "add_noise", "use_gpu", "avoid_zero_eps"]
STR = ["model_type", "type", "name", "freq_distribution", "solver", "FDTD_source_type", "FDTD_pulse_type"]
LIST = ["PER_LAYER_THICKNESS", "TRCWA_L_grid", "FDTD_source_position", "target_reflectance_spectrum", "target_transmittance_spectrum", "physical_wavelength_range"]
POSITIVE = ["L", "n_neurons", "Nx", "Ny", "N_layers", "N_freq", "learning_rate", "iterations", "eps_oversampling", "noise_scale", "TRCWA_NG", "reg_loss_weight", "FDTD_niter", "FDTD_free_space_distance", "FDTD_pml_thickness",
            "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]
OPTIONS = ["type", "solver", "freq_distribution", "FDTD_source_type", "FDTD_pulse_type", "model_type"]
NAN = "nan"  # JSON-able stand-in


@st.composite
def valid(draw):
    o = draw(st.integers(1, 3))
    NL = draw(st.integers(1, 5))
    n = draw(st.integers(1, 6))
    pos = lambda lo, hi: draw(st.floats(lo, hi))
    re = draw(st.tuples(st.floats(-50, 10), st.one_of(st.just(0.0), st.floats(0, 50))))
    im = draw(st.tuples(st.floats(-2, 2), st.one_of(st.just(0.0), st.floats(0, 5))))
    lo = draw(st.floats(0.3, 3.0))
    minpts = draw(st.integers(1, 40))
    free = draw(st.floats(0.3, 3.0))
    cells = int(max(10.0 / lo, minpts) * free * 0.999)
    return dict(
        name=draw(st.text(min_size=0, max_size=6)), seed=draw(st.integers(0, 10 ** 6)), use_gpu=False, model_type=draw(st.sampled_from(["siren", "nerf"])), iterations=draw(st.integers(1, 10000)), learning_rate=pos(1e-9, 2.0),
        type=draw(st.sampled_from(["classification", "regression"])), reg_loss_weight=pos(1e-9, 10.0), use_regularization_loss=draw(st.booleans()), L=pos(1e-3, 6.0), absorption_loss=draw(st.booleans()),
        n_neurons=draw(st.integers(1, 200)), hidden_layers=draw(st.integers(0, 12)), encoding_dim=4, siren_omega=pos(0.1, 40.0), add_noise=draw(st.booleans()), noise_scale=pos(1e-9, 1.0), eps_oversampling=o,
        real_min_eps=re[0], real_max_eps=re[0] + re[1], imag_min_eps=im[0], imag_max_eps=im[0] + im[1], solver=draw(st.sampled_from(["TRCWA", "FDTD"])), Nx=o * draw(st.integers(1, 5)), Ny=o * draw(st.integers(1, 5)), N_layers=NL,
        PER_LAYER_THICKNESS=draw(st.one_of(st.lists(st.floats(1e-3, 5.0), min_size=1, max_size=1), st.lists(st.floats(1e-3, 5.0), min_size=NL, max_size=NL))),
        TRCWA_L_grid=draw(st.sampled_from([[[0.1, 0.0], [0.0, 0.1]], [[1.0, 0.2], [-0.3, 0.8]], [[0.5, -0.5], [0.1, 2.0]]])), TRCWA_NG=draw(st.integers(1, 60)), TRCWA_TOP_LAYER_EPS=pos(1.0, 4.0), TRCWA_BOTTOM_LAYER_EPS=pos(1.0, 4.0),
        FDTD_source_type=draw(st.sampled_from(["line", "point"])), FDTD_pulse_type=draw(st.sampled_from(["continuous", "hanning", "ricker"])), FDTD_pml_thickness=pos(0.1, 3.0),
        FDTD_source_position=draw(st.lists(st.floats(0.01, 5.0), min_size=2, max_size=3)), FDTD_free_space_distance=free, FDTD_niter=draw(st.integers(1, 500)),
        FDTD_gridpoints_from_material_to_detector=draw(st.integers(1, max(1, cells))) if cells >= 1 else 1, FDTD_min_gridpoints_per_unit_magnitude=minpts, avoid_zero_eps=draw(st.booleans()),
        target_reflectance_spectrum=draw(st.lists(st.sampled_from([0.0, 0.3, 1.0]), min_size=n, max_size=n)), target_transmittance_spectrum=draw(st.lists(st.sampled_from([0.0, 0.3, 1.0]), min_size=n, max_size=n)),
        physical_wavelength_range=[lo * 1e-6, (lo + draw(st.floats(0.01, 9.0))) * 1e-6], freq_distribution=draw(st.sampled_from(["linear", "log"])), N_freq=n)


words = st.text(alphabet="abcdefgTRCWAFDNIL_", min_size=1, max_size=8)


@st.composite
def corruption(draw):
    """[kind, key, payload]"""
    kind = draw(st.sampled_from(["missing", "unknown", "int type", "float type", "bool type", "str type", "list type", "positive", "range", "option", "list length", "list element", "oversampling", "detector", "L grid", "nan", "grid"]))
    bad = lambda *xs: draw(st.sampled_from(list(xs)))
    if kind == "missing":
        return [kind, draw(st.sampled_from(KEYS)), None]
    if kind == "unknown":
        return [kind, draw(st.one_of(words, st.sampled_from(["nx", "NX", "Nz", "epsilon", "learning_rates", "eps", "thickness", "wavelength", " Nx", "solver "])).filter(lambda s: s not in KEYS and s not in ("model", "results", "thicknesses"))), bad(1, None, "x", [1.0])]
    if kind == "int type":
        return [kind, draw(st.sampled_from(INT)), bad(1.5, "3", None, [1], 2.0)]
    if kind == "float type":
        return [kind, draw(st.sampled_from(FLOAT)), bad("0.5", None, [0.5], 1)]
    if kind == "bool type":
        return [kind, draw(st.sampled_from(BOOL)), bad(1, 0, "true", None, 0.0)]
    if kind == "str type":
        return [kind, draw(st.sampled_from(STR)), bad(3, None, ["TRCWA"], 1.5)]
    if kind == "list type":
        return [kind, draw(st.sampled_from(LIST)), bad(3, None, "abc", 0.5)]
    if kind == "positive":
        return [kind, draw(st.sampled_from(POSITIVE)), bad(0, -1, -100)]
    if kind == "range":
        return [kind, draw(st.sampled_from(["real", "imag", "wavelength", "wavelength equal", "wavelength zero", "wavelength negative"])), draw(st.floats(1e-6, 50))]
    if kind == "option":
        return [kind, draw(st.sampled_from(OPTIONS)), draw(st.one_of(st.just(""), words, st.sampled_from(["trcwa", "Fdtd", "Linear", "LOG", "lin", "plane", "sine", "Siren", "regress", "pulse", "Ricker", "ricker ", "gaussian", "lines", "loglog", "logarithmic", "classifications", "TRCWA ", "RCWA", "area", "Point"]))
                .filter(lambda s: s not in ("TRCWA", "FDTD", "log", "linear", "line", "point", "siren", "nerf", "voxel", "regression", "classification", "ricker", "hanning", "continuous")))]
    if kind == "list length":
        return [kind, draw(st.sampled_from(["PER_LAYER_THICKNESS", "FDTD_source_position", "physical_wavelength_range"])), draw(st.integers(0, 6))]
    if kind == "list element":
        return [kind, draw(st.sampled_from(["PER_LAYER_THICKNESS", "FDTD_source_position", "target_reflectance_spectrum", "target_transmittance_spectrum", "physical_wavelength_range"])), [draw(st.integers(0, 9)), bad(-1.0, -1e-9, NAN, "zero", "a", None)]]
    if kind == "oversampling":
        return [kind, bad("Nx", "Ny"), draw(st.integers(2, 6))]
    if kind == "detector":
        return [kind, "FDTD_gridpoints_from_material_to_detector", draw(st.integers(1, 50))]
    if kind == "grid":  # an entry that may be there
        return [kind, "FDTD_grid", draw(st.lists(st.sampled_from([1.0, 5.0, 30, 1]), min_size=1, max_size=4)) + [bad(0, 0.0, -1.0, -3, NAN)] + draw(st.lists(st.sampled_from([1.0, 7]), max_size=2))]
    if kind == "L grid":
        return [kind, bad("dim0", "dim1"), bad("swapped", "equal")]
    return [kind, draw(st.sampled_from(["real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "L", "learning_rate", "noise_scale", "reg_loss_weight", "FDTD_free_space_distance", "FDTD_pml_thickness"])), None]


def apply(d, c):
    """Corrupts the plain dictionary; returns False when this corruption does not apply."""
    kind, key, x = c
    if key not in d and kind not in ("unknown", "range", "L grid", "grid"):
        return False  # removed by another corruption
    if kind == "missing":
        del d[key]
    elif kind == "unknown":
        d[key] = x
    elif kind.endswith("type"):
        d[key] = x
    elif kind == "grid":
        d[key] = [float("nan") if e == NAN else e for e in x]
    elif kind == "positive":
        d[key] = float(x) if key in FLOAT else x
    elif kind == "nan":
        d[key] = float("nan")
    elif kind == "range":
        if any(k not in d for k in ("real_max_eps", "imag_max_eps", "real_min_eps", "imag_min_eps", "physical_wavelength_range")):
            return False
        w = d["physical_wavelength_range"]
        if key in ("real", "imag"):
            d[key + "_min_eps"] = d[key + "_max_eps"] + x if isinstance(d[key + "_max_eps"], float) else 1.0
        elif not isinstance(w, list) or len(w) != 2:
            return False
        elif key == "wavelength":
            d["physical_wavelength_range"] = w[::-1]
        elif key == "wavelength equal":
            d["physical_wavelength_range"] = [w[0], w[0]]
        elif key == "wavelength zero":
            d["physical_wavelength_range"] = [0.0, w[1]]
        else:
            d["physical_wavelength_range"] = [-x * 1e-6, w[1]]
    elif kind == "option":
        d[key] = x
    elif kind == "list length":
        v = d[key]
        if not isinstance(v, list) or not v:
            return False
        ok = {"PER_LAYER_THICKNESS": (1, d.get("N_layers")), "FDTD_source_position": (2, 3), "physical_wavelength_range": (2,)}[key]
        if x in ok:
            return False
        d[key] = [v[k % len(v)] for k in range(x)]
    elif kind == "list element":
        v = d[key]
        if not isinstance(v, list) or not v:
            return False
        i, e = x
        if e == "zero" and key.startswith("target"):
            return False
        e = {NAN: float("nan"), "zero": 0.0}.get(e, e) if not isinstance(e, float) else e
        v = list(v)
        v[i % len(v)] = e
        d[key] = v
    elif kind == "oversampling":
        d["eps_oversampling"] = x
        if not isinstance(d[key], int) or d[key] % x == 0:
            d[key] = x * 2 + 1
        other = "Ny" if key == "Nx" else "Nx"
        if isinstance(d.get(other), int):
            d[other] *= x
    elif kind == "detector":
        w = d.get("physical_wavelength_range")
        if not (isinstance(w, list) and len(w) == 2 and all(isinstance(e, float) and e > 0 for e in w) and isinstance(d.get("FDTD_min_gridpoints_per_unit_magnitude"), int) and isinstance(d.get("FDTD_free_space_distance"), float)):
            return False
        d[key] = int(max(1e-6 / (w[0] * 0.1), d["FDTD_min_gridpoints_per_unit_magnitude"]) * max(d["FDTD_free_space_distance"], 0) * 1.001 + 1e-9) + x
    elif kind == "L grid":
        g = copy.deepcopy(d.get("TRCWA_L_grid"))
        if not isinstance(g, list):
            return False
        k = 0 if key == "dim0" else 1
        g[k] = g[k][::-1] if x == "swapped" else [g[k][0], g[k][0]]
        d["TRCWA_L_grid"] = g
    return True


class Trip:
    """Stands in for a permittivity grid and records any use."""

    touched = False

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        Trip.touched = True
        raise TypeError("trip")

    def __getattr__(self, n):
        Trip.touched = True
        raise AttributeError(n)

    def __getitem__(self, k):
        Trip.touched = True
        raise TypeError("trip")

    def __len__(self):
        Trip.touched = True
        return 1

    def __array__(self, *a, **k):
        Trip.touched = True
        raise TypeError("trip")


class TripModel(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.calls = 0

    def forward(self, *a):
        self.calls += 1
        raise RuntimeError("trip")


def dotmap(d, dynamic):
    return DotMap(copy.deepcopy(d), _dynamic=dynamic)


def refused(d, dynamic, what):
    Trip.touched = False
    cfg = dotmap(d, dynamic)
    try:
        nidn.compute_spectrum(Trip(), cfg)
    except Exception:  # noqa: BLE001 - any error refuses
        if Trip.touched:
            raise Violation(f"compute_spectrum started simulating a configuration with {what}")
    else:
        raise Violation(f"compute_spectrum accepted a configuration with {what}")
    train_refused(d, dynamic, what)


def train_refused(d, dynamic, what):
    cfg = dotmap(d, dynamic)
    model = TripModel()
    cfg["model"] = model
    try:
        with quiet():
            nidn.run_training(cfg)
    except Exception:  # noqa: BLE001
        if model.calls:
            raise Violation(f"run_training evaluated the model of a configuration with {what}")
    else:
        raise Violation(f"run_training accepted a configuration with {what}")


@SUITE.case("corrupted", st.tuples(valid(), st.lists(corruption(), min_size=1, max_size=2), st.booleans()).map(list), quick=4000, shards=16, rule="corrupted configurations are refused by simulation and training before anything runs")
def corrupted_case(w, rec):
    d, cs, dynamic = w
    d = copy.deepcopy(d)
    d["use_gpu"] = False
    applied = [c for c in cs if apply(d, c)]
    # a second corruption must not repair the first one; judged only when at least one is certainly in place
    if len(applied) == 2 and not disjoint(applied):
        return
    if not applied:
        return
    what = "; ".join(f"{k} {key} {x!r}" for k, key, x in applied)
    if all(c[0] == "option" and c[1] == "model_type" for c in applied):
        # only training builds models; no model is given here
        cfg = dotmap(d, dynamic)
        cfg.iterations = 1
        try:
            with quiet():
                nidn.run_training(cfg)
        except Exception:  # noqa: BLE001
            pass
        else:
            raise Violation(f"run_training accepted {what}")
    else:
        refused(d, dynamic, what)
    rec.interesting()
    rec.label(*[c[0] for c in applied])


NEAR = dict(type=["class", "regressions", "Regression", "classification "], solver=["trcwa", "RCWA", "FDTD ", "fdtd", "FDFD", "both", "TRCWA,FDTD"], freq_distribution=["lin", "Log", "logarithmic", "uniform", "random", "geom", "log10"],
            FDTD_source_type=["lines", "Line", "plane", "dipole", "array", "point "], FDTD_pulse_type=["pulse", "gaussian", "Ricker", "sine", "cw", "hann", "mexican hat", "continuos"])
PAIRS = [[k, w] for k in NEAR for w in NEAR[k] + ["", " ", k]] + [[k, w] for k in NEAR for o in NEAR if o != k for w in dict(type=["regression", "classification"], solver=["TRCWA", "FDTD"], freq_distribution=["linear", "log"], FDTD_source_type=["line", "point"], FDTD_pulse_type=["ricker", "hanning", "continuous"])[o]]


@SUITE.case("options", st.tuples(st.sampled_from(PAIRS), valid(), st.booleans()).map(list), quick=500, shards=8, rule="an option that is nearly one of the known ones, or one of another entry, is refused")
def options_case(w, rec):
    (key, word), d, dynamic = w
    refused(dict(copy.deepcopy(d), use_gpu=False, **{key: word}), dynamic, f"{key} = {word!r}")
    rec.interesting()
    rec.label(key)


elements = st.tuples(valid(), st.integers(1, 14), st.sampled_from(["PER_LAYER_THICKNESS", "target_reflectance_spectrum", "target_transmittance_spectrum"]), st.floats(0, 1, exclude_max=True), st.sampled_from([-1.0, -1e-9, NAN, "zero"]), st.booleans()).map(list)


@SUITE.case("elements", elements, quick=600, shards=8, rule="one bad element anywhere in a list of any length is found")
def elements_case(w, rec):
    d, m, key, where, bad, dynamic = w
    d = copy.deepcopy(d)
    g = np.random.default_rng(m)
    d["N_layers" if key == "PER_LAYER_THICKNESS" else "N_freq"] = m
    for k in [key] if key == "PER_LAYER_THICKNESS" else ["target_reflectance_spectrum", "target_transmittance_spectrum"]:
        d[k] = [float(x) for x in np.round(g.uniform(0.1, 0.9, m), 3)]
    i = int(where * m)
    d[key][i] = {NAN: float("nan"), "zero": -1e-12 if key.startswith("target") else 0.0}.get(bad, bad)
    refused(d, dynamic, f"{d[key][i]} as element {i} of {m} in {key}")
    rec.interesting(m > 1)


def involved(c):
    kind, key, _ = c
    if kind == "range":
        return {"real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "physical_wavelength_range", "FDTD_gridpoints_from_material_to_detector"}
    if kind == "L grid":
        return {"TRCWA_L_grid"}
    if kind == "oversampling":
        return {"Nx", "Ny", "eps_oversampling"}
    if kind == "detector":
        return {key, "FDTD_free_space_distance", "FDTD_min_gridpoints_per_unit_magnitude", "physical_wavelength_range"}
    if kind == "list length":
        return {key, "N_layers"}
    return {key}


def disjoint(cs):
    return not (involved(cs[0]) & involved(cs[1]))


RUNTIME = dict(target_frequencies=lambda: np.array([1.0, 2.0]), out_features=lambda: 2, best_model_state_dict=dict, results=DotMap, model=TripModel, FDTD_grid=lambda: [5.0, 2.0, 1.0], N_materials=lambda: 10,
               material_collection=lambda: nidn.MaterialCollection([1.0]), thicknesses=lambda: torch.tensor([0.3]), FDTD_grid_scaling=lambda: 10.0)


@SUITE.case("valid", st.tuples(valid(), st.booleans(), st.lists(st.sampled_from(sorted(RUNTIME)), unique=True)).map(list), quick=1500, shards=8, rule="valid configurations pass the validation unchanged")
def valid_case(w, rec):
    check = private("nidn.utils.validate_config", "_validate_config")
    d, dynamic, extra = w
    cfg = dotmap(d, dynamic)
    for k in extra:  # entries added at run time
        cfg[k] = RUNTIME[k]()
    keys = list(cfg.keys())
    try:
        check(cfg)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"a valid configuration was refused: {type(e).__name__}: {e}")
    require(list(cfg.keys()) == keys, "validation changed the entries")
    for k in d:
        require(type(cfg[k]) is type(d[k]) and (cfg[k] == d[k]), "validation changed {} from {} to {}", k, d[k], cfg[k])
    rec.interesting()
    rec.label(d["solver"], d["type"])


small = dict(Nx=1, Ny=1, eps_oversampling=1, n_neurons=3, hidden_layers=1, iterations=1, TRCWA_NG=3, real_min_eps=1.0, real_max_eps=6.0, imag_min_eps=0.0, imag_max_eps=1.0)


@SUITE.case("accepted", st.tuples(valid(), st.booleans()).map(list), quick=120, shards=16, rule="valid (small) configurations are simulated and trained, and keep their settings")
def accepted_case(w, rec):
    d, dynamic = w
    d = dict(d, **small, use_gpu=False, solver="TRCWA")
    n = d["N_freq"]
    cfg = dotmap(d, dynamic)
    nidn.get_frequency_points(cfg)
    R, T = spectrum(torch.full((1, 1, d["N_layers"], n), 2.0 + 0.1j), cfg)
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "non-finite spectrum of a valid configuration")
    cfg2 = dotmap(d, dynamic)
    with quiet():
        out = nidn.run_training(cfg2)
    require(len(out.results.loss_log) == 1, "a valid configuration was not trained")
    for c in (cfg, out):
        for k in d:
            require(type(c[k]) is type(d[k]) and c[k] == d[k], "running changed {} from {} to {}", k, d[k], c[k])
    rec.interesting()


fd = st.fixed_dictionaries(dict(lo=st.floats(0.9, 2.0), src=st.booleans(), pulse=st.sampled_from(["continuous", "hanning", "ricker"]), pos3=st.booleans(), thick=st.integers(1, 2), det=st.integers(1, 3)))


@SUITE.case("accepted fdtd", fd, quick=24, shards=8, rule="valid time-domain configurations are simulated")
def accepted_fdtd_case(v, rec):
    s = max(10.0 / v["lo"], 10)
    cfg = base_cfg(solver="FDTD", N_layers=2, PER_LAYER_THICKNESS=[4.05 / s] * v["thick"], FDTD_pml_thickness=5.3 / s, FDTD_free_space_distance=4.1 / s, FDTD_source_position=[5.5 / s, 1.5 / s] + ([0.5 / s] if v["pos3"] else []),
                   FDTD_niter=70, FDTD_pulse_type=v["pulse"], FDTD_source_type="line" if v["src"] else "point", FDTD_gridpoints_from_material_to_detector=v["det"])
    freq_cfg(cfg, v["lo"], v["lo"] + 0.3, 1)
    R, T = spectrum(torch.full((1, 1, 2, 1), 2.0 + 0.1j), cfg)
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "non-finite spectrum of a valid configuration")
    rec.interesting()


@SUITE.case("defaults", st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(["delete", "replace", "inside"])).map(list), max_size=5), quick=200, shards=4, rule="loading the defaults gives a fresh, equal, valid configuration every time")
def defaults_case(changes, rec):
    a = nidn.load_default_cfg()
    keep = copy.deepcopy(a.toDict())
    for k, how in changes:
        if k not in a:
            continue
        if how == "delete":
            del a[k]
        elif how == "replace":
            a[k] = "changed"
        elif isinstance(a[k], list) and a[k]:
            a[k][0] = -5.0
    b = nidn.load_default_cfg()
    require(b.toDict() == keep, "changing one default configuration changed the next one")
    require(sorted(b.keys()) == KEYS, "default entries differ")
    refused_none(b)
    try:
        b.entry_that_does_not_exist
    except (AttributeError, KeyError):
        pass
    else:
        raise Violation("a missing entry of the default configuration does not raise")
    rec.interesting(len(changes) > 0)


def refused_none(cfg):
    Trip.touched = False
    cfg = copy.deepcopy(cfg)
    cfg["target_frequencies"] = nidn.get_frequency_points(cfg)[1]
    try:
        nidn.compute_spectrum(Trip(), cfg)
    except Exception:  # noqa: BLE001 - the stand-in grid cannot be simulated
        pass
    require(Trip.touched, "the default configuration was refused")
