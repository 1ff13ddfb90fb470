"""Target frequencies and unit conversions."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite

SUITE = Suite(
    "P14",
    "Random wavelength ranges (nanometres to millimetres, narrow and wide), counts from 1 to 400, both distributions; random numbers, arrays and tensors for the conversions. "
    "Non-trivial: more than two frequencies, or a non-scalar argument.",
    ["A single target frequency is the lower end (the longest wavelength).", "Relative rounding tolerance 1e-9."],
)
RT = 1e-9

rng = st.tuples(st.floats(-3, 3), st.one_of(st.floats(1e-4, 0.05), st.floats(0.05, 3.0))).map(lambda t: [10 ** t[0], 10 ** (t[0] + t[1])])
spec = st.fixed_dictionaries(dict(range=rng, n=st.one_of(st.integers(1, 12), st.integers(1, 400)), dist=st.sampled_from(["linear", "log"])))


def close(a, b, rt=RT):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= rt * np.abs(np.asarray(b)))


@SUITE.case("grid", spec, quick=3000, shards=8, rule="number, order, spacing and end points of the target frequencies")
def grid_case(v, rec):
    lo, hi = v["range"]
    f = np.asarray(nidn.compute_target_frequencies(lo * 1e-6, hi * 1e-6, v["n"], v["dist"]))
    require(f.shape == (v["n"],), "{} frequencies requested, shape {}", v["n"], f.shape)
    want = ref_frequencies(lo, hi, v["n"], v["dist"])
    require(close(f, want), "frequencies {} instead of {}", f[:5], want[:5])
    require(np.all(np.diff(f) > 0), "frequencies are not ascending: {}", f[:5])
    rec.interesting(v["n"] > 2)
    rec.label(v["dist"])


@SUITE.case("points", spec, quick=2000, shards=8, rule="get_frequency_points: physical wavelengths match the frequencies, both stored and returned; repeatable")
def points_case(v, rec):
    lo, hi = v["range"]
    cfg = nidn.load_default_cfg()
    cfg.physical_wavelength_range = [lo * 1e-6, hi * 1e-6]
    cfg.N_freq = v["n"]
    cfg.freq_distribution = v["dist"]
    for _ in range(2):  # also with frequencies already stored
        phys, f = nidn.get_frequency_points(cfg)
        want = ref_frequencies(lo, hi, v["n"], v["dist"])
        require(close(f, want), "frequencies {} instead of {}", f[:5], want[:5])
        require(np.asarray(phys).shape == (v["n"],) and close(phys, 1e-6 / want), "physical wavelengths {} instead of {}", phys[:5], 1e-6 / want[:5])
        require(np.array_equal(np.asarray(cfg.target_frequencies), np.asarray(f)), "stored frequencies differ from the returned ones")
    require(cfg.N_freq == v["n"] and cfg.physical_wavelength_range == [lo * 1e-6, hi * 1e-6] and cfg.freq_distribution == v["dist"], "configuration changed")
    rec.interesting(v["n"] > 2)
    rec.label(v["dist"])


@SUITE.case("changed", st.lists(spec, min_size=2, max_size=5), quick=400, shards=4, rule="one configuration changed in place again and again: every answer belongs to its current values")
def changed_case(vs, rec):
    cfg = nidn.load_default_cfg()
    shown = []
    for v in vs:
        lo, hi = v["range"]
        cfg.physical_wavelength_range[0], cfg.physical_wavelength_range[1] = lo * 1e-6, hi * 1e-6
        cfg.N_freq, cfg.freq_distribution = v["n"], v["dist"]
        phys, f = nidn.get_frequency_points(cfg)
        want = ref_frequencies(lo, hi, v["n"], v["dist"])
        require(np.shape(f) == (v["n"],) and close(f, want) and close(phys, 1e-6 / want), "frequencies {} instead of {} after a change of the configuration", f[:5], want[:5])
        require(np.array_equal(np.asarray(cfg.target_frequencies), np.asarray(f)), "stored frequencies differ from the returned ones")
        shown.append((phys, f, want))
    for phys, f, want in shown:
        require(np.shape(f) == want.shape and close(f, want) and close(phys, 1e-6 / want), "frequencies returned earlier were changed by a later call")
    rec.interesting()


@SUITE.case("spectrum frequencies", st.fixed_dictionaries(dict(range=st.tuples(grid_float(0.4, 5, 0.1), grid_float(0.2, 4, 0.1)).map(list), n=st.integers(1, 6), dist=st.sampled_from(["linear", "log"]))),
            quick=64, shards=8, rule="training and simulation use the same frequencies as get_frequency_points")
def used_case(v, rec):
    lo, hi = v["range"][0], v["range"][0] + v["range"][1]
    cfg = base_cfg(solver="TRCWA", iterations=1, Nx=1, Ny=1, N_layers=1, PER_LAYER_THICKNESS=[0.3], type="regression", n_neurons=8, hidden_layers=1)
    cfg.physical_wavelength_range = [lo * 1e-6, hi * 1e-6]
    cfg.N_freq, cfg.freq_distribution = v["n"], v["dist"]
    cfg.target_reflectance_spectrum = cfg.target_transmittance_spectrum = [0.5] * v["n"]
    with quiet():
        out = nidn.run_training(cfg)
    want = ref_frequencies(lo, hi, v["n"], v["dist"])
    require(close(out.target_frequencies, want), "training stored frequencies {} instead of {}", out.target_frequencies, want)
    rec.interesting(v["n"] > 1)


@SUITE.case("refused", st.text(max_size=8).filter(lambda s: s not in ("linear", "log")), quick=100, shards=2, rule="an unknown distribution is refused")
def refused_case(d, rec):
    try:
        nidn.compute_target_frequencies(1e-6, 2e-6, 4, d)
    except ValueError:
        pass
    else:
        raise Violation(f"distribution {d!r} was accepted")
    cfg = nidn.load_default_cfg()
    cfg.freq_distribution = d
    try:
        nidn.get_frequency_points(cfg)
    except ValueError:
        rec.interesting()
        return
    raise Violation(f"distribution {d!r} was accepted by get_frequency_points")


values = st.fixed_dictionaries(dict(x=st.lists(st.tuples(st.floats(-9, 15), st.booleans()).map(lambda t: 10 ** t[0]), min_size=1, max_size=6), kind=st.sampled_from(["float", "numpy", "torch", "matrix"])))


def arg(v):
    x = v["x"]
    if v["kind"] == "float":
        return x[0]
    if v["kind"] == "numpy":
        return np.array(x)
    if v["kind"] == "matrix":
        return np.array([x, x[::-1]])
    return torch.tensor(x)


@SUITE.case("conversions", values, quick=1000, shards=4, rule="values and inverses of the unit conversions on numbers and arrays")
def conversion_case(v, rec):
    from nidn.utils import convert_units as cu

    x = arg(v)
    keep = np.array(x, dtype=float)
    c, um = 299792458.0, 1e-6
    for name, fn, ref in (("freq_to_wl", nidn.freq_to_wl, 1 / keep), ("phys_freq_to_phys_wl", nidn.phys_freq_to_phys_wl, c / keep),
                          ("wl_to_phys_wl", nidn.wl_to_phys_wl, keep * um), ("phys_wl_to_wl", cu.phys_wl_to_wl, keep / um)):
        y = fn(x)
        require(np.shape(np.asarray(y)) == keep.shape and close(np.asarray(y), ref), "{}({}) = {} instead of {}", name, x, y, ref)
        require(np.array_equal(np.asarray(x, dtype=float), keep), "{} modified its argument", name)
    require(close(np.asarray(nidn.freq_to_wl(nidn.freq_to_wl(x))), keep), "freq_to_wl is not its own inverse at {}", x)
    require(close(np.asarray(nidn.phys_freq_to_phys_wl(nidn.phys_freq_to_phys_wl(x))), keep), "phys_freq_to_phys_wl is not its own inverse at {}", x)
    require(close(np.asarray(cu.phys_wl_to_wl(nidn.wl_to_phys_wl(x))), keep), "phys_wl_to_wl(wl_to_phys_wl) is not the identity at {}", x)
    require(close(np.asarray(nidn.wl_to_phys_wl(cu.phys_wl_to_wl(x))), keep), "wl_to_phys_wl(phys_wl_to_wl) is not the identity at {}", x)
    rec.interesting(v["kind"] != "float")
    rec.label(v["kind"])


@SUITE.case("field units", values, quick=600, shards=4, rule="simulation-unit field conversions: values, inverses, ratio")
def field_case(v, rec):
    from nidn.fdtd import conversions as fc

    x = arg(v)
    keep = np.array(x, dtype=float)
    eps0, mu0 = 8.8541878128e-12, 1.25663706212e-6
    for name, to, back, k in (("E", fc.simE_to_worldE, fc.worldE_to_simE, eps0 ** -0.5), ("H", fc.simH_to_worldH, fc.worldH_to_simH, mu0 ** -0.5)):
        require(close(np.asarray(to(x)), keep * k, 1e-6), "sim{0}_to_world{0}({1}) = {2} instead of {3}", name, x, to(x), keep * k)
        require(close(np.asarray(back(x)), keep / k, 1e-6), "world{0}_to_sim{0}({1}) = {2} instead of {3}", name, x, back(x), keep / k)
        require(close(np.asarray(back(to(x))), keep) and close(np.asarray(to(back(x))), keep), "conversions of {} are not mutually inverse at {}", name, x)
    rec.interesting(v["kind"] != "float")
    rec.label(v["kind"])
