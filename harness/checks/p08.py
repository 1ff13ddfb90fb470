"""The spectrum interface: purity, per-frequency values, refusal of bad input."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import fdtd_common as fc
from checks import p01, p02, p12

SUITE = Suite(
    "P08",
    "Random structures for both solvers, random call sequences on shared and fresh configurations, NaN positions, shape and configuration errors; "
    "non-trivial: more than one call or frequency, or an error that must be refused.",
    ["FDTD may store derived settings (expanded layer thicknesses, grid scaling) in the configuration it is given; the user's structure, targets and frequencies must stay."],
)

structure = st.one_of(
    st.tuples(st.just("uniform"), p01.stack), st.tuples(st.just("patterned"), p02.rcwa), st.tuples(st.just("fdtd"), fc.fdtd)).map(list)
trcwa_structure = st.one_of(st.tuples(st.just("uniform"), p01.stack), st.tuples(st.just("patterned"), p02.rcwa)).map(list)
MOD = dict(uniform=p01, patterned=p02, fdtd=fc)


def build(s):
    kind, v = s
    if kind == "fdtd":
        v = dict(v, extra=min(v["extra"], 45))
    cfg, eps, _ = MOD[kind].build(v)
    return cfg, eps


USER_KEYS = ["name", "seed", "Nx", "Ny", "N_layers", "N_freq", "physical_wavelength_range", "freq_distribution", "target_reflectance_spectrum",
             "target_transmittance_spectrum", "TRCWA_L_grid", "TRCWA_NG", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "solver",
             "FDTD_niter", "FDTD_pml_thickness", "FDTD_source_position", "FDTD_free_space_distance", "FDTD_pulse_type", "FDTD_source_type",
             "FDTD_min_gridpoints_per_unit_magnitude", "FDTD_gridpoints_from_material_to_detector", "real_min_eps", "real_max_eps", "L", "type", "iterations"]


def user_view(cfg):
    return {k: copy.deepcopy(cfg[k]) for k in USER_KEYS}


def purity(w, rec):
    s, seed = w
    cfg, eps = build(s)
    t = torch.tensor(eps)
    before, user, freqs, thick = t.clone(), user_view(cfg), np.array(cfg.target_frequencies).copy(), list(cfg.PER_LAYER_THICKNESS)
    R, T = nidn.compute_spectrum(t, cfg)
    n = cfg.N_freq
    require(len(R) == n and len(T) == n, "{} / {} values for {} frequencies", len(R), len(T), n)
    for x in list(R) + list(T):
        require(torch.is_tensor(x) and x.numel() == 1, "entries must be scalar tensors, got {}", type(x))
    R, T = to_np(R), to_np(T)
    require(torch.equal(t, before), "the permittivity grid was modified")
    require(user_view(cfg) == user, "configuration entries were modified: {}", [k for k in USER_KEYS if user_view(cfg)[k] != user[k]])
    require(np.allclose(np.array(cfg.target_frequencies), freqs, rtol=1e-12), "target frequencies were modified")
    th = list(cfg.PER_LAYER_THICKNESS)
    require(th == thick or th == thick * cfg.N_layers, "layer thicknesses became {}", th)
    # again on the same configuration, then after another structure, then on a fresh one
    R2, T2 = spectrum(t, cfg)
    require(np.allclose(R, R2, rtol=1e-9, atol=1e-12) and np.allclose(T, T2, rtol=1e-9, atol=1e-12), "second call differs: {} {} vs {} {}", R, T, R2, T2)
    rng = np.random.default_rng(seed)
    other = torch.tensor(eps * (1 + 0.3 * rng.random(eps.shape)))
    spectrum(other, cfg)
    cfg3, _ = build(s)
    torch.manual_seed(seed)
    R3, T3 = spectrum(torch.tensor(eps), cfg3)
    require(np.allclose(R, R3, rtol=1e-9, atol=1e-12) and np.allclose(T, T3, rtol=1e-9, atol=1e-12), "fresh configuration differs: {} {} vs {} {}", R, T, R3, T3)
    rec.interesting()
    rec.label(s[0])


def perfreq(w, rec):
    s, k, seed = w
    cfg, eps = build(s)
    n = cfg.N_freq
    if n < 2:
        s = [s[0], dict(s[1], n=2)]
        cfg, eps = build(s)
        n = 2
    R, T = spectrum(torch.tensor(eps), cfg)
    # changing the permittivities at all other frequencies leaves the value at k alone
    k = k % n
    rng = np.random.default_rng(seed)
    e2 = eps.copy()
    for j in range(n):
        if j != k:
            e2[..., j] = e2[..., j] + 0.5 + rng.random()
    cfg2, _ = build(s)
    R2, T2 = spectrum(torch.tensor(e2), cfg2)
    require(abs(R[k] - R2[k]) < 1e-9 and abs(T[k] - T2[k]) < 1e-9, "value {} changed with other frequencies' permittivities", k)
    # frequency order: exchanging the permittivities of two frequencies is not exchanging results, but a single-frequency
    # run at that frequency gives the same value
    if s[0] != "fdtd":
        cfg1, _ = build(s)
        cfg1.N_freq = 1
        cfg1.target_frequencies = np.array([cfg.target_frequencies[k]])
        R1, T1 = spectrum(torch.tensor(eps[..., k:k + 1].copy()), cfg1)
        require(abs(R1[0] - R[k]) < 1e-9 and abs(T1[0] - T[k]) < 1e-9, "single-frequency run differs: {} vs {}", R1[0], R[k])
    rec.interesting()
    rec.label(s[0])


def anyorder(w, rec):
    """The RCWA solver takes the frequencies as they are configured: in any order, repeated, as list or array."""
    s, picks, container = w
    cfg, eps = build([s[0], dict(s[1], n=3)])
    R, T = spectrum(torch.tensor(eps), cfg)
    idx = [p % 3 for p in picks]
    cfg2, _ = build([s[0], dict(s[1], n=3)])
    f = [float(cfg.target_frequencies[i]) for i in idx]
    cfg2.N_freq = len(idx)
    cfg2.target_frequencies = f if container == "list" else np.array(f)
    R2, T2 = spectrum(torch.tensor(eps[..., idx].copy()), cfg2)
    require(len(R2) == len(idx) and len(T2) == len(idx), "{} values for {} frequencies", len(R2), len(idx))
    for k, i in enumerate(idx):
        require(abs(R2[k] - R[i]) < 1e-9 and abs(T2[k] - T[i]) < 1e-9, "frequencies {}: value {} is {} {} instead of {} {}", f, k, R2[k], T2[k], R[i], T[i])
    rec.interesting(idx != sorted(set(idx)))
    rec.label(s[0], container)


fdtd_structure = st.tuples(st.just("fdtd"), fc.fdtd).map(list)
SUITE.case("purity trcwa", st.tuples(trcwa_structure, st.integers(0, 999)).map(list), quick=300, shards=8)(purity)
SUITE.case("purity fdtd", st.tuples(fdtd_structure, st.integers(0, 999)).map(list), quick=32, shards=16)(purity)
SUITE.case("per frequency trcwa", st.tuples(trcwa_structure, st.integers(0, 4), st.integers(0, 999)).map(list), quick=300, shards=8)(perfreq)
SUITE.case("any order", st.tuples(trcwa_structure, st.lists(st.integers(0, 2), min_size=1, max_size=4), st.sampled_from(["list", "numpy"])).map(list), quick=240, shards=8,
           rule="the RCWA solver honours frequencies given in any order, repeated or as a list")(anyorder)
SUITE.case("per frequency fdtd", st.tuples(fdtd_structure, st.integers(0, 4), st.integers(0, 999)).map(list), quick=32, shards=16)(perfreq)


@SUITE.case("nan", st.tuples(structure, st.tuples(*[st.integers(0, 9)] * 4).map(list), st.sampled_from(["re", "im", "both"])).map(list), quick=200, shards=8,
            rule="one NaN entry anywhere in the grid")
def nan_case(w, rec):
    s, pos, part = w
    cfg, eps = build(s)
    if s[0] == "fdtd" and pos[0] + pos[1] > 9:  # laterally resolved grids, too
        cfg.Nx, cfg.Ny = 1 + pos[0] % 4, 1 + pos[1] % 4
        eps = np.tile(eps, (cfg.Nx, cfg.Ny, 1, 1))
    idx = tuple(p % m for p, m in zip(pos, eps.shape))
    nan = float("nan")
    eps[idx] = {"re": complex(nan, 0.5), "im": complex(2.0, nan), "both": complex(nan, nan)}[part]
    for validate in (True, False):
        try:
            nidn.compute_spectrum(torch.tensor(eps), cfg, validate_cfg=validate)
        except ValueError:
            pass
        else:
            raise Violation(f"NaN at {idx} was accepted by {s[0]}")
    rec.interesting()
    rec.label(s[0])


@SUITE.case("shape", st.tuples(trcwa_structure, st.integers(0, 3), st.sampled_from([-1, 1, 2])).map(list), quick=150, shards=8,
            rule="grid shape disagrees with the configuration in one dimension (RCWA)")
def shape_case(w, rec):
    s, axis, delta = w
    cfg, eps = build(s)
    m = eps.shape[axis] + delta
    if m < 1:
        m = eps.shape[axis] + 1
    e2 = np.take(eps, np.arange(m) % eps.shape[axis], axis)
    try:
        nidn.compute_spectrum(torch.tensor(e2), cfg)
    except Exception:
        pass
    else:
        raise Violation(f"grid of shape {e2.shape} accepted for Nx,Ny,layers,freq = {cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq}")
    rec.interesting()
    rec.label(f"axis{axis}")


BAD = {
    "Nx": 0, "N_layers": 0, "TRCWA_NG": 0, "L": 0.0, "solver": "GRCWA", "type": "other", "freq_distribution": "sqrt", "FDTD_niter": 0,
    "PER_LAYER_THICKNESS": [-1.0], "physical_wavelength_range": [2e-6, 1e-6], "N_freq": 1.5, "FDTD_source_type": "ring", "FDTD_pulse_type": "square",
    "name": 3, "real_min_eps": 1e9, "unknown_key": 1, "use_gpu": "no", "TRCWA_L_grid": [[0.0, 0.1], [0.1, 0.0]],
}


@SUITE.case("invalid config", st.tuples(structure, st.sampled_from(sorted(BAD))).map(list), quick=150, shards=8,
            rule="one invalid entry; must be refused before anything is simulated")
def invalid_case(w, rec):
    s, key = w
    cfg, eps = build(s)
    if key == "solver" or key == "unknown_key" or key in cfg:
        cfg[key] = copy.deepcopy(BAD[key])
    t = torch.tensor(eps)
    try:
        nidn.compute_spectrum(t, cfg)
    except Exception:
        pass
    else:
        raise Violation(f"configuration with {key}={BAD[key]!r} was accepted")
    rec.interesting()
    rec.label(key)


rcwa_change = st.one_of(
    st.tuples(st.just("t"), grid_float(0.02, 0.9, 0.02)), st.tuples(st.just("top"), st.sampled_from([1.0, 2.25, 4.0])), st.tuples(st.just("bot"), st.sampled_from([1.0, 2.25, 6.0])),
    st.tuples(st.just("Lx"), grid_float(0.2, 1.5, 0.1)), st.tuples(st.just("Ly"), grid_float(0.2, 1.5, 0.1)), st.tuples(st.just("NG"), st.integers(4, 12)),
    st.tuples(st.just("wl"), st.sampled_from([[0.7, 1.1], [1.0, 1.3], [1.6, 2.9]])), st.tuples(st.just("shared"), st.booleans()), st.tuples(st.just("n"), st.integers(1, 3)),
    st.tuples(st.just("repeat"), st.just(0)), st.tuples(st.just("in place"), st.integers(0, 99))).map(list)


@SUITE.case("history trcwa", st.tuples(trcwa_structure, st.lists(rcwa_change, min_size=1, max_size=5)).map(list), quick=240, shards=16,
            rule="a series of calls in one process, each with one setting or entry changed (also the same tensor changed in place), each compared with the reference solution")
def history_trcwa_case(w, rec):
    (kind, v), changes = w
    v = dict(v)
    cfg, eps, th = MOD[kind].build(v)
    t = torch.tensor(eps)

    def judge(R, T, what):
        fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], v.get("dist", "linear"))
        require(len(R) == v["n"] and len(T) == v["n"], "{} values for {} frequencies", len(R), v["n"])
        for k in range(v["n"]):
            if kind == "uniform":
                Rr, Tr, tR, tT = p01.reference(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
            else:
                Rr, Tr = p02.ref_rt(v, eps[:, :, :, k], th, fs[k], 1e5)
                R2, T2 = p02.ref_rt(v, eps[:, :, :, k], th, fs[k], 2e5)
                tR, tT = 1e-6 + 4 * abs(Rr - R2), 1e-6 + 4 * abs(Tr - T2)
            require(abs(R[k] - Rr) <= tR and abs(T[k] - Tr) <= tT, "{}: R, T = {}, {} instead of {}, {}", what, R[k], T[k], Rr, Tr)

    judge(*spectrum(t, cfg), "first call")
    for key, x in changes:
        if key == "in place":
            rng = np.random.default_rng(x)
            idx = tuple(int(rng.integers(0, m)) for m in eps.shape)
            eps[idx] += 1.5
            t[idx] += 1.5
        elif key != "repeat":
            if key == "t":
                v["layers"] = [dict(v["layers"][0], t=x)] + v["layers"][1:]
            else:
                v[key] = x
            cfg, eps, th = MOD[kind].build(v)
            t = torch.tensor(eps)
        judge(*spectrum(t, cfg), f"after changing {key}")
    rec.interesting(any(k != "repeat" for k, _ in changes))
    rec.label(kind, *{k for k, _ in changes})


@SUITE.case("history fdtd", st.tuples(fc.fdtd, st.lists(p12.change, min_size=1, max_size=2)).map(list), quick=16, shards=16,
            rule="a series of FDTD calls in one process, each with one setting changed, each compared with the model pipeline, then the first one again")
def history_fdtd_case(w, rec):
    v, cs = w
    v = dict(v, extra=min(v["extra"], 45), n=1, layers=v["layers"][:2])
    cfg, eps, _ = fc.build(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    u = v
    for c in cs:
        u = p12.changed(u, c)
        p12.pipeline_case(u, rec)
    cfg, eps, _ = fc.build(v)
    R2, T2 = spectrum(torch.tensor(eps), cfg)
    require(np.allclose(R, R2, rtol=1e-9, atol=1e-12) and np.allclose(T, T2, rtol=1e-9, atol=1e-12), "the first call repeated differs: {} {} vs {} {}", R, T, R2, T2)
    rec.interesting(u != v)
