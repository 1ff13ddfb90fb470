"""The FDTD spectrum pipeline against a model simulation and thin-film theory."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import fdtd_common as fc
from oracles import coef_ref, tmm
from oracles import yee_ref as Y

SUITE = Suite(
    "P12",
    "Random FDTD spectrum configurations (layers, wavelengths, resolution, distances, pulse and source types); reflectance and transmittance compared with a numpy model of "
    "the configured simulation. Non-trivial: at least one layer that is not vacuum and a non-zero reflected signal.",
    ["Lengths are generated away from cell boundaries, so that rounding to cells is unambiguous.",
     "Coefficient extraction sitting on a rounding-level threshold is skipped (counted as tie).",
     "Agreement with thin-film theory is required within the discretisation error of the configured resolution."],
)


def simulate(geo, eps, wl, v, niter, pulse, source):
    """Detector signals (transmission, reflection) of the model; eps None for free space."""
    g = Y.YeeRef((geo["Nx"], 3, 1), geo["spacing"])
    g.add_pml(0, False, geo["pml"])
    g.add_pml(0, True, geo["pml"])
    g.add_periodic(1)
    period = wl / Y.C0
    steps = int(period / g.dt + 0.5)
    wave = dict(continuous=lambda: Y.Wave("continuous", steps=steps, phase=0.0), hanning=lambda: Y.Wave("hanning", period=period, dt=1e-15, cycle=5),
                ricker=lambda: Y.Wave("ricker", gppw=wl / geo["spacing"]))[pulse]()
    x = geo["src"][0]
    if source == "line":
        cells = Y.line_cells([(x, x), (0, 3), (0, 0)])
        g.sources.append(Y.SoftSource(cells, Y.line_weights(cells, 1.0), wave))
    else:
        g.sources.append(Y.SoftSource([(x, geo["src"][1], 0)], [1.0], wave))
    dets = [Y.CellsDetector([(p, y, 0) for y in range(3)]) for p in (geo["t_det"], geo["r_det"])]
    g.detectors += dets
    if eps is not None:
        for i, e in enumerate(eps):
            a, b = geo["edges"][i], geo["edges"][i + 1]
            g.add_object([(a, b), (0, 3), (0, 1)], e.real, e.imag * 2 * math.pi * (Y.C0 / wl) * 8.8541878128e-12)
    g.run(niter)
    return [np.array([r[:, 2].mean() for r in d.E]) for d in dets], period / g.dt


def reference(v):
    cfg, eps, cells = fc.build(v)
    geo = fc.geometry(v)
    freqs = ref_frequencies(v["lo"], round(v["lo"] + v["span"], 6), v["n"], v["dist"])
    out = []
    for k, f in enumerate(freqs):
        wl = 1e-6 / f
        free, per = simulate(geo, None, wl, v, cfg.FDTD_niter, v["pulse"], v["source"])
        if v["pulse"] == "continuous" and abs(per % 1 - 0.5) < 1e-6:
            out.append(None)
            continue
        mat, _ = simulate(geo, eps[0, 0, :, k], wl, v, cfg.FDTD_niter, v["pulse"], v["source"])
        try:
            w = coef_ref.coefficients([free[0], mat[0]], [free[1], mat[1]], wl * 1e6, v["minpts"], tie=1e-4)
            # conditioning: Ricker sources are single precision in NIDN, so let the signals vary at that level
            level = 1e-7 if v["pulse"] == "ricker" else 1e-9
            rng = np.random.default_rng(7)
            spread = 0.0
            for _ in range(3):
                sg = [x + level * np.maximum.accumulate(np.abs(x)) * rng.standard_normal(len(x)) for x in (free[0], mat[0], free[1], mat[1])]
                p = coef_ref.coefficients(sg[:2], sg[2:], wl * 1e6, v["minpts"], tie=0)
                spread = max(spread, abs(p[0] - w[0]), abs(p[1] - w[1]))
            out.append(w + ((1e-4 if v["pulse"] == "ricker" else 1e-6) * max(1, *w) + 20 * spread,))
        except coef_ref.Tie:
            out.append(None)
    return cfg, eps, out


@SUITE.case("pipeline", fc.fdtd, quick=128, shards=16, rule="R and T of every wavelength equal the model's")
def pipeline_case(v, rec):
    cfg, eps, want = reference(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    require(len(R) == len(want), "{} values for {} wavelengths", len(R), len(want))
    for k, w in enumerate(want):
        if w is None:
            rec.label("tie")
            continue
        tol = w[2]
        if tol > 0.02:
            rec.label("ill-conditioned")
            continue
        require(abs(T[k] - w[0]) <= tol and abs(R[k] - w[1]) <= tol,
                "wavelength {}: R, T = {}, {} instead of {}, {}", k, R[k], T[k], w[1], w[0])
        rec.interesting(np.abs(eps - 1).max() > 0)
    rec.label(v["pulse"], v["source"], f"{len(v['layers'])} layers")


many = st.tuples(fc.fdtd, st.lists(fc.fdtd_layer, max_size=4), st.integers(3, 9), st.lists(st.tuples(grid_float(1.0, 8.0, 0.25), st.sampled_from([0.0, 0.1, 0.5])).map(list), min_size=9, max_size=9)).map(
    lambda t: dict(t[0], layers=[dict(l, cells=min(l["cells"], 4)) for l in t[0]["layers"][:-1] + t[1]] + [dict(t[0]["layers"][-1], eps=t[3])], n=t[2], extra=min(t[0]["extra"], 60)))


@SUITE.case("many", many, quick=32, shards=16, rule="as 'pipeline' with up to 9 wavelengths and 7 layers")
def many_case(v, rec):
    pipeline_case(v, rec)


unusual = st.fixed_dictionaries(dict(
    layers=st.lists(st.fixed_dictionaries(dict(eps=st.lists(st.tuples(st.one_of(grid_float(1.0, 60.0, 0.5), st.sampled_from([1.0, 1.0, 1.02, 2.25])), st.sampled_from([0.0, 0.003, 0.1, 1.0, 5.0, 12.0, 30.0])).map(list), min_size=1, max_size=2), cells=st.one_of(st.integers(1, 3), st.integers(10, 40)))), min_size=1, max_size=3),
    shared=st.booleans(), lo=st.sampled_from([0.303, 0.517, 0.813, 2.011, 4.037, 8.09]), span=st.sampled_from([0.0017, 0.0107, 0.211, 3.013]), n=st.sampled_from([1, 1, 2, 3]), dist=st.sampled_from(["linear", "log"]),
    minpts=st.sampled_from([2, 5, 10, 20, 33]), pml=st.sampled_from([2, 3, 10, 20, 30]), free=st.sampled_from([1, 2, 14, 25, 40]), det=st.one_of(st.integers(1, 3), st.integers(5, 40)), extra=st.integers(60, 240),
    pulse=st.sampled_from(["continuous", "continuous", "hanning", "ricker"]), source=st.sampled_from(["line", "point"]), src_cells=st.one_of(st.just(0), st.integers(0, 40)), src_y=st.integers(0, 2))).map(
    lambda v: dict(v, src_cells=min(v["src_cells"], v["free"] - 1)))


@SUITE.case("unusual", unusual, quick=48, shards=16, rule="as 'pipeline' with high permittivities and strong absorption, thick layers, far detectors and sources, thin and thick absorbers, other resolutions and wavelengths")
def unusual_case(v, rec):
    pipeline_case(v, rec)


CHANGES = dict(pml=[5, 8, 12], free=[4, 5, 8], det=[1, 2, 3, 4], src_cells=[0, 1, 2, 3], minpts=[10, 12, 15], pulse=["continuous", "hanning", "ricker"], source=["line", "point"],
               extra=[30, 45, 60, 75], span=[0.211, 0.507, 1.013], dist=["linear", "log"], src_y=[0, 1, 2])
change = st.one_of(
    st.sampled_from(sorted(CHANGES)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(CHANGES[k]))),
    st.tuples(st.just("cells"), st.integers(1, 9)), st.tuples(st.just("eps"), grid_float(1.0, 8.0, 0.25))).map(list)


def changed(v, c):
    """The configuration with one setting changed."""
    k, x = c
    if k == "cells":
        return dict(v, layers=[dict(v["layers"][0], cells=x)] + v["layers"][1:])
    if k == "eps":
        return dict(v, layers=v["layers"][:-1] + [dict(v["layers"][-1], eps=[[x, 0.0]])])
    return dict(v, **{k: x})


@SUITE.case("history", st.tuples(fc.fdtd, st.lists(change, min_size=1, max_size=3)).map(list), quick=48, shards=16,
            rule="a series of spectra in one process, each with one setting changed, each compared with the model; non-trivial: the settings differ")
def history_case(w, rec):
    v, cs = w
    v = dict(v, extra=min(v["extra"], 60), n=1, layers=v["layers"][:2])
    pipeline_case(v, rec)
    for c in cs:
        v2 = changed(v, c)
        pipeline_case(v2, rec)
        rec.interesting(v2 != v)
        rec.label("changed " + c[0])
        v = v2


@SUITE.case("vacuum", fc.fdtd, quick=24, shards=8, rule="vacuum layers transmit everything")
def vacuum_case(v, rec):
    cfg, eps, _ = fc.build(v)
    R, T = spectrum(torch.tensor(np.ones_like(eps)), cfg)
    require(np.abs(R).max() < 1e-9, "vacuum layers reflect {}", R)
    geo = fc.geometry(v)
    for k, f in enumerate(ref_frequencies(v["lo"], round(v["lo"] + v["span"], 6), v["n"], v["dist"])):
        if v["pulse"] != "continuous":
            continue
        free, _ = simulate(geo, None, 1e-6 / f, v, cfg.FDTD_niter, v["pulse"], v["source"])
        try:  # both simulations are identical, only the transient cut is stricter for the material run
            want = coef_ref.coefficients([free[0], free[0]], [free[1], free[1] * 1.01], 1 / f, v["minpts"], tie=1e-3)[0]
        except coef_ref.Tie:
            continue
        require(abs(T[k] - want) < 1e-3, "vacuum layers transmit {} instead of {}", T[k], want)
    rec.interesting()


film = st.fixed_dictionaries(dict(
    layers=st.lists(st.tuples(grid_float(1.0, 6.0, 0.5), st.sampled_from([0.0, 0.0, 0.2, 0.5]), st.sampled_from([0.1, 0.2, 0.3, 0.45])).map(list), min_size=1, max_size=2),
    wl=st.sampled_from([0.8, 1.0, 1.3]), det=st.integers(1, 5)))


@SUITE.case("thin film", film, quick=16, thorough=200, shards=16, rule="fine, long continuous-wave runs agree with thin-film theory")
def film_case(v, rec):
    L = len(v["layers"])
    cfg = base_cfg(solver="FDTD", Nx=1, Ny=1, N_layers=L)
    freq_cfg(cfg, v["wl"], v["wl"] + 0.001, 1)
    minpts = 60
    cfg.FDTD_min_gridpoints_per_unit_magnitude = minpts
    cfg.FDTD_pml_thickness = 0.5
    cfg.FDTD_free_space_distance = 0.4
    cfg.FDTD_source_position = [0.6, 0.02]
    cfg.FDTD_gridpoints_from_material_to_detector = v["det"]
    cfg.FDTD_pulse_type, cfg.FDTD_source_type = "continuous", "line"
    cfg.PER_LAYER_THICKNESS = [round(l[2], 6) + 1e-4 for l in v["layers"]]
    cfg.FDTD_niter = int(1.45 * minpts * (12 * v["wl"] + 4 + 8 * sum(cfg.PER_LAYER_THICKNESS)))
    eps = np.array([complex(l[0], l[1]) for l in v["layers"]]).reshape(1, 1, L, 1)
    R, T = spectrum(torch.tensor(eps), cfg)
    f = 1 / (v["wl"] + 0.001)
    rr, tt = tmm.tmm(f, eps[0, 0, :, 0], cfg.PER_LAYER_THICKNESS)
    rec.note = (R[0], rr, T[0], tt)
    require(abs(R[0] - rr) < 0.03 and abs(T[0] - tt) < 0.03, "R, T = {}, {} but thin-film theory gives {}, {}", R[0], T[0], rr, tt)
    rec.interesting(np.abs(eps - 1).max() > 0)
