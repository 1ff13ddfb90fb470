"""Patterned layers against an independent coupled-wave reference."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from oracles import rcwa_ref
from oracles.tmm import tmm, tmm_damped

SUITE = Suite(
    "P02",
    "Random lateral patterns (random, binary, single pixel, stripes, blocks; dielectric, lossy, metallic) on Nx x Ny grids that "
    "resolve the truncation, 1-3 layers, square and rectangular periods, 1-2 frequencies; non-trivial: at least one layer has contrast.",
    ["Reference: own numpy coupled-wave solver (E-field modes, explicit Fourier sums, one global linear system, own order selection); tolerance 1e-6 plus four times the effect of halving the documented frequency damping."],
)

rcwa = st.fixed_dictionaries(dict(
    layers=st.lists(st.fixed_dictionaries(dict(p=pattern_strategy(metals=True), t=grid_float(0.02, 0.8, 0.02))), min_size=1, max_size=3),
    shared=st.booleans(),
    top=st.sampled_from([1.0, 1.0, 2.25, 4.0]), bot=st.sampled_from([1.0, 1.0, 2.25, 6.0]),
    wl=st.tuples(grid_float(0.6, 3.0, 0.05), grid_float(0.1, 2.0, 0.1)).map(lambda t: [t[0], round(t[0] + t[1], 6)]),
    n=st.integers(1, 2),
    Lx=grid_float(0.2, 1.6, 0.1), Ly=grid_float(0.2, 1.6, 0.1), NG=st.integers(4, 14),
    exx=st.integers(0, 3), exy=st.integers(0, 3),
))


def lattice(v):
    kx, ky = v.get("skew", (0.0, 0.0))
    if v.get("turn"):
        return [v["Lx"] * kx, -v["Lx"]], [-v["Ly"], v["Ly"] * ky]
    return [v["Lx"], v["Lx"] * kx], [v["Ly"] * ky, v["Ly"]]


def min_grid(NG, L1, L2, method=0):
    """Smallest grid (per axis) for which no Fourier index leaves the grid."""
    G = rcwa_ref.select_G(NG, L1, L2, method)
    return [int(G[:, i].max() - G[:, i].min()) + 1 for i in (0, 1)]


def build(v):
    L1, L2 = lattice(v)
    mx, my = min_grid(v["NG"], L1, L2)
    Nx, Ny = mx + v["exx"], my + v["exy"]
    if Nx == 1 and Ny == 1:
        Ny = 2
    n, L = v["n"], len(v["layers"])
    cfg = base_cfg(Nx=Nx, Ny=Ny, N_layers=L, TRCWA_NG=v["NG"], TRCWA_TOP_LAYER_EPS=v["top"],
                   TRCWA_BOTTOM_LAYER_EPS=v["bot"], TRCWA_L_grid=[L1, L2], solver="TRCWA")
    freq_cfg(cfg, v["wl"][0], v["wl"][1], n)
    th = [v["layers"][0]["t"]] if v["shared"] else [l["t"] for l in v["layers"]]
    cfg.PER_LAYER_THICKNESS = list(th)
    eps = np.zeros((Nx, Ny, L, n), complex)
    for i, l in enumerate(v["layers"]):
        for k in range(n):
            p = dict(l["p"], seed=l["p"]["seed"] + 1000 * k)
            eps[:, :, i, k] = make_pattern(p, Nx, Ny)
    full = th * L if v["shared"] else th
    return cfg, eps, full


def ref_rt(v, eps, th, f, q_abs):
    fc = f * (1 + 1j / (2 * q_abs))
    lays = [(1.0, v["top"])] + [(th[i], eps[:, :, i]) for i in range(eps.shape[2])] + [(1.0, v["bot"])]
    s = rcwa_ref.solve(lays, *lattice(v), v["NG"], fc)
    return float((s.R * s.norm).real), float((s.T * s.norm).real)


@SUITE.case("pattern", rcwa, quick=640, shards=16)
def pattern_case(v, rec):
    cfg, eps, th = build(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], "linear")
    require(len(R) == v["n"] and len(T) == v["n"], "wrong number of values")
    for k in range(v["n"]):
        Rr, Tr = ref_rt(v, eps[:, :, :, k], th, fs[k], 1e5)
        R2, T2 = ref_rt(v, eps[:, :, :, k], th, fs[k], 2e5)
        require(abs(R[k] - Rr) <= 1e-6 + 4 * abs(Rr - R2), "R[{}]={} but coupled-wave reference {}", k, R[k], Rr)
        require(abs(T[k] - Tr) <= 1e-6 + 4 * abs(Tr - T2), "T[{}]={} but coupled-wave reference {}", k, T[k], Tr)
    contrast = max(np.abs(eps[:, :, i, 0] - eps[0, 0, i, 0]).max() for i in range(eps.shape[2]))
    rec.interesting(contrast > 0)
    rec.label(f"layers={eps.shape[2]}", "square" if v["Lx"] == v["Ly"] else "rectangular")
    if 3 in eps.shape[:2]:
        rec.label("width 3")
    if 1 in eps.shape[:2]:
        rec.label("width 1")
    if eps.real.min() < 0:
        rec.label("metal")
    if max(v["Lx"], v["Ly"]) * fs[-1] * np.sqrt(max(v["top"], v["bot"])) > 1:
        rec.label("diffracting")


@SUITE.case("no contrast", rcwa, quick=160, shards=8, rule="patterned grid of constant layers must equal the thin-film stack")
def uniform_case(v, rec):
    cfg, eps, th = build(v)
    for i in range(eps.shape[2]):
        for k in range(eps.shape[3]):
            eps[:, :, i, k] = cplx(v["layers"][i]["p"]["hi" if k % 2 == 0 else "lo"])
    R, T = spectrum(torch.tensor(eps), cfg)
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], "linear")
    for k in range(v["n"]):
        Rr, Tr = tmm_damped(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
        R0, T0 = tmm(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
        require(abs(R[k] - Rr) <= 1e-6 + 2 * abs(Rr - R0) and abs(T[k] - Tr) <= 1e-6 + 2 * abs(Tr - T0),
                "constant grid: R={} T={}, thin film R={} T={}", R[k], T[k], Rr, Tr)
    rec.interesting()


large = st.fixed_dictionaries(dict(
    layers=st.lists(st.fixed_dictionaries(dict(p=pattern_strategy(metals=True), t=grid_float(0.02, 0.8, 0.02))), min_size=1, max_size=2),
    shared=st.just(False), top=st.sampled_from([1.0, 2.25]), bot=st.sampled_from([1.0, 6.0]),
    wl=st.tuples(grid_float(0.6, 3.0, 0.05), grid_float(0.1, 2.0, 0.1)).map(lambda t: [t[0], round(t[0] + t[1], 6)]),
    n=st.just(1), Lx=grid_float(0.2, 1.6, 0.1), Ly=grid_float(0.2, 1.6, 0.1), NG=st.integers(15, 34),
    exx=st.integers(0, 6), exy=st.integers(0, 6)))


@SUITE.case("large truncation", large, quick=96, shards=16, rule="as 'pattern' with 15-34 requested orders")
def large_case(v, rec):
    pattern_case(v, rec)


skewed = st.tuples(rcwa, st.sampled_from([0.0, 0.25, 0.5]), st.sampled_from([-0.5, -0.25, 0.25, 0.5]), st.sampled_from([False, False, True])).map(
    lambda t: dict(t[0], skew=[t[1], t[2]] if t[1] * t[2] < 0.2 else [0.0, t[2]], turn=t[3]))


@SUITE.case("skew lattice", skewed, quick=160, shards=16, rule="as 'pattern' on a non-rectangular lattice")
def skew_case(v, rec):
    (a, b), (c, d) = lattice(v)
    if not (a > b and c < d):
        return
    pattern_case(v, rec)


several = st.tuples(rcwa, st.lists(st.fixed_dictionaries(dict(p=pattern_strategy(metals=True), t=grid_float(0.02, 0.3, 0.02))), min_size=1, max_size=5), st.integers(3, 12)).map(
    lambda t: dict(t[0], layers=t[0]["layers"] + t[1], n=t[2], NG=min(t[0]["NG"], 5)))


@SUITE.case("many", several, quick=64, shards=16, rule="as 'pattern' with up to 8 layers and 12 frequencies")
def many_case(v, rec):
    pattern_case(v, rec)


@st.composite
def mixed(draw):
    """Patterned and uniform layers of one small palette, repeated patterns, thin and thick layers, wide range of wavelengths."""
    v = dict(draw(rcwa))
    pats = draw(st.lists(pattern_strategy(metals=True), min_size=1, max_size=2))
    flat = draw(st.lists(eps_strategy(), min_size=1, max_size=2))
    lays = []
    for _ in range(draw(st.integers(2, 5))):
        if draw(st.booleans()):
            p = pats[draw(st.integers(0, 1)) % len(pats)]
        else:
            e = flat[draw(st.integers(0, 1)) % len(flat)]
            p = dict(kind="flat", seed=0, lo=e, hi=e)
        lays.append(dict(p=p, t=draw(st.sampled_from([0.002, 0.01, 0.1, 0.3, 0.7, 1.5, 4.0]))))
    lo = draw(st.sampled_from([0.35, 0.6, 1.0, 3.0, 9.0]))
    v.update(layers=lays, NG=min(v["NG"], 9), wl=[lo, round(lo * draw(st.sampled_from([1.01, 1.5, 3.0])), 6)])
    return v


@SUITE.case("mixed", mixed(), quick=320, shards=16, rule="as 'pattern' with uniform and repeated layers among the patterned ones, layers of 2 nm to 4 micrometres, wavelengths 0.35-27 micrometres")
def mixed_case(v, rec):
    pattern_case(v, rec)
