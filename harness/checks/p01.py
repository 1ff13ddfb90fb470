"""Uniform stacks against transfer matrices."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from oracles.tmm import tmm, tmm_damped

SUITE = Suite(
    "P01",
    "Random stacks of uniform layers (1-6 layers, dielectric, lossy and metallic permittivities per layer and frequency, "
    "shared or per-layer thickness, exterior media, periods, truncation orders, 1-5 frequencies); non-trivial: at least two "
    "different layers, or a layer differing from both exterior media, so that R or T is not that of empty space.",
    ["Reference: normal-incidence thin-film recursion in numpy double precision, evaluated with and without the solver's documented frequency damping; the tolerance is 1e-6 plus twice their difference."],
)


def reference(freq, eps, th, top, bot):
    Rd, Td = tmm_damped(freq, eps, th, top, bot)
    R0, T0 = tmm(freq, eps, th, top, bot)
    return Rd, Td, 1e-6 + 2 * abs(Rd - R0), 1e-6 + 2 * abs(Td - T0)


layer = st.fixed_dictionaries(dict(eps=st.lists(eps_strategy(), min_size=1, max_size=3), t=grid_float(0.01, 3.0, 0.01)))
exterior = st.one_of(st.just(1.0), grid_float(1.0, 9.0, 0.25), st.sampled_from([2.0, 0.25, 0.5, 0.81, 1.0001, 16.0]))
stack = st.fixed_dictionaries(dict(
    layers=st.lists(layer, min_size=1, max_size=6),
    shared=st.booleans(),
    top=exterior, bot=exterior,
    wl=wl_range, n=st.integers(1, 5), dist=st.sampled_from(["linear", "log"]),
    Lx=grid_float(0.05, 1.5, 0.05), Ly=grid_float(0.05, 1.5, 0.05), NG=st.integers(2, 14),
))


def build(v):
    n, L = v["n"], len(v["layers"])
    cfg = base_cfg(Nx=1, Ny=1, N_layers=L, TRCWA_NG=v["NG"],
                   TRCWA_TOP_LAYER_EPS=v["top"], TRCWA_BOTTOM_LAYER_EPS=v["bot"],
                   TRCWA_L_grid=[[v["Lx"], 0.0], [0.0, v["Ly"]]], solver="TRCWA")
    freq_cfg(cfg, v["wl"][0], v["wl"][1], n, v["dist"])
    th = [v["layers"][0]["t"]] if v["shared"] else [l["t"] for l in v["layers"]]
    cfg.PER_LAYER_THICKNESS = list(th)
    eps = np.zeros((1, 1, L, n), complex)
    for i, l in enumerate(v["layers"]):
        for k in range(n):
            eps[0, 0, i, k] = cplx(l["eps"][k % len(l["eps"])])
    full = th * L if v["shared"] else th
    return cfg, eps, full


@SUITE.case("stack", stack, quick=1600, shards=16)
def stack_case(v, rec):
    cfg, eps, th = build(v)
    n = v["n"]
    R, T = spectrum(torch.tensor(eps), cfg)
    require(len(R) == n and len(T) == n, "expected {} values, got {} and {}", n, len(R), len(T))
    fs = ref_frequencies(v["wl"][0], v["wl"][1], n, v["dist"])
    for k in range(n):
        Rr, Tr, tolR, tolT = reference(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
        require(abs(R[k] - Rr) <= tolR, "R[{}]={} but thin-film {} (f={})", k, R[k], Rr, fs[k])
        require(abs(T[k] - Tr) <= tolT, "T[{}]={} but thin-film {} (f={})", k, T[k], Tr, fs[k])
        # also nearly opaque stacks: the small transmittance itself
        require(abs(T[k] - Tr) <= 1e-4 * Tr + 2 * (tolT - 1e-6) + 1e-15, "T[{}]={} but thin-film {} (f={})", k, T[k], Tr, fs[k])
    es = {complex(e) for e in eps[0, 0, :, 0]}
    rec.interesting(len(es) > 1 or es != {complex(v["top"])} or es != {complex(v["bot"])})
    rec.label(f"layers={len(v['layers'])}", "shared" if v["shared"] else "per-layer")
    if any(e.real < 0 for e in es):
        rec.label("metal")
    if v["top"] != v["bot"]:
        rec.label("different exterior media")


@SUITE.case("dtype", st.tuples(stack, st.sampled_from(["complex64", "real", "noncontiguous", "grad"])).map(list), quick=200, shards=8,
            rule="the same stack as float/complex64/strided/grad-requiring tensor")
def dtype_case(v, rec):
    v, kind = v
    cfg, eps, th = build(v)
    n = v["n"]
    tol = 1e-6
    if kind == "real":
        eps = np.abs(eps.real) + 0.25
        t = torch.tensor(eps)
    elif kind == "complex64":
        t = torch.tensor(eps).to(torch.complex64)
        tol = 2e-3
    elif kind == "grad":
        t = torch.tensor(eps, requires_grad=True)
    else:
        t = torch.tensor(np.ascontiguousarray(eps.transpose(3, 2, 1, 0))).permute(3, 2, 1, 0)
    R, T = spectrum(t, cfg)
    fs = ref_frequencies(v["wl"][0], v["wl"][1], n, v["dist"])
    for k in range(n):
        Rr, Tr, tolR, tolT = reference(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
        if kind == "complex64":  # condition of the stack in single precision
            Rp, Tp = tmm(fs[k], eps[0, 0, :, k] * (1 + 1e-5), th, v["top"], v["bot"])
            tolR += tol + 5 * abs(Rp - Rr)
            tolT += tol + 5 * abs(Tp - Tr)
        require(abs(R[k] - Rr) <= tolR and abs(T[k] - Tr) <= tolT,
                "{}: got R={} T={}, thin-film R={} T={}", kind, R[k], T[k], Rr, Tr)
    rec.interesting()
    rec.label(kind)


@SUITE.case("period", st.tuples(stack, grid_float(0.05, 1.5, 0.05), grid_float(0.05, 1.5, 0.05), st.integers(2, 14)).map(list), quick=300, shards=8,
            rule="the same stack with two lattices and truncation orders that differ")
def period_case(v, rec):
    v, Lx, Ly, NG = v
    cfg, eps, th = build(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    v2 = dict(v, Lx=Lx, Ly=Ly, NG=NG)
    cfg2, _, _ = build(v2)
    R2, T2 = spectrum(torch.tensor(eps), cfg2)
    require(np.abs(R - R2).max() < 1e-6 and np.abs(T - T2).max() < 1e-6,
            "spectrum changes with the period/truncation: R {} vs {}, T {} vs {}", R, R2, T, T2)
    rec.interesting(v2 != v)


many = st.tuples(stack, st.lists(layer, min_size=1, max_size=10), st.integers(6, 40)).map(lambda t: dict(t[0], layers=t[0]["layers"] + t[1], n=t[2]))


@SUITE.case("many", many, quick=120, shards=16, rule="as 'stack' with up to 16 layers and 40 frequencies")
def many_case(v, rec):
    stack_case(v, rec)


extreme_eps = st.one_of(
    st.tuples(grid_float(-6000.0, -60.0, 20.0), grid_float(0.0, 2500.0, 10.0)),  # metals in the infrared
    st.tuples(grid_float(0.02, 0.98, 0.02), grid_float(0.0, 1.0, 0.05)), st.tuples(grid_float(-0.98, -0.02, 0.02), grid_float(0.0, 0.5, 0.05)),  # plasma edge
    st.tuples(grid_float(14.0, 120.0, 2.0), grid_float(0.0, 40.0, 0.5)), st.sampled_from([(1.0, 0.0), (2.25, 0.0), (4.0, 0.001), (1.0, 1e-4), (12.0, 60.0)])).map(list)


@st.composite
def extremes(draw):
    """Stacks from a small palette of unusual materials and thicknesses (repeated layers are likely)."""
    v = dict(draw(stack))
    palette = draw(st.lists(st.one_of(extreme_eps, eps_strategy()), min_size=1, max_size=4))
    ts = draw(st.lists(st.sampled_from([0.0005, 0.001, 0.004, 0.02, 0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 12.0, 40.0]), min_size=1, max_size=3))
    L = draw(st.integers(1, 9))
    v["layers"] = [dict(eps=[palette[i % len(palette)] for i in draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))], t=ts[draw(st.integers(0, 2)) % len(ts)]) for _ in range(L)]
    lo = draw(st.sampled_from([0.12, 0.3, 0.8, 2.0, 5.0, 12.0, 40.0]))
    v["wl"] = [lo, round(lo * draw(st.sampled_from([1.001, 1.1, 2.0, 8.0])), 6)]
    return v


@SUITE.case("extreme", extremes(), quick=800, shards=16, rule="as 'stack' with infrared metals, near-zero and very high permittivities, layers from half a nanometre to 40 micrometres, repeated layers, wavelengths 0.12-320 micrometres")
def extreme_case(v, rec):
    stack_case(v, rec)
