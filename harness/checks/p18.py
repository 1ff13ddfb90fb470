"""Regression models to permittivity grids."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import model_common as m

SUITE = Suite(
    "P18",
    "Random models (smooth test functions of the coordinates, freshly built coordinate networks of both kinds with random weights, voxel models with random values beyond the ranges), "
    "grid sizes up to 6x6 model points, oversampling 1 to 3, 1 to 5 layers of equal or different thickness, 1 to 6 frequencies in both distributions, ranges (wide, narrow, "
    "degenerate, around zero), noise and zero avoidance. Non-trivial: more than one distinct permittivity in the grid.",
    ["Values are single precision: tolerance 4e-5 of the range plus 2e-6 of the magnitude.", "Voxel models hold values at grid resolution and ignore oversampling.",
     "Real parts within rounding of the cut-off or of zero may take either value."],
)
CUT = 1e-2

ranges = st.one_of(st.tuples(st.floats(-100, 20), st.floats(0.1, 120)), st.tuples(st.floats(-0.05, 0.02), st.floats(0.0, 0.08)), st.tuples(st.sampled_from([0.0, 1.0, -3.0]), st.just(0.0))).map(lambda t: [t[0], t[0] + t[1]])
iranges = st.tuples(st.one_of(st.just(0.0), st.floats(-3, 3)), st.one_of(st.just(0.0), st.floats(0.0, 12))).map(lambda t: [t[0], t[0] + t[1]])


@st.composite
def specs(draw, big=False, models=("wave", "siren", "nerf")):
    o = draw(st.integers(1, 3))
    NL = draw(st.integers(1, 12 if big else 5))
    th = draw(st.one_of(st.lists(grid_float(0.05, 3.0, 0.05), min_size=1, max_size=1), st.lists(grid_float(0.05, 3.0, 0.05), min_size=NL, max_size=NL),
                        st.tuples(grid_float(0.2, 2.0, 0.05), st.lists(st.integers(-15, 15), min_size=NL, max_size=NL)).map(lambda t: [round(t[0] + 0.001 * k, 6) for k in t[1]])))
    return dict(over=o, Nx=o * draw(st.integers(1, 14 if big else 6)), Ny=o * draw(st.integers(1, 14 if big else 6)), NL=NL, thickness=th, n=draw(st.integers(1, 30 if big else 6)), range=draw(wl_range), dist=draw(st.sampled_from(["linear", "log"])),
                model=draw(st.sampled_from(models)), seed=draw(st.integers(0, 9999)), re=draw(ranges), im=draw(iranges), avoid=draw(st.booleans()), gain=draw(st.sampled_from([1.0, 0.5, 1.6])),
                width=draw(st.integers(2, 12)), depth=draw(st.integers(0, 6)), omega=draw(st.sampled_from([1.0, 0.3, 5.0])))


def setup(v, noise=0.0):
    cfg = base_cfg(Nx=v["Nx"], Ny=v["Ny"], N_layers=v["NL"], PER_LAYER_THICKNESS=list(v["thickness"]), eps_oversampling=v["over"], type="regression", avoid_zero_eps=v["avoid"],
                   real_min_eps=v["re"][0], real_max_eps=v["re"][1], imag_min_eps=v["im"][0], imag_max_eps=v["im"][1], n_neurons=v["width"], hidden_layers=v["depth"], siren_omega=v["omega"])
    cfg.model_type = "siren" if v["model"] == "wave" else v["model"]
    cfg.out_features = 2
    freq_cfg(cfg, v["range"][0], v["range"][1], v["n"], v["dist"])
    v["freqs"] = ref_frequencies(v["range"][0], v["range"][1], v["n"], v["dist"]).tolist()
    if noise:
        cfg.add_noise, cfg.noise_scale = True, noise
    if v["model"] == "wave":
        model = m.Wave(v["seed"], 2, v["gain"])
    else:
        from nidn.training.model.init_network import init_network

        torch.manual_seed(v["seed"])
        model = init_network(cfg)
    return cfg, model


def tolerance(lo, hi):
    return 4e-5 * (hi - lo) + 2e-6 * max(abs(lo), abs(hi)) + 1e-8


def judge_avoid(re, want, lo, hi, cut, what):
    """Real parts against the wanted ones with zero avoidance."""
    tol = tolerance(lo, hi)
    ok = np.abs(re - want) <= tol
    moved = np.where(want > 0, CUT, -CUT)
    inside = np.abs(want) < CUT
    res = np.where(inside, np.abs(re - moved) <= 1e-8 + 1e-6 * CUT, ok)
    # undecided: next to the cut-off or to zero
    edge = np.abs(np.abs(want) - CUT) <= tol
    res |= edge & ok
    near0 = np.abs(want) <= tol
    res |= near0 & (np.abs(np.abs(re) - CUT) <= 1e-8 + 1e-6 * CUT)
    if not res.all():
        i = tuple(np.argwhere(~res)[0])
        raise Violation(f"{what}: real part {re[i]} at {i}, expected {want[i]} (zero avoidance on)")
    require(np.all(np.abs(re) >= CUT * (1 - 1e-6)), "{}: real part {} closer to zero than the cut-off", what, np.abs(re).min())


def judge(eps, want, v, what):
    require(tuple(eps.shape) == (v["Nx"], v["Ny"], v["NL"], v["n"]), "{}: grid {} for {}x{}, {} layers, {} frequencies", what, tuple(eps.shape), v["Nx"], v["Ny"], v["NL"], v["n"])
    e = eps.detach().numpy()
    (a, b), (c, d) = v["re"], v["im"]
    wi = want.imag
    bad = np.abs(e.imag - wi) > tolerance(c, d)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(f"{what}: imaginary part {e.imag[i]} at {i}, expected {wi[i]}")
    if v["avoid"]:
        judge_avoid(e.real, want.real, a, b, CUT, what)
    else:
        bad = np.abs(e.real - want.real) > tolerance(a, b)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation(f"{what}: real part {e.real[i]} at {i}, expected {want.real[i]}")


def in_range(e, v, what):
    (a, b), (c, d) = v["re"], v["im"]
    r, i = e.real, e.imag
    t = lambda lo, hi: 3e-7 * max(abs(lo), abs(hi))
    okr = (r >= a - t(a, b)) & (r <= b + t(a, b))
    if v["avoid"]:
        okr |= np.abs(np.abs(r) - CUT) <= 1e-8
        require(np.all(np.abs(r) >= CUT * (1 - 1e-6)), "{}: real part {} closer to zero than the cut-off", what, np.abs(r).min())
    require(np.all(okr), "{}: real part outside [{}, {}]: {} {}", what, a, b, r.min(), r.max())
    require(np.all((i >= c - t(c, d)) & (i <= d + t(c, d))), "{}: imaginary part outside [{}, {}]: {} {}", what, c, d, i.min(), i.max())


def snapshot(model):
    return {k: p.detach().clone() for k, p in model.state_dict().items()}


def same(model, snap):
    return all(torch.equal(p, snap[k]) for k, p in model.state_dict().items())


@SUITE.case("networks", specs(), quick=900, shards=16, rule="every permittivity of coordinate models against point-wise model evaluation")
def networks_case(v, rec):
    cfg, model = setup(v)
    snap = snapshot(model)
    eps, ids = nidn.model_to_eps_grid(model, cfg)
    require(ids is None, "a regression model returned material weights")
    require(same(model, snap), "evaluating the model changed its parameters")
    out = np.clip(m.model_points(model, v), 0, 1)
    (a, b), (c, d) = v["re"], v["im"]
    want = m.blocks(a + (b - a) * out[..., 0] + 1j * (c + (d - c) * out[..., 1]), v["over"])
    judge(eps, want, v, v["model"])
    in_range(eps.detach().numpy(), v, v["model"])
    require(torch.equal(nidn.model_to_eps_grid(model, cfg)[0], eps), "a second evaluation gives other permittivities")
    require(cfg.PER_LAYER_THICKNESS == list(v["thickness"]), "configuration changed")
    rec.interesting(len(np.unique(want)) > 1)
    rec.label(v["model"], v["dist"], "thickness list" if len(v["thickness"]) > 1 else "one thickness", "oversampled" if v["over"] > 1 else "direct", "avoid" if v["avoid"] else "keep")


@SUITE.case("voxels", specs(models=("voxel",)), quick=600, shards=8, rule="voxel models: own values clipped to the ranges, parameters untouched")
def voxels_case(v, rec):
    cfg, model = setup(v)
    init = nidn.model_to_eps_grid(model, cfg)[0].detach().numpy()
    in_range(init, v, "fresh voxels")
    g = np.random.default_rng(v["seed"])
    (a, b), (c, d) = v["re"], v["im"]
    shape = (v["Nx"], v["Ny"], v["NL"], v["n"])
    w = (a - 0.2 * (b - a) - 0.01 + g.random(shape) * (1.4 * (b - a) + 0.02)) + 1j * (c - 0.3 + g.random(shape) * (1.2 * (d - c) + 0.6))
    if v["gain"] != 1.0:  # some exact zeros
        w.real[g.random(shape) < 0.3] = 0.0
    params = list(model.parameters())
    require(len(params) == 1 and tuple(params[0].shape) == shape, "voxel parameters {} for grid {}", [tuple(p.shape) for p in params], shape)
    with torch.no_grad():
        params[0].copy_(torch.tensor(w))
    snap = snapshot(model)
    eps, ids = nidn.model_to_eps_grid(model, cfg)
    require(ids is None, "a voxel model returned material weights")
    require(same(model, snap), "evaluating the voxel model changed its parameters")
    want = np.clip(w.real, a, b) + 1j * np.clip(w.imag, c, d)
    judge(eps, want, v, "voxel")
    in_range(eps.detach().numpy(), v, "voxel")
    rec.interesting()
    rec.label("avoid" if v["avoid"] else "keep")


@SUITE.case("noise", st.tuples(specs(models=("wave", "siren", "voxel")), st.sampled_from([1e-4, 1e-3, 0.02, 0.3])).map(list), quick=400, shards=8,
            rule="with noise: within the ranges, close to the noiseless values, parameters untouched")
def noise_case(w, rec):
    v, scale = w
    cfg, model = setup(v)
    clean = nidn.model_to_eps_grid(model, cfg)[0].detach().numpy()
    cfg.add_noise, cfg.noise_scale = True, scale
    snap = snapshot(model)
    torch.manual_seed(v["seed"])
    eps = nidn.model_to_eps_grid(model, cfg)[0].detach().numpy()
    require(same(model, snap), "noise changed the parameters")
    require(eps.shape == (v["Nx"], v["Ny"], v["NL"], v["n"]), "grid {} with noise", eps.shape)
    in_range(eps, v, "noise")
    (a, b), (c, d) = v["re"], v["im"]
    far = 2 * CUT if v["avoid"] else 0
    # (randn - 0.5) * 2 * scale * range: beyond 15 scales practically impossible
    require(np.all(np.abs(eps.real - clean.real) <= 15 * scale * (b - a) + far + tolerance(a, b)), "noise of scale {} moved a real part by {} (range {})", scale, np.abs(eps.real - clean.real).max(), b - a)
    require(np.all(np.abs(eps.imag - clean.imag) <= 15 * scale * (d - c) + tolerance(c, d)), "noise of scale {} moved an imaginary part by {} (range {})", scale, np.abs(eps.imag - clean.imag).max(), d - c)
    if eps.size >= 8 and b - a > 1 and v["model"] != "voxel" and v["gain"] == 0.5 and v["model"] == "wave":
        require(np.any(eps.real != clean.real), "noise was requested but none was added")
    rec.interesting(b > a)
    rec.label(f"scale {scale}")


@SUITE.case("large", specs(big=True), quick=48, shards=16, rule="as 'networks' with up to 14x14 model points, 12 layers and 30 frequencies")
def large_case(v, rec):
    networks_case(v, rec)


@SUITE.case("history", st.lists(specs(models=("wave",)), min_size=2, max_size=4), quick=120, shards=8,
            rule="one model and one configuration changed in place: every grid belongs to the current values")
def history_case(vs, rec):
    model = keep = None
    for v in vs:
        cfg, fresh = setup(v)
        model = model or fresh
        if keep is None:
            keep = cfg
        for k, x in cfg.items():
            keep[k] = x
        with torch.no_grad():  # as a training step does
            for p in model.parameters():
                p.add_(0.01)
        eps, _ = nidn.model_to_eps_grid(model, keep)
        out = np.clip(m.model_points(model, v), 0, 1)
        (a, b), (c, d) = v["re"], v["im"]
        judge(eps, m.blocks(a + (b - a) * out[..., 0] + 1j * (c + (d - c) * out[..., 1]), v["over"]), v, "after changes")
    rec.interesting()
