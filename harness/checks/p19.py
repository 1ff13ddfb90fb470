"""Classification models to permittivity grids."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import material_ref as mr
from checks import model_common as m
from checks.p18 import same, snapshot

SUITE = Suite(
    "P19",
    "Random classification models (smooth test functions with weak to decisive outputs, freshly built networks of both kinds, confident one-hot functions), grid sizes up to 6x6 model "
    "points, oversampling 1 to 3, up to 5 layers of equal or different thickness, 1 to 6 frequencies in both distributions, noise. Non-trivial: not all points have the same mixture.",
    ["The softmax is sharpened with factor 16.", "Rows tied as nearest table rows are not judged against the table but against the collection."],
)
CUT = 1e-2
NM = len(mr.NAMES)


@st.composite
def specs(draw, big=False, models=("wave", "wave", "siren", "nerf")):
    o = draw(st.integers(1, 3))
    NL = draw(st.integers(1, 12 if big else 5))
    th = draw(st.one_of(st.lists(grid_float(0.05, 3.0, 0.05), min_size=1, max_size=1), st.lists(grid_float(0.05, 3.0, 0.05), min_size=NL, max_size=NL),
                        st.tuples(grid_float(0.2, 2.0, 0.05), st.lists(st.integers(-15, 15), min_size=NL, max_size=NL)).map(lambda t: [round(t[0] + 0.001 * k, 6) for k in t[1]])))
    return dict(over=o, Nx=o * draw(st.integers(1, 14 if big else 6)), Ny=o * draw(st.integers(1, 14 if big else 6)), NL=NL, thickness=th, n=draw(st.integers(1, 30 if big else 6)), range=draw(wl_range), dist=draw(st.sampled_from(["linear", "log"])),
                model=draw(st.sampled_from(models)), seed=draw(st.integers(0, 9999)), avoid=draw(st.booleans()), gain=draw(st.sampled_from([1.0, 0.1, 3.0])),
                width=draw(st.integers(2, 12)), depth=draw(st.integers(0, 5)))


class OneHot(torch.nn.Module):
    """Confidently names one material per position (the same at all frequencies)."""

    def __init__(self, seed, out):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.seed, self.out = seed, out

    def choice(self, rows):
        r = np.random.default_rng(self.seed)
        k = r.integers(3, 97, 3)
        q = np.round((rows[:, :3] * np.array([1.0, 1.0, 1e-3]) + 1) * 59.7312345 + 0.1371).astype(int)
        return (q @ k + self.seed) % self.out

    def forward(self, x):
        o = torch.zeros(len(x), self.out)
        o[torch.arange(len(x)), torch.tensor(self.choice(x.detach().numpy()))] = 3.0
        return o + 0 * self.p


def setup(v):
    cfg = base_cfg(Nx=v["Nx"], Ny=v["Ny"], N_layers=v["NL"], PER_LAYER_THICKNESS=list(v["thickness"]), eps_oversampling=v["over"], type="classification", avoid_zero_eps=v["avoid"],
                   n_neurons=v["width"], hidden_layers=v["depth"])
    cfg.model_type = v["model"] if v["model"] in ("siren", "nerf") else "siren"
    freq_cfg(cfg, v["range"][0], v["range"][1], v["n"], v["dist"])
    v["freqs"] = ref_frequencies(v["range"][0], v["range"][1], v["n"], v["dist"]).tolist()
    cfg.material_collection = nidn.MaterialCollection(cfg.target_frequencies)
    cfg.N_materials = cfg.out_features = cfg.material_collection.N_materials
    if v["model"] == "wave":
        model = m.Wave(v["seed"], NM, v["gain"])
    elif v["model"] == "onehot":
        model = OneHot(v["seed"], NM)
    else:
        from nidn.training.model.init_network import init_network

        torch.manual_seed(v["seed"])
        model = init_network(cfg)
    table = mr.untied(v["freqs"], list(cfg.material_collection.material_names))
    if table is None:
        table = np.array([cfg.material_collection[n].numpy() for n in cfg.material_collection.material_names])
    return cfg, model, table


def check_weights(p, v, what):
    require(p.shape == (v["Nx"], v["Ny"], v["NL"], NM), "{}: weights {} for {}x{}, {} layers", what, p.shape, v["Nx"], v["Ny"], v["NL"])
    require(np.all(np.isfinite(p)) and np.all(p >= 0) and np.all(np.abs(p.sum(-1) - 1) < 1e-9), "{}: weights are not non-negative with sum one", what)


def check_mixture(eps, p, table, v, what):
    require(tuple(eps.shape) == (v["Nx"], v["Ny"], v["NL"], v["n"]), "{}: grid {}", what, tuple(eps.shape))
    want = np.einsum("xylm,mf->xylf", p, table)
    bad = np.abs(eps.imag - want.imag) > 1e-6 * (1 + np.abs(table).max())
    require(not bad.any(), "{}: imaginary part {} instead of {}", what, eps.imag[bad][:1], want.imag[bad][:1])
    tol = 1e-6 * (1 + np.abs(table).max())
    ok = np.abs(eps.real - want.real) <= tol
    if v["avoid"]:
        inside = np.abs(want.real) < CUT
        moved = np.abs(eps.real - np.where(want.real > 0, CUT, -CUT)) < 1e-6
        ok = np.where(inside, moved, ok) | ((np.abs(np.abs(want.real) - CUT) < tol) & ok) | ((np.abs(want.real) < tol) & (np.abs(np.abs(eps.real) - CUT) < 1e-6))
        require(np.all(np.abs(eps.real) >= CUT * (1 - 1e-6)), "{}: real part closer to zero than the cut-off", what)
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        raise Violation(f"{what}: permittivity {eps[i]} at {i}, expected the mixture {want[i]}")


@SUITE.case("mixtures", specs(), quick=800, shards=16, rule="weights and permittivities of every point against the softmax of point-wise model outputs")
def mixtures_case(v, rec):
    cfg, model, table = setup(v)
    snap = snapshot(model)
    eps, p = nidn.model_to_eps_grid(model, cfg)
    require(same(model, snap), "evaluating the model changed its parameters")
    eps, p = eps.detach().numpy(), p.detach().numpy()
    check_weights(p, v, v["model"])
    out = m.model_points(model, v).mean(3)
    e = np.exp(16 * (out - out.max(-1, keepdims=True)))
    want = m.blocks(e / e.sum(-1, keepdims=True), v["over"])
    bad = np.abs(p - want) > 1e-6
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(f"{v['model']}: weight {p[i]} at {i}, expected {want[i]}")
    check_mixture(eps, want, table, v, v["model"])
    rec.interesting(len(np.unique(np.round(want, 6).reshape(-1, NM), axis=0)) > 1)
    rec.label(v["model"], v["dist"], "oversampled" if v["over"] > 1 else "direct", "avoid" if v["avoid"] else "keep")


@SUITE.case("confident", specs(models=("onehot",)), quick=400, shards=8, rule="a confident model yields exactly the shipped material at every frequency")
def confident_case(v, rec):
    cfg, model, table = setup(v)
    eps, p = nidn.model_to_eps_grid(model, cfg)
    eps, p = eps.detach().numpy(), p.detach().numpy()
    check_weights(p, v, "confident")
    c = m.coordinates(v)[:, :, :, 0]
    pick = m.blocks(model.choice(c.reshape(-1, 4)).reshape(c.shape[:3]), v["over"])
    hot = np.eye(NM)[pick]
    require(np.all(np.abs(p - hot) < 1e-9), "a confident model does not give pure materials")
    check_mixture(eps, hot, table, v, "confident")
    rec.interesting(len(np.unique(pick)) > 1)


@SUITE.case("noise", st.tuples(specs(models=("wave", "siren")), st.sampled_from([1e-4, 1e-2, 0.3])).map(list), quick=300, shards=8, rule="with noise the weights stay weights and the permittivity stays their mixture")
def noise_case(w, rec):
    v, scale = w
    cfg, model, table = setup(v)
    cfg.add_noise, cfg.noise_scale = True, scale
    snap = snapshot(model)
    torch.manual_seed(v["seed"])
    eps, p = nidn.model_to_eps_grid(model, cfg)
    require(same(model, snap), "noise changed the parameters")
    eps, p = eps.detach().numpy(), p.detach().numpy()
    check_weights(p, v, "noise")
    check_mixture(eps, p, table, v, "noise")
    out = m.model_points(model, v).mean(3)
    e = np.exp(16 * (out - out.max(-1, keepdims=True)))
    clean = m.blocks(e / e.sum(-1, keepdims=True), v["over"])
    # weights in log space move by at most 16 * noise (difference of two draws)
    with np.errstate(divide="ignore"):
        shift = np.log(np.maximum(p, 1e-300)) - np.log(np.maximum(clean, 1e-300))
    shift = shift - shift[..., :1]
    require(np.all(np.abs(shift) <= 16 * scale * 14 + 1e-6), "noise of scale {} moved log-weights by {}", scale, np.abs(shift).max())
    require(np.any(np.abs(p - clean) > 0), "noise was requested but none was added")
    rec.interesting()
    rec.label(f"scale {scale}")


@SUITE.case("large", specs(big=True), quick=48, shards=16, rule="as 'mixtures' with up to 14x14 model points, 12 layers and 30 frequencies")
def large_case(v, rec):
    mixtures_case(v, rec)


@SUITE.case("history", st.lists(specs(models=("wave",)), min_size=2, max_size=4), quick=120, shards=8,
            rule="one model and one configuration changed in place: every grid belongs to the current values")
def history_case(vs, rec):
    model = keep = None
    for v in vs:
        cfg, fresh, table = setup(v)
        model = model or fresh
        if keep is None:
            keep = cfg
        for k, x in cfg.items():
            keep[k] = x
        with torch.no_grad():  # as a training step does
            for q in model.parameters():
                q.add_(0.01)
        eps, p = nidn.model_to_eps_grid(model, keep)
        out = m.model_points(model, v).mean(3)
        e = np.exp(16 * (out - out.max(-1, keepdims=True)))
        want = m.blocks(e / e.sum(-1, keepdims=True), v["over"])
        p = p.detach().numpy()
        check_weights(p, v, "after changes")
        require(np.all(np.abs(p - want) <= 1e-6), "weights after changes of configuration and model belong to earlier values")
        check_mixture(eps.detach().numpy(), want, table, v, "after changes")
    rec.interesting()


class Mixer(torch.nn.Module):
    """Mixes two materials at each position in a prescribed ratio."""

    def __init__(self, mixes, out):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.mixes, self.out = mixes, out

    def choice(self, rows):
        q = np.round((rows[:, :3] * np.array([1.0, 1.0, 1e-3]) + 1) * 59.7312345 + 0.1371).astype(int)
        return (q @ np.array([7, 11, 13])) % len(self.mixes)

    def forward(self, x):
        o = np.full((len(x), self.out), -3.0)
        for i, k in enumerate(self.choice(x.detach().numpy())):
            a, b, r = self.mixes[k]
            o[i, a], o[i, b] = 0.0, np.log(r / (1 - r)) / 16
        return torch.tensor(o) + 0 * self.p


zero_mix = st.tuples(specs(models=("wave",)), st.integers(0, 9), st.lists(st.tuples(st.integers(0, 99), st.sampled_from([0.0, 1e-4, -1e-4, 4e-3, -4e-3, 9.9e-3, -9.9e-3, 1.2e-2, -1.2e-2])).map(list), min_size=1, max_size=4),
                     st.sampled_from([[0.21, 0.25], [0.22, 0.6], [11.5, 13.5], [9.0, 30.0], [15.0, 22.0]])).map(list)


@SUITE.case("zero crossings", zero_mix, quick=240, shards=8, rule="mixtures of two materials whose real part nearly vanishes at one frequency; non-trivial: it does there and zero avoidance is on")
def zero_case(w, rec):
    v, which, targets, wl = w
    v = dict(v, avoid=which % 3 > 0, range=wl)
    cfg, _, table = setup(v)
    re = table.real
    mixes = []
    for k, d in targets:
        pairs = [(a, b, f) for f in range(v["n"]) for a in range(NM) for b in range(NM) if re[a, f] < -0.05 and re[b, f] > 0.05]
        if pairs:
            a, b, f = pairs[k % len(pairs)]
            mixes.append((a, b, (d - re[a, f]) / (re[b, f] - re[a, f])))
    if not mixes:
        rec.label("no metal at these frequencies")
        return
    model = Mixer(mixes, NM)
    eps, p = nidn.model_to_eps_grid(model, cfg)
    eps, p = eps.detach().numpy(), p.detach().numpy()
    check_weights(p, v, "two materials")
    c = m.coordinates(v)[:, :, :, 0]
    pick = m.blocks(model.choice(c.reshape(-1, 4)).reshape(c.shape[:3]), v["over"])
    want = np.zeros((len(mixes), NM))
    for k, (a, b, r) in enumerate(mixes):  # the softmax leaves the other materials a rest
        e = np.full(NM, np.exp(-48.0))
        e[a], e[b] = 1.0, r / (1 - r)
        want[k] = e / e.sum()
    want = want[pick]
    require(np.all(np.abs(p - want) < 1e-9), "two materials: weights {} instead of {}", p.reshape(-1, NM)[0], want.reshape(-1, NM)[0])
    check_mixture(eps, want, table, v, "two materials")
    rec.interesting(v["avoid"] and bool((np.abs(np.einsum("xylm,mf->xylf", want, re)) < CUT).any()))
    rec.label("avoid" if v["avoid"] else "keep")
