"""Networks as pointwise functions."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite

SUITE = Suite(
    "P27",
    "Random architectures (both coordinate networks; 1 to 12 neurons, 0 to 9 hidden layers, 1 to 6 inputs, 1 to 10 outputs, several frequency parameters) with random inputs of small and large "
    "magnitude and random parameters; voxel models of random grids and ranges. Non-trivial: more than one input row and at least one hidden layer.",
    ["The skip network feeds its input again into the fifth hidden layer when there are that many.", "Dead rectifiers may have zero gradients."],
)

arch = st.fixed_dictionaries(dict(kind=st.sampled_from(["siren", "nerf"]), n=st.integers(1, 12), h=st.integers(0, 9), i=st.sampled_from([4, 4, 4, 1, 2, 3, 6]), o=st.sampled_from([2, 1, 3, 10]), omega=st.sampled_from([1.0, 0.3, 5.0, 30.0, 45.0, 60.0]),
                                  rows=st.integers(1, 30), scale=st.sampled_from([1.0, 0.1, 1000.0]), seed=st.integers(0, 9999), shake=st.booleans()))


def build(v):
    from nidn.training.model.init_network import init_network

    cfg = base_cfg(model_type=v["kind"], n_neurons=v["n"], hidden_layers=v["h"], encoding_dim=v["i"], siren_omega=v["omega"])
    cfg.out_features = v["o"]
    torch.manual_seed(v["seed"])
    model = init_network(cfg)
    g = np.random.default_rng(v["seed"])
    if v["shake"]:
        with torch.no_grad():
            for p in model.parameters():
                p.add_(torch.tensor(g.normal(0, 0.2, tuple(p.shape))))
    x = torch.tensor(g.normal(0, 1, (v["rows"], v["i"])) * np.where(np.arange(v["i"]) == 2, v["scale"], 1.0))
    return cfg, model, x


def layers(model):
    """(W, b) pairs in order."""
    ps = list(model.parameters())
    require(len(ps) % 2 == 0 and all(ps[k].ndim == 2 and ps[k + 1].ndim == 1 for k in range(0, len(ps), 2)), "parameters are not pairs of weights and biases: {}", [tuple(p.shape) for p in ps])
    return [(ps[k].detach().numpy(), ps[k + 1].detach().numpy()) for k in range(0, len(ps), 2)]


def reference(v, model, x):
    ls = layers(model)
    require(len(ls) == v["h"] + 2, "{} layers for {} hidden layers", len(ls), v["h"])
    y = x.numpy()
    for k, (W, b) in enumerate(ls):
        if v["kind"] == "nerf" and k == 5 and k < len(ls) - 1:
            y = np.concatenate([y, x.numpy()], 1)
        require(W.shape[1] == y.shape[1], "layer {} expects {} inputs, gets {}", k, W.shape[1], y.shape[1])
        y = y @ W.T + b
        if k == len(ls) - 1:
            with np.errstate(over="ignore"):
                y = 1 / (1 + np.exp(-y))
        elif v["kind"] == "siren":
            y = np.sin(v["omega"] * y)
        else:
            y = np.maximum(y, 0)
    return y


@SUITE.case("networks", arch, quick=1500, shards=16, rule="outputs against the layer sequence; rows independent of batch, order and repetition; unit interval; gradients")
def networks_case(v, rec):
    cfg, model, x = build(v)
    keep = x.clone()
    out = model(x)
    require(tuple(out.shape) == (v["rows"], v["o"]), "output {} for {} rows and {} features", tuple(out.shape), v["rows"], v["o"])
    y = out.detach().numpy()
    require(np.all(np.isfinite(y)) and np.all(y >= 0) and np.all(y <= 1), "outputs outside the unit interval: {} {}", y.min(), y.max())
    require(torch.equal(x, keep), "the input was modified")
    want = reference(v, model, x)
    # rounding is amplified by sine layers of high frequency
    tol = 1e-7 if v["kind"] == "nerf" or v["omega"] < 10 else 1e-4
    if v["kind"] == "nerf" or (v["omega"] * 2) ** min(v["h"], 6) * v["scale"] < 1e8:
        require(np.all(np.abs(y - want) <= tol), "outputs {} instead of {}", y[0], want[0])
        rec.label("compared")
        single = torch.cat([model(x[k:k + 1]) for k in range(v["rows"])]).detach().numpy()
        require(np.all(np.abs(single - y) <= tol), "a row evaluated alone gives {} instead of {}", single[0], y[0])
        perm = np.random.default_rng(v["seed"]).permutation(v["rows"])
        require(np.all(np.abs(model(x[perm]).detach().numpy() - y[perm]) <= tol), "the order of the rows matters")
    require(torch.equal(model(x).detach(), out.detach()), "a second evaluation differs")
    loss = (out * torch.tensor(np.random.default_rng(1).normal(0, 1, y.shape))).sum()
    loss.backward()
    for n, p in model.named_parameters():
        require(p.grad is not None, "parameter {} receives no gradient", n)
        require(bool(torch.isfinite(p.grad).all()), "parameter {} receives a non-finite gradient", n)
    if v["kind"] == "siren" and v["omega"] < 10 and v["n"] > 1 and not np.any((y < 1e-9) | (y > 1 - 1e-9)):
        require(all(float(p.grad.abs().max()) > 0 for p in model.parameters()), "a parameter has zero gradient")
    rec.interesting(v["rows"] > 1 and v["h"] > 0)
    rec.label(v["kind"], "skip" if v["kind"] == "nerf" and v["h"] >= 5 else "plain")


wide = st.fixed_dictionaries(dict(kind=st.sampled_from(["siren", "nerf"]), n=st.sampled_from([16, 33, 64, 100, 128, 256]), h=st.integers(0, 9), i=st.sampled_from([4, 4, 1, 2, 3, 7]), o=st.sampled_from([2, 10, 40]), omega=st.sampled_from([1.0, 0.3, 5.0, 45.0]),
                                  rows=st.sampled_from([1, 2, 50, 257, 1025, 3000]), scale=st.sampled_from([1.0, 100.0]), seed=st.integers(0, 9999), shake=st.just(False)))


@SUITE.case("wide", wide, quick=96, shards=16, rule="as 'networks' with 16 to 256 neurons and up to 3000 rows; sine networks start inside the documented weight ranges")
def wide_case(v, rec):
    cfg, model, x = build(v)
    y = model(x).detach().numpy()
    require(y.shape == (v["rows"], v["o"]) and np.all((y >= 0) & (y <= 1)), "outputs {} outside the unit interval or of the wrong shape", y.shape)
    if v["kind"] == "nerf" or (v["omega"] * 2) ** min(v["h"], 6) * v["scale"] < 1e6:
        want = reference(v, model, x)
        require(np.all(np.abs(y - want) <= 1e-6), "outputs {} instead of {}", y[0], want[0])
        rows = np.random.default_rng(v["seed"]).integers(0, v["rows"], 5)
        alone = torch.cat([model(x[k:k + 1]) for k in rows]).detach().numpy()
        require(np.all(np.abs(alone - y[rows]) <= 1e-6), "rows {} evaluated alone give {}", rows, alone[0])
    if v["kind"] == "siren":
        for k, (W, b) in enumerate(layers(model)):
            bound = 1.0 / W.shape[1] if k == 0 else np.sqrt(6.0 / W.shape[1]) / v["omega"]
            require(np.abs(W).max() <= bound * (1 + 1e-9), "layer {} starts with weights up to {} (range {})", k, np.abs(W).max(), bound)
            if W.size >= 64:
                require(W.max() > 0.7 * bound and W.min() < -0.7 * bound and abs(W.std() - bound / np.sqrt(3)) < 0.3 * bound, "layer {} starts with weights {} .. {} (range {})", k, W.min(), W.max(), bound)
    rec.interesting(v["rows"] > 1)
    rec.label(v["kind"])


direct = st.fixed_dictionaries(dict(kind=st.sampled_from(["siren", "nerf"]), n=st.integers(1, 10), h=st.integers(0, 8), i=st.integers(1, 5), o=st.integers(1, 4), w0=st.sampled_from([1.0, 0.3, 5.0]), w1=st.sampled_from([1.0, 0.3, 3.0]),
                                    linear=st.booleans(), skip=st.lists(st.integers(1, 8), max_size=4, unique=True), rows=st.integers(1, 12), seed=st.integers(0, 9999)))


@SUITE.case("classes", direct, quick=400, shards=8, rule="the network classes themselves: any set of skip connections, different frequency parameters, sine output layer, recorded activations; non-trivial: several rows and hidden layers")
def classes_case(v, rec):
    torch.manual_seed(v["seed"])
    g = np.random.default_rng(v["seed"])
    x = torch.tensor(g.normal(0, 1, (v["rows"], v["i"])))
    if v["kind"] == "nerf":
        cls = private("nidn.training.utils.nerf", "NERF")
        skip = [k for k in v["skip"]]
        model = cls(v["i"], v["o"], skip=skip, n_neurons=v["n"], activation=torch.nn.Sigmoid(), hidden_layers=v["h"])
    else:
        cls = private("nidn.training.utils.siren", "Siren")
        model = cls(v["i"], v["n"], v["h"], v["o"], outermost_linear=v["linear"], outermost_activation=torch.nn.Sigmoid(), first_omega_0=v["w0"], hidden_omega_0=v["w1"])
    ls = layers(model)
    require(len(ls) == v["h"] + 2, "{} layers for {} hidden layers", len(ls), v["h"])
    y, pre = x.numpy(), []
    for k, (W, b) in enumerate(ls):
        last = k == len(ls) - 1
        if v["kind"] == "nerf" and not last and k - 1 in v["skip"]:
            y = np.concatenate([y, x.numpy()], 1)
        require(W.shape[1] == y.shape[1], "layer {} expects {} inputs, gets {}", k, W.shape[1], y.shape[1])
        if v["kind"] == "siren":
            bound = 1.0 / W.shape[1] if k == 0 else np.sqrt(6.0 / W.shape[1]) / v["w1"]
            require(np.abs(W).max() <= bound * (1 + 1e-9), "layer {} starts with weights up to {} (range {})", k, np.abs(W).max(), bound)
        y = y @ W.T + b
        if v["kind"] == "nerf":
            y = 1 / (1 + np.exp(-y)) if last else np.maximum(y, 0)
        elif last and v["linear"]:
            pre.append(y)
            y = 1 / (1 + np.exp(-y))
            pre.append(y)
        else:
            y = (v["w0"] if k == 0 else v["w1"]) * y
            pre.append(y)
            y = np.sin(y)
            pre.append(y)
    got = model(x).detach().numpy()
    require(got.shape == y.shape and np.all(np.abs(got - y) < 1e-6), "outputs {} instead of {}", got[0], y[0])
    if v["kind"] == "siren":
        acts = list(model.forward_with_activations(x).values())
        require(len(acts) == len(pre) + 1, "{} recorded activations for {} steps", len(acts), len(pre) + 1)
        for a, b in zip(acts, [x.numpy()] + pre):
            require(tuple(a.shape) == b.shape and np.all(np.abs(a.detach().numpy() - b) < 1e-6), "recorded activation {} instead of {}", a.detach().numpy()[0], b[0])
    rec.interesting(v["rows"] > 1 and v["h"] > 0)
    rec.label(v["kind"], f"{len(v['skip'])} skips" if v["kind"] == "nerf" else "linear output" if v["linear"] else "sine output")


vox = st.fixed_dictionaries(dict(Nx=st.integers(1, 6), Ny=st.integers(1, 6), NL=st.integers(1, 5), n=st.integers(1, 6), re=st.tuples(st.floats(-50, 20), st.floats(0, 60)).map(lambda t: [t[0], t[0] + t[1]]),
                                 im=st.tuples(st.floats(-3, 3), st.floats(0, 8)).map(lambda t: [t[0], t[0] + t[1]]), seed=st.integers(0, 9999)))


@SUITE.case("voxels", vox, quick=800, shards=8, rule="one independent value per point, layer and frequency; initial ranges; gradients")
def voxels_case(v, rec):
    from nidn.training.model.init_network import init_network

    cfg = base_cfg(model_type="voxel", type="regression", Nx=v["Nx"], Ny=v["Ny"], N_layers=v["NL"], N_freq=v["n"], real_min_eps=v["re"][0], real_max_eps=v["re"][1], imag_min_eps=v["im"][0], imag_max_eps=v["im"][1])
    torch.manual_seed(v["seed"])
    model = init_network(cfg)
    shape = (v["Nx"], v["Ny"], v["NL"], v["n"])
    out = model()
    require(tuple(out.shape) == shape and out.is_complex(), "voxel output {} {} for grid {}", tuple(out.shape), out.dtype, shape)
    e = out.detach().numpy()
    for part, (lo, hi) in ((e.real, v["re"]), (e.imag, v["im"])):
        t = 1e-6 * (abs(lo) + abs(hi) + 1e-3)
        require(np.all(part >= lo - t) and np.all(part <= hi + t), "initial values {} .. {} outside [{}, {}]", part.min(), part.max(), lo, hi)
        if part.size >= 60 and hi - lo > 0.1:  # uniformly spread: not stuck in a part of the range
            require(part.max() > lo + 0.7 * (hi - lo) and part.min() < lo + 0.3 * (hi - lo), "initial values {} .. {} do not spread over [{}, {}]", part.min(), part.max(), lo, hi)
    if e.size > 1 and v["re"][1] - v["re"][0] > 1:
        require(len(np.unique(e.real)) > 0.8 * e.size, "initial values repeat")
    ps = list(model.parameters())
    require(sum(p.numel() for p in ps) == e.size, "{} parameters for {} values", sum(p.numel() for p in ps), e.size)
    g = np.random.default_rng(v["seed"])
    w = g.normal(0, 1, shape) + 1j * g.normal(0, 1, shape)
    loss = (out.real * torch.tensor(w.real) + out.imag * torch.tensor(w.imag)).sum()
    loss.backward()
    got = torch.cat([p.grad.reshape(-1) for p in ps]).numpy().reshape(shape)
    require(np.all(np.abs(got - w) < 1e-5), "a value does not depend on its own parameter alone")
    try:
        cfg.type = "classification"
        init_network(cfg)
    except (AssertionError, NotImplementedError, RuntimeError, ValueError):
        rec.interesting(e.size > 1)
        return
    raise Violation("a voxel model was built for classification")


@SUITE.case("unknown", st.text(max_size=8).filter(lambda s: s not in ("siren", "nerf", "voxel")), quick=60, shards=2, rule="an unknown architecture is refused")
def unknown_case(s, rec):
    from nidn.training.model.init_network import init_network

    cfg = base_cfg(model_type=s)
    cfg.out_features = 2
    try:
        init_network(cfg)
    except NotImplementedError:
        rec.interesting()
        return
    raise Violation(f"model type {s!r} was accepted")
