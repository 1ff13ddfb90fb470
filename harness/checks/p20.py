"""Spectrum loss and likelihood regularisation."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import train_common as tc

SUITE = Suite(
    "P20",
    "Random produced and target spectra (1 to 12 points; reflectance plus transmittance below, at and above one; equal to the target in some or all points), exponents, absorption settings; "
    "random material weights (mixed and pure); and the losses logged by one-iteration training runs of random configurations. Non-trivial: at least two points with different deviations.",
    ["A sum within 1e-12 of one may be treated as above or not.", "Pure weights: exactly zero or one."],
)

point = st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1), st.floats(0, 1), st.sampled_from(["free"] * 5 + ["met"] * 3 + ["bound", "over", "slight", "alone"])).map(list)
spec = st.fixed_dictionaries(dict(points=st.one_of(*[st.lists(point, min_size=1, max_size=12)] * 6, st.lists(point, min_size=15, max_size=80)), L=st.one_of(st.sampled_from([1.0, 2.0, 0.5, 1, 2]), st.floats(0.3, 4.0)), absorption=st.booleans(), container=st.sampled_from(["list", "tensor"]),
                                  targets=st.sampled_from(["list", "tensor", "numpy"])))


def spectra(v):
    R, T, a, b = [], [], [], []
    for r, t, x, y, kind in v["points"]:
        s = r + t
        if kind != "over" and s > 0.999:
            r, t = r / s * 0.999, t / s * 0.999
        if kind == "slight":  # just above or below one
            t = 1.0 - r + (x - 0.3) * 10 ** (-2 - 8 * y)
            t = max(t, 0.0)
        if kind == "alone":  # one of them alone above one
            r, t = (1 + x, 0.0) if y < 0.5 else (0.0, 1 + x)
        if kind == "bound":
            t = 1.0 - r
        if kind == "met":
            x, y = r, t
        R.append(r), T.append(t), a.append(x), b.append(y)
    return R, T, a, b


def pack(x, kind):
    return {"list": lambda: [torch.tensor(e) for e in x], "tensor": lambda: torch.tensor(x), "numpy": lambda: np.array(x), "plain": lambda: list(x)}[kind]()


@SUITE.case("spectrum loss", spec, quick=3000, shards=8, rule="value and renormalisation flag against the stated mean")
def loss_case(v, rec):
    fn = private("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    R, T, a, b = spectra(v)
    freqs = np.linspace(0.3, 1.1, len(R))
    pr, pt = pack(R, v["container"]), pack(T, v["container"])
    ta, tb = (pack(x, {"list": "plain", "tensor": "tensor", "numpy": "numpy"}[v["targets"]]) for x in (a, b))
    loss, flag = fn(pr, pt, ta, tb, freqs, v["L"], v["absorption"])
    loss = float(loss)
    want, wflag = tc.ref_loss(R, T, a, b, v["L"], v["absorption"])
    edge = any(abs(r + t - 1) < 1e-12 for r, t in zip(R, T))
    slack = 1e-15 ** min(v["L"], 1.0)  # what rounding of a difference makes of zero
    tol = 1e-9 + slack if not edge else 1e-5 + slack
    require(abs(loss - want) <= tol * max(1, want), "loss {} instead of {} (R {}, T {}, targets {} {}, L {}, absorption {})", loss, want, R, T, a, b, v["L"], v["absorption"])
    if not edge:
        require(bool(flag) == wflag, "renormalisation reported as {} for sums {}", flag, [r + t for r, t in zip(R, T)])
    require(torch.equal(torch.as_tensor(np.array([float(x) for x in pr])), torch.tensor(R)) and torch.equal(torch.as_tensor(np.array([float(x) for x in pt])), torch.tensor(T)), "the produced spectra were modified")
    met = all(r == x and t == y for r, t, x, y in zip(R, T, a, b))
    if met and not wflag and not edge:
        require(loss <= slack, "loss {} although the target is met exactly", loss)
    elif not wflag and not edge and max(abs(r - x) + abs(t - y) for r, t, x, y in zip(R, T, a, b)) > 1e-2:
        require(loss > 0, "loss zero although the target is missed")
    rec.interesting(len({round(abs(r - x), 6) for r, x in zip(R, a)}) > 1)
    rec.label("renormalised" if wflag else "physical", "absorption" if v["absorption"] else "RT")


@SUITE.case("gradient", spec, quick=600, shards=8, rule="the loss is differentiable with the gradient of the stated mean")
def grad_case(v, rec):
    fn = private("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    R, T, a, b = spectra(v)
    if any(abs(r + t - 1) < 1e-6 for r, t in zip(R, T)) or min(min(abs(r - x), abs(t - y), abs(r + t - x - y)) for r, t, x, y in zip(R, T, a, b)) < 1e-4:
        return
    r1, t1 = torch.tensor(R, requires_grad=True), torch.tensor(T, requires_grad=True)
    loss, _ = fn([x for x in r1], [x for x in t1], a, b, np.linspace(0.3, 1.1, len(R)), v["L"], v["absorption"])
    loss.backward()
    r2, t2 = torch.tensor(R, requires_grad=True), torch.tensor(T, requires_grad=True)
    tc.ref_loss_t(r2, t2, a, b, v["L"], v["absorption"]).backward()
    g, w = torch.cat([r1.grad, t1.grad]).numpy(), torch.cat([r2.grad, t2.grad]).numpy()
    kink = any(abs(abs((r + t if r + t <= 1 else 1) - x - y)) < 1e-6 for r, t, x, y in zip(R, T, a, b)) or any(r + t > 1 and (abs(r / (r + t) - x) < 1e-4 or abs(t / (r + t) - y) < 1e-4) for r, t, x, y in zip(R, T, a, b))
    if kink:
        return
    require(np.all(np.abs(g - w) <= 1e-6 * (1 + np.abs(w))), "gradient {} instead of {}", g, w)
    rec.interesting()


weights = st.fixed_dictionaries(dict(shape=st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(2, 10)).map(list), seed=st.integers(0, 9999), pure=st.sampled_from([0.0, 0.5, 1.0]),
                                     L=st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.floats(0.3, 4)), sharp=st.sampled_from([1.0, 5.0, 20.0])))


@SUITE.case("regularisation", weights, quick=1500, shards=8, rule="mean distance to the nearer of zero and one; zero exactly for pure materials")
def reg_case(v, rec):
    fn = private("nidn.training.losses.likelihood_regularization_loss", "_likelihood_regularization_loss_fn")
    g = np.random.default_rng(v["seed"])
    p = np.exp(v["sharp"] * g.random(v["shape"]))
    p /= p.sum(-1, keepdims=True)
    hot = np.eye(v["shape"][-1])[g.integers(0, v["shape"][-1], v["shape"][:3])]
    pick = g.random(v["shape"][:3]) < v["pure"]
    p[pick] = hot[pick]
    t = torch.tensor(p)
    got = float(fn(t, v["L"]))
    want = math.fsum(min(x, 1 - x) ** v["L"] for x in p.ravel()) / p.size
    require(abs(got - want) <= 1e-9 * (1 + want) + (1e-6 if v["L"] < 1 else 0), "regularisation {} instead of {} for exponent {}", got, want, v["L"])
    most = float(fn(t, v["L"], use_max=True))
    mwant = math.fsum(1 - x for x in p.max(-1).ravel()) / p[..., 0].size
    require(abs(most - mwant) <= 1e-9, "regularisation by the largest weight {} instead of {}", most, mwant)
    require(torch.equal(t, torch.tensor(p)), "the weights were modified")
    if pick.all():
        require(got == 0, "regularisation {} for pure materials", got)
        rec.label("pure")
    else:
        require(got > 0, "regularisation {} for mixtures", got)
    rec.interesting(not pick.all())


@SUITE.case("training", tc.train_specs(max_iter=1), quick=240, shards=16, rule="the loss logged by a one-iteration run is the stated loss of the initial model")
def training_case(v, rec):
    out, model = tc.run(v)
    res = out.results
    require(len(res.loss_log) == 1 and len(res.L1_errs) == 1, "one iteration logged {} losses", len(res.loss_log))
    want = tc.evaluate(out, model, model.states[0], model.rngs[0], v)
    if want["margin"] < 1e-6:
        return
    tol = 2e-5 if v["L"] >= 1 else 2e-3
    require(abs(res.loss_log[0] - want["loss"]) <= tol * (1 + want["loss"]), "logged loss {} instead of {}", res.loss_log[0], want["loss"])
    require(abs(res.L1_errs[0] - want["l1"]) <= 2e-5, "logged mean absolute error {} instead of {}", res.L1_errs[0], want["l1"])
    rec.interesting(v["n"] > 1)
    rec.label(v["type"], v["model"], "renormalised" if want["flag"] else "physical")
