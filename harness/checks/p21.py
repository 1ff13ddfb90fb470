"""Training histories: logs, updates and the returned model."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import train_common as tc

SUITE = Suite(
    "P21",
    "Training runs of 1 to 8 (a few of up to 60) iterations with random settings (regression and classification, all model types, patterned and uniform stacks, learning rates from harmless to "
    "wild, exponents, absorption, regularisation, noise, amplifying media that force renormalisation, both solvers) with a recording model. Non-trivial: the best iteration is not the last.",
    ["Recomputed losses may differ by 2e-5 (2e-3 for exponents below one).", "Adam with the configured learning rate is the optimiser; its rate stays constant for fewer than 500 iterations.",
     "Gradients are compared with finite differences where single-precision permittivities allow it."],
)


@SUITE.case("history", tc.train_specs(max_iter=8), quick=320, shards=16, rule="logs, parameter updates and returned state of complete runs")
def history_case(v, rec):
    out, model = tc.run(v)
    best, _ = tc.judge(v, out, model, rec)
    rec.interesting(best is not None and best < v["iterations"] - 1)


@SUITE.case("long", tc.train_specs(max_iter=8, noise=False).map(lambda v: dict(v, iterations=30 + 3 * v["iterations"], Nx=1, Ny=1, over=1, n=1, tR=v["tR"][:1], tT=v["tT"][:1])), quick=32, shards=16,
            rule="runs longer than the averaging window")
def long_case(v, rec):
    out, model = tc.run(v)
    best, _ = tc.judge(v, out, model, rec)
    rec.interesting(best is not None and best < v["iterations"] - 1)


@SUITE.case("fdtd", tc.train_specs(solver="FDTD", max_iter=3, noise=False).map(lambda v: dict(v, Nx=1, Ny=1, over=1, n=1, NL=min(v["NL"], 2), thickness=v["thickness"][:1], tR=v["tR"][:1], tT=v["tT"][:1])), quick=16, shards=16,
            rule="the same with the time-domain solver")
def fdtd_case(v, rec):
    out, model = tc.run(v)
    best, _ = tc.judge(v, out, model, rec)
    rec.interesting(v["iterations"] > 1)


@SUITE.case("gradient", tc.train_specs(max_iter=1, noise=False).map(lambda v: dict(v, iterations=2, lr=1e-3, L=max(v["L"], 1.0), Nx=1, Ny=1, over=1)), quick=160, shards=16,
            rule="the first update moves each checked parameter against the finite-difference slope of the loss")
def gradient_case(v, rec):
    out, model = tc.run(v)
    if not tc.finite(model.states[1]):
        return
    s0, s1 = model.states
    g = np.random.default_rng(v["seed"])

    def loss(state):
        return tc.evaluate(out, model, state, model.rngs[0], v)

    names = list(s0)
    checked = 0
    for _ in range(6):
        n = names[g.integers(len(names))]
        i = int(g.integers(tc.real_view(s0[n]).numel()))

        def moved(h):
            st_ = {k: p.clone() for k, p in s0.items()}
            r = torch.view_as_real(st_[n]) if st_[n].is_complex() else st_[n]
            r.view(-1)[i] += h
            return st_

        h = 0.02 if v["model"] == "voxel" else 2e-3
        if s0[n].ndim == 2 and s0[n].shape[1] == 4:  # first layer: coordinates of very different size
            h *= (0.5, 0.5, 5e-4, 0.02)[i % 4]
        a, b, c, d = (loss(moved(x)) for x in (-h, h, -2 * h, 2 * h))
        if min(x["margin"] for x in (a, b, c, d)) < 1e-3:
            continue
        d1, d2 = (b["loss"] - a["loss"]) / (2 * h), (d["loss"] - c["loss"]) / (4 * h)
        noise = 3e-6 / h
        mid = loss(s0)["loss"]
        if abs((b["loss"] - mid) - (mid - a["loss"])) > 0.1 * abs(b["loss"] - a["loss"]):
            continue  # kink of a rectifier or of the absolute value
        if abs(d1 - d2) > 0.1 * abs(d1) or abs(d1) < 10 * noise or min(abs(d1), abs(d2)) < 1e-4:
            continue
        change = float((tc.real_view(s1[n]) - tc.real_view(s0[n])).view(-1)[i])
        require(change * d1 < 0 and abs(abs(change) - v["lr"]) < 0.05 * v["lr"] + (1e-4 if v["model"] == "voxel" else 0), "parameter {}[{}] moved by {} although the slope of the loss is {}", n, i, change, d1)
        checked += 1
    rec.interesting(checked > 0)
    rec.label(v["type"], v["model"], f"checked {min(checked, 3)}")
