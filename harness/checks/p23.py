"""Reproducibility of training."""
import random

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import train_common as tc

SUITE = Suite(
    "P23",
    "Pairs of training runs from equal random configurations with random activity in between (draws from the torch, numpy and python generators, reseeding, other training runs, simulations, "
    "model evaluations, failing runs); pairs of seeds; runs continued from given models. Non-trivial: at least two activities between the runs.",
    ["Single-threaded execution on the CPU."],
)

ops = st.lists(st.sampled_from(["torch", "numpy", "python", "seed", "train", "train other seed", "spectrum", "model", "bad run", "materials"]), max_size=4)


def disturb(op, v, k):
    if op == "torch":
        torch.rand(7 + k)
    elif op == "numpy":
        np.random.rand(5 + k)
    elif op == "python":
        random.random()
    elif op == "seed":
        torch.manual_seed(k + 5), np.random.seed(k + 5), random.seed(k)
    elif op in ("train", "train other seed"):
        cfg = tc.train_cfg(dict(v, seed=v["seed"] + (k + 1 if op != "train" else 0), iterations=1))
        with quiet():
            nidn.run_training(cfg)
    elif op == "spectrum":
        cfg = tc.train_cfg(v)
        nidn.get_frequency_points(cfg)
        nidn.compute_spectrum(torch.full((v["Nx"], v["Ny"], v["NL"], v["n"]), 2.0 + 0.1j), cfg)
    elif op == "model":
        tc.fresh_model(tc.train_cfg(v), v)
    elif op == "materials":
        nidn.MaterialCollection([0.5, 1.0])
    elif op == "bad run":
        cfg = tc.train_cfg(v)
        cfg.N_layers = -1
        try:
            nidn.run_training(cfg)
        except Exception:  # noqa: BLE001 - refused, as it should be
            pass


def outcome(v, model=None):
    cfg = tc.train_cfg(v)
    if model is not None:
        cfg.model = model
    with quiet():
        out = nidn.run_training(cfg)
    state = {n: p.detach().clone() for n, p in out.model.state_dict().items()}
    torch.manual_seed(0)
    eps, ids = nidn.model_to_eps_grid(out.model, out)
    return dict(logs=[list(out.results.loss_log), list(out.results.L1_errs), list(out.results.weighted_average_log)], state=state, eps=eps.detach(), ids=None if ids is None else ids.detach())


def identical(a, b, what):
    require(set(a["state"]) == set(b["state"]) and tc.equal(a["state"], b["state"]), "{}: parameters differ", what)
    require(np.array_equal(np.array(a["logs"]), np.array(b["logs"]), equal_nan=True), "{}: logs differ: {} {}", what, a["logs"][0], b["logs"][0])
    require(torch.equal(a["eps"], b["eps"]), "{}: permittivities differ", what)
    require((a["ids"] is None) == (b["ids"] is None) and (a["ids"] is None or torch.equal(a["ids"], b["ids"])), "{}: material weights differ", what)


@SUITE.case("repeat", st.tuples(tc.train_specs(max_iter=5), ops, st.integers(0, 99)).map(list), quick=240, shards=16, rule="equal configurations give bit-identical results whatever happened before")
def repeat_case(w, rec):
    v, activity, s = w
    torch.manual_seed(s), np.random.seed(s)
    a = outcome(v)
    for k, op in enumerate(activity):
        disturb(op, v, k)
    b = outcome(v)
    identical(a, b, f"after {activity}")
    rec.interesting(len(activity) > 1)
    rec.label(v["model"], v["type"], *set(activity))


@SUITE.case("seeds", st.tuples(tc.train_specs(max_iter=1, noise=False), st.one_of(st.integers(0, 1000), st.integers(0, 2**31)), st.one_of(st.integers(1, 1000), st.sampled_from([1000, 2000, 10**4, 2**16, 2**20, 10**6]))).map(list), quick=160, shards=8, rule="another seed gives another initial model, the same seed the same one")
def seeds_case(w, rec):
    v, s, d = w
    # one iteration returns the initial model
    a, b, c = (outcome(dict(v, seed=x, iterations=1)) for x in (s, s + d, s))
    identical(a, c, "same seed")
    require(not tc.equal(a["state"], b["state"]), "seeds {} and {} give the same initial {} model", s, s + d, v["model"])
    changed = [n for n in a["state"] if not torch.equal(a["state"][n], b["state"][n])]
    rec.interesting(len(changed) > 0)
    rec.label(v["model"])


@SUITE.case("continued", tc.train_specs(max_iter=4, noise=False), quick=120, shards=8, rule="a given model is trained further, not replaced, and does not depend on the seed")
def continued_case(v, rec):
    model = tc.Recorder(tc.fresh_model(tc.train_cfg(v), v))
    start = {n: p.detach().clone() for n, p in model.state_dict().items()}
    a = outcome(v, model)
    require(tc.equal(start, model.states[0]), "training did not start from the given model")
    second = tc.Recorder(tc.fresh_model(tc.train_cfg(v), v))
    second.load_state_dict(start)
    b = outcome(dict(v, seed=v["seed"] + 1), second)
    identical(a, b, "given model with another seed")
    rec.interesting(v["iterations"] > 1)


@SUITE.case("continued repeat", st.tuples(tc.train_specs(max_iter=4).map(lambda v: dict(v, noise=0.02)), ops, st.integers(0, 99), st.integers(0, 99)).map(list), quick=120, shards=8,
            rule="continuing from equal models with equal configurations (and noise) is reproducible whatever happened before")
def continued_repeat_case(w, rec):
    v, activity, s1, s2 = w
    start = None
    res = []
    for s in (s1, s2):
        model = tc.Recorder(tc.fresh_model(tc.train_cfg(v), v))
        if start is None:
            start = {n: p.detach().clone() for n, p in model.state_dict().items()}
        model.load_state_dict(start)
        torch.manual_seed(s), np.random.seed(s)
        res.append(outcome(v, model))
        for k, op in enumerate(activity):
            disturb(op, v, k)
    identical(res[0], res[1], "continued from equal models")
    rec.interesting(s1 != s2)
    rec.label(v["model"], v["type"])


@SUITE.case("fix_random_seeds", st.tuples(st.integers(0, 2 ** 31), st.integers(0, 20)).map(list), quick=200, shards=2, rule="the seeding function fixes the torch and numpy generators")
def seeding_case(w, rec):
    s, n = w
    torch.rand(n), np.random.rand(n)
    nidn.fix_random_seeds(s)
    a = (torch.rand(3).tolist(), np.random.rand(3).tolist(), torch.randn(2).tolist())
    torch.rand(n), np.random.rand(n + 1)
    nidn.fix_random_seeds(s)
    b = (torch.rand(3).tolist(), np.random.rand(3).tolist(), torch.randn(2).tolist())
    require(a == b, "the generators continue differently after seeding with {}", s)
    nidn.fix_random_seeds(s + 1)
    require(torch.rand(3).tolist() != a[0], "seeds {} and {} give the same torch numbers", s, s + 1)
    rec.interesting(n > 0)
