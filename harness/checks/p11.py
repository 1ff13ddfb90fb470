"""Histories of FDTD runs: resuming, resetting, linearity, isolation, boundedness."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks.yee_common import *  # noqa: F403
from checks import p10

SUITE = Suite(
    "P11",
    "Random driven grids and random histories of run / step / timed run / reset / work on another grid. Non-trivial: at least two operations that advance time, "
    "or a reset, or a superposition with two non-zero parts.",
    ["Floating-point run times are kept away from whole multiples of the time step; PML slabs that meet in the middle of a grid are not generated for the bound."],
)

op = st.one_of(
    st.tuples(st.just("run"), st.integers(0, 8)), st.tuples(st.just("step"), st.just(1)), st.tuples(st.just("time"), st.integers(0, 8)),
    st.tuples(st.just("bar"), st.integers(0, 5)), st.tuples(st.just("reset"), st.just(0)), st.tuples(st.just("other"), st.integers(1, 5))).map(list)
any_driven = st.one_of(p10.driven, p10.driven, p10.wide_driven)
history = st.fixed_dictionaries(dict(grid=any_driven, other=any_driven, ops=st.lists(op, min_size=1, max_size=8)))


def fields(grid):
    return grid.E.detach().numpy().copy(), grid.H.detach().numpy().copy()


def flat(x):
    """Flattens nested lists of tensors to one array."""
    if torch.is_tensor(x):
        return x.detach().numpy().reshape(-1)
    if isinstance(x, (list, tuple)):
        return np.concatenate([flat(y) for y in x]) if len(x) else np.zeros(0)
    return np.array([float(x)])


def all_records(grid):
    return [[flat(r) for r in d.detector_values()[k]] for d in grid.detectors for k in sorted(d.detector_values())]


def same(a, b, what, tol=1e-11):
    for x, y, f in zip(a, b, "EH"):
        scale = max(1e-12, np.abs(y).max())
        require(np.abs(x - y).max() <= tol * scale, "{}: {} differs by {} (of {})", what, f, np.abs(x - y).max(), scale)


@SUITE.case("history", history, quick=700, shards=16, rule="fields and detector records after a history equal those of a fresh grid run in one go")
def history_case(v, rec):
    grid, ref, _ = p10.build(v["grid"])
    other, _, _ = p10.build(v["other"])
    n, resets, advances, other_steps = 0, 0, 0, 0
    for kind, k in v["ops"]:
        if kind == "run":
            grid.run(k, progress_bar=False)
        elif kind == "bar":
            with quiet():
                grid.run(k)
        elif kind == "step":
            grid.step()
        elif kind == "time":  # whole steps that fit into the time
            grid.run((k + abs(off(k + n)) + 0.5 * (k % 2)) * grid.time_step, progress_bar=False)
        elif kind == "reset":
            grid.reset()
            require(float(grid.E.abs().max()) == 0 and float(grid.H.abs().max()) == 0, "fields survive a reset")
            n = 0
            resets += 1
        else:
            other.run(k, progress_bar=False)
            other_steps += k
        if kind in ("run", "bar", "step", "time"):
            n += k
            advances += k > 0
        require(int(grid.time_steps_passed) == n, "{} time steps counted after {}", grid.time_steps_passed, n)
    fresh, _, _ = p10.build(dict(v["grid"], fields=None) if resets else v["grid"])
    fresh.run(n, progress_bar=False)
    same(fields(grid), fields(fresh), "history " + str(v["ops"]))
    for a, b in zip(all_records(grid), all_records(fresh)):
        require(len(b) == n and len(a) >= n, "{} records for {} steps", len(a), n)
        for x, y in zip(a[len(a) - n:], b):
            require(x.shape == y.shape and (x.size == 0 or np.abs(x - y).max() <= 1e-10 * max(1e-12, np.abs(y).max(), np.abs(fields(fresh)[0]).max())), "detector records differ from a fresh run")
    if other_steps:
        lone, _, _ = p10.build(v["other"])
        lone.run(other_steps, progress_bar=False)
        same(fields(other), fields(lone), "a second grid worked on in between")
    rec.interesting(advances > 1 or (resets and n))
    rec.label(*{k for k, _ in v["ops"]})


linear = st.fixed_dictionaries(dict(grid=any_driven, a=st.sampled_from([1.0, -0.5, 2.0]), b=st.sampled_from([0.0, 1.0, 3.0]), amps=N, steps=st.integers(1, 25)))


@SUITE.case("linear", linear, quick=600, shards=16, rule="fields and records of a superposition are the superposition of fields and records")
def linear_case(v, rec):
    rng = np.random.default_rng(v["amps"])
    runs = []
    srcs = v["grid"]["sources"]
    A = [round(float(x), 3) for x in rng.standard_normal(len(srcs))]
    B = [round(float(x), 3) for x in rng.standard_normal(len(srcs))]
    shape = None
    for w in (A, B, [v["a"] * x + v["b"] * y for x, y in zip(A, B)]):
        d = copy.deepcopy(v["grid"])
        d["fields"] = None
        for s, x in zip(d["sources"], w):
            if s["kind"] == "array":
                s["values"] = [x * y for y in s["values"]]
            else:
                s["amp"] = x
        grid, _, _ = p10.build(d)
        shape = tuple(grid.E.shape)
        runs.append(grid)
    F1 = [rng.standard_normal(shape) for _ in range(4)]
    init = [(F1[0], F1[1]), (F1[2], F1[3]), (v["a"] * F1[0] + v["b"] * F1[2], v["a"] * F1[1] + v["b"] * F1[3])]
    res = []
    for grid, (E, H) in zip(runs, init):
        grid.E[...] = torch.tensor(E)
        grid.H[...] = torch.tensor(H)
        grid.run(v["steps"], progress_bar=False)
        res.append(fields(grid))
    scale = max(np.abs(r[k]).max() for r in res for k in (0, 1)) + 1
    for k in (0, 1):
        err = np.abs(res[2][k] - v["a"] * res[0][k] - v["b"] * res[1][k]).max()
        require(err <= 1e-6 * scale, "superposition violated in {}: {} of {}", "EH"[k], err, scale)
    recs = [[np.concatenate(r) if r else np.zeros(0) for r in all_records(g)] for g in runs]
    for x, y, z in zip(*recs):
        s = max([1.0] + [np.abs(q).max() for q in (x, y, z) if q.size])
        require(z.size == 0 or np.abs(z - v["a"] * x - v["b"] * y).max() <= 1e-6 * max(s, scale), "detector records are not linear")
    rec.interesting(v["b"] != 0)


bounded = st.fixed_dictionaries(dict(
    grid=grid_strategy, big=st.integers(4, 24), axis=st.integers(0, 2), objects=st.lists(object_strategy, max_size=2), boundaries=st.lists(boundary_strategy, max_size=3),
    fields=N, steps=st.integers(100, 500)))


@SUITE.case("bounded", bounded, quick=160, shards=16, rule="fields without sources stay bounded by the initial norm (times 50) in every closed, periodic or absorbing grid")
def bounded_case(v, rec):
    g = copy.deepcopy(v["grid"])
    g["shape"][v["axis"]] = v["big"]
    grid, ref = make_grid(g)
    for o in v["objects"]:
        add_object(o, grid, ref)
    bs = []
    for b in v["boundaries"]:
        room = (ref.shape[b["axis"]] - 1) // 2
        if room < 1:
            continue
        bs.append(dict(b, t=min(b["t"], room)))
    labels = add_boundaries(bs, grid, ref)
    set_fields(v["fields"], grid, ref)
    n0 = math.sqrt(float((ref.E ** 2).sum() + (ref.H ** 2).sum()))
    left = v["steps"]
    while left > 0:
        grid.run(min(25, left), progress_bar=False)
        left -= 25
        m = max(float(grid.E.abs().max()), float(grid.H.abs().max()))
        require(m <= 50 * n0, "field of {} from an initial norm of {} after {} steps", m, n0, v["steps"] - max(left, 0))
    rec.interesting()
    rec.label(*labels)


endless = st.fixed_dictionaries(dict(
    courant=st.sampled_from([None, 1.0, 0.4]), spacing=st.sampled_from([1e-7, 2.5e-8]), wave=p10.wave, amp=p10.amp, parts=st.lists(st.integers(500, 4000), min_size=2, max_size=3)))


@SUITE.case("long", endless, quick=16, shards=16, rule="runs of thousands of steps, in parts, still count time and emit the stated waveform")
def long_case(v, rec):
    g = dict(shape=[3, 1, 1], long_axis=0, spacing=v["spacing"], courant=v["courant"], eps=1.0, mu=1.0)
    d = dict(grid=g, objects=[], boundaries=[], detectors=[], sources=[dict(kind="point", at=[1, 0, 0], wave=v["wave"], amp=v["amp"])], fields=None)
    grid, ref, _ = p10.build(d)
    n = 0
    for k in v["parts"]:
        grid.run(k, progress_bar=False)
        n += k
        require(int(grid.time_steps_passed) == n, "{} time steps counted after {}", grid.time_steps_passed, n)
        # the next injections, isolated
        for j in range(30):
            grid.E[...] = 0.0
            grid.H[...] = 0.0
            ref.E[...] = 0.0
            ref.H[...] = 0.0
            ref.q = n
            grid.step()
            ref.step()
            n += 1
            err = np.abs(grid.E.detach().numpy() - ref.E).max()
            require(err <= 1e-5 * abs(v["amp"]), "step {}: injected field off by {}", n, err)
    rec.interesting()
    rec.label(v["wave"]["type"])
