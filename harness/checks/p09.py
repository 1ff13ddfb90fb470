"""FDTD time stepping against an independent Yee model and conservation laws."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks.yee_common import *  # noqa: F403

SUITE = Suite(
    "P09",
    "Random grids (shape, spacing, background, Courant number), objects (any index form, scalar or array permittivity and conductivity), boundaries and initial "
    "fields; every step compared with a numpy Yee model. Non-trivial: at least one object or boundary, or a 2D/3D grid.",
    ["Material convention of the engine: the outermost plane of an object keeps the surrounding permittivity for the normal field component.",
     "PML slabs are convolutional, cubically graded, and span the whole side; constants of nature in NIDN carry single-precision pi (3e-8)."],
)

yee = st.fixed_dictionaries(dict(
    grid=grid_strategy, objects=st.lists(object_strategy, max_size=3), boundaries=st.lists(boundary_strategy, max_size=3),
    fields=N, steps=st.integers(1, 12), objects_first=st.booleans()))


def build(v):
    grid, ref = make_grid(v["grid"])
    labels = []
    if v["objects_first"]:
        for o in v["objects"]:
            add_object(o, grid, ref)
        labels = add_boundaries(v["boundaries"], grid, ref)
    else:
        labels = add_boundaries(v["boundaries"], grid, ref)
        for o in v["objects"]:
            add_object(o, grid, ref)
    set_fields(v["fields"], grid, ref)
    return grid, ref, labels


@SUITE.case("steps", yee, quick=2400, shards=16, rule="E and H after every step equal the Yee model")
def steps_case(v, rec):
    grid, ref, labels = build(v)
    close(grid.inverse_permittivity, ref.ieps, "inverse permittivity")
    close(grid.absorption_factor, ref.alpha, "absorption factor")
    for k in range(v["steps"]):
        grid.step()
        ref.step()
        same_fields(grid, ref, f"step {k + 1}")
    require(int(grid.time_steps_passed) == v["steps"], "time_steps_passed is {} after {} steps", grid.time_steps_passed, v["steps"])
    require(abs(grid.time_passed - v["steps"] * ref.dt) <= 1e-9 * v["steps"] * ref.dt, "time_passed {} instead of {}", grid.time_passed, v["steps"] * ref.dt)
    rec.interesting(v["objects"] or labels or sum(n > 1 for n in ref.shape) > 1)
    rec.label(*labels, f"{sum(n > 1 for n in ref.shape)}D", *[f"object {o['shape']}" + ("" if o["sigma"] is None else " absorbing") for o in v["objects"]])


wide = st.fixed_dictionaries(dict(
    grid=wide_grid, objects=st.lists(wide_object, max_size=6), boundaries=st.lists(wide_boundary, max_size=3), fields=N, steps=st.integers(1, 12), objects_first=st.booleans()))


@SUITE.case("wide", wide, quick=600, shards=16, rule="as 'steps' for any spacing, background and Courant number, up to six objects of any strength and slabs up to 25 cells thick")
def wide_case(v, rec):
    steps_case(v, rec)


growing = st.fixed_dictionaries(dict(
    grid=st.one_of(grid_strategy, wide_grid), boundaries=st.lists(boundary_strategy, max_size=2), fields=N,
    parts=st.lists(st.tuples(st.integers(0, 4), st.one_of(object_strategy, wide_object)).map(list), min_size=2, max_size=5), rest=st.integers(1, 5)))


@SUITE.case("growing", growing, quick=400, shards=8, rule="objects put in between time steps act from the next step on")
def growing_case(v, rec):
    grid, ref = make_grid(v["grid"])
    labels = add_boundaries(v["boundaries"], grid, ref)
    set_fields(v["fields"], grid, ref)
    k = 0
    for n, o in v["parts"] + [[v["rest"], None]]:
        for _ in range(n):
            grid.step()
            ref.step()
            k += 1
            same_fields(grid, ref, f"step {k}")
        if o is not None:
            add_object(o, grid, ref)
            close(grid.inverse_permittivity, ref.ieps, f"inverse permittivity after step {k}")
            close(grid.absorption_factor, ref.alpha, f"absorption factor after step {k}")
    rec.interesting(any(n for n, _ in v["parts"]))
    rec.label(*labels)


large = st.tuples(yee, st.tuples(st.integers(1, 40), st.integers(1, 14), st.integers(1, 8)).map(list), st.permutations([0, 1, 2]), st.integers(20, 200)).map(
    lambda t: dict(t[0], grid=dict(t[0]["grid"], shape=[t[1][i] for i in t[2]]), steps=t[3]))


@SUITE.case("large", large, quick=160, shards=16, rule="as 'steps' for larger grids and more steps, compared at the end")
def large_case(v, rec):
    grid, ref, labels = build(v)
    peak = 0.0
    for k in range(v["steps"]):
        grid.step()
        ref.step()
        peak = max(peak, float(np.abs(ref.E).max()), float(np.abs(ref.H).max()))
        if not np.isfinite(peak) or peak > 1e6:
            rec.label("growing (overlapping absorbing layers)")
            return
        if k % 20 == 19 or k == v["steps"] - 1:
            same_fields(grid, ref, f"step {k + 1}", 1e-6, peak)
    rec.interesting()
    rec.label(*labels, f"{sum(n > 1 for n in ref.shape)}D")


@SUITE.case("border", st.tuples(st.integers(1, 4), grid_strategy, st.tuples(*[st.integers(0, 4)] * 3).map(list), N, st.integers(1, 8)).map(list), quick=160, shards=8,
            rule="the domain border helper equals six PML slabs")
def border_case(w, rec):
    cells, g, extra, seed, steps = w
    border = private("nidn.fdtd.boundaries", "DomainBorderPML")
    g = dict(g, shape=[2 * cells + e + 1 for e in extra])
    grid, ref = make_grid(g)
    border(grid, cells)
    for ax in (2, 0, 1):
        for high in (False, True):
            ref.add_pml(ax, high, cells)
    set_fields(seed, grid, ref)
    for k in range(steps):
        grid.step()
        ref.step()
        same_fields(grid, ref, f"step {k + 1}")
    rec.interesting()


@SUITE.case("energy", st.fixed_dictionaries(dict(grid=grid_strategy, objects=st.lists(object_strategy, max_size=3), fields=N, steps=st.integers(2, 60))), quick=500, shards=8,
            rule="lossless periodic grids conserve the leapfrog energy E eps E + H(-) mu H(+); lossy objects never increase it")
def energy_case(v, rec):
    grid, ref = make_grid(v["grid"])
    for o in v["objects"]:
        add_object(o, grid, ref)
    ring_E, ring_H = [slice(None)] * 3, [slice(None)] * 3
    for ax in range(3):
        if ref.shape[ax] > 1:
            key = [slice(None)] * 3
            key[ax] = 0
            grid[tuple(key)] = F.PeriodicBoundary()
            ring_E[ax], ring_H[ax] = slice(1, None), slice(None, -1)
    ring_E, ring_H = tuple(ring_E), tuple(ring_H)
    lossy = bool((ref.alpha[ring_E] > 0).any())
    set_fields(v["fields"], grid, ref)
    grid.step()  # from here on the fields satisfy the periodic boundaries
    ieps, imu = ref.ieps[ring_E], ref.imu
    W = []
    # E(n) lives between H(n-1/2) and H(n+1/2)
    for _ in range(v["steps"]):
        Hm = grid.H.detach().numpy()[ring_H].copy()
        grid.step()
        E, Hp = grid.E.detach().numpy()[ring_E], grid.H.detach().numpy()[ring_H]
        W.append(float((E * E / ieps).sum() + (Hm * Hp).sum() / imu))
    W = np.array(W)
    if lossy:
        require(np.all(np.diff(W) <= 1e-9 * abs(W[0])), "energy grows in an absorbing grid: {}", W.tolist())
    else:
        require(np.abs(W - W[0]).max() <= 1e-9 * abs(W[0]), "energy changes in a lossless periodic grid: {} -> {}", W[0], W[-1])
    rec.interesting(v["objects"])
    rec.label("lossy" if lossy else "lossless")


@SUITE.case("pml absorbs", st.fixed_dictionaries(dict(
    axis=st.integers(0, 2), t=st.integers(10, 20), mid=st.integers(20, 40), width=st.sampled_from([3.0, 4.0, 6.0]), comp=st.integers(1, 2),
    eps=st.sampled_from([1.0, 2.25]), transverse=st.booleans())), quick=60, shards=8,
    rule="a pulse released between two PMLs leaves the grid almost without reflection")
def pml_case(v, rec):
    ax = v["axis"]
    shape = [1, 1, 1]
    n = 2 * v["t"] + v["mid"]
    shape[ax] = n
    other = (ax + 1) % 3
    if v["transverse"]:
        shape[other] = 3
    grid = F.Grid(tuple(shape), grid_spacing=1e-7, permittivity=v["eps"])
    lo, hi = [slice(None)] * 3, [slice(None)] * 3
    lo[ax], hi[ax] = slice(0, v["t"]), slice(-v["t"], None)
    grid[tuple(lo)] = F.PML()
    grid[tuple(hi)] = F.PML()
    if v["transverse"]:
        key = [slice(None)] * 3
        key[other] = 0
        grid[tuple(key)] = F.PeriodicBoundary()
    x = np.arange(n)
    pulse = np.exp(-((x - n / 2) / v["width"]) ** 2)
    view = [1, 1, 1]
    view[ax] = n
    comp = (ax + v["comp"]) % 3
    grid.E[..., comp] = torch.tensor(np.broadcast_to(pulse.reshape(view), shape).copy())
    steps = int(2.5 * (v["mid"] + 2 * v["t"]) * math.sqrt(v["eps"]) / grid.courant_number)
    grid.run(steps, progress_bar=False)
    inner = [slice(None)] * 3
    inner[ax] = slice(v["t"], n - v["t"])
    left = float(grid.E[tuple(inner)].abs().max())
    require(left < 0.02, "a field of {} is left between absorbing layers of thickness {} after {} steps", left, v["t"], steps)
    rec.interesting()


@SUITE.case("courant", st.tuples(grid_strategy, st.one_of(st.floats(0.05, 2.0), st.sampled_from([1.005, 1.001, 0.999]))).map(list), quick=200, shards=4,
            rule="default and explicit Courant numbers; unstable ones are refused")
def courant_case(w, rec):
    g, frac = w
    shape = norm_shape(g)
    dims = sum(1 for n in shape if n > 1)
    limit = 1 / math.sqrt(dims)
    grid = F.Grid(tuple(shape), grid_spacing=g["spacing"])
    require(0.9 * limit <= grid.courant_number <= limit, "default Courant number {} in {}D", grid.courant_number, dims)
    require(abs(grid.time_step * Y.C0 / g["spacing"] - grid.courant_number) < 1e-12, "time step {} does not match the Courant number", grid.time_step)
    if abs(frac - 1) < 1e-9:
        return
    try:
        grid = F.Grid(tuple(shape), grid_spacing=g["spacing"], courant_number=frac * limit)
    except ValueError:
        require(frac > 1, "Courant number {} of the limit refused", frac)
    else:
        require(frac < 1, "unstable Courant number {} of the limit accepted", frac)
        require(abs(grid.courant_number - frac * limit) < 1e-12, "Courant number {} became {}", frac * limit, grid.courant_number)
    lengths = tuple((n + off(n + shape[0] + 3 * shape[1])) * g["spacing"] for n in shape)
    require(tuple(F.Grid(lengths, grid_spacing=g["spacing"]).shape) == tuple(shape), "grid of size {} has shape {}", lengths, grid.shape)
    rec.interesting()
