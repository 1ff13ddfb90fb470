"""Closest material assignment."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import material_ref as mr

SUITE = Suite(
    "P17",
    "Random permittivity grids (material values, slightly perturbed ones, mixtures of two, far-away values, different at each frequency) on random grid sizes, layer and frequency counts and "
    "material subsets; also through the material grid plot. Non-trivial: at least two points with different closest materials.",
    ["Materials whose mean distances differ by less than 1e-9 may both be chosen."],
)

spec = st.fixed_dictionaries(dict(Nx=st.integers(1, 6), Ny=st.integers(1, 6), NL=st.integers(1, 5), n=st.integers(1, 6), range=wl_range, dist=st.sampled_from(["linear", "log"]),
                                  skip=st.lists(st.sampled_from(mr.NAMES), max_size=8, unique=True), kind=st.sampled_from(["exact", "near", "mixture", "far", "jump", "huge"]), seed=st.integers(0, 99999)))


def grid(v, table):
    rng = np.random.default_rng(v["seed"])
    shape = (v["Nx"], v["Ny"], v["NL"])
    m = rng.integers(0, len(table), shape)
    eps = table[m]
    if v["kind"] == "near":
        eps = eps + rng.normal(0, 0.2, shape + (v["n"],)) + 1j * rng.normal(0, 0.2, shape + (v["n"],))
    elif v["kind"] == "mixture":
        eps = 0.5 * eps + 0.5 * table[rng.integers(0, len(table), shape)] + rng.normal(0, 0.05, shape + (1,))
    elif v["kind"] == "far":
        eps = rng.normal(0, 20, shape + (v["n"],)) + 1j * rng.normal(0, 5, shape + (v["n"],))
    elif v["kind"] == "huge":
        eps = (rng.normal(0, 20, shape + (v["n"],)) + 1j * rng.normal(0, 5, shape + (v["n"],))) * 10 ** rng.uniform(0, 5)
    elif v["kind"] == "jump":  # another material at every frequency
        eps = np.take_along_axis(np.moveaxis(table, 1, 0)[None, None, None].repeat(1, 0) * np.ones(shape + (1, 1)), rng.integers(0, len(table), shape + (v["n"], 1)), axis=-1)[..., 0]
    return m, np.ascontiguousarray(eps)


def setup(v, skip):
    cfg = base_cfg(Nx=v["Nx"], Ny=v["Ny"], N_layers=v["NL"], PER_LAYER_THICKNESS=[0.2] * v["NL"])
    freq_cfg(cfg, v["range"][0], v["range"][1], v["n"], v["dist"])
    cfg.target_frequencies = ref_frequencies(v["range"][0], v["range"][1], v["n"], v["dist"])
    mc = nidn.MaterialCollection(cfg.target_frequencies, skip)
    return cfg, mc


@SUITE.case("assignment", spec, quick=800, shards=16, rule="index and distance at every grid point against the mean distance to every material")
def assignment_case(v, rec):
    find = private("nidn.materials.find_closest_material", "_find_closest_material")
    cfg, mc = setup(v, v["skip"])
    table = np.array([mc[n].numpy() for n in mc.material_names])
    for n in mc.material_names:
        require(mr.matches(mc[n].numpy(), n, cfg.target_frequencies), "{} does not hold its own permittivity", n)
    m, eps = grid(v, table)
    t = torch.tensor(eps)
    d, idx = find(t, cfg, mc)
    require(torch.equal(t, torch.tensor(eps)), "the permittivity grid was modified")
    shape = (v["Nx"], v["Ny"], v["NL"])
    require(tuple(d.shape) == shape and tuple(idx.shape) == shape, "shapes {} {} for a {} grid", tuple(d.shape), tuple(idx.shape), shape)
    d, idx = d.numpy(), idx.numpy()
    ref = np.abs(eps[..., None, :] - table).mean(-1)  # (Nx, Ny, NL, M)
    best = ref.min(-1)
    require(np.all(np.abs(d - best) <= 1e-9 * (1 + best)), "distances {} instead of {}", d.ravel()[:4], best.ravel()[:4])
    require(np.all((idx >= 0) & (idx < len(table))), "material index out of range")
    chosen = np.take_along_axis(ref, idx[..., None].astype(int), -1)[..., 0]
    require(np.all(chosen <= best + 1e-9 * (1 + best)), "a point got a material at distance {} although {} is possible", chosen.ravel()[:4], best.ravel()[:4])
    if v["kind"] == "exact":
        same = np.array([[np.allclose(a, b, rtol=0, atol=1e-9) for b in table] for a in table])
        require(np.all(d < 1e-9) and np.all(same[m, idx]), "a material's own permittivities were assigned to another material")
    rec.interesting(len(np.unique(idx)) > 1)
    rec.label(v["kind"])


big = st.tuples(spec, st.integers(1, 40), st.integers(1, 40), st.integers(1, 15), st.integers(1, 40)).map(lambda t: dict(t[0], Nx=t[1], Ny=t[2], NL=t[3], n=t[4]))


@SUITE.case("large", big, quick=48, shards=16, rule="as 'assignment' for up to 40x40 points, 15 layers and 40 frequencies")
def large_case(v, rec):
    assignment_case(v, rec)


@SUITE.case("history", st.lists(spec, min_size=2, max_size=4), quick=100, shards=8, rule="one configuration used with several collections and grids in a row")
def history_case(vs, rec):
    find = private("nidn.materials.find_closest_material", "_find_closest_material")
    keep = None
    for v in vs:
        cfg, mc = setup(v, v["skip"])
        if keep is None:
            keep = cfg
        keep.update(cfg)
        table = np.array([mc[n].numpy() for n in mc.material_names])
        _, eps = grid(v, table)
        d, idx = find(torch.tensor(eps), keep, mc)
        ref = np.abs(eps[..., None, :] - table).mean(-1)
        best = ref.min(-1)
        require(tuple(d.shape) == best.shape and np.all(np.abs(d.numpy() - best) <= 1e-9 * (1 + best)), "distances of a later grid are wrong")
        chosen = np.take_along_axis(ref, idx.numpy()[..., None].astype(int), -1)[..., 0]
        require(np.all(chosen <= best + 1e-9 * (1 + best)), "materials of a later grid are wrong")
    rec.interesting()
