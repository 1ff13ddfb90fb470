"""Random FDTD grids: one JSON-able description builds both the NIDN grid and the reference model."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from oracles import yee_ref as Y

import nidn.fdtd as F

N = st.integers(0, 9999)
FRACS = [0.2371, 0.05, 0.44, -0.31, -0.45, -0.04, 0.33, 0.48, -0.48]  # keep floating-point lengths and times away from rounding ties


def off(k):
    return FRACS[k % len(FRACS)]


axis_key = st.fixed_dictionaries(dict(kind=st.sampled_from(["all", "int", "slice", "open_lo", "open_hi", "float", "neg", "negint"]), a=st.integers(0, 30), b=st.integers(0, 30)))
grid_strategy = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(1, 8), st.integers(1, 6), st.integers(1, 5)).map(list),
    long_axis=st.integers(0, 2), spacing=st.sampled_from([1e-7, 2.5e-8, 1e-6]),
    eps=st.sampled_from([1.0, 1.0, 2.25, 4.0]), mu=st.sampled_from([1.0, 1.0, 1.5]), courant=st.sampled_from([None, None, 1.0, 0.8, 0.4])))
object_strategy = st.fixed_dictionaries(dict(
    keys=st.tuples(axis_key, axis_key, axis_key).map(list), shape=st.sampled_from(["scalar", "scalar", "xyz", "xyzc"]), seed=N,
    sigma=st.sampled_from([None, "scalar", "xyz"])))
# any spacing, background and Courant number, more and stronger objects, thicker slabs
log_floats = lambda lo, hi: st.floats(math.log(lo), math.log(hi)).map(lambda x: float(f"{math.exp(x):.6g}"))
wide_grid = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(1, 25), st.integers(1, 8), st.integers(1, 5)).flatmap(lambda t: st.permutations(t)).map(list),
    long_axis=st.integers(0, 2), spacing=log_floats(1e-9, 1e-3), eps=log_floats(0.5, 30), mu=log_floats(0.5, 30), courant=st.one_of(st.none(), st.just(1.0), log_floats(0.01, 1.0))))
boundary_strategy = st.fixed_dictionaries(dict(axis=st.integers(0, 2), kind=st.sampled_from(["low", "high", "both", "periodic", "none"]), t=st.integers(1, 6),
                                               a=st.sampled_from([None, None, 1e-6, 1e-3, 0.05, 0.5]), name=st.sampled_from([None, None, "edge"])))
wide_object = st.tuples(object_strategy, log_floats(1.0, 300), st.sampled_from([0.0, 1e-3, 1.0, 30.0])).map(lambda t: dict(t[0], scale=t[1], loss=t[2]))
wide_boundary = st.tuples(boundary_strategy, st.integers(1, 25)).map(lambda t: dict(t[0], t=t[1]))


def norm_shape(g):
    shape = list(g["shape"])
    if max(shape) == 1:
        shape[g["long_axis"]] = 4
    return shape


def make_grid(g):
    shape = norm_shape(g)
    dims = sum(1 for n in shape if n > 1)
    c = None if g["courant"] is None else g["courant"] / math.sqrt(dims) * (1 - 1e-12)
    grid = F.Grid(tuple(shape), grid_spacing=g["spacing"], permittivity=g["eps"], permeability=g["mu"], courant_number=c)
    ref = Y.YeeRef(shape, g["spacing"], g["eps"], g["mu"], c)
    return grid, ref


def resolve(key, n, spacing):
    """An index expression for NIDN and the (start, stop) it means."""
    a, b = key["a"] % n, key["b"] % n
    a, b = min(a, b), max(a, b) + 1
    kind = key["kind"]
    if kind == "int":
        return a, (a, a + 1)
    if kind == "negint":
        return a - n, (a, a + 1)
    if kind == "neg":
        return slice(a - n, b - n if b < n else None), (a, b)
    if kind == "slice":
        return slice(a, b), (a, b)
    if kind == "open_lo":
        return slice(None, b), (0, b)
    if kind == "open_hi":
        return slice(a, None), (a, n)
    if kind == "float":
        f, h = off(key["a"] + key["b"]), off(key["a"] * 2 + key["b"])
        return slice((a + (abs(f) if a == 0 else f)) * spacing, (b + h) * spacing), (a, b)
    return slice(None), (0, n)


def resolve3(keys, ref):
    ks, region = [], []
    for k, n in zip(keys, ref.shape):
        e, r = resolve(k, n, ref.spacing)
        ks.append(e)
        region.append(r)
    return tuple(ks), region


def put(grid, ks, thing, k):
    """Index expressions may leave out trailing full axes."""
    ks = tuple(ks)
    if k % 2 and ks[2] == slice(None):
        ks = ks[:2]
        if ks[1] == slice(None):
            ks = ks[:1]
            if k % 4 == 1:
                ks = ks[0]
    grid[ks] = thing


def add_object(o, grid, ref):
    keys, region = resolve3(o["keys"], ref)
    size = tuple(b - a for a, b in region)
    rng = np.random.default_rng(o["seed"])
    shp = {"scalar": (), "xyz": size, "xyzc": size + (3,)}[o["shape"]]
    eps = 1.0 + np.round(rng.random(shp) * 8, 3)
    eps = eps * o.get("scale", 1.0)
    arg = float(eps) if shp == () else torch.tensor(eps)
    if o["sigma"] is None:
        put(grid, keys, F.Object(arg), o["seed"])
        ref.add_object(region, eps)
    else:
        # conductivity chosen so that the loss per step is of order one
        sig = np.round(rng.random(size if o["sigma"] == "xyz" else ()) * 4, 3) * o.get("loss", 1.0) / (ref.courant * ref.spacing * Y.ETA)
        put(grid, keys, F.AbsorbingObject(arg, float(sig) if sig.shape == () else torch.tensor(sig)), o["seed"])
        ref.add_object(region, eps, sig)
    return region


def add_boundaries(bs, grid, ref):
    used = set()
    labels = []
    for b in bs:
        ax, n = b["axis"], ref.shape[b["axis"]]
        if ax in used or b["kind"] == "none":
            continue
        used.add(ax)
        key = [slice(None)] * 3
        t = min(b["t"], n)
        labels.append(b["kind"])
        a = b.get("a")
        name = lambda side: {} if b.get("name") is None else dict(name=f"{b['name']}_{ax}{side}")  # noqa: E731
        pml = lambda side: F.PML(**name(side)) if a is None else F.PML(a=a, **name(side))  # noqa: E731
        ra = 1e-8 if a is None else a
        if b["kind"] == "periodic":
            key[ax] = 0 if b["t"] % 2 else -1
            grid[tuple(key)] = F.PeriodicBoundary(**name(""))
            ref.add_periodic(ax)
            continue
        if b["kind"] in ("low", "both"):
            key[ax] = slice(0, t)
            grid[tuple(key)] = pml("l")
            ref.add_pml(ax, False, t, ra)
        if b["kind"] in ("high", "both"):
            key[ax] = slice(-t, None)
            grid[tuple(key)] = pml("h")
            ref.add_pml(ax, True, t, ra)
    return labels


def set_fields(seed, grid, ref):
    rng = np.random.default_rng(seed)
    E, H = rng.standard_normal(ref.E.shape), rng.standard_normal(ref.H.shape)
    grid.E[...] = torch.tensor(E)
    grid.H[...] = torch.tensor(H)
    ref.E[...] = E
    ref.H[...] = H


def close(got, want, what, tol=1e-6, floor=1e-3):
    got = got.detach().cpu().numpy() if torch.is_tensor(got) else np.asarray(got)
    require(got.shape == want.shape, "{}: shape {} instead of {}", what, got.shape, want.shape)
    scale = max(floor, float(np.abs(want).max()) if want.size else 0.0)
    err = np.abs(got - want)
    if not np.all(err <= tol * scale):
        i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(err), np.inf, err))), err.shape) if err.ndim else ()
        raise Violation(f"{what}: at {tuple(int(k) for k in i)} {got[i]} instead of {want[i]}")


def same_fields(grid, ref, what, tol=1e-6, floor=1e-3):
    """Relative to the largest field of the whole history so far."""
    floor = max(floor, getattr(ref, "peak", 0.0), float(np.abs(ref.E).max()), float(np.abs(ref.H).max()))
    ref.peak = floor
    close(grid.E, ref.E, what + ", E", tol, floor)
    close(grid.H, ref.H, what + ", H", tol, floor)
