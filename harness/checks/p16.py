"""Layer builder."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import material_ref as mr

SUITE = Suite(
    "P16",
    "Random grids (1 to 24 points per side, non-square), frequency lists, ordered material pairs, square margins and circle radii and centres, one builder used for several layers. "
    "Non-trivial: both materials present in the layer.",
    ["Points within 1e-9 of the border of the hole may take either material, unless grid and border are multiples of 1/64, where strictness is decided exactly."],
)

eighth = st.sampled_from([0.125, 0.25, 0.375, 0.5, 0.75, 1.0])
size = st.one_of(st.integers(1, 24), st.integers(1, 24), st.sampled_from([3, 5, 9, 17, 33, 65, 99]))
geo = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("uniform"))),
    st.fixed_dictionaries(dict(kind=st.just("square"), a=st.one_of(st.none(), st.floats(-0.1, 0.6), st.sampled_from([0.0, 0.1, 0.2, 0.25, 0.4, 0.125, 0.375])))),
    st.fixed_dictionaries(dict(kind=st.just("circle"), r=st.one_of(st.none(), st.floats(0, 0.9), eighth), x=st.one_of(st.none(), st.floats(-0.2, 1.2), eighth), y=st.one_of(st.none(), st.floats(-0.2, 1.2), eighth))))
layer = st.tuples(geo, st.sampled_from(mr.NAMES), st.sampled_from(mr.NAMES)).map(list)
spec = st.fixed_dictionaries(dict(Nx=size, Ny=size, range=wl_range, n=st.one_of(*[st.integers(1, 6)] * 4, st.integers(7, 25)), dist=st.sampled_from(["linear", "log"]), layers=st.lists(layer, min_size=1, max_size=4),
                                  kw=st.booleans()))


def exact(Nx, Ny, *numbers):
    """Whether coordinates and border are multiples of 1/64, so that no rounding is involved and the border is decided."""
    return all((64 / max(1, n - 1)).is_integer() for n in (Nx, Ny)) and all(float(64 * x).is_integer() for x in numbers)


def inside(g, Nx, Ny):
    """(mask, undecided) over the grid."""
    x = np.array([i / (Nx - 1) if Nx > 1 else 0.0 for i in range(Nx)])[:, None] * np.ones((1, Ny))
    y = np.array([i / (Ny - 1) if Ny > 1 else 0.0 for i in range(Ny)])[None, :] * np.ones((Nx, 1))
    if g["kind"] == "uniform":
        return np.zeros((Nx, Ny), bool), np.zeros((Nx, Ny), bool)
    if g["kind"] == "square":
        a = 0.33 if g["a"] is None else g["a"]
        m = np.minimum(np.minimum(x - a, 1 - a - x), np.minimum(y - a, 1 - a - y))
        return m > 0, (np.abs(m) < 1e-9) & ~exact(Nx, Ny, a)
    r = 0.33 if g["r"] is None else g["r"]
    cx = 0.5 if g["x"] is None else g["x"]
    cy = 0.5 if g["y"] is None else g["y"]
    m = r ** 2 - ((x - cx) ** 2 + (y - cy) ** 2)
    return m > 0, (np.abs(m) < 1e-9) & ~exact(Nx, Ny, r, cx, cy)


@SUITE.case("layers", spec, quick=800, shards=16, rule="every grid point and frequency of every built layer")
def layers_case(v, rec):
    cfg = base_cfg(Nx=v["Nx"], Ny=v["Ny"])
    lo, hi = v["range"]
    freq_cfg(cfg, lo, hi, v["n"], v["dist"])
    f = ref_frequencies(lo, hi, v["n"], v["dist"])
    b = nidn.LayerBuilder(cfg)
    built = []
    for g, m0, m1 in v["layers"]:
        if g["kind"] == "uniform":
            eps = b.build_uniform_layer(m0)
        elif g["kind"] == "square":
            kw = {} if g["a"] is None else {"a": g["a"]}
            eps = b.build_squared_layer(m0, m1, **kw) if v["kw"] or not kw else b.build_squared_layer(m0, m1, g["a"])
        else:
            kw = {k: val for k, val in dict(radius=g["r"], x_center=g["x"], y_center=g["y"]).items() if val is not None}
            eps = b.build_circle_layer(m0, m1, **kw)
        built.append((g, m0, m1, eps))
    for g, m0, m1, eps in built:  # judged after all were built: layers do not share storage
        require(tuple(eps.shape) == (v["Nx"], v["Ny"], v["n"]), "layer of shape {} for grid {}x{} and {} frequencies", tuple(eps.shape), v["Nx"], v["Ny"], v["n"])
        require(eps.is_complex(), "layer is {}", eps.dtype)
        e = eps.detach().numpy()
        mask, open_ = inside(g, v["Nx"], v["Ny"])
        for i in range(v["Nx"]):
            for j in range(v["Ny"]):
                mats = [m0, m1] if open_[i, j] else [m1 if mask[i, j] else m0]
                if not any(_is(e[i, j], m, f) for m in mats):
                    raise Violation(f"{g} of {m1} in {m0}: point ({i}, {j}) of {v['Nx']}x{v['Ny']} is {e[i, j]}, expected {mats}")
        rec.interesting(m0 != m1 and mask.any() and not mask.all())
        rec.label(g["kind"], "non-square" if v["Nx"] != v["Ny"] else "square grid")
    if len(built) > 1:
        built[0][3][...] = 99.0
        for g, m0, m1, eps in built[1:]:
            require(not bool((eps == 99.0).any()), "layers share storage")
        again = b.build_uniform_layer(built[0][1]).numpy()
        require(_is(again[0, 0], built[0][1], f), "changing a built layer changed the builder's materials")


_cache = {}


def _is(row, name, f):
    key = (name, tuple(f))
    if key not in _cache:
        _cache.clear() if len(_cache) > 500 else None
        _cache[key] = mr.eps_table(name, f)
    return all(any(abs(g - c) <= 1e-9 * max(1.0, abs(c)) for c in cand) for g, cand in zip(row, _cache[key]))


@SUITE.case("stacked", st.fixed_dictionaries(dict(Nx=st.integers(2, 9), Ny=st.integers(2, 9), n=st.integers(1, 3), range=wl_range, a=st.sampled_from([0.1, 0.2, 0.33]), pair=st.tuples(st.sampled_from(mr.NAMES), st.sampled_from(mr.NAMES)).map(list))),
            quick=64, shards=8, rule="unknown materials are refused, and a built layer can be simulated as it is")
def stacked_case(v, rec):
    cfg = base_cfg(Nx=v["Nx"], Ny=v["Ny"], solver="TRCWA", N_layers=1, PER_LAYER_THICKNESS=[0.2], TRCWA_NG=3)
    freq_cfg(cfg, v["range"][0], v["range"][1], v["n"])
    b = nidn.LayerBuilder(cfg)
    for call in (lambda: b.build_uniform_layer("gold"), lambda: b.build_squared_layer(v["pair"][0], "gold"), lambda: b.build_squared_layer("gold", v["pair"][0]),
                 lambda: b.build_circle_layer(v["pair"][0], "gold"), lambda: b.build_circle_layer("gold", v["pair"][0])):
        try:
            call()
        except KeyError:
            continue
        raise Violation("an unknown material was accepted")
    eps = b.build_uniform_layer(v["pair"][0]).unsqueeze(2)
    R, T = spectrum(eps, cfg)
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)) and len(R) == v["n"], "spectrum of a built layer: {} {}", R, T)
    rec.interesting()
