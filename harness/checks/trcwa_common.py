"""Builds the same random plane-wave problem for NIDN's TRCWA class and the reference."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from oracles import rcwa_ref
from checks.p02 import min_grid

small_eps = st.one_of(
    st.tuples(grid_float(1.0, 6.0, 0.25), st.sampled_from([0.0, 0.0, 0.5, 2.0])),
    st.tuples(grid_float(-8.0, -2.0, 0.5), grid_float(0.25, 2.0, 0.25)),
).map(list)
layer = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["uniform", "grid", "grid", "aniso"]), eps=small_eps,
    p=pattern_strategy(), p2=pattern_strategy(), p3=pattern_strategy(), t=grid_float(0.02, 0.7, 0.02)))
problem = st.fixed_dictionaries(dict(
    layers=st.lists(layer, min_size=0, max_size=3),
    top=st.sampled_from([1.0, 1.0, 2.25, 4.0]), bot=st.sampled_from([1.0, 2.25, 6.0]),
    f=grid_float(0.2, 1.4, 0.05), theta=st.one_of(st.just(0.0), grid_float(0.05, 1.3, 0.05)),
    phi=st.one_of(st.just(0.0), grid_float(0.1, 6.2, 0.1)),
    p_amp=st.sampled_from([0.0, 1.0, 0.6]), s_amp=st.sampled_from([1.0, 0.0, 0.8]),
    p_phase=grid_float(0.0, 6.0, 0.5), s_phase=grid_float(0.0, 6.0, 0.5),
    direction=st.sampled_from(["forward", "forward", "backward"]),
    Gmethod=st.sampled_from([0, 1]), Pscale=st.sampled_from([1.0, 1.0, 0.8, 1.5]),
    Lx=grid_float(0.3, 1.5, 0.1), Ly=grid_float(0.3, 1.5, 0.1), NG=st.integers(4, 14),
    exx=st.integers(0, 3), exy=st.integers(0, 3), order=st.integers(0, 3), q=st.sampled_from([1e5, 1e4, 1e3]),
))


def layers_of(v, kinds=None):
    """Normalised layer list: anisotropic and isotropic grid layers are not mixed (one call sets all grids)."""
    lays = [dict(l) for l in v["layers"]]
    has_aniso = any(l["kind"] == "aniso" for l in lays)
    for l in lays:
        if l["kind"] == "grid" and has_aniso:
            l["kind"] = "aniso"
    return lays


def amps(v):
    """Complex amplitudes (the extra factors default to one)."""
    return v["p_amp"] * np.exp(1j * v["p_c"]) if v.get("p_c") else v["p_amp"], v["s_amp"] * np.exp(1j * v["s_c"]) if v.get("s_c") else v["s_amp"]


def put_patterns(sim, lays, comps, form):
    if comps[0]:
        aniso = any(l["kind"] == "aniso" for l in lays)
        if aniso:
            sim.GridLayer_geteps([torch.tensor(np.concatenate([e.ravel() for e in c])) for c in comps])
        elif form == "stack" and all(l["kind"] == "grid" for l in lays) and len({e.shape for e in comps[0]}) == 1:
            sim.GridLayer_geteps(torch.tensor(np.stack(comps[0], -1)))
        else:
            sim.GridLayer_geteps(torch.tensor(np.concatenate([e.ravel() for e in comps[0]])))


def patterns(v, lays, Nx, Ny):
    """Per layer what the reference takes, and the grids handed to the engine per component."""
    ref, comps = [], [[], [], []]
    for l in lays:
        if l["kind"] == "uniform":
            ref.append((l["t"], cplx(l["eps"])))
            continue
        nx, ny = Nx + l.get("gx", 0), Ny + l.get("gy", 0)
        es = [make_pattern(l[k], nx, ny) for k in ("p", "p2", "p3")]
        if l["kind"] == "grid":
            es = [es[0]] * 3
            ref.append((l["t"], es[0]))
        else:
            ref.append((l["t"], tuple(es)))
        for c in range(3):
            comps[c].append(es[c])
    return ref, comps


def build(v, form="flat"):
    from nidn.trcwa.trcwa import TRCWA

    kx, ky = v.get("skew", (0.0, 0.0))
    L1, L2 = [v["Lx"], v["Lx"] * kx], [v["Ly"] * ky, v["Ly"]]
    mx, my = min_grid(v["NG"], L1, L2, v["Gmethod"])
    Nx, Ny = mx + v["exx"], my + v["exy"]
    f = v["f"] * (1 + 1j / (2 * v["q"]))
    sim = TRCWA(v["NG"], L1, L2, f, v["theta"], v["phi"], verbose=0)
    lays = layers_of(v)
    sim.Add_LayerUniform(1.0, torch.tensor(v["top"]))
    inner, comps = patterns(v, lays, Nx, Ny)
    for l in lays:
        if l["kind"] == "uniform":
            sim.Add_LayerUniform(l["t"], torch.tensor(cplx(l["eps"])))
        else:
            sim.Add_LayerGrid(l["t"], Nx + l.get("gx", 0), Ny + l.get("gy", 0))
    sim.Add_LayerUniform(1.0, torch.tensor(v["bot"]))
    ref = [(1.0, v["top"])] + inner + [(1.0, v["bot"])]
    sim.Init_Setup(Pscale=v["Pscale"], Gmethod=v["Gmethod"])
    G = [tuple(int(x) for x in g) for g in sim.G.tolist()]
    order = v["order"] % len(G)
    pa, sa = amps(v)
    sim.MakeExcitationPlanewave(pa, v["p_phase"], sa, v["s_phase"], order=order, direction=v["direction"])
    put_patterns(sim, lays, comps, form)

    def solve_ref(q=v["q"]):
        return rcwa_ref.solve(ref, L1, L2, v["NG"], v["f"] * (1 + 1j / (2 * q)), v["theta"], v["phi"],
                              (pa, v["p_phase"], sa, v["s_phase"]), G[order],
                              v["direction"], v["Gmethod"], v["Pscale"])

    return sim, ref, G, order, solve_ref, (Nx, Ny)


def permutation(G, Gref):
    Gref = [tuple(int(x) for x in g) for g in Gref]
    require(sorted(G) == sorted(Gref), "selected orders {} instead of {}", sorted(G), sorted(Gref))
    pos = {g: i for i, g in enumerate(Gref)}
    return [pos[g] for g in G]
