"""Random FDTD spectrum configurations (kept away from rounding ties of the grid)."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403

fdtd_layer = st.fixed_dictionaries(dict(
    eps=st.lists(st.tuples(grid_float(1.0, 8.0, 0.25), st.sampled_from([0.0, 0.0, 0.1, 0.5, 2.0])).map(list), min_size=1, max_size=2),
    cells=st.integers(1, 9)))
fdtd = st.fixed_dictionaries(dict(
    layers=st.lists(fdtd_layer, min_size=1, max_size=3),
    shared=st.booleans(),
    lo=st.sampled_from([0.813, 1.017, 1.253, 1.607, 2.011]), span=st.sampled_from([0.211, 0.507, 1.013]), n=st.integers(1, 2),
    dist=st.sampled_from(["linear", "log"]),
    minpts=st.sampled_from([10, 12, 15]), pml=st.sampled_from([5, 8, 12]), free=st.sampled_from([4, 5, 8]),
    det=st.integers(1, 4), extra=st.integers(30, 120), pulse=st.sampled_from(["continuous", "continuous", "hanning", "ricker"]),
    source=st.sampled_from(["line", "point"]), src_cells=st.integers(0, 3), src_y=st.integers(0, 2)))


def scaling_of(v):
    return max(1e-6 / (v["lo"] * 1e-6 * 0.1), v["minpts"])


def build(v):
    """Lengths are (cells + 0.5) / scaling style values so that int() never sits on a tie."""
    s = scaling_of(v)
    L, n = len(v["layers"]), v["n"]
    cfg = base_cfg(solver="FDTD", Nx=1, Ny=1, N_layers=L, FDTD_min_gridpoints_per_unit_magnitude=v["minpts"])
    freq_cfg(cfg, v["lo"], round(v["lo"] + v["span"], 6), n, v["dist"])
    cfg.FDTD_pml_thickness = float((v["pml"] + 0.3) / s)
    cfg.FDTD_free_space_distance = float((v["free"] + 0.1) / s)
    cells = [v["layers"][0]["cells"]] if v["shared"] else [l["cells"] for l in v["layers"]]
    # keep every partial sum away from integers: fractional parts stay within 0.4 .. 0.7
    cfg.PER_LAYER_THICKNESS = [float((c + 0.05) / s) for c in cells]
    cfg.FDTD_gridpoints_from_material_to_detector = min(v["det"], v["free"])
    cfg.FDTD_source_position = [float((v["pml"] + v["src_cells"] + 0.5) / s), float((v["src_y"] + 0.5) / s)]
    # long enough for the signal to reach the transmission detector
    cfg.FDTD_niter = int(1.5 * (v["free"] + sum(cells) * (L if v["shared"] else 1) + v["det"])) + v["extra"]
    cfg.FDTD_pulse_type = v["pulse"]
    cfg.FDTD_source_type = v["source"]
    eps = np.zeros((1, 1, L, n), complex)
    for i, l in enumerate(v["layers"]):
        for k in range(n):
            eps[0, 0, i, k] = cplx(l["eps"][k % len(l["eps"])])
    full = cells * L if v["shared"] else cells
    return cfg, eps, full


def geometry(v):
    """Cell positions the configuration asks for."""
    cfg, eps, cells = build(v)
    s = scaling_of(v)
    x0 = cfg.FDTD_pml_thickness + cfg.FDTD_free_space_distance
    th = [float((c + 0.05) / s) for c in cells]
    edges = [x0]
    for t in th:
        edges.append(edges[-1] + t)
    d = cfg.FDTD_gridpoints_from_material_to_detector
    return dict(
        Nx=int(s * (2 * cfg.FDTD_pml_thickness + 2 * cfg.FDTD_free_space_distance + sum(th))),
        pml=int(cfg.FDTD_pml_thickness * s), spacing=1e-6 / s,
        edges=[int(s * e) for e in edges], t_det=int(edges[-1] * s + d), r_det=int(x0 * s - d),
        src=(int(cfg.FDTD_source_position[0] * s), int(cfg.FDTD_source_position[1] * s)), scaling=s)
