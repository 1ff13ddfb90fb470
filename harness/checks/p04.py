"""Metamorphic relations of RCWA spectra."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import p01, p02

SUITE = Suite(
    "P04",
    "Random structures and a random symmetry operation each; non-trivial: the operation changes the permittivity grid or configuration handed in.",
    ["Relations under exact symmetries are compared at 1e-6; those that move the solver's damped unit-length exterior layer allow for that damping."],
)


UNIFORM = st.one_of(p01.stack, p01.stack, p01.extremes(), p01.many)
PATTERNED = st.one_of(p02.rcwa, p02.rcwa, p02.mixed(), p02.several)


def grazing(v, eps_out):
    """Is a diffraction order within 0.1 % of grazing in an exterior medium? There even the solver's tiny damping absorbs over the exterior length."""
    if "NG" not in v or "layers" not in v or "exx" not in v:
        return False
    f = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], v.get("dist", "linear"))
    for m in range(-8, 9):
        for n in range(-8, 9):
            g2 = (m / v["Lx"]) ** 2 + (n / v["Ly"]) ** 2
            for e in eps_out:
                if np.any(np.abs(f**2 * e - g2) < 2e-3 * f**2 * e):
                    return True
    return False


def close(a, b, tol, what):
    require(np.abs(a[0] - b[0]).max() <= tol and np.abs(a[1] - b[1]).max() <= tol,
            "{}: R {} vs {}, T {} vs {}", what, a[0], b[0], a[1], b[1])


@SUITE.case("lateral", st.tuples(PATTERNED, st.sampled_from(["shift", "mirror x", "mirror y", "half turn"]), st.integers(0, 9), st.integers(0, 9)).map(list),
            quick=400, shards=16)
def lateral_case(w, rec):
    v, op, sx, sy = w
    cfg, eps, th = p02.build(v)
    a = spectrum(torch.tensor(eps), cfg)
    if op == "shift":
        e2 = np.roll(eps, (sx, sy), (0, 1))
    elif op == "mirror x":
        e2 = eps[::-1]
    elif op == "mirror y":
        e2 = eps[:, ::-1]
    else:
        e2 = eps[::-1, ::-1]
    e2 = e2.copy()
    cfg2, _, _ = p02.build(v)
    b = spectrum(torch.tensor(e2), cfg2)
    close(a, b, 1e-6, op)
    rec.interesting(not np.array_equal(eps, e2))
    rec.label(op)


def split_build(v, module, i, frac):
    cfg, eps, th = module.build(v)
    i = i % eps.shape[2]
    th2 = list(th)
    th2[i:i + 1] = [th[i] * frac, th[i] * (1 - frac)]
    e2 = np.concatenate([eps[:, :, :i + 1], eps[:, :, i:]], 2)
    cfg2, _, _ = module.build(v)
    cfg2.N_layers = e2.shape[2]
    cfg2.PER_LAYER_THICKNESS = th2
    return cfg, eps, cfg2, e2


@SUITE.case("split patterned", st.tuples(PATTERNED, st.integers(0, 2), st.sampled_from([0.1, 0.25, 0.5, 0.8])).map(list), quick=240, shards=16)
def split_case(w, rec):
    v, i, frac = w
    cfg, eps, cfg2, e2 = split_build(v, p02, i, frac)
    close(spectrum(torch.tensor(eps), cfg), spectrum(torch.tensor(e2), cfg2), 1e-6, "splitting a layer")
    rec.interesting()


@SUITE.case("split uniform", st.tuples(UNIFORM, st.integers(0, 5), st.sampled_from([0.1, 0.25, 0.5, 0.8])).map(list), quick=300, shards=8)
def split_uniform_case(w, rec):
    v, i, frac = w
    cfg, eps, cfg2, e2 = split_build(v, p01, i, frac)
    close(spectrum(torch.tensor(eps), cfg), spectrum(torch.tensor(e2), cfg2), 1e-6, "splitting a layer")
    rec.interesting()


@SUITE.case("exit medium", st.tuples(st.booleans(), UNIFORM, PATTERNED, grid_float(0.05, 2.0, 0.05)).map(list), quick=300, shards=8,
            rule="an extra layer of the exit medium before the exit changes nothing (up to damping over its thickness)")
def exit_case(w, rec):
    uniform, v1, v2, d = w
    v, m = (v1, p01) if uniform else (v2, p02)
    if grazing(v, (v["top"], v["bot"])):
        rec.label("grazing, skipped")
        return
    cfg, eps, th = m.build(v)
    a = spectrum(torch.tensor(eps), cfg)
    e2 = np.concatenate([eps, np.full(eps.shape[:2] + (1, eps.shape[3]), v["bot"])], 2)
    cfg2, _, _ = m.build(v)
    cfg2.N_layers += 1
    cfg2.PER_LAYER_THICKNESS = list(th) + [d]
    b = spectrum(torch.tensor(e2), cfg2)
    close(a, b, 2e-6 + 1e-4 * d * np.sqrt(v["bot"]) * 2 / v["wl"][0], "inserting exit medium")
    rec.interesting()
    rec.label("uniform" if uniform else "patterned")


@SUITE.case("scaling", st.tuples(st.booleans(), UNIFORM, PATTERNED, st.sampled_from([0.25, 0.5, 0.8, 1.25, 2.0, 3.0])).map(list), quick=300, shards=8,
            rule="all lengths and wavelengths times s")
def scaling_case(w, rec):
    uniform, v1, v2, s = w
    v, m = (v1, p01) if uniform else (v2, p02)
    if grazing(v, (v["top"], v["bot"])):
        rec.label("grazing, skipped")
        return
    cfg, eps, th = m.build(v)
    a = spectrum(torch.tensor(eps), cfg)
    cfg2, _, _ = m.build(v)
    freq_cfg(cfg2, v["wl"][0] * s, v["wl"][1] * s, v["n"], cfg.freq_distribution)
    cfg2.PER_LAYER_THICKNESS = [t * s for t in cfg.PER_LAYER_THICKNESS]
    cfg2.TRCWA_L_grid = [[v["Lx"] * s, 0.0], [0.0, v["Ly"] * s]]
    b = spectrum(torch.tensor(eps), cfg2)
    damp = 2 * np.pi * 1e-5 / v["wl"][0] * np.sqrt(v["top"]) * abs(1 - 1 / s)
    close(a, b, 1e-6 + 2 * damp, f"scaling by {s}")
    rec.interesting()
    rec.label("uniform" if uniform else "patterned")


@SUITE.case("reversal", UNIFORM, quick=400, shards=8, rule="reversed stack with exchanged exterior media has the same T")
def reversal_case(v, rec):
    cfg, eps, th = p01.build(v)
    a = spectrum(torch.tensor(eps), cfg)
    cfg2, _, _ = p01.build(v)
    cfg2.TRCWA_TOP_LAYER_EPS, cfg2.TRCWA_BOTTOM_LAYER_EPS = v["bot"], v["top"]
    cfg2.PER_LAYER_THICKNESS = list(th)[::-1]
    b = spectrum(torch.tensor(eps[:, :, ::-1].copy()), cfg2)
    damp = 2 * np.pi * 1e-5 / v["wl"][0] * abs(np.sqrt(v["top"]) - np.sqrt(v["bot"]))
    require(np.abs(a[1] - b[1]).max() <= 1e-6 + 2 * damp, "T {} but reversed {}", a[1], b[1])
    rec.interesting(not np.array_equal(eps, eps[:, :, ::-1]) or v["top"] != v["bot"])
