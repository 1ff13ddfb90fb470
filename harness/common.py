"""Helpers shared by the checks: configurations, patterns, strategies."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

import nidn
from core import Unavailable, Violation, require  # noqa: F401


def private(path, name):
    """An internal function, or Unavailable when the tree no longer has it."""
    import importlib

    try:
        return getattr(importlib.import_module(path), name)
    except (ImportError, AttributeError):
        raise Unavailable(f"{path}.{name}")


def base_cfg(**kw):
    cfg = nidn.load_default_cfg()
    for k, v in kw.items():
        cfg[k] = v
    return cfg


def freq_cfg(cfg, lo, hi, n, dist="linear"):
    """Sets range (micrometres), count and target frequencies."""
    cfg.physical_wavelength_range = [lo * 1e-6, hi * 1e-6]
    cfg.N_freq = n
    cfg.freq_distribution = dist
    cfg.target_reflectance_spectrum = [0.5] * n
    cfg.target_transmittance_spectrum = [0.5] * n
    cfg.target_frequencies = nidn.compute_target_frequencies(
        cfg.physical_wavelength_range[0], cfg.physical_wavelength_range[1], n, dist
    )
    return cfg


def ref_frequencies(lo, hi, n, dist):
    """Independent statement of the frequency grid (lo, hi in micrometres)."""
    f0, f1 = 1.0 / hi, 1.0 / lo
    if n == 1:
        return np.array([f0])
    s = np.arange(n) / (n - 1)
    if dist == "linear":
        return f0 + (f1 - f0) * s
    return f0 * (f1 / f0) ** s


def to_np(x):
    """List/tensor/array of spectra to a float array."""
    if torch.is_tensor(x):
        return x.detach().cpu().numpy()
    return np.array([float(torch.real(v.detach())) if torch.is_tensor(v) else float(np.real(v)) for v in x])


def spectrum(eps, cfg, **kw):
    R, T = nidn.compute_spectrum(eps, cfg, **kw)
    return to_np(R), to_np(T)


# ---- strategies (all JSON-able) ----
def grid_float(lo, hi, step):
    """Floats on a grid, shrinking towards lo."""
    n = int(round((hi - lo) / step))
    return st.integers(0, n).map(lambda k: round(lo + k * step, 6))


def eps_strategy(metals=True):
    diel = st.tuples(grid_float(1.0, 14.0, 0.25), st.just(0.0))
    lossy = st.tuples(grid_float(1.0, 12.0, 0.25), grid_float(0.0, 6.0, 0.125))
    opts = [diel, lossy]
    if metals:
        opts.append(st.tuples(grid_float(-60.0, -0.5, 0.5), grid_float(0.0, 12.0, 0.25)))
    return st.one_of(*opts).map(list)


wl_range = st.tuples(grid_float(0.4, 6.0, 0.05), grid_float(0.05, 8.0, 0.05)).map(
    lambda t: [t[0], round(t[0] + t[1], 6)]
)


def cplx(e):
    return complex(e[0], e[1])


def make_pattern(p, Nx, Ny):
    """p: dict(kind, seed, lo, hi) -> complex (Nx, Ny) array; lo, hi are [re, im]."""
    rng = np.random.default_rng(p["seed"])
    lo, hi = cplx(p["lo"]), cplx(p["hi"])
    kind = p["kind"]
    if kind == "random":
        w = rng.integers(0, 9, (Nx, Ny)) / 8.0
    elif kind == "binary":
        w = rng.integers(0, 2, (Nx, Ny)).astype(float)
    elif kind == "pixel":
        w = np.zeros((Nx, Ny))
        w[rng.integers(Nx), rng.integers(Ny)] = 1.0
    elif kind == "stripes_x":
        w = np.repeat(rng.integers(0, 2, (Nx, 1)), Ny, 1).astype(float)
        w[rng.integers(Nx)] = 1 - w[0]
    elif kind == "stripes_y":
        w = np.repeat(rng.integers(0, 2, (1, Ny)), Nx, 0).astype(float)
        w[:, rng.integers(Ny)] = 1 - w[0, 0]
    elif kind == "block":
        a, b = sorted(rng.integers(0, Nx + 1, 2))
        c, d = sorted(rng.integers(0, Ny + 1, 2))
        w = np.zeros((Nx, Ny))
        w[a:b, c:d] = 1.0
    else:
        w = np.zeros((Nx, Ny))
    return lo + (hi - lo) * w


def pattern_strategy(metals=False):
    mild = st.tuples(grid_float(1.0, 9.0, 0.5), st.sampled_from([0.0, 0.0, 0.25, 1.0, 3.0])).map(list)
    if metals:
        mild = st.one_of(mild, mild, st.tuples(grid_float(-12.0, -2.0, 0.5), grid_float(0.5, 4.0, 0.5)).map(list))
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["random", "binary", "pixel", "stripes_x", "stripes_y", "block"]),
        seed=st.integers(0, 9999), lo=mild, hi=mild))


@contextlib.contextmanager
def scratch():
    """A scratch directory as the working directory (with a parent that is scratch too)."""
    old = os.getcwd()
    top = tempfile.mkdtemp(prefix="nidn_verif_")
    work = os.path.join(top, "work")
    os.mkdir(work)
    os.chdir(work)
    try:
        yield top
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
