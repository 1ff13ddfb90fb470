"""Models and independent coordinates for the model-to-permittivity checks."""
import numpy as np
import torch
from torch import nn

from common import *  # noqa: F403

SCALE = np.array([1.0, 1.0, 1e-3, 1 / 32.0])  # brings all four coordinates to order one


class Wave(nn.Module):
    """A smooth function of the four coordinates with outputs around the unit interval."""

    def __init__(self, seed, out, gain=1.0):
        super().__init__()
        g = np.random.default_rng(seed)
        self.w = nn.Parameter(torch.tensor(g.uniform(-3, 3, (4, out))))
        self.b = nn.Parameter(torch.tensor(g.uniform(-3, 3, out)))
        self.gain = gain

    def forward(self, x):
        return 0.5 + 0.5 * self.gain * torch.sin((x * torch.tensor(SCALE)) @ self.w + self.b)


def coordinates(cfg_like):
    """(nx, ny, NL, NF, 4) coordinates of the model points, stated independently."""
    o = cfg_like["over"]
    nx, ny, NL = cfg_like["Nx"] // o, cfg_like["Ny"] // o, cfg_like["NL"]
    f = cfg_like["freqs"]
    lin = lambda n: np.array([-1.0]) if n == 1 else -1 + 2 * np.arange(n) / (n - 1)
    th = cfg_like["thickness"]
    if len(th) == 1:
        z = lin(NL)
    else:
        # the first layer at -1, the last at 1, in between by the thickness of the layers up to and including
        c = np.cumsum(th)
        z = -1 + 2 * (c - c[0]) / (c[-1] - c[0])
    if cfg_like["dist"] == "linear":
        w = 32.0 * lin(len(f))
    else:
        w = 32.0 * (2 * np.asarray(f) / np.max(f) - 1)
    out = np.zeros((nx, ny, NL, len(f), 4))
    for i, x in enumerate(lin(nx)):
        out[i, ..., 0] = x
    for j, y in enumerate(lin(ny)):
        out[:, j, ..., 1] = y
    for k in range(NL):
        out[:, :, k, :, 2] = 1000.0 * z[k]
    for m in range(len(f)):
        out[..., m, 3] = w[m]
    return out


def blocks(a, o):
    """Every model point fills an o x o block."""
    nx, ny = a.shape[:2]
    out = np.zeros((nx * o, ny * o) + a.shape[2:], dtype=a.dtype)
    for i in range(nx * o):
        for j in range(ny * o):
            out[i, j] = a[i // o, j // o]
    return out


def model_points(model, v):
    """Model outputs, evaluated point by point layer (not in the order NIDN uses)."""
    c = coordinates(v)
    flat = c.reshape(-1, 4)
    perm = np.random.default_rng(5).permutation(len(flat))
    with torch.no_grad():
        res = model(torch.tensor(flat[perm])).numpy()
    out = np.zeros_like(res)
    out[perm] = res
    return out.reshape(c.shape[:4] + (-1,))
