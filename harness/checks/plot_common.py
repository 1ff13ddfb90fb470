"""Figures as data: what is on a figure at the moment it is saved."""
import contextlib
import os

import numpy as np
from matplotlib import pyplot as plt
from matplotlib.figure import Figure
from mpl_toolkits.mplot3d.art3d import Path3DCollection

from common import *  # noqa: F403


class Shot:
    """One saved figure: path and drawn data, taken while the figure is saved."""

    def __init__(self, fig, path):
        self.path = os.path.abspath(path)
        self.axes = []
        for ax in fig.axes:
            self.axes.append(dict(
                xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(),
                lines=[np.array(l.get_xydata(), dtype=float) for l in ax.lines],
                scatter=[scatter(c) for c in ax.collections if isinstance(c, Path3DCollection)],
                texts=[t.get_text() for t in ax.texts],
                placed=[(t.get_text().strip(), float(t.get_position()[1])) for t in ax.texts if t.get_transform() == ax.transData],
                xlim=tuple(float(x) for x in ax.get_xlim()),
                legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None,
                handles=legend_lines(ax),
                zticks=list(zip([float(z) for z in ax.get_zticks()], [t.get_text() for t in ax.get_zticklabels()])) if hasattr(ax, "get_zticks") else None,
                yticks=list(zip([float(z) for z in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()])),
                colors=[l.get_color() for l in ax.lines],
                ylim=tuple(float(y) for y in ax.get_ylim()),
            ))

    def with_lines(self):
        return [a for a in self.axes if a["lines"]]

    def with_scatter(self):
        return [a for a in self.axes if a["scatter"]]

    def colorbars(self):
        return [a for a in self.axes if not a["lines"] and not a["scatter"]]


def visible(ax, what):
    """Every drawn point lies in the drawn range of the abscissa."""
    lo, hi = min(ax["xlim"]), max(ax["xlim"])
    for l in ax["lines"]:
        slack = 1e-6 * (abs(lo) + abs(hi))
        require(len(l) == 0 or (l[:, 0].min() >= lo - slack and l[:, 0].max() <= hi + slack), "{}: only wavelengths {} to {} are shown of {}", what, lo, hi, l[:, 0])


def legend_lines(ax):
    """Colours of the legend entries, to tell which line carries which name."""
    leg = ax.get_legend()
    return [h.get_color() if hasattr(h, "get_color") else None for h in leg.legend_handles] if leg else None


def scatter(c):
    x, y, z = (np.array(np.ma.filled(a, np.nan), dtype=float).ravel() for a in c._offsets3d)
    return dict(x=x, y=y, z=z, value=np.array(c.get_array(), dtype=float).ravel(), clim=c.get_clim())


@contextlib.contextmanager
def shots(write=False):
    """Records every saved figure; the file itself is a small stand-in unless write."""
    out = []
    real = Figure.savefig

    def savefig(self, fname, *a, **kw):
        out.append(Shot(self, os.fspath(fname)))
        if write:
            kw["dpi"] = 20
            return real(self, fname, *a, **kw)
        with open(fname, "wb") as f:
            f.write(b"figure")

    Figure.savefig = savefig
    try:
        with quiet():
            yield out
    finally:
        Figure.savefig = real
        plt.close("all")


def grid_values(sc, Nx, Ny, NL, what):
    """Scatter data back on the grid, by position."""
    n = Nx * Ny * NL
    require(len(sc["x"]) == n and len(sc["value"]) == n, "{}: {} points and {} values for a {}x{}x{} grid", what, len(sc["x"]), len(sc["value"]), Nx, Ny, NL)
    idx = []
    for axis, m in (("x", Nx), ("y", Ny), ("z", NL)):
        u = np.unique(np.round(sc[axis], 5))
        require(len(u) == m, "{}: {} different {} positions for {}", what, len(u), axis, m)
        if m > 1:
            require(np.allclose(np.diff(u), np.diff(u)[0], atol=1e-4), "{}: uneven {} positions {}", what, axis, u)
        idx.append(np.searchsorted(u, np.round(sc[axis], 5)))
    lo, hi = sc["clim"]
    slack = 1e-6 * (1 + np.abs(sc["value"]).max())
    require(lo is None or lo <= sc["value"].min() + slack, "{}: the colour scale starts at {} although {} is drawn", what, lo, sc["value"].min())
    require(hi is None or hi >= sc["value"].max() - slack, "{}: the colour scale ends at {} although {} is drawn", what, hi, sc["value"].max())
    out = np.full((Nx, Ny, NL), np.nan)
    out[tuple(idx)] = sc["value"]
    require(not np.isnan(out).any(), "{}: grid points without a value", what)
    return out


def check_grid(ax, want, what, tol=1e-6):
    Nx, Ny, NL = want.shape
    require(len(ax["scatter"]) == 1, "{}: {} point clouds", what, len(ax["scatter"]))
    sc = ax["scatter"][0]
    got = grid_values(sc, Nx, Ny, NL, what)
    bad = np.abs(got - want) > tol * (1 + np.abs(want))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(f"{what}: at x={i[0]}, y={i[1]}, layer {i[2] + 1} the value {got[i]} is drawn instead of {want[i]}")
    # the layer labels sit at the layers
    z = np.unique(np.round(sc["z"], 5))
    ticks = dict((round(p, 5), t) for p, t in ax["zticks"])
    for k, p in enumerate(z):
        near = [t for q, t in ticks.items() if abs(q - p) < 1e-4]
        require(near == [f"L{k + 1}"], "{}: layer {} is labelled {}", what, k + 1, near)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))
