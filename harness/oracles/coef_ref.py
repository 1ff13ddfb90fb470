"""Independent statement of how reflectance and transmittance follow from detector signals."""
import numpy as np


class Tie(Exception):
    """The transient cut sits on a threshold: either choice is fine."""


def steady(signal, window, threshold, tie=1e-6):
    nz = np.flatnonzero(np.abs(signal) > 1e-8)
    s = signal[nz[0]:] if len(nz) else signal
    near = np.abs(np.abs(signal) - 1e-8) < 1e-12
    if near.any():
        raise Tie()
    if len(s) <= 2 * window:
        return s
    pieces = [s[i:i + window] for i in range(0, len(s), window)]
    pieces[-2:] = [np.concatenate(pieces[-2:])]
    spans = np.array([p.max() - p.min() for p in pieces])
    change = np.abs(np.diff(spans))
    if len(change) == 0:
        raise Tie()
    if change.max() < 1e-9 * max(spans.max(), 1e-300):
        raise Tie()
    rel = change / change.max()
    if np.any(np.abs(rel - threshold) < tie):
        raise Tie()
    last = int(np.flatnonzero(rel >= threshold)[-1])
    return s[(last + 1) * window:]


def power(s, tie=1e-12):
    d = np.diff(s)
    if len(d) and np.any((np.abs(d) < tie * np.abs(s).max()) & (np.abs(s[1:]) > 0.5 * np.abs(s).max())):
        raise Tie()
    inner = np.flatnonzero((d[:-1] > 0) & (d[1:] < 0)) + 1
    if len(inner) > 1:
        return float(np.mean(s[inner[0]:inner[-1]] ** 2))
    return float(s.max() ** 2 / 2)


def coefficients(trans, refl, wavelength_um, min_gridpoints, tie=1e-6):
    """trans, refl: (free space, material) signals. Returns (T, R)."""
    w = int(3 * min_gridpoints * wavelength_um)
    if abs(3 * min_gridpoints * wavelength_um - round(3 * min_gridpoints * wavelength_um)) < 1e-6:
        raise Tie()
    parts = [steady(trans[0], w, 0.5, tie), steady(trans[1], w, 0.1, tie), steady(refl[0], w, 0.5, tie), steady(refl[1] - refl[0], w, 0.1, tie)]
    p = [power(x) for x in parts]
    T, R = p[1] / p[0], p[3] / p[2]
    s = T + R
    if abs(s - 1) < 1e-9 or abs(s - 1.05) < 1e-9:
        raise Tie()
    if 1 < s < 1.05:
        T, R = T / s, R / s
    return T, R
