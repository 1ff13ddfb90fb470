"""Independent numpy model of NIDN's FDTD engine: Yee leapfrog with diagonal
materials, conductivity, convolutional PML slabs, periodic boundaries, sources
and detectors.  Written per axis permutation (not per field component as in
NIDN)."""
import math

import numpy as np

C0 = 299792458.0
ETA = 4e-7 * math.pi * C0


def shifted_difference(f, axis, forward):
    """Difference of neighbours along an axis, zero where there is none."""
    d = np.diff(f, axis=axis)
    pad = [(0, 0)] * f.ndim
    pad[axis] = (0, 1) if forward else (1, 0)
    return np.pad(d, pad)


def curl(f, forward):
    out = np.zeros_like(f)
    for c in range(3):
        a, b = (c + 1) % 3, (c + 2) % 3
        out[..., c] = shifted_difference(f[..., b], a, forward) - shifted_difference(f[..., a], b, forward)
    return out


class Pml:
    def __init__(self, axis, high, thickness, shape, courant, a=1e-8):
        self.axis, self.t = axis, thickness
        self.sl = [slice(None)] * 3
        self.sl[axis] = slice(shape[axis] - thickness, None) if high else slice(0, thickness)
        self.sl = tuple(self.sl)
        depth = np.arange(thickness)
        e_pos = depth + 0.5 if high else thickness - 0.5 - depth
        h_pos = depth + 1.0 if high else thickness - 1.0 - depth
        h_pos = h_pos.astype(float)
        h_pos[-1] = 0.0
        self.coef = {}
        for kind, pos in (("E", e_pos), ("H", h_pos)):
            sigma = 40 * pos ** 3 / (thickness + 1) ** 4
            b = np.exp(-(sigma + a) * courant)
            c = (b - 1) * sigma / (sigma + a)
            view = [1, 1, 1]
            view[axis] = thickness
            self.coef[kind] = (b.reshape(view), c.reshape(view))
        slab = list(shape)
        slab[axis] = thickness
        self.shape = tuple(slab)
        self.clear()

    def clear(self):
        self.psi = {k: [np.zeros(self.shape) for _ in range(3)] for k in "EH"}

    def phi(self, kind, other):
        """kind: field being updated; other: the field whose curl drives it."""
        b, c = self.coef[kind]
        n = self.axis
        out = np.zeros(self.shape + (3,))
        for comp in range(3):
            if comp == n:
                continue
            third = 3 - comp - n
            d = shifted_difference(other[self.sl][..., third], n, kind == "H")
            self.psi[kind][comp] = self.psi[kind][comp] * b + c * d
            sign = 1.0 if n == (comp + 1) % 3 else -1.0
            out[..., comp] = sign * self.psi[kind][comp]
        return out


class YeeRef:
    def __init__(self, shape, spacing, eps=1.0, mu=1.0, courant=None):
        self.shape = tuple(shape)
        dims = sum(1 for n in shape if n > 1)
        self.courant = 0.99 / math.sqrt(dims) if courant is None else courant
        self.spacing = spacing
        self.dt = self.courant * spacing / C0
        self.E = np.zeros(self.shape + (3,))
        self.H = np.zeros(self.shape + (3,))
        self.ieps = np.full(self.shape + (3,), 1.0 / eps)
        self.imu = 1.0 / mu
        self.alpha = np.zeros(self.shape + (3,))
        self.boundaries = []
        self.sources = []
        self.detectors = []
        self.q = 0

    # ---- structure
    def add_object(self, region, eps, sigma=None):
        """region: three (start, stop); eps/sigma: scalar, (x,y,z) or (x,y,z,3) array."""
        sl = tuple(slice(a, b) for a, b in region)
        size = tuple(b - a for a, b in region)
        eps = np.asarray(eps, float)
        if eps.ndim == 3:
            eps = eps[..., None]
        ie = np.ones(size + (3,)) / eps
        for ax in range(3):
            if size[ax] > 1:
                far = list(sl)
                far[ax] = self.shape[ax] - 1
                last = [slice(None)] * 3
                last[ax] = -1
                ie[tuple(last) + (ax,)] = self.ieps[tuple(far) + (ax,)]
        self.ieps[sl] = ie
        if sigma is None:
            self.alpha[sl] = 0.0
        else:
            sigma = np.asarray(sigma, float)
            if sigma.ndim == 3:
                sigma = sigma[..., None]
            self.alpha[sl] = 0.5 * self.courant * ie * sigma * self.spacing * ETA

    def add_pml(self, axis, high, thickness, a=1e-8):
        self.boundaries.append(Pml(axis, high, thickness, self.shape, self.courant, a))

    def add_periodic(self, axis):
        self.boundaries.append(axis)

    # ---- time
    def step(self):
        phis = [b.phi("E", self.H) if isinstance(b, Pml) else None for b in self.boundaries]
        self.E = ((1 - self.alpha) * self.E + self.courant * self.ieps * curl(self.H, False)) / (1 + self.alpha)
        for b, phi in zip(self.boundaries, phis):
            if phi is None:
                lo, hi = [slice(None)] * 3, [slice(None)] * 3
                lo[b], hi[b] = 0, self.shape[b] - 1
                self.E[tuple(lo)] = self.E[tuple(hi)]
            else:
                self.E[b.sl] += self.courant * self.ieps[b.sl] * phi / (1 + self.alpha[b.sl])
        for s in self.sources:
            s.drive_E(self)
        for d in self.detectors:
            d.see_E(self)
        phis = [b.phi("H", self.E) if isinstance(b, Pml) else None for b in self.boundaries]
        self.H = self.H - self.courant * self.imu * curl(self.E, True)
        for b, phi in zip(self.boundaries, phis):
            if phi is None:
                lo, hi = [slice(None)] * 3, [slice(None)] * 3
                lo[b], hi[b] = 0, self.shape[b] - 1
                self.H[tuple(hi)] = self.H[tuple(lo)]
            else:
                self.H[b.sl] -= self.courant * self.imu * phi
        for s in self.sources:
            s.drive_H(self)
        for d in self.detectors:
            d.see_H(self)
        self.q += 1

    def run(self, n):
        for _ in range(n):
            self.step()


# ---- sources
class Wave:
    """kind: continuous (period in steps), hanning (period, dt, cycles), ricker (grid points per wavelength), array."""

    def __init__(self, kind, **p):
        self.kind, self.p = kind, p

    def __call__(self, q, courant):
        p = self.p
        if self.kind == "continuous":
            return math.sin(2 * math.pi * q / p["steps"] + p["phase"])
        if self.kind == "hanning":
            f, dt, n = 1.0 / p["period"], p["dt"], p["cycle"]
            if q >= int(2 * math.pi * n / (f * dt)):
                return 0.0
            return 0.5 * (1 - math.cos(f * q * dt / n)) * math.sin(f * q * dt)
        if self.kind == "ricker":
            g = p["gppw"]
            if q >= 6 * g:
                return 0.0
            v = (math.pi * (q * courant / g - 1)) ** 2
            return (1 - 2 * v) * math.exp(-v)
        return p["values"][q] if q < len(p["values"]) else 0.0


def line_cells(region):
    """Cells of the diagonal of a box given by three (start, stop); equal bounds mean one plane."""
    m = max(abs(b - a) for a, b in region)
    return [tuple(a + int((b - a) * k / m) for a, b in region) for k in range(m)]


class SoftSource:
    def __init__(self, cells, weights, wave):
        self.cells, self.weights, self.wave = cells, weights, wave

    def drive_E(self, g):
        w = self.wave(g.q, g.courant)
        for c, x in zip(self.cells, self.weights):
            g.E[c + (2,)] += x * w

    def drive_H(self, g):
        pass


def line_weights(cells, amplitude):
    mid = cells[len(cells) // 2]
    d2 = np.array([sum((a - b) ** 2 for a, b in zip(c, mid)) for c in cells], float)
    w = np.exp(-0.5 * (d2 / (0.5 * d2.max())) ** 2)
    return list(w / w.sum() * amplitude)


class HardPlane:
    def __init__(self, region, pol, amplitude, wave):
        flat = [ax for ax in range(3) if region[ax][1] - region[ax][0] == 1][0]
        self.sl = tuple(slice(a, b) for a, b in region)
        self.e, self.h = pol, 3 - pol - flat
        self.amplitude, self.wave = amplitude, wave

    def drive_E(self, g):
        g.E[self.sl + (self.e,)] = self.amplitude * self.wave(g.q, g.courant)

    def drive_H(self, g):
        g.H[self.sl + (self.h,)] = self.amplitude * self.wave(g.q, g.courant)


def current(g, x, y, z):
    H, tot = g.H, 0.0
    for k in (z, z - 1):
        tot += H[x, y - 1, k, 0] - H[x, y, k, 0] + H[x, y, k, 1] - H[x - 1, y, k, 1]
    return 0.5 * tot * g.spacing


class ArraySource:
    def __init__(self, cell, values, impedance):
        self.cell, self.values, self.z = cell, values, impedance
        self.inputs, self.outputs, self.I = [], [], []

    def drive_E(self, g):
        v = self.values[g.q] if g.q < len(self.values) else 0.0
        i = self.I[-1] if g.q > 0 else 0.0
        out = v + (self.z * i if self.z > 0 else 0.0)
        self.inputs.append(v)
        self.outputs.append(out)
        g.E[self.cell + (2,)] += out / g.spacing

    def drive_H(self, g):
        pass

    def see_E(self, g):
        pass

    def see_H(self, g):
        self.I.append(current(g, *self.cell))


# ---- detectors
class CellsDetector:
    def __init__(self, cells):
        self.idx = tuple(np.array([c[k] for c in cells]) for k in range(3))
        self.E, self.H = [], []

    def see_E(self, g):
        self.E.append(g.E[self.idx].copy())

    def see_H(self, g):
        self.H.append(g.H[self.idx].copy())


class BoxDetector:
    def __init__(self, region):
        self.sl = tuple(slice(a, b) for a, b in region)
        self.E, self.H = [], []

    def see_E(self, g):
        self.E.append(g.E[self.sl].copy())

    def see_H(self, g):
        self.H.append(g.H[self.sl].copy())


class CurrentBox:
    def __init__(self, region):
        self.region = region
        self.I = []

    def see_E(self, g):
        pass

    def see_H(self, g):
        (a, b), (c, d), (e, f) = self.region
        self.I.append(np.array([[[current(g, x, y, z) for z in range(e, f)] for y in range(c, d)] for x in range(a, b)]))
