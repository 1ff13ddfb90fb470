"""Independent reading of the shipped material tables (plain text parsing)."""
import os

import numpy as np

import nidn
from core import REPO

FOLDER = os.path.join(REPO, "nidn", "materials", "data")


def tables():
    out = {}
    for fn in sorted(os.listdir(FOLDER)):
        if not fn.endswith(".csv"):
            continue
        with open(os.path.join(FOLDER, fn)) as f:
            rows = [l.split("\t") for l in f.read().splitlines() if l.strip()]
        head = [h.strip() for h in rows[0]]
        a = np.array([[float(c) for c in r] for r in rows[1:]])
        out[fn[:-4]] = a[:, [head.index("Wavelength"), head.index("n"), head.index("k")]]
    return out


TABLES = tables()
NAMES = sorted(TABLES)


def eps_at(name, wl, margin=1e-9):
    """Permittivities of the nearest rows; a list of all rows that tie within rounding."""
    t = TABLES[name]
    d = np.abs(t[:, 0] - wl)
    near = d <= d.min() + margin * max(1.0, wl)
    return [complex(n, k) ** 2 for _, n, k in t[near]]


def eps_table(name, freqs):
    """(N,) permittivities, with ties resolved to None."""
    return [eps_at(name, 1.0 / f) for f in freqs]


def matches(got, name, freqs, tol=1e-9):
    """Does the row `got` (complex array) hold the material at all frequencies?"""
    for g, cand in zip(got, eps_table(name, freqs)):
        if not any(abs(g - c) <= tol * max(1.0, abs(c)) for c in cand):
            return False
    return len(got) == len(freqs)


def untied(freqs, names=None):
    """All materials as an array (N_materials, N_freq), or None if a nearest row is tied."""
    out = []
    for n in names or NAMES:
        row = eps_table(n, freqs)
        if any(len(set(c)) != 1 for c in row):
            return None
        out.append([c[0] for c in row])
    return np.array(out)
