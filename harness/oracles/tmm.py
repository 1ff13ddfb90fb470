"""Thin-film transfer matrices (numpy), exp(-i w t), lengths in the unit of 1/freq."""
import numpy as np


def tmm(freq, eps, thick, eps_in=1.0, eps_out=1.0):
    """Normal incidence R and T by backward recursion of the input admittance-like
    reflection coefficient (stable for thick and metallic layers)."""
    n = [np.sqrt(complex(eps_in))] + [_n(e) for e in eps] + [np.sqrt(complex(eps_out))]
    k = 2 * np.pi * freq
    r = (n[-2] - n[-1]) / (n[-2] + n[-1])
    t = 2 * n[-2] / (n[-2] + n[-1])
    for j in range(len(n) - 3, -1, -1):
        d = thick[j]
        ph = np.exp(1j * k * n[j + 1] * d)
        rij = (n[j] - n[j + 1]) / (n[j] + n[j + 1])
        tij = 2 * n[j] / (n[j] + n[j + 1])
        den = 1 + rij * r * ph**2
        t = tij * ph * t / den
        r = (rij + r * ph**2) / den
    R = abs(r) ** 2
    T = abs(t) ** 2 * (n[-1].real / n[0].real)
    return R, T


def _n(e):
    n = np.sqrt(complex(e))
    return -n if n.imag < 0 else n


def tmm_damped(freq, eps, thick, eps_in=1.0, eps_out=1.0, q_abs=1e5, lead=1.0):
    """The same stack with the solver's complex frequency and its leading exterior layer."""
    fc = freq * (1 + 1j / (2 * q_abs))
    R, T = tmm(fc, eps, thick, eps_in, eps_out)
    damp = np.exp(-2 * (2 * np.pi * fc * np.sqrt(complex(eps_in)) * lead).imag)
    return R * damp, T * damp
