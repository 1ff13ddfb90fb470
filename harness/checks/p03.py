"""Energy balance of passive structures."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from oracles.tmm import tmm_damped
from checks import p01, p02

SUITE = Suite(
    "P03",
    "Random passive uniform stacks and patterned grids (dielectric, lossy, metallic, high-contrast, any exterior media, also diffracting); "
    "non-trivial: R and T both exceed 1e-6 or the structure absorbs.",
    ["Slack above one: 1e-4 (frequency damping and single-precision constants of the solver)."],
)


def check_balance(R, T, what):
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "{}: not finite: R={} T={}", what, R, T)
    require(R.min() > -1e-7 and T.min() > -1e-7, "{}: negative power R={} T={}", what, R, T)
    require((R + T).max() <= 1 + 1e-4, "{}: R+T={} exceeds one", what, (R + T).max())


@SUITE.case("uniform", p01.stack, quick=800, shards=8)
def uniform_case(v, rec):
    cfg, eps, th = p01.build(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    check_balance(R, T, "uniform")
    rec.interesting(min(R.max(), T.max()) > 1e-6 or eps.imag.max() > 0)
    # the absorbed part is the one the thin film absorbs
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], v["dist"])
    for k in range(v["n"]):
        Rr, Tr = tmm_damped(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
        A, Ar = 1 - R[k] - T[k], 1 - Rr - Tr
        require(abs(A - Ar) <= 1e-4 + 0.02 * abs(Ar), "absorptance {} but the stack absorbs {}", A, Ar)


@SUITE.case("lossless uniform", p01.stack, quick=600, shards=8, rule="all layers lossless (dielectric or ideal metal): R+T=1")
def lossless_case(v, rec):
    cfg, eps, th = p01.build(v)
    eps = eps.real + 0j
    R, T = spectrum(torch.tensor(eps), cfg)
    check_balance(R, T, "lossless")
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], v["dist"])
    for k in range(v["n"]):
        d = 1 - R[k] - T[k]
        if d > 2e-3:
            Rr, Tr = tmm_damped(fs[k], eps[0, 0, :, k], th, v["top"], v["bot"])
            require(abs(d - (1 - Rr - Tr)) < 1e-3 + 0.1 * d, "lossless stack loses {} (damping explains {})", d, 1 - Rr - Tr)
            rec.label("resonant")
    rec.interesting(min(R.max(), T.max()) > 1e-6)


@SUITE.case("patterned", p02.rcwa, quick=320, shards=16)
def patterned_case(v, rec):
    cfg, eps, th = p02.build(v)
    R, T = spectrum(torch.tensor(eps), cfg)
    check_balance(R, T, "patterned")
    rec.interesting(min(R.max(), T.max()) > 1e-6)
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], "linear")
    for k in range(v["n"]):
        Rr, Tr = p02.ref_rt(v, eps[:, :, :, k], th, fs[k], 1e5)
        R2, T2 = p02.ref_rt(v, eps[:, :, :, k], th, fs[k], 2e5)
        A, Ar, A2 = 1 - R[k] - T[k], 1 - Rr - Tr, 1 - R2 - T2
        require(abs(A - Ar) <= 1e-5 + 4 * abs(Ar - A2), "absorptance {} but the structure absorbs {}", A, Ar)


@SUITE.case("mixed", p02.mixed(), quick=240, shards=16, rule="as 'patterned' with uniform and repeated layers among the patterned ones")
def mixed_case(v, rec):
    patterned_case(v, rec)


@SUITE.case("larger", st.one_of(p02.large, p02.several), quick=64, shards=16, rule="as 'patterned' with many orders, layers or frequencies")
def larger_case(v, rec):
    patterned_case(v, rec)


@SUITE.case("extreme", st.one_of(p01.extremes(), p01.many), quick=400, shards=16, rule="as 'uniform' with extreme materials, thicknesses and wavelengths, or many layers and frequencies")
def extreme_case(v, rec):
    uniform_case(v, rec)


@SUITE.case("lossless patterned", st.tuples(p02.rcwa, st.integers(0, 2), st.sampled_from([0.25, 1.0, 4.0])).map(list), quick=320, shards=16,
            rule="lossless pattern: R+T=1; then one layer made absorbing: R+T strictly below")
def lossless_patterned_case(w, rec):
    v, which, im = w
    cfg, eps, th = p02.build(v)
    eps = np.abs(eps.real) + 0j
    eps[eps == 0] = 1.0
    R, T = spectrum(torch.tensor(eps), cfg)
    check_balance(R, T, "lossless patterned")
    fs = ref_frequencies(v["wl"][0], v["wl"][1], v["n"], "linear")
    for k in range(v["n"]):
        d = 1 - R[k] - T[k]
        if d > 2e-3:
            Rr, Tr = p02.ref_rt(v, eps[:, :, :, k], th, fs[k], 1e5)
            require(abs(d - (1 - Rr - Tr)) < 1e-3 + 0.1 * d, "lossless pattern loses {} (damping explains {})", d, 1 - Rr - Tr)
            rec.label("resonant")
    rec.interesting(min(R.max(), T.max()) > 1e-6)
    i = which % eps.shape[2]
    eps2 = eps.copy()
    eps2[:, :, i, :] += 1j * im
    R2, T2 = spectrum(torch.tensor(eps2), cfg)
    check_balance(R2, T2, "absorbing patterned")
    # dielectric stacks: fields reach every layer, so the absorption is finite
    require(np.all(R2 + T2 < R + T - 1e-6), "absorbing layer does not lower R+T: {} -> {}", R + T, R2 + T2)
