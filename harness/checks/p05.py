"""Oblique, polarised and backward plane waves against the coupled-wave reference."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import trcwa_common as tc

SUITE = Suite(
    "P05",
    "Random plane-wave problems posed to the TRCWA class (angles, s/p mix with phases, order, direction, truncation scheme, period scaling, "
    "0-3 uniform/grid/anisotropic layers); non-trivial: at least one inner layer and a non-zero incident wave.",
    ["Reference: own numpy coupled-wave solver; conventions (|H|=1 plane waves, amplitudes at the outer faces of unit-thickness exterior layers) as documented in the class."],
)


def tol(a, b):
    return 2e-6 + 4 * np.abs(a - b)


@SUITE.case("problem", st.tuples(tc.problem, st.sampled_from(["flat", "stack"])).map(list), quick=2000, shards=16)
def problem_case(w, rec):
    v, form = w
    sim, ref, G, order, solve_ref, _ = tc.build(v, form)
    s, s2 = solve_ref(), solve_ref(2 * v["q"])
    idx = tc.permutation(G, s.G)
    scale = 1 + float(np.abs(s.R_order).sum() + np.abs(s.T_order).sum())
    R, T = (to_np(x) for x in sim.RT_Solve(normalize=0, byorder=1))
    for name, got, want, alt in (("R", R, s.R_order[idx], s2.R_order[idx]), ("T", T, s.T_order[idx], s2.T_order[idx])):
        require(got.shape == want.shape, "{} by order has shape {}", name, got.shape)
        bad = np.abs(got - want) > 2e-6 * scale + 4 * np.abs(want - alt)
        require(not bad.any(), "{} by order {} instead of {}", name, got, want)
    R0, T0 = (float(x) for x in sim.RT_Solve(normalize=0, byorder=0))
    require(abs(R0 - R.sum()) < 1e-9 * scale and abs(T0 - T.sum()) < 1e-9 * scale, "orders do not add up: {} {} vs {} {}", R.sum(), T.sum(), R0, T0)
    same = v["direction"] == "forward" or v["top"] == v["bot"]
    if same:
        R1, T1 = (float(torch.real(x)) for x in sim.RT_Solve(normalize=1, byorder=0))
        nrm = np.sqrt(v["top"]) / np.cos(v["theta"])
        require(abs(R1 - R0 * nrm) < 1e-7 * scale * nrm and abs(T1 - T0 * nrm) < 1e-7 * scale * nrm,
                "normalised powers {} {} instead of {} {}", R1, T1, R0 * nrm, T0 * nrm)
        inc = v["s_amp"] ** 2 + v["p_amp"] ** 2
        if order == 0:
            # incident flux of |H|=1 plane waves, s and p add for any phase
            require(R1 + T1 <= inc * (1 + 5e-2 / v["q"] * 1e3) + 1e-6, "R+T={} exceeds the incident {}", R1 + T1, inc)
    rec.interesting(len(v["layers"]) > 0 and v["s_amp"] + v["p_amp"] > 0)
    rec.label(v["direction"], f"Gmethod={v['Gmethod']}", "oblique" if v["theta"] else "normal")
    for k in sorted({l["kind"] for l in tc.layers_of(v)}):
        rec.label(k)
    if v["Pscale"] != 1.0:
        rec.label("Pscale")


@SUITE.case("fresnel", st.fixed_dictionaries(dict(
    n1=grid_float(1.0, 2.5, 0.25), n2=grid_float(1.0, 3.5, 0.25), k2=st.sampled_from([0.0, 0.5, 3.0]), t=grid_float(0.02, 1.0, 0.02),
    nm=grid_float(1.0, 3.0, 0.25), f=grid_float(0.2, 1.5, 0.05), theta=grid_float(0.0, 1.4, 0.05), phi=grid_float(0.0, 6.2, 0.1),
    pol=st.sampled_from(["s", "p"]), NG=st.integers(2, 12))), quick=600, shards=8,
    rule="oblique film between half spaces against the analytic three-medium formula; non-trivial: oblique")
def fresnel_case(v, rec):
    from nidn.trcwa.trcwa import TRCWA

    f = v["f"] * (1 + 1j / 2e6)
    sim = TRCWA(v["NG"], [0.7, 0.0], [0.0, 0.4], f, v["theta"], v["phi"], verbose=0)
    n2 = v["n2"] + 1j * v["k2"]
    sim.Add_LayerUniform(1.0, torch.tensor(v["n1"] ** 2))
    sim.Add_LayerUniform(v["t"], torch.tensor(complex(n2**2)))
    sim.Add_LayerUniform(1.0, torch.tensor(v["nm"] ** 2))
    sim.Init_Setup()
    s = v["pol"] == "s"
    # for azimuth 0 the plane of incidence is xz; s (TE): E along y
    sim.MakeExcitationPlanewave(0.0 if s else 1.0, 0.0, 1.0 if s else 0.0, 0.0)
    R, T = (float(torch.real(x)) for x in sim.RT_Solve(normalize=1))

    def film(fq):
        kx = v["n1"] * np.sin(v["theta"])
        n = [v["n1"] + 0j, n2, v["nm"] + 0j]
        c = [np.sqrt(m**2 - kx**2 + 0j) for m in n]
        c = [-x if x.imag < 0 else x for x in c]
        y = c if s else [m**2 / x for m, x in zip(n, c)]  # wave admittances
        r01, r12 = (y[0] - y[1]) / (y[0] + y[1]), (y[1] - y[2]) / (y[1] + y[2])
        t01, t12 = 2 * y[0] / (y[0] + y[1]), 2 * y[1] / (y[1] + y[2])
        ph = np.exp(2j * np.pi * fq * c[1] * v["t"])
        den = 1 + r01 * r12 * ph**2
        r, t = (r01 + r12 * ph**2) / den, t01 * t12 * ph / den
        return abs(r) ** 2, abs(t) ** 2 * y[2].real / y[0].real

    if abs(v["nm"] ** 2 - (v["n1"] * np.sin(v["theta"])) ** 2) < 1e-3 or abs(n2**2 - (v["n1"] * np.sin(v["theta"])) ** 2) < 1e-3:
        return
    Rr, Tr = film(v["f"])
    Rc, Tc = film(f)
    # p-polarised amplitude of unit |H|
    require(abs(R - Rr) < 5e-5 + 5 * abs(Rc - Rr) and abs(T - Tr) < 5e-5 + 5 * abs(Tc - Tr),
            "R={} T={} but Fresnel film R={} T={}", R, T, Rr, Tr)
    rec.interesting(v["theta"] > 0)
    rec.label(v["pol"])


@st.composite
def unusual(draw):
    """Layers with grids of different sizes, more layers and orders, complex amplitudes, skew lattices."""
    v = dict(draw(tc.problem))
    lays = draw(st.lists(tc.layer, min_size=1, max_size=6))
    v["layers"] = [dict(l, gx=draw(st.integers(0, 4)), gy=draw(st.integers(0, 4))) for l in lays]
    v["NG"] = draw(st.one_of(st.integers(4, 14), st.integers(15, 32)) if len(lays) < 4 else st.integers(4, 9))
    v["p_c"], v["s_c"] = draw(st.sampled_from([0.0, 0.7, -2.0])), draw(st.sampled_from([0.0, 1.3, 3.0]))
    v["f"] = draw(st.one_of(grid_float(0.2, 1.4, 0.05), st.sampled_from([0.02, 0.05, 1.8, 2.5])))
    v["Pscale"] = draw(st.sampled_from([v["Pscale"], 0.3, 3.0]))
    v["theta"] = draw(st.sampled_from([v["theta"], v["theta"], 1.48, 1.53]))
    if draw(st.booleans()) and v["Gmethod"] == 0:
        v["skew"] = [0.0, draw(st.sampled_from([-0.5, -0.25, 0.25]))]
        if v["Ly"] * v["skew"][1] >= v["Ly"]:
            v["skew"] = [0.0, 0.0]
    return v


@SUITE.case("unusual", st.tuples(unusual(), st.sampled_from(["flat", "stack"])).map(list), quick=320, shards=16,
            rule="as 'problem' with layers on grids of different sizes, up to 6 layers and 32 orders, complex amplitudes, skew lattices")
def unusual_case(w, rec):
    problem_case(w, rec)


op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("excite"), p_amp=st.sampled_from([0.0, 1.0, 0.6]), s_amp=st.sampled_from([1.0, 0.0, 0.8]), p_phase=grid_float(0.0, 6.0, 0.5), s_phase=grid_float(0.0, 6.0, 0.5),
                               direction=st.sampled_from(["forward", "backward"]), order=st.integers(0, 3))),
    st.fixed_dictionaries(dict(op=st.just("pattern"), p=st.lists(pattern_strategy(), min_size=9, max_size=9))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["solve", "by order", "normalised", "fields", "eps", "stress"]), lay=st.integers(0, 4))))


@SUITE.case("reuse", st.tuples(tc.problem, st.lists(op, min_size=1, max_size=7)).map(list), quick=480, shards=16,
            rule="one engine re-excited, re-patterned and read in any order answers like a fresh one; non-trivial: at least one change before the last read")
def reuse_case(w, rec):
    v, ops = w
    sim, ref, G, order, solve_ref, (Nx, Ny) = tc.build(v)
    v = dict(v)
    changes = 0
    for o in ops + [dict(op="by order", lay=0)]:
        kind = o["op"]
        if kind == "excite":
            v.update({k: o[k] for k in ("p_amp", "s_amp", "p_phase", "s_phase", "direction", "order")})
            sim.MakeExcitationPlanewave(v["p_amp"], v["p_phase"], v["s_amp"], v["s_phase"], order=v["order"] % len(G), direction=v["direction"])
            changes += 1
        elif kind == "pattern":
            v["layers"] = [dict(l, p=o["p"][(3 * i) % 9], p2=o["p"][(3 * i + 1) % 9], p3=o["p"][(3 * i + 2) % 9]) for i, l in enumerate(v["layers"])]
            lays = tc.layers_of(v)
            tc.put_patterns(sim, lays, tc.patterns(v, lays, Nx, Ny)[1], "flat")
            changes += any(l["kind"] != "uniform" for l in lays)
        elif kind in ("fields", "eps", "stress"):
            lay = o["lay"] % len(ref)
            if kind == "fields":
                sim.Solve_FieldFourier(lay, 0.1)
            elif kind == "eps":
                sim.Return_eps(lay, Nx + 4, Ny + 4)
            else:
                sim.Solve_ZStressTensorIntegral(lay)
        else:
            fresh = tc.build(v)[0]
            kw = dict(normalize=int(kind == "normalised"), byorder=int(kind == "by order"))
            a, b = sim.RT_Solve(**kw), fresh.RT_Solve(**kw)
            for name, x, y in zip("RT", a, b):
                x, y = np.atleast_1d(x.detach().numpy()), np.atleast_1d(y.detach().numpy())
                require(x.shape == y.shape and np.abs(x - y).max() <= 1e-8 * (1 + np.abs(y).max()), "{}: {} = {} but a fresh engine gives {}", kind, name, x, y)
    rec.interesting(changes > 0 and len(v["layers"]) > 0)
    rec.label(*{o["op"] for o in ops})
