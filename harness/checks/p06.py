"""Field, flux, absorption and permittivity outputs of the TRCWA class."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import trcwa_common as tc
from checks.p05 import unusual
from oracles import rcwa_ref

SUITE = Suite(
    "P06",
    "Random plane-wave problems with 1-3 inner layers, a layer and depths to look at; non-trivial: the fields there are non-zero and the structure is not empty.",
    ["Reference fields from the own numpy coupled-wave solver; absorbed power from the reference flux difference."],
)

with_layers = tc.problem.filter(lambda v: len(v["layers"]) > 0)


def np3(x):
    return np.array([[c.detach().cpu().numpy() for c in part] for part in x])


@SUITE.case("fields", st.tuples(with_layers, st.integers(0, 9), st.lists(st.sampled_from([0.0, 0.1, 0.37, 0.5, 0.9, 1.0]), min_size=1, max_size=3)).map(list),
            quick=960, shards=16)
def fields_case(w, rec):
    v, which, fracs = w
    sim, ref, G, order, solve_ref, (Nx, Ny) = tc.build(v)
    s, s2 = solve_ref(), solve_ref(2 * v["q"])
    idx = tc.permutation(G, s.G)
    lay = (which + 1) % len(ref)
    t = ref[lay][0]
    zs = [f * t for f in fracs]
    got = sim.Solve_FieldFourier(lay, zs)
    require(len(got) == len(zs), "{} field sets for {} depths", len(got), len(zs))
    mag = 0.0
    for z, g in zip(zs, got):
        want = s.fields(lay, z)[:, :, idx]
        alt = s2.fields(lay, z)[:, :, idx]
        g = np3(g)
        scale = 1 + np.abs(want).max()
        mag = max(mag, np.abs(want).max())
        bad = np.abs(g - want) > 5e-6 * scale + 6 * np.abs(want - alt)
        require(not bad.any(), "layer {} z={}: Fourier fields differ from the reference by {}", lay, z, np.abs(g - want).max())
    one = np3(sim.Solve_FieldFourier(lay, float(zs[0]))[0])
    require(np.allclose(one, np3(got[0]), rtol=1e-9, atol=1e-12), "single depth differs from list of depths")
    if lay in (0, len(ref) - 1) or tc.layers_of(v)[lay - 1]["kind"] == "uniform":
        # modes of a uniform layer are its diffraction orders, scaled by their H field
        ai, bi = (x.detach().numpy() for x in sim.GetAmplitudes(lay, float(zs[0])))
        h = (ai + bi).reshape(2, -1)
        require(np.abs(h - np3(got[0])[1, :2]).max() < 1e-9 * (1 + np.abs(h).max()), "mode amplitudes of uniform layer {} do not add up to its H field", lay)
        if not v.get("skew"):
            q = np.sqrt((2 * np.pi * v["f"] * (1 + 0.5j / v["q"])) ** 2 * complex(ref[lay][1]) - s.kx[idx] ** 2 - s.ky[idx] ** 2 + 0j)
            q = np.where(q.imag < 0, -q, q)
            a0, b0 = (x.detach().numpy() for x in sim.GetAmplitudes(lay, 0.0))
            ph = np.exp(1j * np.concatenate([q, q]) * zs[0])
            if np.abs(ph).min() > 1e-6:
                require(np.abs(ai - a0 * ph).max() < 1e-5 * (1 + np.abs(ai).max()) and np.abs(bi * ph - b0).max() < 1e-5 * (1 + np.abs(bi).max()), "mode amplitudes of uniform layer {} do not propagate with the layer's wave numbers", lay)
    # continuity of the tangential fields across the interface below
    if lay < len(ref) - 1:
        a = np3(sim.Solve_FieldFourier(lay, float(t))[0])
        b = np3(sim.Solve_FieldFourier(lay + 1, 0.0)[0])
        sc = 1 + np.abs(a).max()
        require(np.abs(a[:, :2] - b[:, :2]).max() < 1e-7 * sc, "tangential fields jump by {} at interface {}", np.abs(a[:, :2] - b[:, :2]).max(), lay)
    # real-space synthesis
    mx = [max(Nx, 2 * int(np.abs(s.G[:, 0]).max()) + 1), max(Ny, 2 * int(np.abs(s.G[:, 1]).max()) + 1)]
    grid = sim.Solve_FieldOnGrid(lay, [float(z) for z in zs], Nxy=mx)
    require(len(grid) == len(zs), "fields on grid for {} depths", len(grid))
    x = np.arange(mx[0])[:, None] / mx[0]
    y = np.arange(mx[1])[None, :] / mx[1]
    basis = np.stack([np.exp(2j * np.pi * (gx * x + gy * y)) for gx, gy in G])
    for g, four in zip(grid, got):
        g, four = np3(g), np3(four)
        want = np.einsum("abg,gxy->abxy", four, basis)
        require(np.abs(g - want).max() < 1e-8 * (1 + np.abs(want).max()), "real-space fields are not the Fourier synthesis")
    single = np3(sim.Solve_FieldOnGrid(lay, float(zs[0]), Nxy=mx))
    require(np.allclose(single, np3(grid[0]), rtol=1e-9, atol=1e-12), "single depth on grid differs")
    whole = int(zs[0])  # a depth given as an integer is a single depth, too
    single = sim.Solve_FieldOnGrid(lay, whole, Nxy=mx)
    also = np3(sim.Solve_FieldOnGrid(lay, float(whole), Nxy=mx))
    require(len(single) == 2 and np.allclose(np3(single), also, rtol=1e-9, atol=1e-12), "an integer depth gives other fields than the same number")
    l = tc.layers_of(v)[lay - 1] if lay not in (0, len(ref) - 1) else dict(kind="uniform")
    own = [Nx + l.get("gx", 0), Ny + l.get("gy", 0)]
    if l["kind"] != "uniform" and own[0] > 2 * np.abs(s.G[:, 0]).max() and own[1] > 2 * np.abs(s.G[:, 1]).max():
        d = np3(sim.Solve_FieldOnGrid(lay, float(zs[0])))
        want = np3(sim.Solve_FieldOnGrid(lay, float(zs[0]), Nxy=own))
        require(d.shape == want.shape and np.allclose(d, want, rtol=1e-9, atol=1e-12), "default grid differs from the layer's grid")
        rec.label("default grid")
    rec.interesting(mag > 1e-6)
    rec.label(f"layer {'exterior' if lay in (0, len(ref) - 1) else tc.layers_of(v)[lay - 1]['kind']}")


@SUITE.case("flux and absorption", st.tuples(with_layers, st.integers(0, 9)).map(list), quick=800, shards=16,
            rule="layer-wise flux difference equals omega times the volume integral of Im(eps)|E|^2; non-trivial: absorbing layer")
def absorb_case(w, rec):
    v, which = w
    v = dict(v, q=1e6)
    sim, ref, G, order, solve_ref, _ = tc.build(v)
    s, s2 = solve_ref(), solve_ref(2 * v["q"])
    nrm = np.sqrt(v["top"]) / np.cos(v["theta"])

    def flux(lay, z):
        e, h = np3(sim.Solve_FieldFourier(lay, float(z))[0])
        return (e[0] * np.conj(h[1]) - e[1] * np.conj(h[0])).real.sum() * nrm

    R, T = (float(torch.real(x)) for x in sim.RT_Solve(normalize=1))
    N = len(ref)
    last, first = flux(N - 1, 0.0), flux(0, ref[0][0])
    if v["direction"] == "forward":
        require(abs(last - T) < 1e-3 * (1 + abs(T)), "flux behind the stack {} but T={}", last, T)
    else:
        require(abs(-first - T) < 1e-3 * (1 + abs(T)), "flux in front of the stack {} but T={}", -first, T)
    lay = 1 + which % (N - 2)
    t, eps = ref[lay]
    n = len(G)
    Garr = np.array(G)
    if isinstance(eps, tuple):
        M = [rcwa_ref.conv(np.imag(e), Garr) for e in eps]
    elif np.ndim(eps) == 2:
        M = [rcwa_ref.conv(np.imag(eps), Garr)] * 3
    else:
        M = [np.imag(eps) * np.eye(n)] * 3
    vol = sim.Volume_integral(lay, *[torch.tensor(np.asarray(m, complex)) for m in M], normalize=1)
    raw = sim.Volume_integral(lay, *[torch.tensor(np.asarray(m, complex)) for m in M], normalize=0)
    require(abs(complex(vol) - complex(raw) * nrm) < 1e-7 * (1 + abs(complex(vol))), "normalised volume integral {} but {} * {}", vol, raw, nrm)
    lost = flux(lay, 0.0) - flux(lay, t)
    A = 2 * np.pi * v["f"] * complex(vol).real
    # independent value by quadrature of the reference fields
    idx = tc.permutation(G, s.G)
    xs, ws = np.polynomial.legendre.leggauss(60)
    quad = 0.0
    for x_, w_ in zip(xs, ws):
        e = s.fields(lay, 0.5 * t * (x_ + 1))[0][:, idx]
        quad += 0.5 * t * w_ * sum((np.conj(e[c]) @ M[c] @ e[c]).real for c in range(3))
    quad *= 2 * np.pi * v["f"] * nrm
    size = np.abs(s.fields(lay, 0.0)).max() ** 2 + np.abs(s.fields(lay, t)).max() ** 2
    slack = 1e-4 * (1 + size * nrm) + 1e-3 * abs(quad)
    require(abs(A - quad) < slack, "omega * volume integral = {} but quadrature of the fields gives {}", A, quad)
    if not isinstance(eps, tuple) and np.ndim(eps) == 0:
        require(abs(A - lost) < slack + 1e-3 * size, "absorbed {} but flux drops by {}", A, lost)
    rec.interesting(abs(quad) > 1e-3)


@SUITE.case("permittivity", st.tuples(with_layers, st.integers(0, 9), st.sampled_from(["xx", "yy", "zz", "xy", "yx"])).map(list), quick=800, shards=8,
            rule="Return_eps reconstructs the truncated pattern; non-trivial: patterned layer")
def eps_case(w, rec):
    v, which, comp = w
    sim, ref, G, order, solve_ref, (Nx, Ny) = tc.build(v)
    lay = (which + 1) % len(ref)
    Garr = np.array(G)
    mx = [max(Nx, 2 * int(np.abs(Garr[:, 0]).max()) + 1), max(Ny, 2 * int(np.abs(Garr[:, 1]).max()) + 1)]
    got = sim.Return_eps(lay, mx[0], mx[1], comp).detach().cpu().numpy()
    require(got.shape == tuple(mx), "shape {}", got.shape)
    eps = ref[lay][1]
    if np.ndim(eps) == 0 and not isinstance(eps, tuple):
        want = np.full(mx, complex(eps))
    else:
        pats = eps if isinstance(eps, tuple) else (eps,) * 3
        x = np.arange(mx[0])[:, None] / mx[0]
        y = np.arange(mx[1])[None, :] / mx[1]
        want = np.zeros(mx, complex)
        if comp in ("xx", "yy", "zz"):
            pat = pats["xyz".index(comp[0])]
            px = np.arange(Nx)[:, None] / Nx
            py = np.arange(Ny)[None, :] / Ny
            for gx, gy in G:
                c = np.mean(pat * np.exp(-2j * np.pi * (gx * px + gy * py)))
                want += c * np.exp(2j * np.pi * (gx * x + gy * y))
        rec.interesting()
    require(np.abs(got - want).max() < 1e-7 * (1 + np.abs(want).max()), "reconstructed {} differs by {}", comp, np.abs(got - want).max())
    rec.label(comp)


@SUITE.case("stress", st.tuples(with_layers, st.integers(0, 9)).map(list), quick=240, shards=8,
            rule="stress tensor integrated over the top plane of a layer from the reference fields; non-trivial: oblique or patterned")
def stress_case(w, rec):
    v, which = w
    sim, ref, G, order, solve_ref, _ = tc.build(v)
    lay = (which + 1) % len(ref)

    def stress(s):
        (ex, ey, ez), (hx, hy, hz) = s.fields(lay, 0.0)
        eps = ref[lay][1]
        if isinstance(eps, tuple):
            Mx, My = rcwa_ref.conv(eps[0], s.G), rcwa_ref.conv(eps[1], s.G)
        elif np.ndim(eps) == 2:
            Mx = My = rcwa_ref.conv(eps, s.G)
        else:
            Mx = My = complex(eps) * np.eye(s.n)
        dx, dy, dz = Mx @ ex, My @ ey, (s.ky * hx - s.kx * hy) / s.w
        Tx = np.sum(ex * dz.conj() + hx * hz.conj()).real
        Ty = np.sum(ey * dz.conj() + hy * hz.conj()).real
        Tz = 0.5 * np.sum(ez * dz.conj() + hz * hz.conj() - ey * dy.conj() - ex * dx.conj() - abs(hx) ** 2 - abs(hy) ** 2).real
        return np.array([Tx, Ty, Tz])

    s = solve_ref()
    want, alt = stress(s), stress(solve_ref(2 * v["q"]))
    got = np.array([float(x) for x in sim.Solve_ZStressTensorIntegral(lay)])
    size = 1 + np.abs(s.fields(lay, 0.0)).max() ** 2 * 10
    require(np.all(np.abs(got - want) <= 1e-5 * size + 6 * np.abs(want - alt)), "stress {} instead of {}", got, want)
    rec.interesting(v["theta"] > 0 or any(l["kind"] != "uniform" for l in v["layers"]))


@SUITE.case("unusual", st.tuples(unusual(), st.integers(0, 9), st.lists(st.sampled_from([0.0, 0.1, 0.37, 0.5, 0.9, 1.0]), min_size=1, max_size=3)).map(list),
            quick=240, shards=16, rule="as 'fields' with layers on grids of different sizes, more layers and orders, complex amplitudes, skew lattices")
def unusual_case(w, rec):
    fields_case(w, rec)
