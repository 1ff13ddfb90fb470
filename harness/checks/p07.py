"""Automatic differentiation against finite differences of the same solver."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import fdtd_common as fc
from checks import p01, p02

SUITE = Suite(
    "P07",
    "Random structures, random weights of R and T at every frequency and a random complex direction (or one single entry) of the permittivity grid; "
    "non-trivial: the derivative is larger than 1e-8.",
    ["Central differences at two step sizes; a case counts only where both agree (the spectrum is locally smooth)."],
)

wts = st.lists(st.integers(-4, 4), min_size=4, max_size=10)


def gradient_check(eps, cfg_maker, n, seed, weights, entry, rec, h, rtol, atol):
    rng = np.random.default_rng(seed)
    w = [weights[k % len(weights)] / 4.0 for k in range(2 * n)]
    if all(x == 0 for x in w):
        w[0] = 1.0

    def f(t):
        R, T = nidn.compute_spectrum(t, cfg_maker())
        y = 0.0
        for k in range(n):
            y = y + w[k] * torch.real(R[k]) + w[n + k] * torch.real(T[k])
        return y

    t = torch.tensor(eps, requires_grad=True)
    y = f(t)
    require(torch.is_tensor(y) and y.requires_grad, "the spectrum carries no gradient")
    y.backward()
    g = t.grad
    require(g is not None and g.shape == t.shape, "no gradient on the permittivity grid")
    require(bool(torch.isfinite(torch.view_as_real(g)).all()), "gradient not finite: {}", g)
    d = np.zeros(eps.shape, complex)
    if entry is None:
        d = rng.normal(size=eps.shape) + 1j * rng.normal(size=eps.shape)
    else:
        idx = tuple(e % m for e, m in zip(entry[:4], eps.shape))
        d[idx] = 1j if entry[4] else 1.0
    d = torch.tensor(d)
    base = t.detach()
    y0 = float(y.detach())
    fd = float((f(base + h * d) - f(base - h * d)) / (2 * h))
    fd2 = float((f(base + h / 2 * d) - f(base - h / 2 * d)) / h)
    one = float((f(base + h * d).detach() - y0) / h)
    if abs(fd - fd2) > 0.25 * (rtol * abs(fd) + atol) or abs(one - fd) > 0.3 * abs(fd) + 1e3 * h + atol:
        rec.label("not smooth here")
        return
    ad = float((g.conj() * d).real.sum())
    require(abs(ad - fd) <= rtol * abs(fd) + atol, "derivative {} by autograd, {} by finite differences", ad, fd)
    rec.interesting(abs(fd) > 1e-8)


entry = st.one_of(st.none(), st.tuples(st.integers(0, 12), st.integers(0, 12), st.integers(0, 5), st.integers(0, 4), st.booleans()).map(list))


@SUITE.case("rcwa uniform", st.tuples(p01.stack, st.integers(0, 999), wts, entry).map(list), quick=500, shards=8)
def uniform_case(w, rec):
    v, seed, weights, ent = w
    _, eps, _ = p01.build(v)
    gradient_check(eps, lambda: p01.build(v)[0], v["n"], seed, weights, ent, rec, 1e-5, 1e-4, 1e-7)


@SUITE.case("rcwa patterned", st.tuples(p02.rcwa, st.integers(0, 999), wts, entry).map(list), quick=320, shards=16)
def patterned_case(w, rec):
    v, seed, weights, ent = w
    _, eps, _ = p02.build(v)
    gradient_check(eps, lambda: p02.build(v)[0], v["n"], seed, weights, ent, rec, 1e-5, 2e-3, 2e-6)


@SUITE.case("rcwa many", st.tuples(st.one_of(p01.many.map(lambda v: ["u", v]), p02.mixed().map(lambda v: ["p", v]), p02.several.map(lambda v: ["p", v])), st.integers(0, 999), wts,
            st.one_of(st.none(), st.tuples(st.integers(0, 12), st.integers(0, 12), st.integers(0, 15), st.integers(0, 40), st.booleans()).map(list))).map(list), quick=128, shards=16,
            rule="as above with many layers and frequencies, or uniform and repeated layers among the patterned ones")
def many_case(w, rec):
    (kind, v), seed, weights, ent = w
    m = p01 if kind == "u" else p02
    _, eps, _ = m.build(v)
    gradient_check(eps, lambda: m.build(v)[0], v["n"], seed, weights, ent, rec, 1e-5, 2e-3, 2e-6)


symmetric = st.fixed_dictionaries(dict(
    N=st.sampled_from([5, 7, 8, 9]), half=st.integers(0, 3), lo=grid_float(1.0, 6.0, 0.5), hi=grid_float(1.0, 9.0, 0.5), im=st.sampled_from([0.0, 0.5]),
    L=grid_float(0.3, 1.3, 0.1), wl=grid_float(1.0, 2.5, 0.1), t=grid_float(0.05, 0.6, 0.05), NG=st.integers(6, 10),
    kind=st.sampled_from(["square", "cross", "constant"])))


@SUITE.case("rcwa symmetric", st.tuples(symmetric, st.integers(0, 999), wts, entry).map(list), quick=160, shards=16,
            rule="highly symmetric patterns with degenerate modes")
def symmetric_case(w, rec):
    v, seed, weights, ent = w
    N, c = v["N"], v["N"] // 2
    e = np.full((N, N), v["lo"] + 0j)
    a, b = max(0, c - v["half"]), c + v["half"] + 1
    if v["kind"] == "square":
        e[a:b, a:b] = v["hi"] + 1j * v["im"]
    elif v["kind"] == "cross":
        e[c, :] = e[:, c] = v["hi"] + 1j * v["im"]
    eps = e[:, :, None, None]

    def cfg():
        cf = base_cfg(Nx=N, Ny=N, N_layers=1, TRCWA_NG=v["NG"], TRCWA_L_grid=[[v["L"], 0.0], [0.0, v["L"]]], PER_LAYER_THICKNESS=[v["t"]])
        return freq_cfg(cf, v["wl"], v["wl"] + 0.5, 1)

    gradient_check(eps, cfg, 1, seed, weights, ent, rec, 1e-5, 2e-3, 2e-6)
    rec.label(v["kind"])


@SUITE.case("fdtd", st.tuples(fc.fdtd, st.integers(0, 999), wts, entry).map(list), quick=56, shards=14)
def fdtd_case(w, rec):
    v, seed, weights, ent = w
    v = dict(v, extra=min(v["extra"], 50), n=1, layers=v["layers"][:2])
    _, eps, _ = fc.build(v)
    gradient_check(eps, lambda: fc.build(v)[0], v["n"], seed, weights, ent, rec, 1e-5, 1e-3, 1e-7)
    rec.label(v["pulse"])


@SUITE.case("fdtd many", st.tuples(fc.fdtd, st.lists(fc.fdtd_layer, max_size=2), st.integers(0, 999), wts, entry).map(list), quick=16, shards=16, rule="as 'fdtd' with up to five layers and two wavelengths")
def fdtd_many_case(w, rec):
    v, more, seed, weights, ent = w
    v = dict(v, extra=min(v["extra"], 50), n=2, layers=[dict(l, cells=min(l["cells"], 5)) for l in v["layers"] + more])
    _, eps, _ = fc.build(v)
    gradient_check(eps, lambda: fc.build(v)[0], v["n"], seed, weights, ent, rec, 1e-5, 1e-3, 1e-7)
    rec.label(v["pulse"], f"{len(v['layers'])} layers")


@SUITE.case("independence", st.tuples(p01.stack, st.integers(0, 4)).map(list), quick=200, shards=8,
            rule="the spectrum at one frequency has no gradient at other frequencies, and one at its own")
def independence_case(w, rec):
    v, k = w
    v = dict(v, n=max(2, v["n"]))
    cfg, eps, _ = p01.build(v)
    k = k % v["n"]
    t = torch.tensor(eps, requires_grad=True)
    R, T = nidn.compute_spectrum(t, cfg)
    (torch.real(R[k]) + 2 * torch.real(T[k])).backward()
    g = t.grad.abs().detach().numpy()
    others = np.delete(g, k, 3)
    require(others.max() == 0.0, "value at frequency {} depends on other frequencies", k)
    rec.interesting(g[..., k].max() > 1e-9)
