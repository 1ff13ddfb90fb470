"""Recorded training runs and their independent re-computation."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from common import *  # noqa: F403
from checks import fdtd_common as fd


# ---- independent loss ----
def ref_loss(R, T, tR, tT, L, absorption):
    """(loss, renormalised) as plain floats."""
    terms, flag = [], False
    for r, t, a, b in zip(R, T, tR, tT):
        if r + t > 1.0:
            r, t, flag = r / (r + t), t / (r + t), True
        terms += [abs(r - a) ** L, abs(t - b) ** L]
        if absorption:
            terms.append(abs((1 - r - t) - (1 - a - b)) ** L)
    return math.fsum(terms) / len(terms), flag


def ref_loss_t(R, T, tR, tT, L, absorption):
    """The same as a differentiable tensor."""
    terms = []
    for r, t, a, b in zip(R, T, tR, tT):
        if float(r + t) > 1.0:
            r, t = r / (r + t), t / (r + t)
        terms += [torch.abs(r - a) ** L, torch.abs(t - b) ** L]
        if absorption:
            terms.append(torch.abs((1 - r - t) - (1 - a - b)) ** L)
    return torch.stack(terms).sum() / len(terms)


def ref_reg(p, L):
    return torch.where(p < 0.5, p, 1 - p).pow(L).mean()


class _NaNGrad(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x):
        return x.clone()

    @staticmethod
    def backward(ctx, g):
        return torch.full_like(g, float("nan"))


class Recorder(nn.Module):
    """Wraps a model; records parameters and random state at every evaluation, injects faults."""

    def __init__(self, inner, faults=None):
        super().__init__()
        self.inner = inner
        self.faults = faults or {}
        self.states, self.rngs = [], []
        self.recording = True

    def forward(self, *a):
        k = len(self.states)
        if self.recording:
            self.states.append({n: p.detach().clone() for n, p in self.state_dict().items()})
            self.rngs.append(torch.get_rng_state())
        out = self.inner(*a)
        kind = self.faults.get(k) if self.recording else None
        if kind == "all":
            out = out * float("nan")
        elif kind == "one":
            mask = torch.zeros(out.shape)
            mask.view(-1)[k % mask.numel()] = float("nan")
            out = out + mask
        elif kind == "grad":
            out = _NaNGrad.apply(out)
        return out


# ---- random training configurations ----
@st.composite
def train_specs(draw, solver="TRCWA", max_iter=8, noise=True):
    over = draw(st.sampled_from([1, 1, 2]))
    kind = draw(st.sampled_from(["regression", "classification"]))
    model = draw(st.sampled_from(["siren", "nerf"] + (["voxel", "voxel"] if kind == "regression" else [])))
    patterned = draw(st.sampled_from([False, False, True]))
    NL = draw(st.integers(1, 3))
    n = draw(st.integers(1, 4))
    re = draw(st.sampled_from([[1.0, 12.0], [-20.0, 20.0], [-5.0, -1.0]])) if solver == "TRCWA" else [1.0, 8.0]
    gain = draw(st.sampled_from([False, False, False, True])) if kind == "regression" else False
    # an exact match (after renormalisation, with gain) has no gradient for exponents below 1, torch refuses it in the modes of patterned layers
    return dict(
        solver=solver, type=kind, model=model, Nx=over * (draw(st.integers(2, 4)) if patterned else 1), Ny=over * (draw(st.integers(1, 3)) if patterned else 1), over=over, NL=NL,
        thickness=draw(st.one_of(st.lists(grid_float(0.1, 1.5, 0.1), min_size=1, max_size=1), st.lists(grid_float(0.1, 1.5, 0.1), min_size=NL, max_size=NL))),
        n=n, range=draw(st.tuples(grid_float(0.6, 4.0, 0.1), grid_float(0.2, 4.0, 0.1)).map(lambda t: [t[0], t[0] + t[1]])), dist=draw(st.sampled_from(["linear", "log"])),
        tR=draw(st.lists(st.sampled_from([0.0, 0.2, 0.5, 0.9, 1.0]), min_size=n, max_size=n)), tT=draw(st.lists(st.sampled_from([0.0, 0.1, 0.5, 0.8, 1.0]), min_size=n, max_size=n)),
        L=draw(st.sampled_from([1.0, 2.0, 1.0 if patterned and gain else 0.5, 1.5, 3.0])), absorption=draw(st.booleans()), lr=draw(st.sampled_from([1e-4, 1e-2, 0.1, 0.5])), iterations=draw(st.integers(1, max_iter)),
        reg=draw(st.sampled_from([None, 0.05, 1.0, 7.5])), seed=draw(st.integers(0, 9999)), re=re,
        im=draw(st.sampled_from([[0.0, 3.0], [0.0, 0.0], [-0.3, 0.3]])) if gain else draw(st.sampled_from([[0.0, 3.0], [0.0, 0.5]])),
        noise=draw(st.sampled_from([0.0, 0.0, 0.01])) if noise else 0.0, avoid=True if re[0] < 0 < re[1] else draw(st.booleans()), width=draw(st.integers(2, 8)), depth=draw(st.integers(0, 5)), omega=draw(st.sampled_from([1.0, 0.2, 3.0])))


def train_cfg(v):
    cfg = base_cfg(solver=v["solver"], type=v["type"], model_type=v["model"], Nx=v["Nx"], Ny=v["Ny"], N_layers=v["NL"], PER_LAYER_THICKNESS=list(v["thickness"]), eps_oversampling=v["over"],
                   L=v["L"], absorption_loss=v["absorption"], learning_rate=v["lr"], iterations=v["iterations"], seed=v["seed"], n_neurons=v["width"], hidden_layers=v["depth"], siren_omega=v["omega"],
                   real_min_eps=v["re"][0], real_max_eps=v["re"][1], imag_min_eps=v["im"][0], imag_max_eps=v["im"][1], avoid_zero_eps=v["avoid"], TRCWA_NG=5, name="verif")
    freq_cfg(cfg, v["range"][0], v["range"][1], v["n"], v["dist"])
    del cfg["target_frequencies"]
    cfg.target_reflectance_spectrum = list(v["tR"])
    cfg.target_transmittance_spectrum = list(v["tT"])
    cfg.use_regularization_loss = v["reg"] is not None
    if v["reg"] is not None:
        cfg.reg_loss_weight = v["reg"]
    if v["noise"]:
        cfg.add_noise, cfg.noise_scale = True, v["noise"]
    if v["solver"] == "FDTD":
        lo = v["range"][0]
        s = max(10.0 / lo, 10)
        cfg.FDTD_min_gridpoints_per_unit_magnitude = 10
        cfg.FDTD_pml_thickness = 5.3 / s
        cfg.FDTD_free_space_distance = 4.1 / s
        cfg.FDTD_source_position = [5.5 / s, 1.5 / s]
        cfg.FDTD_gridpoints_from_material_to_detector = 2
        cfg.PER_LAYER_THICKNESS = [3.05 / s] * len(cfg.PER_LAYER_THICKNESS)
        cfg.FDTD_niter = 60
    return cfg


def fresh_model(cfg, v):
    """A model as training would build it, from its own seed."""
    from nidn.training.model.init_network import init_network

    work = base_cfg()
    for k, x in cfg.items():
        work[k] = x
    if v["type"] == "classification":
        work.out_features = 10
    else:
        work.out_features = 2
    torch.manual_seed(v["seed"] + 17)
    model = init_network(work)
    if v["model"] == "voxel":
        return model
    # (deterministic) biases: keep, they are random as well
    return model


def run(v, faults=None):
    """Trains a recorded model; returns (cfg after training, recorder, initial cfg settings)."""
    cfg = train_cfg(v)
    rec_model = Recorder(fresh_model(cfg, v), faults)
    cfg.model = rec_model
    with quiet():
        out = nidn.run_training(cfg)
    return out, rec_model


def evaluate(out, model, state, rng, v, grad=False):
    """Loss, L1, renormalised flag (and parameter gradients) of the recorded parameters."""
    model.recording = False
    model.load_state_dict(state)
    torch.set_rng_state(rng)
    with torch.enable_grad() if grad else torch.no_grad():
        eps, ids = nidn.model_to_eps_grid(model, out)
        R, T = nidn.compute_spectrum(eps, out, validate_cfg=False)
        Rn, Tn = to_np(R), to_np(T)
        loss, flag = ref_loss(Rn, Tn, v["tR"], v["tT"], v["L"], v["absorption"])
        l1, _ = ref_loss(Rn, Tn, v["tR"], v["tT"], 1.0, False)
        reg = 0.0
        if v["type"] == "classification" and v["reg"] is not None:
            reg_t = ref_reg(ids, v["L"])
            reg = v["reg"] * float(reg_t.detach())
        g = None
        if grad:
            lt = ref_loss_t(R, T, v["tR"], v["tT"], v["L"], v["absorption"])
            if v["type"] == "classification" and v["reg"] is not None:
                lt = lt + v["reg"] * reg_t
            ps = dict(model.named_parameters())
            gs = torch.autograd.grad(lt, list(ps.values()), allow_unused=True)
            g = {k: (torch.zeros_like(p) if x is None else x).detach() for (k, p), x in zip(ps.items(), gs)}
    model.recording = True
    margin = min([abs(r + t - 1.0) for r, t in zip(Rn, Tn)])
    return dict(loss=loss + reg, l1=l1, flag=flag, grad=g, margin=margin, spectrum=loss)


class Adam:
    """Independent Adam (real and complex parameters, element-wise on real views)."""

    def __init__(self, lr):
        self.lr = lr
        self.reset()

    def reset(self):
        self.m, self.v, self.t = {}, {}, 0

    def step(self, params, grads):
        """{name: (new value, gradient)} as real tensors."""
        self.t += 1
        out = {}
        for k, p in params.items():
            pr, gr = real_view(p), real_view(grads[k])
            self.m[k] = 0.9 * self.m.get(k, torch.zeros_like(gr)) + 0.1 * gr
            self.v[k] = 0.999 * self.v.get(k, torch.zeros_like(gr)) + 0.001 * gr * gr
            mh = self.m[k] / (1 - 0.9 ** self.t)
            vh = self.v[k] / (1 - 0.999 ** self.t)
            out[k] = (pr - self.lr * mh / (vh.sqrt() + 1e-8), gr)
        return out


def real_view(p):
    return (torch.view_as_real(p) if p.is_complex() else p).double()


def finite(state):
    return all(bool(torch.isfinite(real_view(p)).all()) for p in state.values())


def equal(s, t):
    return all(torch.equal(s[n], t[n]) for n in s)


def compare_step(step, before, after, v, k):
    for n, (q, g) in step.items():
        if not torch.isfinite(q).all():
            continue  # infinite slopes of fractional exponents
        a, b = real_view(after[n]), real_view(before[n])
        # directions are rounding noise where the gradient is
        weak = (g.abs() < 1e-6 * g.abs().max()) | (g.abs() < 1e-7)
        single = before[n].dtype in (torch.complex64, torch.float32)
        tol = 2e-3 * v["lr"] + (1e-5 * b.abs() if single else 1e-9)
        bad = ((a - q).abs() > tol) & ~weak
        if bool(bad.any()):
            i = tuple(torch.nonzero(bad)[0].tolist())
            raise Violation(f"iteration {k}: parameter {n}{list(i)} went from {float(b[i])} to {float(a[i])}; the optimiser step on the loss gradient {float(g[i])} gives {float(q[i])}")


def judge(v, out, model, rec, faults=None, steps=True):
    """Judges a recorded run against the statements on logs, updates, recovery and the returned model."""
    faults = faults or {}
    final = {n: p.detach().clone() for n, p in model.state_dict().items()}
    require(out.model is model, "training returned another model object")
    require(finite(final), "the returned parameters are not finite")
    stored = out.best_model_state_dict
    require(set(stored.keys()) == set(final.keys()) and equal(final, stored), "the stored best state differs from the returned model")
    res = out.results
    L1, LL, WA = list(res.L1_errs), list(res.loss_log), list(res.weighted_average_log)
    require(len(L1) == len(LL) == len(WA), "logs of lengths {} {} {}", len(LL), len(L1), len(WA))
    S, N = list(model.states), v["iterations"]
    require(len(S) == N, "{} model evaluations in {} iterations", len(S), N)
    tol = 2e-5 if v["L"] >= 1 else 2e-3
    adam = Adam(v["lr"])
    best = [S[0]]  # admissible best states so far
    best_loss = float("inf")
    log, failures, best_at = 0, 0, None
    for k in range(N):
        failed = faults.get(k) in ("all", "one") or not finite(S[k])
        if failed:
            failures += 1
            adam.lr *= 0.5
            adam.reset()
            if k + 1 < N:
                require(any(equal(S[k + 1], b) for b in best), "after the failing iteration {} training does not continue from the best parameters", k)
            continue
        ev = evaluate(out, model, S[k], model.rngs[k], v, grad=True)
        require(log < len(LL), "the successful iteration {} was not logged (loss log {})", k, LL)
        require(abs(LL[log] - ev["loss"]) <= tol * (1 + ev["loss"]), "iteration {}: logged loss {} instead of {}", k, LL[log], ev["loss"])
        require(abs(L1[log] - ev["l1"]) <= 2e-5, "iteration {}: logged mean absolute error {} instead of {}", k, L1[log], ev["l1"])
        want = float(np.mean(LL[max(0, log - 19):log + 1]))
        require(abs(WA[log] - want) <= 1e-9 * (1 + abs(want)), "iteration {}: logged average {} instead of {}", k, WA[log], want)
        if LL[log] < best_loss:
            if ev["margin"] < 1e-9:  # reflectance + transmittance of one within rounding: renormalised or not
                best = best + [S[k]]
                if ev["flag"] is False:
                    best_loss = LL[log]
            elif not ev["flag"]:
                best, best_loss, best_at = [S[k]], LL[log], k
        log += 1
        step = adam.step({n: S[k][n] for n in ev["grad"]}, ev["grad"])
        if faults.get(k) == "grad":
            if k + 1 < N:
                require(not finite(S[k + 1]), "the injected gradient fault at iteration {} did not reach the parameters", k)
        elif k + 1 < N and steps:
            compare_step(step, S[k], S[k + 1], v, k)
    require(len(LL) == log, "{} logged losses for {} successful iterations", len(LL), log)
    require(any(equal(final, b) for b in best), "the returned model is not the best one of the run (losses {})", LL)
    model.load_state_dict(final)
    rec.label(v["type"], v["model"], v["solver"], "none trusted" if best_at is None else "best first" if best_at == 0 else "best later")
    if failures:
        rec.label("recovered")
    return best_at, failures
