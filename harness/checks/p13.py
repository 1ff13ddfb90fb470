"""Extraction of reflectance and transmittance from detector signals."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from oracles import coef_ref

from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import (
    calculate_transmission_reflection_coefficients as extract,
)

SUITE = Suite(
    "P13",
    "Random detector signals (delayed, enveloped sinusoids with transients, beats and noise; short and long; pure sinusoids of known ratio) for random wavelengths and "
    "resolutions. Non-trivial: reflected and transmitted signals are not identically zero.",
    ["Signals whose transient cut or peak list is decided by differences at rounding level are compared only by the metamorphic relations.",
     "A coefficient sum between 1 and 1.05 is normalised to one.", "The averaging window (three wavelengths at the minimum resolution) spans at least one sample."],
)

sig = st.fixed_dictionaries(dict(
    amp=st.sampled_from([1.0, 0.3, 2.0, 0.05]), delay=st.integers(0, 60), ramp=st.sampled_from([0, 10, 60, 200]), over=st.sampled_from([0.0, 0.3, 1.0]), tau=st.sampled_from([20.0, 80.0]),
    phase=st.floats(0, 6.28), noise=st.sampled_from([0.0, 0.0, 0.01, 0.1]), seed=st.integers(0, 9999)))
signals = st.fixed_dictionaries(dict(
    n=st.integers(30, 700), period=st.floats(8.0, 60.0), t0=sig, t1=sig, r0=sig, r1=sig, wl=st.floats(0.3, 3.0), minpts=st.integers(5, 20)))


wide_sig = st.tuples(sig, st.floats(-6, 3), st.integers(0, 800), st.sampled_from([0, 5, 100, 1000]), st.floats(5, 500), st.sampled_from([0.0, 1e-4, 0.03, 0.5])).map(
    lambda t: dict(t[0], amp=10 ** t[1], delay=t[2], ramp=t[3], tau=t[4], noise=t[5]))
wide_signals = st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(3, 4000), st.integers(900, 4000), st.integers(900, 4000)), period=st.floats(2.5, 400.0), t0=wide_sig, t1=wide_sig, r0=wide_sig, r1=wide_sig, wl=st.floats(0.05, 12.0), minpts=st.integers(1, 80))).filter(
    lambda v: 3 * v["minpts"] * v["wl"] > 1)


def make(s, n, period):
    k = np.arange(n, dtype=float)
    x = k - s["delay"]
    env = np.where(x < 0, 0.0, 1.0 if s["ramp"] == 0 else np.clip(x / max(s["ramp"], 1), 0, 1))
    env = env * (1 + s["over"] * np.exp(-np.clip(x, 0, None) / s["tau"]))
    out = s["amp"] * env * np.sin(2 * math.pi * x / period + s["phase"])
    if s["noise"]:
        out = out + (x >= 0) * s["noise"] * s["amp"] * np.random.default_rng(s["seed"]).standard_normal(n)
    return out


def parts(v):
    n, p = v["n"], v["period"]
    t0, t1, r0, r1 = (make(v[k], n, p) for k in ("t0", "t1", "r0", "r1"))
    return [t0, t1], [r0, r0 + r1]


def cfg_for(minpts):
    cfg = nidn.load_default_cfg()
    cfg.FDTD_min_gridpoints_per_unit_magnitude = minpts
    return cfg


def call(trans, refl, wl, cfg, container=list):
    T, R = extract(container(torch.tensor(x) for x in trans), container(torch.tensor(x) for x in refl), wl * 1e-6, cfg)
    return float(T), float(R)


def zero(x):
    return float(np.mean(x ** 2)) <= 1.0001e-15


@SUITE.case("reference", signals, quick=1600, shards=16, rule="coefficients equal the independent computation; inputs untouched; scaling changes nothing")
def reference_case(v, rec):
    trans, refl = parts(v)
    cfg = cfg_for(v["minpts"])
    if zero(trans[0]) or zero(refl[0]):
        try:
            call(trans, refl, v["wl"], cfg)
        except ValueError:
            rec.label("refused zero")
            return
        if float(np.mean(trans[0] ** 2)) < 0.99e-15 or float(np.mean(refl[0] ** 2)) < 0.99e-15:
            raise Violation("an all-zero free-space signal was accepted")
        return
    tt, rr = [torch.tensor(x) for x in trans], [torch.tensor(x) for x in refl]
    T, R = (float(x) for x in extract(tt, rr, v["wl"] * 1e-6, cfg))
    for a, b in zip(tt + rr, trans + refl):
        require(torch.equal(a, torch.tensor(b)), "a signal of the caller was modified")
    try:
        want = coef_ref.coefficients(trans, refl, v["wl"], v["minpts"])
    except coef_ref.Tie:
        rec.label("tie")
        want = None
    if want is not None:
        require(abs(T - want[0]) <= 1e-6 * max(1, want[0]) and abs(R - want[1]) <= 1e-6 * max(1, want[1]), "T, R = {}, {} instead of {}, {}", T, R, *want)
        rec.interesting(T > 1e-6 and R > 1e-6)
        rec.label("sum>1.05" if T + R > 1.05 else "sum<=1")
        k = 4.0  # exact in binary arithmetic
        near = any(np.any((np.abs(x) * c > 0.2e-8) & (np.abs(x) * c < 5e-8)) for x in trans + refl + [refl[1] - refl[0]] for c in (1.0, 4.0))
        if not near:
            T4, R4 = call([x * k for x in trans], [x * k for x in refl], v["wl"], cfg, tuple)
            require(abs(T4 - T) <= 1e-9 * max(1, T) and abs(R4 - R) <= 1e-9 * max(1, R), "scaling all signals by {}: {} {} -> {} {}", k, T, R, T4, R4)


@SUITE.case("wide", wide_signals, quick=800, shards=16, rule="as 'reference' for up to 4000 samples, amplitudes over six decades, any period, wavelength and resolution")
def wide_case(v, rec):
    reference_case(v, rec)


pure = st.fixed_dictionaries(dict(t=st.floats(0.02, 1.3), r=st.floats(0.02, 1.3), sign=st.sampled_from([1, -1]), period=st.floats(12.0, 40.0), cycles=st.integers(8, 20), win=st.floats(3.2, 5.0),
                                  minpts=st.integers(5, 15), shift=st.floats(0, 6.28), amp=st.sampled_from([1.0, 0.01, 7.0])))


@SUITE.case("sinusoids", pure, quick=1000, shards=8, rule="sinusoids of amplitude ratios t and r give t squared and r squared (normalised when slightly above one)")
def sinusoid_case(v, rec):
    n = int(v["period"] * v["cycles"])
    k = np.arange(n)
    base = v["amp"] * np.sin(2 * math.pi * k / v["period"])
    moved = v["amp"] * np.sin(2 * math.pi * k / v["period"] + v["shift"])
    trans = [base, v["t"] * moved]
    refl = [base, base + v["sign"] * v["r"] * moved]
    # the window for transients spans a few periods, as it does in simulations
    T, R = call(trans, refl, v["win"] * v["period"] / (3 * v["minpts"]), cfg_for(v["minpts"]))
    wT, wR = v["t"] ** 2, v["r"] ** 2
    s = wT + wR
    # steady parts may cover differently sampled whole periods: a few per cent
    tol = 0.03 + 1.2 / v["period"]
    if s > 1 and s < 1.05:
        require(T + R <= 1.05 * (1 + tol), "sum {} for ideal sum {}", T + R, s)
        rec.label("normalisation band")
    elif s <= 1 or s > 1.05 * (1 + tol):
        ok = abs(T - wT) <= tol * wT + 1e-9 and abs(R - wR) <= tol * wR + 1e-9
        if not ok and s > 0.9:  # sampling can lift the sum above one, where it is normalised
            ok = abs(T + R - 1) < 1e-9 and abs(T - wT) <= 2 * tol * wT and abs(R - wR) <= 2 * tol * wR
        require(ok, "T, R = {}, {} for amplitude ratios squared {}, {}", T, R, wT, wR)
    rec.interesting()


band = st.fixed_dictionaries(dict(s=st.one_of(st.floats(0.995, 1.055), st.sampled_from([1.0001, 1.009, 1.0101, 1.03, 1.049, 1.051, 0.999])), share=st.floats(0.05, 0.95), period=st.integers(8, 30), cycles=st.integers(4, 9), minpts=st.integers(40, 60)))


@SUITE.case("normalisation", band, quick=800, shards=8, rule="identical sinusoids: the sum is exact, so the normalisation band can be judged exactly")
def band_case(v, rec):
    n = v["period"] * v["cycles"] + 3
    base = np.sin(2 * math.pi * (np.arange(n) + 0.3) / v["period"])
    # a window longer than the signal: no transient removal, powers are exact multiples
    trans = [base, math.sqrt(v["s"] * v["share"]) * base]
    refl = [base, base * (1 + math.sqrt(v["s"] * (1 - v["share"])))]
    T, R = call(trans, refl, 3.0, cfg_for(v["minpts"]))
    s = v["s"]
    if abs(s - 1) < 1e-6 or abs(s - 1.05) < 1e-6:
        return
    wT, wR = s * v["share"], s * (1 - v["share"])
    if 1 < s < 1.05:
        wT, wR = v["share"], 1 - v["share"]
        rec.label("normalised")
    else:
        rec.label("kept")
    require(abs(T - wT) < 1e-6 and abs(R - wR) < 1e-6, "T, R = {}, {} instead of {}, {} for a sum of {}", T, R, wT, wR, s)
    rec.interesting()


@SUITE.case("zero", st.tuples(st.sampled_from(["t", "r", "both", "tiny t", "material"]), st.integers(20, 300), st.floats(8, 30)).map(list), quick=100, shards=4,
            rule="an all-zero free-space signal is refused, a zero material signal is not")
def zero_case(w, rec):
    kind, n, period = w
    s = np.sin(2 * math.pi * np.arange(n) / period)
    z = np.zeros(n)
    cfg = cfg_for(10)
    trans = {"t": [z, s], "r": [s, s], "both": [z, s], "tiny t": [1e-9 * s, s], "material": [s, z]}[kind]
    refl = {"t": [s, s * 1.5], "r": [z, s], "both": [z, s], "tiny t": [s, s * 1.5], "material": [s, s]}[kind]
    if kind == "material":
        T, R = call(trans, refl, 1.0, cfg)
        require(abs(T) < 1e-12 and abs(R) < 1e-12, "T, R = {}, {} for silent material signals", T, R)
    else:
        try:
            call(trans, refl, 1.0, cfg)
        except ValueError:
            pass
        else:
            raise Violation(f"all-zero free-space signal ({kind}) was accepted")
    rec.interesting()
    rec.label(kind)
