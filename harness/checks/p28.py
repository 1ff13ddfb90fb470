"""The batch script."""
import os
import pickle
import runpy
import sys

import numpy as np
import toml
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import REPO, Suite
from checks import plot_common as pc
from checks import train_common as tc

SUITE = Suite(
    "P28",
    "Random folders with 0 to 3 configuration files (random training configurations of all model types with distinct run names, arbitrary file names) plus files that are not configurations, "
    "run by the real script in a scratch directory; every figure is taken apart as it is saved. Non-trivial: at least two configurations, or one and a file to ignore.",
    ["Configurations of one folder have distinct run names without path separators.", "Pickle files written by the script itself are read back."],
)

PLOTS = ["spectra_comparison.png", "losses.png", "model_grid.png", "model_grid_per_freq.png", "material_grid.png"]
name = st.sampled_from(["alpha", "beta", "a b", "v1.2", "größe", "gamma_run", "v1.3"])
spec = st.fixed_dictionaries(dict(
    runs=st.lists(st.tuples(tc.train_specs(max_iter=3, noise=False), name, st.sampled_from(["a", "z", "m", "0", "x y", "cfg"])).map(list), min_size=0, max_size=3, unique_by=(lambda t: t[1], lambda t: t[2])),
    other=st.lists(st.sampled_from(["readme.md", "toml", "a.toml.bak", "b.tom", "sub/c.toml", "toml.txt"]), max_size=2, unique=True), form=st.sampled_from(["relative", "absolute"])))


def plain(x):
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x.item() if isinstance(x, np.generic) else x


def run_script(folder):
    script = os.path.join(REPO, "nidn", "scripts", "run_cfgs.py")
    if not os.path.isfile(script):
        raise Unavailable("nidn/scripts/run_cfgs.py")
    from loguru import logger

    argv, path = list(sys.argv), list(sys.path)
    sys.argv = [script, folder]
    try:
        with pc.shots() as got:
            runpy.run_path(script, run_name="__main__")
    finally:
        sys.argv, sys.path[:] = argv, path
        logger.remove()
    return got


def tree(top):
    return sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)


@SUITE.case("batch", spec, quick=64, shards=16, rule="runs, files and plots of every configuration against training it alone")
def batch_case(v, rec):
    alone = {}
    for t, n, f in v["runs"]:
        cfg = tc.train_cfg(t)
        cfg.name = n
        if f in ("a", "0", "cfg", "f0"):
            cfg["thicknesses"] = [0.25]  # allowed and unused: belongs to this file alone
        with quiet():
            out = nidn.run_training(cfg)
        alone[n] = out
    with scratch() as top:
        os.mkdir("cfgs")
        for t, n, f in v["runs"]:
            cfg = tc.train_cfg(t)
            cfg.name = n
            if f in ("a", "0", "cfg", "f0"):
                cfg["thicknesses"] = [0.25]  # allowed and unused: belongs to this file alone
            with open(os.path.join("cfgs", f + ".toml"), "w") as h:
                toml.dump(plain(cfg.toDict()), h)
        for o in v["other"]:
            p = os.path.join("cfgs", o)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h:
                h.write("this is = not [a configuration\n")
        before = tree(top)
        content = {p: open(os.path.join(top, p), "rb").read() for p in before}
        torch.manual_seed(1234)
        shots = run_script("cfgs" if v["form"] == "relative" else os.path.abspath("cfgs"))
        after = tree(top)
        for p in before:
            require(p in after and open(os.path.join(top, p), "rb").read() == content[p], "the script changed {}", p)
        new = [p for p in after if p not in before]
        require(all(p.startswith("results" + os.sep) for p in new), "files outside the results folder: {}", new)
        runs = [p for p in new if p.endswith("_run.pk")]
        require(len(runs) == len(v["runs"]), "{} run files for {} configurations: {}", len(runs), len(v["runs"]), new)
        folders = {}
        for p in runs:
            with open(os.path.join(top, p), "rb") as h:
                saved = pickle.load(h)
            n = saved.name
            require(n in alone and n not in folders, "run file {} of run {}", p, n)
            require(os.path.basename(p).startswith(n), "run {} is stored in {}", n, p)
            folders[n] = os.path.dirname(p)
            ref = alone[n]
            require(set(saved.keys()) == set(ref.keys()), "run {} was saved with other settings than its own: {}", n, sorted(set(saved.keys()) ^ set(ref.keys())))
            for log in ("loss_log", "L1_errs", "weighted_average_log"):
                require(list(saved.results[log]) == list(ref.results[log]), "run {}: {} {} instead of {} when trained alone", n, log, list(saved.results[log])[:4], list(ref.results[log])[:4])
            for (k, a), b in zip(saved.model.state_dict().items(), ref.model.state_dict().values()):
                require(torch.equal(a, b), "run {}: parameter {} differs from training alone", n, k)
        require(len(set(folders.values())) == len(folders), "runs share the folder of another: {}", folders)
        for n, d in folders.items():
            there = [os.path.relpath(p, d) for p in new if os.path.dirname(p) == d]
            miss = [p for p in PLOTS if p not in there]
            require(not miss, "run {}: plots {} are missing", n, miss)
            require(any(p.startswith("eps_per_points") for p in there), "run {}: the plot of permittivities per point is missing", n)
            ref = alone[n]
            mine = {os.path.basename(s.path): s for s in shots if os.path.relpath(os.path.dirname(s.path), top) == d}
            with quiet(), torch.no_grad():
                eps, _ = nidn.model_to_eps_grid(ref.model, ref)
                R, T = spectrum(eps, ref, validate_cfg=False)
            ax = mine["model_grid.png"].with_scatter()[0]
            pc.check_grid(ax, np.abs(eps.detach().numpy().mean(-1)), f"run {n}, permittivity", tol=1e-5)
            ls = mine["losses.png"].with_lines()[0]["lines"]
            require(any(pc.same(l[:, 1], ref.results.loss_log) for l in ls), "run {}: the losses plot does not show its losses", n)
            for word, ys in (("Reflectance", R), ("Transmittance", T)):
                axs = [a for a in mine["spectra_comparison.png"].with_lines() if word in a["ylabel"]]
                require(len(axs) == 1 and any(pc.same(l[:, 1], ys, 1e-5) for l in axs[0]["lines"]), "run {}: the spectra plot does not show its {}", n, word)
        extra = [p for p in new if p not in runs and os.path.dirname(p) not in folders.values()]
        require(not extra, "files {} belong to no run", extra)
    rec.interesting(len(v["runs"]) > 1 or (len(v["runs"]) == 1 and len(v["other"]) > 0))
    rec.label(f"{len(v['runs'])} configurations")


CHANGES = dict(
    lr=lambda v: dict(v, lr=v["lr"] / 2), targets=lambda v: dict(v, tR=[round(1 - x, 3) for x in v["tR"]], tT=[round(x / 2, 3) for x in v["tT"]]), seed=lambda v: dict(v, seed=v["seed"] + 1),
    thickness=lambda v: dict(v, thickness=[round(x + 0.1, 3) for x in v["thickness"]]), iterations=lambda v: dict(v, iterations=v["iterations"] + 1), L=lambda v: dict(v, L=v["L"] + 0.5), same=lambda v: v)


@st.composite
def variants(draw):
    v = draw(tc.train_specs(max_iter=3, noise=False))
    names = draw(st.lists(name, min_size=2, max_size=3, unique=True))
    runs = []
    for k, n in enumerate(names):
        runs.append([v, n, f"f{k}"])
        v = CHANGES[draw(st.sampled_from(sorted(CHANGES)))](v)
    return dict(runs=runs, other=[], form="relative")


@SUITE.case("variants", variants(), quick=40, shards=16, rule="as 'batch' for configurations that differ only slightly")
def variants_case(v, rec):
    batch_case(v, rec)


@SUITE.case("usage", st.just(0), quick=1, shards=1, rule="without a folder the script stops with an error status")
def usage_case(v, rec):
    script = os.path.join(REPO, "nidn", "scripts", "run_cfgs.py")
    if not os.path.isfile(script):
        raise Unavailable("nidn/scripts/run_cfgs.py")
    from loguru import logger

    argv, path = list(sys.argv), list(sys.path)
    sys.argv = [script]
    try:
        with scratch() as top, quiet():
            try:
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                require(e.code not in (0, None), "exit status {}", e.code)
            else:
                raise Violation("the script ran without a folder")
            require(tree(top) == [], "files were written")
    finally:
        sys.argv, sys.path[:] = argv, path
        logger.remove()
    rec.interesting()
