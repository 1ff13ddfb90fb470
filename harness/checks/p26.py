"""Plots show the data they claim to show."""
import os
import re

import numpy as np
import torch
from dotmap import DotMap
from hypothesis import strategies as st
from torch import nn

from common import *  # noqa: F403
from core import Suite
from checks import material_ref as mr
from checks import model_common as mc
from checks import plot_common as pc

SUITE = Suite(
    "P26",
    "Random runs (grids of 1 to 5 by 1 to 5 points, 1 to 4 layers, 1 to 7 frequencies, linear or logarithmic, random permittivities held by a voxel model or computed by a coordinate network, "
    "oversampling, classification), random spectra, logs, frequency selections, material selections, folders and file names; every figure is taken apart at the moment it is saved. "
    "Non-trivial: more than one grid point and frequency (for spectra and logs: more than one value).",
    ["Plot colours, sizes and ornaments are free; data, positions, axis order, value ranges of axes and colour scales, labels of layers and materials, names and target files are compared."],
)

FILES = dict(spectra="spectra_comparison.png", spectrum="spectrum.png", losses="losses.png", grid="model_grid.png", per_freq="model_grid_per_freq.png", material="material_grid.png", eps="eps_grid.png")

common_run = dict(Nx=st.integers(1, 4), Ny=st.integers(1, 4), NL=st.integers(1, 4), n=st.integers(1, 7), range=wl_range, dist=st.sampled_from(["linear", "log"]),
                  kind=st.sampled_from(["voxel", "voxel", "wave", "classes"]), over=st.sampled_from([1, 1, 2]), seed=st.integers(0, 99999), folder=st.sampled_from(["out", "out/", "deep/er/out", "with space", "größe.v1"]))


class Fixed(nn.Module):
    def __init__(self, eps):
        super().__init__()
        self.p = nn.Parameter(torch.tensor(eps))

    def forward(self):
        return self.p


def make_run(v):
    """(cfg with model, permittivity grid as a plain array)."""
    g = np.random.default_rng(v["seed"])
    o = v["over"] if v["kind"] != "voxel" else 1
    Nx, Ny, NL, n = v["Nx"] * o, v["Ny"] * o, v["NL"], v["n"]
    cfg = base_cfg(Nx=Nx, Ny=Ny, N_layers=NL, PER_LAYER_THICKNESS=[round(0.2 + 0.1 * k, 3) for k in range(NL)], eps_oversampling=o, avoid_zero_eps=False, add_noise=False, real_min_eps=-25.0, real_max_eps=25.0,
                   imag_min_eps=0.0, imag_max_eps=7.0, name="verif", TRCWA_NG=5)
    freq_cfg(cfg, v["range"][0], v["range"][1], n, v["dist"])
    freqs = ref_frequencies(v["range"][0], v["range"][1], n, v["dist"])
    cfg.target_reflectance_spectrum = list(np.round(g.uniform(0, 1, n), 3))
    cfg.target_transmittance_spectrum = list(np.round(g.uniform(0, 1, n), 3))
    if v["kind"] == "voxel":
        eps = g.uniform(-20, 20, (Nx, Ny, NL, n)) + 1j * g.uniform(0.1, 6, (Nx, Ny, NL, n))
        cfg.type, cfg.model_type = "regression", "voxel"
        cfg.model = Fixed(eps)
        return cfg, eps, freqs
    cfg.model_type = "siren"
    classes = v["kind"] == "classes"
    cfg.type = "classification" if classes else "regression"
    if classes:
        cfg.material_collection = nidn.MaterialCollection(cfg.target_frequencies)
        cfg.N_materials = cfg.material_collection.N_materials
    cfg.out_features = cfg.material_collection.N_materials if classes else 2
    cfg.model = mc.Wave(v["seed"], cfg.out_features)
    with quiet(), torch.no_grad():
        eps, _ = nidn.model_to_eps_grid(cfg.model, cfg)  # decided by P18 to P20
    return cfg, eps.numpy().copy(), freqs


def material_table(cfg, freqs, names):
    """Permittivities of the materials; where two table rows are equally near, the one the collection takes."""
    require(pc.same(cfg.target_frequencies, freqs, 1e-7), "frequencies {} instead of {}", cfg.target_frequencies, freqs)
    col = nidn.MaterialCollection(cfg.target_frequencies)
    for n in names:
        require(mr.matches(col[n].numpy(), n, np.asarray(cfg.target_frequencies)), "{} does not hold its own permittivity", n)
    return np.array([col[n].numpy() for n in names])


def settings(cfg):
    return {k: (x.clone() if torch.is_tensor(x) else np.array(x, copy=True) if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else x) for k, x in cfg.items()}


def unchanged(before, cfg, extra=()):
    for k, x in before.items():
        y = cfg[k]
        if isinstance(x, np.ndarray) or torch.is_tensor(x):
            require(np.array_equal(np.asarray(x), np.asarray(y)), "plotting changed {}", k)
        elif k != "model" and not callable(x):
            require(x == y or x is y, "plotting changed {} from {} to {}", k, x, y)
    require(set(cfg.keys()) - set(before) <= set(extra), "plotting added {}", set(cfg.keys()) - set(before))


def single(shots, folder, name):
    require(len(shots) == 1, "{} figures were saved", len(shots))
    want = [os.path.join(os.path.abspath(folder), n) for n in ([name] if isinstance(name, str) else name)]
    require(shots[0].path in want, "the plot was saved to {} instead of {}", shots[0].path, want[0])
    require(os.path.isfile(shots[0].path), "no file {}", shots[0].path)
    return shots[0]


def by_ylabel(shot, word):
    ax = [a for a in shot.with_lines() if word.lower() in a["ylabel"].lower()]
    require(len(ax) == 1, "{} panels labelled {}", len(ax), word)
    return ax[0]


def line_named(ax, word):
    """Index of the line whose legend entry contains the word (through its colour)."""
    hits = [i for i, t in enumerate(ax["legend"]) if word.lower() in t.lower()]
    require(len(hits) == 1, "legend {} has no single entry {}", ax["legend"], word)
    col = ax["handles"][hits[0]]
    lines = [k for k, c in enumerate(ax["colors"]) if c == col]
    require(len(lines) == 1, "{} lines in the colour of the legend entry {}", len(lines), word)
    return ax["lines"][lines[0]]


spectra_spec = st.fixed_dictionaries(dict(common_run, given=st.sampled_from(["both", "both", "none", "R", "T"]), form=st.sampled_from(["tensor", "array", "list"]), markers=st.booleans(), filename=st.sampled_from([None, None, "abc", "my plot", "run.v1.2", ".hidden"]), ylim=st.booleans()))


@SUITE.case("spectra", spectra_spec, quick=160, shards=16, rule="target and produced curves, wavelengths, panel and legend names, printed error, file")
def spectra_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg, eps, freqs = make_run(v)
        n = v["n"]
        g = np.random.default_rng(v["seed"] + 1)
        kw = {}
        given = v["given"] == "both"
        if given:
            R, T = g.uniform(0, 1, n), g.uniform(0, 1, n)
            wrap = dict(tensor=lambda a: torch.tensor(a), array=lambda a: a, list=lambda a: [float(x) for x in a])[v["form"]]
            kw = dict(prod_R_spectrum=wrap(R), prod_T_spectrum=wrap(T))
        else:
            with quiet(), torch.no_grad():
                R, T = spectrum(torch.tensor(eps), cfg)
            if v["given"] != "none":  # one without the other: both are computed (here they agree)
                kw = {f"prod_{v['given']}_spectrum": torch.tensor(np.array(R if v["given"] == "R" else T))}
        if v["filename"]:
            kw["filename"] = v["filename"]
        if v["ylim"]:
            a, b, c, d = (round(float(x), 2) for x in g.uniform(0.1, 1.5, 4))
            kw["ylim"] = [[-a, b], [-c, d]]
        before = settings(cfg)
        with pc.shots() as got:
            nidn.plot_spectra(cfg, save_path=v["folder"], markers=v["markers"], **kw)
        unchanged(before, cfg)
        shot = single(got, v["folder"], FILES["spectra"] if not v["filename"] else v["filename"] + ".png")
        wl = 1.0 / freqs
        require(len(shot.with_lines()) == 2, "{} panels", len(shot.with_lines()))
        tol = 1e-9 if given else 1e-6
        for word, prod, target in (("Reflectance", R, cfg.target_reflectance_spectrum), ("Transmittance", T, cfg.target_transmittance_spectrum)):
            ax = by_ylabel(shot, word)
            ends = kw["ylim"][word == "Transmittance"] if v["ylim"] else [0.0, 1.0]
            require(pc.same(ax["ylim"], ends), "{} is drawn over {} instead of {}", word, ax["ylim"], ends)
            require("Wavelength" in ax["xlabel"], "abscissa is labelled {}", ax["xlabel"])
            pc.visible(ax, word)
            for name, ys in (("Target", target), ("Produced", prod)):
                l = line_named(ax, f"{name} {word}")
                require(pc.same(l[:, 0], wl, 1e-6), "{} {} is drawn at {} instead of the wavelengths {}", name, word, l[:, 0], wl)
                require(pc.same(l[:, 1], ys, tol), "{} {} is drawn as {} instead of {}", name, word, l[:, 1], np.array(ys))
            err = float(np.mean(np.abs(np.array(prod) - np.array(target))))
            nums = [float(x) for t in ax["texts"] for x in re.findall(r"[-+]?\d+\.\d+(?:e[-+]?\d+)?", t)]
            require(len(nums) == 1 and abs(nums[0] - err) <= 5.1e-5, "{}: printed error {} instead of {}", word, nums, err)
        rec.interesting(n > 1)
        rec.label(v["kind"], "given " + v["given"])


spectrum_spec = st.fixed_dictionaries(dict(n=st.integers(1, 12), range=wl_range, dist=st.sampled_from(["linear", "log"]), seed=st.integers(0, 99999), form=st.sampled_from(["tensor", "array", "list"]), markers=st.booleans(),
                                           absorption=st.booleans(), known=st.booleans(), filename=st.sampled_from([None, None, "abc", "my plot", "run.v1.2", ".hidden"]), folder=st.sampled_from(["out", "out/", "deep/er/out", "a.b"])))


@SUITE.case("spectrum", spectrum_spec, quick=120, shards=8, rule="reflectance, transmittance and absorptance curves, wavelengths, file")
def spectrum_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg = base_cfg()
        freq_cfg(cfg, v["range"][0], v["range"][1], v["n"], v["dist"])
        freqs = ref_frequencies(v["range"][0], v["range"][1], v["n"], v["dist"])
        if not v["known"]:
            del cfg["target_frequencies"]
        g = np.random.default_rng(v["seed"])
        R, T = g.uniform(0, 1, v["n"]), g.uniform(0, 1, v["n"])
        wrap = dict(tensor=lambda a: torch.tensor(a), array=lambda a: a.copy(), list=lambda a: [float(x) for x in a])[v["form"]]
        before = settings(cfg)
        with pc.shots() as got:
            nidn.plot_spectrum(cfg, wrap(R), wrap(T), markers=v["markers"], save_path=v["folder"], filename=v["filename"], show_absorption=v["absorption"])
        unchanged(before, cfg, extra=["target_frequencies"])
        shot = single(got, v["folder"], FILES["spectrum"] if not v["filename"] else v["filename"] + ".png")
        want = dict(Reflectance=R, Transmittance=T)
        if v["absorption"]:
            want["Absorptance"] = 1 - R - T
        require(len(shot.with_lines()) == len(want), "{} panels", len(shot.with_lines()))
        for word, ys in want.items():
            ax = by_ylabel(shot, word)
            require(len(ax["lines"]) == 1, "{} lines", len(ax["lines"]))
            pc.visible(ax, word)
            l = ax["lines"][0]
            require(pc.same(l[:, 0], 1 / freqs, 1e-6), "{} is drawn at {} instead of the wavelengths {}", word, l[:, 0], 1 / freqs)
            require(pc.same(l[:, 1], ys), "{} is drawn as {} instead of {}", word, l[:, 1], ys)
        rec.interesting(v["n"] > 1)


@SUITE.case("losses", st.fixed_dictionaries(dict(m=st.one_of(st.integers(1, 60), st.integers(61, 6000)), seed=st.integers(0, 99999), folder=st.sampled_from(["out", "out/", "a b"]))), quick=80, shards=4, rule="the three logged series with their names, file")
def losses_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg = base_cfg()
        g = np.random.default_rng(v["seed"])
        logs = {k: [float(x) for x in g.uniform(1e-6, 2, v["m"])] for k in ("L1_errs", "loss_log", "weighted_average_log")}
        cfg.results = DotMap({k: list(x) for k, x in logs.items()})
        with pc.shots() as got:
            nidn.plot_losses(cfg, save_path=v["folder"])
        shot = single(got, v["folder"], FILES["losses"])
        require(len(shot.with_lines()) == 1, "{} panels", len(shot.with_lines()))
        ax = shot.with_lines()[0]
        require(len(ax["lines"]) == 3, "{} curves", len(ax["lines"]))
        names = dict(zip(ax["legend"], ax["handles"]))
        for key, legend in (("L1_errs", "L1"), ("loss_log", "Loss"), ("weighted_average_log", "Weighted Average Loss")):
            require(legend in names, "legend {} without {}", ax["legend"], legend)
            l = ax["lines"][[k for k, c in enumerate(ax["colors"]) if c == names[legend]][0]]
            require(pc.same(l[:, 1], logs[key]), "{} is drawn as {} instead of {}", legend, l[:, 1][:4], logs[key][:4])
            require(np.all(np.diff(l[:, 0]) > 0), "{} is not drawn in order", legend)
            require(list(cfg.results[key]) == logs[key], "plotting changed {}", key)
        rec.interesting(v["m"] > 1)


grid_spec = st.fixed_dictionaries(dict(common_run, which=st.sampled_from(["model", "eps", "freq", "freq", "freq"]), sel=st.one_of(st.none(), st.lists(st.integers(0, 6), min_size=1, max_size=6)), tensor=st.booleans()))


@SUITE.case("grids", grid_spec, quick=160, shards=16, rule="every grid value at its own position and layer; titles of the frequencies; file")
def grids_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg, eps, freqs = make_run(v)
        before = settings(cfg)
        if v["which"] == "model":
            with pc.shots() as got:
                nidn.plot_model_grid(cfg, save_path=v["folder"])
            shot = single(got, v["folder"], FILES["grid"])
            require(len(shot.with_scatter()) == 1, "{} panels", len(shot.with_scatter()))
            pc.check_grid(shot.with_scatter()[0], np.abs(eps.mean(-1)), "magnitude of the mean permittivity")
        elif v["which"] == "eps":
            with pc.shots() as got:
                nidn.plot_epsilon_grid(torch.tensor(eps), cfg, save_path=v["folder"])
            shot = single(got, v["folder"], FILES["eps"])
            require(len(shot.with_scatter()) == 1, "{} panels", len(shot.with_scatter()))
            pc.check_grid(shot.with_scatter()[0], np.sqrt((np.abs(eps) ** 2).sum(-1)), "norm of the permittivity")
        else:
            sel = None if v["sel"] is None else [k % v["n"] for k in v["sel"]]
            with pc.shots() as got:
                nidn.plot_model_grid_per_freq(cfg, **({} if sel is None else dict(freq_idx=list(sel))), save_path=v["folder"])
            shot = single(got, v["folder"], FILES["per_freq"])
            if sel is None:
                sel = list(range(min(4, v["n"])))
            axes = shot.with_scatter()
            require(len(axes) == 2 * len(sel), "{} panels for {} frequencies", len(axes), len(sel))
            for j, k in enumerate(sel):
                for part, ax, what in ((eps.real, axes[2 * j], "real"), (eps.imag, axes[2 * j + 1], "imaginary")):
                    pc.check_grid(ax, part[..., k], f"{what} part at frequency {k}")
                    wl = [float(x) for x in re.findall(r"\d+\.?\d*", ax["title"])]
                    require(len(wl) == 1 and abs(wl[0] - 1 / freqs[k]) <= 0.00501 + 1e-6 / freqs[k], "frequency {} is titled {}", k, ax["title"])
            bars = [a["ylabel"] for a in shot.colorbars() if a["ylabel"]]
            require(sum("Real" in b for b in bars) == len(sel) and sum("Imag" in b for b in bars) == len(sel), "colour bars {} for {} frequencies", bars, len(sel))
        unchanged(before, cfg)
        rec.interesting(eps[..., 0].size > 1 and v["n"] > 1)
        rec.label(v["which"], v["kind"])


material_spec = st.fixed_dictionaries(dict(common_run, source=st.sampled_from(["model", "materials", "near"]), error=st.booleans(), skip=st.one_of(st.none(), st.lists(st.sampled_from(mr.NAMES), max_size=7, unique=True))))


@SUITE.case("materials", material_spec, quick=160, shards=16, rule="the name of the closest material and its distance at every grid position; file")
def materials_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg, eps, freqs = make_run(v)
        skip = None if v["skip"] is None else list(v["skip"])
        kept = [n for n in mr.NAMES if n not in (skip or [])]
        table = material_table(cfg, freqs, kept)
        kw = {}
        if v["source"] != "model":
            g = np.random.default_rng(v["seed"] + 3)
            eps = table[g.integers(0, len(table), eps.shape[:3])]
            if v["source"] == "near":
                eps = eps + g.normal(0, 0.3, eps.shape) + 1j * g.normal(0, 0.3, eps.shape)
            kw["eps"] = torch.tensor(eps)
        before = settings(cfg)
        with pc.shots() as got:
            nidn.plot_material_grid(cfg, save_path=v["folder"], plot_error=v["error"], **kw, **({} if skip is None else dict(to_skip=skip)))
        unchanged(before, cfg)
        shot = single(got, v["folder"], FILES["material"])
        axes = shot.with_scatter()
        require(len(axes) == (2 if v["error"] else 1), "{} panels", len(axes))
        shape = eps.shape[:3]
        dist = np.abs(eps[..., None, :] - table).mean(-1)
        best = dist.min(-1)
        sc = axes[0]["scatter"][0]
        vals = pc.grid_values(sc, *shape, "materials")
        # the colour bar that names materials
        bars = [dict((round(p, 6), t) for p, t in a["yticks"]) for a in shot.colorbars()]
        bars = [b for b in bars if any(t in kept for t in b.values())]
        require(len(bars) == 1, "{} colour bars with material names", len(bars))
        names = bars[0]
        require(sorted(t for t in names.values() if t) == sorted(kept), "the colour bar names {} instead of {}", sorted(names.values()), sorted(kept))
        for i in np.ndindex(*shape):
            name = names.get(round(float(vals[i]), 6))
            require(name in kept, "the value {} at {} has no name on the colour bar", vals[i], i)
            d = dist[i][kept.index(name)]
            require(d <= best[i] + 1e-9 * (1 + best[i]), "at {} the plot names {} at distance {} although {} is at {}", i, name, d, kept[int(dist[i].argmin())], best[i])
        z = np.unique(np.round(sc["z"], 5))
        ticks = dict((round(p, 5), t) for p, t in axes[0]["zticks"])
        require([ticks.get(float(p)) for p in z] == [f"L{k + 1}" for k in range(len(z))], "layers labelled {}", ticks)
        if v["error"]:
            pc.check_grid(axes[1], best, "distance to the closest material")
        rec.interesting(len(np.unique(vals)) > 1)
        rec.label(v["source"], "error" if v["error"] else "materials")


points_spec = st.fixed_dictionaries(dict(common_run, stored=st.booleans(), compare=st.one_of(st.none(), st.sampled_from(mr.NAMES), st.lists(st.sampled_from(mr.NAMES), min_size=1, max_size=6, unique=True)), legend=st.booleans(), file_id=st.sampled_from([None, "", "_7", "x y"])))


@SUITE.case("points", points_spec, quick=120, shards=16, rule="one curve per grid point and layer and material, named, against wavelength; file")
def points_case(v, rec):
    with scratch():
        os.makedirs(v["folder"])
        cfg, eps, freqs = make_run(v)
        if v["stored"]:  # the stored grid is used instead of the model
            eps = eps[::-1, :, ::-1].copy() * 0.5 + 1
            cfg.eps = torch.tensor(eps)
        before = settings(cfg)
        with pc.shots() as got:
            nidn.plot_eps_per_point(cfg, compare_to_material=v["compare"], save_path=v["folder"], legend=v["legend"], file_id=v["file_id"])
        unchanged(before, cfg)
        fid = v["file_id"]
        shot = single(got, v["folder"], ["eps_per_points.png", "eps_per_pointsNone.png"] if fid is None else f"eps_per_points{fid}.png")
        if v["compare"] is None:  # the closest materials of all grid points
            table = material_table(cfg, freqs, mr.NAMES)
            dist = np.abs(eps[..., None, :] - table).mean(-1)
            mats = [mr.NAMES[k] for k in np.unique(dist.argmin(-1))]
        else:
            mats = [v["compare"]] if isinstance(v["compare"], str) else list(v["compare"])
        pts = list(np.ndindex(*eps.shape[:3]))
        for word, part in (("Real", np.real), ("Imaginary", np.imag)):
            ax = by_ylabel(shot, word)
            require(len(ax["lines"]) == len(pts) + len(mats), "{} curves for {} points and {} materials", len(ax["lines"]), len(pts), len(mats))
            for l in ax["lines"]:
                require(pc.same(l[:, 0], 1 / freqs, 1e-6), "curve drawn at {} instead of the wavelengths {}", l[:, 0], 1 / freqs)
            pc.visible(ax, word)
            left = [l[:, 1] for l in ax["lines"]]
            for i in pts:
                hit = [k for k, y in enumerate(left) if pc.same(y, part(eps[i]), 1e-6)]
                require(hit, "no curve for the {} part at {}", word, i)
                left.pop(hit[0])
            for m in mats:
                hit = [k for k, y in enumerate(left) if mr_part(y, m, freqs, part)]
                require(hit, "no curve for {}", m)
                y = np.concatenate([left[k] for k in hit])
                left.pop(hit[0])
                for t, at in ax["placed"]:  # the name is written at its own curve
                    require(t != m or np.abs(y - at).min() <= 1e-5 * (1 + np.abs(y).max()), "the name {} is written at {} although its curve is {}", m, at, y)
                require([t.strip() for t in ax["texts"]].count(m) == 1, "the curve of {} is not named: {}", m, ax["texts"])
            require(len(ax["texts"]) == len(mats), "names {} for the materials {}", ax["texts"], mats)
        if v["legend"]:
            leg = [a for a in shot.with_lines() if a["legend"]]
            require(len(leg) >= 1, "no legend")
            ax = leg[0]
            part = np.real if "Real" in ax["ylabel"] else np.imag
            require(len(ax["legend"]) == len(pts), "{} legend entries for {} points", len(ax["legend"]), len(pts))
            for k, t in enumerate(ax["legend"]):
                num = [int(x) for x in re.findall(r"\d+", t)]
                require(len(num) == 3, "legend entry {}", t)
                L, x, y = num
                require(pc.same(ax["lines"][k][:, 1], part(eps[x, y, L]), 1e-6), "the curve named {} shows another point", t)
        rec.interesting(len(pts) > 1 and v["n"] > 1)
        rec.label("stored" if v["stored"] else "model", f"{len(mats)} materials")


def mr_part(y, name, freqs, part):
    return len(y) == len(freqs) and all(any(abs(a - part(c)) <= 1e-6 * (1 + abs(c)) for c in cand) for a, cand in zip(y, mr.eps_table(name, freqs)))


@SUITE.case("all", st.fixed_dictionaries(dict(common_run, exists=st.booleans(), m=st.integers(1, 9))), quick=32, shards=16, rule="save_all_plots writes the complete set with real image files and the run's own data, and nothing else")
def all_case(v, rec):
    with scratch() as top:
        cfg, eps, freqs = make_run(v)
        cfg.results = DotMap({k: [float(x) for x in np.random.default_rng(v["seed"]).uniform(0.1, 1, v["m"])] for k in ("L1_errs", "loss_log", "weighted_average_log")})
        keep = None
        if v["exists"]:
            os.makedirs(v["folder"])
            keep = os.path.join(v["folder"], "notes.txt")
            with open(keep, "w") as f:
                f.write("mine")
        before = settings(cfg)
        with pc.shots(write=True) as got:
            nidn.save_all_plots(cfg, v["folder"])
        unchanged(before, cfg)
        made = sorted(os.path.relpath(os.path.join(d, f), v["folder"]) for d, _, fs in os.walk(top) for f in fs)
        made = [m for m in made if m != "notes.txt"]
        want = [FILES[k] for k in ("spectra", "losses", "grid", "per_freq", "material")]
        rest = [m for m in made if m not in want]
        require(all(w in made for w in want), "plots {} are missing", [w for w in want if w not in made])
        require(len(rest) == 1 and rest[0].startswith("eps_per_points") and rest[0].endswith(".png"), "unexpected files {}", rest)
        for m in made:
            with open(os.path.join(v["folder"], m), "rb") as f:
                require(f.read(8) == b"\x89PNG\r\n\x1a\n", "{} is no image", m)
        if keep:
            with open(keep) as f:
                require(f.read() == "mine", "another file in the folder was changed")
        by = {os.path.basename(s.path): s for s in got}
        pc.check_grid(by[FILES["grid"]].with_scatter()[0], np.abs(eps.mean(-1)), "magnitude of the mean permittivity")
        with quiet(), torch.no_grad():
            R, T = spectrum(torch.tensor(eps), cfg)
        for word, ys in (("Reflectance", R), ("Transmittance", T)):
            l = line_named(by_ylabel(by[FILES["spectra"]], word), f"Produced {word}")
            require(pc.same(l[:, 1], ys, 1e-6), "Produced {} is drawn as {} instead of {}", word, l[:, 1], ys)
        rec.interesting(eps[..., 0].size > 1)
