"""Histories of saving and loading runs."""
import copy
import os

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import train_common as tc

SUITE = Suite(
    "P25",
    "Random sequences of up to 8 operations (train, save to a folder, load any earlier file, change the configuration, logs or parameters of a run in place) over up to 3 runs with names that may "
    "be equal, contain spaces, dots or non-ASCII letters, and equal, different and nested folders, in a scratch directory. Non-trivial: two saves of equally named runs, or a load after a change.",
    ["Run names contain no path separators.", "All saves happen within a few seconds, so equal time stamps are common."],
)

name = st.one_of(st.sampled_from(["run", "run", "example_name", "a b", "v1.2", "größe", "x_run", "run_2"]), st.text(alphabet="abcXYZ019_- .", min_size=1, max_size=10).filter(lambda s: s.strip(" .") != ""))
folder = st.sampled_from(["", "", "a", "b", "a/b", "with space", "a/"])
op = st.one_of(
    st.tuples(st.just("save"), st.integers(0, 2), folder).map(list), st.tuples(st.just("save"), st.integers(0, 2), folder).map(list),
    st.tuples(st.just("load"), st.integers(0, 99)).map(list),
    st.tuples(st.just("change"), st.integers(0, 2), st.sampled_from(["setting", "list", "parameter", "log"])).map(list),
    st.tuples(st.just("train"), st.integers(0, 2)).map(list))
spec = st.fixed_dictionaries(dict(runs=st.lists(st.tuples(tc.train_specs(max_iter=2), name).map(list), min_size=1, max_size=3), ops=st.lists(op, min_size=2, max_size=8)))


def files(top):
    out = {}
    base = os.path.join(top, "results")
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, base)] = h.read()
    return out


def content(cfg):
    """A comparable deep copy of everything a run holds."""
    d = {}
    for k, val in cfg.items():
        if k == "model":
            d["model"] = {n: p.detach().clone() for n, p in val.state_dict().items()}
            d["model class"] = type(val).__name__
        elif k == "material_collection":
            d[k] = {n: val[n].clone() for n in val.material_names}
            d["collection frequencies"] = copy.deepcopy(val.target_frequencies)
            d["collection size"] = val.N_materials
        elif k == "best_model_state_dict":
            d[k] = {n: p.detach().clone() for n, p in val.items()}
        elif k == "results":
            d[k] = {n: list(x) for n, x in val.items()}
        else:
            d[k] = copy.deepcopy(val)
    if "model" in cfg:
        torch.manual_seed(0)
        eps, ids = nidn.model_to_eps_grid(cfg.model, cfg)
        d["eps"] = eps.detach().clone()
        d["ids"] = None if ids is None else ids.detach().clone()
    return d


def same(a, b):
    if type(a) is dict or type(b) is dict:
        return type(a) is type(b) and list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    return type(a) is type(b) and (a == b or (isinstance(a, float) and a != a and b != b))


def diff(a, b):
    keys = sorted(set(a) | set(b))
    return [k for k in keys if k not in a or k not in b or not same(a[k], b[k])]


@SUITE.case("history", spec, quick=240, shards=16, rule="every save makes one new file, every load gives back what was saved, nothing else changes")
def history_case(v, rec):
    with scratch() as top, quiet():
        runs = []
        for s, nm in v["runs"]:
            cfg = tc.train_cfg(s)
            cfg.name = nm
            nidn.run_training(cfg)
            runs.append(cfg)
        saved = {}  # path -> (bytes, content)
        names_used, changed, loaded_after = [], False, False
        for o in v["ops"]:
            if o[0] == "save":
                cfg = runs[o[1] % len(runs)]
                before = files(top)
                keep = content(cfg)
                nidn.save_run(cfg, o[2]) if o[2] or len(saved) % 2 else nidn.save_run(cfg)
                require(not diff(content(cfg), keep), "saving changed the run: {}", diff(content(cfg), keep))
                after = files(top)
                new = sorted(set(after) - set(before))
                require(len(new) == 1, "saving created {} files: {}", len(new), new)
                for p in before:
                    require(p in after and after[p] == before[p], "saving {} changed the earlier file {}", new[0], p)
                d, base = os.path.split(new[0])
                require(os.path.normpath(d or ".") == os.path.normpath(o[2] or "."), "run saved in folder {} instead of {}", d, o[2])
                require(cfg.name in base, "file {} does not carry the run name {}", base, cfg.name)
                names_used.append((o[2], cfg.name))
                saved[new[0]] = keep
            elif o[0] == "load":
                if not saved:
                    continue
                p = sorted(saved)[o[1] % len(saved)]
                run = nidn.load_run(os.path.join("..", "results", p))
                got = content(run)
                require(not diff(got, saved[p]), "loading {} differs in {}", p, diff(got, saved[p]))
                loaded_after |= changed
            elif o[0] == "train":
                nidn.run_training(runs[o[1] % len(runs)])
                changed = True
            else:
                cfg = runs[o[1] % len(runs)]
                changed = True
                if o[2] == "setting":
                    cfg.learning_rate = cfg.learning_rate * 0.5
                elif o[2] == "list":
                    cfg.target_reflectance_spectrum[0] = 0.25
                elif o[2] == "log":
                    cfg.results.loss_log.append(0.125)
                else:
                    with torch.no_grad():
                        for p in cfg.model.parameters():
                            p.add_(0.01)
        for p, keep in saved.items():
            got = content(nidn.load_run(os.path.join("..", "results", p)))
            require(not diff(got, keep), "in the end {} differs in {}", p, diff(got, keep))
        outside = set(os.listdir(top)) - {"work", "results"}
        require(not outside and not os.listdir("."), "files appeared outside the results folder: {} {}", outside, os.listdir("."))
    rec.interesting(len(names_used) != len(set(names_used)) or loaded_after)
    rec.label("same name twice" if len(names_used) != len(set(names_used)) else "distinct", "load after change" if loaded_after else "no load after change")


plain = st.fixed_dictionaries(dict(name=name, folder=folder, n=st.one_of(*[st.integers(1, 5)] * 3, st.integers(6, 120)), seed=st.integers(0, 999)))


@SUITE.case("settings only", plain, quick=200, shards=8, rule="untrained configurations survive a save and load, several times")
def plain_case(v, rec):
    with scratch() as top:
        made = []
        for k in range(v["n"]):
            cfg = nidn.load_default_cfg()
            cfg.name, cfg.seed = v["name"], v["seed"] + k
            nidn.save_run(cfg, v["folder"])
            made.append(cfg)
        fs = files(top)
        require(len(fs) == v["n"], "{} saves made {} files", v["n"], len(fs))
        seeds = []
        for p in fs:
            run = nidn.load_run(os.path.join(top, "results", p))
            match = [c for c in made if dict(c.toDict()) == dict(run.toDict())]
            require(len(match) == 1, "a loaded configuration equals {} of the saved ones", len(match))
            seeds.append(run.seed)
        require(sorted(seeds) == [v["seed"] + k for k in range(v["n"])], "seeds {} after loading", seeds)
    rec.interesting(v["n"] > 1)
