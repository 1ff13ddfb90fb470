"""Material collection."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import material_ref as mr

SUITE = Suite(
    "P15",
    "Random frequency lists (in and outside the tables, exactly on, next to and half-way between table rows; lists, tuples and arrays; single values, repeats, any order), random "
    "subsets of skipped materials, several collections alive at once. Non-trivial: at least one frequency whose nearest row is not the first or last one.",
    ["Two rows equally near within 1e-9 are both accepted.", "The materials are the csv files directly in nidn/materials/data."],
)

# a wavelength: anywhere, or placed relative to a row of a table
anywhere = st.floats(-2.0, 2.3).map(lambda e: ["at", 10 ** e])
on_row = st.tuples(st.sampled_from(mr.NAMES), st.floats(0, 1), st.sampled_from([0.0, 0.3, 0.49, 0.51, 0.7, -0.49])).map(lambda t: ["row", t[0], t[1], t[2]])
freqs = st.one_of(*[st.lists(st.one_of(anywhere, on_row, on_row), min_size=1, max_size=8)] * 7, st.lists(st.one_of(anywhere, on_row, on_row), min_size=20, max_size=60))
skip = st.one_of(st.none(), st.lists(st.sampled_from(mr.NAMES + mr.NAMES + ["unobtainium", "silicon", "oxide", "titanium", "aluminium", "nitride", "_", "", "zinc", "Silicon_Nitride", "germanium.csv"]), max_size=9, unique=True).filter(lambda s: len(set(s) & set(mr.NAMES)) < len(mr.NAMES)))
spec = st.fixed_dictionaries(dict(freqs=freqs, skip=skip, container=st.sampled_from(["list", "numpy", "tuple"])))


def wavelength(w):
    if w[0] == "at":
        return w[1]
    t = mr.TABLES[w[1]][:, 0]
    i = min(int(w[2] * len(t)), len(t) - 1)
    if w[3] == 0 or not 0 < i < len(t) - 1:
        return t[i]
    j = i + (1 if w[3] > 0 else -1)
    return t[i] + abs(w[3]) * (t[j] - t[i])


def frequencies(v):
    f = [1.0 / wavelength(w) for w in v["freqs"]]
    return f, {"list": list, "numpy": np.array, "tuple": tuple}[v["container"]](f)


def judge(mc, f, skipped):
    names = [n for n in mr.NAMES if n not in (skipped or [])]
    require(sorted(mc.material_names) == names, "materials {} instead of {}", sorted(mc.material_names), names)
    require(mc.N_materials == len(names), "N_materials {} for {} materials", mc.N_materials, len(names))
    require(tuple(mc.epsilon_matrix.shape) == (len(names), len(f)), "permittivity matrix {} for {} materials and {} frequencies", tuple(mc.epsilon_matrix.shape), len(names), len(f))
    require(mc.epsilon_matrix.dtype == torch.complex128, "permittivities are {}", mc.epsilon_matrix.dtype)
    for n in names:
        row = mc[n]
        require(tuple(row.shape) == (len(f),), "{} has shape {} for {} frequencies", n, tuple(row.shape), len(f))
        row = row.detach().numpy()
        require(mr.matches(row, n, f), "{}: {} instead of {} at wavelengths {}", n, row, mr.eps_table(n, f), [1 / x for x in f])
        i = list(mc.material_names).index(n)
        require(np.array_equal(mc.epsilon_matrix[i].numpy(), row), "row {} of the matrix is not {}", i, n)


@SUITE.case("lookup", spec, quick=900, shards=16, rule="all materials at all frequencies against the parsed tables")
def lookup_case(v, rec):
    f, arg = frequencies(v)
    mc = nidn.MaterialCollection(arg, v["skip"]) if v["skip"] is not None else nidn.MaterialCollection(arg)
    judge(mc, f, v["skip"])
    rec.interesting(any(mr.TABLES[n][0, 0] < 1 / x < mr.TABLES[n][-1, 0] for n in mr.NAMES for x in f))
    rec.label("skip" if v["skip"] else "all", "single" if len(f) == 1 else "several")
    for bad in ["", "unobtainium", "gold", None] + [n for n in (v["skip"] or [])]:
        try:
            mc[bad]
        except KeyError:
            continue
        raise Violation(f"looking up {bad!r} returned something")


@SUITE.case("history", st.lists(spec, min_size=2, max_size=4), quick=200, shards=16, rule="several collections alive at once keep their own materials and frequencies")
def history_case(vs, rec):
    made = []
    for v in vs:
        f, arg = frequencies(v)
        made.append((nidn.MaterialCollection(arg, v["skip"]), f, v["skip"]))
        for mc, f, s in made:
            judge(mc, f, s)
    mc, f, s = made[0]
    mc.epsilon_matrix[0] = 7.0
    mc.material_names.append("new")
    for mc, f, s in made[1:]:
        judge(mc, f, s)
    rec.interesting(len({canon_skip(v) for v in vs}) > 1)
    try:
        nidn.MaterialCollection([])
    except ValueError:
        return
    raise Violation("an empty frequency list was accepted")


def canon_skip(v):
    return tuple(sorted(v["skip"] or []))


@SUITE.case("loader", st.tuples(st.sampled_from(mr.NAMES), freqs).map(list), quick=300, shards=8, rule="the stand-alone table loader gives the same permittivities")
def loader_case(v, rec):
    load = private("nidn.trcwa.load_material_data", "_load_material_data")
    import os

    name, fr = v
    f = [1.0 / wavelength(w) for w in fr]
    eps = load(os.path.join(mr.FOLDER, name + ".csv"), f)
    require(eps.numel() == len(f), "loader returned {} values for {} frequencies", eps.numel(), len(f))
    require(mr.matches(eps.detach().numpy().reshape(-1), name, f), "{}: {} instead of {}", name, eps, mr.eps_table(name, f))
    rec.interesting()
