"""Placing components on an FDTD grid: what fits is registered once and by name, what does not is refused."""
import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite

import nidn.fdtd as F

SUITE = Suite(
    "P30",
    "Histories of 1 to 8 placements of every kind of source, detector, object and boundary on random grids, fitting and not, named and unnamed, followed by time steps. "
    "Non-trivial: at least one placement that must be refused, or two named components.",
    ["What a refused component leaves behind in the grid is not judged, nor is the type of the exception."],
)

TAKEN = ["E", "H", "sources", "detectors", "objects", "boundaries", "grid_spacing", "time_step", "shape", "run", "step", "folder"]
KINDS = dict(
    point=["slice", "list"], soft=["slice", "list"], line=["cell", "short", "unequal"], plane=["solid", "thin", "perpendicular", "polarization"],
    linedet=["unequal"], block=["unequal"], current=["unequal"], object=["list", "step"], absorber=["list", "step"],
    pml=["index", "inside", "nowhere", "again"], periodic=["inside", "list", "nowhere", "again"])
def placements(kinds):
    return st.sampled_from(sorted(kinds)).flatmap(lambda k: st.fixed_dictionaries(dict(
        kind=st.just(k), named=st.booleans(), axis=st.integers(0, 2), high=st.booleans(), how=st.tuples(*[st.integers(0, 3)] * 3).map(list),
        a=st.tuples(*[st.integers(0, 40)] * 3).map(list), b=st.tuples(*[st.integers(0, 40)] * 3).map(list), t=st.integers(1, 6), pick=st.integers(0, 11),
        bad=st.one_of(*[st.none()] * 3, st.sampled_from(KINDS[k] + ["name", "attribute", "indices"])))))


def histories(kinds):
    return st.fixed_dictionaries(dict(
        shape=st.one_of(st.tuples(*[st.integers(4, 9)] * 3), st.tuples(st.integers(4, 14), st.integers(4, 9), st.just(1)).flatmap(st.permutations)).map(list),
        spacing=st.sampled_from([1e-7, 2.5e-8, 1e-6]), good=st.booleans(), metres=st.booleans(), steps=st.integers(0, 3), places=st.lists(placements(kinds), min_size=1, max_size=8)))


class Skip(Exception):
    pass


def wide(p, n, i):
    """Two different cells of an axis, in order."""
    if n < 2:
        raise Skip
    a = p["a"][i] % (n - 1)
    return a, a + 1 + p["b"][i] % (n - 1 - a)


def cell(p, n, i, spacing):
    a = p["a"][i] % n
    return [a, a - n, [a], (a + 0.2371) * spacing][p["how"][i]]


def span(p, n, i, spacing):
    """A slice over at least two cells, or the whole axis."""
    a, b = wide(p, n, i)
    return [slice(a, b + 1), slice(None), slice(a - n, b + 1 - n if b + 1 < n else None), slice((a + 0.2371) * spacing, (b + 0.7629) * spacing)][p["how"][i]]


def build(p, shape, spacing, sides):
    """(component class, keyword arguments, key, fits): one placement and whether the grid must take it."""
    kind, bad, ax = p["kind"], p["bad"], p["axis"]
    ok = bad in (None, "name", "attribute", "indices")
    cells = [cell(p, shape[i], i, spacing) for i in range(3)]
    n = shape[ax]
    if kind in ("point", "soft"):
        key = list(cells)
        if not ok:
            a, b = wide(p, n, ax)
            key[ax] = slice(a, b + 1) if bad == "slice" else [a, b]
        return key, ok, None
    if kind == "line":
        key = list(cells)
        if ok and p["high"]:  # lists of the same length, different cells
            m = min(shape[ax], 2 + p["t"])
            if m < 2:
                raise Skip
            key = [[(p["a"][i] + j) % shape[i] for j in range(m)] for i in range(3)]
        elif ok:
            key[ax] = span(p, n, ax, spacing)
        elif bad == "short":
            a = p["a"][ax] % n
            key[ax] = slice(a, a + 1)
        elif bad == "unequal":
            key = [[x % shape[i] for x in range(2 + (i == ax))] for i in range(3)]
        return key, ok, None
    if kind == "plane":
        key = [span(p, shape[i], i, spacing) for i in range(3) if i != ax]
        a = p["a"][ax] % n
        key.insert(ax, [a, a - n, slice(a, a + 1), (a + 0.2371) * spacing][p["how"][ax]])
        pol = "xyz"[(ax + 1 + p["high"]) % 3]
        if bad == "solid":
            key[ax] = span(p, n, ax, spacing)
        elif bad == "thin":
            other = (ax + 1 + (p["high"] if p["t"] % 4 == 0 else not p["high"])) % 3  # mostly not the polarised direction, which is refused anyway
            key[other] = p["a"][0] % shape[other]
        elif bad == "perpendicular":
            pol = "xyz"[ax]
        elif bad == "polarization":
            pol = "wkE"[p["pick"] % 3]
        return key, ok, pol
    if kind in ("linedet", "block", "current"):
        if not ok:
            return [[x % shape[i] for x in range(1 + (i == ax))] for i in range(3)], ok, None
        key = list(cells)
        if shape[ax] > 1:
            key[ax] = span(p, n, ax, spacing)
        return key, ok, None
    if kind in ("object", "absorber"):
        key = [span(p, shape[i], i, spacing) if shape[i] > 1 and p["b"][i] % 3 else cells[i] for i in range(3)]
        if not ok:
            a, b = wide(p, n, ax)
            key[ax] = [a, b] if bad == "list" else slice(a, b + 1, 2 + p["t"] % 2)
        return key, ok, None
    key = [slice(None)] * 3
    if kind == "pml":
        t = 1 + (p["t"] - 1) % max(1, n // 2)
        free = "+" if p["high"] else "-"
        if n < 2:
            raise Skip
        if bad == "index":
            key[ax] = n - 1 if p["high"] else 0
        elif bad == "inside":
            a = 1 + p["a"][ax] % (n - 2)
            key[ax] = slice(a, a + 1 + p["b"][ax] % (n - 1 - a))
        elif bad != "nowhere":
            key[ax] = slice(-t, None) if p["high"] else slice([None, 0][p["t"] % 2], t)
            if bad == "again":
                if (ax, free) not in sides:
                    raise Skip
            elif (ax, free) in sides:
                ok = False
            elif ok:
                return key, ok, [(ax, free)]
        return key, ok, None
    if bad == "inside":
        if n < 3:
            raise Skip
        key[ax] = 1 + p["a"][ax] % (n - 2)
    elif bad == "list":
        key[ax] = [0, n - 1]
    elif bad != "nowhere":
        key[ax] = [0, -1, slice(0, 1), [0]][p["how"][ax]]
        used = (ax, "+") in sides or (ax, "-") in sides
        if bad == "again":
            if not used:
                raise Skip
        elif used:
            ok = False
        elif ok:
            return key, ok, [(ax, "+"), (ax, "-")]
    return key, ok, None


def create(kind, pol, name, p):
    kw = {} if name is None else dict(name=name)
    if kind == "point":
        return F.PointSource(period=10 + p["t"], **kw)
    if kind == "soft":
        return private("nidn.fdtd.sources", "SoftArbitraryPointSource")(np.array([1.0, 0.5]), **kw)
    if kind == "line":
        return F.LineSource(period=10 + p["t"], **kw)
    if kind == "plane":
        return F.PlaneSource(period=10 + p["t"], polarization=pol, **kw)
    if kind == "object":
        return F.Object(permittivity=2.0 + p["t"], **kw)
    if kind == "absorber":
        return F.AbsorbingObject(permittivity=2.0 + p["t"], conductivity=1e-3, **kw)
    return dict(linedet=F.LineDetector, block=F.BlockDetector, current=F.CurrentDetector, pml=F.PML, periodic=F.PeriodicBoundary)[kind](**kw)


PUBLIC = dict(point="PointSource", soft="SoftArbitraryPointSource", line="LineSource", plane="PlaneSource", linedet="LineDetector", block="BlockDetector", current="CurrentDetector",
              object="Object", absorber="AbsorbingObject", pml="PML", periodic="PeriodicBoundary")
LIST = dict(point="sources", soft="sources", line="sources", plane="sources", linedet="detectors", block="detectors", current="detectors", object="objects", absorber="objects",
            pml="boundaries", periodic="boundaries")


@SUITE.case("placements", histories(KINDS), quick=6000, shards=16, rule="a refused placement, or two named components")
def placements_case(v, rec):
    shape, spacing = v["shape"], v["spacing"]
    given = tuple((n - 0.2371 if k % 2 else n + 0.2371) * spacing for k, n in enumerate(shape)) if v["metres"] else tuple(shape)
    grid = F.Grid(given, grid_spacing=spacing)
    require(tuple(grid.shape) == tuple(shape) and tuple(grid.E.shape) == tuple(shape) + (3,), "a grid of {} cells became {}", shape, grid.shape)
    sides, names, taken, refused = set(), {}, [], 0
    for i, p in enumerate(v["places"]):
        p = dict(p, bad=None) if v["good"] else p
        try:
            key, ok, extra = build(p, shape, spacing, sides)
        except Skip:
            continue
        name = f"part_{i}" if p["named"] else None
        if p["bad"] == "name":
            if not names:
                continue
            name, ok = sorted(names)[p["pick"] % len(names)], False
        elif p["bad"] == "attribute":
            name, ok = TAKEN[p["pick"]], False
        elif p["bad"] == "indices":
            key, ok = key + [[0, slice(None)][p["high"]]], False
        if v["good"] and not ok:
            continue
        old = getattr(grid, name, None) if not ok and name else None
        part = create(p["kind"], extra, name, p)
        what = f"{PUBLIC[p['kind']]} named {name} at {key} of a grid of {shape}, boundaries {sorted(sides)}"
        failed = None
        try:
            grid[tuple(key)] = part
        except Exception as e:  # noqa: BLE001 - judged below
            failed = e
        if ok:
            require(failed is None, "refused {}: {!r}", what, failed)
            taken.append((p["kind"], part, name))
            if name:
                names[name] = part
            if isinstance(extra, list):
                sides |= set(extra)
        else:
            require(failed is not None, "took {} ({})", what, p["bad"])
            refused += 1
            rec.label(f"{p['kind']} {p['bad']}")
            if p["bad"] in ("name", "attribute"):
                now = getattr(grid, name, None)
                require(now is old or (name in TAKEN and now is not part), "{} replaced the earlier one", what)
    parts = [part for _, part, _ in taken]
    for which in ("sources", "detectors", "objects", "boundaries"):
        mine = [part for k, part, _ in taken if LIST[k] == which]
        there = [c for c in getattr(grid, which) if any(c is part for part in parts)]
        require(len(there) == len(mine) and all(a is b for a, b in zip(there, mine)), "{} lists {} instead of {}", which, there, mine)
    for name, part in names.items():
        require(getattr(grid, name, None) is part, "grid.{} is {}", name, getattr(grid, name, None))
    if not refused:
        text = str(grid)
        for kind in set(k for k, _, _ in taken):
            count = sum(1 for k, _, _ in taken if k == kind) + (sum(1 for k, _, _ in taken if k == "soft") if kind == "current" else 0)
            found = sum(1 for line in text.splitlines() if line.strip().startswith(PUBLIC[kind] + "("))
            require(found == count, "the grid lists {} instead of {} {}: {}", found, count, PUBLIC[kind], text)
        for name in names:
            require(kind_of(taken, name) == "soft" or repr(name) in text, "{} is not listed: {}", name, text)
        grid.run(v["steps"], progress_bar=False)
        require(grid.time_steps_passed == v["steps"], "{} steps instead of {}", grid.time_steps_passed, v["steps"])
        require(bool(torch.isfinite(torch.as_tensor(grid.E)).all() and torch.isfinite(torch.as_tensor(grid.H)).all()), "fields of {} are not finite", [PUBLIC[k] for k, _, _ in taken])
        for k, part, name in taken:
            if LIST[k] == "detectors":
                require(all(len(r) == v["steps"] for r in part.detector_values().values()), "{} has not one record per step", PUBLIC[k])
    if refused or len(names) > 1:
        rec.interesting()


SUITE.case("sides", histories(["pml", "periodic"]), quick=3000, shards=16, rule="boundaries only: a side taken twice is refused, whichever boundary came first")(placements_case)


def kind_of(taken, name):
    return next(k for k, _, n in taken if n == name)
