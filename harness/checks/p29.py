"""Pictures and stored readings of an FDTD grid."""
import itertools
import os

import numpy as np
import torch
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.patches import Rectangle
from scipy.signal import hilbert

from common import *  # noqa: F403
from core import Suite
from checks.plot_common import shots
from checks.yee_common import N, F

SUITE = Suite(
    "P29",
    "Random grids (two or three extended axes) with random sources, detectors, objects and boundaries, random fields or a short run, drawn in every projection they have and stored "
    "in a scratch folder. Non-trivial: at least two components and a plane with non-uniform energy, or at least one record of two steps.",
    ["Components are compared by the bounding box of what is drawn in their colour, within half a cell; the energy at a point source's cell may be blanked.",
     "Arbitrary point sources (ports) are not drawn by the code and not required to be."],
)

cell = st.tuples(*[st.integers(0, 30)] * 3).map(list)
box = st.tuples(*[st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list)] * 3).map(list)
source = st.fixed_dictionaries(dict(kind=st.sampled_from(["point", "line", "plane"]), at=cell, box=box, axis=st.integers(0, 2)))
detector = st.fixed_dictionaries(dict(kind=st.sampled_from(["line", "block", "current"]), box=box, axis=st.integers(0, 2)))
boundary = st.fixed_dictionaries(dict(axis=st.integers(0, 2), kind=st.sampled_from(["low", "high", "both", "periodic"]), t=st.integers(1, 4)))
scene = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(2, 12), st.integers(2, 12), st.integers(2, 9)).map(list), flat=st.sampled_from([None, None, 0, 1, 2]),
    sources=st.lists(source, max_size=2), detectors=st.lists(detector, max_size=2), objects=st.lists(box, max_size=2), boundaries=st.lists(boundary, max_size=2),
    fields=N, steps=st.integers(0, 3), where=st.integers(0, 30), norm=st.sampled_from(["linear", "log"]), save=st.one_of(st.none(), st.integers(0, 12000))))

COL = dict(pbcolor="#102030", pmlcolor="#203040", objcolor="#304050", srccolor="#405060", detcolor="#506070")


def clip(b, shape):
    out = []
    for (a, c), n in zip(b, shape):
        a, c = sorted((a % n, c % n))
        out.append((a, c + 1))
    return out


def build(v):
    """The grid and, per component, (colour, kind, region in cells)."""
    shape = list(v["shape"])
    if v["flat"] is not None:
        shape[v["flat"]] = 1
    grid = F.Grid(tuple(shape), grid_spacing=1e-7)
    long = [a for a in range(3) if shape[a] > 1]
    items = []
    for o in v["objects"]:
        r = clip(o, shape)
        grid[tuple(slice(*k) for k in r)] = F.Object(2.25)
        items.append(("objcolor", "rect", r))
    used = set()
    for b in v["boundaries"]:
        ax = long[b["axis"] % len(long)]
        if ax in used:
            continue
        used.add(ax)
        n = shape[ax]
        t = min(b["t"], max(1, n // 2))
        key = [slice(None)] * 3
        if b["kind"] == "periodic":
            key[ax] = 0
            grid[tuple(key)] = F.PeriodicBoundary()
            items.append(("pbcolor", "periodic", ax))
            continue
        for side, sl, reg in (("low", slice(0, t), (0, t)), ("high", slice(-t, None), (n - t, n))):
            if b["kind"] in (side, "both"):
                key[ax] = sl
                grid[tuple(key)] = F.PML()
                items.append(("pmlcolor", "pml", (ax, reg)))
    for s in v["sources"]:
        ax = long[s["axis"] % len(long)]
        if s["kind"] == "point":
            at = tuple(a % n for a, n in zip(s["at"], shape))
            grid[at] = F.PointSource(period=7)
            items.append(("srccolor", "point", [(a, a + 1) for a in at]))
        elif s["kind"] == "line":
            r = line(s["box"], ax, shape)
            grid[tuple(slice(*k) if i == ax else k[0] for i, k in enumerate(r))] = F.LineSource(period=7)
            items.append(("srccolor", "line", r))
        else:
            r = plane(s["box"], ax, shape)
            if r is None:
                continue
            grid[tuple(k[0] if i == ax else slice(*k) for i, k in enumerate(r))] = F.PlaneSource(period=7, polarization="xyz"[(ax + 1) % 3])
            items.append(("srccolor", "plane", r))
    dets = []
    for d in v["detectors"]:
        ax = long[d["axis"] % len(long)]
        if d["kind"] == "line":
            r = line(d["box"], ax, shape)
            key, det = tuple(slice(*k) if i == ax else k[0] for i, k in enumerate(r)), F.LineDetector(name=d.get("name"))
        else:
            r = clip(d["box"], shape)
            if d["kind"] == "current":
                r = [(max(a, 1), max(c, 2)) if n > 1 else (a, c) for (a, c), n in zip(r, shape)]
            key, det = tuple(slice(*k) for k in r), (F.BlockDetector if d["kind"] == "block" else F.CurrentDetector)(name=d.get("name"))
        grid[key] = det
        items.append(("detcolor", "line", r))
        dets.append((det, d["kind"], r))
    rng = np.random.default_rng(v["fields"])
    grid.E[...] = torch.tensor(rng.standard_normal(tuple(grid.E.shape)))
    grid.H[...] = torch.tensor(rng.standard_normal(tuple(grid.H.shape)))
    return grid, shape, items, dets


def line(b, ax, shape):
    """A line of at least two cells along ax."""
    r = [(a, a + 1) for a, _ in clip(b, shape)]
    a, c = clip(b, shape)[ax]
    if c - a < 2:
        a, c = 0, shape[ax]
    r[ax] = (a, c)
    return r


def plane(b, ax, shape):
    r = clip(b, shape)
    r[ax] = (r[ax][0], r[ax][0] + 1)
    for i in range(3):
        if i != ax and r[i][1] - r[i][0] < 2:
            if shape[i] < 2:
                return None
            r[i] = (0, shape[i])
    return r


def drawn(ax, color):
    """Bounding boxes (c0, c1, r0, r1) of what is drawn in this colour, and the line data."""
    want = mcolors.to_rgba(color)
    out = []
    for l in ax.lines:
        xy = np.array(l.get_xydata(), float)
        if len(xy) and mcolors.to_rgba(l.get_color()) == want:
            out.append(("line", xy))
    for p in ax.patches:
        if mcolors.to_rgba(p.get_facecolor()) == want:
            bb = p.get_path().transformed(p.get_patch_transform()).get_extents() if not isinstance(p, Rectangle) else p.get_bbox()
            out.append(("patch", np.array([[bb.x0, bb.y0], [bb.x1, bb.y1]])))
    return out


def fits(kind, what, pts, r, c):
    """Does the artist show the cells r (rows) x c (columns)?"""
    lo, hi = np.nanmin(pts, axis=0), np.nanmax(pts, axis=0)
    for (a, b), l, h in ((c, lo[0], hi[0]), (r, lo[1], hi[1])):
        if kind == "rect" or (kind == "plane" and b - a > 1):
            if abs(l - (a - 0.5)) > 1e-6 or abs(h - (b - 0.5)) > 1e-6:
                return False
        elif l < a - 0.5001 or l > a + 0.5001 or h < b - 1 - 0.5001 or h > b - 0.4999:
            return False
    return True


def check_picture(fig, grid, shape, items, proj, at, energy):
    ra, ca = dict(z=(0, 1), x=(1, 2), y=(2, 0))[proj]
    axes = [a for a in fig.axes if a.images]
    require(len(axes) == 1 and len(axes[0].images) == 1, "{} pictures with {} images", len(axes), [len(a.images) for a in fig.axes])
    ax = axes[0]
    require((ax.get_ylabel(), ax.get_xlabel()) == ("xyz"[ra], "xyz"[ca]), "{}-projection labelled {} (rows) and {} (columns)", proj, ax.get_ylabel(), ax.get_xlabel())
    plane = np.take(energy, at, axis="xyz".index(proj))
    if proj == "y":
        plane = plane.T
    img = np.ma.filled(np.ma.asarray(ax.images[0].get_array(), dtype=float), np.nan)
    require(img.shape == plane.shape, "{}-projection: image of {} cells instead of {}", proj, img.shape, plane.shape)
    top, (_, bright) = float(np.nanmax(img)), ax.images[0].get_clim()
    require(bright is None or top * (1 - 1e-6) <= bright <= 2 * top + 1e-3, "{}-projection: colours reach up to {} for energies up to {}", proj, bright, top)
    x0, x1, y0, y1 = ax.images[0].get_extent()
    require(np.allclose([x0, x1], [-0.5, plane.shape[1] - 0.5]) and np.allclose([min(y0, y1), max(y0, y1)], [-0.5, plane.shape[0] - 0.5]) and
            (ax.images[0].origin == "upper") == (y0 > y1), "{}-projection: the image lies at {}", proj, (x0, x1, y0, y1))
    (xa, xb), (ya, yb) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    require(xa <= -0.5 and ya <= -0.5 and xb >= plane.shape[1] - 0.5 and yb >= plane.shape[0] - 0.5, "{}-projection: parts of the plane are cut off ({}, {})", proj, (xa, xb), (ya, yb))
    blank = {(r[ra][0], r[ca][0]) for _, k, r in items if k == "point"}
    for i in range(plane.shape[0]):
        for j in range(plane.shape[1]):
            ok = abs(img[i, j] - plane[i, j]) <= 1e-9 * (1 + abs(plane[i, j])) or ((i, j) in blank and img[i, j] == 0)
            require(ok, "{}-projection at {}: energy {} drawn at row {}, column {} instead of {}", proj, at, img[i, j], i, j, plane[i, j])
    for color in COL:
        arts = drawn(ax, COL[color])
        want = []
        for c, kind, r in items:
            if c != color:
                continue
            if kind == "periodic":
                if r in (ra, ca):
                    want.append((kind, r, None))
            elif kind == "pml":
                a, reg = r
                if a in (ra, ca):
                    full = {ra: (0, shape[ra]), ca: (0, shape[ca])}
                    full[a] = reg
                    want.append(("rect", full[ra], full[ca]))
            else:
                want.append((kind, r[ra], r[ca]))
        if color == "pbcolor":
            segs = []
            for _, xy in arts:
                cut = np.isnan(xy).any(axis=1)
                run = []
                for p, x in zip(xy, cut):
                    if x:
                        segs.append(run)
                        run = []
                    else:
                        run.append(p)
                segs.append(run)
            ends = {}
            for s in segs:
                s = np.array(s)
                if len(s) == 0:
                    continue
                for k, a, o in ((0, ca, ra), (1, ra, ca)):
                    if np.ptp(s[:, k]) < 1e-9 and np.ptp(s[:, 1 - k]) > 0.5:
                        require(abs(s[:, 1 - k].min() + 0.5) < 1e-6 and abs(s[:, 1 - k].max() - (shape[o] - 0.5)) < 1e-6, "{}-projection: periodic boundary drawn along {}", proj, s.tolist())
                        ends.setdefault(a, set()).add(round(float(s[0, k]), 6))
            exp = {a: {-0.5, shape[a] - 0.5} for _, a, _ in want}
            require(ends == exp, "{}-projection: periodic boundaries drawn at {} (axis: positions) instead of {}", proj, ends, exp)
            continue
        require(len(arts) == len(want), "{}-projection: {} marks in {} for {} components", proj, len(arts), color, len(want))
        ok = any(all(fits(w[0], a[0], a[1], w[1], w[2]) for a, w in zip(arts, p)) for p in itertools.permutations(want))
        require(ok, "{}-projection: {} drawn at {} for components on cells (rows, columns) {}", proj, color, [a[1].tolist() for a in arts], want)


def snapshot(grid, dets):
    return (grid.E.clone(), grid.H.clone(), grid.time_steps_passed, [{k: len(x) for k, x in d.detector_values().items()} for d, _, _ in dets])


@SUITE.case("picture", scene, quick=320, shards=16, rule="every projection shows that plane's energy and every component in its place; the grid is untouched")
def picture_case(v, rec):
    grid, shape, items, dets = build(v)
    for _ in range(v["steps"]):
        grid.step()
    with scratch() as top, shots() as out:
        for proj, axis in (("x", 0), ("y", 1), ("z", 2)):
            others = [shape[a] for a in range(3) if a != axis]
            if min(others) < 2:
                continue
            at = v["where"] % shape[axis]
            if v["where"] % 3 == 2:
                at -= shape[axis]
            before = snapshot(grid, dets)
            energy = (grid.E**2 + grid.H**2).sum(-1).numpy().copy()
            plt.close("all")
            kw = dict(COL, norm=v["norm"])
            if v["save"] is not None:
                kw.update(save=True, index=v["save"], folder=top)
            with quiet():
                grid.visualize(**{proj: at}, **kw)
            check_picture(plt.gcf(), grid, shape, items, proj, at, energy)
            after = snapshot(grid, dets)
            require(torch.equal(before[0], after[0]) and torch.equal(before[1], after[1]) and before[2:] == after[2:], "drawing the {}-projection changed the grid", proj)
            if v["save"] is not None:
                require(out and out[-1].path == os.path.join(top, f"file{v['save']:04d}.png"), "frame {} stored as {}", v["save"], out[-1].path if out else None)
            rec.label("projection " + proj)
    rec.interesting(len(items) > 1)
    rec.label(*{k for _, k, _ in items}, "2D" if v["flat"] is not None else "3D")


bad = st.fixed_dictionaries(dict(
    shape=st.sampled_from([[4, 5, 6], [5, 4, 1], [1, 4, 4]]),
    args=st.sampled_from([{}, dict(x=1, y=1), dict(x=0, z=0), dict(y=2, z=1), dict(x=1, y=1, z=1), dict(x=1.0), dict(y=1.5), dict(z="1"), dict(z=0, norm="db"), dict(x=2, norm=None), dict(y=[1])])))


@SUITE.case("refused", bad, quick=40, shards=2, rule="contradictory, missing or non-integer projections are refused with a ValueError")
def refused_case(v, rec):
    grid = F.Grid(tuple(v["shape"]), grid_spacing=1e-7)
    plt.close("all")
    try:
        with quiet():
            grid.visualize(**v["args"])
    except ValueError:
        pass
    else:
        raise Violation(f"visualize({v['args']}) accepted")
    finally:
        plt.close("all")
    rec.interesting()


stored = st.fixed_dictionaries(dict(
    scene=scene, names=st.lists(st.sampled_from([None, "probe", "det_a", "left", "z9"]), min_size=4, max_size=4), more=st.lists(detector, max_size=2),
    first=st.integers(0, 6), second=st.integers(0, 5), sim=st.sampled_from([None, "run", "my sim"]), early=st.booleans(), away=st.booleans()))


@SUITE.case("readings", stored, quick=320, shards=8, rule="save_data stores the complete record of every detector under its name in the folder of save_simulation")
def readings_case(v, rec):
    s = dict(v["scene"])
    dets, seen = [], set()
    for d, n in zip(s["detectors"] + v["more"], v["names"]):
        dets.append(dict(d, name=None if n in seen else n))
        seen.add(n)
    s["detectors"] = dets
    grid, shape, items, dd = build(s)

    def keep(log):
        for i, (d, kind, r) in enumerate(dd):
            ix = tuple(slice(*k) for k in r)
            log.setdefault((i, "E"), []).append(grid.E[ix].numpy().copy())
            log.setdefault((i, "H"), []).append(grid.H[ix].numpy().copy())

    with scratch() as top:
        if v["early"]:
            try:
                grid.save_data()
            except Exception:  # any refusal
                pass
            else:
                raise Violation("save_data before save_simulation accepted")
        home = os.getcwd()
        folder = grid.save_simulation(v["sim"]) if v["sim"] is not None else grid.save_simulation()
        require(os.path.isdir(folder) and os.path.dirname(os.path.abspath(folder)) == os.path.join(os.path.realpath(home), "fdtd_output"), "simulation folder {} of {}", folder, home)
        require(v["sim"] is None or v["sim"] in os.path.basename(folder), "name {} missing in {}", v["sim"], folder)
        total = 0
        log = {}
        for part, n in enumerate((v["first"], v["second"])):
            for _ in range(n):
                grid.step()
                keep(log)
                total += 1
            if v["away"]:
                os.makedirs(os.path.join(top, f"else{part}"))
                os.chdir(os.path.join(top, f"else{part}"))
            records = [{k: list(x) for k, x in d.detector_values().items()} for d, _, _ in dd]
            grid.save_data()
            require({k: len(x) for r in records for k, x in r.items()} == {k: total for r in records for k in r}, "{} steps", total)
            for (d, _, _), r in zip(dd, records):
                require(all(len(x) == len(r[k]) for k, x in d.detector_values().items()), "storing changed the record of a detector")
            if v["away"]:
                require(os.listdir(os.getcwd()) == [], "readings stored in {} instead of {}", os.getcwd(), folder)
            files = sorted(os.listdir(folder))
            require(files == ["detector_readings.npz"], "files {} in the simulation folder", files)
            with np.load(os.path.join(folder, files[0]), allow_pickle=False) as z:
                got = {k: np.array(z[k]) for k in z.files}
            want = {}
            for i, (d, kind, r) in enumerate(dd):
                for q in records[i]:
                    if kind == "current":
                        a = np.array([[[[float(c) for c in y] for y in x] for x in t] for t in records[i][q]])
                    else:
                        a = np.array(log.get((i, q), []))
                        if kind == "line" and a.size:
                            a = a.reshape(a.shape[0], -1, 3)
                    want[(i, q)] = a
            require(len(got) == len(want), "{} arrays stored for {} records", sorted(got), len(want))
            free = dict(got)
            for (i, q), a in want.items():
                name = dd[i][0].name
                if name is not None:
                    key = f"{name} ({q})"
                    require(key in free, "no array {} among {}", key, sorted(got))
                    b = free.pop(key)
                    require((a.size == 0 and b.size == 0) or (a.shape == b.shape and np.array_equal(a, b)), "array {} is not the record of that detector ({} of {} values)", key, b.shape, a.shape)
            for (i, q), a in want.items():
                if dd[i][0].name is None:
                    hit = [k for k, b in free.items() if k.endswith(f"({q})") and ((a.size == 0 and b.size == 0) or (a.shape == b.shape and np.array_equal(a, b)))]
                    require(hit, "no array holds the {} record of the unnamed detector {}", q, i)
                    free.pop(hit[0])
            rec.interesting(total > 1 and len(dd) > 0)
    rec.label(*[k for _, k, _ in dd], *("named" if d.name else "unnamed" for d, _, _ in dd))


db = st.fixed_dictionaries(dict(shape=st.tuples(st.integers(2, 12), st.integers(1, 6), st.integers(1, 6), st.integers(1, 3)).map(list), axis=st.integers(0, 2), default=st.booleans(), seed=N))


@SUITE.case("decibels", db, quick=160, shards=4, rule="the decibel map is ten times the logarithm of the swing of the chosen component over the smallest swing")
def decibel_case(v, rec):
    fn = private("nidn.fdtd.visualization", "dB_map_2D")
    rng = np.random.default_rng(v["seed"])
    data = rng.standard_normal(v["shape"] + [3]) * np.exp(rng.standard_normal(v["shape"][1:] + [1]))
    keep = data.copy()
    axis = 2 if v["default"] else v["axis"]
    plt.close("all")
    try:
        with quiet():
            fn(data) if v["default"] else fn(data, choose_axis=axis)
        img = [np.asarray(i.get_array(), float) for a in plt.gcf().axes for i in a.images if np.asarray(i.get_array()).shape == tuple(v["shape"][1:3])]
        swing = np.ptp(keep[:, :, :, 0, axis], axis=0)
        want = 10 * np.log10(swing / swing.min())
        require(any(np.allclose(i, want, atol=1e-9) for i in img), "decibel map {} instead of {}", [i.tolist() for i in img], want.tolist())
        require(np.array_equal(data, keep), "the readings were changed")
        for bad in (None, data[:, 0]):
            try:
                fn(bad)
            except ValueError:
                continue
            raise Violation("readings that are not those of a block detector accepted")
    finally:
        plt.close("all")
    rec.interesting(v["shape"][1] * v["shape"][2] > 1)


pulses = st.fixed_dictionaries(dict(
    steps=st.one_of(st.integers(4, 40), st.integers(41, 300)), dets=st.lists(st.integers(1, 4), min_size=1, max_size=3), block=st.booleans(), only=st.sampled_from([None, None, "Ex", "Ey", "Ez", "Hx", "Hy", "Hz"]), seed=N))


@SUITE.case("pulses", pulses, quick=80, shards=4, rule="the detection plot shows the envelope of the first cell of every line detector, per component, and its time of arrival")
def pulses_case(v, rec):
    fn = private("nidn.fdtd.visualization", "plot_detection")
    rng = np.random.default_rng(v["seed"])
    data = {}
    for i, n in enumerate(v["dets"]):
        for q in "EH":
            data[f"d{i} ({q})"] = rng.standard_normal((v["steps"], n, 3))
        if v["block"] and i == 0:
            data["b (E)"] = rng.standard_normal((v["steps"], 2, 2, 1, 3))
            if len(v["dets"]) == 1:
                data["b (H)"] = rng.standard_normal((v["steps"], 2, 2, 1, 3))
    last = list(data)[-1]
    if data[last].ndim != 3:  # the plot takes the number of components from the last entry
        data["d9 (E)"] = rng.standard_normal((v["steps"], 1, 3))
    plt.close("all")
    try:
        with quiet():
            fn({k: x.copy() for k, x in data.items()}, v["only"]) if v["only"] else fn({k: x.copy() for k, x in data.items()})
        lines = {}
        arrivals = {}
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                for l in ax.lines:
                    y = np.asarray(l.get_ydata())
                    if y.dtype.kind in "US" or y.dtype == object:
                        for a, b in zip(np.asarray(l.get_xdata()).tolist(), y.tolist()):
                            arrivals.setdefault((b, l.get_label()), []).append(int(a))
                    else:
                        lines.setdefault((l.get_label(), ax.get_title()), []).append(np.asarray(y, float))
        want = {}
        for k, x in data.items():
            if x.ndim != 3:
                continue
            for c in range(3):
                if v["only"] and (k[-2] != v["only"][0] or "xyz"[c] != v["only"][1]):
                    continue
                want[(k, f"{k[-2]}({'xyz'[c]})")] = np.abs(hilbert(x[:, 0, c]))
        require(set(lines) == set(want), "curves {} instead of {}", sorted(lines), sorted(want))
        for k, y in want.items():
            require(len(lines[k]) == 1 and np.allclose(lines[k][0], y, atol=1e-9), "curve {} is not the envelope of the first cell", k)
            arr = arrivals.get((k[0], k[1][2]))
            require(arr == [int(np.argmax(y))], "{}: arrival {} instead of {}", k, arr, int(np.argmax(y)))
    finally:
        plt.close("all")
    rec.interesting(len(data) > 2)


video = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(2, 6), st.integers(2, 6)).map(list), frames=st.one_of(st.integers(1, 3), st.integers(11, 13)), delete=st.booleans(), tool=st.sampled_from(["works", "works", "fails", "missing"]),
    name=st.sampled_from([None, "a", "a b"]), moved=st.booleans(), other=st.booleans()))
STAND_IN = """#!/bin/sh
pwd > "$RECORD"
ls >> "$RECORD"
[ "$MODE" = fails ] && exit 3
for last in "$@"; do :; done
echo "$@" > "$last"
"""


@SUITE.case("video", video, quick=40, shards=4, rule="generate_video (with a stand-in for ffmpeg): a video of the frames in the folder of the simulation, frames deleted only on request and success, working directory kept")
def video_case(v, rec):
    with scratch() as top, quiet():
        tools, record = os.path.join(top, "tools"), os.path.join(top, "record")
        os.mkdir(tools)
        if v["tool"] != "missing":
            with open(os.path.join(tools, "ffmpeg"), "w") as h:
                h.write(STAND_IN)
            os.chmod(os.path.join(tools, "ffmpeg"), 0o755)
        old = dict(os.environ)
        os.environ.update(PATH=tools + (":/usr/bin:/bin" if v["tool"] != "missing" else ""), RECORD=record, MODE=v["tool"])
        try:
            grid = F.Grid((v["shape"][0], v["shape"][1], 1), grid_spacing=1e-7)
            try:
                grid.generate_video()
            except Exception:  # noqa: BLE001 - any refusal will do
                pass
            else:
                raise Violation("a video was made without a folder")
            folder = grid.save_simulation(v["name"]) if v["name"] else grid.save_simulation()
            names = []
            for i in range(v["frames"]):
                names.append(f"file{i:04d}.png")
                with open(os.path.join(folder, names[-1]), "w") as h:
                    h.write(str(i))
            keep = {os.path.join(top, "work", "file0000.png"): "outside"}
            if v["other"]:
                keep[os.path.join(folder, "notes.txt")] = "notes"
            for p, text in keep.items():
                with open(p, "w") as h:
                    h.write(text)
            if v["moved"]:
                os.mkdir("elsewhere")
                os.chdir("elsewhere")
            cwd = os.getcwd()
            failed = None
            try:
                out = grid.generate_video(delete_frames=v["delete"]) if v["delete"] else grid.generate_video()
            except Exception as e:  # noqa: BLE001 - judged below
                failed = e
            require(os.getcwd() == cwd, "the working directory changed from {} to {}", cwd, os.getcwd())
            left = sorted(f for f in os.listdir(folder) if f.endswith(".png"))
            if v["tool"] == "works":
                require(failed is None, "making a video failed: {!r}", failed)
                require(os.path.isabs(out) and os.path.isfile(out) and os.path.dirname(os.path.realpath(out)) == os.path.realpath(folder), "video {} is not in {}", out, folder)
                seen = open(record).read().splitlines()
                require(os.path.realpath(seen[0]) == os.path.realpath(folder) and set(names) <= set(seen[1:]), "the video tool ran in {} without the frames", seen[0])
                require(left == ([] if v["delete"] else names), "frames {} left with delete_frames={}", left, v["delete"])
            else:
                require(failed is not None, "no error although the video tool {}", v["tool"])
                require("ffmpeg" in str(failed), "the error does not name the tool: {}", failed)
                require(left == names, "frames {} left after a failure", left)
            for p, text in keep.items():
                require(os.path.isfile(p) and open(p).read() == text, "{} was changed", p)
        finally:
            os.environ.clear()
            os.environ.update(old)
    rec.interesting()
    rec.label(v["tool"], "delete" if v["delete"] else "keep")
