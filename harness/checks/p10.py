"""FDTD sources and detectors against the Yee model."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks.yee_common import *  # noqa: F403

SUITE = Suite(
    "P10",
    "Random grids with one to three sources and one to three detectors at random places, driven for random numbers of steps; fields and every detector record compared "
    "with the model. Non-trivial: at least two steps and a source that is not identically zero.",
    ["Line sources and detectors lie on the diagonal of the box they are placed on; a bare index means that plane.",
     "Times given as floats are seconds, integers are time steps; float times are kept away from rounding ties."],
)

amp = st.sampled_from([1.0, 0.5, -2.0, 3.25])
wave = st.fixed_dictionaries(dict(
    type=st.sampled_from(["continuous", "continuous", "hanning", "ricker"]), period=st.integers(3, 25), seconds=st.booleans(), phase=st.sampled_from([0.0, 0.5, -1.2, 3.0]),
    cycle=st.integers(1, 6), dt=st.sampled_from([0.3, 1.0, 2.7, 6.0, None]), terse=st.booleans()))
cell = st.tuples(*[st.integers(0, 30)] * 3).map(list)
source = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("point"), at=cell, amp=amp, wave=wave)),
    st.fixed_dictionaries(dict(kind=st.just("line"), keys=st.tuples(axis_key, axis_key, axis_key).map(list), amp=amp, wave=wave)),
    st.fixed_dictionaries(dict(kind=st.just("linelist"), cells=st.lists(cell, min_size=2, max_size=5), amp=amp, wave=wave)),
    st.fixed_dictionaries(dict(kind=st.just("plane"), keys=st.tuples(axis_key, axis_key, axis_key).map(list), flat=st.integers(0, 2), pol=st.integers(0, 1), amp=amp, wave=wave)),
    st.fixed_dictionaries(dict(kind=st.just("array"), at=cell, values=st.lists(st.sampled_from([0.0, 1.0, -0.5, 2.0]), min_size=1, max_size=12), z=st.sampled_from([0.0, 0.0, 0.2, 0.5]))))
detector = st.one_of(
    st.fixed_dictionaries(dict(kind=st.sampled_from(["line", "block", "current"]), keys=st.tuples(axis_key, axis_key, axis_key).map(list))),
    st.fixed_dictionaries(dict(kind=st.just("linelist"), cells=st.lists(cell, min_size=1, max_size=5))))


def norm_cell(at, ref, low=0):
    return tuple(low + a % (n - low) if n > low else 0 for a, n in zip(at, ref.shape))


def make_wave(w, ref):
    """Constructor arguments for NIDN and the waveform meant by them."""
    kind = w["type"]
    seconds = w["seconds"] or kind == "ricker"
    period = (w["period"] + off(w["period"] + w["cycle"])) * ref.dt if seconds else w["period"]
    kw = dict(period=period, phase_shift=w["phase"], signal_type=kind)
    if w.get("terse"):  # leave out what equals the defaults
        kw = {k: x for k, x in kw.items() if x != dict(period=15, phase_shift=0.0, signal_type="continuous")[k]}
    if kind == "continuous":
        return kw, Y.Wave("continuous", steps=w["period"], phase=w["phase"])
    if kind == "hanning":
        dt = 0.5 * period if w["dt"] is None else w["dt"] * period / 4.0  # None: half a period
        kw.update(cycle=w["cycle"], hanning_dt=None if w["dt"] is None else dt)
        if w.get("terse") and w["cycle"] == 5:
            kw.pop("cycle")
        return kw, Y.Wave("hanning", period=period, dt=dt, cycle=w["cycle"])
    return kw, Y.Wave("ricker", gppw=Y.C0 * period / ref.spacing)


def drift(ref):
    """NIDN's waveforms use a single-precision pi.  Absorbing layers that overlap on an axis (or a weak background)
    are unstable and amplify such a difference, so there the comparison is looser."""
    covered = {}
    for b in ref.boundaries:
        if isinstance(b, Y.Pml):
            for i in range(*b.sl[b.axis].indices(ref.shape[b.axis])):
                covered[b.axis, i] = covered.get((b.axis, i), 0) + 1
    return 1e-3 if max(covered.values(), default=0) > 1 else 1e-5


def line_keys(keys, ref, want_two):
    ks, region = resolve3(keys, ref)
    region = list(region)
    for i, k in enumerate(keys):
        if k["kind"] in ("int", "negint"):
            region[i] = (region[i][0], region[i][0])
    if all(k["kind"] in ("int", "negint") for k in keys) or (want_two and max(b - a for a, b in region) < 2):
        ax = int(np.argmax(ref.shape))
        ks = list(ks)
        ks[ax], region[ax] = slice(None), (0, ref.shape[ax])
    ax = max(range(3), key=lambda i: region[i][1] - region[i][0])
    a, b = region[ax]
    if (keys[0]["b"] + keys[1]["a"]) % 4 == 3 and a > 0 and b - a > 1:  # from the far end of the box to the near one
        ks = list(ks)
        ks[ax], region[ax] = slice(b - 1, a - 1), (b - 1, a - 1)
    return tuple(ks), region


def add_source(s, grid, ref, checks):
    kind = s["kind"]
    if kind == "array":
        at = norm_cell(s["at"], ref, 1)
        src = private("nidn.fdtd.sources", "SoftArbitraryPointSource")(np.array(s["values"]), impedance=s["z"])
        grid[at] = src
        m = Y.ArraySource(at, s["values"], s["z"])
        ref.sources.append(m)
        ref.detectors.append(m)
        checks.append(lambda: (close(np.array(src.input_voltage).reshape(-1), np.array(m.inputs), "input voltage", drift(ref), getattr(ref, "peak", 1e-3)),
                               close(np.array([float(v[0][0][0]) for v in src.source_voltage]), np.array(m.outputs), "source voltage", drift(ref), getattr(ref, "peak", 1e-3))))
        return
    kw, w = make_wave(s["wave"], ref)
    if not (s["wave"].get("terse") and s["amp"] == 1.0):
        kw["amplitude"] = s["amp"]
    if kind == "point":
        at = norm_cell(s["at"], ref)
        grid[tuple(a - n if s["at"][0] % 3 == 0 else a for a, n in zip(at, ref.shape))] = F.PointSource(**kw)
        ref.sources.append(Y.SoftSource([at], [s["amp"]], w))
    elif kind == "line":
        ks, region = line_keys(s["keys"], ref, True)
        put(grid, ks, F.LineSource(**kw), s["keys"][0]["b"])
        cells = Y.line_cells(region)
        ref.sources.append(Y.SoftSource(cells, Y.line_weights(cells, s["amp"]), w))
    elif kind == "linelist":
        cells = [norm_cell(c, ref) for c in s["cells"]]
        if len(set(cells)) < 2:
            cells[0] = (0, 0, 0)
            cells[-1] = tuple(n - 1 for n in ref.shape)
        grid[[c[0] for c in cells], [c[1] for c in cells], [c[2] for c in cells]] = F.LineSource(**kw)
        ref.sources.append(Y.SoftSource(cells, Y.line_weights(cells, s["amp"]), w))
    else:
        flat, other = s["flat"], [ax for ax in range(3) if ax != s["flat"]]
        ks, region = resolve3(s["keys"], ref)
        ks, region = list(ks), list(region)
        for ax in other:
            n = ref.shape[ax]
            if n < 2:
                return
            if region[ax][1] - region[ax][0] < 2 or s["keys"][ax]["kind"] == "float":
                a = region[ax][0] if region[ax][0] + 2 <= n else 0
                ks[ax], region[ax] = slice(a, n), (a, n)
        a = region[flat][0]
        ks[flat], region[flat] = a - ref.shape[flat] if s["keys"][flat]["kind"].startswith("neg") else a, (a, a + 1)
        pol = other[s["pol"]]
        for ax in other:
            a, b = region[ax]
            if s["keys"][ax]["b"] % 5 == 4:  # bounds in either order
                ks[ax] = slice(b, a)
        kw.pop("signal_type", None), kw.pop("cycle", None), kw.pop("hanning_dt", None)
        w = Y.Wave("continuous", steps=s["wave"]["period"], phase=s["wave"]["phase"])
        put(grid, ks, F.PlaneSource(polarization="xyz"[pol], **kw), s["keys"][0]["b"])
        ref.sources.append(Y.HardPlane(region, pol, s["amp"], w))


def stack(records):
    return np.array([[[[[float(c) for c in z] for z in y] for y in x] for x in r] for r in records])


def add_detector(d, grid, ref, checks, tol=1e-5):
    kind = d["kind"]
    if kind == "linelist":
        cells = [norm_cell(c, ref) for c in d["cells"]]
        det, m = F.LineDetector(), Y.CellsDetector(cells)
        back = [n if d["cells"][0][0] % 3 == 0 else 0 for n in ref.shape]
        grid[[c[0] - back[0] for c in cells], [c[1] - back[1] for c in cells], [c[2] - back[2] for c in cells]] = det
    elif kind == "line":
        ks, region = line_keys(d["keys"], ref, False)
        if any(b != a for a, b in region):
            det, m = F.LineDetector(), Y.CellsDetector(Y.line_cells(region))
            put(grid, ks, det, d["keys"][0]["b"])
    else:
        ks, region = resolve3(d["keys"], ref)
        if kind == "current":
            # currents use the neighbours below: stay off the lower faces
            ks, region = list(ks), list(region)
            for ax in range(3):
                if ref.shape[ax] > 1 and region[ax][0] == 0:
                    region[ax] = (1, max(2, region[ax][1]))
                    ks[ax] = slice(*region[ax])
            ks = tuple(ks)
            det, m = F.CurrentDetector(), Y.CurrentBox(region)
        else:
            det, m = F.BlockDetector(), Y.BoxDetector(region)
        put(grid, ks, det, d["keys"][0]["b"])
    ref.detectors.append(m)

    def compare():
        vals = det.detector_values()
        if kind == "current":
            require(len(vals["I"]) == ref.q, "{} current records after {} steps", len(vals["I"]), ref.q)
            got = np.array([[[[float(c) for c in y] for y in x] for x in r] for r in vals["I"]])
            close(got / ref.spacing, np.array(m.I) / ref.spacing, "current record (steps, x, y, z)", max(tol, drift(ref)), getattr(ref, "peak", 1e-3))
            return
        for f in "EH":
            require(len(vals[f]) == ref.q, "{} {} records after {} steps", len(vals[f]), f, ref.q)
            if kind == "block":
                got = stack(vals[f])
            else:
                got = np.array([r.detach().numpy() for r in vals[f]])
            close(got, np.array(getattr(m, f)), f"{kind} detector {f} (step, place, component)", max(tol, drift(ref)), getattr(ref, "peak", 1e-3))

    checks.append(compare)


driven = st.fixed_dictionaries(dict(
    grid=grid_strategy, objects=st.lists(object_strategy, max_size=1), boundaries=st.lists(boundary_strategy, max_size=2),
    sources=st.lists(source, min_size=1, max_size=3), detectors=st.lists(detector, min_size=1, max_size=3), steps=st.integers(1, 30), fields=st.one_of(st.none(), N)))


def build(v):
    grid, ref = make_grid(v["grid"])
    checks = []
    for o in v["objects"]:
        add_object(o, grid, ref)
    add_boundaries(v["boundaries"], grid, ref)
    for s in v["sources"]:
        add_source(s, grid, ref, checks)
    for d in v["detectors"]:
        add_detector(d, grid, ref, checks)
    if v["fields"] is not None:
        set_fields(v["fields"], grid, ref)
    return grid, ref, checks


@SUITE.case("driven", driven, quick=2000, shards=16, rule="fields and records of driven grids equal the model")
def driven_case(v, rec):
    grid, ref, checks = build(v)
    floor = max(abs(s["amp"]) * 0.1 if "amp" in s else 1e-3 for s in v["sources"])
    for k in range(v["steps"]):
        grid.step()
        ref.step()
        same_fields(grid, ref, f"step {k + 1}", drift(ref), floor)
    for c in checks:
        c()
    rec.interesting(v["steps"] > 1 and np.abs(ref.E).max() > 0)
    rec.label(*["source " + s["kind"] + (" " + s["wave"]["type"] if "wave" in s else "") for s in v["sources"]], *["detector " + d["kind"] for d in v["detectors"]])


wide_wave = st.fixed_dictionaries(dict(
    type=st.sampled_from(["continuous", "hanning", "ricker"]), period=st.integers(3, 300), seconds=st.booleans(), phase=st.floats(-7, 7).map(lambda x: round(x, 3)),
    cycle=st.integers(1, 12), dt=st.floats(0.2, 9).map(lambda x: round(x, 3))))
wide_source = st.tuples(source, wide_wave, log_floats(1e-6, 1e6), st.lists(st.floats(-5, 5).map(lambda x: round(x, 3)), min_size=1, max_size=60)).map(
    lambda t: dict(t[0], values=t[3]) if t[0]["kind"] == "array" else dict(t[0], wave=t[1], amp=t[2]))
wide_driven = st.fixed_dictionaries(dict(
    grid=wide_grid, objects=st.lists(wide_object, max_size=2), boundaries=st.lists(wide_boundary, max_size=3),
    sources=st.lists(wide_source, min_size=1, max_size=6), detectors=st.lists(detector, min_size=1, max_size=6), steps=st.integers(1, 150), fields=st.one_of(st.none(), N)))


@SUITE.case("wide", wide_driven, quick=320, shards=16, rule="as 'driven' for any spacing, background, amplitude, phase and period, up to six sources and detectors, long runs")
def wide_case(v, rec):
    grid, ref, checks = build(v)
    floor = max(abs(s["amp"]) * 0.1 if "amp" in s else 1e-3 for s in v["sources"])
    for k in range(v["steps"]):
        grid.step()
        ref.step()
        top = max(np.abs(ref.E).max(), np.abs(ref.H).max())
        if not np.isfinite(top) or top > 1e6 * max(1.0, floor):
            rec.label("growing (overlapping absorbing layers or weak background)")
            return
        same_fields(grid, ref, f"step {k + 1}", drift(ref), floor)
    for c in checks:
        c()
    rec.interesting(v["steps"] > 1 and np.abs(ref.E).max() > 0)
    rec.label(*["source " + s["kind"] + (" " + s["wave"]["type"] if "wave" in s else "") for s in v["sources"]], *["detector " + d["kind"] for d in v["detectors"]])


@SUITE.case("placed later", st.fixed_dictionaries(dict(setup=driven, before=st.integers(1, 12))), quick=160, shards=8,
            rule="sources and detectors put into a grid that has already run act and record from then on, at the time of the grid")
def later_case(w, rec):
    v = w["setup"]
    first = dict(v, sources=v["sources"][:1] if v["fields"] is None else [], detectors=[])
    grid, ref, _ = build(first)
    for _ in range(w["before"]):
        grid.step()
        ref.step()
    checks, start = [], ref.q
    rest = [s for s in v["sources"][len(first["sources"]):] if s["kind"] != "array"]
    for s in rest:
        add_source(s, grid, ref, checks)
    kept = ref.q
    for d in v["detectors"]:
        add_detector(d, grid, ref, checks)
    floor = max(abs(s["amp"]) * 0.1 if "amp" in s else 1e-3 for s in v["sources"])
    for k in range(v["steps"]):
        grid.step()
        ref.step()
        same_fields(grid, ref, f"step {k + 1} after {start}", drift(ref), floor)
    ref.q -= kept  # records since the detectors were placed
    for c in checks:
        c()
    rec.interesting(rest and v["steps"] > 1)


long_wave = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["point", "line"]), wave=wave, amp=amp, steps=st.integers(40, 260), grid=grid_strategy))


@SUITE.case("waveform", long_wave, quick=320, shards=16, rule="the whole waveform injected into an empty grid, step by step (fields zeroed between steps)")
def waveform_case(v, rec):
    g = dict(v["grid"], shape=[3, 3, 1])
    grid, ref = make_grid(g)
    s = dict(kind=v["kind"], at=[1, 1, 0], keys=[dict(kind="int", a=1, b=1), dict(kind="all", a=0, b=0), dict(kind="int", a=0, b=0)], amp=v["amp"], wave=v["wave"])
    add_source(s, grid, ref, [])
    seen = 0.0
    for q in range(v["steps"]):
        grid.E.zero_(), grid.H.zero_()
        ref.E[...], ref.H[...] = 0.0, 0.0
        grid.step()
        ref.step()
        close(grid.E, ref.E, f"injected field at step {q}", 1e-5, abs(v["amp"]))
        seen = max(seen, np.abs(ref.E).max())
    rec.interesting(seen > 0)
    rec.label(v["kind"], v["wave"]["type"])


named = st.tuples(st.sampled_from(["PointSource", "LineSource", "LineDetector", "BlockDetector", "CurrentDetector", "Object", "PML", "PeriodicBoundary"]), st.sampled_from(["probe", "thing_1"])).map(list)


@SUITE.case("names", named, quick=16, shards=1, rule="named components become grid attributes and a second one of that name is refused")
def names_case(w, rec):
    cls, name = w
    grid = F.Grid((6, 5, 4), grid_spacing=1e-7)
    mk = dict(PointSource=lambda: (F.PointSource(name=name), (1, 1, 1)), LineSource=lambda: (F.LineSource(name=name), (1, slice(None), 0)),
              LineDetector=lambda: (F.LineDetector(name=name), (1, slice(None), 0)), BlockDetector=lambda: (F.BlockDetector(name=name), (slice(1, 3), slice(None), slice(0, 1))),
              CurrentDetector=lambda: (F.CurrentDetector(name=name), (slice(1, 3), slice(1, 2), slice(1, 2))), Object=lambda: (F.Object(2.0, name=name), (slice(1, 3),)),
              PML=lambda: (F.PML(name=name), (slice(0, 2), slice(None), slice(None))), PeriodicBoundary=lambda: (F.PeriodicBoundary(name=name), (slice(None), 0, slice(None))))
    obj, key = mk[cls]()
    grid[key] = obj
    require(getattr(grid, name) is obj, "grid.{} is not the {} put there", name, cls)
    str(grid), repr(grid)
    other = F.PointSource(name=name)
    try:
        grid[2, 2, 2] = other
    except ValueError:
        pass
    else:
        raise Violation(f"second component named {name} accepted")
    require(getattr(grid, name) is obj, "grid.{} was replaced", name)
    rec.interesting()
