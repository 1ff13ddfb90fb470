"""Recovery of training from failing evaluations."""
from hypothesis import strategies as st

from common import *  # noqa: F403
from core import Suite
from checks import train_common as tc

SUITE = Suite(
    "P22",
    "Training runs of up to 12 iterations with random settings, in which the model is made to fail at random iterations: output all NaN, one NaN entry, or NaN gradients that poison the "
    "parameters of the next iteration; single, repeated, consecutive, first-iteration and last-iteration faults. Non-trivial: at least one failing iteration followed by a successful one.",
    ["A fault is a NaN in the model output of an iteration (injected or caused by NaN parameters).", "The last iteration's update is not judged."],
)

kinds = st.sampled_from(["all", "one", "grad"])


@st.composite
def faulty(draw, solver="TRCWA", max_iter=12):
    v = draw(tc.train_specs(solver=solver, max_iter=4))
    v["iterations"] = draw(st.integers(2, max_iter))
    v["iterations"] = max(2, v["iterations"])
    where = draw(st.lists(st.integers(0, v["iterations"] - 1), min_size=1, max_size=5, unique=True))
    if solver == "FDTD":
        v.update(Nx=1, Ny=1, over=1, n=1, NL=min(v["NL"], 2), thickness=v["thickness"][:1], tR=v["tR"][:1], tT=v["tT"][:1])
    return [v, [[k, draw(kinds)] for k in sorted(where)]]


@SUITE.case("faults", faulty(), quick=320, shards=16, rule="logs, restored parameters, halved learning rate, fresh optimiser state and returned model")
def faults_case(w, rec):
    v, fl = w
    faults = {int(k): kind for k, kind in fl}
    out, model = tc.run(v, faults)
    # an injected fault never fires in an iteration that already fails: drop those
    _, failures = tc.judge(v, out, model, rec, _effective(model, faults))
    rec.interesting(failures > 0 and len(out.results.loss_log) > 0)
    rec.label(*{f"kind {k}" for k in faults.values()})


def _effective(model, faults):
    """Gradient faults in iterations that fail anyway have no effect."""
    return {k: kind for k, kind in faults.items() if kind != "grad" or (k < len(model.states) and tc.finite(model.states[k]))}


@SUITE.case("all fail", faulty(max_iter=5), quick=60, shards=8, rule="when every iteration fails, the initial model is returned and the logs stay empty")
def all_fail_case(w, rec):
    v, fl = w
    faults = {k: ("all" if k % 2 else "one") for k in range(v["iterations"])}
    out, model = tc.run(v, faults)
    tc.judge(v, out, model, rec, faults)
    require(list(out.results.loss_log) == [], "losses were logged although every iteration failed")
    require(tc.equal(model.states[0], {n: p for n, p in model.state_dict().items()}), "the returned model is not the initial one")
    rec.interesting()


@SUITE.case("fdtd", faulty(solver="FDTD", max_iter=4), quick=16, shards=16, rule="the same with the time-domain solver")
def fdtd_case(w, rec):
    v, fl = w
    faults = {int(k): kind for k, kind in fl}
    out, model = tc.run(v, faults)
    _, failures = tc.judge(v, out, model, rec, _effective(model, faults))
    rec.interesting(failures > 0)
