HEAD = '''# Verification of esa/NIDN by property-based testing and fuzzing

## How it works

`./check <id> quick|thorough` runs the suite `harness/checks/<id>.py` against the package in `/repo` (or `$NIDN_REPO`), imported
from the working tree itself, so every run sees the current code; nothing is built or cached. A suite is a list of *cases*:
a Hypothesis strategy, a checking function and a number of examples. Cases are split into shards that run in parallel
processes with the seed derived from `VERIF_SEED`, the property, the case and the shard; `--jobs` limits the processes.
Hypothesis (vendored in `vendor/`; `setup_cmd` only verifies that it and NIDN import) generates and shrinks; a failing case is
written as a JSON value to `evidence/replays/<id>-*.json` and can be rerun with `./check <id> --replay FILE`; a replay decides again from scratch.

* exit 0: held on every case; exit 1: a shrunk failing case, with `VIOLATION property=<id> replay=<path>`; exit 2: the machinery itself
  could not run (for example an import error of the harness).
* A check function either returns, raises `Violation` (oracle disagreement), or lets an exception out of NIDN escape. An unexpected
  exception inside NIDN on a valid input counts as a violation ("crash"); an error *of ours* is reported as such.
* Suites prefer the public interface (`nidn.*`). Where a private helper is called directly as an extra route, its absence makes the
  case "unavailable" (counted in the evidence) rather than a violation, so that renaming or inlining a helper raises no alarm; every
  such property also has a route through the public interface.
* Evidence (`evidence/<id>.json`) counts generated, non-trivial (by the rule stated there), skipped and unavailable cases per
  case family, with samples and labels of the distribution.
* Files are only written inside scratch directories created and removed by the check (NIDN writes `../results/...` relative to the
  working directory, so the check changes into a nested scratch directory first). Nothing in `/repo` is written (`PYTHONDONTWRITEBYTECODE`).
* `thorough` generates 20 times as many examples as `quick` (where not stated otherwise), with other seeds.

Every property below is decided by generated-input search against an explicit oracle; `not_applicable` is empty.
The level is always "exploration": random search with shrinking, no proof. The oracles are independent numpy code
(`harness/oracles`): a thin-film recursion, a coupled-wave solver (E-field modes, explicit Fourier sums, one global linear system; built
differently from TRCWA's S-matrix recursion), a Yee/CPML time stepper and a re-implementation of the coefficient extraction; plus
reference formulas and loops (materials, layer shapes, model mappings, losses, the training loop) inside the suites.

'''
WHY = {
"P01": "The tests compare a handful of stacks with stored numbers; here every mixture of layer count, absorption, metals, exterior media and frequency is judged by theory.",
"P02": "The tests never exercise a laterally varying grid with a known answer. The reference solver shares no formula with TRCWA, so sign, phase, index-order and truncation mistakes show as differences.",
"P03": "Energy balance needs no reference and therefore also reaches structures outside the reference's comfort (very thick metals, strong contrast, diffracting periods).",
"P04": "Metamorphic relations: no oracle needed, sensitive to axis swaps, thickness bookkeeping, hidden unit lengths.",
"P05": "The engine's full plane-wave interface is not used by the high-level API or tests at all; it is judged by the reference solver and Fresnel's film formula.",
"P06": "Field, flux, absorption, stress and permittivity outputs are all derived from the same problem, so they must agree with one another and with the reference fields.",
"P07": "Inverse design rests on these gradients; tests only check that training reduces a loss. Finite differences in random complex directions touch all entries at once, single entries localise.",
"P08": "State leaks between calls, order mistakes between frequencies and unchecked input need sequences of calls and faulty inputs at random places.",
"P09": "A cell-by-cell model over all index forms, overlaps and boundaries; tests only look at stored norm values.",
"P10": "Waveforms and placements over all source and detector types; the fields are set to zero between steps in 'waveform' to isolate the injection.",
"P11": "Histories of operations (stateful generation), with another grid interleaved, against a single fresh run; superposition and boundedness are metamorphic.",
"P12": "The complete pipeline is modelled from the configuration down to R and T; fine runs are additionally compared with physics.",
"P13": "Reference model over noisy and beating signals, plus exact answers for sinusoids and the normalisation band.",
"P14": "Closed formulas and inverses over twelve decades, including narrow ranges and large counts where off-by-one and rounding errors show.",
"P15": "The CSV tables of the tree are parsed independently; wavelengths are generated relative to table rows (on, next to and between rows).",
"P16": "Reference rasteriser for all grid sizes (also one-dimensional and non-square) and shapes that leave the cell.",
"P17": "Brute force over all materials and frequencies.",
"P18": "Models are replaced by known smooth functions of the coordinates, so the permittivity at every point reveals which coordinate was used; real networks are evaluated point by point.",
"P19": "As P18 for mixtures; the sharpened softmax is recomputed from point-wise outputs.",
"P20": "Formula over generated spectra, including sums below, at and above one, exact hits, and the value logged by training.",
"P21": "The training loop is replayed: a recording model captures parameters and gradients at each evaluation, and the logs, updates and returned state are recomputed from them.",
"P22": "Fault injection with generated schedules (which iteration, which kind, how often), judged by a reference loop.",
"P23": "Pairs of runs with random activity in between; bit equality.",
"P24": "Mutation of valid configurations in every entry and element; a spy on the simulation and the model shows that nothing ran.",
"P25": "Stateful generation of save/load/change histories in a scratch directory, all within equal time stamps.",
"P26": "Figures are intercepted when they are saved and taken apart (curves, voxel colours and positions, titles, labels), so data, axes and layers are judged, not pixels.",
"P27": "Reference forward passes from the parameters, metamorphic row-independence, gradients of all parameters.",
"P28": "Generated folders of configuration files, trained by the script in a subprocess-like call inside a scratch directory and compared with training each alone.",
"P29": "Every projection of random scenes is taken apart artist by artist (a swapped coordinate looks fine to the eye); stored files are read back and compared with the fields seen at each step.",
"P30": "Random placement histories with a model of taken names and sides that says which placements fit; every refusal rule is generated for every component kind, axis and side, mixed with fitting placements so that over-strict validation is seen too.",
}
TAIL = '''
## False alarms met and what was done

* *Resonances in RCWA*: TRCWA adds a damping of 1/(2 Q) with Q=1e9 to the frequency and its constant pi is single precision. Near sharp resonances the
  spectrum moves more than any fixed tolerance; the tolerance is therefore 1e-6 plus a multiple of the effect of changing the damping in the reference.
* *Grazing orders* (a diffraction order exactly at the horizon of a medium) have infinite slopes: relations between two problems there are not judged.
* *Windows of less than one sample* in the signal extraction (minimum resolution times wavelength below 1/3) are outside the method: not generated.
* *Gradients at kinks*: a case counts only where the finite differences of two step sizes agree (Wood anomalies, clipping); others are counted as skipped.
* *Rounding ties* (cell rounding in FDTD, peak lists and transient windows in the extraction, two table rows equally near, points on the border of a hole,
  real parts within rounding of the zero-avoidance cut-off): kept out by construction of the generator, or both answers are accepted.
* *PML slabs that meet in the middle of a grid* and a PML over the objects with permittivity far below one are unstable by construction of the method: not generated.
* *Closed 2D/3D grids without periodic boundaries* do not conserve the discrete energy exactly at the rim: energy is judged for periodic grids only.
* *Loss exponents below one* have an infinite slope at a met target: wider tolerance there.

## What is deliberately not claimed

`Grid.add_*` helpers and `FrequencyRoutines` of the vendored FDTD package (broken or unused upstream), the anisotropic FDTD object, a truncation of one order,
grids too coarse for the truncation (Fourier coefficients alias), the FDTD solver storing derived settings in the configuration it is given, voxel models ignoring the
oversampling, FDTD using only the first lateral point of a patterned grid, a permittivity of exactly zero without zero avoidance, several configurations of the same name in one batch,
lengths of the target spectra, gradients of an exponent below one at an exact match (infinite by definition), pixel-exact appearance of plots.
'''
