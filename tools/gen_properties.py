"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=anchors))


prop("P01", "Uniform stacks give the exact thin-film spectrum (RCWA)",
     "For every stack of laterally uniform layers (any number of layers, one shared or one thickness per layer, any complex passive permittivity including metals, any real exterior media) the RCWA solver returns at every configured frequency the normal-incidence reflectance and transmittance of exactly that stack, as given by the transfer-matrix solution of Maxwell's equations at that frequency. "
     "Layers are taken in order from the incidence side to the exit side, reflectance is returned first and transmittance second, and the result does not depend on the lattice period or on the truncation order.",
     ["inputs", "configurations"],
     "all layer counts, permittivities, thicknesses, exterior media, frequency counts, ranges and distributions, periods and truncation orders",
     "The tests compare a single material slab with a stored array; a wrong layer order, thickness, exterior medium or frequency assignment only shows for stacks the tests do not contain.",
     ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/trcwa.py"],
     [("spectrum loop over frequencies", "nidn/trcwa/compute_spectrum_trcwa.py:compute_spectrum_trcwa"),
      ("stack construction", "nidn/trcwa/init_trcwa.py:_init_trcwa"),
      ("S-matrix recursion", "nidn/trcwa/trcwa.py:GetSMatrix"),
      ("power flux", "nidn/trcwa/trcwa.py:GetZPoyntingFlux")],
     ["nidn.compute_spectrum return value"])

prop("P02", "Patterned layers give the rigorous coupled-wave solution",
     "For every grid of permittivities (any lateral resolution that resolves the truncation, any number of layers, complex or real values, square or rectangular periods) the RCWA solver returns the reflectance and transmittance of the truncated coupled-wave problem posed by exactly that grid: Fourier coefficients with their signs and phases, layers in order, complete shells of diffraction orders below the configured truncation order. "
     "A pattern without contrast gives the spectrum of the uniform layer.",
     ["inputs", "configurations"],
     "all permittivity grids, layer counts, lattice periods, truncation orders, exterior media and frequencies",
     "No repository test compares a patterned structure with a known solution; sign, index or transposition errors in the Fourier matrices still give plausible numbers between 0 and 1.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/utils/kbloch.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/utils/torch_functions.py"],
     [("Fourier convolution matrices", "nidn/trcwa/utils/fft_funs.py:get_conv"),
      ("grid to layer assignment", "nidn/trcwa/trcwa.py:TRCWA.GridLayer_geteps"),
      ("layer eigenproblem", "nidn/trcwa/trcwa.py:SolveLayerEigensystem"),
      ("order selection", "nidn/trcwa/utils/kbloch.py:Gsel_circular")],
     ["nidn.compute_spectrum return value"])

prop("P03", "Passive structures never create energy (RCWA)",
     "For every passive structure (non-negative imaginary permittivity, uniform or patterned, any exterior media) reflectance and transmittance are finite and non-negative and their sum does not exceed one beyond rounding. "
     "For a lossless structure the sum equals one up to the solver's documented tiny frequency damping, and an absorbing layer strictly lowers it.",
     ["inputs", "configurations"],
     "all passive permittivity grids, thicknesses, exterior media, frequencies, periods and truncation orders",
     "A test samples one structure; energy balance breaks only for particular combinations (patterned plus lossy exterior index, evanescent orders, thick layers) and has to be searched.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/constants.py"],
     [("power flux and normalisation", "nidn/trcwa/trcwa.py:TRCWA.RT_Solve"),
      ("branch choice of the modes", "nidn/trcwa/trcwa.py:SolveLayerEigensystem"),
      ("frequency damping", "nidn/trcwa/init_trcwa.py:_init_trcwa")],
     ["nidn.compute_spectrum return value"])

prop("P04", "Spectra respect the symmetries of the structure (RCWA)",
     "Cyclically shifting, mirroring or rotating the patterns of all layers by half a turn, splitting a layer into thinner layers of the same pattern, inserting a layer of the exterior medium at the exit side, or scaling all lengths and wavelengths together leaves the RCWA spectrum unchanged. "
     "Reversing a uniform stack together with its exterior media leaves the transmittance unchanged.",
     ["inputs", "configurations"],
     "all permittivity grids and all shifts, reflections, splits and scale factors",
     "These relations tie two runs together for arbitrary structures; fixed-value tests cannot express them.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/utils/kbloch.py", "nidn/trcwa/init_trcwa.py"],
     [("Fourier convolution matrices", "nidn/trcwa/utils/fft_funs.py:get_conv"),
      ("S-matrix recursion", "nidn/trcwa/trcwa.py:GetSMatrix"),
      ("reciprocal lattice", "nidn/trcwa/utils/kbloch.py:Lattice_Reciprocate")],
     ["nidn.compute_spectrum return value"])

prop("P05", "Oblique, polarised and backward plane waves are solved exactly",
     "For any incidence angles, any mix of s and p polarisation with phases, any excited diffraction order setting, forward or backward illumination and any stack of uniform, grid and anisotropic grid layers, the RCWA engine returns the reflected and transmitted power of the corresponding plane-wave problem, normalised by the incident flux when asked. "
     "The per-order powers add up to the total, and both truncation schemes and the period scaling are honoured.",
     ["inputs", "configurations"],
     "all angles, polarisations, phases, directions, layer stacks, truncation schemes and period scalings",
     "The tests only use normal incidence with one polarisation; every other code path of the public engine is unexercised.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/kbloch.py", "nidn/trcwa/utils/fft_funs.py"],
     [("excitation", "nidn/trcwa/trcwa.py:TRCWA.MakeExcitationPlanewave"),
      ("power flux by order", "nidn/trcwa/trcwa.py:GetZPoyntingFlux"),
      ("truncation schemes", "nidn/trcwa/utils/kbloch.py:Lattice_getG"),
      ("period scaling", "nidn/trcwa/trcwa.py:TRCWA.Init_Setup")],
     ["nidn.trcwa.trcwa.TRCWA.RT_Solve"])

prop("P06", "Field and permittivity outputs agree with the solved problem (RCWA)",
     "Inside any structure the RCWA engine's Fourier fields satisfy Maxwell's equations with continuous tangential components across every interface, its real-space fields are the Fourier synthesis of those, its flux equals the returned reflectance and transmittance, its volume integral of the absorption accounts for the missing power of an absorbing layer, the stress tensor is that of these fields, and the reconstructed permittivity is the (truncated) pattern that was put in.",
     ["inputs", "configurations"],
     "all stacks of uniform and patterned layers, incidence angles, depths and observation grids",
     "No test calls these outputs; consistency between them must hold at every depth of every structure.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py"],
     [("Fourier fields", "nidn/trcwa/trcwa.py:TRCWA.Solve_FieldFourier"),
      ("grid fields", "nidn/trcwa/trcwa.py:TRCWA.Solve_FieldOnGrid"),
      ("volume integral", "nidn/trcwa/trcwa.py:TRCWA.Volume_integral"),
      ("permittivity reconstruction", "nidn/trcwa/trcwa.py:TRCWA.Return_eps")],
     ["TRCWA field methods"])

prop("P07", "Gradients of the spectrum are correct",
     "For every structure the derivative of reflectance and transmittance with respect to any permittivity entry obtained by automatic differentiation equals the finite-difference derivative of the same solver, for the RCWA solver (uniform and patterned layers) and for the FDTD solver. "
     "Gradients are finite and reach every entry that influences the spectrum.",
     ["inputs", "configurations"],
     "all permittivity grids, directions of perturbation, frequencies and both solvers",
     "Training tests only see that the loss does not crash; a detached or wrong gradient still trains.",
     ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py", "nidn/fdtd/grid.py", "nidn/fdtd/objects.py"],
     [("differentiable RCWA", "nidn/trcwa/trcwa.py:TRCWA.RT_Solve"),
      ("differentiable FDTD", "nidn/fdtd_integration/compute_spectrum_fdtd.py:compute_spectrum_fdtd")],
     ["torch.autograd.grad of nidn.compute_spectrum"])

prop("P08", "The spectrum interface is pure, per-frequency and refuses bad input",
     "For both solvers the spectrum call returns one reflectance and one transmittance per configured frequency, in frequency order, where the value at a frequency depends only on the permittivities at that frequency; repeating the call on the same or on a fresh configuration gives the same numbers, and the permittivity grid and the user's targets are not modified. "
     "A grid containing NaN is refused with a value error by both solvers, an invalid configuration is refused before anything is simulated, and the RCWA solver refuses grids whose shape disagrees with the configuration.",
     ["inputs", "configurations", "histories"],
     "all grids, configurations, both solvers and all sequences of repeated calls on one configuration object",
     "Tests call the solver once per configuration; state leaking between calls or frequencies needs generated call histories.",
     ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/trcwa/get_frequency_points.py"],
     [("dispatch", "nidn/utils/compute_spectrum.py:compute_spectrum"),
      ("input checks", "nidn/trcwa/compute_spectrum_trcwa.py:compute_spectrum_trcwa"),
      ("FDTD loop", "nidn/fdtd_integration/compute_spectrum_fdtd.py:compute_spectrum_fdtd")],
     ["nidn.compute_spectrum return value and exceptions"])

prop("P09", "The FDTD grid advances the fields exactly as the Yee scheme says",
     "For every grid (1D to 3D, any spacing, background permittivity and permeability, Courant number within the stability limit), every set of plain and absorbing objects, absorbing (PML) and periodic boundaries on any side and any initial fields, each time step yields the electric and magnetic fields of the Yee leapfrog update with those materials and boundaries. "
     "Later objects overwrite earlier ones where they overlap and cells outside objects keep the background material.",
     ["inputs", "configurations", "histories"],
     "all grid shapes, materials, boundary placements, initial fields and step counts",
     "The tests look at the shape of a 1D run; an error in one field component, one boundary side or one axis is invisible there.",
     ["nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/objects.py", "nidn/fdtd/backend.py"],
     [("leapfrog update", "nidn/fdtd/grid.py:Grid.update_E / Grid.update_H"),
      ("curl operators", "nidn/fdtd/grid.py:curl_E, curl_H"),
      ("PML", "nidn/fdtd/boundaries.py:PML"),
      ("periodic boundaries", "nidn/fdtd/boundaries.py:PeriodicBoundary"),
      ("objects", "nidn/fdtd/objects.py:Object, AbsorbingObject")],
     ["grid.E, grid.H after each step"])

prop("P10", "FDTD sources and detectors act at the stated place and time",
     "Every source adds (or, for plane sources, imposes) the documented waveform - continuous, Hanning pulse, Ricker pulse or arbitrary array, with its period, amplitude, phase and profile - at exactly the cells it was placed on and at every time step, and nothing elsewhere. "
     "Every line, block and current detector records once per time step the field (or current) at exactly the cells it was placed on.",
     ["inputs", "configurations", "histories"],
     "all placements by index, slice, list or distance, all waveform parameters and all step counts",
     "Waveforms and placements are parameterised; the tests use one line source and two detectors.",
     ["nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/waveforms.py", "nidn/fdtd/grid.py", "nidn/fdtd/backend.py"],
     [("sources", "nidn/fdtd/sources.py"), ("detectors", "nidn/fdtd/detectors.py"),
      ("placement", "nidn/fdtd/grid.py:Grid.__setitem__")],
     ["grid.E, grid.H, detector_values()"])

prop("P11", "FDTD runs are linear, repeatable and resumable",
     "Running a grid for n and then m steps equals running it for n+m steps, resetting and rerunning reproduces a fresh run, stepping equals running, and running for a time equals running for the corresponding number of steps. "
     "Fields are linear in the source amplitudes and in the initial fields, two grids never influence each other, and fields without sources in closed or absorbing grids stay bounded.",
     ["histories", "inputs", "configurations"],
     "all sequences of step, run and reset operations on arbitrary grids with boundaries, objects, sources and detectors",
     "These are relations over histories of operations, of which the tests contain only a single run.",
     ["nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/sources.py"],
     [("run, step, reset", "nidn/fdtd/grid.py:Grid.run, step, reset"),
      ("boundary memory", "nidn/fdtd/boundaries.py:PML.reset")],
     ["grid.E, grid.H, detector_values()"],
     [("boundary convolution memory", "history of the fields inside the absorbing layer", "nidn/fdtd/boundaries.py:PML")])

prop("P12", "The FDTD spectrum is that of the configured structure",
     "For every configuration the FDTD solver simulates, per wavelength, free space and the configured stack (layers in order with their thicknesses, permittivity and absorption at that wavelength, source, detectors and absorbing layers at the configured positions and resolution) and returns reflectance and transmittance extracted from those detector signals. "
     "For sufficiently resolved, long enough continuous-wave runs the result agrees with the thin-film solution, and vacuum layers transmit everything.",
     ["inputs", "configurations"],
     "all stacks, thicknesses, permittivities, wavelength ranges, source types and positions, detector distances, PML and free-space sizes, resolutions and step counts",
     "The tests run a few fixed stacks and compare with stored numbers of one configuration each.",
     ["nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"],
     [("set-up", "nidn/fdtd_integration/init_fdtd.py:init_fdtd"),
      ("resolution", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py:_compute_fdtd_grid_scaling"),
      ("loop", "nidn/fdtd_integration/compute_spectrum_fdtd.py:compute_spectrum_fdtd")],
     ["nidn.compute_spectrum with the FDTD solver"])

prop("P13", "Reflectance and transmittance are correctly extracted from signals",
     "For any pair of free-space and material detector signals the coefficients are the power ratios of the steady-state parts: the reflected signal is the material signal minus the free-space signal, sinusoidal signals of amplitude ratio r give r squared, scaling all signals together changes nothing, and the caller's signals are left untouched. "
     "A sum slightly above one (less than five percent) is normalised to one keeping the ratio, larger sums are returned as they are, and an all-zero free-space signal is refused.",
     ["inputs"],
     "all signal lengths, amplitudes, phases, delays, transients, wavelengths and resolutions",
     "The tests feed a handful of signals; window handling and normalisation thresholds depend on continuous parameters.",
     ["nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"],
     [("coefficient computation", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py:calculate_transmission_reflection_coefficients"),
      ("transient elimination", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py:_eliminate_transient_part"),
      ("normalisation", "nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py:_check_and_normalize_coefficients")],
     ["calculate_transmission_reflection_coefficients return value"])

prop("P14", "Target frequencies and unit conversions are exact inverses",
     "For every wavelength range, count and distribution the target frequencies are the requested number of ascending values, equally spaced linearly or logarithmically between the reciprocals (per micrometre) of the longest and shortest wavelength, both ends included; the reported physical wavelengths are the matching wavelengths in metres, and the configuration stores the same frequencies. "
     "Wavelength-frequency and unit conversions are mutually inverse on numbers and arrays, an unknown distribution is refused, and simulation-unit field conversions are mutually inverse.",
     ["inputs", "configurations"],
     "all wavelength ranges, frequency counts and both distributions",
     "One range with one count is tested; end points, single points and logarithmic spacing are not.",
     ["nidn/trcwa/compute_target_frequencies.py", "nidn/trcwa/get_frequency_points.py", "nidn/utils/convert_units.py", "nidn/fdtd/conversions.py"],
     [("frequency grid", "nidn/trcwa/compute_target_frequencies.py:compute_target_frequencies"),
      ("frequency points", "nidn/trcwa/get_frequency_points.py:get_frequency_points"),
      ("conversions", "nidn/utils/convert_units.py")],
     ["return values"])

prop("P15", "Material permittivities are the tabulated ones at the nearest wavelength",
     "For every list of target frequencies and every set of skipped materials the collection holds exactly the remaining shipped materials, and looking one up by name gives, for every frequency in order, the complex permittivity (n+ik) squared of its table row whose wavelength is closest to the target wavelength. "
     "Unknown names and empty frequency lists are refused, collections do not share state, and a single frequency or material keeps the same layout.",
     ["inputs", "configurations", "histories"],
     "all frequency lists (inside, between and outside the tabulated range), all subsets of skipped materials and all creation orders",
     "Two frequencies of one material are tested; nearest-row selection and name/row association fail only elsewhere.",
     ["nidn/materials/material_collection.py", "nidn/trcwa/load_material_data.py", "nidn/materials/data/gallium_arsenide.csv"],
     [("table lookup", "nidn/materials/material_collection.py:MaterialCollection._load_material_data"),
      ("name lookup", "nidn/materials/material_collection.py:MaterialCollection.__getitem__")],
     ["MaterialCollection lookups"])

prop("P16", "Built layers contain the requested materials in the requested shape",
     "For every grid size, frequency list, material pair and geometry the layer builder returns one permittivity per grid point and frequency: the hole material at exactly the grid points (equally spaced from 0 to 1 in both directions) strictly inside the square margin or the circle around its centre, and the background material everywhere else.",
     ["inputs", "configurations"],
     "all grid sizes including non-square ones, margins, radii, centres, frequency lists and material pairs",
     "No test builds a layer of more than one shape; x/y exchange or border errors need non-square grids and off-centre holes.",
     ["nidn/materials/layer_builder.py", "nidn/materials/material_collection.py"],
     [("uniform, squared and circle layers", "nidn/materials/layer_builder.py:LayerBuilder")],
     ["LayerBuilder return values"])

prop("P17", "The closest material is the one with the smallest mean distance",
     "For every permittivity grid and material selection, each grid point is assigned the material whose permittivities differ least on average over the frequencies (absolute value of the complex difference), together with that distance; a grid made of a material's own permittivities is assigned that material with distance zero.",
     ["inputs", "configurations"],
     "all grids, frequency lists and material subsets",
     "Nothing in the tests exercises the assignment; axis mix-ups appear only for grids with several points, layers and frequencies.",
     ["nidn/materials/find_closest_material.py", "nidn/plots/plot_material_grid.py", "nidn/plots/plot_eps_per_point.py"],
     [("assignment", "nidn/materials/find_closest_material.py:_find_closest_material")],
     ["_find_closest_material return value, material grid plot"])

prop("P18", "Regression models map to permittivity grids within the configured ranges",
     "For every regression model and configuration the permittivity at a grid point and frequency is the model output at the matching coordinate (position, layer, frequency), mapped linearly from the unit interval to the configured real and imaginary ranges, each model point filling one oversampling block; voxel models give their own values clipped to the ranges. "
     "All values lie within the ranges (also with noise), except that with zero avoidance enabled real parts closer to zero than the cut-off are moved to the cut-off with their sign.",
     ["inputs", "configurations"],
     "all model types and outputs, grid sizes, oversampling factors, ranges, layer thicknesses, frequency distributions and noise settings",
     "Tests check the shape and the range of one grid; coordinate order, block order and frequency assignment are never compared.",
     ["nidn/training/model/model_to_eps_grid.py", "nidn/training/utils/voxel.py"],
     [("regression mapping", "nidn/training/model/model_to_eps_grid.py:_regression_model_to_eps_grid"),
      ("model inputs", "nidn/training/model/model_to_eps_grid.py:_eval_model"),
      ("zero avoidance", "nidn/training/model/model_to_eps_grid.py:_avoid_zero_eps")],
     ["nidn.model_to_eps_grid return value"])

prop("P19", "Classification models map to material mixtures",
     "For every classification model and configuration each grid point gets material weights that are non-negative, sum to one, do not depend on frequency and follow the sharpened softmax of the frequency-averaged model output, filling one oversampling block per model point. "
     "The permittivity is the mixture of the material permittivities with these weights at each frequency, so a confident model yields exactly one shipped material, and both are returned together.",
     ["inputs", "configurations"],
     "all model outputs, grid sizes, oversampling factors, frequency lists and noise settings",
     "The only classification test checks one default configuration's shapes.",
     ["nidn/training/model/model_to_eps_grid.py", "nidn/materials/material_collection.py"],
     [("classification mapping", "nidn/training/model/model_to_eps_grid.py:_classification_model_to_eps_grid")],
     ["nidn.model_to_eps_grid return value"])

prop("P20", "The training loss measures the distance between spectra",
     "For all spectra, targets and exponents the spectrum loss is the mean over all frequencies and channels (reflectance, transmittance and, when enabled, absorptance) of the absolute deviation raised to the exponent; points with reflectance plus transmittance above one are first rescaled to sum to one and this is reported. "
     "The loss is zero exactly when the target is met, and the likelihood regularisation is the mean distance of the material weights from the nearer of zero and one (or, on request, of the largest weight of each point from one), zero only for pure materials.",
     ["inputs", "configurations"],
     "all produced and target spectra, exponents, spectrum lengths, absorption settings and material weights",
     "The tests only see the loss decrease; a wrong weight or a dropped channel still decreases.",
     ["nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py", "nidn/training/run_training.py"],
     [("spectrum loss", "nidn/training/losses/spectrum_loss.py:_spectrum_loss_fn"),
      ("regularisation", "nidn/training/losses/likelihood_regularization_loss.py:_likelihood_regularization_loss_fn")],
     ["loss functions, loss log of run_training"])

prop("P21", "Training returns the best model found and truthful logs",
     "For every configuration training evaluates the model once per iteration and logs, in order, the loss of the parameters used in that iteration, its running mean over the last twenty and the mean absolute error; the parameters are updated by the gradient of exactly that loss. "
     "The returned model (and the stored state) is the one with the lowest loss among the iterations whose spectrum needed no renormalisation, or the initial one if there is none, and a run without iterations' worth of improvement never returns something worse than its start.",
     ["histories", "configurations", "inputs"],
     "all model types, task types, targets, learning rates, iteration counts and loss trajectories including non-monotone ones",
     "Whether the best state survives depends on the trajectory; tests only check that a run finishes.",
     ["nidn/training/run_training.py", "nidn/training/model/init_network.py", "nidn/training/losses/spectrum_loss.py"],
     [("training loop", "nidn/training/run_training.py:run_training"),
      ("best model bookkeeping", "nidn/training/run_training.py:run_training")],
     ["returned configuration: model, stored state, logs"],
     [("best model state", "snapshot of the parameters with the lowest trusted loss", "nidn/training/run_training.py:run_training")])

prop("P22", "Training survives failing evaluations",
     "Whenever the simulation of an iteration fails because the model produced NaN (at any iteration, any number of times, caused by the forward output or by NaN gradients in an earlier step) training does not stop: it returns to the best parameters so far, halves the learning rate, adds nothing to the logs for that iteration and keeps optimising with finite parameters. "
     "The finally returned model is finite and the best one of the successful iterations.",
     ["fault_sequences", "histories", "configurations"],
     "all sequences of failing iterations, fault kinds, solvers, model and task types",
     "The recovery path is never taken in the tests.",
     ["nidn/training/run_training.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
     [("recovery", "nidn/training/run_training.py:run_training"),
      ("NaN detection", "nidn/trcwa/compute_spectrum_trcwa.py:compute_spectrum_trcwa")],
     ["returned configuration, parameters seen by the model at each call"])

prop("P23", "Training is reproducible from its configuration",
     "Two training runs from equal configurations give bit-identical logs, parameters and permittivities whatever ran before and whatever state the random generators were in, and a different seed gives a different initial model. "
     "Passing an existing model continues from that model instead of a new one.",
     ["configurations", "histories"],
     "all configurations and all prior histories of random number use in the process",
     "A test compares nothing across runs; a random draw before seeding is invisible in one run.",
     ["nidn/training/run_training.py", "nidn/utils/fix_random_seeds.py", "nidn/training/model/init_network.py", "nidn/training/utils/voxel.py", "nidn/training/utils/siren.py", "nidn/training/utils/nerf.py"],
     [("seeding", "nidn/utils/fix_random_seeds.py:fix_random_seeds"),
      ("initialisation order", "nidn/training/run_training.py:_init_training")],
     ["returned configuration: logs, model parameters"])

prop("P24", "Invalid configurations are refused, valid ones accepted",
     "Every configuration with a missing or unknown entry, a wrongly typed entry, or a value outside its documented range (non-positive sizes or counts, reversed ranges, unknown options, wrong list lengths, any bad element of a list) is refused with an error before training or simulation starts, whichever entry and element it is. "
     "Every configuration that satisfies these rules is accepted, validation never changes the configuration, and loading the default configuration always gives the same fresh valid one.",
     ["configurations"],
     "all single- and multi-entry corruptions of valid configurations and all valid configurations",
     "The test validates the default configuration only.",
     ["nidn/utils/validate_config.py", "nidn/utils/load_default_cfg.py", "nidn/utils/compute_spectrum.py", "nidn/training/run_training.py"],
     [("validation", "nidn/utils/validate_config.py:_validate_config"),
      ("defaults", "nidn/utils/load_default_cfg.py:load_default_cfg")],
     ["nidn.compute_spectrum and nidn.run_training exceptions"])

prop("P25", "Saved runs load back identically and are never overwritten",
     "For every sequence of saves and loads, loading a saved run gives back the complete configuration with equal settings, logs, material data and a model with equal parameters and outputs, independent of later changes to the original. "
     "Every save creates its own file in the requested results folder carrying the run name, and no save destroys an earlier one.",
     ["histories", "configurations"],
     "all sequences of save and load operations, run names, folders and configurations with trained models of any type",
     "Nothing in the tests saves a run.",
     ["nidn/training/save_run.py", "nidn/training/load_run.py"],
     [("save", "nidn/training/save_run.py:save_run"), ("load", "nidn/training/load_run.py:load_run")],
     ["files below ../results, load_run return value"])

prop("P26", "Plots show the data they claim to show",
     "For every run the plots draw exactly the underlying data: produced and target spectra against wavelength in micrometres with their mean absolute error, absorptance as the remainder, the three logged losses, and per grid point the permittivity (norm, magnitude of the mean, real and imaginary part at the chosen frequencies), the closest material or its error. "
     "Each grid value is drawn at its own grid position and layer on a colour scale that covers it, curves over the requested value range, and each plot is written to the requested folder and file.",
     ["inputs", "configurations"],
     "all grid sizes, frequency lists, spectra, logs, selections and file names",
     "The tests contain no plotting; a transposed grid or a reversed axis gives a perfectly good-looking figure.",
     ["nidn/plots/plot_spectra.py", "nidn/plots/plot_spectrum.py", "nidn/plots/plot_losses.py", "nidn/plots/plot_model_grid.py", "nidn/plots/plot_model_grid_per_freq.py", "nidn/plots/plot_material_grid.py", "nidn/plots/plot_epsilon_grid.py", "nidn/plots/plot_eps_per_point.py", "nidn/plots/save_all_plots.py"],
     [("plots", "nidn/plots"), ("all plots", "nidn/plots/save_all_plots.py:save_all_plots")],
     ["matplotlib figures at the moment they are saved"])

prop("P27", "Networks are pointwise functions of their inputs within the unit interval",
     "For every architecture setting (coordinate networks of either kind with any width, depth and frequency parameter) the network maps each input row independently of the other rows and of the batch order to finite outputs in the unit interval with the requested number of features, computed by the documented layer sequence from its parameters; sine networks start with weights spread uniformly over the range prescribed for each layer. "
     "Voxel models hold one independent value per grid point, layer and frequency, initialised inside the configured ranges, and every parameter receives a gradient.",
     ["inputs", "configurations"],
     "all widths, depths, frequency parameters, batch sizes and inputs",
     "Only the default architecture is ever built in the tests.",
     ["nidn/training/model/init_network.py", "nidn/training/utils/nerf.py", "nidn/training/utils/siren.py", "nidn/training/utils/voxel.py"],
     [("architecture choice", "nidn/training/model/init_network.py:init_network"),
      ("sine network", "nidn/training/utils/siren.py:Siren"), ("skip network", "nidn/training/utils/nerf.py:NERF")],
     ["network outputs"])

prop("P28", "The batch script trains, saves and plots every configuration",
     "For every folder of configuration files with distinct run names the batch script trains each of them independently (with the same outcome as training it alone), and stores one run file and the complete set of plots per configuration in its own results folder, leaving other files alone. "
     "Files that are not configurations are ignored.",
     ["configurations", "histories"],
     "all sets of configuration files, orders and contents",
     "The script is not covered by any test.",
     ["nidn/scripts/run_cfgs.py", "nidn/training/save_run.py", "nidn/plots/save_all_plots.py"],
     [("batch loop", "nidn/scripts/run_cfgs.py")],
     ["results folder"])

prop("P29", "Pictures and stored readings of an FDTD grid show its actual content",
     "For every two- or three-dimensional FDTD grid and every projection plane, Grid.visualize draws the field energy (the sum of all squared E and H components) of exactly that plane, cell by cell on the named axes (only the cell under a point source may be blanked), marks every source, detector, object, PML and periodic boundary at the cells it occupies, and leaves fields and records untouched; contradictory or missing projections are refused. "
     "Grid.save_simulation creates its own folder and Grid.save_data stores there the complete record of every detector under its name; Grid.generate_video writes the video of the stored frames into that folder, deletes the frames only on request and after success, reports a failing ffmpeg, and always keeps the working directory; decibel maps and detection plots of stored readings show the swing of the chosen component and the envelopes and arrival times of the pulses.",
     ["inputs", "histories"],
     "all grid shapes, component placements, fields, projections, planes and numbers of steps",
     "The tests never draw or store a grid; a swapped coordinate gives a good-looking picture.",
     ["nidn/fdtd/visualization.py", "nidn/fdtd/grid.py", "nidn/fdtd/detectors.py"],
     [("projection drawing", "nidn/fdtd/visualization.py:visualize"), ("storing readings", "nidn/fdtd/grid.py:Grid.save_data"),
      ("decibel map", "nidn/fdtd/visualization.py:dB_map_2D"), ("detection plot", "nidn/fdtd/visualization.py:plot_detection")],
     ["matplotlib figure, detector_readings.npz"])

prop("P30", "Components go where they fit and are refused where they do not",
     "For every FDTD grid (its shape given in cells or in metres) and every sequence of placements, a component that fits is taken, appears once in the grid's list of its kind, is reachable as an attribute under its name, is listed by str(grid) as the component it is, and the grid then runs with finite fields and one detector record per step. "
     "Refused with an error are: point sources on more than one cell, line sources on fewer than two cells, plane sources that are not flat in exactly one direction or polarised along it or along no axis, index lists of different lengths, objects on index lists or slices with a step, absorbing and periodic boundaries that are not at an edge or whose side is already taken, more than three indices, and names the grid already uses.",
     ["inputs", "histories"],
     "all grid shapes, component kinds, placements by index, slice, list or distance, names and orders of placement",
     "The tests only place components correctly; a misplaced component that is taken silently gives a wrong or NaN simulation.",
     ["nidn/fdtd/grid.py", "nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/objects.py", "nidn/fdtd/boundaries.py"],
     [("placing", "nidn/fdtd/grid.py:Grid.__setitem__"), ("plane checks", "nidn/fdtd/sources.py:PlaneSource._handle_slices"),
      ("line checks", "nidn/fdtd/sources.py:LineSource._handle_slices"), ("boundary sides", "nidn/fdtd/boundaries.py:PML._register_grid"),
      ("object checks", "nidn/fdtd/objects.py:Object._handle_slice")],
     ["exceptions of grid[...] = component", "grid attributes and lists"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
