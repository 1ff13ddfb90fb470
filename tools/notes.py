G = "Holds on every generated case; assurance is that of random search with shrinking, no proof. "
NOTES = {
 "P01": ("property-based testing, differential oracle (thin-film recursion)", G + "Trusts the numpy thin-film recursion."),
 "P02": ("property-based testing, differential oracle (independent coupled-wave solver)", G + "Trusts the numpy coupled-wave solver, up to 34 requested orders and 3 layers."),
 "P03": ("property-based testing, invariant (energy balance) and differential absorption", G + "Slack 1e-4 for the solver's frequency damping."),
 "P04": ("metamorphic property-based testing", G + "Relations compare NIDN with itself."),
 "P05": ("property-based testing, differential oracle (coupled-wave solver, Fresnel film)", G + "Trusts the numpy reference and its plane-wave conventions."),
 "P06": ("property-based testing, differential and invariant oracles on fields", G + "Trusts the numpy reference fields and Gauss quadrature."),
 "P07": ("property-based testing, autograd versus finite differences", G + "Cases where the two finite differences disagree are skipped and counted."),
 "P08": ("property-based testing over call sequences and injected bad inputs", G + "Checks documented configuration entries only."),
 "P09": ("property-based testing, differential oracle (numpy Yee model)", G + "Trusts the numpy Yee model of update order, PML and boundaries."),
 "P10": ("property-based testing, reference model of sources and detectors", G + "Trusts the numpy Yee model."),
 "P11": ("stateful and metamorphic property-based testing over run/reset histories", G + "Histories up to a few hundred steps."),
 "P12": ("property-based testing, differential pipeline and thin-film oracle", G + "Rounding ties of grid cells are excluded; thin-film comparison is loose (grid dispersion)."),
 "P13": ("property-based testing, reference model and metamorphic relations on signals", G + "Steady-state detection is modelled as documented."),
 "P14": ("property-based testing, round-trip and reference formulas", G),
 "P15": ("property-based testing, reference model over the shipped tables", G + "Reads the CSV tables of the tree itself."),
 "P16": ("property-based testing, reference rasteriser", G),
 "P17": ("property-based testing, brute-force reference", G + "Ties in distance may resolve either way."),
 "P18": ("property-based testing, reference mapping with probing models", G),
 "P19": ("property-based testing, reference softmax mixture", G),
 "P20": ("property-based testing, reference formula", G),
 "P21": ("property-based testing, differential training loop and history invariants", G + "Small models and few iterations."),
 "P22": ("fault injection with generated fault schedules, reference training loop", G + "Faults are NaN outputs and NaN gradients."),
 "P23": ("property-based testing, repeated runs under perturbed global state", G),
 "P24": ("property-based testing, mutation of valid configurations", G),
 "P25": ("stateful property-based testing of save/load histories in scratch directories", G),
 "P26": ("property-based testing, intercepted figures against the data", G + "Judges the drawn artists, not pixels."),
 "P27": ("property-based testing, reference forward passes and metamorphic relations", G),
 "P28": ("property-based testing over generated folders in scratch directories", G),
 "P29": ("property-based testing, drawn figures and stored files against the grid", G + "Judges the drawn artists by bounding boxes, not pixels."),
 "P30": ("property-based testing, placement histories against a model of names and sides", G + "What a refused component leaves behind is not judged."),
}
