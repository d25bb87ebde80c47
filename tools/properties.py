"""The properties and the manifest: ``python tools/properties.py`` writes properties.jsonl and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FG = "drdmannturb/fluctuation_generation/"
SF = "drdmannturb/spectra_fitting/"
LF = FG + "low_frequency/fluctuation_field_generator.py"
GEN = FG + "fluctuation_field_generator.py"
OPS = SF + "one_point_spectra.py"
CAL = SF + "calibration.py"
LOSS = SF + "loss_functions.py"


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


PROPS = [
    P("C01", "Kernels are square roots of the documented spectral tensor",
      "At every wave vector the matrix a covariance kernel supplies to the field samplers, multiplied by its own transpose, equals the documented spectral tensor: the isotropic von Karman tensor, or that tensor after linear shear distortion over the documented eddy lifetime. "
      "This includes wave vectors with zero streamwise component (where the limit is taken) and the zero vector (where it vanishes), negative wave numbers, and any length scale, amplitude and time scale; every entry is finite and real.",
      ["inputs", "configurations"], "every wave vector of every frequency grid (regular or not), every admissible scale triple, both closed-form kernels",
      "Tests only construct kernels inside one generator configuration and never compare a tensor entry with a formula; the claim is over all wave vectors and scales.",
      [FG + "covariance_kernels.py", "drdmannturb/common.py"],
      [("von Karman and Mann kernels", FG + "covariance_kernels.py: VonKarmanCovariance/MannCovariance.precompute_Spectrum"), ("lifetime", "drdmannturb/common.py: MannEddyLifetime")],
      "runtime differential oracle (float64 reference tensor) over randomised frequency grids",
      "Every value of the real kernels on the generated grids is compared with an independent float64 tensor; bounded by the number of grids drawn. Trusts the reference formula and scipy's incomplete beta function."),
    P("C02", "Generated turbulence is incompressible",
      "Fluctuation fields contain no dilatational part: every kernel's output is orthogonal to the wave vector for any noise, every periodic three-dimensional sample has vanishing spectral divergence, and every two-dimensional low-frequency field has vanishing horizontal spectral divergence on its periodic computational grid. The divergence a model reports for a spectral tensor is the tensor's contraction with the wave vector relative to a third of its trace, and vanishes for the documented tensor.",
      ["inputs", "configurations"], "all kernels (closed-form and data-driven), grids with unequal counts and spacings, all noise arrays, all 2D configurations",
      "A divergence test would sample one grid and one noise array; the identity must hold for all modes, spacings and kernels.",
      [FG + "covariance_kernels.py", FG + "nn_covariance.py", FG + "sampling_methods.py", LF],
      [("curl form of the kernel", FG + "covariance_kernels.py: precompute_Spectrum"), ("network kernel", FG + "nn_covariance.py: precompute_Spectrum"), ("reported divergence", "drdmannturb/spectra_fitting/one_point_spectra.py: get_div"), ("2D synthesis", LF + ": _generate_numba_helper")],
      "runtime monitor: spectral divergence of kernels and generated arrays",
      "Checks the invariant itself on every mode of every generated array (Nyquist planes excluded); single-precision tolerances."),
    P("C03", "A generator built from a saved fit realises the fitted model",
      "A field generator constructed from a saved calibration uses exactly the fitted spectral tensor, converted to physical units with the reference height and friction velocity: the tensor it samples from is the saved model's energy spectrum (including learned exponents) and learned eddy lifetime under shear at each physical wave vector. "
      "Its fields and the one-point spectra implied by its tensor agree with the saved model's own predictions.",
      ["inputs", "configurations", "histories"], "all saved network models (architecture, weights, exponent, learned or fixed spectrum exponents, scales), all reference heights, friction velocities and grids",
      "Tests save and load but never compare the generator's tensor with the fitted model; the claim quantifies over all fitted parameters and units.",
      [FG + "nn_covariance.py", GEN, CAL],
      [("network kernel", FG + "nn_covariance.py"), ("loading and unit conversion", GEN + ": FluctuationFieldGenerator.__init__"), ("saving", CAL + ": save_model")],
      "runtime differential oracle: generator tensor and fields vs saved model in float64",
      "Compares every mode on the drawn grids with an independent evaluation of the saved network; single-precision tolerance 3e-4 of the trace."),
    P("C04", "One-point spectra are the documented integrals of the spectral tensor",
      "For every model, wave number and quadrature grid, the six one-point spectra returned are k1 times the documented integral of the documented sheared spectral tensor over the transverse wave numbers, in the documented component order. "
      "Each requested wave number is answered on its own, whatever its neighbours, order or repetition; autospectra are non-negative, the Schwarz inequality holds, and the amplitude scales them linearly.",
      ["inputs", "configurations"], "all lifetimes, learnable or fixed energy spectrum, scales, integration settings, precisions, and wave-number vectors of any order",
      "Existing tests check one model's fitted loss; the integral identity ranges over all inputs and models.",
      [OPS, "drdmannturb/common.py"],
      [("quadrature", OPS + ": OnePointSpectra.forward/quad23"), ("tensor", OPS + ": PowerSpectra"), ("scales", OPS + ": exp_scales/update_scales")],
      "runtime differential oracle (float64 quadrature of the reference tensor) and algebraic invariants",
      "Same quadrature rule on an independent tensor, plus closed-form isotropic limit; one listed finding (vanishing cross spectra are clipped)."),
    P("C05", "Eddy lifetimes and energy spectra have their documented form",
      "Each selectable eddy lifetime equals its documented function of the dimensionless wave vector (hypergeometric, its fitted power-law surrogate, constant, two-thirds law, or the network with its rational envelope), scaled by the time scale; each energy spectrum equals its closed form. "
      "Lifetimes are positive and finite off the origin, follow the documented power laws at small and large wave numbers, and depend on the magnitude of each component only, for tensors of any batch shape.",
      ["inputs", "configurations"], "all wave vectors over eight decades, all lifetime types, network depths, widths, activations and exponents, all scale values",
      "Tests evaluate no lifetime values; asymptotics and symmetry are statements over all wave vectors and networks.",
      ["drdmannturb/common.py", "drdmannturb/nn_modules.py", OPS, SF + "eddy_lifetime.py"],
      [("closed forms", "drdmannturb/common.py"), ("network and rational envelope", "drdmannturb/nn_modules.py"), ("dispatch", OPS + ": EddyLifetime")],
      "runtime differential oracle (closed forms in float64) and symmetry/asymptotic monitors",
      "Samples wave vectors and networks; each value is compared with an independent evaluation."),
    P("C06", "Spectral coherence is the documented normalised cross-spectrum",
      "The model coherence returned for any wave numbers and separations is the squared modulus of the documented cross-spectrum over the product of autospectra, computed with the model's current scales and the coherence integration settings. "
      "It lies in [0, 1], is one at zero separation, even in the separation and independent of the amplitude, and after a calibration rows and columns still belong to their separation and frequency.",
      ["inputs", "configurations", "histories"], "all models, wave numbers, separations in any order, all parameter histories before the evaluation",
      "No existing test evaluates coherence against its definition; it ranges over all models and call histories.",
      [OPS, CAL], [("coherence", OPS + ": SpectralCoherence"), ("frequency to wave number", CAL + ": _compute_model_coherence")],
      "runtime differential oracle (float64 cross-spectrum) and bound monitors",
      "Independent quadrature on the same documented grid; tolerances 2e-4 (single) and 1e-7 (double)."),
    P("C07", "The calibration objective is the documented one, and its gradient is used",
      "Every recorded value of the objective equals the documented weighted sum of misfit, slope and curvature penalties, network regularisation and coherence misfit on the data the caller supplied, component by component. "
      "The gradient the optimiser receives is the derivative of that objective with respect to the model parameters.",
      ["inputs", "configurations"], "all weights, wave numbers, data, component counts, models and parameter values",
      "Tests see only that a loss falls; the identity of value and gradient must hold at every point visited.",
      [LOSS, CAL], [("terms", LOSS + ": LossAggregator"), ("closure", CAL + ": calibrate")],
      "runtime monitor of recorded terms and gradients vs float64 recomputation and central differences",
      "Terms recomputed exactly; gradients by central differences in double precision. One listed finding (the coherence term carries no gradient)."),
    P("C08", "A calibration completes, never worsens the fit, and reports what it found",
      "On valid data every supported configuration runs to completion within the requested number of epochs or stops below the tolerance; with the line-search optimiser the objective never ends above its start. "
      "The scales returned and printed are those of the model as it stands afterwards, noise is added only when requested, and data generated by a model with known scales are fitted back to those scales.",
      ["inputs", "configurations", "histories"], "all combinations of lifetime, component count, learnable parts, noise, weights, optimiser, precision, epochs and coherence data",
      "Each test runs one configuration; most combinations of options are never executed together.",
      [CAL, "drdmannturb/parameters.py"], [("training loop", CAL + ": calibrate"), ("scales", CAL + ": log_dimensional_scales")],
      "runtime monitoring of complete calibrations (optimiser step recorder, objective recomputation)",
      "Small quadratures and few epochs per run; monotonicity only for strong-Wolfe L-BFGS."),
    P("C09", "A fitted model survives saving, loading and copying",
      "Saving a model and building a new one from the file's settings and parameter vector gives the same parameters bit for bit and the same spectra; saving changes nothing and writes exactly one file where asked. "
      "The parameter vector has the documented layout and length, writing it makes the model independent of the caller's array, and vectors of another length are refused without effect.",
      ["inputs", "histories", "configurations"], "all models and architectures, all histories of reads, writes, rejected writes, evaluations and saves",
      "Tests round-trip one model; aliasing and ordering show only in particular histories of reads and writes.",
      [CAL], [("vector access", CAL + ": parameters"), ("saving", CAL + ": save_model")],
      "runtime monitor: round-trip and aliasing oracle over random histories",
      "Bitwise comparison across random histories of operations."),
    P("C10", "Results depend on arguments and seed only, not on history or neighbours",
      "Any evaluation, calibration or generation gives the same result whatever was evaluated before in the same process, whatever other objects exist, share configuration or run interleaved, and whatever the state of the global random generators (where a seed was given). "
      "Inputs, shared configuration objects and process-wide settings (numerical, random, plotting, warnings, logging, environment) are left as they were.",
      ["histories", "schedules", "configurations"], "all interleavings of operations on several objects, with disturbances of global state in between",
      "Unit tests build fresh objects in a fixed order; leakage needs particular histories.",
      [OPS, CAL, GEN, LF, "drdmannturb/parameters.py"], [("cached quantities", OPS), ("random streams", FG + "gaussian_random_fields.py: reseed")],
      "runtime monitor: isolated-replay oracle over random interleaved histories",
      "Each operation's result is compared with that of a fresh object in isolation."),
    P("C11", "Blocks are consecutive windows of one filtered noise sequence",
      "A seeded generator's field is the documented pipeline applied to one white-noise sequence: successive blocks filter a noise window that advances by exactly one block length, share their overlap, and are cropped to the documented core. "
      "The field is fixed by the seed however its blocks are requested (at once or in several calls), already delivered blocks never change, and shape and ordering are as documented for every grid, buffer and blending width.",
      ["inputs", "histories", "configurations"], "all grids, scales, blending widths, seeds and all ways of splitting a request into calls",
      "Tests check one grid's shape; continuity and chunking independence concern all grids and call histories.",
      [GEN, FG + "gaussian_random_fields.py", FG + "sampling_methods.py"],
      [("block generation", GEN + ": _generate_block"), ("window geometry", GEN + ": __init__"), ("filter", FG + "sampling_methods.py: Sampling_VF_FFTW")],
      "runtime differential oracle: documented pipeline in float64 from the recorded seed",
      "Whole fields compared value by value; single-precision transform tolerance."),
    P("C12", "Each block has unit rms about exactly the requested mean profile",
      "Every delivered block is a fluctuation with unit root-mean-square over all components and points plus the documented logarithmic or power-law mean profile in the streamwise component only, identical at every horizontal position. "
      "The fluctuation does not depend on the profile, friction velocity, reference height or spectrum amplitude, and different blocks may use different profiles.",
      ["inputs", "histories", "configurations"], "all profiles, kernels, grids and histories of requests with changing profiles",
      "Tests never subtract the profile; the identity must hold for all profiles and blocks.",
      [GEN], [("normalisation", GEN + ": _normalize_block"), ("profiles", GEN + ": log_law/power_law")],
      "runtime monitor: profile subtraction and rms oracle over histories of requests",
      "Exact profile formula; rms to 2e-6."),
    P("C13", "Samplers apply exactly the documented filter to exactly the given noise",
      "A random-field sampler returns the documented inverse transform of the given noise weighted by the kernel's spectrum, for scalar and vector fields and every transform type; it is linear in the noise and, for periodic transforms, commutes with shifts. "
      "Seeds fix the noise, the noise has the documented variance, results do not depend on the number of FFT threads or on other fields sampled concurrently, and neither inputs nor earlier results are modified.",
      ["inputs", "schedules", "configurations", "histories"], "all grid sizes (odd, even, prime, one), spacings, transforms, noises, thread counts and concurrent use",
      "Tests run one sampler on one grid with one thread schedule; aliasing and threading faults need particular histories and schedules.",
      [FG + "sampling_methods.py", FG + "gaussian_random_fields.py"],
      [("transforms", FG + "sampling_methods.py"), ("noise", FG + "gaussian_random_fields.py: sample_noise")],
      "runtime differential oracle (numpy/scipy float64) plus thread-count and concurrency stress",
      "Five samplers, thread counts 1-3 and default, concurrent sampling in threads."),
    P("C14", "The low-frequency generator's grid and synthesis follow their definition",
      "The two-dimensional generator's computational grid is isotropic at the finer requested spacing, even, at least five length scales and the requested domain long, and its field is the documented spectral filter applied to the white noise drawn from its stream, of which the centred window of the requested shape is returned. "
      "The answer is the same for any number of threads, never reads or writes outside its arrays, and has the documented variance constant.",
      ["inputs", "configurations", "schedules"], "all variances, length scales, anisotropy angles, layer heights, domain factors and grid exponents; all thread counts",
      "Tests use a handful of configurations and one thread count; compiled parallel loops fail only at particular sizes or schedules.",
      [LF], [("grid", LF + ": _calculate_buffer_sizes"), ("synthesis", LF + ": generate/_generate_numba_helper"), ("constant", LF + ": _compute_c")],
      "runtime differential oracle (float64 numpy), index-checked build, thread-count sweep",
      "Also run with numba bounds checking (sanitizer role) and unoptimised. One listed finding (anisotropic request)."),
    P("C15", "Low-frequency spectra: estimator, theory and their agreement",
      "The estimated one-dimensional spectra of a field sum its periodogram over transverse wave numbers at every positive wave number including the highest, conserving variance and independent of grid orientation; the theoretical spectra equal the documented integral to the stated accuracy at every wave number, however far from the length scales. "
      "Averages of estimates over realisations agree with the theory.",
      ["inputs", "configurations"], "all configurations, arbitrary fields (single waves, noise), ten decades of wave number",
      "Tests compare one coarse case with loose bounds; quadrature and binning errors live at particular wave numbers.",
      [LF], [("estimator", LF + ": compute_spectrum"), ("theory", LF + ": analytical_spectrum")],
      "runtime differential oracle (numpy FFT sums, dense quadrature), Parseval monitor, ensemble statistics",
      "Ensemble agreement is statistical (8 standard errors)."),
    P("C16", "The combined field is the 3D field plus the 2D field at the right place",
      "With a low-frequency model configured, the result is the field of the same seed without it plus, at every height alike, the two-dimensional field interpolated bilinearly at positions running on continuously through all blocks and centred laterally, and zero beyond the two-dimensional domain; the vertical component is untouched. "
      "Equal seeds give equal combined fields however the blocks are requested.",
      ["inputs", "histories", "configurations"], "all pairs of 3D and 2D configurations (longer, shorter, wider, narrower) and histories of requests",
      "Tests check one configuration's shape; placement errors appear in later blocks or particular domain ratios.",
      [GEN, LF], [("combination", GEN + ": generate"), ("interpolation", LF + ": interp_slice")],
      "runtime differential oracle: independent interpolation and subtraction of the uncombined field",
      "Value by value over all blocks; bilinear interpolation reimplemented."),
    P("C17", "Synthetic and measured data mean what they say",
      "Synthetic spectra equal the published Kaimal and von Karman formulas at every wave number, in the requested order and precision and with the documented sign of the shear component. "
      "Measured coherence is attributed to its separation and frequency whatever the order, gaps or numbering of the file's rows, missing values stay missing, and loading a second file leaves nothing of the first.",
      ["inputs", "histories"], "all wave numbers and parameters; all row orders, gaps and index numberings of a file; sequences of files",
      "Tests load one ordered complete file; order and gap dependence needs other files.",
      [SF + "data_generator.py", CAL], [("formulas", SF + "data_generator.py"), ("coherence file", CAL + ": load_coherence_data")],
      "runtime differential oracle (formulas in float64; table the file was written from)",
      "Random files and inputs. One listed finding (the custom CSV loader is unfinished)."),
    P("C18", "Exports, divergence and field plots show the generated field",
      "An exported file holds every value of the field at its own grid point with the generation spacing; the divergence is the sum of the documented finite differences with the given spacing; every plot places each value at its own coordinates. "
      "None of them changes the field.",
      ["inputs", "configurations", "histories"], "all fields, unequal counts and spacings, path types, order of generation and export",
      "Tests check that files exist at most; transposition shows only with unequal counts and values read back.",
      [GEN, FG + "wind_plot.py", LF], [("export", GEN + ": save_to_vtk"), ("divergence", GEN + ": evaluate_divergence"), ("plots", FG + "wind_plot.py")],
      "runtime monitor: independent file parser and figure inspection",
      "Parses the written VTK and the arrays inside figures."),
    P("C19", "Inadmissible input is refused, and refusal changes nothing",
      "Non-positive or missing scales, unknown model, profile or sampler names, wrong numbers of components, dimensions, layers, sizes or activations, data with missing values, missing files or settings, and requests made before anything was generated or fitted are refused with an error where they enter. "
      "An object that refused a request keeps its parameters and stored field and serves later valid requests; admissible neighbours of refused inputs are accepted, and every advertised name is exported.",
      ["inputs", "histories", "configurations"], "all inadmissible variants of all admissible configurations, at any point of an object's history",
      "Tests probe a few fixed bad inputs; the claim is over all places where an input can be wrong.",
      ["drdmannturb/parameters.py", "drdmannturb/nn_modules.py", OPS, CAL, LOSS, GEN, LF, FG + "gaussian_random_fields.py", FG + "covariance_kernels.py", "drdmannturb/__init__.py"],
      [("validation of fits", CAL + ": __init__, log_dimensional_scales, calibrate"), ("validation of generation", GEN + ": __init__, _normalize_block"), ("network", "drdmannturb/nn_modules.py: TauNet.__init__"), ("data", LOSS + ": NaN checks")],
      "runtime monitor: mutation of admissible inputs, refusal and state oracle",
      "Randomised admissible configurations with one defect each."),
    P("C20", "Training diagnostics tell what happened",
      "The recorded loss terms, their moving averages, window statistics and the learning-rate advice are those of the objective values actually evaluated; the learning rate of every optimiser step is the documented schedule times the advised factors. "
      "The event log holds exactly the recorded terms in order, and the loss plot shows them.",
      ["histories", "inputs", "configurations"], "all sequences of objective evaluations, windows and epochs",
      "No test looks at diagnostics; windows and schedules matter only over long histories.",
      [LOSS, CAL, "drdmannturb/common.py"], [("records and advice", LOSS + ": LossAggregator"), ("schedule", CAL + ": calibrate"), ("loss plot", "drdmannturb/common.py: plot_loss_logs")],
      "runtime monitor: event-log and optimiser trace vs recomputed history",
      "Offline check of the recorded event log and optimiser trace."),
    P("C21", "Calibration plots show the model and data they claim to show",
      "Each panel of the spectra figure shows, under its own component's name and with the shear component negated, the current model's spectrum and the supplied data for exactly the components provided; the lifetime and coherence figures show the current lifetime, the reference and the measured and model coherence at their own abscissae. "
      "Saving writes exactly the named image files in the requested directory, and plotting changes neither model nor data.",
      ["inputs", "configurations", "histories"], "all models, component counts, friction velocities, data or precomputed values passed, file names and repeated plots after parameter changes",
      "Tests call no plotting function; a swapped or stale curve is visible only by inspecting figure contents.",
      [CAL], [("figures", CAL + ": plot/_plot_coherence_data")],
      "runtime monitor: inspection of every curve in the figures and of the files written",
      "Figure contents compared with data and with the model's own values."),
    P("C22", "An omitted setting means its documented default",
      "Leaving out any optional argument or setting gives exactly the result of passing its documented default explicitly: for parameter classes, models, networks, calibrations, synthetic data, training records, samplers, field generators, low-frequency spectra and plots. "
      "This holds whatever was constructed or run before with other values: no default is remembered, shared between objects or altered by use.",
      ["inputs", "configurations", "histories"], "every subset of optional arguments of every public constructor, function and method, after any history of other uses",
      "Tests use one fixed choice of given and omitted arguments; the claim ranges over all subsets and over what ran before.",
      ["drdmannturb/parameters.py", "drdmannturb/nn_modules.py", OPS, CAL, LOSS, SF + "data_generator.py", GEN, LF, FG + "gaussian_random_fields.py", FG + "covariance_kernels.py", FG + "wind_plot.py"],
      [("settings", "drdmannturb/parameters.py"), ("calibration", CAL + ": CalibrationProblem.__init__, calibrate"), ("generation", GEN + ": FluctuationFieldGenerator.__init__"), ("networks", "drdmannturb/nn_modules.py: TauNet, Rational")],
      "runtime metamorphic monitor: omitted vs spelled-out arguments over random subsets and histories",
      "Bitwise or rounding-level comparison of whole results; the table of documented defaults is part of the check."),
    P("C23", "Low-frequency studies report the fields they generated",
      "The study functions of the low-frequency model report what the generator produced: the variances, norms and spectra they return, print and plot are those of the very fields generated for each configuration of the study, averaged over the realisations and attributed to their own mesh, domain size, angle or wave number, beside the target variance or theoretical spectra of that configuration. "
      "Every member of a study is generated, one that fails leaves the others' results in place, the given configuration is not altered, and pictured fields sit at their own coordinates.",
      ["inputs", "configurations", "schedules", "fault_sequences"], "all studies, base configurations, numbers of realisations, members (sizes, angles), completion orders of the worker processes and failing members",
      "No test runs a study; a wrong average, a curve at its neighbour's abscissa or a completion-order dependence shows no error.",
      [FG + "low_frequency/large_plot.py", LF],
      [("studies over sizes", FG + "low_frequency/large_plot.py: mesh_independence_study, domain_size_study, length_AND_grid_size_study, rectangular_domain_study"), ("studies of spectra and angles", FG + "low_frequency/large_plot.py: plot_spectra_comparison, recreate_fig2, anisotropy_study")],
      "runtime monitor: record of every generated field (across worker processes, with injected delays and failures) vs what the study returned, printed and drew",
      "Studies of fixed large size run with a stand-in for the generator's field; the others run the real one."),
]

SKIP = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
            }) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": f"{PY} -c 'import drdmannturb, numpy, scipy, torch, numba'",
            "hooks": {"guard": "DRDMANNTURB_VERIF", "enable": "No hook is needed: every monitor attaches from outside (the checks import /repo's working tree); the variable is reserved and unused.", "source_commits": []},
            "checks": [{
                "property": p["id"],
                "quick_cmd": f"{PY} checks/run.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough {PY} checks/run.py {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            } for p in PROPS],
            "not_applicable": SKIP,
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
