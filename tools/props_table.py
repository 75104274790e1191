EXH = "bounded-exhaustive enumeration of the input/configuration space on the real code against an independent reference model"

prop("R01", "Faraday spectrum is the weighted transform of exactly the unflagged data",
 "For 1-, 2- and 3-dimensional Stokes Q and U arrays, weights, channels in any frequency order and any grid of Faraday depths, the spectrum of each pixel equals sum(w*P*exp(-2i*phi*(lambda^2-lambda0^2)))/sum(w) over exactly the channels where both Q and U are unflagged (NaN), with a NaN weight counting as zero, to the requested numerical precision. lambda0^2 is the weighted mean of lambda^2 over the channels that are unflagged in at least one pixel, unless the caller supplies a value, which is then used unchanged. A pixel without any unflagged non-zero signal is returned as NaN, and the caller's arrays are never modified.",
 ["inputs", "configurations"],
 "every assignment of {flagged, zero, values} to the channels of 1-3 pixels up to the bound, x weight vectors over {0,1,2.5,NaN}, x Faraday grids (symmetric, even/odd, one-sided, irregular, single depth), x channel order, array rank, precision, lambda0 override",
 "the tests transform one simulated line of sight and one small cube without flags, on symmetric grids and with one weighting; a fault that needs a flag pattern, a zero/NaN weight, an asymmetric grid or a particular rank never shows",
 [RM], [("plane-parallel NUFFT with per-pixel normalisation", RM + " do_rmsynth_planes")],
 EXH + " (direct sum)",
 "Every combination in the stated bounds is executed against a direct-sum reference. Trusts numpy and that finufft honours its tolerance; infinities in the data and lambda^2 arrays containing NaN are out of scope.", "exploration")

prop("R02", "RMSF is the response of the same transform to a unit source",
 "The RMSF computed for a flag mask, weights and reference lambda^2 equals, for every pixel, the Faraday spectrum a constant unit polarisation would give with the same flags and weights, so it is exactly 1 at zero depth and conjugate-symmetric, whether all pixels share their flags or not. Its depth axis is the input axis, or in the double-length mode that axis linearly extended by half its length (rounded up) on each side, so that it can be shifted under any channel of the spectrum. The reported main-lobe width is 3.8 divided by the range of lambda^2, or, on request, the width of the Gaussian fitted to the main lobe, and falls back to the former, with status -1, where the fit fails.",
 ["inputs", "configurations"],
 "every flag mask of up to 4 channels x 2 pixels (plus 3-D and larger masks), x weights, grids, lambda0 overrides, double/single length, fit modes, precisions",
 "the tests compute one RMSF without flags; the per-pixel path, partially flagged planes, weights and grids not symmetric about zero are not reached",
 [RM], [("shared and per-pixel RMSF paths", RM + " get_rmsf_planes"), ("main-lobe fit", RM + " fit_rmsf, detect_peak")],
 EXH + " and against the spectrum code (unit source)",
 "Every combination in the stated bounds is executed. A pixel whose channels are all flagged has no defined RMSF and may be 0 or NaN.", "exploration")

prop("R03", "RM-CLEAN conserves flux and stops where asked",
 "For every pixel of a spectrum and RMSF of matching shape, deconvolution returns the components obtained by repeatedly subtracting gain*peak*(RMSF centred on the peak channel) until the residual peak drops below the cutoff or the iteration limit is reached, so that dirty = residual + components convolved with the RMSF and clean = residual + components convolved with a Gaussian of the given width; the iteration count reports the number of subtractions. When a window threshold is given a second stage cleans deeper to that threshold, or to the iteration limit, only within half a FWHM of first-stage components; when none is given there is no second stage. Pixels below the cutoff or undefined (NaN) are returned unchanged with no components, no pixel influences another, and inputs are never modified.",
 ["inputs", "configurations", "histories"],
 "every placement of up to 2 components on a small depth grid x amplitudes/phases x gain x cutoff x iteration limit x window setting x FWHM, arrays of rank 1-3 with mixed pixels, per-pixel RMSFs and NaN pixels; each run is a state machine whose every iteration is compared with a reference Hogbom machine",
 "the tests clean one spectrum and one cube with defaults and compare a few summary numbers; window mode, edge components, iteration limits, NaN pixels and mixed cubes are not reached",
 [RM, C1, C3], [("two-stage Hogbom loop", RM + " RMcleaner._cleanloop"), ("pixel selection and restore", RM + " do_rmclean_hogbom")],
 "explicit-state comparison of the CLEAN loop with a reference Hogbom transition system, exhaustive over small spectra",
 "Every spectrum/configuration in the bounds is cleaned by the real code and by a reference transition system. Depth grids are regular and odd/even symmetric about zero. Ties between equally strong peaks are accepted either way (the invariants still apply).")

prop("R04", "Parallel runs give the serial answer under every schedule",
 "Deconvolving a cube, fitting a Stokes I cube and rescaling model maps with any number of workers, any chunk size and any order in which workers pick up and finish tasks give exactly the serial outputs, including iteration counts, coefficient maps, errors and status values, each at its own pixel.",
 ["schedules", "configurations"],
 "all assignments and completion orders of up to 4-5 pixel tasks over 1-3 isolated workers, all chunk sizes",
 "tests run serially or with whatever order the operating system happens to give, and compare nothing between the two",
 [RM, IC, RS, C3], [("task list and result placement", RM + " do_rmclean_hogbom"), ("worker pool over pixels", IC + " make_model_I"), ("process map", RS)],
 "stateless model checking of the task/worker schedule: a controlled pool enumerates every assignment, completion order and chunking",
 "Every schedule within the bound is executed with a stand-in pool whose workers are isolated by pickling (state changed in a worker is lost, as with processes). Trusts the real pools' documented contract (order-preserving map/imap).")

prop("R05", "Peak measurement reports the strongest peak of the Faraday spectrum",
 "For any complex Faraday spectrum on any regular depth grid, the reported peak is the vertex of the parabola through the strongest non-edge channel and its neighbours, with signal-to-noise, de-biased amplitude (only at or above the S/N threshold), depth error FWHM*noise/(2*peak), angles in [0,180) evaluated at the peak, and the angle at zero wavelength derotated by depth*lambda0^2, all following from that vertex and the supplied noise. Noise, when not supplied, is the scaled median absolute deviation of the spectrum away from the peak, or of the whole spectrum if too little is left. A spectrum rotated by a constant angle, scaled, or shifted in depth gives correspondingly rotated, scaled or shifted measurements, and a vertex that falls outside the depth range is reported as NaN.",
 ["inputs"],
 "all amplitude patterns over a small alphabet on short grids, x peak position incl. both ends, x phases, x noise given/absent, x thresholds, x NaN samples; symmetric and asymmetric grids",
 "tests compare one spectrum's values within tolerances; peaks near edges, ties, NaN samples, angle wraps and thresholds are untested",
 [RM, MI], [("measurement", RM + " measure_FDF_parms"), ("parabola vertex", MI + " calc_parabola_vertex")],
 EXH, "Every spectrum in the bounds is measured and compared with an independent implementation of the documented formulae.", "exploration")

prop("R06", "Stokes I fit recovers the model and reports its true quality",
 "Fitting Stokes I with either model family and a fixed order recovers the coefficients of any spectrum that lies in the family, independent of how many channels are flagged NaN as long as enough remain, with coefficients beyond the order exactly zero, and a parameter covariance consistent with the data errors. The reported chi-squared is the error-weighted squared residual of the returned model over the unflagged channels, degrees of freedom are unflagged channels minus free parameters, AIC follows from chi-squared and the number of parameters, and the reference frequency is the one the coefficients refer to. A negative order selects dynamically: orders are tried upward and the lowest-AIC order reached is returned, never one above the limit.",
 ["inputs", "configurations"],
 "both families x orders 0-5 and dynamic limits x coefficient alphabets x channel layouts x all small NaN patterns x error patterns",
 "the test fits two spectra and checks that verbosity does not change the result",
 [MI], [("least-squares polynomial / power-law fit", MI + " fit_StokesI_model, fit_spec_poly5"), ("model evaluation", MI + " calculate_StokesI_model")],
 EXH, "Every spectrum in the bounds is fitted by the real code; the oracle is the generating model plus a direct evaluation of the statistics.", "exploration")

prop("R07", "Changing a Stokes I model's reference frequency does not change the model",
 "Re-expressing a fitted Stokes I model at another reference frequency leaves the model spectrum unchanged at every frequency for both model families and every order, moves the coefficient uncertainties by first-order propagation of the full parameter covariance, and leaves the fit statistics alone. Re-expressing twice equals re-expressing once, and returning to the original frequency restores coefficients and uncertainties.",
 ["inputs", "histories"],
 "both families, all coefficient supports, covariances from an alphabet incl. full correlation, histories of up to 3 reference-frequency changes",
 "no test checks uncertainties or repeated changes; one run's fluxes are compared loosely",
 [MI], [("re-expression", MI + " renormalize_StokesI_model")],
 "exhaustive exploration of reference-change histories against J*C*J^T propagation",
 "Every coefficient support x covariance x history within the bounds; first-order error propagation is the oracle.", "exploration")

prop("R08", "Fractional Stokes spectra are data divided by the fitted model",
 "Given I, Q and U spectra and errors, the fractional spectra and their errors are those of Q and U divided by the Stokes I model, channel by channel, with undefined values NaN, no flag in one spectrum removing data from another, and the inputs unaltered. The model is the fit of the requested family and order to the unflagged Stokes I channels, or the supplied model unchanged. The fit status tells impossible or failed fits from successful ones, and marks models below the noise (+64) or negative (+128) in any channel.",
 ["inputs"], "all NaN patterns over short I/Q/U/dI/dQ/dU spectra x model families x orders x model errors on/off",
 "tests exercise one complete spectrum; flag combinations are not reached",
 [MI], [("fractional spectra", MI + " create_frac_spectra")], EXH,
 "Every NaN pattern in the bounds is executed; oracle = model evaluation and propagation formulae.", "exploration")

prop("R09", "1-D synthesis is equivariant to the symmetries of the data",
 "For a line of sight given as frequency, (I,) Q, U and errors, the complete 1-D synthesis returns the spectrum, RMSF, weights, theoretical noise and measurements that follow from exactly the channels unflagged in Q and U, in flux units of the Stokes I model at the reference frequency, on the requested or documented default depth grid, and without modifying the data. Reordering channels, or adding flagged ones inside the band, changes nothing on a given depth grid, scaling all fluxes and errors scales intensities and leaves depths, angles and S/N alone, and rotating the polarisation angle or adding a rotation measure moves exactly the angle or the spectrum in depth. The theoretical noise is that of the weighted mean of the channels used, for inverse-variance and for uniform weighting.",
 ["inputs", "configurations"],
 "small spectra x all options (weighting, with/without I, model family and order, lambda0=0, grid options, input columns/precision) x the symmetry group {channel permutation, NaN insertion, flux scale, angle rotation, RM shift}",
 "tests compare one data set's outputs with stored values",
 [S1], [("end-to-end synthesis", S1 + " run_rmsynth"), ("measurement", RM + " measure_FDF_parms")],
 "exhaustive enumeration of configurations x symmetry transformations on the real pipeline, with a reference pipeline",
 "Every option combination in the bounds is run on transformed inputs and compared with the transformed outputs and with the reference spectrum.", "exploration")

prop("R10", "1-D command-line chain computes what the in-memory calls compute",
 "Running synthesis and then deconvolution as commands on a text data file writes, in files named after the input, exactly the spectra, RMSF, weights and measurements that the corresponding calls return in memory, in the documented columns, and the deconvolution of saved files equals the deconvolution of in-memory results. Input files in every documented column layout, with comments and NaN rows, give the same result as the same data in memory, and files of other data sets in the same directory are neither read nor changed. What deconvolution reports (peak, errors, measured-noise errors, cutoff, iterations, component width) describes the cleaned spectrum it returns, cleaned to the levels asked for, whether given in flux or in multiples of the noise.",
 ["configurations", "histories"], "all column layouts and option combinations within the bound, prefixes and directories with awkward names, sequences of up to 3 tool runs",
 "tests run each tool once on one file and compare one JSON",
 [S1, C1], [("file reading and saving", S1 + " readFile, saveOutput, main"), ("chain", C1 + " readFiles, saveOutput, main")],
 "exhaustive enumeration of tool-run histories over a scratch directory, compared with in-memory runs",
 "Every history in the bound is run through the real command entry points in a scratch directory.")

prop("R11", "3-D synthesis gives every pixel its own Faraday spectrum",
 "For Q and U cubes in any supported axis arrangement, each pixel of the output cubes holds the spectrum that pixel's own unflagged data give (divided by and rescaled with the Stokes I model where supplied), at the same sky position, along a Faraday-depth axis whose header describes the depths actually evaluated. Real, imaginary and amplitude outputs are mutually consistent, RMSF and FWHM products describe the same channels, and reference-frequency metadata is the one used, whatever the weighting, output layout (one or several files) and axis order.",
 ["inputs", "configurations"], "all axis arrangements (3 or 4 axes, degenerate Stokes axis, frequency third or fourth), image shapes incl. one-pixel-wide, NaN patterns per pixel, weighting/noise inputs, Stokes I model on/off, output options",
 "tests run one square cube in one axis order and check a few header numbers",
 [S3], [("cube pipeline", S3 + " run_rmsynth, writefits, readFitsCube")], EXH + " through files in scratch directories",
 "Every arrangement in the bounds is written, processed by the real tool and read back; oracle is the direct-sum reference per pixel.", "exploration")

prop("R12", "3-D deconvolution gives every pixel its own clean spectrum",
 "Cleaning saved Faraday cubes produces, at every sky position, the deconvolution of that pixel's spectrum with that pixel's RMSF, for every axis arrangement and image shape that synthesis produces and regardless of the names of directories and prefixes. Headers keep the depth and sky axes, and the result does not depend on the number of workers.",
 ["inputs", "configurations"], "image shapes (incl. one row/column/pixel), axis arrangements, file layouts, prefixes and directory names incl. those containing product suffixes, cutoffs, windows, workers and chunk sizes",
 "tests clean one cube serially with one naming scheme",
 [C3], [("cube cleaning", C3 + " run_rmclean, read_FDF_cubes, writefits")], EXH + " through files in scratch directories",
 "Every configuration in the bounds is run through the real tool and compared per pixel with the 1-D reference.", "exploration")

prop("R13", "Peak maps agree with single-spectrum measurement at each pixel",
 "The peak-fitting tool's maps hold, at each sky position, the value that measuring that pixel's spectrum alone gives, NaN where the spectrum is undefined, for both Faraday cube layouts and all image shapes. The sky axes and image shape of maps match the input cube.",
 ["inputs", "configurations"], "image shapes, NaN pixels, file layouts, noise inputs, naming schemes",
 "tests only check that the tool runs",
 [PK], [("per-pixel measurement", PK + " pixelwise_peak_fitting, save_maps")], EXH + " through files",
 "Every configuration in the bounds is run; oracle is the 1-D measurement per pixel.", "exploration")

prop("R14", "Splitting a cube into chunks and reassembling restores it",
 "For any FITS cube and any chunk size, splitting and assembling reproduces every pixel value, the array shape and the header's world coordinates exactly, also when a per-pixel tool is applied to the chunks in between. Chunks partition the pixels: each pixel is in exactly one chunk, in order; an incomplete or mixed set of chunks is refused without damaging existing files.",
 ["inputs", "configurations", "histories"], "all image shapes up to 4x5 with 2-4 axes x all chunk sizes x file names incl. dots, digits and special characters x missing-chunk subsets",
 "tests split and assemble one cube with one chunk size",
 [CC, AC], [("split", CC), ("assemble", AC)],
 "exhaustive exploration of split/assemble histories over all small shapes and chunk sizes",
 "Every shape/chunk/name in the bounds goes through the real tools in a scratch directory.")

prop("R15", "Region extraction cuts exactly the requested box",
 "Extracting a box from a FITS image or cube returns exactly the pixels from the first to the last requested coordinate inclusive, and a header that maps each pixel to the same world coordinates as before. Data of every rank are treated alike and the input file is unchanged.",
 ["inputs"], "all boxes in small images, 2-4 axes, with and without a plane range, overwrite on/off",
 "tests cut one box and check that a file appears",
 [XR], [("cutout", XR)], EXH + " through files",
 "All boxes within the bounds.", "exploration")

prop("R16", "Stokes I cube fit agrees with the single-spectrum fit at each pixel",
 "Fitting a Stokes I cube writes, at each sky position above the threshold, the coefficient, error, covariance and reference-frequency values and model spectrum of the single-spectrum fit of that pixel with the same channel noise, and NaN below the threshold. Image shapes, supported axis arrangements (image axes first), NaN channels, output options and worker counts change nothing.",
 ["inputs", "configurations"], "image shapes, axis arrangements, NaN patterns, thresholds, orders, families, workers",
 "tests only check that the tool runs on one cube",
 [IC], [("cube fit", IC + " make_model_I, fit_spectra"), ("saving", IC + " savefits_Coeffs, savefits_model_I")], EXH + " through files",
 "Every configuration in the bounds is run; oracle is the 1-D fit per pixel.", "exploration")

prop("R17", "3-D Stokes I model rescaling preserves the model at every pixel",
 "Rescaling fitted Stokes I maps to new reference frequencies (a constant, a frequency map, or a lambda^2 reference) writes coefficient and error maps whose model equals the original at every frequency and pixel, for both model families, in maps whose headers state the new reference frequency.",
 ["inputs", "configurations"], "orders, families, coefficient supports per pixel, NaN pixels, all three ways to give the reference",
 "tests run the tool once",
 [RS], [("map rescale", RS)], EXH + " through files",
 "Every configuration in the bounds is run; oracle is model evaluation before and after.", "exploration")

prop("R18", "Axis arrays built from headers match the header's world coordinates",
 "For any linear axis description, the axis values used by the tools have exactly one entry per pixel and equal value + (pixel - reference pixel)*increment for increasing and decreasing axes. Frequency files written from a header hold exactly these values for the frequency axis wherever it is.",
 ["inputs"], "all combinations of small axis lengths, reference pixels (fractional, outside), increments of both signs and awkward fractions, axis positions",
 "tests use one header with a round increment",
 [RM, FF, "RMutils/util_FITS.py"], [("linear axis", RM + " fits_make_lin_axis"), ("frequency file", FF), ("axis location", S3 + " find_freq_axis")], EXH,
 "All headers in the bounds.", "exploration")

prop("R19", "QU model functions obey their physics",
 "Each shipped QU-fitting model equals its documented analytic expression over its prior domain, including limits: with no depolarisation it reduces to a pure rotation, polarised fraction never exceeds the sum of component fractions and rotates by 2*RM*lambda^2, angles are periodic in 180 degrees, and composite models reduce to the simpler ones when extra terms vanish. No parameter choice within the priors, including the ends of their ranges, yields an undefined value.",
 ["inputs", "configurations"], "every model x a grid over each parameter's prior range incl. end points x lambda^2 grid incl. 0",
 "one model is run in one noisy fit",
 ["RMtools_1D/models_ns"], [("model", "RMtools_1D/models_ns/m*.py model()")], EXH + " (analytic expressions)",
 "The full parameter grid for each model is evaluated; oracle is the formula in the model's documentation/Sokoloff 1998.", "exploration")

prop("R20", "QU-fit statistics are those of the returned parameters and data",
 "For any posterior the sampler returns, the saved best-fit values are the documented posterior summaries with wrap-around angles handled circularly, and chi-squared and degrees of freedom (data - free parameters - 1) are those of the model at these values on the unflagged data; AIC, AICc and BIC follow from the highest likelihood found. The likelihood given to the sampler is the Gaussian log-likelihood of q and u with their errors, flagged channels excluded, maximal where the model meets the data.",
 ["inputs", "configurations"], "models, posterior alphabets incl. angles around the wrap, NaN patterns, with a stand-in sampler",
 "one noisy fit is compared loosely with reference values",
 [QU], [("statistics", QU + " run_qufit"), ("likelihood", QU + " lnlike/chisq_model")],
 "exhaustive enumeration of sampler answers (environment) with a stand-in sampler; oracle recomputes the statistics",
 "Enumerates sampler answers; says nothing about the quality of nested sampling itself.", "exploration")

prop("R21", "Bandwidth-depolarisation synthesis uses the channel-averaged response",
 "The channel response used equals the average of the Faraday rotation exp(2i*phi*lambda^2) over each channel's bandwidth, and the synthesised spectrum is the weighted adjoint of exactly this response over the unflagged channels, tending to ordinary synthesis for narrow channels. Predicted signals for a source equal the channel average of that source, and every documented input layout works and agrees.",
 ["inputs", "configurations"], "channel layouts and widths x depths (0, +-small, beyond one turn) x weights x flags x input layouts",
 "tests only check that the tools run on one file",
 [BW, BP], [("rotation operator", BW + " rotation_operator/adjoint"), ("synthesis", BW + " do_adjoint_rmsynth_planes")], EXH + " (numerical quadrature)",
 "All configurations in the bounds; oracle is high-order quadrature over each channel.", "exploration")

prop("R22", "Added-scatter complexity measures the documented likelihood",
 "The additional-scatter measure is the median of the documented likelihood of extra noise given residuals and errors, with the 15.72 and 84.27 percentiles as limits, increasing with the residual scatter and independent of channel order. The second-moment measure equals the amplitude-weighted dispersion of the component spectrum in depth and is shift-invariant.",
 ["inputs"], "residual patterns over a small alphabet x permutations; component placements on small grids",
 "reference values of one data set",
 [RM, MI], [("sigma_add", RM + " calc_sigma_add, measure_qu_complexity"), ("second moment", MI + " calc_mom2_FDF")], EXH,
 "All patterns in the bounds.", "exploration")

prop("R23", "Tool outputs depend only on declared inputs and survive interruption",
 "Whatever ran before in the same directory, and wherever an earlier run was interrupted, a completed run of a tool leaves its output files identical to those of a run in a clean directory, and never changes its input files or files that are not its outputs. Re-running a tool after a crash at any point gives the clean result.",
 ["crash_points", "histories", "fault_sequences"], "every on-disk state while a tool runs x {complete, torn last write} then re-run; file-size faults; all ordered pairs (thorough: triples) of tool runs with different options",
 "tests run in clean directories and never interrupt",
 [S1, C1, CM, F1, BW, S3, C3, CC, AC, IC, RS, XR, FF, PK], [("output writing", "saveOutput / writefits of each tool")],
 "fault enumeration: every file-system write point is a crash point, followed by a re-run; plus all tool-run histories to depth 2 (thorough: 3) and write failures at file-size limits",
 "Crash points are the distinct on-disk states seen after every file call of the process, and torn versions of the last write; loss of cached writes by the kernel is not modelled.", "fault_enumeration")

prop("R24", "RMSF report describes the given channels",
 "The RMSF calculator reports the main-lobe width, largest scale, maximum depth and first sidelobe that follow from the given channel frequencies and weights however they are supplied (file of frequencies, second column, weight file, start/stop/width), and plots exactly the RMSF of those channels on the requested depths.",
 ["inputs", "configurations"], "all input modes x channel layouts x weights x grid options", "the tool is only run once",
 [RF], [("report", RF)], EXH, "All configurations in the bounds.", "exploration")

prop("R25", "Predicted Stokes spectra of clean components invert the transform",
 "The Stokes Q and U spectra predicted from a saved component list equal the sum over components of their complex amplitude rotated to each wavelength relative to the reference lambda^2, multiplied by the Stokes I model ratio where one was used, for every frequency list and reference choice including zero.",
 ["inputs", "configurations"], "component sets over small depth grids x frequencies x model families x reference lambda^2 incl. 0", "no test covers this tool",
 [CM], [("prediction", CM)], EXH, "All configurations in the bounds.", "exploration")

prop("R26", "Simulated test data obey the stated source laws",
 "Generated spectra and cubes hold exactly the documented Faraday-thin, internally rotating or externally dispersed (Burn slab / screen) signals of the source list plus nothing else when noise is zero, at the requested frequencies and positions. Stokes I follows the spectral index and Q, U the component sums.",
 ["inputs", "configurations"], "source lists of up to 3 components (thorough: 5) over parameter alphabets x frequencies", "tests only check that the generators run",
 [MI, "RMtools_1D/mk_test_ascii_data.py", "RMtools_3D/mk_test_cube_data.py"], [("spectrum generators", MI + " create_IQU_spectra_*")], EXH,
 "All parameter combinations in the bounds; oracle is the analytic expression.", "exploration")

prop("R27", "1-D synthesis from cubes equals 1-D synthesis of the extracted pixel",
 "Running the single-pixel tool on Stokes cubes at a pixel or sky position gives exactly the 1-D synthesis of that pixel's spectra with the cubes' frequencies and the tool's constant assumed noise (1e-3), for three-axis cubes (sky, sky, frequency) and any content of the pixel that has data. Positions outside the image are refused.",
 ["inputs", "configurations"], "pixel and sky positions, NaN patterns, zero Q or zero U pixels, options", "one run is compared loosely",
 [F1], [("pixel extraction", F1)], EXH + " through files", "All configurations in the bounds.", "exploration")
