"""The list of properties: statement, anchors, and how each is decided (or why it is not)."""
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

FO = 'function_objects/'
GVN = 'gated value numbering of the LLVM IR (normal-form terms for every path at once)'
TRUST = 'Trusts clang\'s IR, the IR reader and the normal-form rewriting (real-number algebra: floating-point rounding is abstracted away); standard library and GSL calls are uninterpreted or by their documented meaning. '

P('F01', 'Pixel intensities are linear in each component\'s brightness parameters',
  'For every image function, every pixel position and every parameter setting, multiplying all of the component\'s brightness parameters (central or effective intensities, total fluxes, background levels and slopes) by a constant multiplies its contribution to the pixel by that same constant. This holds on every internal branch: core and outer approximations, sub-pixel averaging, and numerical line-of-sight integration.',
  ['inputs', 'configurations'], 'all 28 registered image functions, all pixel coordinates and parameter values, sub-pixel sampling on or off',
  'Tests sample a few pixels of a few parameter vectors per function; a branch taken only for extreme parameters, or a mis-scaled term that vanishes at the sampled amplitude, is not seen.',
  [FO, 'core/add_functions.cpp'], [('Setup stores brightness fields, GetValue combines them', FO + 'func_*.cpp')],
  'homogeneity-degree inference (abstract interpretation) over ' + GVN,
  TRUST + 'Every registered class is analysed on every branch; nothing is sampled.')
P('F02', 'Components are rigid: moving or rotating one moves its light pattern unchanged',
  'For every image function the value at a pixel depends on the component\'s centre only through the pixel\'s position relative to that centre, and on the position angle (together with the image\'s own rotation) only through the pixel\'s position in the component\'s own rotated frame. The choice of how finely to sub-sample a pixel obeys the same rule.',
  ['inputs', 'configurations'], 'all registered image functions, all centres, position angles, image rotations and pixel positions',
  'Tests use one or two centres and position angles; an absolute coordinate or a mis-signed rotation that cancels at PA = 0 or 90 passes them.',
  [FO], [('Setup computes sin/cos of the position angle; GetValue rotates (x - x0, y - y0)', FO + 'func_*.cpp')],
  'dependency analysis on normal-form terms in the component frame (gated value numbering of the LLVM IR)',
  TRUST + 'The coordinates are substituted symbolically; the value term must be free of centre, angle and image rotation.')
P('F03', 'Sub-pixel sampling is the mean over a regular grid centred on the pixel',
  'Whenever a component over-samples a pixel with an n x n grid, the value is the plain average of the component\'s profile at the centres of the n x n equal sub-pixels of that pixel, for whatever n was chosen. When it does not over-sample, or sub-pixel sampling is switched off, the value is the profile at the pixel centre.',
  ['inputs', 'configurations'], 'all registered image functions, all pixels, all grid sizes n chosen by the code, sampling on/off',
  'Tests compare a few sub-sampled values to stored numbers; a shifted or unequally weighted grid changes them by less than the tolerances used, or only for other n.',
  [FO], [('sub-pixel loops in GetValue', FO + 'func_*.cpp'), ('CalculateSubsamples', FO)],
  'normal-form equality of loop-summed terms (gated value numbering with trip counts solved from the recurrences)',
  TRUST + 'The grid size n itself (an accuracy/speed choice) is not judged.')
P('F04', 'Multi-image fits convert every parameter by its physical dimension',
  'For an image with its own pixel scale, flux scale and rotation, the light a component contributes is exactly that of the component with lengths multiplied by the scale, inverse lengths divided by it, brightnesses multiplied by the flux scale and position angles reduced by the rotation, and nothing else changed. The per-image parameter values reported to the user are the same converted values, each written once to that component\'s own entries.',
  ['inputs', 'configurations'], 'all registered image functions, all parameters, all pixel scales, flux scales and rotations',
  'Per-function tests check a handful of functions with a single image setting; each parameter\'s dimension in 28 functions is not enumerated.',
  [FO, 'core/model_object_multimage.cpp'], [('pixelScaling/intensityScale/imageRotation applied in Setup', FO + 'func_*.cpp'), ('AdjustParametersForImage', FO + 'func_*.cpp')],
  'dimension checking by normal-form equality against a parameter-dimension table (gated value numbering)',
  TRUST + 'The dimension of each named parameter is specified in sa/fspec.py from the documentation.')
P('F05', 'Each function\'s published parameter list is exactly what its evaluation uses',
  'Every function offered to the user is registered under its own documented name and declares the documented number of parameters with the documented names in the documented order. Its evaluation reads exactly that slice of the model\'s parameter vector wherever the slice lies, never modifies the vector, and every declared parameter influences the pixel value, with no dependence on state left over from an earlier parameter vector.',
  ['inputs', 'configurations', 'histories'], 'all registered functions, all positions within a model\'s parameter vector, all earlier evaluations',
  'Unit tests use offset 0 and a fresh object; an offset that is ignored, or stale state, appears only in multi-component models or on the second evaluation.',
  [FO, 'core/add_functions.cpp'], [('PopulateFactoryMap', 'core/add_functions.cpp'), ('Setup(params, offsetIndex, xc, yc)', FO + 'func_*.cpp')],
  'typed-interface check: constant propagation and field-dependency analysis on value-numbered IR against a documented-interface table',
  TRUST)
P('F06', 'Model pixels do not depend on evaluation order or number of threads',
  'Evaluating a pixel of any component leaves no trace outside that evaluation: it writes no shared state and calls nothing that does, so pixels may be evaluated in any order and by any number of threads. Every multi-threaded loop in the image-building code writes each shared element from one iteration only and reads none that another iteration writes.',
  ['schedules', 'histories'], 'all interleavings of pixel evaluations, all thread counts, all registered functions and PSF interpolators, every parallel loop',
  'A race shows only under particular interleavings; tests are single-threaded or compare with tolerances, and the test builds run tiny images.',
  [FO, 'core/model_object.cpp', 'core/oversampled_region.cpp', 'core/convolver.cpp', 'core/psf_interpolators.cpp'],
  [('GetValue const-ness by convention', FO + 'func_*.cpp'), ('#pragma omp parallel sections', 'core/model_object.cpp, core/oversampled_region.cpp')],
  'effect (purity) analysis over resolved calls plus injectivity of shared-write indices in compiler-outlined OpenMP regions',
  TRUST + 'Relies on GSL special functions and libm being re-entrant; GSL workspaces allocated inside an evaluation count as private.')
P('F07', 'Every component\'s light profile is its documented formula',
  'At a pixel centre, with sub-pixel sampling off, each image function returns exactly the documented profile of its parameters (Sersic, exponential, Gaussian, Moffat, core-Sersic, broken exponential, King, rings, edge-on disks, line-of-sight integrals of 3D densities, point sources and backgrounds) as a function of position in the component\'s frame. This covers all radii and all parameter values, including the centre and the asymptotic branches.',
  ['inputs', 'configurations'], 'all registered functions, all positions and parameter values, every branch of the evaluation',
  'Tests compare a few values per function with tolerance; branch-specific mistakes (large radius, n below a threshold, negative exponents) are not visited.',
  [FO, 'docs'], [('Setup + GetValue', FO + 'func_*.cpp')],
  'translation of the composed Setup+GetValue IR into normal-form terms and comparison with the documented formula',
  TRUST + 'Formulas come from the imfit documentation (sa/fspec.py). Where normal forms differ syntactically an algebraic-identity test on the terms is used to avoid false alarms; numerical integration is identified by its integrand and limits, not its accuracy.')
P('F08', 'Analytic total fluxes equal the integral of the profile they summarise',
  'A component that offers a closed-form total flux returns the analytic integral of its own documented profile for every parameter setting. Only components whose integral is documented offer one, and exactly the sky-background components are treated as background when fluxes are totalled.',
  ['inputs', 'configurations'], 'all registered functions, all parameter values',
  'Tests check single parameter values; a wrong power of axis ratio or a wrong Gamma argument cancels at round or n = 1 examples.',
  [FO, 'core/model_object.cpp'], [('TotalFlux / CanCalculateTotalFlux / IsBackground', FO + 'func_*.cpp')],
  'constant propagation and normal-form equality with the analytic integral',
  TRUST)

# ---------------------------------------------------------------- image pipeline
TR = 'event traces (every store with index, value and condition as normal-form terms) from ' + GVN
P('M01', 'A model image is the sum of its components, laid out and trimmed correctly',
  'Every pixel of the model image (including the PSF-sized margin) holds exactly the sum over all components of the component\'s value at that pixel\'s 1-based image coordinates, with point sources added after PSF convolution and everything else before it. The image handed to the user or compared with data is the central part of it with margins removed, row by row, whatever the image shape, and repeating the computation gives the same image.',
  ['inputs', 'configurations', 'histories'], 'all image and PSF shapes, all component lists, PSF / oversampled regions present or not, every earlier sequence of operations',
  'Tests use small images with one or two component lists; transposed strides, off-by-one margins and state left over from an earlier computation need non-square shapes or a second evaluation.',
  ['core/model_object.cpp'], [('CreateModelImage, ComputeModelImage, GetModelImageVector, GetSingleFunctionImage', 'core/model_object.cpp')],
  'obligations on ' + TR,
  TRUST + 'Image and PSF sizes, component lists and parameters are symbolic. Memory allocations are assumed to succeed.')
P('M02', 'Oversampled regions replace exactly their own pixels with block averages',
  'An oversampled region evaluates the components on an s-times finer grid over exactly the requested pixels (plus PSF margin), with fine-pixel coordinates centred inside the coarse pixels, and each coarse pixel of the region is replaced by the average of its own s x s fine pixels, no other pixel being touched. This holds for any region position, shape, scale and PSF size.',
  ['inputs', 'configurations'], 'all region positions and shapes, scales, PSF shapes, thread counts',
  'Tests use one or two square regions; row/column confusions and half-pixel shifts need non-square regions or other scales.',
  ['core/oversampled_region.cpp', 'core/downsample.cpp', 'core/model_object.cpp'], [('SetupModelImage, ComputeRegionAndDownsample', 'core/oversampled_region.cpp'), ('DownsampleAndReplace', 'core/downsample.cpp')],
  'obligations on ' + TR,
  TRUST + 'Region geometry is symbolic; the requested regions are taken to lie inside the image (the option parser checks that).')
P('M03', 'PSF convolution centres, pads, multiplies and rescales correctly',
  'The convolver places the PSF with its centre pixel at the origin of a zero-padded image whose size is at least image + PSF - 1 in each direction, transforms both, multiplies the transforms as complex numbers and returns the rescaled corner of the inverse transform that corresponds to the input image. The PSF used is the one supplied, normalised exactly when normalisation was asked for, and the same PSF feeds the interpolation of point sources.',
  ['inputs', 'configurations', 'histories'], 'all image and PSF shapes (odd, even, non-square), normalisation on/off, single- or multi-threaded transforms',
  'Tests convolve a few tiny images with 3 x 3 PSFs; even-sized and non-square PSFs and repeated use are hardly visited.',
  ['core/convolver.cpp', 'core/model_object.cpp', 'core/oversampled_region.cpp'], [('SetupPSF, DoFullSetup, ConvolveImage, ShiftAndWrapPSF', 'core/convolver.cpp'), ('AddPSFVector', 'core/model_object.cpp')],
  'obligations on ' + TR,
  TRUST + 'FFTW is taken to compute the transforms its plan describes; the numerical error of the transform is out of scope (X01).')

P('M04', 'The fit statistic is the documented sum over exactly the usable data pixels',
  'Chi-square, Cash and Poisson-MLR values (and the residual vector handed to the Levenberg-Marquardt solver) are the documented per-pixel terms of data, model and weight of the same pixel, each weighted by the mask, summed over all pixels (or exactly over the bootstrap sample), for images fitted with or without PSF margins. The model image is always computed first from the parameters given, model-based weights are refreshed from it where used, and a model that is not positive where counts were observed is heavily penalised.',
  ['inputs', 'configurations', 'histories'], 'all data, masks, weights, image and PSF shapes, every statistic, with and without bootstrap resampling and convolution',
  'Tests evaluate a few tiny images, mostly without PSF and bootstrap; mispaired pixels, missing terms or a stale model show only in particular combinations.',
  ['core/model_object.cpp', 'core/mp_enorm.cpp'], [('ChiSquared, CashStatistic, ComputeDeviates, ComputePoissonMLRDeviate, UpdateWeightVector, GenerateExtraCashTerms', 'core/model_object.cpp'), ('mp_enorm', 'core/mp_enorm.cpp')],
  'obligations on ' + TR,
  TRUST + 'Memory allocations are assumed to succeed.')
P('M05', 'Masks, errors and weights are prepared as documented before every fit',
  'Error images become internal weights 1/sigma according to their declared kind; without one, weights follow the documented Gaussian noise model of gain, read noise, sky and number of exposures. Mask images of either convention become 1 for usable and 0 for masked pixels, non-finite mask, data or error values are masked, the count of valid pixels always equals the number of unmasked pixels, and masked pixels end with zero weight. The final set-up does this in the right order and reports unusable data, weights or an empty image as failure.',
  ['inputs', 'configurations', 'histories'], 'all data, mask and error images including non-finite values, all conventions and statistics',
  'Tests use a few 2x2 images; NaN/infinity combinations of data, mask and error images in every mode are not enumerated.',
  ['core/model_object.cpp'], [('AddErrorVector, GenerateErrorVector, AddMaskVector, ApplyMask, CheckWeightVector, VetDataVector, FinalSetupForFitting', 'core/model_object.cpp')],
  'obligations on ' + TR,
  TRUST + 'Memory allocations are assumed to succeed; the integer codes of the conventions are read from the headers.')

P('M06', 'Multi-image fits evaluate every image with its own converted parameters',
  'From the one parameter vector of a multi-image fit, image n is evaluated with the shared model parameters, with its own position as the first component centre, every other component centre displaced from that by the documented rotation and scaling of its offset in the reference image, and its own extra components; the reference image uses the shared parameters unchanged. Each image\'s pixel scale, rotation and flux scale reach exactly its own components, every image contributes its own statistic and residuals exactly once, and the numbers of parameters, data values and valid pixels are sums over the images.',
  ['inputs', 'configurations', 'histories'], 'all numbers of images, function sets and per-image functions, all parameter vectors',
  'Tests use two images and one or two function sets; index arithmetic for three images, later function sets or per-image functions is not visited.',
  ['core/param_holder.cpp', 'core/model_object_multimage.cpp'], [('AssembleParametersForImage, GetImageParams', 'core/param_holder.cpp'), ('GetFitStatistic, ComputeDeviates, CreateAllModelImages', 'core/model_object_multimage.cpp')],
  'obligations on ' + TR,
  TRUST + 'Numbers of images, sets and functions are symbolic.')

P('M07', 'Reported parameters keep their identity from model to report',
  'Every parameter line, table header or row the programs print pairs name, value, error, limits and fixed state of one and the same model parameter, in the order of the parameter vector, each exactly once. Component centres and their limits (and bootstrap offsets) are reported in full-image coordinates by adding the offset of their own image, and are moved into the image section by subtracting it once before a fit. The total flux of a component is computed from its own parameters and the model total sums all non-background components.',
  ['inputs', 'configurations'], 'all component lists, function sets, images, limits and image sections, with or without errors',
  'Tests print a few one- or two-component models without sections or limits; misaligned names, errors and limits in longer models are not compared.',
  ['core/model_object.cpp', 'core/model_object_multimage.cpp', 'core/utilities_multimfit.cpp'], [('PrintModelParamsToStrings, PrintModelParamsHorizontalString, GetParamHeader, GetImageOffsets, FindTotalFluxes', 'core/model_object.cpp'), ('PrintModelParamsToStrings, GetParameterStringsForOneImage', 'core/model_object_multimage.cpp'), ('CorrectForImageOffsets', 'core/utilities_multimfit.cpp')],
  'obligations on ' + TR + ' (text is a term domain: literals, concatenation, formatted values)',
  TRUST + 'printf-style formatting is taken to print its arguments in order; per-image functions of multi-image fits (marked unfinished upstream) are not part of the printed tables.')

P('M08', 'Point sources reproduce the supplied PSF by the requested interpolation',
  'A point source contributes its flux times the supplied PSF image interpolated at its sub-pixel position: by bicubic spline, or by the Lanczos-2 or Lanczos-3 sum over the pixels of the PSF image, for PSF images of any (also non-square) size, and nothing outside the PSF image. The interpolation the user names in the configuration file is the one used; what is accepted is kept and saved with the model.',
  ['inputs', 'configurations'], 'all PSF images, positions and the accepted interpolation names',
  'Tests interpolate one square PSF at a few positions.',
  [FO + 'psf_interpolators.cpp', FO + 'func_pointsource.cpp', FO + 'func_pointsource-rot.cpp', 'core/model_object.cpp'], [('constructors and GetValue of the interpolators, Lanczos, FindIndex', FO + 'psf_interpolators.cpp'), ('SetExtraParams', FO + 'func_pointsource.cpp'), ('AddFunction, SetupPsfInterpolation, interpolationMap', 'core/model_object.cpp')],
  'obligations on ' + TR + '; the two-dimensional Lanczos sum is compared as a function (evaluated on 60 generated sizes and positions) with its definition',
  TRUST + 'GSL\'s 2D spline is taken by its documented meaning.')

P('C01', 'Images and options reach the model object as the user gave them',
  'Every program sets up its model object from what the user supplied: image, PSF, mask, error and oversampling data with their own dimensions, the gain, read noise, sky, exposure time and number of exposures, the mask and error conventions, the PSF normalisation choice and the thread limit all reach the model object unchanged, and only when asked for. The statistic minimised is the one selected (default: chi-square with data-based errors, or with the user\'s errors). A step that reports failure ends the program instead of continuing with a half-made model.',
  ['inputs', 'configurations'], 'all combinations of supplied images and options',
  'Tests set up the model object by hand; the wiring from options to model object is only run for the default combinations.',
  ['core/setup_model_object.cpp'], [('SetupModelObject', 'core/setup_model_object.cpp')],
  GVN + '; each call on the model object is compared with its documented arguments and the decision diagram of options under which it is due',
  TRUST + 'The number-conversion and image-reading steps before it are separate properties.')

P('C02', 'Each command-line option changes exactly the setting it documents',
  'In every program each documented option is accepted under its documented names, sets exactly the setting it stands for to the value given (or to its documented code), and leaves everything else at its default; an option not given changes nothing. Options taking several values use all of them, in order. A value that is not the required kind of number, an unknown option or an unusable command line ends the program instead of being guessed at.',
  ['inputs', 'configurations'], 'all command lines of imfit, makeimage, imfit-mcmc, multimfit and makemultimages',
  'Tests run a few dozen command lines; most options and nearly all combinations are never tried.',
  ['core/imfit_main.cpp', 'core/makeimage_main.cpp', 'core/mcmc_main.cpp', 'core/multimfit_main.cpp', 'core/makemultimages_main.cpp'], [('ProcessInput', 'core/imfit_main.cpp'), ('ProcessInput', 'core/makeimage_main.cpp'), ('ProcessInput', 'core/mcmc_main.cpp')],
  GVN + ' of the option processing: the final value of every setting is a decision diagram over the options given, compared with the documented effect; plus set comparison of declared, documented and queried options',
  TRUST + 'CLineParser and NotANumber are taken by their interfaces.')

P('C03', 'Image-description keywords of a configuration file take effect unless overridden',
  'A keyword of the configuration file (GAIN, READNOISE, EXPTIME, ORIGINAL_SKY, NCOMBINED; NCOLS, NCOLUMNS, NROWS in makeimage) sets exactly the setting it stands for to the number given with it, for every position of the keyword among the options. A value given on the command line takes precedence. Unknown keywords change nothing, and image sizes that are not positive whole numbers end the program.',
  ['inputs', 'configurations'], 'all lists of options in a configuration file and all combinations with command-line options',
  'Tests use one or two keywords; precedence and order are not enumerated.',
  ['core/imfit_main.cpp', 'core/makeimage_main.cpp', 'core/mcmc_main.cpp'], [('HandleConfigFileOptions', 'core/imfit_main.cpp'), ('HandleConfigFileOptions', 'core/makeimage_main.cpp'), ('HandleConfigFileOptions', 'core/mcmc_main.cpp')],
  GVN + ': the condition (keyword, command-line flag) and value of every change of a setting in the loop over the file\'s options, compared with the keyword table',
  TRUST + 'Splitting of the configuration file into names and values is not part of this property.')

P('C04', 'The programs carry out the documented steps with the inputs the user gave',
  'imfit, imfit-mcmc and makeimage read the named files, set up the model with the image, mask, errors, PSFs and sizes that were read, subtract the image-section offset from every X0/Y0 value and its limits, and run the fit, sampler or model image exactly when asked, handing on the requested solver, tolerance, seed, iterations, limits and count of free parameters. A step that fails (unreadable file, unknown function, wrong number of parameters, free MCMC parameter without limits) ends the program before anything is fitted or saved. Every requested output is saved from the right data, with the right dimensions, to the file the user named, after the step that makes it, and not when the fit was interrupted or not run.',
  ['inputs', 'configurations', 'failures'], 'all command lines, configuration files, images and failures of single steps',
  'Regression tests run a few option combinations and compare output with references; failures of single steps and most combinations are never run.',
  ['core/imfit_main.cpp', 'core/mcmc_main.cpp', 'core/makeimage_main.cpp'], [('main', 'core/imfit_main.cpp'), ('main', 'core/mcmc_main.cpp'), ('main', 'core/makeimage_main.cpp'), ('LikelihoodFuncForDREAM', 'core/mcmc_main.cpp')],
  GVN + ': main() with every step it calls replaced by a named result; for every step the condition under which it is reached, the value of each argument and its order; for every loop over the parameters the element, range, condition and value stored; for every failure the end of the program before later steps',
  TRUST + 'What the steps themselves do is the subject of other properties. The multi-image programs are not covered.')

P('R01', 'Reported fit statistics and uncertainties are those of the finished fit',
  'For every statistic and solver the printed and the saved report name the statistic actually used, its best-fit value, degrees of freedom, reduced value, AIC and BIC by their definitions, and the counts and initial value the solver returned. Parameter uncertainties are exactly those the solver computed, and none where it computed none; means, standard deviations and 68% intervals are those of all the values given. Nothing is reported for a failed fit or written to a file that could not be opened.',
  ['inputs', 'configurations'], 'all fit results, statistics, solvers and numbers of parameters',
  'Tests compare a few reports with stored text; most combinations of statistic, solver and outcome are never printed.',
  ['core/print_results.cpp', 'core/statistics.cpp', 'solvers/solver_results.cpp'], [('PrintResults', 'core/print_results.cpp'), ('PrintFitStatistic', 'core/print_results.cpp'), ('SaveParameters', 'core/print_results.cpp'), ('ConfidenceInterval', 'core/statistics.cpp'), ('AIC_corrected', 'core/statistics.cpp')],
  GVN + ' of the reporting functions with symbolic model, solver results and parameters: the words printed and the value after each label, per statistic, solver and outcome, compared with the definition; stores and reads of the results object compared field by field',
  TRUST + 'The text of labels is part of the property; number formatting is not.')

P('R02', 'Bootstrap resampling: each iteration is an independent fit of a resample',
  'Every bootstrap iteration fits, from the same start values, a resample drawn with replacement from the valid pixels of the data (per image when there are several), and only iterations whose fit converged are kept. Each kept iteration contributes every parameter, with its own offsets, exactly once to the output array, to the summary and to the line of the output file. The model is put back to the original data afterwards, and intervals, means and deviations in the summary are those of the kept iterations only.',
  ['inputs', 'configurations'], 'all models, numbers of iterations, images and outcomes of single fits',
  'Tests run a few iterations on one image; random resamples cannot be compared with stored values, and failed iterations hardly occur.',
  ['core/bootstrap_errors.cpp', 'core/model_object.cpp', 'core/statistics.cpp'], [('BootstrapErrors', 'core/bootstrap_errors.cpp'), ('BootstrapErrorsBase', 'core/bootstrap_errors.cpp'), ('BootstrapErrorsArrayOnly', 'core/bootstrap_errors.cpp')],
  GVN + ' of the bootstrap functions with model, solvers and random numbers replaced by named results: start values, resampling, fit, kept results, file lines, clean-up and summary, per iteration and parameter, compared with the definition',
  TRUST + 'The random number generator delivers values in [0,1). Text of labels is part of the property; number formatting is not.')

P('R03', 'The flux table shows flux, magnitude and fraction of every component',
  'makeimage lists for every component, under its own name and label, its estimated flux, its fraction of the total flux, and - when a zero point was given and the flux is positive - its magnitude, followed by the total. The table is printed, and written to the file asked for, exactly when asked for, and is complete in both.',
  ['inputs', 'configurations'], 'all models, zero points and option combinations',
  'Tests compare the table of a handful of models; components with zero or negative flux or with labels are not among them.',
  ['core/makeimage_main.cpp'], [('DetermineFluxes', 'core/makeimage_main.cpp')],
  GVN + ' of the flux report with the model replaced by named results: the words of every line in every case, and the conditions and destinations of printing and saving, compared with the definition',
  TRUST + 'The text of labels is part of the property; number formatting is not.')

P('S01', 'Solvers get every limit and start value and hand back their own results',
  'Every solver asked for is the one run, once, from the start values given, on the fit statistic of the model, with the tolerance given, and with the own limits of every parameter: fixed parameters keep their value, limited ones have their limits, others none. Differential evolution refuses to run exactly when a parameter that is not fixed has no limits. The status, best statistic, start statistic and number of evaluations handed back are those of this fit, and an interrupt or a fit statistic that is not a number ends it.',
  ['inputs', 'configurations', 'histories'], 'all models, limits, start values, solvers and sequences of fits',
  'Tests run each solver on one or two images with one set of limits, once per process.',
  ['solvers/dispatch_solver.cpp', 'solvers/levmar_fit.cpp', 'solvers/diff_evoln_fit.cpp', 'solvers/nmsimplex_fit.cpp', 'solvers/nlopt_fit.cpp'], [('DispatchToSolver', 'solvers/dispatch_solver.cpp'), ('LevMarFit', 'solvers/levmar_fit.cpp'), ('DiffEvolnFit', 'solvers/diff_evoln_fit.cpp'), ('NMSimplexFit', 'solvers/nmsimplex_fit.cpp'), ('NLOptFit', 'solvers/nlopt_fit.cpp')],
  GVN + ' of the solver wrappers with the optimizers replaced by named results: the contents of every array handed over, per parameter and kind of limit, the order of calls, and what is handed back, compared with the definition',
  TRUST + 'The optimizers themselves (mpfit, NLopt) are taken to honour their interface; differential evolution is S02.')

P('S02', 'Differential evolution stays within the limits and keeps its best solution',
  'Start vectors and trial vectors of the differential-evolution solver lie between the limits of every parameter, each trial vector is evaluated once and replaces its candidate exactly when its statistic is lower, and the best solution seen - of any finite statistic - is what is stored at the end; without one, the parameters stay as they were. A fit is reported as converged only when the three last relative changes are below the tolerance, an interrupt ends it, and random candidates and parameters are always existing ones.',
  ['inputs', 'histories', 'configurations'], 'all limits, populations, random numbers and fit statistics',
  'Tests run single fits with one sequence of random numbers; huge statistics and random numbers at the end of the range do not occur in them.',
  ['solvers/DESolver.cpp', 'solvers/DESolver.h'], [('DESolver::Setup', 'solvers/DESolver.cpp'), ('DESolver::Solve', 'solvers/DESolver.cpp'), ('DESolver::StoreSolution', 'solvers/DESolver.cpp'), ('DESolver::SelectSamples', 'solvers/DESolver.cpp'), ('TestConverged', 'solvers/DESolver.cpp')],
  GVN + ' of the solver with random numbers and statistic replaced by named results: value ranges from the ends of the random numbers, stores per candidate and parameter, acceptance conditions and loop exits compared with the definition',
  TRUST + 'Random numbers are taken to lie in [0,1], both ends included, as genrand_real1 documents.')
P('S03', 'A run with --seed draws all its random numbers from that seed',
  'With --seed given, everything that uses random numbers - differential evolution, its Latin-hypercube start, bootstrap resampling, the NLopt solvers and the MCMC sampler - is started from the given number before the first draw. Clock times and operating-system randomness are only printed, or used as a seed when none was given; they never decide a result or a branch.',
  ['inputs', 'histories', 'configurations'], 'all runs with --seed of imfit, multimfit and mcmc; every clock and operating-system value in the programs',
  'A test sees one pair of runs; a clock value that enters on one path, or a generator started only in another mode, shows in no single repetition.',
  ['solvers/DESolver.cpp', 'solvers/dispatch_solver.cpp', 'core/bootstrap_errors.cpp', 'core/mcmc_main.cpp', 'core/imfit_main.cpp', 'core/multimfit_main.cpp'],
  [('DESolver::Setup', 'solvers/DESolver.cpp'), ('DispatchToSolver', 'solvers/dispatch_solver.cpp'), ('BootstrapErrorsBase', 'core/bootstrap_errors.cpp'), ('main', 'core/mcmc_main.cpp')],
  'interprocedural dataflow over the intermediate representation: every source of run-dependent values is followed through registers, memory and calls to all its uses; every seeding call has the provenance of its argument and the branch decisions that dominate it checked; calls from the programs down to the generators must hand the seed on',
  TRUST + 'Rounding that depends on the order of threads, and FFTW planning with --fftw-measure, are outside this property.')

P('S04', 'Ctrl-C ends a fit cleanly and no half-done result is kept',
  'While a fit runs, the interrupt handler of imfit and multimfit only records the request in a volatile sig_atomic_t, and it is installed before the solver starts. Every solver looks at the request in each round (or at each evaluation of the model) and then ends with its current parameters. After an interrupt no bootstrap resampling is done and no interrupted resampling fit is stored; the parameters are saved as those of an interrupted fit.',
  ['schedules', 'histories', 'inputs'], 'an interrupt at any moment, every solver and both bootstrap loops',
  'When the signal arrives is not under the control of a test; each loop of each solver would need its own interrupted run.',
  ['core/imfit_main.cpp', 'core/multimfit_main.cpp', 'core/bootstrap_errors.cpp', 'solvers/DESolver.cpp', 'solvers/mpfit.cpp', 'solvers/nmsimplex_fit.cpp', 'solvers/nlopt_fit.cpp'],
  [('signal_handler', 'core/imfit_main.cpp'), ('DESolver::Solve', 'solvers/DESolver.cpp'), ('mpfit', 'solvers/mpfit.cpp'), ('BootstrapErrorsBase', 'core/bootstrap_errors.cpp')],
  'effect analysis of the handlers over the intermediate representation; dominance and path conditions of every test of the flag, of every exit it causes and of every store or output after it',
  TRUST + 'NLopt stops after nlopt_force_stop, as documented.')
P('S05', 'MCMC chains follow the DREAM rules at every generation',
  'In imfit-mcmc each proposal is the state of its own chain, moved by (1+e) gamma times the differences of randomly drawn pairs of two other chains plus a small normal deviate; fixed parameters never move. Proposals outside the parameter limits are never accepted; others are accepted when their likelihood is higher, or when log(u) is below the change; state and likelihood always belong together. Outlying chains move only early in the run, and convergence is claimed only when every free parameter passes the Gelman-Rubin limit.',
  ['inputs', 'histories', 'configurations'], 'all models, limits, numbers of chains and parameters, random numbers and generations',
  'A chain that breaks detailed balance or steps outside its limits in rare generations still gives plausible samples; no short test run can tell.',
  ['cdream/dream.cpp', 'cdream/gelman_rubin.cpp', 'cdream/check_outliers.cpp'],
  [('dream', 'cdream/dream.cpp'), ('gelman_rubin', 'cdream/gelman_rubin.cpp'), ('check_outliers', 'cdream/check_outliers.cpp')],
  GVN + ' of the sampler, with random numbers, likelihood and model replaced by named results, compared with the definition of the chain (proposal, limits, acceptance, bookkeeping, outliers, convergence statistic)',
  TRUST + 'GSL computes the named statistics; the generator gives independent deviates. With exactly two chains the pairs degenerate; that case is not claimed to mix well.')

P('S06', 'MCMC chain files hold each chain and a resumed run continues them',
  'Chain i of imfit-mcmc is kept in the file root.(i+1).txt: after the header one line per reported generation with the parameters of that chain, its log likelihood, the burn-in flag, the crossover probabilities and whether the proposal was accepted, appended to, never overwritten, on --append. A resumed run reads those fields back in the same order, removes the image-section offset from positions, and continues from the last generation all chains have; a chain file that cannot be opened ends the run with an error. Starting points are drawn within the limits, and all parameters, limits and fixed flags reach the sampler unchanged.',
  ['inputs', 'histories', 'crash_points'], 'all chain lengths, numbers of chains and parameters, interrupted files and resumptions',
  'Interrupted runs leave chain files of different lengths, and a wrong field or offset on resumption only shifts the samples; no test resumes a run.',
  ['cdream/dream.cpp', 'cdream/restore_state.cpp', 'cdream/dream_initialize.cpp', 'cdream/dream_pars.cpp', 'cdream/gen_CR.cpp', 'cdream/include/rng/GSLStream.h'],
  [('dream', 'cdream/dream.cpp'), ('dream_restore_state', 'cdream/restore_state.cpp'), ('dream_initialize', 'cdream/dream_initialize.cpp'), ('SetupDreamParams', 'cdream/dream_pars.cpp'), ('gen_CR', 'cdream/gen_CR.cpp')],
  GVN + ' with texts, lines and fields followed through the streams: what is written to a chain file is compared, field by field, with what is read back; starting points, set-up and random generator are compared with their definitions',
  TRUST + 'the C++ streams write and read numbers faithfully to the 12 digits asked for; the last line of a file may be incomplete when it has no end-of-line (it is not used).')

P('I01', 'FITS images are read and written pixel for pixel, or the failure is told',
  'An image read from a FITS file is the two-dimensional image of the extension the file name selects: all NAXIS1 times NAXIS2 pixels as double-precision values from the first pixel on, with nothing substituted for undefined pixels, in a newly allocated array of that size, together with its number of columns and rows. If the file cannot be opened, is not a two-dimensional image, or any CFITSIO call on the way fails, a null pointer (or a failure status) is returned and a message printed; no such failure is taken for success. Saving an image replaces the file, writes all pixels as floating-point numbers with the given columns, rows and header lines, and returns a nonzero status with a message whenever any step failed.',
  ['inputs', 'fault_sequences'], 'all file names, image sizes and contents, all combinations of failing CFITSIO calls',
  'Disks fill up and files are damaged: whether a failure at each separate call is noticed cannot be provoked by the unit tests, which use a few small good files.',
  ['core/image_io.cpp'],
  [('ReadImageAsVector', 'core/image_io.cpp'), ('GetImageSize', 'core/image_io.cpp'), ('CheckForImage', 'core/image_io.cpp'), ('SaveVectorAsImage', 'core/image_io.cpp')],
  GVN + ' with a model of CFITSIO in which each call may fail independently and the inherited status makes later calls do nothing: every path with a successful result is shown to exclude each failure, and the calls\' arguments are compared with the definition',
  TRUST + 'CFITSIO follows its documented calling conventions (inherited status, outputs untouched on failure); header comments are taken to be written unless an earlier call failed.')

P('I02', 'Masks, PSFs, sections and oversampled regions match the data image',
  'A mask or noise image is used only if it can be read and has the columns and rows of the data image, each is read exactly when its file name was given, and which of them were loaded is reported truthfully; a PSF image is returned with its own dimensions, and anything unreadable is refused with a message. The pixel offset of a FITS file name with an image section (after an optional extension number) is the first column and row of the section minus one ("*" counting from 1), and zero without one; malformed sections are recognised. Every oversampling region is given its own region string, the image offset, and the PSF image and scale of its position in the list (or the single one shared by all, owned by the first), and its corners are those of the region string minus the offset.',
  ['inputs', 'configurations'], 'all file names, section strings, image sizes and numbers of regions, PSF images and scales',
  'Sections shift every position by an offset and shared PSF images must not be freed twice: a slip shows only for particular combinations of sections, regions and image shapes.',
  ['core/getimages.cpp', 'core/psf_oversampling_info.cpp', 'core/utilities.cpp'],
  [('GetAndCheckImage', 'core/getimages.cpp'), ('GetMaskAndErrorImages', 'core/getimages.cpp'), ('GetPsfImage', 'core/getimages.cpp'), ('GetOversampledPsfInfo', 'core/getimages.cpp'), ('GetCorrectedRegionCoords', 'core/psf_oversampling_info.cpp'), ('GetPixelStartCoords', 'core/utilities.cpp'), ('DetermineImageOffset', 'core/utilities.cpp')],
  GVN + ' with texts followed symbolically (pieces between separators, numbers read from a piece, images by file name): results and the fields of every region are compared with the documented meaning in each case of the input format',
  TRUST + 'SplitString, find, substr and atoi have their usual meaning (SplitString is not itself analysed here); the object behind a PSF pointer kept from an earlier region is taken to be the image read there.')

P('C05', 'A configuration file becomes exactly the options, functions and limits it says',
  'Comments, blanks and empty lines aside, the lines before the first X0 line become options (one name and one value each) and the lines after it functions: each X0/Y0 pair starts a function block, each FUNCTION line adds a function with its label, and every other line adds one value and its limits in file order, or an optional setting of the last function when it stands between the optional-parameter keywords. A file without a function section, without functions, whose first X0 line is not followed by a Y0 line (in images) or with a malformed parameter line is refused with the message and the original line number of the offending line. "fixed" fixes a parameter, two comma-separated numbers in ascending order around its value are its limits, and any other limits are refused with their line number.',
  ['inputs', 'configurations'], 'all configuration files: any number and order of lines of every kind, any words and numbers on them',
  'Tests read some ten files; parameters are paired with functions only by position, so a slip for one order of lines silently shifts every later value.',
  ['core/config_file_parser.cpp', 'core/utilities.cpp'],
  [('ReadConfigFile', 'core/config_file_parser.cpp'), ('VetConfigFile', 'core/config_file_parser.cpp'), ('ParseFunctionSection', 'core/config_file_parser.cpp'), ('AddParameterAndLimit', 'core/config_file_parser.cpp'), ('ValidParameterLine', 'core/config_file_parser.cpp'), ('TrimWhitespace', 'core/utilities.cpp')],
  GVN + ' with lines as symbolic texts cut into words: every line function is compared case by case (number of words, kinds of words) with the file format, and one round of each loop over the lines is evaluated for every kind of line and state, which by induction covers files of any length',
  TRUST + 'SplitString, find, substr, IsNumeric and strtod have their usual meaning; the search for bad lines is decided only where its loops step forward through the lines.')

P('C06', 'Every word of a command line reaches the flag, option or argument list meant',
  'Each word after the program name is read once, in order: a word without a leading dash is an argument, a known flag is set, and a known option stores the text after its equals sign or else the next word, under its short and its long name alike; anything else is reported and, where unknown options are errors, an option lacks its text or a word is all dashes, parsing fails. What is asked of the parser afterwards (set or not, how many texts, which text, which argument) is exactly what was read, an unknown name counting as not set. Texts are cut at runs of separators into all of their pieces, and a text is taken for a number only when all of it is one; the screening of option values refuses every text that does not start like a number of the kind required.',
  ['inputs', 'configurations'], 'all command lines: any number of words, any texts, any set of flags and options',
  'The programs take some eighty options in two spellings and two forms; tests run a few of them, and a word skipped or stored with its neighbour goes unnoticed until a fit silently uses another option.',
  ['core/commandline_parser.cpp', 'core/utilities.cpp'],
  [('CLineParser::ParseCommandLine', 'core/commandline_parser.cpp'), ('CLineParser::AddOption', 'core/commandline_parser.cpp'), ('CLineParser::GetTargetString', 'core/commandline_parser.cpp'), ('SplitString', 'core/utilities.cpp'), ('NotANumber', 'core/utilities.cpp'), ('IsNumeric', 'core/utilities.cpp')],
  GVN + ': one round of the loop over the words is evaluated, with the position as a symbol, for every kind of word (which by induction covers command lines of any length), the recurrences of the text cutter are compared with the definition of its pieces, and the number tests are evaluated for every character',
  TRUST + 'std::map, find_first_of, substr, isdigit and strtod have their usual meaning; NotANumber looks at the first digit only (as documented), so the statement covers no more.')
P('C07', 'Each image of an image-info file gets exactly the settings listed for it',
  'In multimfit and makemultimages the lines from one IMAGE_START to the next belong to one image, in file order: each keyword sets exactly the setting it names to the word, number or limits on its line (pixel scale and rotation stay fixed unless limits are given), repeated oversampling keywords add to lists, and the lines after FUNCTIONS_START become functions of that image alone. The image-description parameters handed on are, for every image but the first, its pixel scale, rotation, flux scale, X0 and Y0, each with its own limits. A file with a malformed line or without images is refused, naming the lines as numbered in the file.',
  ['inputs', 'configurations'], 'all image-information files: any number of images and lines, any texts',
  'The tests read a few small files; a setting stored in its neighbour, the limits of one parameter given to another or a line counted to the wrong image changes only fits that use them.',
  ['core/imageparams_file_parser.cpp'],
  [('ReadImageParamsFile', 'core/imageparams_file_parser.cpp'), ('StoreInfoFromLine', 'core/imageparams_file_parser.cpp'), ('AddInfoFromLines', 'core/imageparams_file_parser.cpp'), ('VetInputLines', 'core/imageparams_file_parser.cpp'), ('GetImageDescriptionParams', 'core/imageparams_file_parser.cpp'), ('GetParameterAndLimits', 'core/imageparams_file_parser.cpp')],
  GVN + ': a line cut into named words is stored for every keyword and the changes to the image description are compared field by field with the table of settings; one round of each loop over lines and images is evaluated with the position as a symbol',
  TRUST + 'std::string and std::vector have their usual meaning; whether a line is malformed is decided by ValidParameterLine, and the texts of error messages are not compared.')
P('S07', 'Levenberg-Marquardt derivatives are those of the model at every parameter',
  'For each free parameter in turn the derivative of every data point is the change of the deviates when that parameter alone is moved by a nonzero step, divided by that same signed step, and stored at the place of that point and parameter. The step goes upward, or downward exactly when the parameter is nearer to its own upper limit than the step, so that a start value below or at a limit is not moved beyond it. The parameter gets its old value back, and each evaluation is counted once.',
  ['inputs', 'configurations'], 'all models, numbers of data points and parameters, fixed parameters and upper limits',
  'A wrong sign or place of a derivative appears only for parameters at their upper limit or after a fixed one, and the fit still ends, at a worse solution and with wrong errors.',
  ['solvers/mpfit.cpp'], [('mp_fdjac2', 'solvers/mpfit.cpp')],
  GVN + ': one round of the loop over free parameters with one data point as symbols; derivative times step is compared with the difference of the deviates as terms',
  TRUST + 'the size of the step is an accuracy choice; only the kind of derivative imfit asks for (one-sided, numerical) is covered, and what mpfit does with the derivatives is not.')
# ---------------------------------------------------------------- not decided here
def NA(id, title, statement, over, quant, why, files, mech, na): P(id, title, statement, over, quant, why, files, mech, na=na)
NA('X01', 'FFT convolution equals direct convolution to rounding error',
   'Convolving a model image with a PSF gives, at every pixel, the same value as the direct sum to within floating-point rounding.', ['inputs'], 'all images and PSFs',
   'Tests convolve tiny images.', ['core/convolver.cpp'], [('ConvolveImage', 'core/convolver.cpp')],
   'The result is produced by FFTW at run time; its numerical error is a runtime quantity no source analysis of this repository bounds. The structural part (padding, centring, product, rescaling) is claimed separately.')
NA('X02', 'Each solver ends at a local minimum of the fit statistic',
   'When a fit reports convergence, no small admissible change of the free parameters lowers the fit statistic by more than the requested tolerance.', ['inputs'], 'all data images and models',
   'Tests fit a handful of images.', ['solvers/'], [('LevMarFit, DiffEvolnFit, NMSimplexFit', 'solvers/')],
   'Convergence of iterative floating-point minimisation depends on runtime values of the objective; no sound static argument in reach bounds it.')
NA('X03', 'MCMC chains sample the posterior',
   'The set of states written by the Markov-chain mode is distributed according to the posterior implied by the fit statistic.', ['inputs', 'histories'], 'all data and models',
   'Statistical property of long runs.', ['cdream/'], [('dream', 'cdream/src/dream.cpp')],
   'Stationarity is a probabilistic statement about runtime histories; static analysis of the source cannot decide it.')
NA('X04', 'Numerically estimated total fluxes match the true integral',
   'For components without an analytic total flux the estimate from a large image agrees with the integral of the profile to the documented accuracy.', ['inputs'], 'all parameter values',
   'Tests use a few.', ['core/model_object.cpp'], [('FindTotalFluxes', 'core/model_object.cpp')],
   'A quadrature-accuracy statement about runtime values: the truncation error depends on the profile parameters at run time.')
NA('X05', 'Best-fit parameter files reproduce the model when read back',
   'A saved best-fit parameter file, read back as a configuration file, gives parameter values equal to the fitted ones to the printed precision.', ['inputs'], 'all parameter values',
   'Tests read fixed files.', ['core/print_results.cpp', 'core/config_file_parser.cpp'], [('SaveParameters', 'core/print_results.cpp')],
   'Decimal formatting followed by parsing is a property of runtime strings; no static domain in reach relates the printed text to the parsed number.')
NA('X06', 'Special functions are accurate over the range used',
   'Incomplete gamma, Bessel and hypergeometric values used by the profiles are accurate to double precision for all parameters a user can set.', ['inputs'], 'all parameters',
   'Tests sample values.', [FO], [('gsl_sf_*', FO)],
   'The functions are implemented in GSL, outside the repository; their accuracy is numerical.')
