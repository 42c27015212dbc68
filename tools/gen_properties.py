"""Writes properties.jsonl (the hand-written property list lives here, in a readable form)."""
import json
S = "src/lightcurvelynx/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))

p("C01","Sampled parameters agree across the whole dependency graph",
  "Sampling a graph of parameters produces, for every sample, exactly one draw per node, and every parameter that is linked to another object's parameter or to a function's output holds that same drawn value. Every deterministic function's recorded output equals that function applied to its recorded inputs for the same sample, whatever the number of samples. Parameters whose values are fixed by the caller keep the fixed value and everything computed downstream uses it.",
  ["inputs","programs"],"All acyclic graphs of function, random and model nodes (chains, diamonds, shared inputs, multiple outputs, attribute/method/constant setters), all numbers of samples >= 1 and all sets of caller-fixed values.",
  "Tests build a handful of two- or three-node graphs with one or a few samples; sharing, diamonds, overrides and per-sample vectorisation interact in unboundedly many graph shapes.",
  ["base_models.py","graph_state.py","models/physical_model.py","math_nodes/single_value_node.py"],
  [("seen-node bookkeeping makes each node sample once","base_models.py:_sample_helper"),("setter resolution","base_models.py:_ParameterSource"),("function argument building","base_models.py:FunctionNode")],
  ["sampled state entries for every node.parameter"])

p("C02","A seeded run is exactly reproducible",
  "Given the same random generator state passed by the caller, drawing parameters, evaluating a model together with its effects, adding noise and running a complete simulation give bit-identical results, independently of what was drawn before in the process and of the nodes' own seeds. Nodes that are explicitly seeded and used without a caller generator also repeat their sequence. Different generator seeds give different draws for continuous quantities.",
  ["inputs","histories"],"All seeds, numbers of samples, all random-node types the library offers (including position, table, distribution and supernova samplers), all models with random effects, and any earlier use of the process-wide or node generators.",
  "Tests fix one seed for one node; they never check that each random component takes its draws from the generator the caller supplied.",
  ["base_models.py","math_nodes/np_random.py","math_nodes/scipy_random.py","math_nodes/distribution_sampler.py","math_nodes/given_sampler.py","math_nodes/ra_dec_sampler.py","math_nodes/bilby_priors.py","astro_utils/snia_utils.py","effects/white_noise.py","simulate.py","astro_utils/noise_model.py"],
  [("rng_info threaded through compute/apply","base_models.py, effects/*.py, simulate.py")],
  ["sampled states","flux arrays","simulation result tables"])

p("C03","A parameter state is a faithful, sliceable, convertible record",
  "A record of sampled parameters returns every stored value unchanged by node and name; the i-th sample obtained by indexing, iterating, slicing or extraction holds exactly the i-th entry of every parameter. Converting the record to a table, to a dictionary or to a file and back yields an equal record, and two records compare equal exactly when they hold the same parameters and the same values (numbers to within numpy's closeness tolerance). Merging updates changes only the named parameters, never changes a parameter that has been fixed, and copies are independent of the original.",
  ["inputs","histories"],"All sets of node and parameter names, scalar, array, boolean, string and integer values, one or many samples, and all sequences of set / update / copy / index / convert operations.",
  "Tests use two nodes with float values and fixed three-sample arrays, so shapes, dtypes and operation histories outside those are untested.",
  ["graph_state.py"],
  [("nested state dictionary keyed by node and parameter","graph_state.py:GraphState"),("fixed-parameter table","graph_state.py:set/update"),("table/list/file conversion","graph_state.py:from_table,from_dict,from_file,from_list")],
  ["record lookups","table, dictionary and file forms"])

p("C04","Nodes are uniquely identified and dependencies are reported exactly",
  "In any graph the reported dependencies are exactly the links the user made: an edge from one parameter to another appears if and only if the second is computed from or copied from the first. No two different nodes ever share a name, so the number of recorded parameters equals the number of parameters defined over all reachable nodes, and user-given labels are used verbatim. Graphs that reuse a label for two nodes are rejected instead of mixing their values.",
  ["programs"],"All acyclic graphs with any mixture of labelled and unlabelled nodes of equal or different type, in any construction order, including nodes linked after a first sampling.",
  "Tests check one hand-made graph; name clashes need several unlabelled nodes of one type or a graph that grows after use.",
  ["base_models.py","graph_state.py"],
  [("node numbering and node strings","base_models.py:set_graph_positions,node_string"),("dependency collection","base_models.py:build_dependency_graph,_dependency_graph_helper")],
  ["dependency graph object","sampled state names","errors for duplicate labels"])

p("C05","Arithmetic expression nodes compute exactly the written expression",
  "For every expression made of the supported operators, functions, constants and named inputs, the computed value equals ordinary floating point evaluation of that expression, element by element for every sample and also when evaluated for gradients. An expression that uses anything else (attribute access, calls of unknown names, comprehensions, subscripts, imports, lambdas, unknown variables) is refused with a value error when the node is created and is never executed.",
  ["inputs","programs"],"All expressions of the grammar over any number of named inputs, any number of samples, and all syntactically valid Python expressions outside the grammar.",
  "Tests try a dozen expressions; operator nesting, precedence, name clashes and hostile inputs form an infinite set.",
  ["math_nodes/basic_math_node.py"],
  [("AST whitelist","math_nodes/basic_math_node.py:_prepare"),("compiled evaluation","math_nodes/basic_math_node.py:eval")],
  ["node result","ValueError at construction","absence of side effects"])

p("C06","Samplers over given values return given values, in order and in proportion",
  "A node that samples from user-given values only ever returns entries of that list; the list variants return consecutive entries in order across any sequence of calls and fail clearly instead of repeating or skipping when the list is exhausted. A node that samples rows of a user-given table returns all columns of one sample from the same row, in row order when asked to. Weighted choices select each entry in proportion to its weight, never select an entry of zero weight, accept weights of any numeric type and never modify the caller's data.",
  ["inputs","histories"],"All value lists and tables (ints, floats, strings, booleans), all weight vectors, all batch-size sequences and all seeds.",
  "Tests use one small list and one call pattern; order, exhaustion, row coherence and aliasing depend on the sequence of batch sizes and the data type.",
  ["math_nodes/given_sampler.py","math_nodes/single_value_node.py"],
  [("next-index counter","math_nodes/given_sampler.py:GivenValueList,TableSampler"),("weighted choice","math_nodes/given_sampler.py:GivenValueSampler,BinarySampler")],
  ["generated values"])

p("C07","Random nodes follow the distribution the user specified",
  "Every random parameter node draws independent values from the distribution it was given: draws lie in the distribution's support and their empirical distribution matches it for every sample of a batch, including when the distribution's own parameters vary per sample. Numpy-backed nodes return exactly what numpy's generator returns for the same generator state and arguments. Distribution parameters that are themselves sampled are applied to their own sample only.",
  ["inputs"],"All distributions, parameter values, output shapes, numbers of samples (one or many) and seeds.",
  "Tests check means of one or two distributions with fixed seeds; mismatched per-sample parameters or support violations need varied parameters.",
  ["math_nodes/np_random.py","math_nodes/scipy_random.py","math_nodes/distribution_sampler.py","math_nodes/bilby_priors.py","astro_utils/snia_utils.py"],
  [("numpy generator dispatch","math_nodes/np_random.py:compute"),("numerical inversion","math_nodes/scipy_random.py"),("CDF interpolation","math_nodes/distribution_sampler.py")],
  ["generated values"])

p("C08","Sampled sky positions lie where the sampler promises",
  "Uniform sky samplers, and the pointings of random surveys (which the same seed repeats), have right ascensions in [0, 360) or [0, 2pi) and declinations in range, uniform in area. Samplers built from a survey's pointings return positions inside the field of view of some pointing (and, where times are produced, that pointing and its time belong together), and samplers built from a coverage map return positions inside the map. Coverage maps built from a survey contain every pointing centre and no cell that no pointing can reach.",
  ["inputs"],"All survey footprints (including fields near the poles and across RA = 0), radii, map depths, numbers of samples (one or many) and seeds.",
  "Tests use one or two fields near the equator and a single seed.",
  ["math_nodes/ra_dec_sampler.py","obstable/obs_table.py","obstable/opsim.py","obstable/ztf_obstable.py"],
  [("uniform sphere sampling","math_nodes/ra_dec_sampler.py:UniformRADEC"),("pointing based sampling","math_nodes/ra_dec_sampler.py:ObsTableRADECSampler,ObsTableUniformRADECSampler"),("coverage map sampling","math_nodes/ra_dec_sampler.py:ApproximateMOCSampler, obs_table.py:build_moc")],
  ["generated ra, dec, time"])

p("C09","Survey range searches return exactly the pointings that cover the query",
  "For every query position, radius and time window, the search over a survey returns exactly the rows whose pointing lies within the given angular radius of the query position and whose time lies within the inclusive window, each exactly once; a batch query returns for each position what a single query for it returns, for scalar and per-query limits alike. When the survey has a detector footprint, exactly the rows whose rotated footprint contains the position are returned. Invalid queries (missing coordinates, mismatched lengths, absent radius) are refused with a value error.",
  ["inputs"],"All survey tables (positions anywhere on the sphere, duplicate pointings, unsorted times), query batches, radii up to a hemisphere, optional time limits given as scalars or arrays, with and without footprints.",
  "Tests query a ten-row table near the equator; pole, RA wrap-around, boundaries and batch/array-argument combinations are unbounded.",
  ["obstable/obs_table.py","astro_utils/detector_footprint.py"],
  [("3-d KD tree over unit vectors","obstable/obs_table.py:_build_spatial_data,range_search"),("time mask","obstable/obs_table.py:range_search"),("footprint mask","astro_utils/detector_footprint.py:contains")],
  ["returned index arrays","get_observations dictionaries"])

p("C10","Filtering a survey keeps a fully consistent, independent survey",
  "After any sequence of row filters the survey contains exactly the selected rows in order with all column values unchanged, reports their count, time bounds and filters, keeps its noise and survey settings, and answers every search, column access, observation lookup and noise query as a survey freshly built from those rows would. Filtering works on the survey in place and never changes the table the survey was built from. The same holds for surveys built from tables with any row index.",
  ["histories","inputs"],"All survey tables, all sequences of filters (boolean masks and index lists), column additions, and queries in between.",
  "Tests filter once and look at the length; stale spatial index, stale labels and shared state need a history of operations.",
  ["obstable/obs_table.py","obstable/opsim.py","obstable/ztf_obstable.py","obstable/fake_obs_table.py"],
  [("copying and rebuilding after filtering","obstable/obs_table.py:filter_rows"),("lookup of rows","obstable/obs_table.py:get_observations,__getitem__")],
  ["all public queries of the filtered survey, the table given by the caller"])

p("C11","Surveys survive storage and column renaming unchanged",
  "Writing a survey to its database file or to parquet and reading it back, any number of times, yields a survey with the same columns, rows, values and noise behaviour, and existing files are never overwritten unless asked. A column may be looked up by its original or its mapped name interchangeably with the same result, and survey values given as parameters override the defaults everywhere they are used.",
  ["inputs","histories"],"All survey tables and column maps, all survey value overrides, and all sequences of write/read cycles for each survey class.",
  "Tests write and read one table once and compare a few columns.",
  ["obstable/obs_table.py","obstable/opsim.py","obstable/ztf_obstable.py","obstable/fake_obs_table.py"],
  [("sql and parquet io","obstable/obs_table.py:from_db,write_db,from_parquet,write_parquet"),("column map","obstable/obs_table.py:__init__,__getitem__,__contains__"),("survey values","obstable/obs_table.py:survey_values")],
  ["files, column access, len, survey_values"])

p("C12","Photometric errors and zero points follow the stated noise model",
  "For every exposure the reported flux uncertainty equals the stated noise formula: source, sky, readout and dark contributions add in quadrature in electrons over the effective footprint and are converted with the exposure's zero point, evaluated with that exposure's own values. Uncertainties are positive and finite for non-negative flux, do not decrease with flux, sky, readout or dark noise, and scale as one over the square root of the number of repeated exposures. Zero points computed for the LSST-like, ZTF-like and user-configured surveys are those of the documented conversions between magnitudes, counts and nanojansky.",
  ["inputs"],"All fluxes, sky brightnesses, seeing, exposure times, gains, zero points and exposure counts, for every survey class and every index subset in any order.",
  "Tests compare one parametrised value per survey; per-row indexing and monotonicity range over continuous inputs.",
  ["astro_utils/noise_model.py","astro_utils/zeropoint.py","obstable/opsim.py","obstable/ztf_obstable.py","obstable/fake_obs_table.py","obstable/obs_table.py"],
  [("Poisson error budget","astro_utils/noise_model.py:poisson_bandflux_std"),("zero points","astro_utils/zeropoint.py"),("per survey parameters","obstable/*:bandflux_error_point_source,_assign_zero_points")],
  ["bandflux_error_point_source results","zp column"])

p("C13","Detector footprints describe one rigid patch of sky",
  "A sky position is inside a detector footprint exactly when it falls inside the detector's outline after removing the pointing's position and rotation; the answer does not depend on where on the sky the pointing is, on the right ascension branch, or on testing positions singly or in batches. A rectangular footprint covers exactly the stated width and height about the pointing, and footprints given in pixels cover the stated number of pixels at the detector's pixel scale. Rotating the footprint and the position offset together never changes the answer.",
  ["inputs"],"All pointing positions, rotation angles, footprint shapes and query positions.",
  "Tests check a few points around the origin without rotation.",
  ["astro_utils/detector_footprint.py","obstable/obs_table.py"],
  [("rotation of the sky region","astro_utils/detector_footprint.py:rotate_to_center,contains")],
  ["contains results","range_search of surveys with a footprint"])

p("C14","Resampling a survey onto a denser cadence keeps a valid survey",
  "Building an oversampled survey around a position yields exactly the evenly spaced times of the requested range at the requested step, cycles through the requested bands, points every exposure at the requested position, copies every other quantity of each exposure from one existing exposure of the same band near that position (the one with the darkest sky, or random ones), keeps the survey's settings, and is searchable like any other survey. Requests without any matching exposure, with a band that was not observed there, an empty time range or an unknown strategy are refused.",
  ["inputs"],"All surveys, positions, radii, time ranges, steps, band lists (any number of bands, any divisibility) and summary strategies.",
  "The test uses one survey and a step for which the number of times divides evenly.",
  ["obstable/opsim.py"],
  [("oversampling","obstable/opsim.py:oversample_opsim")],
  ["the returned survey table"])

p("C15","Band fluxes are normalised, linear, photon-weighted averages",
  "For every passband a source with constant spectral flux density F has band flux F, and the band flux of any spectrum lies between the spectrum's minimum and maximum over the band for non-negative transmissions. Band flux is linear in the spectrum, is computed independently for every time and sample, and does not depend on the scale of the tabulated transmission. It converges to the photon-weighted average of the tabulated transmission curve.",
  ["inputs"],"All tabulated transmissions (regular or irregular grids, duplicated wavelengths, zero tails, any scale, angstrom or nanometre), grid steps that need not divide the range, trimming levels, and spectra.",
  "Tests check a few triangular transmissions whose width is a multiple of the step.",
  ["astro_utils/passbands.py"],
  [("normalised transmission table","astro_utils/passbands.py:_normalize_transmission_table"),("integration","astro_utils/passbands.py:fluxes_to_bandflux")],
  ["fluxes_to_bandflux results","waves / processed_transmission_table"])

p("C16","A passband group behaves as the collection of its passbands",
  "For every filter of a group, evaluating a spectrum given on the group's combined wavelength grid gives the same band flux as evaluating that filter's own passband on the same spectrum, whatever other passbands are in the group and however close or overlapping their grids are. The combined grid contains every member's wavelengths in sorted order without repeats; filters can be referred to by full name or, when unambiguous, by short name, and unknown or ambiguous names are refused. Wavelength masks and iteration refer to the members in a consistent order.",
  ["inputs","histories"],"All collections of passbands (different surveys with the same band letter, nearly coincident grids, disjoint grids), all filter-name arrays and all subsets and reprocessing of the group.",
  "Tests use three well separated passbands.",
  ["astro_utils/passbands.py"],
  [("merged wavelength grid","astro_utils/passbands.py:_update_waves"),("filter name resolution","astro_utils/passbands.py:PassbandGroup.__getitem__,fluxes_to_bandflux")],
  ["group.fluxes_to_bandflux, waves, filters, lookups"])

p("C17","Transmission tables are processed without distorting the curve",
  "Processing a transmission table onto a grid keeps the wavelength range except for the requested trimming of low-transmission tails, gives a sorted wavelength grid with the requested spacing (stretched so that it covers the range), reproduces the input curve's shape at its own wavelengths, and never modifies the caller's table. Tables given in nanometres, loaded from file or built from other libraries' bandpass objects give the same passband as the same curve given directly in angstroms. Malformed tables are refused with a value error.",
  ["inputs"],"All transmission tables, spacings (or none), trimming quantiles, units, and repeated reprocessing of one passband.",
  "Tests exercise three tables with hand-picked parameters.",
  ["astro_utils/passbands.py"],
  [("interpolate, trim, normalise","astro_utils/passbands.py:process_transmission_table"),("loading","astro_utils/passbands.py:load_transmission_table,from_sncosmo,from_svo")],
  ["waves and processed tables"])

p("C18","Evaluating many samples, times or wavelengths equals evaluating them one by one",
  "For every deterministic model the flux returned for a batch of samples equals, sample by sample, the flux returned for each sample's own parameters, and the flux at a time, wavelength or filter does not depend on which other times, wavelengths or filters are requested or in what order. Results have one entry per sample, time and wavelength (or observation), with the sample axis dropped for a single sample. Evaluation never changes the sampled parameters or the caller's arrays and repeating it gives the same result.",
  ["inputs"],"All source models of the library (analytic, periodic, template, static, spline, galaxy, composite, microlensing effects), all parameter samples, time and wavelength grids including unsorted and repeated entries.",
  "Tests evaluate one sample on one grid; leakage between samples or grid points needs paired evaluations.",
  ["models/physical_model.py","models/basic_models.py","models/multi_object_model.py","models/lightcurve_template_model.py","models/static_sed_model.py","models/spline_model.py","models/galaxy_models.py","models/periodic_model.py"],
  [("per-sample loop","models/physical_model.py:evaluate_sed,evaluate_bandfluxes"),("filter masks","models/physical_model.py:_evaluate_bandfluxes_single")],
  ["evaluate_sed / evaluate_bandfluxes results"])

p("C19","Redshift stretches time and wavelength and conserves energy",
  "An object at redshift z is observed with its rest-frame spectrum at wavelength divided by 1+z and at phase divided by 1+z about its reference time, with flux density multiplied by 1+z, so that band fluxes, time windows and rest-frame effects all refer to the same stretched frame. At z = 0, or when redshifting is switched off, the observed and rest-frame spectra are identical. Luminosity distances derived from redshift equal those of the given cosmology and grow with redshift.",
  ["inputs"],"All redshifts >= 0, reference times, observed times and wavelengths, models, cosmologies and wavelength limits.",
  "Tests check one redshift for a step model.",
  ["astro_utils/redshift.py","models/physical_model.py"],
  [("frame conversion","astro_utils/redshift.py:obs_to_rest_times_waves,rest_to_obs_flux"),("application in evaluation","models/physical_model.py:_evaluate_single"),("distance node","astro_utils/redshift.py:RedshiftDistFunc")],
  ["evaluate_sed results","distance parameter"])

p("C20","Effects are applied exactly once, in the right frame, with their own parameters",
  "Effects added to a model act on its flux once each: rest-frame effects first, on rest-frame wavelengths and times, then observer-frame effects on observed ones, each group in the order added, using that sample's values of the effect's parameters. Constant dimming scales the flux by exactly the stated factor, extinction follows the chosen law at the stated reddening, microlensing multiplies the flux by its magnification curve (at least one, peaking at the stated time), and white noise has the stated standard deviation. Adding an effect never changes the flux of models without it.",
  ["inputs","configurations"],"All sequences of effects in either frame, all parameter values (constant or sampled), all models (spectral and band-flux), redshifts and samples.",
  "Tests add one effect to one constant model.",
  ["effects/basic_effects.py","effects/effect_model.py","effects/extinction.py","effects/microlensing.py","effects/white_noise.py","models/physical_model.py"],
  [("effect lists by frame","models/physical_model.py:add_effect,_evaluate_single"),("effect implementations","effects/*.py")],
  ["evaluated fluxes with and without effects"])

p("C21","Fluxes outside a model's wavelength range follow the chosen extrapolation",
  "Inside a model's valid wavelength range the flux is unaffected by the extrapolation choice; outside it, it is zero by default or exactly the chosen rule (constant, last value, linear decay to zero over the stated width, exponential decay at the stated rate) continued from the flux at the nearest valid edge at each time, in the object's rest frame. Extrapolated fluxes are continuous at the edge for the decaying and last-value rules.",
  ["inputs"],"All models with wavelength limits, extrapolation rules and parameters, query wavelengths on either or both sides and exactly on the limits, times and redshifts.",
  "Tests evaluate one model at a few wavelengths on one side.",
  ["utils/wave_extrapolate.py","models/physical_model.py"],
  [("range split and edge evaluation","models/physical_model.py:compute_sed_with_extrapolation"),("rules","utils/wave_extrapolate.py")],
  ["evaluate_sed results outside the range"])

p("C22","Composite sources are exactly the sum or the selection of their parts",
  "A sum of sources has, at every time and wavelength and in every band, the weighted sum of the fluxes its parts have on their own with the same sampled parameters, each with its own redshift and effects, and effects added to the sum act as if added to the total (observer frame) or to each part (rest frame). A random-choice source has exactly the flux of the part recorded as selected for that sample, chosen in proportion to the weights, and reports that part's wavelength limits. Positions and other settings given to or inherited by the composite are the ones used for simulation, and settings applied to the composite reach all parts.",
  ["inputs","configurations"],"All collections of parts (spectral and band-flux, nested, shared parameters), weights, effects and samples.",
  "Tests combine two constant sources.",
  ["models/multi_object_model.py"],
  [("weighted sum","models/multi_object_model.py:AdditiveMultiObjectModel"),("selection","models/multi_object_model.py:RandomMultiObjectModel")],
  ["evaluate_sed / evaluate_bandfluxes of composite and parts"])

p("C23","Template light curves reproduce the data they were built from",
  "A model built from tabulated light curves returns, in every band, the tabulated flux at the tabulated phases, straight-line interpolation in between, and the baseline (zero unless given) outside the tabulated span; a periodic template repeats with its period at all times. Band fluxes computed from the template's spectrum through the same passbands equal the tabulated light curve for non-overlapping bands, magnitudes are converted once to nanojansky, reference-time shifts move the curve rigidly, and the input data are not modified. With several templates the selected one alone determines the flux, chosen in proportion to the weights.",
  ["inputs"],"All light-curve tables (arrays, dictionaries, tables, library files), periods, baselines, reference times, filters, query times far before or after, and weights.",
  "Tests use sine curves on three bands at in-range times.",
  ["models/lightcurve_template_model.py","utils/io_utils.py"],
  [("light curve data normalisation","models/lightcurve_template_model.py:LightcurveData"),("interpolation and baseline","models/lightcurve_template_model.py:evaluate*"),("SED basis","models/lightcurve_template_model.py:_create_sed_basis")],
  ["evaluate_bandfluxes and evaluate_sed results"])

p("C24","Analytic and static sources have their documented shape",
  "Each built-in analytic source equals its documented formula at every time and wavelength: constant, step, linear-in-wavelength, sine-wave, static spectrum (linear interpolation of the given spectrum, zero outside), static band flux, Gaussian galaxy profile and eclipsing binary. Periodic sources repeat exactly with their period, eclipses obey circle-overlap geometry (symmetric, never brighter than the un-eclipsed pair, deepest at conjunction), and black-body brightness follows Planck's law, scaling with radius squared and inverse distance squared. Accreting black hole sources obey their documented scaling relations with mass and Eddington ratio.",
  ["inputs"],"All parameter values in the documented domains, times and wavelengths, including boundaries such as step edges, eclipse contacts and spectrum end points.",
  "Tests check a few points of each model.",
  ["models/basic_models.py","models/static_sed_model.py","models/galaxy_models.py","models/periodic_model.py","models/periodic_variable_star.py","models/agn.py","astro_utils/black_body.py","astro_utils/agn_utils.py"],
  [("closed forms","models/basic_models.py, models/periodic_variable_star.py, astro_utils/black_body.py, models/agn.py")],
  ["evaluate_sed results, derived parameters"])

p("C25","Grid-based spectral models interpolate their grid faithfully",
  "Models defined by a grid of fluxes return the grid value at every grid point, agree between grid points with the stated interpolation scheme (spline of the stated degree, or the bicubic scheme with linear edges and zero outside used by SALT models), and depend on the phase relative to the reference time only. SALT-type spectra equal amplitude times the mean plus stretch-weighted component, attenuated by the colour law, for all amplitude, stretch and colour values, and the colour law equals the published polynomial with linear continuation. Wrapped external spectral libraries return that library's flux converted to nanojansky.",
  ["inputs"],"All grids (regular or not), query points on, between and outside grid points, and all amplitude, stretch, colour and reference-time values.",
  "Tests compare a few points with stored numbers, and the parity tests with real SALT data need the network.",
  ["models/spline_model.py","models/salt2_jax.py","utils/bicubic_interp.py","astro_utils/salt2_color_law.py","models/sncomso_models.py","models/redback_models.py","models/bayesn.py"],
  [("bicubic kernel","utils/bicubic_interp.py"),("colour law","astro_utils/salt2_color_law.py"),("spline","models/spline_model.py")],
  ["evaluate_sed results against independent implementations"])

p("C26","Band fluxes of a model are its spectrum seen through the passband",
  "For every spectral model, the band flux reported for an observation equals the model's observed spectrum at that observation's time, sampled on that filter's wavelengths and integrated through that filter alone. The result for each observation depends only on its own time and filter, is in the order requested, and is the same whether filters are evaluated together, separately, singly through one passband object or in a group. Empty requests return empty results and unknown filters are refused.",
  ["inputs"],"All spectral models, passband groups, time and filter sequences (interleaved, repeated, empty), samples and redshifts.",
  "Tests use one model with constant flux, for which mixing up filters or times is invisible.",
  ["models/physical_model.py","astro_utils/passbands.py"],
  [("per filter integration","models/physical_model.py:_evaluate_bandfluxes_single,evaluate_bandfluxes")],
  ["evaluate_bandfluxes vs evaluate_sed + passband integration"])

p("C27","Simulated light curves contain exactly the survey's observations of each object",
  "A simulation returns one row per requested object, and each object's light curve has exactly one entry for every exposure of every given survey that covers its position within the requested time window (and the model's own mask when asked), with that exposure's time, filter, survey number and requested extra columns. The reported number of observations, position, redshift, reference time and saved parameters are those of the object, objects without observations are kept with zero observations, and results of several surveys are the union of single-survey results. A source defined by band fluxes, alone or within a composite, belongs to one survey and is refused with several.",
  ["inputs","configurations"],"All surveys (one or several, disjoint or overlapping, filtered, any row index), object positions and times, numbers of objects, windows, masks, saved columns and model types.",
  "Tests simulate a few objects over a ten-row survey and check counts.",
  ["simulate.py","obstable/obs_table.py"],
  [("matching and assembly","simulate.py:simulate_lightcurves"),("time windows","simulate.py:get_time_windows")],
  ["the result table compared with a brute force oracle"])

p("C28","Simulated fluxes are the model's fluxes plus noise of the reported size",
  "In every simulated light curve the noise-free flux equals the model's band flux for that object's saved parameters at that time in that filter, and the reported uncertainty equals the survey's uncertainty for that exposure at that noise-free flux. The noisy flux differs from the noise-free flux by independent, zero-mean Gaussian noise with the reported uncertainty as its standard deviation. Re-evaluating the model from the parameters saved in the results reproduces the noise-free fluxes.",
  ["inputs"],"All models, surveys, passbands, parameter distributions and seeds, one or several surveys.",
  "Tests look at signs and rough sizes; alignment of fluxes with exposures and the noise distribution need an oracle over many cases.",
  ["simulate.py","astro_utils/noise_model.py","obstable/obs_table.py"],
  [("flux, error and noise assembly","simulate.py:simulate_lightcurves"),("noise draw","astro_utils/noise_model.py:apply_noise")],
  ["flux, fluxerr, flux_perfect columns"])

p("C29","Noise-free light curves are the model sampled on the requested phase grid",
  "Noise-free light curves contain, for every sampled object, exactly the rest-frame phases from the requested start up to but excluding the end in the requested step, observed times equal to the reference time plus phase times one plus redshift, and for every filter the model's band flux at those times. Integer and floating point limits, scalar and per-object limits, and single and batched calls give the same values.",
  ["inputs"],"All models, redshifts, reference times, phase grids (scalar or per object) and passband groups.",
  "Tests check one model with the default grid.",
  ["simulate.py"],
  [("grid construction","simulate.py:compute_single_noise_free_lightcurve,compute_noise_free_lightcurves")],
  ["times, rest_phase and per filter columns"])

p("C30","Post-processing annotates each observation from its own data",
  "Post-processing a result table adds to every observation its own signal-to-noise ratio, detection flag, AB magnitude, magnitude error and time relative to its own object's reference time, leaving undefined quantities empty and never flagging them as detections. It works on any subset, order or index of the result rows, gives per light curve the same values as processing that light curve alone, changes no existing value, and dropping empty light curves removes exactly the objects without observations.",
  ["inputs","histories"],"All result tables (filtered, reordered, with empty light curves, zero or negative fluxes and errors, reference times including zero) and thresholds.",
  "Tests process one table with consecutive row numbers.",
  ["utils/post_process_results.py"],
  [("column computation","utils/post_process_results.py")],
  ["added nested columns"])

p("C31","Unit conversions are exact inverses and match physical definitions",
  "Converting between magnitudes and fluxes, and between wavelength- and frequency-based flux densities, and back returns the original value; both directions agree with the AB system and with general-purpose unit libraries for every unit combination. Conversions act element by element on arrays of any shape, preserve ordering (brighter means smaller magnitude), and never modify their inputs.",
  ["inputs"],"All positive fluxes and finite magnitudes, wavelengths, units and array shapes.",
  "Tests convert a few values.",
  ["astro_utils/mag_flux.py","astro_utils/unit_utils.py","astro_utils/zeropoint.py","astro_utils/obs_utils.py"],
  [("conversions","astro_utils/mag_flux.py, astro_utils/unit_utils.py")],
  ["conversion results"])

p("C32","Supernova population relations and host placement obey their physics",
  "Derived supernova quantities follow their stated relations for every sample: distance modulus from redshift for the given cosmology, brightness from the Tripp relation, and stretch drawn from the distribution for its own host's mass. Supernovae placed at a physical separation from a host lie at exactly the corresponding angular separation, at uniformly random position angles. Expected numbers per redshift bin equal the volumetric rate integrated over the comoving volume and add up when bins are split.",
  ["inputs"],"All redshifts, stretch, colour and absolute-magnitude values, host masses and positions, separations, cosmologies and bin choices.",
  "Tests check one or two values of each helper.",
  ["astro_utils/snia_utils.py","models/snia_host.py"],
  [("Tripp relation, distance modulus, rates, placement","astro_utils/snia_utils.py")],
  ["node outputs, helper results"])

p("C33","Dust and extinction look-ups refer to the object's own position and wavelength",
  "The reddening assigned to an object is the dust map's value at that object's own position for every sample, whether one or many positions are queried, and constant or hemisphere maps return their stated values on every position including the boundary. Extinguished spectra equal the input attenuated by the named law at each wavelength, never exceed the input for positive reddening within the law's range, and attenuations multiply when reddenings add.",
  ["inputs"],"All positions, dust maps, reddening values, extinction laws, spectra and wavelengths within the laws' ranges.",
  "Tests query two positions with constant maps.",
  ["astro_utils/dustmap.py","effects/extinction.py"],
  [("map query node","astro_utils/dustmap.py:DustmapWrapper"),("extinction","effects/extinction.py:apply")],
  ["ebv outputs, extinguished fluxes"])

p("C34","Data files are read back as they were written or refused",
  "Arrays and grids written to any supported format are read back with the same values, and grid files yield exactly the value stored for each coordinate pair or are refused if incomplete or out of order. Light-curve library files yield one entry per event with its own identifier, parameters, times and magnitudes, ignoring comments and documentation, in plain and compressed form alike. Missing files, unsupported formats and malformed contents are refused with a clear error rather than silently misread.",
  ["inputs"],"All numeric arrays and grids, all event libraries the format allows, and damaged variants (missing rows, shuffled rows, wrong column counts, mismatched event ends).",
  "Tests read one small file per format.",
  ["utils/io_utils.py","models/spline_model.py","models/static_sed_model.py","models/lightcurve_template_model.py"],
  [("readers and writers","utils/io_utils.py")],
  ["returned arrays and tables, errors"])

p("C35","Remote data are fetched once, completely, and refreshed on request",
  "Data with a local file are read from it without asking the server; a missing file is downloaded from its URL, and with force_download an existing file is downloaded again, so that afterwards the local file has exactly the bytes the server holds. A download that fails for any reason (missing URL, HTTP error, connection cut half-way) is reported and leaves every local file as it was, without partial or stray files. Passband tables, named passband services and survey databases loaded through a URL follow the same rule and equal the same data given directly.",
  ["inputs","histories","fault_sequences"],"All histories of requests (present, missing, forced, without a URL), changes of the remote content, local edits and deletions, and download failures at any point.",
  "Tests replace the download function by a stand-in that always succeeds, and have no network.",
  ["utils/data_download.py","astro_utils/passbands.py","obstable/opsim.py"],
  [("download if needed","utils/data_download.py:download_data_file_if_needed"),("users of it","astro_utils/passbands.py:from_file, from_svo, _roman_load_preset; obstable/opsim.py:from_url")],
  ["bytes of the local files, requests seen by the server, loaded tables"])

p("C36","Plots show exactly the data they are given",
  "A plot of light curves contains every given point once, at its own time and flux, in the series of its own filter and with its own error bar, whatever the number and order of the filters; underlying models, band light curves, passbands, template curves and spectra are drawn with the values they hold. Points drawn over a detector footprint are marked inside or outside as they are on the sky, and the outline and all points lie within the axes. Given axes or figures are used, inputs are not modified and inputs of different lengths are refused.",
  ["inputs"],"All numbers of points and filters (more filters than colours, none at all), orders, errors, models, footprints and pointings.",
  "Tests only check that the plotting functions run on three points.",
  ["utils/plotting.py","astro_utils/passbands.py","astro_utils/detector_footprint.py","models/lightcurve_template_model.py"],
  [("light curve plots","utils/plotting.py:plot_lightcurves"),("footprint plot","astro_utils/detector_footprint.py:plot"),("other plots","astro_utils/passbands.py:plot, models/lightcurve_template_model.py:plot_lightcurves, plot_sed_basis")],
  ["the numbers held by the drawn artists"])
p("C37","Values taken out for differentiation reproduce the sample and its slopes",
  "The tree of values extracted from a sampled model for differentiation holds exactly the parameters declared differentiable (constants, unless declared otherwise) that the result depends on without another differentiable parameter in between, also those of the parts of a composite source, with their sampled values. Sampling or evaluating again with this tree as given values reproduces the sample and the flux, a changed value takes effect everywhere it is used and nowhere else, and JAX derivatives through the tree equal finite differences.",
  ["inputs","histories"],"All graphs of parameters, functions, expressions and random nodes, declarations, later changes of sources, composites and perturbations.",
  "Tests differentiate one two-node graph and list the tree of two plain nodes.",
  ["base_models.py","models/multi_object_model.py","graph_state.py"],
  [("tree of values","base_models.py:build_pytree"),("given values","base_models.py:sample_parameters"),("parts of composites","models/multi_object_model.py")],
  ["build_pytree","generate and evaluate_sed with given_args","jax.value_and_grad"])

ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
