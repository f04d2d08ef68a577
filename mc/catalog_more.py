prop(
    "O01",
    "Survey queries return exactly the matching observations after any edit history",
    "After any history of row filters, column additions and overwrites, and radius changes, a position query returns exactly the rows "
    "whose pointing lies within the search radius and whose time lies in the given window (bounds included), as positions "
    "into the current table, and reading observations at those positions returns those rows' values. Queries for many "
    "positions equal the queries for each one, whether radii and windows are given once or per position. Malformed "
    "queries are refused.",
    ["histories", "inputs"],
    "all edit histories to the depth bound over four kinds of row index; all subsets of a pool of special pointings times "
    "all query points, radii and windows",
    "Tests query tables that were just built; stale indices after edits, RA wrap, poles and row-label vs. row-position mixups "
    "need a history and special geometry.",
    ["obstable/obs_table.py"],
    [("range_search / is_observed / get_observations", "obstable/obs_table.py"), ("filter_rows and the spatial index", "obstable/obs_table.py")],
    BFS,
    "Exhaustive over histories of bounded depth and subsets of an eight-pointing pool; points within 1e-7 deg of a field's edge are not judged.",
)

prop(
    "O02",
    "Survey columns keep their names, rows and values under every history of edits",
    "After any history of column additions, overwrites, refused writes and row filters, every column is reachable by its "
    "standard name and by its original name with the values last written for each surviving row, and nothing else changed, "
    "neither in the table nor in the data the caller passed in. Survey values given by the caller take precedence over "
    "the class's defaults, and tables missing required columns are refused.",
    ["histories", "configurations"],
    "all edit histories to the depth bound for every column map and container; every combination of where survey values are given",
    "Tests add one column to one table; misaligned rows appear only after filters and with particular containers.",
    ["obstable/obs_table.py"],
    [("column map and aliases", "obstable/obs_table.py"), ("add_column / filter_rows", "obstable/obs_table.py")],
    BFS,
    "Exhaustive within depth and alphabet; columns hold numbers or strings.",
)

prop(
    "O03",
    "Survey tables survive every sequence of writes and reads; nothing is overwritten",
    "A survey table written to a database or a file and read back, any number of times and in any order with edits, has "
    "the same rows, columns and values. An existing file or database table is replaced only when that was asked for; a "
    "refused or failed write leaves the old content in place, and overwriting leaves exactly the new content.",
    ["histories"],
    "all histories of writes, reads, edits and refused writes to the depth bound, for every survey table class",
    "Tests do one write and one read per format; the losses need repeated round trips, second table names or particular classes.",
    ["obstable/obs_table.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py"],
    [("from_db / write_db / from_parquet / write_parquet", "obstable/obs_table.py")],
    BFS,
    "Exhaustive within depth; the database round trip carries the table's columns only, not the survey values.",
)

prop(
    "O04",
    "Each observation's zero point and flux error derive from its own row",
    "For every survey type, the zero point and the flux error of an observation equal the documented formula applied to "
    "that observation's own row, filter and model flux and to the survey's configured values, whichever rows are asked for "
    "and in which order. Per-observation columns take precedence over survey-wide values, which take precedence over "
    "defaults, and edits of the table are followed.",
    ["configurations", "inputs"],
    "every class, every combination of overridden survey values and ways of giving them, every selection of up to three rows in any order",
    "Tests compare one configuration per class with hand-computed numbers; precedence and row order combine multiplicatively.",
    ["obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py", "obstable/roman_obstable.py", "astro_utils/noise_model.py", "astro_utils/zeropoint.py"],
    [("bandflux_error_point_source", "obstable/opsim.py"), ("poisson_bandflux_std", "astro_utils/noise_model.py"), ("flux_electron_zeropoint", "astro_utils/zeropoint.py")],
    ENUM,
    "Exhaustive over the configuration lattice; the Roman characterization tables are stand-ins.",
)

prop(
    "S01",
    "A simulation contains exactly the observations that see each object",
    "For every simulated object the result contains exactly the observations of every survey that cover its position, lie "
    "in its time window and have a supported filter, each with that observation's time, filter, survey and saved columns, "
    "the model's flux there and the survey's flux error. Objects keep their order, identifiers, positions and parameters, "
    "also when some of them are never observed; inconsistent inputs are refused.",
    ["inputs", "configurations"],
    "every placement of up to three objects on or off the fields, times every window, observation mask, reference time, "
    "survey combination and saved-column set",
    "Tests simulate one survey with everything observed; misalignment shows only when objects, surveys and windows differ in what they see.",
    ["simulate.py", "obstable/obs_table.py", "models/physical_model.py"],
    [("simulate_lightcurves", "simulate.py"), ("get_time_windows", "simulate.py")],
    ENUM,
    "Exhaustive over the bounded placements and options; noise is scripted through the generator interface.",
)

prop(
    "S02",
    "A simulation is a function of the model, the surveys and the generator",
    "Simulating with a generator in a given state gives the same result whatever was drawn, simulated or evaluated before, "
    "with the same model or elsewhere, and does not use the process-wide generator. An object's noise-free values depend "
    "only on its own parameters, not on which other objects are simulated with it or in which order.",
    ["histories"],
    "all histories of simulations, draws, noise-free curves and other uses of randomness to the depth bound for every model "
    "kind; every ordered selection of objects",
    "Tests fix one seed and run once; hidden state shows up only in the second use after some other use.",
    ["simulate.py", "base_models.py", "models/physical_model.py", "models/multi_object_model.py", "effects/white_noise.py"],
    [("generator threading", "simulate.py"), ("evaluate_sed / effects", "models/physical_model.py")],
    BFS,
    "Exhaustive within depth; assumes that numpy generators with equal seeds give equal streams.",
)

prop(
    "S03",
    "Noise-free light curves are the model at the stated phases",
    "A noise-free light curve lists, for each object and each requested filter, the model's flux at every requested "
    "rest-frame phase, with observer times that follow from that object's own reference time and redshift. Phases may be "
    "given as a range with a step or as a grid, for one object or many.",
    ["inputs", "configurations"],
    "every combination of samples, redshifts, reference times, phase grids and filters for SED, bandflux and multi-object models",
    "Tests run one model with one grid; mixups between objects, filters and redshifts need several that differ.",
    ["simulate.py"],
    [("compute_noise_free_lightcurves", "simulate.py"), ("compute_single_noise_free_lightcurve", "simulate.py")],
    ENUM,
    "Exhaustive over the bounded grid.",
)

prop(
    "O05",
    "Oversampled surveys keep one pointing and copy whole real observations",
    "Oversampling a survey gives a regular cadence over the requested time range at one pointing, with every requested "
    "band represented in turn, and every row is one of the survey's own observations of that pointing and band, chosen by "
    "the stated strategy, with only its time replaced. Survey values are kept, and the original table is left unchanged.",
    ["inputs", "configurations"],
    "every subset of a pool of observations times every row index kind, time range, step, band selection, strategy and survey value",
    "Tests oversample one small table with a default index; ties, label collisions and uneven band counts need combinations.",
    ["obstable/opsim.py"],
    [("oversample_opsim", "obstable/opsim.py")],
    ENUM,
    "Exhaustive over the pool; observations carry an identifier column, as documented.",
)

prop(
    "P01",
    "Bandfluxes are calibrated integrals of the transmission curve",
    "A passband's bandflux of a constant flux is that constant, it is linear in the flux, and it equals the normalised "
    "integral of flux times transmission over frequency for the transmission table interpolated on the passband's grid. It depends "
    "only on the transmission curve and the current settings, not on how the passband was loaded or in which order it was "
    "reprocessed. Malformed tables are refused.",
    ["inputs", "histories"],
    "every curve over three transmission values on six wavelength grids times every step, trimming and unit; every history of reprocessing",
    "Tests integrate a few smooth curves; wrong steps, lost normalisation or stale state need odd grids or repeated processing.",
    ["astro_utils/passbands.py"],
    [("Passband.process_transmission_table", "astro_utils/passbands.py"), ("Passband.fluxes_to_bandflux", "astro_utils/passbands.py")],
    BFS,
    "Exhaustive over curves with five samples; the trimming's upper side is judged with one grid cell of slack.",
)

prop(
    "P02",
    "A passband group integrates every filter as that passband alone",
    "For every collection of passbands a group returns, for each filter asked for and in that order, the bandflux the named "
    "passband alone gives for the fluxes at its own wavelengths, whatever other passbands share, nest in or interleave its "
    "wavelength grid. Adding, replacing and reprocessing passbands keeps this true, and missing or ambiguous names are refused.",
    ["inputs", "histories"],
    "every ordered selection of up to four passbands from a pool with shared names and special grids; every history of edits to the depth bound",
    "Tests use two or three similar grids; nearly equal, nested or out-of-order grids and name clashes go wrong in combination.",
    ["astro_utils/passbands.py"],
    [("PassbandGroup._update_internal_data / fluxes_to_bandflux", "astro_utils/passbands.py")],
    BFS,
    "Exhaustive over the pool; passband objects shared by two groups and reprocessed through one of them are not judged.",
)

prop(
    "M01",
    "SEDs are the model in its rest frame, with effects in the documented order",
    "An SED is the model's rest-frame flux at the times and wavelengths that redshift and reference time map the queries to, "
    "then the rest-frame effects in order of addition at those, then the factor (1 + z), then the observer-frame effects at the "
    "queried ones; outside the model's wavelength range the extrapolation rule continues the edge value, and zero without one. Every sample "
    "and query point is computed as if it were alone, in whichever order they are given, after any history of adding effects, "
    "toggling redshift and evaluating. Redshifting without a redshift or reference time is refused.",
    ["inputs", "configurations", "histories"],
    "every combination of redshift, reference time, bounds, extrapolation, query order and effect sequence of up to three (four)",
    "Tests use one effect or one redshift with separable fluxes; order and frame errors cancel out there.",
    ["models/physical_model.py", "utils/wave_extrapolate.py", "astro_utils/redshift.py"],
    [("SEDModel._evaluate_single", "models/physical_model.py"), ("compute_sed_with_extrapolation", "models/physical_model.py")],
    BFS,
    "Exhaustive over the bounded grid; effects are synthetic and non-commuting.",
)

prop(
    "M02",
    "Band fluxes are each observation's own filter applied at its own time",
    "For any list of observation times and filters, in any order and with repetitions, each band flux is the named filter applied to "
    "the model's SED at that time, or for bandflux models the model's flux in that filter and time with every effect in order of addition. "
    "Results for many observations or samples equal those for each alone, whichever way passbands and filters are given. Missing, "
    "unknown or ambiguous filters are refused.",
    ["inputs", "histories"],
    "every sequence of up to three observations over four passbands with shared names; every sequence of effects; all histories to the depth bound",
    "Tests evaluate sorted filters once; misplaced values need repeated, unsorted filters with fluxes that differ in each place.",
    ["models/physical_model.py", "astro_utils/passbands.py"],
    [("BasePhysicalModel.evaluate_bandfluxes", "models/physical_model.py"), ("_evaluate_bandfluxes_single", "models/physical_model.py")],
    BFS,
    "Exhaustive over the bounded sequences; one passband's integral is decided by P01.",
)

prop(
    "M03",
    "Combined models are the weighted sum or the selected one of their objects",
    "An additive model's flux is the weighted sum of its objects' fluxes and a random model's is that of the object it selected for the "
    "sample, at any depth of nesting, each object with its own redshift, reference time, wavelength range and effects. Rest-frame effects "
    "added to the combination act on every object and observer-frame effects once on the combination; an object evaluated alone gives its "
    "own flux. SEDs of combinations with band-flux-only objects, and weights of the wrong number, are refused.",
    ["configurations", "histories"],
    "every tree of bounded size over five leaves, times every placement of up to two (three) effects; all histories to the depth bound",
    "Tests use one level with equal redshifts or commuting effects.",
    ["models/multi_object_model.py", "models/physical_model.py"],
    [("AdditiveMultiObjectModel / RandomMultiObjectModel", "models/multi_object_model.py"), ("MultiObjectModel.add_effect", "models/multi_object_model.py")],
    BFS,
    "Exhaustive over the bounded trees; an object is used once per combination.",
)

prop(
    "M04",
    "Light-curve templates are reproduced, shifted, repeated or replaced by baseline",
    "A light-curve model's flux in a filter is its curve, linearly interpolated between its samples, shifted to the object's reference "
    "time, repeated for periodic curves, and the filter's baseline outside non-periodic ones, whatever the form in which curves were given, "
    "for bands and as an SED whose band fluxes are the curves. Each sample uses the curve it selected; LCLIB files give the curves they "
    "list; the caller's data stay unchanged and inconsistent data are refused.",
    ["inputs", "configurations"],
    "every combination of two curves' grids, containers, number types, epochs, periods, baselines and query times; every passband collection",
    "Tests use one sine-shaped template; offsets, edges and baselines per filter go wrong only for particular combinations.",
    ["models/lightcurve_template_model.py"],
    [("LightcurveData / LightcurveTemplateModel / MultiLightcurveTemplateModel", "models/lightcurve_template_model.py")],
    ENUM,
    "Exhaustive over the bounded configurations; SED form judged on passbands that overlap little enough for the documented basis.",
)

prop(
    "M05",
    "Built-in sources have their documented flux, in whatever order it is queried",
    "The constant, step, sine, linear, spline, static, tabulated, galaxy and periodic variable-star models return their documented flux at "
    "every time and wavelength, one value per pair asked for and in that order, for each sample's own parameters. Periodic sources repeat "
    "with their period from their reference time, and galaxies dim with the angular separation from their centre. Invalid parameters are refused.",
    ["inputs", "configurations"],
    "every combination of parameter values and every ordered selection of query times and wavelengths, with repeats, of every built-in model",
    "Tests query sorted grids at one parameter setting.",
    ["models/basic_models.py", "models/static_sed_model.py", "models/galaxy_models.py", "models/periodic_model.py", "models/periodic_variable_star.py", "models/spline_model.py"],
    [("compute_sed of the built-in models", "models/basic_models.py"), ("PeriodicVariableStar", "models/periodic_variable_star.py")],
    ENUM,
    "Exhaustive over the bounded parameter lattice; the third-party sncosmo and VBMicrolensing sources are not compared.",
)

prop(
    "M06",
    "AGN light curves follow each sample's own parameters and the given generator",
    "Each AGN sample's luminosity, accretion rate, variability amplitude and time scale derive from its own mass and Eddington ratio, and "
    "its flux is that of the standard disk for its own parameters, dimmed by a damped random walk drawn from the given generator, or from "
    "the model's own seeded one if none is given. Evaluations with equally seeded generators agree whatever was evaluated before. "
    "Incomplete or inconsistent inputs are refused.",
    ["inputs", "histories"],
    "every combination of masses, ratios, distances and inclinations over the samples, every script of draws, every history of evaluations",
    "Tests check shapes, signs and single formulas; sample mixups and generator leaks need several samples and uses.",
    ["models/agn.py"],
    [("AGN", "models/agn.py"), ("sample_damped_random_walk", "models/agn.py")],
    BFS,
    "Exhaustive over the bounded space; draws are scripted; three listed findings on the walk's steps and the wavelength scaling.",
)

prop(
    "E01",
    "Effects do what they document, to SEDs and band fluxes alike and in order",
    "Dimming, extinction, microlensing and white noise change fluxes by their documented formula, using each sample's own parameter "
    "values, in the frame they were added for and in the order of addition, to SEDs, band fluxes and combined models alike. Noise comes from the given "
    "generator. Unknown laws and inconsistent settings are refused.",
    ["inputs", "configurations"],
    "every combination of parameter values and flux shapes; every ordered selection of effects on every model kind; every extinction law in both frames",
    "Tests apply one effect to one flat SED, where order, frame and per-sample parameters do not matter.",
    ["effects/basic_effects.py", "effects/extinction.py", "effects/microlensing.py", "effects/white_noise.py", "effects/effect_model.py"],
    [("EffectModel.apply / apply_bandflux", "effects/effect_model.py"), ("ExtinctionEffect", "effects/extinction.py"), ("Microlensing", "effects/microlensing.py")],
    ENUM,
    "Exhaustive over the bounded setups; the dust_extinction laws themselves are taken as given.",
)

prop(
    "D01",
    "A detector footprint selects exactly the points inside it at any pointing",
    "A point is observed exactly if it falls inside the footprint after projecting it on the tangent plane of the pointing and rotating it, "
    "for scalars, arrays and broadcast centers alike, at the poles, across RA wrap and never on the far side of the sky. Pixel conversions "
    "are inverses. A survey table with a footprint returns exactly the pointings whose footprint holds the point, before and after edits of "
    "the table or footprint.",
    ["inputs", "configurations", "histories"],
    "every shape, scale, pointing, rotation and point of the lattice; every mix of argument shapes; every edit history to the depth bound",
    "Tests look at single footprints near the equator; projections, wraps and broadcasts go wrong elsewhere.",
    ["astro_utils/detector_footprint.py", "obstable/obs_table.py"],
    [("DetectorFootprint", "astro_utils/detector_footprint.py"), ("ObsTable.range_search with a footprint", "obstable/obs_table.py")],
    BFS,
    "Exhaustive over the lattice; points within 1% or two pixels of an edge are not judged.",
)

prop(
    "D02",
    "Sky samplers cover what they document, for every outcome of their draws",
    "Positions drawn uniformly (random surveys' too) lie anywhere on the sphere with density proportional to area, those drawn from a survey table are its "
    "pointings moved by at most the radius and carry that row's own other values, in-order samplers return the rows in order, and coverage "
    "samplers return only covered positions and give every covered cell the same share. One value per sample is returned, the table is left "
    "unchanged and unusable settings are refused.",
    ["inputs", "histories"],
    "every script of draws over a grid of quantiles for every sampler, survey table, radius, depth and number of samples",
    "Tests draw from a few seeds; the extremes, mismatched rows and uneven shares need the whole set of outcomes.",
    ["math_nodes/ra_dec_sampler.py", "obstable/opsim.py", "obstable/ztf_obstable.py"],
    [
        ("ra_dec_sampler", "math_nodes/ra_dec_sampler.py"),
        ("create_random_opsim / opsim_add_random_data", "obstable/opsim.py"),
        ("create_random_ztf_obs_data", "obstable/ztf_obstable.py"),
    ],
    BFS,
    "Exhaustive over the quantile grid; numpy's own generators are taken as given.",
)

prop(
    "R01",
    "Post-processing gives each observation its own statistics and drops only empty",
    "Augmenting gives every observation its own signal-to-noise ratio, detection flag, magnitude and magnitude error (missing where "
    "undefined) and its time relative to its own object's reference time, without changing anything else. Dropping removes exactly the "
    "objects without any observation. This holds for any row order and index and in any sequence of these steps.",
    ["inputs", "histories"],
    "every sequence of up to four observations of every quality; every history of augmenting, dropping, selecting and joining for every row index",
    "Tests augment one table with the default index once.",
    ["utils/post_process_results.py"],
    [("results_augment_lightcurves / results_drop_empty", "utils/post_process_results.py")],
    BFS,
    "Exhaustive over the bounded histories.",
)

prop(
    "M07",
    "Supernova models follow their templates for each sample, at any query",
    "SALT2, sncosmo and BayeSN models return at every time and wavelength, asked for in any order, the flux that their template, color law "
    "and dust law define for each sample's own parameter values and redshift. Grids are interpolated as documented, with any axes and value "
    "types, and unusable ones are refused. Parameters set on a wrapped model hold for later samples, and a rejected setting changes nothing.",
    ["inputs", "histories"],
    "every pair of axes and order of queries; every number of color law coefficients; every ordered selection of parameter sets; every history to the depth bound",
    "Tests compare a few sorted curves of one sample with stored values, some with tolerances of several percent.",
    ["models/salt2_jax.py", "models/sncomso_models.py", "models/bayesn.py", "utils/bicubic_interp.py", "astro_utils/salt2_color_law.py"],
    [("SALT2JaxModel", "models/salt2_jax.py"), ("SncosmoWrapperModel", "models/sncomso_models.py"), ("BayesnModel", "models/bayesn.py"), ("BicubicInterpolator", "utils/bicubic_interp.py")],
    BFS,
    "Exhaustive over the bounded space, on small model files written for the check.",
)

prop(
    "M08",
    "Wrapped redback models give their source's flux for each sample's parameters",
    "A wrapped redback model's flux at every time and wavelength is its source function's, called with exactly the declared parameters of "
    "that sample and with times since the sample's own reference time, converted to nJy and never redshifted again; beyond the "
    "source's wavelength range it follows the model's extrapolation rule. Parameters may come from a dictionary, setters or priors, "
    "the dictionary taking precedence; a parameter given twice or missing is refused.",
    ["inputs", "configurations", "histories"],
    "every combination of wavelength bounds, query wavelengths, extrapolation rules, reference times, samples and ways of giving the parameters; all histories to the depth bound",
    "Tests use one source without wavelength bounds at a handful of times.",
    ["models/redback_models.py"],
    [("RedbackWrapperModel", "models/redback_models.py")],
    ENUM,
    "Exhaustive over the bounded space; redback itself is not installed, so sources are stand-ins with its call interface.",
)

prop(
    "I01",
    "Data files read back as they were written, and malformed ones are refused",
    "Arrays written to any supported file format read back with the same values, whatever was there before. Grid files give the same axes "
    "and values in every table format, as files or open streams, and incomplete or (when validated) misordered ones are refused. Every light curve of an "
    "LCLIB file has its own rows, columns, parameters and metadata, whatever events precede it; inconsistent files are refused.",
    ["inputs", "configurations", "histories"],
    "every array, format and overwritten file; every sequence of grid points to the bound; every file of up to three events over every choice of their parts",
    "Tests read one file of each kind; leaks between events and formats need combinations.",
    ["utils/io_utils.py"],
    [("read_numpy_data / write_numpy_data", "utils/io_utils.py"), ("read_grid_data", "utils/io_utils.py"), ("read_lclib_data", "utils/io_utils.py")],
    BFS,
    "Exhaustive over the bounded space.",
)

prop(
    "V01",
    "Plots show exactly the given data, each point under its own filter and name",
    "Every plot of a light curve, band flux curve, spectrogram, passband, detector footprint or template draws each given value once, at its own "
    "time (or wavelength, or pixel), with its own error bar, name and colour group, and nothing else: however many filters, points and curves there are, "
    "in new, given or shared axes, leaving the caller's data alone. Sizes that do not match are refused.",
    ["inputs", "configurations", "histories"],
    "every number of points, filter sequence, error bars, noise-free model, colours, axes and malformed lengths to the bound; all sequences of plots into shared axes to the depth bound",
    "Tests only call the plot functions and look at nothing they draw.",
    ["utils/plotting.py", "astro_utils/passbands.py", "astro_utils/detector_footprint.py", "models/lightcurve_template_model.py"],
    [
        ("plot_lightcurves / plot_bandflux_lightcurves / plot_flux_spectrogram", "utils/plotting.py"),
        ("Passband.plot / PassbandGroup.plot", "astro_utils/passbands.py"),
        ("DetectorFootprint.plot", "astro_utils/detector_footprint.py"),
        ("plot_lightcurves / plot_sed_basis", "models/lightcurve_template_model.py"),
    ],
    BFS,
    "Exhaustive over the bounded space; each figure is read back from the artists matplotlib holds.",
)

prop(
    "X01",
    "The end-to-end SN Ia run is consistent and uses only the given generator",
    "Each supernova of the SN Ia example run reports the parameters it was drawn with, exactly the survey's observations that see it within its time window, and the "
    "model's fluxes, band fluxes, noise levels and independent noise for them. The run depends on nothing but its inputs and the given random generator: "
    "equal generators give equal runs after any history of earlier runs, and the process-wide generator is left alone.",
    ["inputs", "histories", "configurations"],
    "every survey layout, number of supernovae and generator to the bound; all sequences of runs, and of draws with given or new states, to the depth bound",
    "Tests run one survey once, without checking what a supernova saw or what the run depends on.",
    ["example_runs/simulate_snia.py", "models/snia_host.py", "astro_utils/snia_utils.py"],
    [("run_snia_end2end / draw_single_random_sn / construct_snia_source", "example_runs/simulate_snia.py"), ("SNIaHost", "models/snia_host.py")],
    BFS,
    "Exhaustive over the bounded space, with a small SALT template standing in for the one sncosmo would download.",
)

prop(
    "C01",
    "Downloaded data files are whole, current when forced, and never lost",
    "A data file that exists is used without any download. A missing or forced one is fetched from its address and used; if that fails, "
    "an error is reported and the previous file is kept. At no point, even if the process is killed, is there a file that is "
    "neither the previous nor the new version, for every function that loads downloadable data.",
    ["histories", "crash points", "faults"],
    "every history of requests, edits and server answers until no new state appears; every crash point of a download; every cache state of every entry point",
    "Tests replace the downloader by one that always overwrites and never fails.",
    ["utils/data_download.py", "astro_utils/passbands.py", "obstable/opsim.py"],
    [("download_data_file_if_needed", "utils/data_download.py"), ("Passband.from_file / from_svo", "astro_utils/passbands.py"), ("OpSim.from_url", "obstable/opsim.py")],
    BFS + " (fault injection and crash points)",
    "Exhaustive over the server's answers and crash points, with the real downloader and a local server.",
)

prop(
    "A01",
    "Unit, magnitude, zero point, redshift and supernova relations hold everywhere",
    "Conversions between flux densities, units, magnitudes and zero points, distances, supernova rates and the relations of the supernova "
    "parameters follow their formulas for every sample, shape, container and number type of the inputs, and incompatible ones are refused. "
    "Random relations (stretch by host mass, offset positions) follow their distributions for each sample's own inputs, using only the given or own generator.",
    ["inputs", "configurations"],
    "every combination of units, shapes and containers; every sequence of up to three bands; every lattice point; every ordered selection of samples and script of draws",
    "Tests evaluate a few values; a wrong type, shape, order or generator is unlikely to be among them.",
    ["astro_utils/unit_utils.py", "astro_utils/mag_flux.py", "astro_utils/zeropoint.py", "astro_utils/redshift.py", "astro_utils/obs_utils.py", "astro_utils/black_body.py", "astro_utils/snia_utils.py", "astro_utils/agn_utils.py"],
    [("flam_to_fnu / fnu_to_flam", "astro_utils/unit_utils.py"), ("magnitude_electron_zeropoint", "astro_utils/zeropoint.py"), ("HostmassX1Func", "astro_utils/snia_utils.py"), ("SNCoordGivenPhysicalSep", "astro_utils/snia_utils.py")],
    BFS,
    "Exhaustive over the bounded space.",
)

prop(
    "A02",
    "Wrapped samplers and dust maps serve each sample its own inputs and outputs",
    "Samples of a normalizing flow or bilby prior are the wrapped object's own, drawn once per sampling, with every condition and constraint "
    "respected and every output in its own sample and column; a given generator (flows) or seed (bilby) determines them. Dust maps are queried at "
    "each sample's own coordinates. Missing inputs, maps or files are refused, and maps already downloaded are not fetched again.",
    ["inputs", "histories", "faults"],
    "every choice of columns, conditions and histories of samplings; every ordered selection of coordinates; every state of the map directory and answer of the server",
    "Tests sample each wrapper once, without conditions from several samples or constrained priors.",
    ["astro_utils/pzflow_node.py", "math_nodes/bilby_priors.py", "astro_utils/dustmap.py"],
    [("PZFlowNode", "astro_utils/pzflow_node.py"), ("BilbyPriorNode", "math_nodes/bilby_priors.py"), ("DustEBV / DustmapWrapper / SFDMap", "astro_utils/dustmap.py")],
    BFS + " (fault injection)",
    "Exhaustive over the bounded space, with recording stand-ins and the real packages.",
)

prop(
    "H01",
    "Answers depend on present contents, never on earlier questions",
    "What a model, parameter node, effect, passband group, interpolator, survey table, footprint, data file, conversion or "
    "whole simulation answers depends only on the question "
    "and on the object's present contents: asking other questions before, of any kind and in any order, changes nothing, "
    "neither later answers nor the arrays and states that were passed in. "
    "Edits (values set in a state, overwritten columns, changed survey values, dropped rows, reprocessed passbands, files written anew) are "
    "seen by every later question, whatever was asked before them.",
    ["histories"],
    "every sequence of questions and edits to the depth bound, for some seventy kinds of object, file and function, with questions that have the "
    "same shape, the same ends and the same names but other contents",
    "Tests ask a fresh object one question; a value kept from an earlier question, or from before an edit, shows up only "
    "in a history of similar questions.",
    ["models/physical_model.py", "obstable/obs_table.py", "astro_utils/passbands.py", "effects/extinction.py"],
    [("evaluate_sed / evaluate_bandfluxes", "models/physical_model.py"), ("queries and edits", "obstable/obs_table.py"), ("fluxes_to_bandflux", "astro_utils/passbands.py")],
    BFS,
    "Exhaustive over sequences of up to three entries (two for the longest menus; one more in the thorough tier); random values come from given generators.",
)
