EXACT = "closed-form summary valid for every array extent; arithmetic is exact (rounding not modelled)"
RAND = ("symbolic summary for every extent; where its normal form differs from the specification's, equality is decided by random "
        "interpretation of the two summaries (one-sided: a reported difference is real)")

prop("C01", "Predicted visibilities are the documented sum of Jones products",
     "For any combination of supplied terms, a predicted visibility equals the base visibility plus the sum over sources of the first "
     "antenna's direction-dependent term times the source coherency times the conjugate transpose of the second antenna's, wrapped in the "
     "direction-independent terms of the two antennas. The antennas, time and channel used are those of that row, and absent terms act as identity.",
     ["inputs", "configurations"],
     "every combination of optional terms, every correlation layout (1, 2 diagonal, 2x2), every extent of source, time, antenna, row and channel",
     "tests sample a few shapes and random values per combination, and here cannot even import the module",
     ["africanus/rime/predict.py"], [("predict_vis", "africanus/rime/predict.py"), ("apply_gains", "africanus/rime/predict.py")], EXACT)

prop("C02", "Direct Fourier transforms and phase delay follow one sign convention",
     "The phase delay, the image-to-visibility and the visibility-to-image transforms compute the documented complex exponential sums for "
     "the chosen sign convention, with the two transforms adjoint to each other and flagged samples excluded. An unknown convention is rejected.",
     ["inputs", "configurations"], "every source, row, channel and correlation extent and both conventions",
     "tests compare a few small arrays; sign, conjugation and flag handling must hold for all",
     ["africanus/rime/phase.py", "africanus/dft/kernels.py"],
     [("phase_delay", "africanus/rime/phase.py"), ("im_to_vis", "africanus/dft/kernels.py"), ("vis_to_im", "africanus/dft/kernels.py")], EXACT)

prop("C10", "Stokes and correlation conversions are the documented linear maps",
     "Converting between Stokes parameters and linear or circular correlations applies the documented relations element by element, "
     "for every nesting, order, subset and naming (strings or integer ids) of the input and output. Conversions whose inputs are missing "
     "or whose schemas are malformed are rejected with the documented error, and the lazy version gives the same values and type.",
     ["inputs", "configurations"], "all registered conversions, layouts and extents", "tests check a handful of schemas",
     ["africanus/model/coherency/conversion.py", "africanus/model/coherency/dask.py"],
     [("convert", "africanus/model/coherency/conversion.py"), ("dask convert", "africanus/model/coherency/dask.py")], EXACT)

prop("C13", "Wide-field imaging operators keep each band, row and option to itself",
     "The degridding, gridding, residual and Hessian operators image each frequency band with exactly its own channels, weights, flags and "
     "pixel sizes, sum over all rows, and pass every option through. The lazy versions give the same result for any chunking that keeps bands whole.",
     ["inputs", "configurations", "schedules"], "every number of rows, channels, bands and pixels, every subset of options, every chunk boundary",
     "tests use fixed small band layouts and few option combinations",
     ["africanus/gridding/wgridder/im2vis.py", "africanus/gridding/wgridder/vis2im.py", "africanus/gridding/wgridder/im2residim.py",
      "africanus/gridding/wgridder/hessian.py", "africanus/gridding/wgridder/dask.py"],
     [("model", "africanus/gridding/wgridder/im2vis.py"), ("dirty", "africanus/gridding/wgridder/vis2im.py"),
      ("residual", "africanus/gridding/wgridder/im2residim.py"), ("hessian", "africanus/gridding/wgridder/hessian.py"),
      ("dask wrappers", "africanus/gridding/wgridder/dask.py")],
     EXACT + "; external gridder by contract; several chunks by random interpretation")

prop("C12", "Missing optional packages disable features instead of breaking imports",
     "Importing any part of the library never fails because an optional package is absent. A public function that needs an absent package "
     "raises the missing-package error naming it when called, and one whose packages are present is the undecorated function.",
     ["environments", "configurations"], "every subset in which one optional package, or all of them, is absent; every module",
     "tests run in one environment where the packages are installed",
     ["africanus/util/requirements.py", "africanus/__init__.py", "africanus/util/testing.py"],
     [("requires_optional", "africanus/util/requirements.py"), ("every module", "africanus/__init__.py")],
     "module initialisation abstractly interpreted with the package unresolvable",
     technique="abstract interpretation of module initialisation with packages removed; reachability of unbound names over the call graph")

prop("C16", "FITS beam headers and file name schemas are read as documented",
     "For any FITS beam header, each returned grid holds the coordinate of every pixel of the axis with that name, in radians where the unit is "
     "degrees, with irregular frequencies honoured only when complete and the requested inversions applied, and missing axes are rejected. "
     "A file name schema yields, for each requested correlation, the pair of names with correlation and part substituted in the documented case.",
     ["inputs", "configurations"], "all header values, axis orders, units, inversions, partially given irregular grids; all schemas of the documented form",
     "tests read one header layout", ["africanus/util/beams.py"],
     [("beam_grids", "africanus/util/beams.py"), ("beam_filenames", "africanus/util/beams.py")], EXACT)

prop("C17", "Chunk aggregation and correlation shapes partition their dimensions",
     "Aggregating chunks merges only consecutive chunks, keeps their total and their order in every dimension at once, and never exceeds the "
     "requested maximum unless a single chunk already did. Correlation shapes match the documented layout or are rejected.",
     ["inputs"], "all chunk sizes and maxima, one and two dimensions", "tests use a few fixed tuples", ["africanus/util/shapes.py"],
     [("aggregate_chunks", "africanus/util/shapes.py"), ("corr_shape", "africanus/util/shapes.py")], "chunk counts up to 4 (5 in thorough)")

prop("C21", "Kronecker algebra and covariance functions match their dense definitions",
     "Products of a Kronecker matrix with a vector or matrix equal the dense product for any number and size of factors, rectangular where "
     "allowed, and its Cholesky factor is the product of the factors' own. The covariance between two sets of points is the documented function "
     "of their Euclidean distance, and unsupported requests are rejected.",
     ["inputs"], "all factor sizes and values, all coordinate sets", "tests use a few small random matrices",
     ["africanus/linalg/kronecker_tools.py", "africanus/gps/kernels.py", "africanus/gps/utils.py"],
     [("kron_matvec", "africanus/linalg/kronecker_tools.py"), ("exponential_squared", "africanus/gps/kernels.py")], EXACT + "; up to three factors")

prop("C22", "CLEAN moves peak flux into the model and removes exactly its response",
     "Each minor cycle adds the gain times the brightest residual to the model at that pixel and subtracts the same flux times the point spread "
     "function centred there, starting from the dirty image, which is left untouched. It stops once the peak is within the threshold fraction of "
     "the first peak or after the allowed number of cycles, and wrongly sized point spread functions are rejected.",
     ["inputs", "histories"], "all square images, gains, thresholds and iteration limits", "there is no test of the deconvolution",
     ["africanus/deconv/hogbom/clean.py"], [("hogbom_clean", "africanus/deconv/hogbom/clean.py"), ("restore", "africanus/deconv/hogbom/clean.py")],
     EXACT + "; up to three minor cycles, each from an arbitrary image")

prop("C25", "Assignment strings yield literals and whitelisted builtins only",
     "Parsing a string of assignments returns exactly the documented mapping of names to literal values, chained and unpacked targets included, and "
     "later assignments win. Any other statement, target or expression is rejected, so no text can call anything but the whitelisted builtins.",
     ["inputs"], "every statement and expression form of the language, in every position, with any literal values",
     "tests try a few strings; the guarantee is about all the others", ["africanus/util/cmdline.py"],
     [("parse_python_assigns", "africanus/util/cmdline.py")], "every grammar form in every position, nesting depth two; " + EXACT)

prop("C03", "Gains corrupt, correct and subtract models by the measurement equation",
     "Corrupted visibilities are the sum over directions of G_p M G_q^H with the gains of the row's time bin, antennas and channel, for scalar, "
     "diagonal and full gains. Correcting undoes it with the inverse gains, and residuals are data minus the corrupted model, both zero where "
     "any correlation is flagged. Time bins may start anywhere. Incompatible axes, and correcting with several directions, are rejected.",
     ["inputs", "configurations"], "every gain mode, row set, bin layout, antenna, channel and direction count",
     "tests check random data of a few sizes against each other; the module does not import here",
     ["africanus/calibration/utils"],
     [("corrupt_vis", "africanus/calibration/utils/corrupt_vis.py"), ("correct_vis", "africanus/calibration/utils/correct_vis.py"),
      ("residual_vis", "africanus/calibration/utils/residual_vis.py"), ("compute_and_corrupt_vis", "africanus/calibration/utils/compute_and_corrupt_vis.py"),
      ("check_type", "africanus/calibration/utils/utils.py"), ("chunkify_rows", "africanus/calibration/utils/utils.py")], EXACT)

prop("C04", "The phase-only solver takes Gauss-Newton steps on the weighted residual",
     "J^H J and J^H r are those of the corrupted model's derivatives with respect to the antenna phases, over unflagged samples. The solver "
     "whitens by the square root of the weights, moves each phase by half J^H r / J^H J, keeps gains of unit modulus, and stops when no phase "
     "moves more than the tolerance or after the iteration limit. Modes that are not implemented are rejected.",
     ["inputs"], "every data set, gain array, tolerance and iteration limit",
     "tests solve one random problem and look at the result; the module does not import here",
     ["africanus/calibration/phase_only/phase_only.py"],
     [("gauss_newton", "africanus/calibration/phase_only/phase_only.py"), ("compute_jhj", "africanus/calibration/phase_only/phase_only.py"),
      ("compute_jhr", "africanus/calibration/phase_only/phase_only.py"),
      ("compute_jhj_and_jhr", "africanus/calibration/phase_only/phase_only.py")], EXACT)

prop("C05", "Samples are binned in time and channel as documented",
     "Rows of one baseline are grouped, in time order, into bins whose extent does not exceed the limit, and channels into bins of the given "
     "size. Every input row and channel maps to exactly one bin, averaged times and summed intervals are over the rows of the bin, bins come "
     "in (time, baseline) order and a bin is flagged only when all its rows are. Repeated samples are rejected.",
     ["inputs"], "every set of times, baselines, intervals and flags, every bin length and channel count",
     "tests use two hand-written row sets; the module does not import here",
     ["africanus/averaging/time_and_channel_mapping.py", "africanus/averaging/support.py"],
     [("row_mapper", "africanus/averaging/time_and_channel_mapping.py"), ("channel_mapper", "africanus/averaging/time_and_channel_mapping.py"),
      ("unique", "africanus/averaging/support.py")], RAND)

prop("C06", "Averages are the documented sums and weighted means over each bin",
     "Averaged coordinates, centroids, exposures, weights, errors, channel columns and visibilities are the documented sums, means and "
     "weighted means over the samples mapped to each bin. Flagged samples contribute only to bins that have no unflagged sample, which "
     "become flagged; row flags and sample flags that disagree are rejected.",
     ["inputs", "configurations"], "every combination of columns, flags, mappings and extents",
     "tests compare one small row set; weighting and flagging must hold for every mapping",
     ["africanus/averaging/time_and_channel_avg.py"],
     [("row_average", "africanus/averaging/time_and_channel_avg.py"), ("row_chan_average", "africanus/averaging/time_and_channel_avg.py"),
      ("chan_average", "africanus/averaging/time_and_channel_avg.py"), ("merge_flags", "africanus/averaging/time_and_channel_avg.py"),
      ("time_and_channel", "africanus/averaging/time_and_channel_avg.py")], RAND)

prop("C11", "Sky coordinates and direction cosines convert both ways",
     "Right ascension and declination map to direction cosines about the phase centre by the documented projection (the origin when none is "
     "given), in the precision of the input, and converting back recovers every direction of the visible hemisphere, poles included. "
     "Arrays of other shapes are rejected.",
     ["inputs"], "every direction, phase centre and precision", "tests compare random points with astropy; the module does not import here",
     ["africanus/coordinates/coordinates.py"],
     [("radec_to_lmn", "africanus/coordinates/coordinates.py"), ("lmn_to_radec", "africanus/coordinates/coordinates.py"),
      ("radec_to_lm", "africanus/coordinates/coordinates.py"), ("lm_to_radec", "africanus/coordinates/coordinates.py")], EXACT)

prop("C07", "Chunked arrays compute what whole arrays compute",
     "Every function offered for dask arrays (calibration and its solver terms, coordinates, phase delay, Fourier transforms, feed rotation, "
     "source transforms, beams, spectral and shape models, visibility and WSClean predictions) gives, for every chunking of rows, times, sources "
     "and channels it accepts, the array its in-memory counterpart gives on the whole inputs. Chunkings it cannot honour raise ValueError.",
     ["inputs", "configurations"], "every chunk size, number of chunks up to three and input values",
     "tests compute one data set with a fixed chunking, and most of the modules do not import here",
     ["africanus/rime/dask_predict.py", "africanus/rime/dask.py", "africanus/dft/dask.py", "africanus/calibration/utils/dask.py"],
     [("predict_vis", "africanus/rime/dask_predict.py"), ("im_to_vis", "africanus/dft/dask.py"), ("corrupt_vis", "africanus/calibration/utils/dask.py"),
      ("spectral_model", "africanus/model/spectral/dask.py")], RAND,
     technique="abstract interpretation of the task graphs (blockwise, HighLevelGraph) into value graphs, normal-form equality; interpretation of the value graph at random points where normal forms differ")

prop("C08", "Dask arrays announce the shape and type they compute",
     "The chunk sizes and the data type declared by every dask array the library returns are those of the arrays its tasks produce, for single and "
     "double precision inputs and mixtures of them.",
     ["inputs", "configurations"], "every size and every mixture of precisions", "tests compare computed values and never the declared metadata",
     ["africanus/rime/dask_predict.py", "africanus/rime/dask.py", "africanus/model/spectral/dask.py"],
     [("predict_vis", "africanus/rime/dask_predict.py"), ("spectra", "africanus/model/wsclean/dask.py"),
      ("compute_jhj", "africanus/calibration/phase_only/dask.py")], EXACT,
     technique="abstract interpretation: shapes and data types of the blocks against the declared chunks and dtype")

prop("C09", "Computations leave the arrays they are given unchanged",
     "No function of the library writes to an array its caller passed in: calibration, averaging, gridding, transforms, predictions, coordinate and "
     "polarisation conversions, linear algebra and deconvolution all return new arrays, on every path.",
     ["inputs"], "every input and option", "tests compare results and do not look at the inputs afterwards",
     ["africanus/calibration/utils/residual_vis.py", "africanus/deconv/hogbom/clean.py", "africanus/rime/predict.py"],
     [("residual_vis", "africanus/calibration/utils/residual_vis.py"), ("hogbom_clean", "africanus/deconv/hogbom/clean.py")], EXACT,
     technique="effect analysis: alias-aware store tracking over the interprocedural abstract interpretation")

prop("C18", "Source models give the documented spectra, shapes and fits",
     "Spectral models (standard, logarithmic and mixed bases), WSClean spectra, Gaussian shapes and WSClean visibility predictions equal their documented formulae "
     "for every source, channel and polarisation, including the types derived from the inputs. Each step of the spectral index fit is the weighted "
     "Gauss-Newton step and its errors come from the inverse of the weighted normal matrix. Bases and array shapes outside the documentation are rejected.",
     ["inputs", "configurations"], "every number of sources, coefficients, channels, bases and precisions",
     "tests sample a few sources, and the modules do not import here",
     ["africanus/model/spectral/spec_model.py", "africanus/model/wsclean/spec_model.py", "africanus/model/shape/gaussian_shape.py",
      "africanus/rime/wsclean_predict.py", "africanus/model/spi/component_spi.py"],
     [("spectral_model", "africanus/model/spectral/spec_model.py"), ("spectra", "africanus/model/wsclean/spec_model.py"),
      ("gaussian", "africanus/model/shape/gaussian_shape.py"), ("wsclean_predict", "africanus/rime/wsclean_predict.py"),
      ("fit_spi_components", "africanus/model/spi/component_spi.py")], RAND)

prop("C20", "Antenna effects match their definitions",
     "Feed rotation is the documented Jones matrix of the angle for linear and circular feeds; source transforms apply parallactic angle, scaling and pointing "
     "error to the direction cosines in the documented order; Zernike beams are the sums of their polynomials; primary beam cubes are "
     "interpolated trilinearly, amplitude and phase, with coordinates beyond the cube clamped to its edge and frequencies beyond it scaled. "
     "Unknown feeds, backends and degenerate cubes are rejected.",
     ["inputs", "configurations"], "every direction, angle, antenna, channel and cube extent",
     "tests compare a few random samples, and the modules do not import here",
     ["africanus/rime/feeds.py", "africanus/rime/transform.py", "africanus/rime/zernike.py", "africanus/rime/fast_beam_cubes.py", "africanus/rime/parangles.py"],
     [("feed_rotation", "africanus/rime/feeds.py"), ("transform_sources", "africanus/rime/transform.py"), ("zernike_dde", "africanus/rime/zernike.py"),
      ("beam_cube_dde", "africanus/rime/fast_beam_cubes.py"), ("parallactic_angles", "africanus/rime/parangles.py")], RAND)

prop("C15", "State that outlives a call is safe to use from several threads",
     "Functions may run in several threads at once. They keep nothing between calls in module globals, class or function attributes, default arguments "
     "or captured variables, except state whose every change happens under one lock that every other access which could see it half-changed also holds "
     "(or that is thread-local). Memoised values, the singleton and the installed header libraries are made once, inside the critical section that "
     "looked for them, and recorded only when complete. The progress bar's timer thread and callbacks touch the task tables only under the bar's lock.",
     ["schedules"], "every interleaving of any number of threads", "tests run single threaded",
     ["africanus/util/code.py", "africanus/util/dask_util.py", "africanus/util/trove.py", "africanus/util/cub.py", "africanus/util/testing.py",
      "africanus/rime/parangles_casa.py"],
     [("memoize_on_key", "africanus/util/code.py"), ("SingletonMixin", "africanus/util/code.py"), ("EstimatingProgressBar", "africanus/util/dask_util.py"),
      ("trove_dir", "africanus/util/trove.py"), ("cub_dir", "africanus/util/cub.py")],
     "every function of every module outside tests and examples; the repeatable discovery of the CUDA toolchain in nvcc.py is exempt",
     technique="lockset analysis with call inlining and alias tracking over the syntax trees of the whole package")

prop("C24", "Cell size estimates resolve the longest baseline on each axis",
     "The estimated cell size on each axis is, in arcseconds, the shortest wavelength over twice the factor times the longest baseline coordinate on that axis, "
     "whether coordinates and wavelengths are arrays or single numbers. A grid size given for an axis is rejected exactly when the grid spans less than "
     "the largest scale the shortest baseline coordinate of that axis sees. Arguments of other types are rejected.",
     ["inputs"], "every set of coordinates, wavelengths, factor and grid size", "tests try one grid",
     ["africanus/gridding/util.py"], [("estimate_cell_size", "africanus/gridding/util.py")], EXACT)

prop("C14", "Facet gridding spreads every sample over its kernel taps, and degridding reads them back",
     "The polyhedron gridder adds each visibility, phase shifted to the facet centre and with its baseline transformed as the chosen policies say and converted "
     "to the Stokes parameter the policy names, to the grid of its channel's band, weighted by the kernel taps around its pixel position; taps outside the grid are "
     "dropped and normalisation divides each band by its own total weight. The degridders return the kernel weighted mean of the grid around each position as the "
     "named correlations. Packed and unpacked kernels give the same result, packing is a permutation of the samples, kernels follow their formulas, detaper "
     "functions are the kernel's Fourier transform, and inconsistent shapes are rejected. The caller's arrays are not modified.",
     ["inputs"], "all coordinates, wavelengths, visibilities, grids and kernels; every policy name (degridders without baseline transform)", "tests compare noisy images of one source within tolerances",
     ["africanus/gridding/perleypolyhedron/gridder.py", "africanus/gridding/perleypolyhedron/degridder.py", "africanus/gridding/perleypolyhedron/kernels.py",
      "africanus/gridding/perleypolyhedron/policies/convolution_policies.py", "africanus/gridding/perleypolyhedron/policies/stokes_conversion_policies.py",
      "africanus/gridding/perleypolyhedron/policies/phase_transform_policies.py", "africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py"],
     [("gridder", "africanus/gridding/perleypolyhedron/gridder.py"), ("degridder", "africanus/gridding/perleypolyhedron/degridder.py"),
      ("pack_kernel", "africanus/gridding/perleypolyhedron/kernels.py")], EXACT)

prop("C26", "Third-party headers are installed only from the pinned archive, completely, and without residue",
     "The include directory is returned only after the headers were found there. An archive, downloaded or found, is unpacked only if the SHA-1 of its whole content "
     "is the pinned one; an intact archive is not downloaded again. The previous install is removed before the new one is moved in. For CUB the README found must carry the pinned version. Concurrent calls install once: archive and install directory change only under one shared lock, and a call that waited for another's install does not repeat it. Whatever step fails, the temporary "
     "directory is removed, nothing outside the download, include and temporary directories is written or removed, and a later call does not take the headers for installed.",
     ["crash points", "histories"], "every path through the installers, every external call failing or not, first and later calls, another call completing while one waits for the lock", "tests neither download nor inject failures",
     ["africanus/util/trove.py", "africanus/util/cub.py", "africanus/util/files.py"],
     [("_install_trove", "africanus/util/trove.py"), ("_install_cub", "africanus/util/cub.py"), ("sha_hash_file", "africanus/util/files.py")],
     "typestate analysis over every path: calls inlined, unknown conditions split, each external call may fail",
     technique="typestate dataflow over all control-flow paths with fault edges (inlined calls, file versions, temporary directories)")

prop("C19", "A fitted cubic spline passes through its points smoothly and meets its end conditions",
     "For points at increasing positions, the fitted spline takes the given value at every point, its slope and curvature are continuous there, and at each end the "
     "requested curvature (type 2, by default zero) or slope (type 1) is met, each end independently of the other. Evaluation returns the value, slope or curvature "
     "(order 0, 1, 2) of the piece around each position, continuing the ends by their quadratics outside the points, whatever other positions are asked for. "
     "Other types and orders are rejected.",
     ["inputs"], "all points, values, end values and positions, every combination of end types", "the test fits one parabola with a tolerance of two decimals",
     ["africanus/averaging/splines.py"],
     [("fit_cubic_spline", "africanus/averaging/splines.py"), ("evaluate_spline", "africanus/averaging/splines.py"), ("solve_trid_system", "africanus/averaging/splines.py")], EXACT)

prop("N01", "The gridder meets its requested accuracy",
     "Images and visibilities computed by the wide-field gridder differ from the exact transform by at most the accuracy the caller requested.",
     ["inputs"], "every data set and accuracy", "tests sample a few sizes", ["africanus/gridding/wgridder/vis2im.py"],
     [("dirty", "africanus/gridding/wgridder/vis2im.py")], "",
     na="the bound is a property of the compiled ducc0 library's floating-point kernels, which are not in this repository; no static argument over the Python source bounds it")
prop("N02", "Iterative solvers converge",
     "The phase-only Gauss-Newton solver, the spectral index fit and the deconvolution loop approach the minimiser of their objective.",
     ["inputs", "histories"], "every data set and starting point", "tests run one synthetic data set", 
     ["africanus/calibration/phase_only/phase_only.py", "africanus/model/spi/component_spi.py"],
     [("gauss_newton", "africanus/calibration/phase_only/phase_only.py"), ("fit_spi_components", "africanus/model/spi/component_spi.py")], "",
     na="convergence depends on the conditioning and values of the data; no sound static bound is in reach (the update formulas themselves are decided by C04)")
