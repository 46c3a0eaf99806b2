SAN = 'runtime monitoring: '
prop('C01', 'Richness, radius and membership probabilities are self-consistent',
     'For every set of neighbour galaxies, filter values, weights and mask correction, the solved richness equals the sum of '
     'the weighted membership probabilities plus the masked part, evaluated at that same richness, to within the 0.01 tolerance, '
     'or -1 when no richness of at least 1 exists. The returned radius follows the radius-richness relation, every probability is '
     'the matched-filter ratio in [0,1], and every galaxy\'s radial and total weights are those of the returned radius. '
     'The answer does not depend on array dtype, layout or order, and mismatched array lengths are rejected.',
     ['inputs'], 'all neighbour sets (empty to thousands, hard or soft radial cut, any mask polynomial, any dtype/layout)',
     'tests/test_solver.py compares one stored cluster; hard cut, empty sets, saturation, low end and mask polynomials are never run.',
     ['redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/nfw_weights.c', 'redmapper/solver_nfw/solver_nfw_lib.py'],
     [('bisection with mask correction', 'solver_nfw()'), ('NFW normalisation, p and theta_r', 'nfw_weights()'),
      ('length checks and conversion', 'Solver.__init__')],
     SAN + 'self-consistency monitor (independent model evaluation) on each solver result',
     'Each observed solve is decided exactly up to the 0.01 richness tolerance; coverage is by workload families.')
prop('C02', 'Colour chi-squared and likelihood match the model for all input shapes',
     'For every galaxy, redshift-bin and covariance input, the chi-squared is the Mahalanobis distance of the colour residual under '
     'intrinsic covariance plus photometric and reference-magnitude errors (eigenvalues floored at 1e-6), and the likelihood adds the '
     'determinant term. One-redshift, one-galaxy and paired calls agree with each other for every dtype and memory layout, and '
     'unusable covariances give the sentinel of magnitude 1e11. Arrays whose shapes do not fit are rejected, never misread.',
     ['inputs'], 'all numbers of colours, galaxies and redshifts, memory layouts, dtypes, covariance families and option flags',
     'tests/test_chisq.py compares three stored samples, all reached through one memory layout and positive-definite matrices.',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_lib.py', 'redmapper/redsequence.py'],
     [('three evaluation modes', 'chisq_dist()'), ('eigenvalue repair', 'check_and_fix_covmat()'),
      ('shape checks', 'compute_chisq()'), ('user entry', 'RedSequenceColorPar.calculate_chisq')],
     SAN + 'value monitor against an independent numpy oracle on each call',
     'Exact to 1e-8 relative on every observed element; thresholds within 0.1% of the floor are skipped.')
prop('C03', 'Native kernels are memory safe, leak free and leave inputs untouched',
     'For every call through the Python interface, with any sizes, values (including extreme and non-finite) and object lifetimes, the '
     'native kernels never read or write outside their arrays, never abort the interpreter, never leak memory per call and never '
     'modify the arrays they are given. Mis-shaped arrays raise a Python exception.',
     ['inputs', 'histories'], 'all input shapes, values, call histories and object lifetimes',
     'The tests run un-instrumented builds on well-formed samples; stray reads and leaks do not change their asserted values.',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_pywrap.c', 'redmapper/solver_nfw/solver_nfw_pywrap.c',
      'redmapper/solver_nfw/nfw_weights.c'],
     [('scratch buffers', 'chisq_dist()'), ('argument parsing', 'ChisqDistObject_init / SolverObject_init')],
     'AddressSanitizer + UndefinedBehaviorSanitizer builds, heap-balance and input-byte monitors',
     'Sanitizers decide each executed call; unexecuted paths and uninstrumented GSL internals are trusted.')
prop('C04', 'Catalogue tables behave as tables under every operation history',
     'For every catalogue content (any column kinds and any number of rows, including zero and one) and every history of selecting, '
     'appending, adding columns, assigning, copying, pickling and writing through entries, all columns, names and sizes equal those of a plain table '
     'given the same operations. Views write through, copies do not. Writing to FITS, or only some rows, and reading back gives exactly those rows and values, '
     'and merges of mismatched tables are refused.',
     ['inputs', 'histories'], 'all column kinds, sizes and operation sequences',
     'tests/test_catalog.py checks a few operations on one small table, never sequences, empty or one-row tables, or partial writes.',
     ['redmapper/catalog.py'], [('attribute and row access', 'DataObject / Catalog.__getitem__'), ('FITS output', 'Catalog.to_fits_file')],
     SAN + 'model-based table monitor stepped with each operation; FITS read back with fitsio',
     'Each step of each observed history is decided exactly.')
prop('C05', 'Galaxy ingestion keeps every accepted galaxy exactly once',
     'For every sequence of appended galaxy batches, pixelisation, mask and id mode, serial or with parallel writers, the finished galaxy '
     'table holds each accepted galaxy exactly once with unchanged values, in the file of the pixel containing it, and the master table lists exactly '
     'those pixels, files and counts. Galaxies outside the mask are dropped, ids are unique, and illegal input is refused without '
     'leaving a master table behind.',
     ['inputs', 'histories', 'schedules'], 'all batches, nsides, sky regions, masks, id modes and writer schedules',
     'tests/test_galaxymaker.py ingests one small patch in one process and checks counts.',
     ['redmapper/galaxy.py'], [('append and split', 'GalaxyCatalogMaker.append_galaxies'), ('finalisation', 'GalaxyCatalogMaker.finalize_catalog')],
     SAN + 'conservation monitor: multiset of input rows against all rows read back with fitsio, per pixel file',
     'Each ingestion is decided exactly; schedules of parallel writers are those the operating system produced.')
prop('C06', 'Partial reads of a galaxy table return the right galaxies once',
     'For every region (pixels at any nside, with or without border), cut and read mode, reading a galaxy table returns exactly the galaxies of that region '
     'and border, each once, with the values in its files and its own redshift row from the zred table. Galaxies of missing zred pixels are '
     'skipped when asked, and out-of-range or conflicting requests are refused.',
     ['inputs'], 'all tables, regions, borders, cuts, list or scalar pixels and read modes',
     'tests read one region of one table; pole and wrap regions, borders on coarse pixels, missing zreds and temp files are never combined.',
     ['redmapper/galaxy.py'], [('region selection', 'GalaxyCatalog.from_galfile')],
     SAN + 'exact-set monitor: independent sphere geometry decides membership of each galaxy',
     'Exact inside the region and outside the border; galaxies within 0.13 degrees of the border edge may go either way.')
prop('C07', 'Sky matching finds exactly the pairs within the radius',
     'For every catalogue and position, including poles, right-ascension wrap, duplicates and tiny or huge radii, matching returns exactly the pairs within the radius, '
     'each once, with the true separation; a maximum number of matches keeps the closest. A cluster\'s neighbours are exactly the '
     'galaxies within its physical radius, with distances in the right units.',
     ['inputs'], 'all catalogues, positions, radii and index depths',
     'tests match a handful of galaxies in one equatorial patch.',
     ['redmapper/galaxy.py', 'redmapper/cluster.py'], [('one and many matching', 'GalaxyCatalog.match_one / match_many'),
      ('neighbour search', 'Cluster.find_neighbors')],
     SAN + 'completeness/soundness monitor: brute-force separations of all pairs against each returned match list',
     'Exact apart from pairs within 2e-6 degrees of the radius.')
prop('C08', 'Mask and depth maps are read, averaged and corrected faithfully',
     'For every survey map and position the mask and depth lookups return the value of the pixel containing the position (outside: masked or unseen), '
     'partial coverage is accepted with its own frequency, and a sub-region read gives the same values throughout the region and border. Areas are the summed coverage of deep enough '
     'pixels, Monte-Carlo galaxies follow their stated distributions, and the mask-fraction polynomial is the one those galaxies imply.',
     ['inputs'], 'all maps, coverages, sub-regions, borders, positions (also beyond the poles) and cluster positions',
     'tests look up five positions in one map; the mask-correction tests do not even run because their data file is missing.',
     ['redmapper/mask.py', 'redmapper/depthmap.py', 'redmapper/utilities.py'],
     [('mask lookup', 'HPMask.compute_radmask'), ('mask correction', 'Mask.calc_maskcorr'), ('depth lookup and areas', 'DepthMap.get_depth_values / calc_areas'),
      ('sub-region pixels', 'get_healsparse_subpix_indices')],
     SAN + 'lookup monitor against independent pixel dictionaries; binomial monitor for fractional coverage',
     'Lookups exact, areas to two pixels, mask fractions to 2e-3, draw frequencies to six sigma.')
prop('C09', 'Background tables conserve counts and are looked up where measured',
     'For every galaxy table the generated backgrounds hold, in each magnitude, chi-squared (or colour, or zred) and redshift cell, the number of galaxies there per '
     'area and bin size, independent of the number of processes, chunk size and file layout. Lookups return the interpolated table '
     'value of the cell containing the galaxy, infinity outside the table or where it is empty, and colour backgrounds are normalised and symmetric in their colours.',
     ['inputs', 'schedules'], 'all galaxy tables, regions, bin sizes, redshift ranges, process counts and lookups',
     'tests spot-check three cells of one table made with one process.',
     ['redmapper/background.py', 'redmapper/color_background.py', 'redmapper/utilities.py'],
     [('generation', 'BackgroundGenerator.run / _worker'), ('zred background', 'ZredBackgroundGenerator.run'), ('lookups', 'Background.sigma_g_lookup'),
      ('gridding', 'cic()')],
     SAN + 'conservation and value monitor: independent cloud-in-cell tabulation of the same galaxies against each table cell',
     'Each table cell decided to 2e-4; lookups away from bin edges to interpolation rounding.')
prop('C10', 'Red-sequence parameters are interpolated and looked up as written',
     'For every red-sequence parameter file the loaded model reproduces the calibration nodes at the node redshifts, follows the stated interpolation in between and extrapolation beyond, '
     'its covariances are symmetric with usable eigenvalues, and each redshift, magnitude or characteristic-magnitude lookup returns the entry of the nearest bin, '
     'clamped to the range. Luminosity functions are normalised over their magnitude range, and chi-squared asked at a redshift equals that of the model entry at this redshift.',
     ['inputs'], 'all parameter files (numbers of bands and nodes, ranges, bin sizes), redshifts and magnitudes',
     'tests/test_redsequence.py compares a few stored bins of one file.',
     ['redmapper/redsequence.py'], [('loading and interpolation', 'RedSequenceColorPar.__init__'), ('lookups', 'RedSequenceColorPar.zindex / refmagindex / mstar / volume_factor')],
     SAN + 'value monitor: model arrays and lookups against an independent evaluation of the parameter file',
     'Each array entry and lookup decided to rounding; lookups within 1e-4 of a bin edge may give either neighbour.')
prop('C11', 'Galaxy photometric redshifts follow the red-sequence posterior',
     'For every galaxy and red-sequence model the uncorrected zred is the peak of its posterior (or the mean when the peak is implausible), its error the posterior width, chi-squared and likelihood '
     'are those at the peak, samples follow the posterior, and the corrections are those of the model. Galaxies outside the model\'s magnitude range get the sentinel values. '
     'Results do not depend on the order, chunking, number of processes or on bulk, single, catalogue or pixel mode, and each pixel file holds one row per galaxy in order.',
     ['inputs', 'schedules'], 'all galaxies, models, chunkings, process counts and pixel regions',
     'tests/test_zred.py checks one stored galaxy list with one model and no unusable galaxies.',
     ['redmapper/zred_color.py', 'redmapper/zred_runner.py'], [('single galaxy', 'ZredColor.compute_zred'), ('bulk', 'ZredColor.compute_zreds'),
      ('parallel runs', 'ZredRunCatalog.run / ZredRunPixels.run')],
     SAN + 'posterior monitor: independent posterior of each galaxy against its output row; Kolmogorov monitor for samples',
     'Width to 2%, peaks to 2e-4, corrections at their fixed point; samples at the 0.01% level.')
prop('C12', 'Cluster richness, error and memberships are those of the matched filter',
     'For every cluster, neighbour list, footprint and redshift the richness solves the matched-filter sum rule for exactly the neighbours offered, with chi-squared, luminosity, radial and background '
     'filters taken at the cluster redshift; each membership is the product of probability, free fraction and the magnitude and radius weights. Failed clusters hold -1 and zero memberships, neighbours taken by other clusters '
     'or left out contribute nothing, results do not depend on neighbour order, and copies are independent. The same holds for single-colour richnesses and the local background.',
     ['inputs'], 'all clusters, footprints, redshifts, radius parameters, neighbour orders and subsets',
     'the richness tests of the repository do not run here, and compare stored numbers of one cluster.',
     ['redmapper/cluster.py', 'redmapper/utilities.py'], [('richness', 'Cluster.calc_richness'), ('single colour', 'Cluster.calc_richness_fit'), ('local background', 'Cluster.compute_bkg_local'),
      ('richness error', 'Cluster.calc_lambdacerr')],
     SAN + 'sum-rule monitor: independent filters and weights of each neighbour against the state left after each measurement',
     'Richness within the 0.01 bisection tolerance, memberships to 1e-3, errors to 2%.')
prop('C13', 'Cluster redshifts and p(z) are self-consistent and corrected as calibrated',
     'For every cluster the returned redshift maximises the member-weighted redshift likelihood of the members it selects itself, p(z) is the normalised posterior on bins that cover it, and the error is the width of that posterior. '
     'A cluster with too few members gets -1. Measuring the redshift leaves the cluster untouched. The calibrated correction shifts redshift, error and p(z) bins together, reproduces its nodes and modifies no input.',
     ['inputs'], 'all clusters, footprints, starting redshifts, magnitude limits and correction files',
     'the redshift tests of the repository do not run here, and compare one stored cluster.',
     ['redmapper/zlambda.py'], [('redshift', 'Zlambda.calc_zlambda'), ('p(z)', 'Zlambda._zlambda_calc_pz'), ('correction', 'ZlambdaCorrectionPar.apply_correction')],
     SAN + 'fixed-point and posterior monitor: independent likelihood of the selected members against each returned redshift and p(z)',
     'Fixed points to the stated tolerance, p(z) shape to 2%, corrections to rounding.')
prop('C14', 'Cluster centres follow the centring model',
     'For every cluster the candidate centres are the eligible galaxies with the largest centring probabilities, listed in decreasing order with the position and identity of a neighbour; probabilities are those of the centring '
     'model, lie in [0,1] and share one budget, and unused slots are empty. The brightest-galaxy, random and random-satellite methods choose what they state. '
     'Without an eligible galaxy the search reports failure, and no method changes the neighbours or depends on their order.',
     ['inputs'], 'all clusters, footprints, centring methods, options and numbers of candidates',
     'tests/test_centering.py checks one cluster per method and none with spectroscopic redshifts or fewer candidates than slots.',
     ['redmapper/centering.py'], [('likelihood centring', 'CenteringWcenZred.find_center'), ('other methods', 'CenteringBCG / CenteringRandom / CenteringRandomSatellite')],
     SAN + 'model monitor: independent filters of each candidate against the returned list; frequency monitor for random satellites',
     'Probabilities to 1e-3; choices exact unless two candidates tie; frequencies at six sigma.')
prop('C15', 'The three finder passes keep their book of seeds, ranks and members',
     'For every survey, seed list and option set: the first pass outputs exactly the qualifying seeds whose iterated richness and redshift pass the limits; the likelihood pass ranks each by member plus central likelihood; '
     'percolation processes clusters in that rank (or kept-id order), each seeing only the galaxy probability not yet taken by better-ranked clusters, re-centres, and records centre, candidates, redshift, p(z), slopes and radii of that final measurement. '
     'Each cluster\'s member list holds exactly its qualifying neighbours and candidates once; inputs are untouched and files hold the catalogues.',
     ['inputs', 'histories'], 'all seed lists, overlapping clusters, footprints, redshift modes, id modes and luminosity or radius limits',
     'the finder tests of the repository do not run here; they would compare one stored run without overlaps or options.',
     ['redmapper/cluster_runner.py', 'redmapper/run_firstpass.py', 'redmapper/run_likelihoods.py', 'redmapper/run_percolation.py'],
     [('shared loop and member book', 'ClusterRunner.run'), ('first pass', 'RunFirstPass'), ('likelihoods', 'RunLikelihoods'), ('percolation', 'RunPercolation')],
     SAN + 're-execution monitor: each pass repeated cluster by cluster with an independent book of taken galaxies',
     'Values to 0.3%, sets exact except within 1% of a threshold; the building blocks are those judged by C12-C14.')
prop('C16', 'Volume limits, areas and random points describe the survey volume',
     'For every depth map, luminosity limit and extra bands, a position\'s zmax is the first redshift (0.001 grid from the lower end of zrange) at which a red galaxy of that luminosity is fainter than the local 50% depth, or than the '
     'n-sigma limit of any extra band; places that never qualify or lie off the footprint give 0, also when read by sub-region or from the stored file. The area at z is the covered area of the pixels with zmax above z. '
     'Random points are exactly as many as asked, lie in the footprint in proportion to coverage, each below the zmax of its own position with redshift, richness and id of one catalogue cluster drawn evenly. '
     'Weights give each input cluster its number of selected randoms spread over those that pass the richness and mask-fraction cuts, and areas scale with the passing fraction.',
     ['inputs'], 'all depth maps, bands, luminosity limits, footprints, catalogues, selections and numbers of randoms',
     'tests/test_volumelimit.py looks at three positions; the randoms test does not run here and checks two points of one draw.',
     ['redmapper/volumelimit.py', 'redmapper/randoms.py', 'redmapper/redmagic/redmagic_randoms.py'],
     [('zmax map', 'VolumeLimitMask._build_mask'), ('lookup', 'VolumeLimitMask.calc_zmax'), ('areas', 'VolumeLimitMask.get_areas'), ('random points', 'GenerateRandoms.generate_randoms'), ('weights', 'RandomWeigher.weight_randoms')],
     SAN + 'map monitor: independent depth-to-redshift conversion and area sums; conservation and frequency monitors on random points and weights',
     'zmax exact on the grid (three bins for extra bands), areas to rounding, frequencies at 1e-10 false-alarm level.')
prop('C17', 'A split, restarted and merged run gives every cluster exactly once',
     'For every sky region, galaxy table, run region and number of processes, the sub-pixels of a split run cover the requested galaxies without overlap, each pass of each pixel runs once with the files and options of its own pixel, and the merged '
     'catalogue holds every cluster passing the mask-fraction and richness limits exactly once, as found by the pixel that owns it, with exactly its members, with ids 1..N in decreasing likelihood shared by members and by all cut catalogues. '
     'Richness cuts and volume limits select as stated, spectra are the nearest within reach. A pass that fails is reported and leaves the finished files; running again does only what is missing and gives the same catalogue. '
     'Lock files are exclusive and released, also on errors; the redshift table appears when the last pixel task finishes and equals that of a single run.',
     ['inputs', 'schedules', 'faults'], 'all regions, tables, splits, process counts, task orders, failing passes, restarts, cuts and file locations',
     'no test of the repository runs more than one pixel or process of a run, restarts one, or contends for a lock.',
     ['redmapper/redmapper_run.py', 'redmapper/pipeline/redmappertask.py', 'redmapper/pipeline/redmapperconsolidatetask.py', 'redmapper/pipeline/zredtask.py', 'redmapper/pipeline/mempredict.py', 'redmapper/utilities.py'],
     [('split and merge', 'RedmapperRun'), ('pixel tasks', 'RunRedmapperPixelTask / RuncatPixelTask / RunZmaskPixelTask'), ('consolidation', 'RedmapperConsolidateTask / RuncatConsolidateTask'), ('zred tasks', 'RunZredPixelTask'), ('locks', 'utilities.make_lockfile')],
     SAN + 'exactly-once monitor: event log of every pass and process against a known list of clusters, with injected failures, delays and restarts',
     'Exact. Interruptions are errors of a pass; a machine stopping inside a file write is not covered.')
prop('C18', 'Measuring given positions gives each its own measurement and nobody else\'s',
     'Running a list of positions (catalogue, redshift scan, colour members around spectroscopic galaxies, random points) gives, for every row, exactly what measuring that one position gives. Catalogue: every input row comes back '
     'in place with its id (ids all equal are numbered 1..N; ids neither all equal nor unique are refused), richness, error, radius, mask fraction inside that radius, depth, (corrected) z_lambda, p(z) and redshift slopes; a position that is more than 70% '
     'masked, poorer than 3, without galaxies or without a redshift has -1 in richness, error, scaleval, z_lambda and its error, and no members; converging the redshift stops once it moves less than the tolerance or after maxiter rounds; with percolation masking, '
     'probability already held by earlier rows is not counted again. The galaxy within 1 arcsec of a position lends it its magnitudes. Redshift scan: richness and likelihood at every grid redshift, the best one, the refined richness and redshift there, the '
     'central galaxy found and the richness re-centred on it; the input position is kept; rows under the minimum richness leave with their members. Colour members: seeds inside the redshift range, colour chosen by the redshift bounds, a second pass ranked by richness '
     'in which members are shared; kept rows and members obey the richness, central-probability and mask-fraction limits and the training file holds exactly the members above the colour-probability cut. Random points: richness and redshift as drawn, with the '
     'radius, mask fraction and scale of that spot. Members carry their galaxy\'s columns; output files hold the catalogue in memory; inputs are not modified.',
     ['every-input', 'multi-step sequence', 'conservation'],
     'for every list of positions (on clusters, galaxies, blank sky, outside the footprint), order, option, sky region and mask',
     'the repository\'s runner tests need a file that is missing and check a handful of numbers of two clusters.',
     ['redmapper/runcat.py', 'redmapper/run_zscan.py', 'redmapper/run_colormem.py', 'redmapper/run_randoms_zmask.py', 'redmapper/cluster_runner.py'],
     [('catalogue', 'RunCatalog'), ('scan', 'RunZScan'), ('colour members', 'RunColormem'), ('random points', 'RunRandomsZmask'), ('loop, masking, members, output', 'ClusterRunner.run')],
     SAN + 'the runners are executed on synthetic surveys while a monitor repeats every row from the public building blocks with its own book of shared members',
     'Values to 0.3% (solver tolerance); rows within 1% of a limit are not judged where the two disagree. Fractional footprints, whose mask is drawn at random, are left to C08.')
prop('C19', 'redMaGiC selects what its calibration describes, at the density asked for',
     'For every galaxy catalogue, calibration and volume limit, the redMaGiC selection consists of exactly the galaxies inside the redshift range (with its cushions), below the chi-squared curve, brighter than the luminosity limit at the '
     'corrected redshift and inside the volume limit of their own position; each galaxy is judged by itself, carries its own columns, the corrected redshift, error and samples and its luminosity, and the spectroscopic redshift the catalogue or the '
     'nearest good spectrum within 3 arcsec gives (-1 if none). Unknown selections are refused and inputs are not modified. Running over a pixelised table gives the selection of the whole table, each galaxy once, whatever pixels are empty; '
     'existing files are only replaced on request; random points number ten times the catalogue or as asked, lie inside the volume and carry catalogue redshifts. The cost of a set of cuts depends only on the cuts and is the squared deviation from the requested '
     'density in units of its Poisson error; a fit never ends worse than it began; the afterburner takes out the median redshift offset. A calibration writes every selection and a run configuration that runs from any directory, and the '
     'catalogue it yields has the requested comoving density in every redshift bin where enough galaxies exist.',
     ['every-input', 'multi-step sequence', 'conservation'],
     'for every catalogue (including empty, one galaxy, pixels with nothing to select), calibration, sky region, kind of volume limit, order and splitting of the galaxies',
     'the repository\'s tests pin the numbers of one catalogue with one selection and one bin.',
     ['redmapper/redmagic/redmagic_selector.py', 'redmapper/redmagic/redmagictask.py', 'redmapper/redmagic/redmagic_calibrate.py', 'redmapper/redmagic/redmagic_randoms.py'],
     [('selection', 'RedmagicSelector.select_redmagic_galaxies'), ('run', 'RunRedmagicTask.run'), ('cost and fit', 'RedmagicParameterFitter'), ('calibration', 'RedmagicCalibrator.run'), ('random points', 'RedmagicGenerateRandoms.generate_randoms')],
     SAN + 'selection monitor: every galaxy re-judged from the calibration file with splines and volumes of its own; density monitor on complete calibrations',
     'Selection exact except within 1e-5 of a cut; densities to 15% plus Poisson; offsets to 8 standard errors.')
prop('C20', 'A configuration means what its files say, and survives being written and read',
     'Loading a configuration gives every option the value its file states; options it does not state have their defaults, whatever configurations (valid or refused) the process loaded before; bands, number of magnitudes, reference band index, '
     'limiting magnitude, zeropoint, survey, area, softening, pixelisation and truth/spectroscopic flags are those of the galaxy file, for tables and plain files and any order of bands. Required options that are missing, unknown options, '
     'arrays of the wrong length, contradictory sets (volume limits, redMaGiC, colour modes, annuli, mask), a reference band or galaxy file that does not exist, truth or spectra the galaxies do not have, and a sub-region without area are refused '
     'before anything runs. Writing a configuration and reading it back gives the same configuration (whichever options are unset) and does not change the one written. Output names follow outpath, path, base, version and type and are the same '
     'each time asked; a copy with its own region and base leaves the original alone. The border around a sub-region is at least three masking radii of a cluster of richness 300 at the lowest redshift. Centring parameters are those of the centring file, each in its place. A run that needs a file (or background extension) that is not there is refused. '
     'File logging can be started (with or without a sub-region), stopped and restarted; messages go to the file while it is started and not afterwards.',
     ['every-input', 'multi-step sequence'],
     'for every configuration file, galaxy file and order of configurations loaded in a process',
     'the repository\'s tests load one configuration with few options and never read back a written one with unset options.',
     ['redmapper/configuration.py'],
     [('loading and validation', 'Configuration.__init__, _validate'), ('galaxy file', 'Configuration._galfile_vals'), ('writing', 'Configuration.output_yaml'), ('names', 'Configuration.redmapper_filename'),
      ('border', 'Configuration.compute_border'), ('centring file', 'Configuration._wcen_vals'), ('logging', 'Configuration.start_file_logging')],
     SAN + 'trace monitor over sequences of configurations loaded in one process: every option of every instance compared with the yaml, the generated galaxy file and the defaults observed first',
     'Exact.')
prop('C21', 'Each calibration fit ends at the optimum of its own likelihood',
     'For every training sample, each fitter of the calibration (median colour of the spectroscopic galaxies, red-sequence mean, width, slope and membership, off-diagonal covariance, redshift corrections of galaxies and clusters, two-component '
     'mixture, centring weights and luminosities) has the cost its model states, evaluating it changes no input, and the fit never ends worse than it began, keeps parameters inside their bounds and is (locally) optimal; a sample drawn from the model '
     'gives back the model within its errors. Seeds are the galaxies with a spectrum of their own within the matching radius and redshift limits, carrying that redshift; training members are those of clusters above the richness limit and of probability above '
     'the limit, each with its cluster\'s (or own) redshift and probability; red galaxies selected from spectra are on the sequence. The red sequence written to file reproduces the colours, slopes and scatter of the galaxies used; the centring and redshift correction files '
     'written are those the configuration then uses. Iterations of the centring calibration without random catalogues are refused.',
     ['every-input', 'conservation', 'multi-step sequence'],
     'for every training sample (size, errors, outliers, node positions, bounds), starting point and set of fitted parameters',
     'the repository\'s tests pin the parameters of one training sample each to the value the code gave.',
     ['redmapper/fitters.py', 'redmapper/calibration/redsequencecal.py', 'redmapper/calibration/centeringcal.py', 'redmapper/calibration/zlambdacal.py', 'redmapper/calibration/selectspecred.py', 'redmapper/calibration/selectspecseeds.py', 'redmapper/calibration/prepmembers.py'],
     [('costs', 'MedZFitter, RedSequenceFitter, RedSequenceOffDiagonalFitter, CorrectionFitter, EcgmmFitter, ErrorBinFitter'), ('red sequence', 'RedSequenceCalibrator.run'), ('centring', 'WcenCalibrator.run'),
      ('cluster redshifts', 'ZLambdaCalibrator.run'), ('seeds and members', 'SelectSpecSeeds.run, PrepMembers.run')],
     SAN + 'cost monitor (each likelihood written a second time, evaluated at random points), purity monitor on inputs, optimum probes around every fitted point, recovery of the generating model',
     'Costs to 1e-6 relative; optima by probing steps along every parameter; recovery within the errors of the sample. Finding F-C21-1 is listed.')
prop('C22', 'A calibration hands each step the right files, and can be interrupted anywhere',
     'For every number of iterations, region, name and set of options, the calibration runs each step once, in an order in which its inputs exist, and gives it the files and settings of its own iteration: training members of the iteration before, the '
     'red sequence, photometric redshifts, background and seeds of this one, no redshift correction while finding on spectroscopic seeds, random and random-satellite centres in the first iteration only, the centring class and centring values of '
     'the iteration before, and for the final run the corrections and centring of the last. Seeds carry the redshifts computed for them; cut seeds and the candidate list for random centres are exactly those of clusters above the richness limit; '
     'redshifts are shown corrected; a correction that makes any redshift negative stops the calibration. The run configuration written names absolute paths of existing files of the last iteration, keeps all other options and loads from any directory. '
     'A calibration interrupted after any file write and started again, any number of times, ends with the same files and does not repeat finished steps; started again when finished it does nothing.',
     ['every-history', 'crash-point', 'multi-step sequence'],
     'for every configuration, number of processes and set of interruption points between file writes',
     'the repository has no test of the calibration workflow; every step is tested on its own.',
     ['redmapper/calibration/calibrate.py', 'redmapper/redmapper_run.py', 'redmapper/cluster_runner.py', 'redmapper/calibration/selectspecred.py'],
     [('workflow', 'RedmapperCalibrator.run, RedmapperCalibrationIteration.run, RedmapperCalibrationIterationFinal.run'), ('run configuration', 'RedmapperCalibrator.output_configuration'),
      ('restart of the finder', 'RedmapperRun.run, _consolidate, ClusterRunner.output'), ('restart of the selection', 'SelectSpecRedGalaxies.run')],
     'data-flow monitor on the real workflow with recording stand-ins for the costly steps; fault injection after the n-th file write of any process; offline comparison of event logs and of all files with the uninterrupted calibration',
     'Exact. Steps between file writes only: files are not written atomically.')
prop('C23', 'Shared numerical building blocks compute what they say',
     'Splines pass through their nodes with the end conditions asked for, are evaluated element by element, and hold the end values when asked to; interpolation is linear and continues the last segment; spline nodes start and end at the redshift range, '
     'increase, include the largest useful node and leave no gap beyond one and a half node sizes; cloud-in-cell assigns each point to its neighbouring cells and conserves the total (periodic) or never exceeds it (isolated); the membership weight theta_i, the '
     'magnitude, flux and luptitude error models, their random draws (independent per galaxy, of the stated size), the chi-square, Schechter and projected NFW functions and samples drawn from them, the Gaussian fit of a histogram, the templates for M* and '
     'initial colours, and the depth fitted from magnitudes and errors agree with their definitions; an unusable sample is reported or replaced by the global depth; inputs are not changed; unknown surveys, bands, colours and files are refused.',
     ['every-input'],
     'for every valid array, option set, shape and order of the input',
     'the repository\'s tests pin one or two values of some of these functions.',
     ['redmapper/utilities.py', 'redmapper/depth_fitting.py'],
     [('functions', 'CubicSpline, interpol, make_nodes, cic, calc_theta_i, apply_errormodels, chisq_pdf, schechter_pdf, nfw_pdf, sample_from_pdf, histoGauss, read_members'), ('templates', 'MStar, RedGalInitialColors'),
      ('depth', 'calcErrorModel, applyErrorModel, DepthLim')],
     'reference monitors: every call compared with an independent formula, scipy implementation, conservation law or statistical test; purity monitor on inputs',
     'Closed forms to 1e-7 or better; random draws at six sigma; fitted depths to 0.08 mag.')
prop('C24', 'Command-line tools and batch jobs do what their options say, each pixel once',
     'Each tool of bin/ hands exactly the options it is given (long or short, in any combination, with the documented defaults) to the task it stands for, runs it once, and runs nothing and fails when a required option is missing. A batch job made for any run '
     'mode, region, nside, provider and image starts the right tool exactly once for every pixel that holds galaxies, with the absolute configuration file, the nside and the output path, after the set-up commands; it never overwrites an earlier job, makes the mask '
     'galaxies when the mode needs them, and is refused for an unknown mode, an unknown batch system or a configuration limited to a sub-region. Catalogs made pixel by pixel by the tools are found by the matching consolidation tool, and each cluster '
     'comes out once.',
     ['every-input', 'multi-step sequence'],
     'for every tool, combination of options, region, nside, run mode and batch system',
     'the repository has no test of its command-line tools.',
     ['bin', 'redmapper/parsl_templates.py', 'redmapper/pipeline/redmapperconsolidatetask.py'],
     [('tools', 'bin/*.py'), ('batch', 'bin/redmapper_batch.py, redmapper/parsl_templates.py, bin/redmapper_run_many_pixels_same_node.py'), ('consolidation', 'RuncatConsolidateTask.run, RedmapperConsolidateTask.run')],
     'call monitor on the classes behind the tools; generated jobs are executed with stand-ins for the programs and the queueing systems, and the log of started programs is compared with the list of pixels (exactly once)',
     'Exact. Finding F-C24-1 (pbs) is listed.')
prop('C25', 'Diagnostic figures show the catalogue they are given',
     'For every catalogue, redshift range and bin size, the redshift comparison figure draws exactly the outliers beyond the chosen number of errors, states their fraction, and shows per bin the median offset, scatter and error of the objects with a spectrum; from members, each '
     'cluster is shown at the median of its own members\' known redshifts. The density figure shows, per redshift bin with significant counts, the number of objects per comoving volume and area at that redshift with its Poisson error, from the redshift, the p(z) or the first '
     'sample; the richness figure counts every cluster in its bin, the position figure shows every position without a break at the right-ascension wrap. Each figure is written once, under its configured name, and closed; catalogues without spectra or members are not an error; '
     'inputs are not modified.',
     ['every-input'],
     'for every catalogue size, redshift range, bin size, order of members and area curve',
     'the repository\'s tests only see that a file of one figure appears.',
     ['redmapper/plotting.py'],
     [('figures', 'SpecPlot, NzPlot, NLambdaPlot, PositionPlot')],
     'artist monitor: the data held by every artist is read at the moment a figure is saved and compared with an independent reduction of the catalogue; open figures, file names and inputs are watched',
     'Exact except for rounding; densities to 0.2 % (cosmological volumes of our own); p(z) draws at five sigma plus one grid step.')
