"""The properties, what anchors them, and which parts of the tree decide them.

`funcs`: patterns 'module:Qualname' (module relative to redmapper/, fnmatch on
the qualified name), 'const:module:NAME' for tables and constants,
'script:bin/x.py' for command line programs.
`rules`: additional dedicated analyses, see sa.rules.
"""

P = []


def prop(pid, title, statement, over, qtext, why, funcs, mech, rules=(), min_obl=4, note=''):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, funcs=list(funcs), mech=list(mech), rules=list(rules), min_obl=min_obl, note=note))


I, C, H, S, K = 'inputs', 'configurations', 'histories', 'schedules', 'crash_points'
FIX = 'The tests compare a handful of values on one fixture catalogue with one configuration; '

prop('P01', 'A galaxy is never counted in full by two percolated clusters',
     'When clusters are percolated in order of decreasing rank, every member galaxy that a cluster claims loses exactly the claimed '
     'membership probability, inside the masking radius of that cluster and below its luminosity limit, before any later cluster is measured. '
     'A later cluster sees each galaxy only with its remaining free probability, a cluster whose centre has already been claimed is not measured again, '
     'and clusters that fail claim nothing.',
     [I, H, C], 'for every catalogue of galaxies and candidate clusters, every processing order produced by the ranking, and every masking configuration',
     FIX + 'percolation itself needs a mask file absent here, and no test examines the free probabilities left behind or an order other than one.',
     ['cluster_runner.py:ClusterRunner.run', 'cluster_runner.py:ClusterRunner._setup', 'run_percolation.py:RunPercolation.*', 'run_colormem.py:RunColormem._doublerun_sort',
      'run_colormem.py:RunColormem._more_setup', 'run_colormem.py:RunColormem._process_cluster', 'runcat.py:RunCatalog._more_setup', 'cluster.py:Cluster.set_neighbors',
      'cluster.py:Cluster.calc_richness', 'cluster_runner.py:ClusterRunner._reset_bad_values', 'cluster_runner.py:ClusterRunner._generate_mem_match_ids'],
     [('per-cluster masking of claimed galaxies', 'redmapper/cluster_runner.py:ClusterRunner.run'), ('ranking', 'redmapper/run_percolation.py:RunPercolation._more_setup')])

prop('P02', 'A cluster that could not be measured is never passed off as measured',
     'Whenever a cluster fails any of its quality requirements (too few neighbours, masked centre, richness below threshold, no centre, redshift not converged) '
     'all of its measured quantities carry the invalid sentinel, and it is removed from the catalogue that is kept and written. '
     'Every cluster that meets the requirements is kept, and no other.',
     [I, C], 'for every candidate cluster, every stage of the cluster finder and every configuration of thresholds',
     FIX + 'failures are only reached for the few clusters of the fixture that happen to fail, and most failure exits are never taken.',
     ['cluster_runner.py:ClusterRunner.run', 'cluster_runner.py:ClusterRunner._reset_bad_values', 'cluster_runner.py:ClusterRunner._postprocess', 'cluster_runner.py:ClusterRunner._process_cluster',
      '*:Run*._process_cluster', '*:Run*._reset_bad_values', '*:Run*._postprocess', 'cluster.py:Cluster.reset', 'cluster.py:Cluster.calc_richness', 'cluster.py:Cluster.calc_richness_fit',
      'centering.py:*.find_center', 'zlambda.py:Zlambda.calc_zlambda'],
     [('sentinel assignment', 'redmapper/cluster_runner.py:ClusterRunner._reset_bad_values'), ('final selection', 'redmapper/cluster_runner.py:ClusterRunner._postprocess')])

prop('P03', 'Each percolated cluster reports one consistent final measurement',
     'The richness, richness error, scale value, redshift, redshift distribution, membership probabilities, chosen centre and centring candidates recorded for a percolated '
     'cluster all come from its last accepted iteration, measured at the centre and redshift that are recorded with them. '
     'The candidate centres, their probabilities and their identifiers describe the same galaxies in the same order, with unused slots marked as unused.',
     [I, C], 'for every cluster, number of iterations and centring outcome',
     FIX + 'the percolation tests cannot run reliably here and compare a few columns for a few clusters.',
     ['run_percolation.py:RunPercolation.*', 'centering.py:Centering.*', 'centering.py:CenteringWcenZred.find_center', 'centering.py:CenteringBCG.find_center', 'cluster.py:Cluster.calc_richness',
      'cluster.py:Cluster.set_neighbors', 'cluster.py:Cluster.update_neighbors_dist', 'cluster.py:Cluster.redshift*', 'cluster.py:Cluster.find_neighbors', 'zlambda.py:Zlambda.calc_zlambda',
      'const:cluster.py:cluster_dtype_base'],
     [('iteration', 'redmapper/run_percolation.py:RunPercolation._process_cluster')])

prop('P04', 'Every other stage measures its clusters by that stage\'s stated recipe',
     'First-pass, likelihood, colour-member, redshift-scan, catalogue-rerun and random-mask stages each measure a cluster with the aperture, minimum richness, redshift source and member '
     'selection configured for that stage, iterate as configured, and record the result of the final accepted iteration only. '
     'The recorded likelihoods and member tables refer to the cluster and galaxies they were computed from.',
     [I, C], 'for every cluster, stage and stage configuration',
     FIX + 'several of these stages are not run by any reliable test.',
     ['run_firstpass.py:*', 'run_likelihoods.py:*', 'run_colormem.py:*', 'run_zscan.py:*', 'runcat.py:*', 'run_randoms_zmask.py:*', 'cluster.py:Cluster.calc_richness',
      'cluster.py:Cluster.calc_richness_fit', 'cluster.py:Cluster.calc_lambdacerr', 'cluster.py:Cluster.compute_bkg_local'],
     [('stage recipes', 'redmapper/run_firstpass.py, run_likelihoods.py, run_colormem.py, run_zscan.py, runcat.py')])

prop('P05', 'Richness is the self-consistent sum of membership probabilities',
     'The richness of a cluster is the value at which the sum of neighbour membership probabilities, corrected for masked area and weighted by the stated radial, luminosity and colour filters over the '
     'looked-up background, equals the richness itself within the aperture implied by that richness. '
     'Only neighbours passing the chi-square, luminosity and radius requirements contribute, each probability is the filter signal over signal plus background scaled by the free probability of the galaxy, and invalid input gives the invalid sentinel.',
     [I, C], 'for every cluster, set of neighbours, background and aperture parameters',
     FIX + 'one cluster with one set of neighbours is measured and compared with stored numbers.',
     ['cluster.py:Cluster.calc_richness', 'cluster.py:Cluster._calc_radial_profile', 'cluster.py:Cluster._calc_luminosity', 'cluster.py:Cluster.calc_bkg_density', 'cluster.py:Cluster.calc_cbkg_density',
      'cluster.py:Cluster.calc_zred_bkg_density', 'cluster.py:Cluster.calc_lambdacerr', 'cluster.py:Cluster.reset', 'solver_nfw/solver_nfw_lib.py:*', 'solver_nfw/native_c.py:*', 'const:solver_nfw/native_c.py:*', 'utilities.py:calc_theta_i', 'utilities.py:nfw_pdf',
      'utilities.py:schechter_pdf', 'utilities.py:chisq_pdf', 'utilities.py:gaussFunction', 'mask.py:Mask.calc_maskcorr', 'mask.py:Mask.set_radmask', 'mask.py:Mask.compute_radmask',
      'mask.py:HPMask.compute_radmask', 'background.py:Background.sigma_g_lookup', 'background.py:ZredBackground.sigma_g_lookup', 'color_background.py:ColorBackground.lookup_diagonal',
      'color_background.py:ColorBackground.sigma_g_diagonal', 'cluster.py:Cluster.set_neighbors', 'cluster.py:Cluster._update_mstar', 'cluster.py:Cluster._update_mpc_scale', 'cluster.py:Cluster.mstar',
      'cluster.py:Cluster.mpc_scale', 'cluster.py:Cluster.redshift*', 'redsequence.py:RedSequenceColorPar.calculate_chisq', 'utilities.py:MStar.__call__', 'utilities.py:interpol'],
     [('richness measurement', 'redmapper/cluster.py:Cluster.calc_richness'), ('aperture solver', 'redmapper/solver_nfw')])

prop('P06', 'Local-background and single-colour richness follow the same accounting',
     'The local background ratio of a cluster compares galaxies in the configured annulus, weighted by free probability and corrected for masking, with the global expectation for that annulus. '
     'The single-colour fitted richness selects its member sample, width and background by the stated colour cuts and reports richness, error and membership consistently with those cuts, or the invalid sentinel.',
     [I, C], 'for every cluster, annulus configuration and colour choice',
     FIX + 'one cluster and one colour are compared with stored numbers.',
     ['cluster.py:Cluster.compute_bkg_local', 'cluster.py:Cluster.calc_richness_fit', 'cluster.py:Cluster.calc_lambdacerr', 'cluster.py:Cluster.calc_cbkg_density', 'cluster.py:Cluster._calc_luminosity',
      'cluster.py:Cluster._calc_radial_profile', 'color_background.py:ColorBackground.*', 'mask.py:*.compute_radmask', 'cluster.py:Cluster.calc_bkg_density', 'utilities.py:calc_theta_i',
      'utilities.py:gaussFunction'],
     [('local background', 'redmapper/cluster.py:Cluster.compute_bkg_local'), ('colour richness', 'redmapper/cluster.py:Cluster.calc_richness_fit')])

prop('P07', 'Redshift, distances and neighbours of a cluster stay coherent',
     'Whenever a cluster\'s redshift or centre changes, its characteristic magnitude, distance scale and the projected distance of each neighbour are those of the new redshift and centre before they are used again. '
     'Neighbours are exactly the galaxies within the search radius together with their separations, and a copy of a cluster can be changed without changing the original.',
     [I, H], 'for every cluster and every sequence of redshift, centre and neighbour updates and copies',
     FIX + 'single updates are exercised; sequences of updates and aliasing between copies are not.',
     ['cluster.py:Cluster.__init__', 'cluster.py:Cluster.redshift*', 'cluster.py:Cluster.mstar', 'cluster.py:Cluster._update_mstar', 'cluster.py:Cluster.mpc_scale', 'cluster.py:Cluster._update_mpc_scale',
      'cluster.py:Cluster._compute_neighbor_r', 'cluster.py:Cluster.copy', 'cluster.py:Cluster.__copy__', 'cluster.py:Cluster.set_neighbors', 'cluster.py:Cluster.find_neighbors',
      'cluster.py:Cluster.update_neighbors_dist', 'cluster.py:Cluster.clear_neighbors', 'cluster.py:ClusterCatalog.*', 'galaxy.py:GalaxyCatalog.match_one', 'galaxy.py:GalaxyCatalog.match_many',
      'catalog.py:Entry.*', 'catalog.py:DataObject.__setattr__', 'catalog.py:DataObject.__getattr__', 'utilities.py:MStar.*', 'redsequence.py:RedSequenceColorPar.mstar', 'cluster_runner.py:ClusterRunner.run'],
     [('redshift setter', 'redmapper/cluster.py:Cluster.redshift'), ('neighbour search', 'redmapper/galaxy.py:GalaxyCatalog.match_one')])

prop('P08', 'Photometric cluster redshift comes from the members of that cluster',
     'The photometric cluster redshift maximises the likelihood of the top-weighted likely members inside the cluster radius, iterated to the configured tolerance, and its error and probability distribution are '
     'normalised and describe the same likelihood around the same redshift. '
     'When the iteration leaves the modelled redshift range, finds no members or does not converge, the invalid sentinel is returned instead of a number.',
     [I, C], 'for every cluster, starting redshift and convergence history',
     FIX + 'one cluster with one starting redshift is measured.',
     ['zlambda.py:Zlambda.*', 'redsequence.py:RedSequenceColorPar.calculate_chisq', 'redsequence.py:RedSequenceColorPar.calculate_chisq_redshifts', 'redsequence.py:RedSequenceColorPar.zindex',
      'utilities.py:interpol', 'utilities.py:gaussFunction'],
     [('iteration', 'redmapper/zlambda.py:Zlambda.calc_zlambda')])

prop('P09', 'The redshift correction maps raw to corrected redshifts as calibrated',
     'Applying the cluster-redshift correction shifts redshift, error and probability bins by the calibrated offset, slope, scatter and richness dependence evaluated at that redshift and richness, for the configured number of iterations, '
     'and keeps the distribution normalised. '
     'The correction tables cover the configured redshift range and are the spline of the calibrated nodes.',
     [I, C], 'for every richness, redshift, error and distribution, with and without a distribution',
     FIX + 'a single correction is compared with stored numbers.',
     ['zlambda.py:ZlambdaCorrectionPar.*', 'calibration/zlambdacal.py:*', 'utilities.py:CubicSpline.*', 'utilities.py:make_nodes', 'utilities.py:interpol'],
     [('correction', 'redmapper/zlambda.py:ZlambdaCorrectionPar.apply_correction')])

prop('P10', 'A chosen centre is a legitimate member with coherent probabilities',
     'Every centring method either reports failure and leaves no centre, or picks galaxies that satisfy its eligibility cuts, reports their indices, positions and probabilities for the same galaxies in the same order, '
     'with probabilities normalised over the stated central, satellite and foreground terms. '
     'The galaxy its method ranks highest is listed first, and finding a centre changes neither the galaxies nor the cluster.',
     [I, C], 'for every cluster neighbourhood, centring method and use of spectroscopic redshifts',
     FIX + 'four methods are each run once on one cluster.',
     ['centering.py:*', 'utilities.py:gaussFunction', 'calibration/centeringcal.py:*', 'configuration.py:Configuration.set_wcen_vals', 'configuration.py:Configuration._wcen_vals'],
     [('centre selection', 'redmapper/centering.py')])

prop('P11', 'The member table describes exactly the members of the clusters written',
     'Each written member row belongs to a cluster in the written catalogue and carries that galaxy\'s own position, magnitudes, distance, membership probability, free probability and spatial weight as measured for that cluster. '
     'All galaxies within the stated probability and radius cuts are listed, identifiers link both tables uniquely, and catalogue and member files are written under the names the next stage reads.',
     [I, C], 'for every catalogue of clusters and every member-radius and luminosity configuration',
     FIX + 'the member table is compared for a few rows.',
     ['cluster_runner.py:ClusterRunner.run', 'cluster_runner.py:ClusterRunner._postprocess', 'cluster_runner.py:ClusterRunner.output', 'cluster_runner.py:ClusterRunner.filename',
      'cluster_runner.py:ClusterRunner._generate_mem_match_ids', 'cluster_runner.py:ClusterRunner._cleanup', 'const:cluster.py:member_dtype_base', 'utilities.py:read_members', 'run_colormem.py:RunColormem._postprocess',
      'run_colormem.py:RunColormem.output_training', 'catalog.py:DataObject.to_fits_file', 'catalog.py:DataObject.add_fields', 'catalog.py:Catalog.*', 'configuration.py:Configuration.redmapper_filename',
      'run_likelihoods.py:RunLikelihoods._postprocess', 'run_percolation.py:RunPercolation._more_setup'],
     [('member accumulation', 'redmapper/cluster_runner.py:ClusterRunner.run'), ('output', 'redmapper/cluster_runner.py:ClusterRunner.output')])

prop('P12', 'Every stage starts from exactly the inputs and cuts its configuration names',
     'Each stage of the cluster finder loads the galaxies, models, masks, depths and backgrounds its configuration names, restricted to the configured sky region with its border, applies its stated input selection to clusters or seeds, '
     'and orders them as that stage requires. '
     'Optional products are used exactly when configured, and missing required input is an error rather than silently skipped.',
     [I, C], 'for every stage and configuration',
     FIX + 'only a few of the stages and option combinations are set up by tests.',
     ['cluster_runner.py:ClusterRunner.__init__', 'cluster_runner.py:ClusterRunner._setup', 'cluster_runner.py:ClusterRunner._more_setup', 'cluster_runner.py:ClusterRunner._additional_initialization',
      '*:Run*._additional_initialization', '*:Run*._more_setup', '*:Run*.run', 'mask.py:get_mask', 'configuration.py:Configuration.compute_border', 'cluster.py:ClusterCatalog.from_catfile'],
     [('setup', 'redmapper/cluster_runner.py:ClusterRunner._setup')])

prop('P13', 'Tables keep their rows, columns and values through every operation',
     'Reading, writing, adding columns, appending, selecting and assigning on a catalogue never loses, duplicates, reorders or changes rows or existing columns, and column names are matched without regard to case. '
     'Single rows and column views share storage with the catalogue they came from, so that an assignment through one is seen through the other, while new columns start at zero unless merged from other data.',
     [I, H], 'for every table, column set and sequence of operations',
     FIX + 'tables of one shape are read back.',
     ['catalog.py:*', 'galaxy.py:zred_extra_dtype', 'galaxy.py:GalaxyCatalog.add_zred_fields', 'galaxy.py:GalaxyCatalog.__init__', 'cluster.py:ClusterCatalog.*', 'const:catalog.py:Catalog.entry_class',
      'const:cluster.py:ClusterCatalog.entry_class', 'const:galaxy.py:GalaxyCatalog.entry_class', 'galaxy.py:Galaxy.galcol', 'galaxy.py:GalaxyCatalog.galcol', 'galaxy.py:GalaxyCatalog.galcol_err'],
     [('table base class', 'redmapper/catalog.py:DataObject')])

prop('P14', 'Reading galaxies returns exactly the galaxies of the requested region',
     'Reading a pixelised galaxy catalogue returns every galaxy in the requested region plus its border once, with its photometric redshift information and truth columns aligned row by row, and no galaxy outside. '
     'Colours, errors and neighbour matches are computed from the matching bands and rows, and missing or inconsistent files are errors.',
     [I, C], 'for every catalogue, pixelisation, region, border and choice of extra columns',
     FIX + 'one region of one small catalogue is read.',
     ['galaxy.py:GalaxyCatalog.*', 'galaxy.py:Galaxy.*', 'galaxy.py:get_subpixel_indices', 'galaxy.py:zred_extra_dtype', 'utilities.py:get_healsparse_subpix_indices', 'utilities.py:get_hpmask_subpix_indices',
      'utilities.py:astro_to_sphere', 'randoms.py:RandomCatalog.*', 'configuration.py:Configuration.compute_border'],
     [('reader', 'redmapper/galaxy.py:GalaxyCatalog.from_galfile')])

prop('P15', 'Ingesting galaxies stores each one once, even with parallel writers',
     'Appending galaxies to a pixelised catalogue puts every galaxy into exactly one pixel file, under mutual exclusion with other writers, and never overwrites galaxies already stored. '
     'The finished catalogue lists every file with its counts, area and summary information, exists only when all identifiers are unique and every required column is present and valid, and incomplete or conflicting input is refused.',
     [I, S, K, H], 'for every sequence of appends, number of concurrent writers and interruption point',
     'One sequential and one two-process append are tested; contention, stale lock files, interruption and bad input are not.',
     ['galaxy.py:GalaxyCatalogMaker.*', 'galaxy.py:FakeMaskConfig.__init__', 'utilities.py:make_lockfile', 'randoms.py:RandomCatalogMaker.*', 'utilities.py:astro_to_sphere', 'depthmap.py:DepthMap.calc_areas'],
     [('append', 'redmapper/galaxy.py:GalaxyCatalogMaker.append_galaxies'), ('lock', 'redmapper/utilities.py:make_lockfile')])

prop('P16', 'A configuration means the same thing everywhere it is read',
     'Every configured value is type- and length-checked, defaults apply only where nothing is configured, unknown or missing required values are refused, and derived values (bands, limits, region, survey statistics, centring parameters) come from the catalogues named. '
     'File names are a pure function of configuration and product so that writer and reader agree, and a written configuration reads back to the same values.',
     [C, I], 'for every configuration file, override and product name',
     FIX + 'one configuration file is read.',
     ['configuration.py:*', 'const:configuration.py:*'],
     [('configuration', 'redmapper/configuration.py:Configuration')], min_obl=150)

prop('P17', 'A galaxy\'s photometric redshift is the peak of its likelihood, or invalid',
     'The photometric redshift of each galaxy, its error, likelihood, chi-square and second estimate come from one likelihood over the modelled redshift grid including the calibrated volume and luminosity terms, '
     'followed by the calibrated corrections at that redshift and magnitude. '
     'Galaxies without a usable likelihood carry the invalid sentinel in all of these, the result of a galaxy does not depend on which other galaxies are processed with it, and sampled redshifts are drawn from its own distribution.',
     [I, C], 'for every galaxy, in bulk or alone, with or without corrections',
     FIX + 'a few galaxies are compared, and the invalid cases are not reached.',
     ['zred_color.py:*', 'redsequence.py:RedSequenceColorPar.calculate_chisq*', 'redsequence.py:RedSequenceColorPar.zindex', 'redsequence.py:RedSequenceColorPar.refmagindex', 'utilities.py:interpol',
      'utilities.py:sample_from_pdf', 'galaxy.py:zred_extra_dtype', 'galaxy.py:GalaxyCatalog.add_zred_fields', 'utilities.py:CubicSpline.*'],
     [('redshift fit', 'redmapper/zred_color.py:ZredColor.compute_zred')])

prop('P18', 'Parallel photometric redshifts equal the sequential result, row for row',
     'Splitting a catalogue over processes and joining the pieces gives every galaxy its own redshift at its own row, whatever the number of processes or the order in which they finish, and every galaxy is processed exactly once. '
     'In the pixelised run every galaxy file gets its redshift file of the same length and order, the table of redshift files lists them all, and files already present are redone only when asked.',
     [S, I, C, H], 'for every number of processes, completion order and catalogue size',
     FIX + 'one process count and one catalogue are run.',
     ['zred_runner.py:*', 'pipeline/zredtask.py:*', 'utilities.py:_pickle_method', 'galaxy.py:zred_extra_dtype', 'script:bin/redmapper_run_zred_pixel.py'],
     [('split and join', 'redmapper/zred_runner.py:ZredRunCatalog.run'), ('per-pixel', 'redmapper/zred_runner.py:ZredRunPixels.run')])

prop('P19', 'The red-sequence model is evaluated at the galaxy\'s own redshift and magnitude',
     'Mean colour, slope, intrinsic covariance, corrections, characteristic magnitude, luminosity function and volume factor are interpolated from the calibrated nodes onto the model grid, restricted to the configured redshift range, and every lookup uses the grid '
     'cell of the requested redshift or magnitude with out-of-range requests clamped or marked as documented. '
     'The chi-square of a galaxy is that of its colours about the model with model covariance plus photometric error covariance, and the likelihood mode returns the corresponding normalised log-likelihood.',
     [I, C], 'for every galaxy, redshift and model file',
     FIX + 'a handful of grid points are compared with stored numbers.',
     ['redsequence.py:*', 'chisq_dist/chisq_dist_lib.py:*', 'chisq_dist/native_c.py:*', 'const:chisq_dist/native_c.py:*', 'utilities.py:CubicSpline.*', 'utilities.py:MStar.*', 'utilities.py:interpol', 'utilities.py:RedGalInitialColors.*', 'utilities.py:schechter_pdf'],
     [('model tables', 'redmapper/redsequence.py:RedSequenceColorPar.__init__'), ('chi-square', 'redmapper/chisq_dist')])

prop('P20', 'Background lookups return the tabulated density for the requested galaxy',
     'Looking up the background density of galaxies by redshift, chi-square, magnitude, colour or photometric redshift returns the tabulated density of the cell that contains the request, interpolated as documented. '
     'Requests outside the tabulated range get the value the code states for that side of the range, never that of an unrelated cell.',
     [I, C], 'for every background file and every request inside, on the edge of, or outside its range',
     FIX + 'a few lookups inside the range are compared.',
     ['background.py:Background.*', 'background.py:ZredBackground.*', 'color_background.py:ColorBackground.*', 'utilities.py:cic', 'utilities.py:interpol', 'cluster.py:Cluster.calc_*bkg_density'],
     [('lookup', 'redmapper/background.py:Background.sigma_g_lookup')])

prop('P21', 'Generated backgrounds count every galaxy once over the right area',
     'A generated background table divides the number of galaxies falling in each cell by the area usable at that magnitude and the cell sizes, counting each galaxy of the catalogue exactly once per redshift bin whatever the number of worker processes. '
     'Tables cover the configured ranges, are written only when complete, and existing tables are regenerated only on request.',
     [I, C, S], 'for every catalogue, binning configuration and number of processes',
     FIX + 'one small background is generated.',
     ['background.py:BackgroundGenerator.*', 'background.py:ZredBackgroundGenerator.*', 'color_background.py:ColorBackgroundGenerator.*', 'utilities.py:cic', 'depthmap.py:DepthMap.calc_areas',
      'redsequence.py:RedSequenceColorPar.calculate_chisq', 'utilities.py:_pickle_method', 'script:bin/redmapper_make_zred_bkg.py'],
     [('generation', 'redmapper/background.py:BackgroundGenerator.run')])

prop('P22', 'Masks and depths are read at the position asked for',
     'The footprint fraction, limiting magnitude, exposure time and usable fraction returned for a position are those of the map pixel containing it, zero or the documented default outside the map, and the same whichever map format stores them. '
     'The mask correction and simulated galaxies of a cluster use these values at the cluster\'s position and radius, and areas are sums over map pixels at least as deep as required.',
     [I, C], 'for every map, map format, region and position',
     FIX + 'a few positions of one small map are compared.',
     ['mask.py:*', 'depthmap.py:*', 'depth_fitting.py:*', 'utilities.py:get_hpmask_subpix_indices', 'utilities.py:get_healsparse_subpix_indices', 'utilities.py:astro_to_sphere', 'utilities.py:apply_errormodels',
      'const:mask.py:CURRENT_MASKGAL_VERSION', 'script:bin/redmapper_convert_depthfile_to_healsparse.py', 'script:bin/redmapper_convert_mask_to_healsparse.py', 'const:utilities.py:*'],
     [('mask', 'redmapper/mask.py'), ('depth', 'redmapper/depthmap.py')])

prop('P23', 'Volume limits are the deepest redshift the local depth supports',
     'The maximum redshift at a position is, to the spacing of the search grid, the largest modelled redshift at which the required luminosity is still above the local depth in every configured band, limited to the configured range, and unmapped positions get the documented value. '
     'Geometry and fixed-limit maps follow the same conventions, and areas per redshift sum the usable map pixels whose limit reaches that redshift.',
     [I, C], 'for every depth map, band combination and position',
     FIX + 'one map and one band set are compared at a few positions.',
     ['volumelimit.py:*', 'depthmap.py:DepthMap.get_depth_values', 'utilities.py:apply_errormodels', 'utilities.py:MStar.*', 'redsequence.py:RedSequenceColorPar.mstar'],
     [('limit', 'redmapper/volumelimit.py:VolumeLimitMask._build_mask')])

prop('P24', 'Randoms sample the survey exactly as real clusters are selected',
     'Each random point is drawn inside the footprint with a redshift and richness from the same parent cluster, is kept only where the volume limit allows that redshift, and the requested number is generated. '
     'The weights given to randoms restore the detection probability as a function of redshift and richness, and effective areas use the counts of all generated and all accepted randoms in each bin.',
     [I, C], 'for every mask, parent catalogue and number of randoms',
     FIX + 'one small random catalogue is generated.',
     ['randoms.py:*', 'run_randoms_zmask.py:*', 'redmagic/redmagic_randoms.py:*', 'volumelimit.py:VolumeLimitMask.calc_zmax', 'volumelimit.py:VolumeLimitMaskFixed.calc_zmax', 'utilities.py:interpol',
      'script:bin/redmapper_generate_randoms.py', 'script:bin/redmapper_weight_randoms.py', 'script:bin/redmapper_run_zmask_pixel.py', 'utilities.py:get_hpmask_subpix_indices'],
     [('generation', 'redmapper/randoms.py:GenerateRandoms.generate_randoms'), ('weights', 'redmapper/randoms.py:RandomWeigher.weight_randoms')])

prop('P25', 'Splitting a run over pixels and joining it gives each cluster once',
     'When the sky is split into pixels, every part of the configured region is processed by exactly one task with enough border, and joining keeps each cluster only from the pixel that owns its position. '
     'The joined catalogue and member table keep every owned cluster passing the cuts exactly once, with identifiers renumbered consistently in both tables, in the stated order, for any split and any order in which pieces finish.',
     [S, I, C], 'for every split of the sky, number of processes, completion order and set of cuts',
     FIX + 'a split into a few pixels of one fixture is joined.',
     ['redmapper_run.py:*', 'pipeline/redmapperconsolidatetask.py:*', 'galaxy.py:get_subpixel_indices', 'utilities.py:get_healsparse_subpix_indices', 'utilities.py:read_members',
      'script:bin/redmapper_consolidate_run.py', 'script:bin/redmapper_consolidate_runcat.py', 'utilities.py:_pickle_method', 'cluster_runner.py:ClusterRunner._generate_mem_match_ids',
      'cluster_runner.py:ClusterRunner.output', 'pipeline/mempredict.py:*'],
     [('split', 'redmapper/redmapper_run.py:RedmapperRun._get_pixel_splits'), ('join', 'redmapper/pipeline/redmapperconsolidatetask.py:RedmapperConsolidateTask.run')])

prop('P26', 'A restarted or scheduled run redoes only what is missing, in the right order',
     'Each pipeline task runs its stages in dependency order for its own pixel with its own configuration, and skips a stage only if the complete product of that stage already exists. '
     'The calibration iterates and hands every product of one step to the step that needs it, uses the settings of the right iteration, and the final configuration it writes names the final products.',
     [H, K, C], 'for every interruption point followed by a restart, every pixel and every configuration',
     FIX + 'the pipeline tasks and the calibration driver are not run by reliable tests at all.',
     ['pipeline/redmappertask.py:*', 'pipeline/zredtask.py:*', 'calibration/calibrate.py:*', 'redmapper_run.py:RedmapperRun._worker', 'redmapper_run.py:RedmapperRun._percolation_only_worker',
      'cluster_runner.py:ClusterRunner.output', 'cluster_runner.py:ClusterRunner.filename', 'script:bin/*', 'bin/redmapper_batch.py:*', 'bin/redmapper_run_many_pixels_same_node.py:*',
      'configuration.py:Configuration.redmapper_filename', 'configuration.py:Configuration.check_files', 'configuration.py:Configuration.start_file_logging', 'configuration.py:Configuration.stop_file_logging',
      'const:parsl_templates.py:*', 'calibration/selectspecred.py:SelectSpecRedGalaxies.run', 'cluster_runner.py:ClusterRunner._cleanup'],
     [('tasks', 'redmapper/pipeline/redmappertask.py'), ('calibration driver', 'redmapper/calibration/calibrate.py')])

prop('P27', 'The red-galaxy sample keeps exactly the galaxies passing its cuts',
     'The selected red-galaxy sample contains every galaxy, and only those, inside the footprint whose luminosity, chi-square, redshift range and local volume limit satisfy the calibrated cuts for that sample at the galaxy\'s corrected redshift. '
     'Its redshifts, errors and samples are the galaxy\'s values with the calibrated afterburner corrections applied, and each selected row describes a single galaxy of the parent catalogue.',
     [I, C], 'for every galaxy catalogue, sample definition and calibration',
     FIX + 'one fixture sample is selected.',
     ['redmagic/redmagic_selector.py:*', 'redmagic/redmagictask.py:*', 'volumelimit.py:VolumeLimitMask.calc_zmax', 'volumelimit.py:VolumeLimitMaskFixed.calc_zmax', 'utilities.py:CubicSpline.*',
      'utilities.py:interpol', 'utilities.py:sample_from_pdf', 'script:bin/redmagic_run.py'],
     [('selection', 'redmapper/redmagic/redmagic_selector.py:RedmagicSelector.select_redmagic_galaxies')])

prop('P28', 'Red-galaxy sample calibration fits what selection will apply',
     'The calibration chooses chi-square cuts per redshift node so that the selected comoving density matches the requested density using the same luminosity, redshift and footprint cuts that the selection later applies, and fits the afterburner bias and error ratio on the training half only. '
     'The calibration file records for each sample the cuts, corrections, volume-limit map and settings that the selection reads back.',
     [I, C], 'for every training catalogue and set of sample definitions',
     FIX + 'one calibration on one fixture is compared loosely.',
     ['redmagic/redmagic_calibrate.py:*', 'redmagic/redmagictask.py:*', 'redmagic/redmagic_randoms.py:*', 'utilities.py:make_nodes', 'utilities.py:CubicSpline.*', 'fitters.py:MedZFitter.*',
      'script:bin/redmagic_calibrate.py', 'volumelimit.py:*', 'redmagic/redmagic_selector.py:RedmagicSelector.__init__'],
     [('calibration', 'redmapper/redmagic/redmagic_calibrate.py:RedmagicCalibrator.run')])

prop('P29', 'Model fits minimise the stated objective and report it faithfully',
     'Each fitter minimises exactly its stated likelihood or cost over the data it was given, keeps parameters fixed that it was asked to keep fixed, applies its stated penalties for forbidden values, and returns parameters in the documented order. '
     'Fitting does not modify the caller\'s data and evaluating the objective does not depend on the history of previous evaluations.',
     [I, H], 'for every data set, set of nodes and choice of free parameters',
     FIX + 'each fit is run once on one data set with a loose tolerance.',
     ['fitters.py:*', 'calibration/centeringcal.py:*Fitter.*', 'calibration/zlambdacal.py:ZLambdaFitter.*', 'redmagic/redmagic_calibrate.py:RedmagicParameterFitter.*', 'utilities.py:CubicSpline.*', 'utilities.py:make_nodes',
      'utilities.py:histoGauss', 'utilities.py:gaussFunction', 'depth_fitting.py:DepthFunction.*'],
     [('objectives', 'redmapper/fitters.py')], rules=['objective_keeps_data'])

prop('P30', 'The calibrated red sequence is what the finder later reads',
     'The red-sequence calibration fits pivot magnitudes, mean colours, slopes, intrinsic covariances, luminosity and redshift corrections from the training members under the configured cuts, nodes and smoothing, '
     'and stores every node and value under the name and order from which the model is later read. '
     'Corrections are derived with redshifts computed from the just-calibrated model.',
     [I, C], 'for every training sample, band set and node configuration',
     FIX + 'one calibration on one fixture is compared loosely.',
     ['calibration/redsequencecal.py:*', 'calibration/prepmembers.py:*', 'redsequence.py:RedSequenceColorPar.__init__', 'fitters.py:*', 'utilities.py:make_nodes', 'utilities.py:histoGauss', 'utilities.py:CubicSpline.*',
      'zred_runner.py:ZredRunCatalog.run'],
     [('calibration', 'redmapper/calibration/redsequencecal.py:RedSequenceCalibrator.run')])

prop('P31', 'Training samples contain exactly the galaxies their selection states',
     'Selecting spectroscopic red galaxies and seeds, preparing members, and calibrating centring and cluster redshifts use only the galaxies and clusters passing the configured redshift, error, richness, probability and magnitude cuts, matched to the right photometry. '
     'The files they write pair each galaxy with its own spectroscopic redshift and model values, and the calibrated parameters are stored under the names read later.',
     [I, C], 'for every spectroscopic and cluster catalogue and configuration of cuts',
     FIX + 'each selection is run on one fixture.',
     ['calibration/selectspecred.py:*', 'calibration/selectspecseeds.py:*', 'calibration/prepmembers.py:*', 'calibration/centeringcal.py:*', 'calibration/zlambdacal.py:*', 'utilities.py:RedGalInitialColors.*',
      'utilities.py:read_members', 'galaxy.py:GalaxyCatalog.match_many', 'configuration.py:Configuration.set_wcen_vals', 'configuration.py:Configuration._wcen_vals'],
     [('selections', 'redmapper/calibration')])

prop('P32', 'Numerical helpers honour their contracts on the whole input range',
     'Interpolation, splines, cloud-in-cell sampling, node placement, error models, profile and luminosity functions, sampling from a distribution and coordinate conversions return the documented value for every in-range input and the documented boundary behaviour outside. '
     'They do not modify their arguments except where documented.',
     [I], 'for every argument, including edges, single elements and values outside the range',
     FIX + 'a few interior arguments are compared with stored numbers.',
     ['utilities.py:*', 'const:utilities.py:*', 'solver_nfw/solver_nfw_lib.py:*'],
     [('helpers', 'redmapper/utilities.py')])

prop('P33', 'Diagnostic plots show the quantities they are labelled with',
     'Plots of redshift accuracy, number densities, richness and positions select, bin and normalise the catalogue quantities as their labels state, for clusters and for member galaxies alike. '
     'Making a plot changes neither catalogue nor configuration, and each plot is written under the file name of its product.',
     [I, C], 'for every catalogue and plot type',
     'Plots are not examined by any test.',
     ['plotting.py:*', 'configuration.py:Configuration.redmapper_filename', 'redsequence.py:RedSequenceColorPar.plot_*', 'calibration/redsequencecal.py:RedSequenceCalibrator._make_diagnostic_plots',
      'calibration/redsequencecal.py:RedSequenceCalibrator._plot_pulls', 'utilities.py:interpol'],
     [('plots', 'redmapper/plotting.py')])


# functions on which several of the properties depend as well
_ALSO = {
    'P01': ['cluster.py:Cluster.*', 'cluster_runner.py:*', 'galaxy.py:GalaxyCatalog.match_one', '*:Run*._process_cluster'],
    'P02': ['cluster_runner.py:*', 'cluster.py:*', 'run_percolation.py:*', 'run_firstpass.py:*', 'run_likelihoods.py:*', 'run_colormem.py:*', 'run_zscan.py:*', 'runcat.py:*', 'run_randoms_zmask.py:*', 'centering.py:*', 'zlambda.py:Zlambda.*'],
    'P03': ['cluster_runner.py:*', 'cluster.py:*', 'centering.py:*', 'zlambda.py:*'],
    'P04': ['cluster_runner.py:*', 'cluster.py:*', 'zlambda.py:Zlambda.*', 'centering.py:*'],
    'P05': ['cluster.py:Cluster.*', 'mask.py:*', 'background.py:Background.*', 'color_background.py:ColorBackground.*', 'chisq_dist/native_c.py:*'],
    'P06': ['cluster.py:Cluster.*', 'mask.py:Mask.*', 'background.py:Background.*', 'utilities.py:nfw_pdf', 'utilities.py:chisq_pdf'],
    'P07': ['cluster.py:*', 'catalog.py:*', '*:Run*._process_cluster'],
    'P08': ['cluster.py:Cluster.redshift*', 'cluster.py:Cluster.m*', 'chisq_dist/native_c.py:*', 'chisq_dist/chisq_dist_lib.py:*', 'redsequence.py:RedSequenceColorPar.__init__', 'cluster_runner.py:ClusterRunner.run'],
    'P09': ['cluster_runner.py:ClusterRunner.run', 'cluster_runner.py:ClusterRunner._setup'],
    'P10': ['run_percolation.py:RunPercolation._process_cluster', 'background.py:ZredBackground.*', 'cluster.py:Cluster.calc_zred_bkg_density', 'cluster.py:Cluster.calc_*'],
    'P11': ['*:Run*._process_cluster', 'cluster_runner.py:*', 'cluster.py:Cluster.calc_richness', 'cluster.py:Cluster.set_neighbors', 'catalog.py:*', 'pipeline/redmapperconsolidatetask.py:*', 'redmapper_run.py:*'],
    'P12': ['cluster_runner.py:*', '*:Run*.run', 'galaxy.py:GalaxyCatalog.from_galfile', 'redsequence.py:RedSequenceColorPar.__init__', '*:*Background.__init__', 'mask.py:*.__init__', 'depthmap.py:DepthMap.__init__', 'zlambda.py:*.__init__', 'volumelimit.py:*.__init__'],
    'P14': ['catalog.py:*'],
    'P15': ['galaxy.py:*', 'catalog.py:*'],
    'P17': ['redsequence.py:*', 'chisq_dist/native_c.py:*', 'chisq_dist/chisq_dist_lib.py:*', 'zred_runner.py:*'],
    'P18': ['zred_color.py:*', 'galaxy.py:GalaxyCatalog.from_galfile', 'galaxy.py:GalaxyCatalog.add_zred_fields', 'galaxy.py:GalaxyCatalog.__init__'],
    'P20': ['background.py:*', 'color_background.py:*'],
    'P21': ['background.py:*', 'color_background.py:*'],
    'P24': ['volumelimit.py:*', 'catalog.py:*'],
    'P25': ['configuration.py:Configuration.compute_border', 'configuration.py:Configuration.redmapper_filename', 'galaxy.py:GalaxyCatalog.from_galfile', 'catalog.py:Catalog.*', 'pipeline/redmappertask.py:*'],
    'P26': ['zred_runner.py:*', 'redmapper_run.py:*'],
    'P27': ['volumelimit.py:*', 'redmagic/redmagic_calibrate.py:*'],
    'P28': ['redmagic/redmagic_selector.py:*'],
    'P30': ['redsequence.py:*', 'zred_color.py:*', 'utilities.py:interpol'],
    'P31': ['galaxy.py:GalaxyCatalog.*', 'fitters.py:*', 'zlambda.py:ZlambdaCorrectionPar.*'],
    'P33': ['catalog.py:Catalog.*'],
}
for _p in P:
    _p['funcs'] += [x for x in _ALSO.get(_p['id'], ()) if x not in _p['funcs']]


# ---------------------------------------------------------------- properties this family cannot decide here
NA = []


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, funcs=[], files=files, mech=mech, reason=reason))


na('N01', 'Cluster redshifts are unbiased on real data',
   'Over a catalogue of clusters with known redshifts the corrected photometric redshifts have negligible bias and their quoted errors match the scatter.',
   [I], 'for every survey', 'It needs truth redshifts over whole surveys.', ['redmapper/zlambda.py', 'redmapper/calibration/zlambdacal.py'],
   [('correction', 'redmapper/zlambda.py:ZlambdaCorrectionPar')],
   'A statistical statement about numerical results on data; no static argument bounds it. The structural parts (what is fitted and applied) are P08 and P09.')
na('N02', 'Iterative fits and solvers converge',
   'Every numerical minimisation and root search used in measurement and calibration terminates at the global optimum within its tolerance.',
   [I], 'for every data set', 'Convergence depends on the data.', ['redmapper/fitters.py', 'redmapper/solver_nfw/solver_nfw.c'],
   [('fits', 'redmapper/fitters.py')],
   'Convergence and accuracy of numerical iteration quantify over run-time values. The objective functions and what happens on failure are P29, P05 and P08.')
na('N03', 'Selected red-galaxy samples reach the requested comoving density',
   'The selected sample has the requested comoving density at every redshift within Poisson noise.',
   [I], 'for every survey', 'It needs whole surveys.', ['redmapper/redmagic/redmagic_calibrate.py'], [('density', 'redmapper/redmagic/redmagic_calibrate.py')],
   'A statistical outcome of a numerical fit; the cuts that are fitted and applied are P27 and P28.')
na('N04', 'A run fits in the predicted memory',
   'The memory used by processing a sky pixel stays below the predicted amount.',
   [I, C], 'for every catalogue', 'Memory use depends on the data and the allocator.', ['redmapper/pipeline/mempredict.py'], [('prediction', 'redmapper/pipeline/mempredict.py')],
   'A resource bound over run-time sizes and library allocators; not visible in the shape of the code.')
