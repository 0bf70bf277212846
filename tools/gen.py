"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after edits)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'treecorr/'


def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None,
      technique=None, note=None, claimed=True, level='model_checking'):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mechanism=mechanism, state=state, observe=observe, hook=hook, technique=technique,
                note=note, claimed=claimed, level=level)


PROPS = [
 P('C01', 'Two-point results equal the direct sum over all pairs',
   'With bin_slop=0 and angle_slop=0, or with brute force, every two-point correlation reports for each bin exactly '
   'the pair count, total weight, weighted mean separation and weighted mean product of (projected) field values that a '
   'direct sum over all pairs of points gives, for every field type, coordinate system, metric and binning. '
   'With bin_slop=0 alone the counts, weights and scalar products are still exact. '
   'The tree-building options (top-level depth, split method) never change these results.',
   ['inputs', 'configurations'],
   'all point configurations (coincident, clustered, antipodal, zero weight), 18 correlation types, coordinate systems, metrics, '
   'bin types, separation ranges and tree options',
   'The shortcuts in the tree code (single-bin tests, too-small and too-large cuts, splitting rules) depend on how a particular '
   'configuration of cells sits against the bin edges; tests sample a few random catalogs, mostly Log binning with Euclidean metric.',
   ['src/Corr2.cpp', 'include/Corr2.h', 'include/Metric.h', 'include/BinType.h', 'src/Cell.cpp', 'src/Field.cpp',
    'include/ProjectHelper.h', T+'corr2base.py', T+'catalog.py'],
   [('pair recursion', 'src/Corr2.cpp BaseCorr2::process2/process11'), ('separation and rejection rules', 'include/Metric.h MetricHelper'),
    ('bin tests', 'include/BinType.h BinTypeHelper'), ('tree construction', 'src/Cell.cpp BuildCell')],
   [('per-bin sums', 'npairs, weight, xi and friends accumulated per separation bin', 'include/Corr2.h')],
   ['XXCorrelation.process(...) then npairs, weight, meanr, meanlogr, xi/xip/xim'],
   technique='bounded exhaustive enumeration of point configurations x configurations on the real code against an O(n^2) reference model'),
 P('C03', 'Patches never change a two-point result',
   'However the points are divided into patches (any assignment, gaps in the numbering, patches on one or both sides, lists of '
   'catalogs, loading patches one at a time to save memory), the counts, weights, means and normalisation total of a two-point '
   'correlation with slop switched off are those of the undivided data. The local patch method gives the same values, an auto '
   'correlation then counting every pair from both ends.',
   ['inputs', 'configurations'],
   'all assignments of points to patches, patch methods, coordinate systems, metrics and binnings',
   'Which pairs of patches may be skipped, and which points surround a patch, depends on the geometry of the assignment, the metric '
   'and the binning; tests compare a few k-means patchings of random data at loose tolerance.',
   [T+'corr2base.py', T+'nncorrelation.py', T+'catalog.py', 'src/Corr2.cpp'],
   [('loop over patch pairs', 'corr2base.py _process_all_auto/_process_all_cross'), ('skipping distant patches', 'Corr2._trivially_zero, BaseCorr2::triviallyZero'),
    ('surroundings of a patch', 'Corr2._make_expanded_patch'), ('patch sub-catalogs', 'Catalog.get_patches')],
   [('results', 'sums per pair of patches', 'corr2base.py')],
   ['process(cat with patches) then npairs, weight, meanr, xi, tot'],
   technique='bounded exhaustive enumeration of patch assignments on the real code against an O(n^2) reference model'),
 P('C04', 'Results do not depend on the number of threads or on how they are scheduled',
   'However many OpenMP threads a calculation uses, and in whatever order the scheduler lets them take work and enter their '
   'critical sections, a correlation (two-point or three-point, with or without patches, starting afresh or adding to what is there) '
   'gives the result of a single thread up to the order of additions; likewise the trees, patch centers and patch numbers made from a '
   'catalog. The number of threads is the one given in the call, else in the configuration, else the number of CPUs, never above the maximum set.',
   ['schedules', 'inputs', 'configurations'],
   'all schedules of the threads taking top-level cells and entering critical sections, for every correlation class, coordinate system, '
   'binning and metric',
   'A lost update or a shared scratch buffer shows up under particular interleavings only; tests run on whatever schedule the machine gives.',
   ['src/Corr2.cpp', 'src/Corr3.cpp', 'src/Field.cpp', 'src/KMeans.cpp', 'include/Corr2.h', 'include/Corr3.h', 'include/MultipoleScratch.h',
    T+'util.py', T+'corr2base.py', T+'corr3base.py'],
   [('thread-private correlation merged at the end', 'src/Corr2.cpp BaseCorr2::process, src/Corr3.cpp BaseCorr3::process*'),
    ('dynamic handing out of top-level cells', '#pragma omp for schedule(dynamic)'), ('k-means over cells', 'src/KMeans.cpp'),
    ('number of threads', 'util.py set_omp_threads, set_max_omp_threads')],
   [('shared result arrays', 'the sums into which the threads add', 'src/Corr2.cpp, src/Corr3.cpp')],
   ['process(..., num_threads=n), Field count_near/get_near, run_kmeans, Catalog(patch_centers=...)'],
   technique='stateless exploration of the thread schedules of the real code under a controlled scheduler (a replacement OpenMP run time), '
             'with vector-clock race detection'),
 P('C05', 'A correlation holds exactly what was put in, whatever the call history',
   'After any sequence of process (with and without initialize and finalize), process_auto, process_cross, +=, finalize, clear, '
   'copy and pickling, a correlation object shows the sums (or, once finalized, the means and shot-noise variances) of exactly '
   'the data accumulated since it was last started: arrays, normalisation total, numbers of patches and the per-patch results. '
   'A copy and its original never influence each other, += leaves its right-hand side alone, and reading a covariance changes nothing.',
   ['histories', 'configurations'],
   'all sequences of these operations, for every two-point and three-point correlation, with and without patches',
   'State leaks (stale caches, shared dicts, totals not reset) need a particular order of several calls on one object; tests '
   'mostly call process once per object.',
   [T+'corr2base.py', T+'corr3base.py', T+'nncorrelation.py', T+'nnncorrelation.py', T+'kkcorrelation.py', T+'nkcorrelation.py',
    T+'kkkcorrelation.py', T+'gggcorrelation.py'],
   [('accumulation of patch results', 'Corr2._single_process12, Corr3._single_process12/123'), ('copy', 'Corr2.copy, Corr3.copy'),
    ('reset', 'Corr2.clear/_clear'), ('addition', '__iadd__')],
   [('data arrays', 'weight, npairs, xi...', 'corr2base.py'), ('results', 'dict of per-patch-pair sums', 'corr2base.py'),
    ('_processed_cats1/2', 'catalogs whose variance enters the shot noise', 'corr2base.py')],
   ['public arrays, tot, results, npatch1/2, varxi after any call'],
   technique='explicit-state exploration of all bounded call sequences on the real objects against a multiset-of-contributions model'),
 P('C08', 'Dividing the work among MPI processes never changes a result',
   'For every number of processes, process(comm=...) leaves on rank 0 exactly what it gives without comm: every count, sum, mean, '
   'variance and total and the result of every pair or triple of patches, whatever the number and numbering of the patches, how the catalogs are given, '
   'patch_method and low_mem, also when more is added with initialize=False. Every message sent is received, by the rank it is for, and no rank waits '
   'for one that never comes. estimate_cov(comm=...) gives every rank the covariance that it gives without comm.',
   ['schedules', 'configurations', 'inputs'],
   'all numbers of ranks and patches up to a bound x kinds of correlation x patch methods x ways to give the catalogs x message orders',
   'Which rank does which pair of patches depends on the indices, their parity and the numbers of patches and ranks; one combination tested says nothing about the others.',
   [T+'corr2base.py', T+'corr3base.py'],
   [('jobs', 'is_my_job in _process_all_auto, _process_all_cross12, _process_all_cross'), ('gather', 'comm.send, comm.recv there'), ('covariance', 'corr2base.py _make_cov_design_matrix')],
   [('my_indices', 'patches assigned to a rank', 'corr2base.py'), ('results', 'results by patches', 'corr2base.py, corr3base.py')],
   ['process', 'estimate_cov'],
   technique='explicit enumeration of a message-passing world: the real code runs on every rank over a modelled communicator that records all messages and '
             'collectives (every arrival order where the source is not named), compared with the run without MPI'),
P('C09', 'Patch-based covariances are the covariance of recomputed results',
   'For every way of resampling (jackknife, sample, bootstrap, marked bootstrap) each row of the covariance design matrix is '
   'exactly the statistic one gets by repeating the whole calculation with only the patch pairs the method selects (with '
   'the multiplicities the bootstrap drew), its weight is the weight of that selection, and the covariance is the documented combination of the rows. '
   'This holds for patches on one or both sides, unequal or empty patches, several correlations at once and functions of '
   'them. Asking for a covariance leaves the correlation as it was.',
   ['inputs', 'configurations'],
   'all assignments of points to patches (empty ones too), sides with patches, resampling index vectors, correlation types',
   'The selection of patch pairs is written once per method and per shape of patching and never compared with a real '
   'recalculation; an error of a few per cent in a noisy covariance passes every statistical tolerance.',
   [T+'corr2base.py', T+'ngcorrelation.py', T+'nkcorrelation.py', T+'ggcorrelation.py'],
   [('pair selection', 'corr2base.py JackknifePairIterator, SamplePairIterator, BootstrapPairIterator, MarkedPairIterator'),
    ('combination', 'corr2base.py _cov_jackknife, _cov_sample, _cov_bootstrap, _cov_marked'), ('one resampling', 'Corr2._calculate_xi_from_pairs')],
   [('results', 'sums per pair of patches', 'corr2base.py')],
   ['estimate_cov, estimate_multi_cov, build_cov_design_matrix'],
   technique='bounded exhaustive enumeration of patch assignments x all resampling index vectors on the real code against direct recomputation'),
 P('C13', 'Estimators with randoms equal their formula, also in every resampling',
   'NN.calculateXi gives exactly (DD-2DR+RR)/RR (with DR, RD or both), or (DD-RR)/RR, of the normalised counts, and NX.calculateXi '
   'gives the data minus the random signal, in every bin, for auto and cross correlations. With patches on the data or on some '
   'of the randoms, each resampling of the covariance uses the same formula on the selected patch pairs of every ingredient '
   '(unpatched randoms scaled by area as documented), and the inputs and repeated calls are not affected by the calculation.',
   ['inputs', 'configurations', 'histories'],
   'all combinations of data/random catalogs, patchings of either (different, empty, none), estimators and resamplings',
   'Only a few combinations of patched and unpatched randoms are tested, statistically; the missing pairs of patches and '
   'normalisations differ by combination.',
   [T+'nncorrelation.py', T+'ngcorrelation.py', T+'nkcorrelation.py', T+'nzcorrelation.py', T+'nvcorrelation.py', T+'ntcorrelation.py',
    T+'nqcorrelation.py', T+'corr2base.py'],
   [('estimators', 'NNCorrelation.calculateXi, N*Correlation.calculateXi'), ('resampling', '_calculate_xi_from_pairs'),
    ('alignment of patch pairs', 'nncorrelation.py _add_tot, _zero_copy')],
   [('_rr,_dr,_rd,_rg', 'the randoms in use', T+'nncorrelation.py')],
   ['calculateXi, xi, varxi, cov, build_cov_design_matrix'],
   technique='bounded exhaustive enumeration of catalogs x patchings x resamplings on the real code against direct recomputation'),
 P('C02', 'Three-point results equal the direct sum over all triangles',
   'With bin_slop=0 and angle_slop=0, or with brute force, NNN, KKK and GGG report for each LogRUV, LogSAS or LogMultipole bin '
   'exactly the triangle count, total weight, weighted mean sides (and angles) and weighted mean product of field values '
   '(projected as documented, or times exp(i n phi)) that a direct sum over all triangles of points gives, for auto and cross '
   'correlations, ordered or not, every coordinate system and metric, whatever the tree options. toSAS gives the documented '
   'Fourier sum of the multipoles.',
   ['inputs', 'configurations'],
   'all point configurations, three-point classes, bin types, metrics, coordinate systems, orderings and tree options',
   'Which of the six orientations of a triangle counts where, and when three cells can be stopped or skipped, depends on the '
   'relation of the sides to the bin edges; tests use a few random catalogs.',
   ['src/Corr3.cpp', 'include/Corr3.h', 'include/BinType.h', 'include/Metric.h', 'include/ProjectHelper.h', 'include/MultipoleScratch.h',
    T+'corr3base.py', T+'nnncorrelation.py', T+'kkkcorrelation.py', T+'gggcorrelation.py'],
   [('triangle recursion', 'src/Corr3.cpp BaseCorr3::process3/process12/process111'), ('multipoles', 'src/Corr3.cpp multipoleSplit/multipoleFinish'),
    ('bin tests', 'include/BinType.h BinTypeHelper<LogRUV/LogSAS/LogMultipole>'), ('toSAS', 'Corr3.toSAS')],
   [('per-bin sums', 'ntri, weight, zeta, gam0..3', 'include/Corr3.h')],
   ['XXXCorrelation.process(...) then ntri, weight, meand1.., zeta, gam0..3, toSAS'],
   technique='bounded exhaustive enumeration of point configurations x configurations on the real code against an O(n^3) reference model'),
 P('C18', 'Patches never change a three-point result',
   'However the points are divided into patches (any assignment, gaps in the numbering, patches on some of the catalogs only, lists '
   'of catalogs, low_mem), and for the global and the local patch method alike, the counts, weights, means, values and '
   'normalisation total of a three-point correlation with slop switched off are those of the undivided data, and the '
   'results kept per triple of patches add up to the whole.',
   ['inputs', 'configurations'],
   'all assignments of points to patches, patch methods, bin types, metrics and coordinate systems',
   'Which triples of patches may be skipped, and which orientation goes to which call, depends on the geometry of the patches, '
   'the metric and the bin type; tests compare a few k-means patchings at loose tolerance.',
   [T+'corr3base.py', T+'nnncorrelation.py', T+'kkkcorrelation.py', T+'gggcorrelation.py', T+'corr2base.py', T+'catalog.py'],
   [('loop over triples of patches', 'corr3base.py _process_all_auto/_process_all_cross12/_process_all_cross'),
    ('skipping distant patches', 'Corr3._trivially_zero'), ('surroundings of a patch', '_make_expanded_patch')],
   [('results', 'sums per triple of patches', 'corr3base.py')],
   ['process(cat with patches) then ntri, weight, zeta, gam0..3, tot, results'],
   technique='bounded exhaustive enumeration of patch assignments on the real code against an O(n^3) reference model'),
 P('C10', 'Patches partition the points by nearest center; k-means does what it says',
   'Every point belongs to exactly one patch, that of its nearest center, by whichever route it is assigned (from a field, by patch_centers '
   'as an array or file, selecting one patch at a time, loading patches of a file). k-means starts from npatch of the points (or cell '
   'centroids), for every outcome of the random numbers and any points, coincident ones included; each iteration moves every center to the '
   'mean of the points nearest to it, until the shift is below the tolerance or max_iter is reached; the standard algorithm leaves no patch '
   'empty. Centers survive writing and reading, and are the weighted means where labels were given.',
   ['inputs', 'configurations', 'histories'],
   'all small point configurations (coincident, equidistant, at the origin), sets of centers, coordinate systems, trees, all outcomes of the random numbers',
   'Culling of candidate centers in the tree, ties, coincident points and rare random numbers matter for particular configurations only; '
   'tests run k-means on a few large random catalogs and look at statistics of the result.',
   ['src/KMeans.cpp', 'src/Cell.cpp', 'src/Field.cpp', T+'field.py', T+'catalog.py'],
   [('candidate culling', 'KMeans.cpp FindCellsInPatches'), ('initial centers', 'KMeans.cpp InitializeCentersTree/Rand/KMPP'),
    ('direct assignment', 'KMeans.cpp QuickAssign, SelectPatch'), ('centers', 'catalog.py get_patch_centers, write_patch_centers')],
   [('_patch, _centers', 'patch labels and centers of a catalog', 'catalog.py')],
   ['Field.run_kmeans, kmeans_*', 'Catalog(npatch=, patch_centers=, patch=)', 'Catalog.patch, patch_centers, get_patches'],
   technique='bounded exhaustive enumeration of point and center configurations, and of all outcomes of the random numbers (rand() replaced by '
             'an explored choice), on the real code against brute-force reference models'),
 P('C11', 'A catalog is exactly the selected rows of its input',
   'A Catalog holds, row by row, what its input says for the selected rows (first_row, last_row, every_nth), with the documented '
   'meaning of units, flips, flags, weights, position weights, NaN and keep_zero_weight, formulas (*_eval), extensions, num and is_rand, '
   'and it holds the same whether the values come from arrays, FITS, HDF5, Parquet or ASCII files, are read at once or '
   'lazily, again after unload, for one patch only, patch by patch (in memory, low_mem, or saved patch files), through a '
   'copy, a pickle, its repr, or a file written by Catalog.write.',
   ['inputs', 'configurations', 'histories'],
   'all combinations of sources, row selections, column options, patch specifications and ways to reach the data',
   'The options interact (row selection with patches, flags with position weights, lists with num), and most pairs of them '
   'are met in no test; an error silently selects or weights other objects.',
   [T+'catalog.py', T+'reader.py', T+'writer.py', T+'config.py', 'src/KMeans.cpp'],
   [('reading a file', 'catalog.py _read_file, reader.py'), ('finishing the input', 'catalog.py _finish_input, select'),
    ('patches', 'catalog.py get_patches, read_patches, write_patches, _get_patch_index'), ('writing', 'catalog.py write, writer.py')],
   [('columns', '_x.._q2, _w, _wpos, _patch', 'catalog.py'), ('_sumw, _nobj, _var*', 'sums', 'catalog.py')],
   ['Catalog(...)', 'load', 'unload', 'get_patches', 'copy', 'write', 'Catalog.combine'],
   technique='bounded exhaustive enumeration of sources and options on the real code against a reference model of the catalog'),
 P('C06', 'No history of operations changes what a catalog is',
   'Whatever sequence of operations a Catalog has been through (load, unload, select, building fields and trees with any '
   'options, clearing or resizing caches, get_patches in any mode, reading and writing patches, copies, pickling, writing, '
   'being processed), every answer it then gives (columns, sums, patch centers, patches, counts of neighbours, fields, results of '
   'correlating it) is the one a fresh catalog of the same input gives, and the caches never return a field built with other options.',
   ['histories', 'histories'],
   'all sequences of operations to depth two or three over catalogs of every kind (arrays, files, patches, patch files, jk, centers)',
   'The state of a catalog is spread over lazily computed attributes and caches that a test touches in one order only; a stale '
   'value silently gives results for other data.',
   [T+'catalog.py', T+'util.py', T+'field.py'],
   [('state', 'catalog.py load, unload, select, _sumw, patch_centers'), ('caches', 'catalog.py get*Field, resize_cache, clear_cache; util.py LRU_Cache'),
    ('patches', 'catalog.py get_patches, read_patches, write_patches')],
   [('_nfields.._qfields', 'caches', 'catalog.py'), ('_patches, _centers, _computed_centers', 'patches', 'catalog.py')],
   ['load', 'unload', 'select', 'getNField', 'get_patches', 'write_patches', 'read_patches', 'resize_cache', 'copy'],
   technique='bounded exhaustive exploration of operation sequences on the real code against a reference model of the catalog'),
 P('C07', 'A result file holds the result, and reading it restores the object',
   'Every file written by a correlation has the documented columns with the documented contents, and reading it (by from_file '
   'of the class or of its base, or read on a new or used object; ASCII, FITS, HDF5) gives an object with the same results, '
   'configuration, patch results and covariance, from which covariances, copies, new files and further processing come out as '
   'from the object that was written; writing changes nothing in the object.',
   ['inputs', 'configurations', 'histories'],
   'all combinations of class, binning, catalogs and patches, randoms, options, file format, what is written, how it is read',
   'Tests write a few classes with one configuration; a column swapped on both sides, state left from an earlier result, or '
   'something missing from the file is noticed only in what is done with the object afterwards.',
   [T+'corr2base.py', T+'corr3base.py', T+'nncorrelation.py', T+'nnncorrelation.py', T+'writer.py', T+'reader.py'],
   [('writing', '_write, _write_col_names, _write_data, _write_params'), ('reading', '_read, _read_from_data, from_file'),
    ('formats', 'writer.py, reader.py')],
   [('results', 'patch results', 'corr2base.py, corr3base.py'), ('_cov, _var_num', 'covariance', 'corr2base.py, corr3base.py')],
   ['write', 'read', 'from_file', 'estimate_cov', 'process'],
   technique='bounded exhaustive enumeration of objects x formats x ways of reading on the real code against an independent parser and the written object'),
 P('C14', 'Neighbour queries and pair samples are exact',
   'count_near and get_near of a field give the number and indices of exactly the points within the given separation of a place, for every '
   'kind of field, tree options and min_size, and every documented way to give the place. sample_pairs returns n different pairs of '
   'indices whose separations (in the metric of the correlation) lie in the range, all of them when there are no more than n, every set of n '
   'equally likely over the random numbers; exactly so with bin_slop=0 or brute force, within the slop otherwise; whatever '
   'fields and correlations were made from the catalogs before.',
   ['inputs', 'configurations', 'histories'],
   'all small configurations of points, places, separations and ranges, field kinds and options, and all outcomes of the random numbers',
   'Whether a cell is taken whole depends on how it sits against the limit; the sampling has three algorithms chosen by the sizes of cell pairs, '
   'and a bias or repeated pair is invisible in one random sample.',
   ['src/Corr2.cpp', 'src/Field.cpp', 'include/BinType.h', T+'field.py', T+'corr2base.py', T+'util.py'],
   [('queries', 'Field.cpp CountNear, GetNear; field.py get_near; util.py parse_xyzsep'), ('sampling', 'Corr2.cpp Sampler, SelectRandomFrom; corr2base.py sample_pairs')],
   [('_k, _n', 'pairs seen so far and wanted', 'Corr2.cpp Sampler')],
   ['Field.count_near', 'Field.get_near', 'Corr2.sample_pairs'],
   technique='bounded exhaustive enumeration of configurations, and of all outcomes of the random numbers (rand() replaced by an explored choice), '
             'on the real code against brute-force reference models'),
 P('C19', 'Three-point covariances and zeta with randoms equal their definition',
   'For KKK and GGG (auto, cross, ordered or not, patches on all or some catalogs, global or local) every row of the jackknife, sample, '
   'bootstrap and marked-bootstrap design matrices is the statistic of exactly the triples of patches that the resampling selects, '
   'the covariance is the documented combination of the rows (several statistics together included), and the correlation is not '
   'changed. NNN.calculateZeta gives (DDD-RRR)/RRR or (DDD-RDD+DRR-RRR)/RRR of the normalised counts, in every bin and in every '
   'resampling, whether the randoms have patches or not.',
   ['inputs', 'configurations', 'histories'],
   'all combinations of catalogs, patchings of data and randoms, estimators, resamplings and index vectors',
   'Tests compare three-point covariances with field-to-field scatter to tens of per cent; a missing or doubled class of triples hides in that.',
   [T+'corr3base.py', T+'nnncorrelation.py', T+'kkkcorrelation.py', T+'gggcorrelation.py', T+'corr2base.py'],
   [('triple selection', 'corr3base.py _jackknife_pairs, _sample_pairs, _bootstrap_pairs, _marked_pairs'),
    ('zeta', 'NNNCorrelation.calculateZeta, _calculate_xi_from_pairs'), ('combination', 'corr2base.py _cov_*')],
   [('results', 'sums per triple of patches', T+'corr3base.py'), ('_rrr,_drr,_rdd', 'the randoms in use', T+'nnncorrelation.py')],
   ['calculateZeta, zeta, cov, estimate_cov, build_cov_design_matrix'],
   technique='bounded exhaustive enumeration of patch assignments x all resampling index vectors on the real code against direct recomputation'),
 P('C15', 'Configurations mean the same everywhere; corr2 and corr3 equal the calls',
   'Every value given as a keyword, in a config dict, as a string, or in a YAML, JSON or params file means the same; a list of values '
   'applies to the files or columns one by one; unknown names, and values outside the documented choices, are refused by name. For '
   'every output that corr2 or corr3 can write, every combination of one or two fields, files or lists, randoms, and statistic, the '
   'file written has the same columns and values as the documented Python calls on the same data.',
   ['configurations', 'inputs'],
   'every parameter of every class x spellings; every output name x inputs x randoms x statistic x form of the configuration',
   'The number of combinations of outputs, inputs and statistics is far more than tests try; a wrong file, column or random set gives plausible numbers.',
   [T+'config.py', T+'exec_corr2.py', T+'exec_corr3.py', T+'catalog.py', 'scripts'],
   [('parsing', 'config.py parse_variable, read_config, check_config, get_from_list'), ('running', 'exec_corr2.py corr2, exec_corr3.py corr3')],
   [('config', 'the parameters of a run', T+'config.py')], ['corr2, corr3, Catalog and correlation constructors'],
   technique='bounded exhaustive enumeration of configurations on the real code against the corresponding direct calls'),
 P('C12', 'bin_slop and angle_slop bound every two-point approximation as documented',
   'Two-point results with bin_slop > 0 or angle_slop > 0 (default, given, or default for the bin type), any tree options, brute 1 or 2, '
   'with or without patches: no pair is placed in a bin further than bin_slop bins from its true separation, and every pair inside the '
   'range by more than that counts once. So for every interval of bins (rectangle for TwoD) the totals of npairs, weight and of '
   'nonnegative products lie between those of the pairs inside it and outside it by bin_slop bins. The default bin_slop for Log is 1 if '
   'bin_size <= 0.1, else 0.1/bin_size. brute=True is exact. With bin_slop=0 the projection of fields with spin errs by at most '
   'angle_slop radians per unit of spin, and meanr, meanlogr by no more than the slop.',
   ['inputs', 'configurations'],
   'all point sets up to the bounds x metrics x bin types x slops x tree options',
   'The approximations depend on the trees and where the edges fall; tests compare with tolerances on a few catalogs.',
   ['include/BinType.h', 'src/Corr2.cpp', T+'corr2base.py'],
   [('tree descent', 'src/Corr2.cpp process11'), ('one-bin test', 'include/BinType.h singleBin'), ('slop parameters', 'corr2base.py Corr2.__init__')],
   [('b, a', 'the slops in use', T+'corr2base.py')], ['npairs, weight, xi, meanr, meanlogr after process'],
   technique='bounded exhaustive enumeration of point sets, bins, slops and tree options on the real code against per-interval bounds from the definition'),
 P('C20', 'Aperture mass, shear variance and total variances are the documented sums',
   'calculateMapSq, calculateGamSq, calculateNMap, calculateNapSq and calculateMap3, for any R (None or array), form (by argument, config or '
   'default), and with the optional correlations (rg; rr, dr, rd; the other GGGs), are the documented sums over the bins '
   'of the correlation functions with the documented kernels (Map3: the integral over aperture centers), with the variances that follow '
   'from varxi; files written by writeMapSq, writeNMap, writeNorm and writeMap3 hold the same numbers; an invalid form, and '
   'non-Log binning for GG, are refused; and nothing of the correlation changes. varxi and cov of NK, NG, etc. compensated with randoms are '
   'the total shot noise, with or without patches; raw_xi and raw_varxi are those without randoms.',
   ['inputs', 'configurations'],
   'all fields with one or two nonzero bins and all basis values x R x form x option x method',
   'Tests compare with fits of analytic curves to a few per cent, and only for one setting.',
   [T+'ggcorrelation.py', T+'ngcorrelation.py', T+'nncorrelation.py', T+'nkcorrelation.py', T+'nzcorrelation.py', T+'gggcorrelation.py', T+'corr2base.py'],
   [('kernels', 'GGCorrelation.calculateMapSq, GamSq; NG.calculateNMap; NN.calculateNapSq; GGG.calculateMap3'),
    ('variances', 'corr2base.py _cov_shot, NK and NZ calculateXi')],
   [('xi, varxi', 'the binned results used', T+'corr2base.py')], ['calculate* and write* of the statistics, varxi, cov, raw_xi, raw_varxi'],
   technique='bounded exhaustive enumeration of the basis of the inputs x options on the real code against the documented formulas'),
 P('C17', 'Bins and columns are the ones asked for; impossible requests are refused',
   'A correlation is constructed from exactly three of nbins, bin_size, min_sep, max_sep (TwoD: two of nbins, bin_size, max_sep, with min_sep '
   'optional), given as keywords, None, text, or in a config that keywords override, and then has exactly those bins: nbins, bin_size, min_sep, max_sep, '
   'left_edges, right_edges, rnom, logr (and dxnom, dynom, top and bottom edges), in sep_units, with bin_size adjusted only where nbins is '
   'rounded up; likewise u, v, phi (in phi_units) and n of three-point binnings. Every pair inside a bin is counted in it, and meanr is '
   'in sep_units. Other combinations raise TypeError or ValueError: max <= min, wrong numbers of parameters, those of another '
   'binning, unknown names or values. So does process with a metric, coordinates, bin type, rpar limits, periods and units that do not go together '
   '(Rperp: 3d; Rlens: cross, first 3d; Arc: angles; Periodic: flat or 3d with its periods, not otherwise; TwoD: flat Euclidean; rpar: 3d; '
   'sep_units with 3d: Arc only), and the object is as before. A Catalog needs x,y or ra,dec with units, both components of '
   'each complex field, equal lengths, possible rows and patches; else it is refused; it then holds the columns given.',
   ['configurations', 'histories', 'inputs'],
   'every subset of the parameters of each group x values x classes; every combination of metric, coordinates, bin type, limits, periods, units; every subset of columns',
   'The combinations are too many to test one by one, and a parameter that is ignored or a check that is skipped gives plausible results.',
   [T+'corr2base.py', T+'corr3base.py', T+'catalog.py', T+'util.py', T+'config.py'],
   [('binning', 'Corr2.__init__, Corr3.__init__'), ('metric', 'util.py parse_metric, corr2base.py and corr3base.py _set_metric'), ('columns', 'Catalog.__init__')],
   [('_ro', 'the binning in use', T+'corr2base.py'), ('coords, metric', 'set by process', T+'corr2base.py')],
   ['constructors, process, attributes of the bins'],
   technique='bounded exhaustive enumeration of parameter combinations and of histories of refused and allowed requests on the real code against the documented rules'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                             'mechanism': [dict(name=a, where=b) for a, b in p['mechanism']]},
                 'observe_at': list(p['observe']), 'hook_needed': p['hook']}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    py = '/opt/venv/bin/python'
    checks, na = [], []
    for p in PROPS:
        if not p['claimed']:
            na.append(dict(property=p['id'], reason=p['note']))
            continue
        c = p['id'].lower()
        checks.append({
            'property': p['id'], 'quick_cmd': '%s checks/%s.py --tier quick' % (py, c),
            'thorough_cmd': '%s checks/%s.py --tier thorough' % (py, c),
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'],
            'level_note': p['note'] or ('Exhaustive within the bounds printed in the evidence file; assumes the reference '
                                       'model in mc/ (written from the documentation) states the definitions correctly and '
                                       'says nothing about values outside the alphabets.')})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks build /repo\'s own sources', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Checks build the extension from /repo\'s working tree into /verif/.cache and import treecorr from a shadow '
                  'package in a scratch directory; see DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
